#!/usr/bin/env python3
"""I03 safe interpreters: spec/Safe.tla bound to interpreters with restricted file access, in a tree of files in a scratch directory."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, files
from files import TOP, P, text, data

PRE = files.PRE[:files.PRE.index('var ROOT')] + files.PRE[files.PRE.index('function D(x)'):]
NEST = r'''
var nested = null;
function NEST(code) {
    if (nested === null) {
        nested = new Interp({isSafe:false, safeReadDirs:[ROOT], safeWriteDirs:[ROOT]});
        nested.eval('var ROOT="'+ROOT+'";'+Util.base64("%s", true));
    }
    return nested.eval('function XX() {'+code+'}; return XX();');
}
'''


def js(e):
    o, a = e['op'], e['a']
    via = e.get('via', '')
    if o == 'nest':
        return 'return NEST(%s);' % json.dumps(js(a[0]))
    p = text(a[0]) if a else ''
    if o == 'chmod':        # (always to read and write; the driver can not always tell whether this is a directory)
        return 'File.chmod(%s, 493); return Z(0);' % p
    if o == 'read' and via == 'chan':
        return 'var c = new Channel(%s, "r"); var x = c.read(); c.close(); return S(typeof x === "undefined" ? "" : x);' % p
    if o == 'write' and via:
        return 'var c = new Channel(%s, "%s"); var n = %s; c.close(); return N(n);' % (p, 'a' if a[2] == 'a' else 'w', 'c.write(%s)' % data(a[1]) if a[1] else '0')
    if o == 'use':
        if via == 'hash':
            return 'Util.hash("", {file:%s}); return Z(0);' % p
        if via == 'source':
            # (a relative path would be taken from the directory of the script that has it)
            return 'source(%s%s); return Z(0);' % ('' if a[0]['abs'] else 'File.pwd()+"/"+', p)
        return 'var d = new Sqlite(":memory:"); d.eval("CREATE TABLE t(x);"); d.import("t", %s); return Z(0);' % p
    if o == 'db':
        if via == 'open':
            return 'var d = new Sqlite(%s); d.eval("CREATE TABLE IF NOT EXISTS t(x); INSERT INTO t VALUES(1);"); d = null; return Z(0);' % p
        if via == 'attach':
            return 'var d = new Sqlite(":memory:"); d.eval("ATTACH \'"+%s+"\' AS o;"); d.eval("CREATE TABLE IF NOT EXISTS o.t(x);"); d = null; return Z(0);' % p
        return 'var d = new Sqlite(":memory:"); d.eval("CREATE TABLE t(x);"); d.backup(%s); d = null; return Z(0);' % p
    if o == 'dbnew':
        return 'var d = new Sqlite(":memory:"); d.eval("CREATE TABLE t(x);"); d.eval("VACUUM INTO \'"+%s+"\';"); d = null; return Z(0);' % p
    if o == 'dbread':
        if via == 'restore':
            return 'var d = new Sqlite(":memory:"); d.restore(%s); d.eval("SELECT * FROM t;"); d = null; return Z(0);' % p
        return 'var d = new Sqlite(%s, {readonly:true}); d.query("SELECT * FROM t;"); d = null; return Z(0);' % p
    if o == 'exec':
        return ('exec("touch "+%s);' if via == 'exec' else 'load(%s);') % p + ' return Z(0);'
    return files.js(e)


def abspath(root, c):
    return '/'.join([root] + [files.LONG if x == 'L' else x for x in c])


class Gen(files.Gen):
    def __init__(self, r):
        super().__init__(r)
        self.perm = False
        self.bias = 0.0

    def bytes(self):
        r = self.r
        return [r.choice(['3b', '0a', '20']) for _ in range(r.choice([0, 1, 2, 3, 4]))]

    def path(self, safe=False):
        p = super().path(safe)
        c = p['c']
        if not p['abs'] and c[0] not in ('w', 'v', '..') and self.r.random() < self.bias:
            p['c'] = ['w'] + c
        elif p['abs'] and len(c) > 4 and c[4] != 'w' and self.r.random() < self.bias:
            p['c'] = TOP + ['w'] + c[4:]
        return p

    def qpath(self):
        p = self.path(True)
        c = [x for x in p['c'] if x not in ('..', '.')][:-1] + ['q']
        if self.r.random() < 0.6:
            c = c[-2:] if not p['abs'] else c
            if self.made and self.r.random() < 0.4:
                c = list(self.r.choice(self.made)) + ['q']
                p['abs'] = False
        if p['abs'] and c[:4] != TOP:
            p['abs'] = False
        return dict(abs=p['abs'], c=c)

    def access(self):
        r = self.r
        o = r.choice(['write'] * 6 + ['read'] * 6 + ['copy'] * 4 + ['rename'] * 4 + ['remove'] * 4 + ['mkdir'] * 4 + ['link'] * 5 + ['use'] * 5 + ['db'] * 5 +
                     ['dbnew', 'dbread', 'dbread', 'exec', 'trunc', 'trunc', 'chmod', 'chdir', 'chdir', 'pwd', 'exists', 'isdir', 'isfile', 'readable', 'writable', 'size', 'perms',
                      'stat', 'lstat', 'readlink', 'glob', 'glob', 'glob', 'glob'])
        if o in ('db', 'dbnew', 'dbread'):
            self.ev(o, self.qpath())
            self.evs[-1]['via'] = r.choice(['open', 'attach', 'backup'] if o == 'db' else ['restore', 'open'])
            if o == 'dbnew':
                self.evs[-1]['via'] = ''
            return
        if o in ('use', 'exec'):
            self.ev(o, self.path())
            self.evs[-1]['via'] = r.choice(['hash', 'source', 'import'] if o == 'use' else ['exec', 'load'])
            return
        if o == 'glob':
            g = dict(files.G0)
            pats = [self.pat()]
            if r.random() < 0.5:
                g['recurse'], g['maxDepth'] = True, r.choice([1, 2, 3])
            elif r.random() < 0.5:
                pats = [r.choice([['*'], list(files.name(r.choice(self.names))), ['w']])] + pats
            self.ev(o, self.path() if r.random() < 0.8 else P(), pats, g)
        elif o == 'chmod':
            self.ev(o, self.path(True), True, True)
        elif o == 'chdir':
            self.ev(o, r.choice([P('w'), P('w', 'v'), dict(abs=True, c=TOP), dict(abs=True, c=TOP + ['w']), dict(abs=True, c=TOP + ['w', 'v'])]))
        elif o == 'write':
            p = self.path(True)
            v = r.choice(['', 'chan'])
            self.ev(o, p, self.bytes(), r.choice(['', 'w', 'a', 'a']) if not v else r.choice(['w', 'a']))
            if v:
                self.evs[-1]['via'] = v
        elif o == 'read':
            self.ev(o, self.path())
            self.evs[-1]['via'] = r.choice(['', 'chan'])
        elif o in ('copy', 'rename'):
            self.ev(o, self.path(True), self.path(True), r.random() < 0.5)
        elif o == 'remove':
            self.ev(o, self.path(True), r.random() < 0.5)
        elif o == 'mkdir':
            p = self.path(True)
            self.ev(o, p, r.random() < 0.5)
            self.note(p)
        elif o == 'link':
            hard = r.random() < 0.3
            p, q = self.path(hard), self.path(True)
            if not hard and '..' in p['c']:
                if self.ups >= 2:
                    return
                self.ups += 1
            self.ev(o, p, q, hard)
            self.note(q)
        elif o == 'trunc':
            self.ev(o, self.path(), r.choice([0, 1, 2]))
        elif o == 'pwd':
            self.ev(o)
        else:
            self.ev(o, self.path())

    def run(self, n):
        r = self.r
        self.links = True
        self.setup()
        for _ in range(r.choice([0, 2, 5])):
            k = len(self.evs)
            self.step()
            if k < len(self.evs) and self.evs[-1]['op'] not in ('write', 'mkdir', 'link'):
                del self.evs[-1]
        W = TOP + ['w']
        f = r.choice([e['a'][0]['c'] for e in self.evs if e['op'] == 'write' and not e['a'][0]['abs'] and not set(e['a'][0]['c']) & {'..', '.'}] or [['w']])
        pool = [W, W, W, W + ['v'], TOP, TOP + f, TOP + [r.choice(self.names)]]
        rd = [r.choice(pool) for _ in range(r.choice([0, 1, 1, 1, 2]))]
        wr = [r.choice(pool[:5] + pool[:4]) for _ in range(r.choice([0, 1, 1, 1]))]
        if r.random() < 0.5:
            wr = rd
        wr = [x for x in wr if x in (W, W + ['v'], TOP)]
        self.bias = 0.5
        how = r.choice(['sub', 'sub', 'sub', 'main', 'lock'])
        if how == 'lock':
            rd = wr = [r.choice([W, W, TOP])]
        # a place that is granted must not be a link itself
        links = [tuple(e['a'][1]['c']) for e in self.evs if e['op'] == 'link']
        rd = [x for x in rd if not any(tuple(x[4:][:k]) in links for k in range(1, 9))]
        if not rd and not wr:
            rd = [W]
        self.ev('grant', rd, wr, how == 'lock')
        self.evs[-1]['how'] = how
        g = len(self.evs)
        while len(self.evs) < g + n:
            k = len(self.evs)
            self.access()
            if k < len(self.evs) and r.random() < 0.08 and self.evs[-1]['op'] not in ('chdir', 'pwd', 'exec'):
                e = self.evs.pop()
                self.evs.append(dict(op='nest', a=[e]))
        self.ev('final')
        return self.evs


def main(c):
    def runner(plan):
        d, m = c.newdir(), c.newdir()
        q = d
        for x in TOP + ['w', 'v']:
            q = os.path.join(q, x)
            os.mkdir(q)
            if c.dropuid:
                os.chown(q, vf.NOBODY, vf.NOBODY)
        at = [k for k, e in enumerate(plan) if e['op'] == 'grant']
        at = at[0] if at else len(plan)
        g = plan[at] if at < len(plan) else None
        cwd = os.path.join(d, *TOP)
        root = 'var ROOT=%s;' % json.dumps(d)

        def go(evs, txt, conf=None):
            f = os.path.join(m, 'main.jsi')
            with open(f, 'w') as fh:
                fh.write(txt)
            argv = [c.jsish]
            if conf:
                argv += ['--I', conf]
            r = c.run(argv + [f], cwd)
            return vf.out_events(r, evs), r

        text1 = PRE + root + ''.join('DO(%d, function() { %s });\n' % (k, js(e)) for k, e in enumerate(plan[:at]) if e['op'] != 'final')
        first = [e for e in plan[:at] if e['op'] != 'final']
        text2 = ''
        evs, r = go(first, text1)
        good = r.rc == 0 and not any('bad' in e for e in evs)
        if g and good:
            ops = [e for e in plan[at + 1:] if e['op'] != 'final']
            how = g.get('how', 'sub')
            nest = NEST % vf.base64s(PRE)
            do = ['DO(%d, function() { %s });' % (k, js(e)) for k, e in enumerate(ops)]
            dirs = dict(safeReadDirs=[abspath(d, x) for x in g['a'][0]], safeWriteDirs=[abspath(d, x) for x in g['a'][1]])
            conf = None
            if how == 'sub':
                opts = 'isSafe:true' + ''.join(', %s:%s' % (k, json.dumps(v)) for k, v in dirs.items() if v)
                text2 = ('var i = new Interp({%s});\n' % opts + 'i.eval(Util.base64("%s", true));\n' % vf.base64s(root + PRE + nest) +
                         ''.join('try { i.eval(Util.base64("%s", true)); } catch(e) { };\n' % vf.base64s(x) for x in do))
            else:
                text2 = root + PRE + nest + '\n'.join(do) + '\n'
                cf = os.path.join(m, 'conf')
                with open(cf, 'w') as fh:
                    json.dump(dict(isSafe=True, **{k: v for k, v in dirs.items() if v}), fh)
                conf = 'confFile=' + cf if how == 'main' else 'lockDown=' + dirs['safeReadDirs'][0]
            e2, r = go(ops, text2, conf)
            evs = evs + [dict(g, r=['ok', []])] + e2
        for e in evs:
            if 'bad' not in e and e['op'] != 'grant':
                try:
                    e['r'] = files.conv(e['r'], d, e)
                except (TypeError, ValueError, IndexError):
                    e['bad'] = 1
        if plan[-1]['op'] == 'final' and r.rc == 0 and not any('bad' in x for x in evs):
            s = files.snapshot(d)
            for x in s[1]:
                if x[0] == 'f' and ''.join(x[2][:15]) == b'SQLite format 3'.hex():
                    x[2] = ['db']
            evs.append(dict(plan[-1], r=s))
        vf.shutil.rmtree(d)
        vf.shutil.rmtree(m)
        return evs, text1 + '\n---- then\n' + text2

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('SafeMC', base + 'CONSTANTS MaxDepth = %d Big = %s Emit = TRUE' % (c.n(4, 5), 'TRUE' if c.thorough else 'FALSE'),
                      label='few names', workers=1)
    c.rng.shuffle(paths)
    plans = []
    for h in [p for p in paths if len(p) > 2 and any(e['op'] == 'grant' for e in p[:-1])][:c.n(400, 8000)]:
        plans.append([dict(op=e['op'], a=e['a']) for e in h] + [dict(op='final', a=[])])
    c.conform('SafeTrace', plans, runner, label='specification transitions')
    plans = [Gen(c.rng).run(c.rng.choice([15, 30, 45])) for _ in range(c.n(600, 9000))]
    c.conform('SafeTrace', plans, runner, label='random histories')
    c.require_ops(['write', 'read', 'trunc', 'copy', 'rename', 'remove', 'mkdir', 'link', 'chmod', 'exists', 'isdir', 'isfile', 'readable', 'writable', 'grant', 'nest',
                   'use', 'db', 'dbnew', 'dbread', 'exec', 'size', 'perms', 'stat', 'lstat', 'readlink', 'chdir', 'pwd', 'glob', 'final'])


vf.main('I03', 'model_checking', main)
