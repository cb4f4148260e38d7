#!/usr/bin/env python3
"""F01 channels: spec/Chan.tla bound to the Channel object, on files in a scratch directory."""
import base64, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

PRE = vf.PRELUDE + r'''
var V = [null, null, null, null];
function D(x) { return Util.base64(x, true); }
function B(x:any) { return (typeof x === 'undefined' || x === null) ? ['z', ''] : ['s', x !== '' ? Util.base64(x) : '']; }
function N(x:any) { return (typeof x === 'undefined') ? ['z', ''] : ['n', ''+x]; }
function L(x:any) { return (typeof x === 'undefined') ? ['z', ''] : ['b', ''+x]; }
function T(x:any) { return (typeof x === 'undefined') ? ['z', ''] : ['t', ''+x]; }
function DO(k:number, i:number, f:function) {
    var r;
    if (i && V[i] === null) r = ['z', ''];
    else try { r = f(); } catch(e) { r = ['e', '']; }
    O([k, r]);
}
'''


def data(q):
    if not q:
        return "''"
    if all(0x20 <= int(b, 16) < 0x7f and b not in ('22', '5c', '27') for b in q):
        return json.dumps(bytes(int(b, 16) for b in q).decode())
    return 'D("%s")' % base64.b64encode(bytes(int(b, 16) for b in q)).decode()


def js(e):
    o, a = e['op'], e['a']
    if o == 'mkfile':
        return 'File.write("%s", %s); return ["ok", ""];' % (a[0], data(a[1]))
    if o == 'content':
        return 'if (!File.exists("%s")) return ["z", ""]; return B(File.read("%s"));' % (a[0], a[0])
    v = 'V[%d]' % a[0]
    if o == 'open':
        if a[3] == 'new':
            return '%s = new Channel("%s", "%s"); return ["b", "true"];' % (v, a[1], a[4])
        return 'return L(%s.open("%s", "%s"));' % (v, a[1], a[4])
    if o == 'drop':
        return '%s = null; return ["b", "true"];' % v
    if o in ('close', 'eof'):
        return 'return L(%s.%s());' % (v, o)
    if o in ('mode', 'filename'):
        return 'return T(%s.%s());' % (v, o)
    if o in ('tell', 'flush'):
        return 'return N(%s.%s());' % (v, o)
    if o == 'read':
        return 'return B(%s.read(%s));' % (v, a[1] if a[1] >= 0 or a[1] < -1 else '')
    if o == 'gets':
        return 'return B(%s.gets());' % v
    if o == 'write':
        return 'return N(%s.write(%s));' % (v, data(a[1]))
    if o == 'puts':
        return 'return L(%s.puts(%s));' % (v, data(a[1]))
    if o == 'seek':
        return 'return N(%s.seek(%d, "%s"));' % (v, a[1], a[2])
    if o == 'trunc':
        return 'return N(%s.truncate(%d));' % (v, a[1])
    raise KeyError(o)


def script(plan):
    out = []
    for k, e in enumerate(plan):
        if e['op'] == 'final':
            continue
        o = e['op']
        need = 0 if o in ('mkfile', 'content', 'drop') or (o == 'open' and e['a'][3] == 'new') else e['a'][0]
        out.append('DO(%d, %d, function() { %s });\n' % (k, need, js(e)))
    return PRE + ''.join(out)


def hexs(b):
    return ['%02x' % x for x in b]


def conv(r):
    k, v = r
    if k == 's':
        return [k, hexs(base64.b64decode(v))]
    if k == 't':
        return ['s', [v]]
    if k in ('z', 'e', 'ok'):
        return [k, []]
    return [k, [v]]


class Gen:
    """histories in which no answer depends on what a buffer still holds: while several channels are open on a file only
    one holds unflushed data, and nobody reads a file that somebody else has changed since it was opened"""

    def __init__(self, r, big=False):
        self.r, self.big = r, big
        self.ch = [None] + [None] * 3
        self.exists = set()
        self.evs = []

    def bytes(self):
        r = self.r
        if self.big:
            n = r.choice([1, 100, 4095, 4096, 8190, 8191, 8192, 8193, 12000])
            q = [r.choice(['61', '62', '63'])] * n
            for _ in range(r.choice([0, 0, 1, 2])):
                q[r.randrange(n)] = r.choice(['0a', '00'])
            return q
        n = r.choice([0, 1, 1, 2, 3, 5, 8, 13])
        pool = r.choice([['61', '62'], ['61', '0a'], ['61', '62', '0a', '00', 'ff', 'c3', 'a9', '0d', '20', '22']])
        return [r.choice(pool) for _ in range(n)]

    def ev(self, op, *a):
        self.evs.append(dict(op=op, a=list(a)))

    def others(self, i):
        f = self.ch[i]['f']
        return [k for k in (1, 2, 3) if k != i and self.ch[k] and self.ch[k]['f'] == f]

    def changed(self, i):
        c = self.ch[i]
        for k in self.others(i):
            self.ch[k]['mine'] = False
        c['late'] = True
        if self.others(i) and not self.r.random() < 0.1:
            self.ev('flush', i)
            c['late'] = False
        elif self.others(i):
            self.ev('close', i)
            self.ch[i] = None

    def step(self):
        r = self.r
        i = r.randint(1, 3)
        c = self.ch[i]
        f = r.choice(['p', 'p', 'q'])
        if c is None and r.random() < 0.8 or r.random() < 0.06:
            m = r.choice(['r', 'r', 'r+', 'r+', 'w', 'w+', 'w+', 'a', 'a+', 'a+'] + (['x', 'rq'] if r.random() < 0.2 else []))
            lit = m if r.random() < 0.8 or m not in ('r', 'w', 'a', 'r+', 'w+', 'a+') else m[0] + 'b' + m[1:]
            how = 're' if c is not None and r.random() < 0.5 or c is None and self.ch[i] is None and r.random() < 0.15 and getattr(self, 'obj%d' % i, 0) else 'new'
            fl = self.late(f, i if how == 're' else 0)
            for k in fl:
                self.ev('flush', k)
                self.ch[k]['late'] = False
            self.ev('open', i, f, m, how, lit)
            bad = m in ('x', 'rq') or (m in ('r', 'r+') and f not in self.exists)
            if how == 're' or not bad:
                self.ch[i] = None
            if not bad:
                self.exists.add(f)
                self.ch[i] = dict(f=f, m=m, late=False, mine=True, pos=0)
                setattr(self, 'obj%d' % i, 1)
                if m[0] == 'w':
                    for k in self.others(i):
                        self.ch[k]['mine'] = False
            return
        o = r.choice(['read'] * 4 + ['gets'] * 3 + ['write'] * 4 + ['puts'] * 2 + ['seek'] * 4 + ['tell'] * 2 + ['eof'] * 2 + ['flush', 'trunc', 'trunc', 'close', 'mode', 'filename', 'content', 'drop'])
        if o == 'content':
            if not self.late(f, 0):
                self.ev(o, f)
            return
        if c is None:
            if not getattr(self, 'obj%d' % i, 0):
                return
            if o in ('drop',):
                return
        elif not c['mine'] and o in ('read', 'gets', 'seek', 'eof', 'tell', 'trunc'):
            return
        elif o == 'read' and c['m'] in ('r', 'r+', 'w+', 'a+') and False:
            return
        if o == 'read':
            self.ev(o, i, r.choice([-1, -1, -5, 0, 1, 2, 3, 10] + ([4096, 8192, 8193, 10000] if self.big else [])))
        elif o in ('write', 'puts'):
            q = self.bytes()
            if c and not c['mine'] and not c['m'].startswith('a'):
                return
            if o == 'puts' and '00' in q:
                return
            self.ev(o, i, q)
            if c and c['m'] != 'r':
                self.changed(i)
        elif o == 'seek':
            w = r.choice(['set', 'set', 'set', 'cur', 'end'] + (['xyz'] if r.random() < 0.1 else []))
            n = r.choice([0, 0, 1, 2, 3, 5, 9, 20]) if w == 'set' else r.choice([0, -1, 1, -2, -3, 2]) if w == 'cur' else r.choice([0, -1, -2, -3, -8, 1, 4])
            if w == 'set' and r.random() < 0.05:
                n = -1
            if self.big and w == 'set':
                n = r.choice([0, 1, 4096, 8191, 8192, 9000])
            self.ev(o, i, n, w)
        elif o == 'trunc':
            self.ev(o, i, r.choice([0, 1, 2, 4, 7, 12] + ([-1] if r.random() < 0.3 else []) + ([4096, 8192] if self.big else [])))
            if c and c['m'] != 'r':
                self.changed(i)
        elif o == 'drop':
            self.ev(o, i)
            self.ch[i] = None
            setattr(self, 'obj%d' % i, 0)
        else:
            self.ev(o, i)
            if o == 'flush' and c:
                c['late'] = False
            if o == 'close':
                self.ch[i] = None

    def late(self, f, i):
        return [k for k in (1, 2, 3) if self.ch[k] and self.ch[k]['late'] and k != i and self.ch[k]['f'] == f]

    def run(self, n):
        for f in ('p', 'q'):
            if self.r.random() < 0.6:
                self.ev('mkfile', f, self.bytes())
                self.exists.add(f)
        if self.big and self.r.random() < 0.6:      # reading part of what needs several turns of the buffer
            q = ['61'] * self.r.choice([8300, 9000, 12000, 17000])
            q[self.r.randrange(8192)] = q[self.r.randrange(8192, len(q))] = '0a'
            self.ev('mkfile', 'p', q)
            self.exists.add('p')
            self.ev('open', 1, 'p', 'r', 'new', 'r')
            self.ch[1] = dict(f='p', m='r', late=False, mine=True, pos=0)
            self.obj1 = 1
            for _ in range(self.r.choice([1, 2])):
                if self.r.random() < 0.5:
                    self.ev('gets', 1)
                self.ev('read', 1, self.r.choice([8191, 8192, 8193, 8200, 8900, 10000, 16384, 16400]))
                self.ev('tell', 1)
        while len(self.evs) < n:
            self.step()
        # several channels must not leave unflushed data for one file
        for f in ('p', 'q'):
            for k in self.late(f, 0)[1:]:
                self.ev('flush', k)
        self.ev('final', 'p')
        self.ev('final', 'q')
        return self.evs


def main(c):
    def runner(plan):
        t = script(plan)
        d = c.newdir()
        r = c.run_script(t, cwd=d)
        evs = vf.out_events(r, [e for e in plan if e['op'] != 'final'])
        for e in evs:
            if 'bad' not in e:
                try:
                    e['r'] = conv(e['r'])
                except (TypeError, ValueError):
                    e['bad'] = 1
        for e in plan:
            if e['op'] == 'final':
                f = os.path.join(d, e['a'][0])
                e = dict(e)
                e['r'] = ['s', hexs(open(f, 'rb').read())] if os.path.exists(f) else ['z', []]
                if r.rc == 0 and not any('bad' in x for x in evs):
                    evs.append(e)
        vf.shutil.rmtree(d)
        return evs, t

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('ChanMC', base + 'CONSTANTS MaxDepth = %d Big = %s Emit = TRUE' % (c.n(5, 6), 'TRUE' if c.thorough else 'FALSE'),
                      label='one channel, one file', workers=1)
    c.rng.shuffle(paths)
    plans = []
    for h in [p for p in paths if len(p) > 2][:c.n(500, 12000)]:
        plans.append([dict(op=e['op'], a=e['a']) for e in h] + [dict(op='final', a=['p'])])
    c.conform('ChanTrace', plans, runner, label='specification transitions')
    plans = [Gen(c.rng).run(c.rng.choice([10, 20, 40, 60])) for _ in range(c.n(1000, 12000))]
    c.conform('ChanTrace', plans, runner, label='random histories')
    plans = [Gen(c.rng, True).run(c.rng.choice([8, 14])) for _ in range(c.n(40, 600))]
    c.conform('ChanTrace', plans, runner, label='large contents')
    c.require_ops(['open', 'read', 'gets', 'write', 'puts', 'seek', 'tell', 'eof', 'trunc', 'flush', 'close', 'drop', 'content', 'final', 'mode', 'filename'])


vf.main('F01', 'model_checking', main)
