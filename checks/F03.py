#!/usr/bin/env python3
"""F03 paths: spec/Path.tla bound to the path functions of File on trees with folders, files and links."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

PRE = vf.PRELUDE + r'''
function KIND(p) { if (!File.exists(p)) return '-'; if (File.isdir(p)) return 'd'; if (File.isfile(p)) return 'f'; return '?'; }
function FACTS(p) { return [File.dirname(p), File.tail(p), File.rootname(p), File.extension(p), File.isrelative(p), File.realpath(p), File.normalize(p), KIND(p)]; }
function OUT(k, f) { var r; try { r = f(); } catch(e) { r = ['e']; } puts('@['+k+','+JSON.stringify(r)+']'); }
'''
NIL, DOT, DOTDOT = ['', ''], ['', '.'], ['.', '.']


def part(s):
    i = s.rfind('.')
    return [s, ''] if i < 0 else [s[:i], s[i:]]


class Names:
    """Writes abstract paths with the scratch folder's real name, and reads them back."""
    def __init__(self, base):
        self.real = base.strip('/').split('/')
        assert len(self.real) == 3, base

    def text(self, q):
        return '/'.join(self.real[int(s[1:]) - 1] if s[:1] == '/' else s + x for s, x in q)

    def path(self, t):
        q = t.split('/')
        if q[0] == '':
            for i in range(3):
                if len(q) > i + 1 and q[i + 1] == self.real[i]:
                    q[i + 1] = '/%d' % (i + 1)
                else:
                    break
        return [[x, ''] if x[:1] == '/' else part(x) for x in q]


BASE = [['/1', ''], ['/2', ''], ['/3', '']]


def lit(n, q):
    return json.dumps(n.text(q))


def stmt(n, k, e):
    a = e['a']
    if e['op'] == 'facts':
        return 'OUT(%d, function() { return FACTS(%s); });\n' % (k, lit(n, a[0]))
    if e['op'] == 'join':
        return 'OUT(%d, function() { return [File.join(%s, %s)]; });\n' % (k, lit(n, a[0]), lit(n, a[1]))
    if e['op'] == 'chdir':
        return 'OUT(%d, function() { File.chdir(%s); return ["ok"]; });\n' % (k, lit(n, a[0]))
    if e['op'] == 'pwd':
        return 'OUT(%d, function() { return [File.pwd()]; });\n' % k
    if e['op'] == 'readlink':
        return 'OUT(%d, function() { return [File.readlink(%s)]; });\n' % (k, lit(n, a[0]))
    return 'OUT(%d, function() { return []; });\n' % k


def result(n, e, r):
    if not isinstance(r, list) or r == ['e'] or r == ['ok']:
        return r
    if e['op'] == 'facts':
        if not all(isinstance(x, str) for x in r[:4] + r[5:]):
            return ['?', json.dumps(r)]
        root = n.path(r[2])
        # the rest of a name without its extension is one piece, whatever dots it has
        root[-1] = [r[2].rsplit('/', 1)[-1] if root[-1][0][:1] != '/' else root[-1][0], '']
        return [n.path(r[0]), [['/%d' % (n.real.index(r[1]) + 1), '']] if r[1] in n.real else n.path(r[1]), root, [r[3]], r[4], n.path(r[5]), n.path(r[6]), r[7]]
    if e['op'] in ('join', 'pwd', 'readlink'):
        return [n.path(r[0])] if isinstance(r[0], str) else ['?', json.dumps(r)]
    return r


STEMS = ['va', 'vb', 'vc.x', 'vd.tar.gz', '.ve', 'vf.', '...', '.vg.h', 'v h', 'v\u00e9']


def gen(r):
    """A random tree and operations on it."""
    tree = [dict(p=BASE[:i], k='d', t=[]) for i in (1, 2, 3)]
    dirs, names = [BASE], r.sample(STEMS, r.choice([3, 5]))
    for _ in range(r.choice([2, 5, 9])):
        d = r.choice(dirs)
        p = d + [part(r.choice(names))]
        if any(x['p'] == p for x in tree):
            continue
        k = r.choice('ddfll')
        t = []
        if k == 'd':
            dirs.append(p)
        elif k == 'l':
            t = rpath(r, names, tree, short=True)
        tree.append(dict(p=p, k=k, t=t))
    evs = [dict(op='start', a=[tree, BASE])]
    for _ in range(r.choice([10, 25, 40])):
        o = r.choice(['facts'] * 10 + ['join'] * 4 + ['chdir', 'pwd', 'readlink'])
        q = rpath(r, names, tree)
        evs.append(dict(op=o, a=[q, rpath(r, names, tree)] if o == 'join' else [] if o == 'pwd' else [q]))
    return evs


def rpath(r, names, tree, short=False):
    if r.random() < 0.4:            # built on something that is there
        q = [NIL] + r.choice(tree)['p']
        if r.random() < 0.5 and len(q) > 4:
            q = q[4:]
    else:
        q = [NIL] + BASE[:r.choice([3, 3, 3, 2, 1])] if r.random() < 0.3 else []
    for _ in range(r.choice([0, 1, 1, 2] if short else [0, 1, 1, 2, 3, 5])):
        q = q + [r.choice([NIL, DOT, DOTDOT, DOTDOT] if r.random() < 0.5 else [part(r.choice(names))])]
    if not q or q == [NIL] or (q[0] == NIL and len(q) > 1 and q[1][0][:1] != '/' and len(q) < 3):
        return [part(r.choice(names))]
    if q[0] == NIL and (len(q) < 2 or q[1] == NIL):
        q = q[1:] or [DOT]
        if q == [NIL] or q[0] == NIL:
            q = [DOT] + q
    return q


def main(c):
    def runner(plan):
        d = c.newdir()
        n = Names(d)
        for x in plan[0]['a'][0]:
            t = '/' + n.text(x['p'])
            if x['k'] == 'd':
                os.path.isdir(t) or os.mkdir(t)
            elif x['k'] == 'f':
                open(t, 'w').write('x')
            else:
                os.symlink(n.text(x['t']), t)
        t = PRE + ''.join(stmt(n, k, e) for k, e in enumerate(plan))
        r = c.run_script(t, cwd=d)
        evs = vf.out_events(r, plan)
        for e in evs:
            if 'r' in e and 'bad' not in e:
                e['r'] = result(n, e, e['r'])
        return evs, t

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('PathMC', base + 'CONSTANTS MaxDepth = %d N = %d Emit = TRUE' % ((3, 4) if c.thorough else (3, 3)), label='small paths')
    A, B, L, M = [['va', ''], ['vb', '.x'], ['vl', ''], ['vm', '.']]
    tree = [dict(p=BASE[:i], k='d', t=[]) for i in (1, 2, 3)] + [dict(p=BASE + p, k=k, t=t) for p, k, t in
            (([A], 'd', []), ([A, B], 'f', []), ([A, A], 'd', []), ([L], 'l', [A, A]), ([A, L], 'l', [DOTDOT, L]), ([A, M], 'l', [M]))]
    keep = dict(facts=1, join=2, chdir=1, readlink=1)
    # transitions from the same state are performed one after the other: only chdir changes it
    by = {}
    for h in paths:
        pre = [dict(op=e['op'], a=e['a'][:keep[e['op']]]) for e in h[:-1] if e['op'] == 'chdir']
        last = dict(op=h[-1]['op'], a=h[-1]['a'][:keep[h[-1]['op']]])
        by.setdefault(json.dumps(pre), {})[json.dumps(last)] = last
    plans = []
    for pre, last in by.items():
        last = list(last.values())
        stay = [e for e in last if e['op'] != 'chdir']
        pre = [dict(op='start', a=[tree, BASE])] + json.loads(pre)
        for i in range(0, len(stay), 60):
            plans.append(pre + stay[i:i + 60] + [dict(op='pwd', a=[])])
        plans += [pre + [e, dict(op='pwd', a=[])] for e in last if e['op'] == 'chdir']
    c.conform('PathTrace', plans, runner, label='specification transitions')
    c.conform('PathTrace', [gen(c.rng) for _ in range(c.n(800, 15000))], runner, label='random trees and paths')
    c.require_ops(['facts', 'join', 'chdir', 'pwd', 'readlink'])


vf.main('F03', 'model_checking', main)
