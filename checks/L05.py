#!/usr/bin/env python3
"""L05 arrays: spec/Arr.tla bound to the array methods of jsish."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

PRE = vf.PRELUDE + r'''
var R = [null, [], [], [], []];
function D(v:any, d:number) {
    if (typeof v !== 'array') return E(v);
    if (d == 0) return '#';
    var s = '[', i;
    for (i = 0; i < v.length; i++) s += '~' + D(v[i], d-1);
    return s + '~]';
}
function X(k:number, v:any) { O([k, [v, D(r1,4), D(r2,4), D(r3,4), D(r4,4)]]); }
var t, r1 = [], r2 = [], r3 = [], r4 = [];
'''


def js(v):
    if v.startswith('R'):
        return 'r' + v[1]
    return {'u': 'undefined', 'z': 'null', 'bT': 'true', 'bF': 'false'}.get(v) or (v[1:] if v[0] == 'n' else "'%s'" % v[1:])


def call(k, e):
    """One operation as jsish source that reports [k, [ret, registers]]."""
    op, a = e['op'], e['a']
    x = 'r%d' % a[0]
    vals = lambda vs: ', '.join(js(v) for v in vs)
    opt = lambda o: ''.join(', %d' % i for i in o)
    ret, pre = 'undefined', ''
    if op == 'reset':
        pre = 'r1=[]; r2=[]; r3=[]; r4=[];'
    elif op == 'lit':
        pre = '%s = [%s];' % (x, vals(a[1]))
    elif op == 'newn':
        pre = '%s = new Array(%d);' % (x, a[1])
    elif op == 'alias':
        pre = '%s = r%d;' % (x, a[1])
    elif op in ('push', 'unshift'):
        ret = '%s.%s(%s)' % (x, op, vals(a[1]))
    elif op in ('pop', 'shift', 'sizeOf', 'isArray'):
        ret = '%s.%s()' % (x, op)
    elif op == 'splice':
        args = '%d' % a[2]
        if a[3] or a[4]:
            args += ', %d' % a[3][0]
        if a[4]:
            args += ', ' + vals(a[4])
        pre = 't = %s.splice(%s); r%d = t;' % (x, args, a[1])
    elif op == 'slice':
        pre = 'r%d = %s.slice(%d%s);' % (a[1], x, a[2], opt(a[3]))
    elif op == 'fill':
        pre = 'r%d = %s.fill(%s%s%s);' % (a[1], x, js(a[2]), opt(a[3]), opt(a[4]))
    elif op == 'reverse':
        pre = 'r%d = %s.reverse();' % (a[1], x)
    elif op == 'concat':
        pre = 'r%d = %s.concat(%s);' % (a[1], x, vals(a[2]))
    elif op == 'flat':
        pre = 'r%d = %s.flat(%s);' % (a[1], x, opt(a[2])[2:])
    elif op == 'join':
        ret = "%s.join(%s)" % (x, ''.join("'%s'" % s for s in a[1]))
    elif op in ('indexOf', 'lastIndexOf', 'includes'):
        ret = '%s.%s(%s%s)' % (x, op, js(a[1]), opt(a[2]) if len(a) > 2 else '')
    elif op == 'get':
        ret = '%s[%d]' % (x, a[1])
    elif op == 'set':
        pre = '%s[%d] = %s;' % (x, a[1], js(a[2]))
    elif op == 'incr':
        ret = '%s[%d]++' % (x, a[1])
    elif op == 'length':
        ret = '%s.length' % x
    else:
        raise vf.MachineryError(op)
    return 'try { %s X(%d, D(%s,4)); } catch(e) { X(%d, "!"); }\n' % (pre, k, ret, k)


def gen(rng, length, big=False):
    """A random history.  Mirrors only lengths (to keep arguments near the interesting bounds) and which registers
    may refer to which, so that arrays stay acyclic: 3 holds scalars, 4 may hold 3, 1 and 2 may hold 3 and 4."""
    scal = ['n%d' % rng.randint(-2, 4) for _ in range(3)] + ['sab', 's', 'sx', 'u', 'z', 'bT', 'bF', 's1']
    refs = {1: ['R3', 'R4'], 2: ['R3', 'R4'], 3: [], 4: ['R3']}
    # which registers may currently contain references (so results must not flow down)
    evs = []
    approx = 40 if big else 4
    ub = {1: 0, 2: 0, 3: 0, 4: 0}          # upper bounds of lengths
    top = 150 if big else 40

    def v(x):
        if refs[x] and rng.random() < 0.15:
            return rng.choice(refs[x])
        return rng.choice(scal)

    def idx():
        return rng.choice([0, 1, 2, 3, -1, -2, -3, 5, rng.randint(-approx - 3, approx + 3), rng.randint(-approx, approx)])

    def opt(p=0.6):
        return [idx()] if rng.random() < p else []
    for r in (1, 2, 3, 4):
        n = rng.choice([0, 1, 2, 3, 5, approx])
        evs.append(dict(op='lit', a=[r, [v(r) for _ in range(n)]]))
    while len(evs) < length:
        x = rng.choice([1, 1, 1, 2, 2, 2, 3, 4])
        dst = rng.choice([1, 2])
        op = rng.choice(['lit', 'newn', 'alias', 'push', 'push', 'push', 'pop', 'shift', 'unshift', 'unshift', 'splice', 'splice',
                         'splice', 'slice', 'slice', 'fill', 'reverse', 'concat', 'concat', 'flat', 'join', 'indexOf', 'indexOf',
                         'lastIndexOf', 'includes', 'get', 'get', 'set', 'set', 'length', 'sizeOf', 'isArray'])
        if op == 'lit':
            if rng.random() < 0.6:
                continue
            a = [x, [v(x) for _ in range(rng.choice([0, 1, 2, 3, 6]))]]
        elif op == 'newn':
            a = [x, rng.randint(0, 5)]
        elif op == 'alias':
            a = [dst, rng.choice([1, 2])]
        elif op in ('push', 'unshift'):
            a = [x, [v(x) for _ in range(rng.choice([1, 1, 1, 2, 3, 9] + ([30] if big else [])))]]
            if op == 'unshift' and rng.random() < 0.05:
                a[1] = []
        elif op in ('pop', 'shift', 'length', 'sizeOf', 'isArray'):
            a = [x]
        elif op == 'splice':
            a = [x, dst, idx(), [rng.choice([0, 1, 2, -1, 99, rng.randint(0, approx)])], [v(x) for _ in range(rng.choice([0, 0, 1, 2, 5]))]]
            if not a[4] and rng.random() < 0.4:
                a[3] = []
        elif op == 'slice':
            a = [x, dst, idx(), opt()]
        elif op == 'fill':
            b = opt()
            a = [x, dst if x < 3 else x, v(x), b, opt() if b else []]
        elif op == 'reverse':
            a = [x, dst if x < 3 else x]
        elif op == 'concat':
            a = [x, dst, [rng.choice(['R1', 'R2', 'R3', 'R4', v(1)]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]]
        elif op == 'flat':
            a = [x, dst, rng.choice([[], [0], [1], [2], [3], [-1], [1001]])]
        elif op == 'join':
            a = [x, rng.choice([[], [','], ['--'], ['']])]
        elif op in ('indexOf', 'lastIndexOf', 'includes'):
            a = [x, rng.choice(scal), opt()]
            if op != 'indexOf':
                a[2] = []
        elif op == 'get':
            a = [x, idx()]
        elif op == 'set':
            a = [x, abs(idx()), v(x)]
        # lists that grow without bound make traces slow, not better
        u = dict(ub)
        grow = 0
        if op in ('push', 'unshift'):
            grow = len(a[1])
        elif op == 'splice':
            grow = len(a[4])
        elif op == 'set':
            grow = max(0, a[1] + 1 - ub[x])
        for k in u:                         # any register may be an alias of x
            u[k] += grow
        if op in ('lit', 'newn'):
            u[x] = a[1] if op == 'newn' else len(a[1])
        elif op == 'alias':
            u[x] = ub[a[1]]
        elif op in ('splice', 'slice', 'fill', 'reverse'):
            u[a[1]] = ub[x] if op != 'splice' else max(u[a[1]], ub[x])
            if op in ('fill', 'reverse'):
                u[a[1]] = ub[x]
        elif op == 'concat':
            u[a[1]] = ub[x] + sum(ub[int(q[1])] if q[0] == 'R' else 1 for q in a[2])
        elif op == 'flat':
            if ub[x] > 12:
                continue
            u[a[1]] = ub[x] * max(1, ub[3], ub[4])
        if max(u.values()) > top:
            if rng.random() < 0.2:
                r = max(u, key=lambda k: u[k])
                evs.append(dict(op='lit', a=[r, []]))
                ub[r] = 0
            continue
        ub = u
        evs.append(dict(op=op, a=a))
        if rng.random() < 0.04:
            r = rng.choice([1, 2])
            evs.append(dict(op='lit', a=[r, []]))
            ub[r] = 0
    return evs


def main(c):
    def runner(plan):
        text = PRE + ''.join(call(k, e) for k, e in enumerate(plan))
        r = c.run_script(text)
        evs = vf.out_events(r, plan)
        for e in evs:
            e['r'] = [x.split('~') for x in e['r']]
        return evs, text

    # 1. the specification itself, exhaustively, and every transition of it in jsish
    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('ArrMC', base + 'CONSTANTS MaxDepth = 50 MaxLen = 2 Emit = TRUE', label='exhaustive, lists up to 2')
    c.explore('ArrMC', base + 'CONSTANTS MaxDepth = 50 MaxLen = %d Emit = FALSE' % c.n(3, 4), label='exhaustive, lists up to 3',
              emit=False, workers=8)
    c.rng.shuffle(paths)
    keep = paths if c.thorough else paths[:5000]
    plans = []
    for i in range(0, len(keep), 40):
        p = []
        for h in keep[i:i + 40]:
            p.append(dict(op='reset', a=[1]))
            p += [dict(op=e['op'], a=e['a']) for e in h]
        plans.append(p)
    c.conform('ArrTrace', plans, runner, label='specification transitions')
    # 2. random rich histories
    plans = [gen(c.rng, c.rng.choice([20, 40, 60]), big=(i % 4 == 0)) for i in range(c.n(600, 6000))]
    c.conform('ArrTrace', plans, runner, label='random histories')
    c.require_ops(['push', 'pop', 'shift', 'unshift', 'splice', 'slice', 'fill', 'reverse', 'concat', 'flat', 'join', 'indexOf',
                   'lastIndexOf', 'includes', 'get', 'set', 'length', 'newn', 'alias'])


vf.main('L05', 'model_checking', main)
