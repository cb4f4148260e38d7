#!/usr/bin/env python3
"""L04 objects: spec/Obj.tla bound to jsish's objects."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

KEYS = ['', '10', '5', '9', 'A', '_p', '_z', 'a', 'a b', 'aa', 'b', 'c', 'z']
PRE = vf.PRELUDE + r'''
var R = [null, {}, {}, {}, {}];
function X(k:number, v:any) { O([k, [v, JSON.stringify(r1), JSON.stringify(r2), JSON.stringify(r3), JSON.stringify(r4)]]); }
function KS(a:array) { var i, s = []; for (i = 0; i < a.length; i++) s.push('k'+a[i]); return s; }
function VS(a:array) { var i, s = []; for (i = 0; i < a.length; i++) s.push(E(a[i])); return s; }
var t, k, r1 = {}, r2 = {}, r3 = {}, r4 = {};
'''


def js(v):
    return {'u': 'undefined', 'z': 'null', 'bT': 'true', 'bF': 'false'}.get(v) or (v[1:] if v[0] == 'n' else "'%s'" % v[1:])


def B(b):
    return 'true' if b else 'false'


def ident(k):
    return k in ('A', '_p', '_z', 'a', 'aa', 'b', 'c', 'z')


def call(k, e):
    op, a = e['op'], e['a']
    x = 'r%d' % a[0]
    ret, pre = '"u"', ''
    if op in ('get', 'set', 'del', 'incr', 'add'):
        # both spellings of a property
        p = '%s.%s' % (x, a[1]) if ident(a[1]) and k % 2 else "%s['%s']" % (x, a[1])
    if op == 'reset':
        pre = 'r1={}; r2={}; r3={}; r4={};'
    elif op == 'lit':
        ps = ["'%s':%s" % (q, js(v)) for q, v in a[1]]
        if a[2]:
            ps += ['get z() { return this._z; }', 'set z(v) { this._z = v; }']
        pre = '%s = {%s};' % (x, ', '.join(ps))
    elif op == 'alias':
        pre = '%s = r%d;' % (x, a[1])
    elif op == 'get':
        ret = 'E(%s)' % p
    elif op == 'set':
        pre = '%s = %s;' % (p, js(a[2]))
    elif op == 'del':
        pre = 'delete %s;' % p
    elif op == 'in':
        ret = "E('%s' in %s)" % (a[1], x)
    elif op == 'own':
        ret = "E(%s.hasOwnProperty('%s'))" % (x, a[1])
    elif op == 'enum':
        ret = "E(%s.propertyIsEnumerable('%s'))" % (x, a[1])
    elif op == 'keys':
        ret = 'KS(Object.keys(%s))' % x
    elif op == 'forin':
        pre, ret = 't = []; for (k in %s) t.push("k"+k);' % x, 't'
    elif op == 'forind':
        pre = 't = []; for (k in %s) { t.push("k"+k); if (t.length == 1) { %s } }' % (x, ' '.join("delete %s['%s'];" % (x, q) for q in a[1]))
        ret = 't'
    elif op == 'values':
        ret = 'VS(Object.values(%s))' % x
    elif op == 'length':
        ret = 'E(%s.length)' % x
    elif op == 'incr':
        s = '++' if a[2] == 1 else '--'
        ret = "(typeof %s === 'number') ? E(%s) : 'skip'" % (p, s + p if a[3] == 'pre' else p + s)
    elif op == 'add':
        pre = "if (typeof %s === 'number') t = E(%s %s= %d); else t = 'skip';" % (p, p, '+' if a[2] >= 0 else '-', abs(a[2]))
        ret = 't'
    elif op == 'copy':
        pre = "%s['%s'] = r%d['%s'];" % (x, a[1], a[2], a[3])
    elif op == 'var':
        pre, ret = "t = %s['%s']; if (typeof t === 'number') t++;" % (x, a[1]), 'E(t)'
    elif op == 'create':
        ps = ', '.join("'%s':%s" % (q, js(v)) for q, v in a[2])
        pre = '%s = Object.create(r%d%s);' % (x, a[1], ', {%s}' % ps if ps else '')
    elif op == 'newf':
        pre = 't = function() { %s }; r%d = t.prototype; %s = new t;' % (
            ' '.join("this['%s'] = %s;" % (q, js(v)) for q, v in a[2]), a[1], x)
    elif op == 'setproto':
        pre = 'Object.setPrototypeOf(%s, r%d);' % (x, a[1])
    elif op == 'isproto':
        ret = 'E(%s.isPrototypeOf(r%d))' % (x, a[1])
    elif op == 'getproto':
        pre, ret = 't = Object.getPrototypeOf(%s);' % x, '[%s]' % ', '.join('E(t === r%d)' % i for i in (1, 2, 3, 4))
    elif op == 'same':
        ret = '[%s]' % ', '.join('E(%s === r%d)' % (x, i) for i in (1, 2, 3, 4))
    elif op == 'assign':
        pre = 'Object.assign(%s%s);' % (x, ''.join(', r%d' % i for i in a[1]))
    elif op == 'merge':
        pre = 'r%d = %s.merge(r%d);' % (a[1], x, a[2])
    elif op == 'freeze':
        args = [a[1], a[2], a[3]]
        if k % 2:                              # absent arguments are true
            while args and args[-1]:
                args.pop()
        pre = 'Object.freeze(%s%s);' % (x, ''.join(', ' + B(b) for b in args))
    else:
        raise vf.MachineryError(op)
    return 'try { %s X(%d, %s); } catch(e) { X(%d, "!"); }\n' % (pre, k, ret, k)


def gen(rng, length):
    keys = rng.sample(KEYS, rng.choice([2, 3, 5, 13]))
    scal = ['n1', 'n2', 'n-5', 'n7', 'sab', 's', 'sx', 'u', 'z', 'bT', 'bF', 's1']
    acc = rng.random() < 0.5
    evs = []

    def props():
        ks = rng.sample(keys, rng.randint(0, min(4, len(keys))))
        return [[q, rng.choice(scal)] for q in ks]
    W = ['lit', 'alias', 'get', 'get', 'get', 'set', 'set', 'set', 'set', 'set', 'del', 'del', 'in', 'own', 'enum', 'keys', 'keys',
         'forin', 'forind', 'forind', 'values', 'length', 'incr', 'incr', 'add', 'create', 'newf', 'setproto', 'setproto', 'isproto', 'getproto',
         'same', 'copy', 'copy', 'var', 'assign', 'merge', 'freeze', 'freeze']
    if rng.random() < 0.4:
        W = [w for w in W if w != 'freeze']
    while len(evs) < length:
        op = rng.choice(W)
        x, y = rng.randint(1, 4), rng.randint(1, 4)
        k = rng.choice(keys)
        if op == 'lit':
            if evs and rng.random() < 0.5:
                continue
            z = acc and rng.random() < 0.5
            a = [x, [p for p in props() if not (z and p[0] == 'z')], z]
        elif op in ('alias', 'setproto', 'isproto'):
            a = [x, y]
        elif op in ('get', 'del', 'in', 'own', 'enum'):
            a = [x, k]
        elif op == 'set':
            a = [x, k, rng.choice(scal)]
        elif op in ('keys', 'forin', 'values', 'length', 'getproto', 'same'):
            a = [x]
        elif op == 'forind':
            a = [x, rng.sample(keys, rng.randint(0, min(3, len(keys))))]
        elif op == 'incr':
            if acc and k == 'z':
                k = 'a'
            a = [x, k, rng.choice([1, -1]), rng.choice(['pre', 'post'])]
        elif op == 'add':
            if acc and k == 'z':
                k = 'a'
            a = [x, k, rng.choice([1, -1, 3, 5])]
        elif op == 'copy':
            a = [x, k, y, rng.choice(keys)]
        elif op == 'var':
            a = [x, k]
        elif op == 'create':
            a = [x, y, props()]
        elif op == 'newf':
            a = [x, y if y != x else x % 4 + 1, props()]
        elif op == 'assign':
            a = [x, [rng.randint(1, 4) for _ in range(rng.choice([1, 1, 2, 3]))]]
        elif op == 'merge':
            a = [x, y, rng.randint(1, 4)]
        elif op == 'freeze':
            a = [x, rng.random() < 0.6, rng.random() < 0.6, rng.random() < 0.5]
        evs.append(dict(op=op, a=a))
    return evs


def flat(txt):
    """The printed form of an object as tokens, keeping order and duplicates."""
    res = ['{']

    def tok(v):
        if v is None:
            return 'z'
        if v is True or v is False:
            return 'bT' if v else 'bF'
        return ('n%g' % v) if isinstance(v, (int, float)) else 's' + v
    try:
        for k, v in json.loads(txt, object_pairs_hook=lambda ps: ps):
            res += ['k' + k, tok(v)]
    except Exception:
        return ['?' + txt]
    return res + ['}']


def main(c):
    def runner(plan):
        text = PRE + ''.join(call(k, e) for k, e in enumerate(plan))
        r = c.run_script(text)
        evs = vf.out_events(r, plan)
        for e in evs:
            if len(e['r']) == 5:
                e['r'] = [e['r'][0] if isinstance(e['r'][0], list) else [e['r'][0]]] + [flat(x) for x in e['r'][1:]]
            else:
                e['r'] = [[str(x)] for x in e['r']]
        return evs, text

    base = ('INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCONSTRAINT EXBound\n'
            'CHECK_DEADLOCK FALSE\n')
    paths = c.explore('ObjMC', base + 'CONSTANTS MaxDepth = %d Emit = TRUE' % c.n(3, 4), label='all histories up to 3')
    if c.thorough:
        c.explore('ObjMC', base + 'CONSTANTS MaxDepth = 6 Emit = FALSE', label='exhaustive, depth 6', emit=False, workers=8)
    c.rng.shuffle(paths)
    keep = paths if c.thorough else paths[:6000]
    plans = []
    for i in range(0, len(keep), 40):
        p = []
        for h in keep[i:i + 40]:
            p.append(dict(op='reset', a=[1]))
            p += [dict(op=e['op'], a=e['a']) for e in h]
        plans.append(p)
    c.conform('ObjTrace', plans, runner, label='specification transitions')
    plans = [gen(c.rng, c.rng.choice([20, 40, 60])) for i in range(c.n(900, 9000))]
    c.conform('ObjTrace', plans, runner, label='random histories')
    c.require_ops(['lit', 'alias', 'get', 'set', 'del', 'in', 'own', 'enum', 'keys', 'forin', 'forind', 'values', 'incr', 'add', 'copy', 'var', 'create',
                   'newf', 'setproto', 'isproto', 'getproto', 'assign', 'merge', 'freeze'])


vf.main('L04', 'model_checking', main)
