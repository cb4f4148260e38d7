#!/usr/bin/env python3
"""L06 array iteration and sort: spec/Iter.tla bound to the array methods that call back."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

PRE = vf.PRELUDE + r'''
var a = [], L = [], K = 0, SC = [];
function D(x:any) { var s = [], i; for (i = 0; i < x.length; i++) s.push(E(x[i])); return s; }
function V(t:string) {
    if (t === 'u') return undefined;
    if (t === 'z') return null;
    if (t === 'bT') return true;
    if (t === 'bF') return false;
    if (t[0] === 'n') return parseInt(t.substr(1));
    return t.substr(1);
}
function ACT(c:any) {
    var b = a;
    if (c[0] === 'push') b.push(V(c[2]));
    else if (c[0] === 'unshift') b.unshift(V(c[2]));
    else if (c[0] === 'pop') b.pop();
    else if (c[0] === 'shift') b.shift();
    else if (c[0] === 'set') b[c[1]] = V(c[2]);
    else if (c[0] === 'splice') { if (c[1] < b.length) b.splice(c[1], 1); }
    else if (c[0] === 'clear') b.splice(0, b.length);
    else if (c[0] === 'chop') b.splice(b.length > c[1] ? b.length - c[1] : 0, c[1]);
    else if (c[0] === 'chophead') b.splice(0, c[1]);
    else if (c[0] === 'refill') { b.splice(0, b.length); b.push(V(c[2])); }
    else if (c[0] === 'reverse') b.reverse();
    else if (c[0] === 'nest') { var n = 0; b.forEach(function(x:any) { n++; }); return 'n'+n; }
    return '-';
}
function CALL(p:any, t:any) {
    var c = ['none', 0, 'u', 'bF'];
    if (K < SC.length) c = SC[K];
    K++;
    p.push(ACT(c));
    if (t !== 0) p.push(E(t.t));
    L.push(p);
    if (c[3] === 'throw') throw 'stop';
    return V(c[3]);
}
function S(x:any) { return (x === a ? 'A' : '!'); }
function f0() { return CALL([], this); }
function f1(v:any) { var p = [E(v)]; v = 99; return CALL(p, this); }
function f2(v:any, i:any) { var p = [E(v), E(i)]; v = 99; i = 88; return CALL(p, this); }
function f3(v:any, i:any, x:any) { var p = [E(v), E(i), S(x)]; v = 99; i = 88; x = 77; return CALL(p, this); }
function f5(v:any, i:any, x:any, y=void, z=void) { return CALL([E(v), E(i), S(x)], this); }
function r0() { return CALL([], 0); }
function r1(q:any) { var p = [E(q)]; q = 55; return CALL(p, 0); }
function r2(q:any, v:any) { var p = [E(q), E(v)]; q = 55; v = 99; return CALL(p, 0); }
function r3(q:any, v:any, i:any) { var p = [E(q), E(v), E(i)]; q = 55; v = 99; i = 11; return CALL(p, 0); }
function r4(q:any, v:any, i:any, x:any) { var p = [E(q), E(v), E(i), S(x)]; q = 55; v = 99; x = 12; return CALL(p, 0); }
function r5(q:any, v:any, i:any, x:any, y=void) { return CALL([E(q), E(v), E(i), S(x)], 0); }
function X(k:number, res:any) { O([k, [L, res, D(a)]]); }
function R(x:any, m:string) {
    if (m === 'forEach') return ['v', 'u'];
    if (m === 'map' || m === 'filter') { var d = D(x); d.unshift('a'); return d; }
    return ['v', E(x)];
}
var AT = 0, CM = '', WHAT = '-', REF = 0;
function CMP(x:any, y:any) {
    L.push([E(x), E(y)]);
    if (L.length === AT) {
        if (WHAT === 'throw') throw 'stop';
        if (WHAT !== '-') {
            try {
                if (WHAT === 'push') a.push(1);
                else if (WHAT === 'pop') a.pop();
                else if (WHAT === 'shift') a.shift();
                else if (WHAT === 'unshift') a.unshift(1);
                else if (WHAT === 'splice') a.splice(0, 1);
                else if (WHAT === 'fill') a.fill(1);
                else if (WHAT === 'reverse') a.reverse();
                else if (WHAT === 'set') a[0] = 77;
                else if (WHAT === 'sort') a.sort();
            } catch(e) { REF = 1; }
        }
    }
    if (CM === 'num') return x - y;
    if (CM === 'rev') return y - x;
    if (CM === 'frac') return (x - y) / 200;
    if (CM === 'fracrev') return (y - x) / 200;
    if (CM === 'str') { if (x < y) return -1; if (x > y) return 1; return 0; }
}
'''
SINGLE = ['forEach', 'map', 'filter', 'find', 'findIndex', 'some', 'every']
RED = ['reduce', 'reduceRight']


def js(v):
    return {'u': 'undefined', 'z': 'null', 'bT': 'true', 'bF': 'false'}.get(v) or (v[1:] if v[0] == 'n' else "'%s'" % v[1:])


def act(c):
    return "['%s', %d, '%s', '%s']" % tuple(c)


def call(k, e):
    op, a = e['op'], e['a']
    if op == 'lit':
        src = 'a = new Array(%d); ' % len(a[0]) if 'hole' in a[0] else 'a = [%s]; ' % ', '.join(js(v) for v in a[0])
        if 'hole' in a[0]:
            src += ' '.join('a[%d] = %s;' % (i, js(v)) for i, v in enumerate(a[0]) if v != 'hole')
        return "L = []; %s X(%d, ['v', 'u']);\n" % (src, k)
    if op == 'mut':
        return "L = []; ACT(%s); X(%d, ['v', 'u']);\n" % (act(a[0]), k)
    if op == 'iter':
        m, np, init, this, sc = a
        f = ('r%d' if m in RED else 'f%d') % (np if np not in ((4,) if m not in RED else ()) else 5)
        args = f + ''.join(', ' + js(v) for v in init) + (', {t:7}' if this else '')
        return ("L = []; K = 0; SC = [%s];\ntry { X(%d, R(a.%s(%s), '%s')); } catch(e) { X(%d, ['thrown']); }\n" %
                (', '.join(act(c) for c in sc), k, m, args, m, k))
    if op == 'sort':
        mode, uniq, at, what = a
        opts = []
        if mode in ('num', 'rev', 'frac', 'fracrev', 'str'):
            opts.append('compare:CMP')
        elif mode != 'plain':
            opts.append("mode:'%s'" % mode)
        if uniq:
            opts.append('unique:true')
        arg = '{%s}' % ', '.join(opts)
        if opts == ['compare:CMP'] and k % 2:
            arg = 'CMP'
        if not opts:
            arg = ''
        return ("L = []; AT = %d; WHAT = '%s'; CM = '%s'; REF = 0;\ntry { var q = a.sort(%s); X(%d, REF ? [S(q), 'refused'] : [S(q)]); } catch(e) { X(%d, ['thrown']); }\n"
                % (at, what, mode, arg, k, k)).replace('var q', 'q')
    raise vf.MachineryError(op)


VALS = ['n1', 'n0', 'n-3', 'n5', 'sab', 's', 'u', 'z', 'bT', 'bF', 'hole', 'hole']
STRS = ['s', 's10', 's9', 'sA', 'sA9', 'sAB', 'sB', 'sZ', 'sa', 'sa10', 'sa9', 'sab', 'sb', 'sz', 's{']


def gen(rng, length, big):
    evs = []
    kind = None
    while len(evs) < length:
        p = rng.random()
        if not evs or p < 0.25:
            kind = rng.choice(['any', 'num', 'num', 'str'])
            n = rng.choice([0, 1, 2, 3, 4, 6] + ([15, 40] if big else [7]))
            pool = {'any': VALS, 'num': ['n%d' % i for i in range(-9, 9)] + ['hole'] * rng.choice([0, 0, 2]),
                    'str': STRS + ['hole'] * rng.choice([0, 0, 2])}[kind]
            if kind == 'num' and rng.random() < 0.4:
                pool = ['n%d' % i for i in range(-60, 60)]
            evs.append(dict(op='lit', a=[[rng.choice(pool) for _ in range(n)]]))
            cur = evs[-1]['a'][0]
            continue

        def val():
            return rng.choice({'any': VALS[:-2], 'num': ['n4', 'n-2', 'n60'], 'str': STRS}[kind])

        def action(k):
            r = rng.choice(['bF', 'bT', 'n0', 'n3', 's', 'sxy', 'u', 'z']) if k == 'any' else rng.choice(['bF', 'bF', 'bF', 'n0'])
            if rng.random() < 0.04:
                r = 'throw'
            return [rng.choice(['none'] * 4 + ['push', 'unshift', 'pop', 'shift', 'set', 'splice', 'clear', 'reverse', 'setp', 'nest', 'chop', 'chop', 'chophead', 'refill']),
                    rng.randint(0, 5), val(), r]
        if kind != 'any' and p < 0.55:
            hole = any(e['op'] in ('lit', 'mut', 'iter') and 'hole' in str(e['a']) for e in evs) or True
            cmp = rng.random() < 0.5
            mode = (rng.choice(['num', 'rev', 'frac', 'fracrev']) if kind == 'num' else 'str') if cmp else \
                rng.choice(['plain', 'desc'] if kind == 'num' else ['plain', 'desc', 'dict', 'nocase'])
            what = rng.choice(['-', '-', 'throw', 'push', 'pop', 'shift', 'unshift', 'splice', 'fill', 'reverse', 'set', 'sort']) if cmp else '-'
            if cmp and rng.random() < 0.15:
                what = 'throw'
            evs.append(dict(op='sort', a=[mode, False, rng.choice([1, 1, 2, 3, rng.randint(1, 8)]) if what != '-' else 0, what], _u=rng.random() < (0.5 if what == 'throw' else 0.35)))
            if what == 'throw' and rng.random() < 0.7:      # the array is usable afterwards
                evs.append(dict(op='sort', a=['num' if kind == 'num' else 'str', False, 0, '-'], _u=False) if rng.random() < 0.5 else dict(op='mut', a=[[rng.choice(['push', 'pop', 'shift']), 0, val(), 'u']]))
            continue
        if p < 0.6:
            a = action('no')
            a[3] = 'u'
            evs.append(dict(op='mut', a=[a]))
            continue
        m = rng.choice(SINGLE + RED)
        sc = [action(rng.choice(['any', 'no', 'no'])) for _ in range(rng.choice([0, 1, 2, 4, 8]))]
        if m == 'every':
            for c in sc:
                if c[3] == 'bF':
                    c[3] = 'bT'
        if kind != 'any':
            for c in sc:
                if c[0] == 'reverse':
                    c[0] = 'none'
        if m in RED:
            evs.append(dict(op='iter', a=[m, rng.choice([0, 1, 2, 3, 4, 5]), [val()] if rng.random() < 0.6 else [], False, sc]))
            for c in sc:
                if c[3] in ('u',):
                    c[3] = 'n2'
        else:
            evs.append(dict(op='iter', a=[m, rng.choice([0, 1, 2, 3, 5]), [], m in ('forEach', 'map', 'filter', 'some') and rng.random() < 0.4, sc]))
    # unique leaves holes where they are found: asked for only while the array has none; whether a hole is present is
    # decided by a small mirror of the array's contents
    has = False
    for e in evs:
        if e['op'] == 'lit':
            has = 'hole' in e['a'][0]
        elif e['op'] == 'mut':
            has = has or e['a'][0][0] == 'set'
        elif e['op'] == 'iter':
            has = has or any(c[0] == 'set' for c in e['a'][4])
        elif e['op'] == 'sort':
            e['a'][1] = e.pop('_u') and not has
    return evs


def main(c):
    def runner(plan):
        text = PRE + ''.join(call(k, e) for k, e in enumerate(plan)).replace('q = a.sort', 'q = a.sort')
        text = text.replace("var a = []", "var q, a = []", 1)
        r = c.run_script(text)
        return vf.out_events(r, plan), text

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('IterMC', base + 'CONSTANTS MaxDepth = 2 Big = %s Emit = TRUE' % ('TRUE' if c.thorough else 'FALSE'),
                      label='every method x array x script', workers=1)
    paths = [p for p in paths if len(p) == 2]
    c.rng.shuffle(paths)
    keep = paths[:c.n(6000, 60000)]
    plans = []
    for i in range(0, len(keep), 30):
        plans.append([dict(op=e['op'], a=e['a']) for h in keep[i:i + 30] for e in h])
    c.conform('IterTrace', plans, runner, label='specification transitions')
    plans = [gen(c.rng, c.rng.choice([15, 30, 45]), i % 4 == 0) for i in range(c.n(600, 6000))]
    c.conform('IterTrace', plans, runner, label='random histories')
    c.require_ops(['lit', 'mut', 'iter', 'sort'])


vf.main('L06', 'model_checking', main)
