#!/usr/bin/env python3
"""M02 options of scripts: spec/Opts.tla bound to getOpts, parseOpts, moduleOpts and moduleRun."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

KEYS = ["Assert", "Debug", "Test", "Trace", "a", "b", "l", "n", "s", "t", "u"]
PRE = vf.PRELUDE + r'''
var X = { o: {}, c: {}, z: {} }, NEW, KO = %s;
function W(v:any) {
    var t = typeof v;
    if (t === 'undefined') return {t:'u', x:'', h:0};
    if (v === null) return {t:'z', x:'', h:0};
    if (t === 'number') return {t:'n', x:'', h:Math.round(v*2)};
    if (t === 'boolean') return {t:'b', x:(v ? 'true' : 'false'), h:0};
    if (t === 'string') return {t:'s', x:v, h:0};
    if (t === 'array') return {t:'a', x:JSON.stringify(v).replace(/ /g,''), h:0};
    return {t:'m', x:JSON.stringify(v).replace(/ /g,''), h:0};
}
function L(m:object) {
    var r = [], n = 0, k;
    for (var i = 0; i < KO.length; i++) { k = KO[i]; if (k in m) { r.push({k:k, v:W(m[k])}); n++; } }
    if (Object.keys(m).length != n) r.push({k:'?', v:W(null)});
    return r;
}
function OK() { return {k:'ok', rest:[], v:[]}; }
function VAL(v:any) { return {k:'ok', rest:[W(v)], v:[]}; }
function MAP(m:object) { return {k:'ok', rest:[], v:L(m)}; }
function TOOK(m:object, self) {
    if (self && m !== X.z) throw('not self');
    X.z = m;
    return MAP(m);
}
function mm(args, conf) { NEW = moduleOpts(X.o); return args; }
function mz(args, conf) { NEW = moduleOpts(X.o, X.z); return args; }
provide(mm); provide(mz);
function c1(args, conf) { return moduleOpts(X.o); }
function c2(args, conf) { return moduleOpts(X.o, X.z); }
function RUN(f:any, as:array, self) {
    NEW = null;
    var a = moduleRun(f, as), r = [], i;
    for (i = 0; i < a.length; i++) r.push(W(a[i]));
    if (self && NEW !== X.z) throw('not self');
    X.z = NEW;
    return {k:'ok', rest:r, v:L(NEW)};
}
function DO(k:number, f:function) {
    var r;
    try { r = f(); } catch(e) { r = {k:'err', rest:[], v:[]}; }
    O([k, r]);
}
''' % json.dumps(KEYS)


def lit(v):
    t = v['t']
    if t == 'n':
        h = v['h']
        return '%d' % (h // 2) if h % 2 == 0 else repr(h / 2.0)
    return {'s': json.dumps(v['x']), 'z': 'null', 'u': 'undefined'}.get(t, v['x'])


def obj(kvs):
    return '{' + ', '.join('%s:%s' % (k['k'], lit(k['v'])) for k in kvs) + '}'


def js(e):
    o, (w, kvs, vs) = e['op'], e['a']
    k = kvs[0]['k'] if kvs else ''
    if o == 'new':
        return 'X.%s = %s; return OK();' % (w, obj(kvs))
    if o == 'put':
        return 'X.%s.%s = %s; return OK();' % (w, k, lit(kvs[0]['v']))
    if o == 'inc':
        return 'if (typeof X.%s.%s !== "number") throw("no"); X.%s.%s%s; return OK();' % (w, k, w, k, '++')
    if o == 'del':
        return 'delete X.%s.%s; return OK();' % (w, k)
    if o == 'read':
        return 'return VAL(X.%s.%s);' % (w, k)
    if o == 'has':
        return 'return VAL("%s" in X.%s);' % (k, w)
    if o == 'dump':
        return 'return MAP(X.%s);' % w
    if o == 'get':
        call = dict(get='getOpts(X.o, X.c)', getz='getOpts(X.o, X.c, X.z)', parse='parseOpts(X.z, X.o, X.c)', parse0='parseOpts(X.z, X.o, null)',
                    mod='c1(["q"], X.c)', modz='c2([], X.c)', modzc='moduleOpts(X.o, X.z, X.c)', mod0='moduleOpts(X.o)', modz0='moduleOpts(X.o, X.z, null)')[w]
        return 'return TOOK(%s, %s);' % (call, 'true' if 'z' in w or 'parse' in w else 'false')
    f = dict(f='mm', n='"mm"', z='mz', nz='"mz"')[w]
    return 'return RUN(%s, [%s], %s);' % (f, ', '.join(lit(v) for v in vs), 'true' if 'z' in w else 'false')


def main(c):
    def runner(plan):
        t = PRE + ''.join('DO(%d, function() { %s });\n' % (k, js(e)) for k, e in enumerate(plan))
        return vf.out_events(c.run_script(t), plan), t

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('OptsMC', base + 'CONSTANTS MaxDepth = %d Emit = TRUE Big = %s' % ((5, 'TRUE') if c.thorough else (4, 'FALSE')), label='small tables, settings and argument lists')
    c.conform('OptsTrace', paths, runner, label='specification transitions')
    c.conform('OptsTrace', [gen(c.rng) for _ in range(c.n(700, 8000))], runner, label='random tables and argument lists')
    c.require_ops(['new', 'put', 'inc', 'del', 'read', 'has', 'dump', 'get', 'run'])


def V(t, x='', h=0):
    return dict(t=t, x=x, h=h)


TEXTS = ['true', 'TRUE', 'True', 't', 'tru', 'false', 'FALSE', 'f', 'fal', '5', '0', '1', '-5', '1.5', '-0.5', '0x10', '1e1', 'null', 'x', 'x y', '5x', '', 'truex', 'on', 'yes',
         '{}', '-', '--', '-q', '--a', '-A', '-Trace', '-as', '.']


def val(r, undef=False):
    t = r.choice('nnnssbbzam' + ('u' if undef else ''))
    if t == 'n':
        return V('n', '', r.choice([0, 2, 2, 10, 3, -10, 14, -1, 200]))
    if t == 's':
        return V('s', r.choice(['x', 'y z', '', '5', 'true']))
    if t == 'b':
        return V('b', r.choice(['true', 'false']))
    if t == 'a':
        return V('a', r.choice(['[]', '[1]', '[1,"x"]']))
    if t == 'm':
        return V('m', r.choice(['{}', '{"k":1}']))
    return V(t)


def gen(r):
    tab = {}

    def typed(k, wrong=0.15):
        d = tab.get(k)
        if d and d['t'] in 'nsb' and r.random() > wrong:
            for _ in range(50):
                v = val(r)
                if v['t'] == d['t'] or (d['t'] == 'b' and v['t'] == 'n' and v['h'] in (0, 2)):
                    return v
        return val(r)

    def kvs(ks, f):
        return [dict(k=k, v=f(k)) for k in ks]
    opts = KEYS[4:] if r.random() < 0.8 else KEYS

    def new(w):
        if w == 'o':
            ks = r.sample(opts, r.randint(1, 5))
            tab.clear()
            for k in ks:
                tab[k] = val(r, True)
            return dict(op='new', a=[w, kvs(ks, tab.get), []])
        if w == 'c':
            ks = r.sample(sorted(tab), r.randint(0, min(3, len(tab))))
            if r.random() < 0.2:
                ks = list(dict.fromkeys(ks + [r.choice(KEYS)]))
            return dict(op='new', a=[w, kvs(ks, lambda k: V('u') if r.random() < 0.03 else V('b', 'true') if k in ('Debug', 'Test') and r.random() < 0.8 else typed(k)), []])
        ks = r.sample(KEYS, r.choice([0, 1, 2, 3]))
        return dict(op='new', a=[w, kvs(ks, lambda k: val(r, True)), []])

    def args():
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.choice(sorted(tab)) if r.random() < 0.85 else r.choice(KEYS)
            out.append(V('s', '-' + k))
            d = tab.get(k)
            if r.random() < 0.03:
                continue
            q = r.random()
            if d and d['t'] == 'n' and q < 0.8:
                v = V('s', r.choice(['5', '0', '1', '-5', '1.5', '0x10', '1e1']))
            elif d and d['t'] == 'b' and q < 0.8:
                v = V('s', r.choice(['true', 'false', 't', 'FALSE', '1', '0']))
            elif d and d['t'] == 's' and q < 0.8:
                v = V('s', r.choice(['x', 'x y', '', '-', '--', '-a', 'on', '5x']))
            else:
                v = r.choice([V('s', r.choice(TEXTS)), val(r)])
                if v['t'] != 's' or (v['t'] == 's' and v['x'] == '-h'):
                    v = V('s', 'x')
            out.append(v)
        q = r.random()
        if q < 0.25:
            out.append(V('s', '--'))
        if q < 0.5:
            for _ in range(r.choice([0, 1, 2, 3])):
                out.append(r.choice([V('s', r.choice(TEXTS)), V('s', 'f.txt')]))
        return out
    evs = [new('o'), new('c')]
    for _ in range(r.choice([8, 16, 30])):
        o = r.choice(['new'] * 4 + ['put', 'inc', 'inc', 'del', 'read', 'has', 'dump', 'dump'] + ['get'] * 7 + ['run'] * 5)
        w = r.choice('ooczzzz')
        k = r.choice(KEYS[4:])
        if o == 'new':
            e = new(r.choice('occczz'))
        elif o == 'put':
            v = val(r)
            if w == 'o':
                tab[k] = v
            e = dict(op=o, a=[w, [dict(k=k, v=v)], []])
        elif o in ('inc', 'del', 'read', 'has'):
            if o == 'del' and w == 'o':
                w = 'c'
            e = dict(op=o, a=[w, [dict(k=k, v=V('u'))], []])
        elif o == 'dump':
            e = dict(op=o, a=[w, [], []])
        elif o == 'get':
            e = dict(op=o, a=[r.choice(['get', 'get', 'getz', 'getz', 'parse', 'parse', 'parse0', 'mod', 'mod', 'modz', 'modzc', 'modzc', 'mod0', 'modz0']), [], []])
        else:
            e = dict(op=o, a=[r.choice(['f', 'f', 'n', 'z', 'nz']), [], args()])
        evs.append(e)
    return evs


vf.main('M02', 'model_checking', main)
