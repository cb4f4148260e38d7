#!/usr/bin/env python3
"""L03 closures, scopes, this: spec/Clo.tla bound to functions, calls, bind/call/apply/new and arguments."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

PRE = vf.PRELUDE + r'''
var D = 0, LG = [], w;
function LOG(v:any) { LG.push(E(v)); return v; }
function ID(x:any) { return x; }
function SETP(o:any, p:any, v:any) { o[p] = v; return v; }
function NEW(f:any, a:any) { return new f(a[0]); }
function TH() { throw 'stop'; }
function TRY(c:any, n:any) { try { return c(); } catch(e) { return n; } }
function FU() { if (++D > 30) throw 'deep'; }
function ADD(x:any, y:any) { var r = (x + y) % 1000; if (r < 0) r += 1000; return r; }
var zp = 7, zm;
var na = 0, nb = 1, nc = 2, ca = function() { FU(); return 1; }, cb = function() { FU(); return this.zp; },
  ua = function(na:any) { FU(); return ADD(na, 1); }, ub = ua,
  ma = function(na:any) { FU(); return function() { FU(); return na = ADD(na, 1); }; },
  ha = function(ca:any) { FU(); return ca(); },
  ka = function(na:any) { FU(); this.zp = na; this.zm = function() { FU(); return na = ADD(na, 1); }; return 0; },
  oa, ob;
zm = cb; oa = {zp:3, zm:cb}; ob = {zp:4, zm:ca};
function RES(k:number, r:any) { O([k, [r, LG, [E(na), E(nb), E(nc), E(zp)]]]); }
'''


def js(e):
    k = e[0]
    if k == 'num':
        return str(e[1]) if e[1] >= 0 else '(%d)' % e[1]
    if k == 'var':
        return e[1]
    if k == 'set':
        return '(%s = %s)' % (e[1], js(e[2]))
    if k == 'add':
        return 'ADD(%s, %s)' % (js(e[1]), js(e[2]))
    if k == 'log':
        return 'LOG(%s)' % js(e[1])
    if k == 'this':
        return 'this'
    if k == 'obj':
        return '{zp:%s, zm:%s}' % (js(e[1]), js(e[2]))
    if k == 'getp':
        return '%s.%s' % (rec(e[1]), e[2])
    if k == 'setp':
        if e[1][0] not in ('var', 'this') or not simple(e[3]):
            return "SETP(%s, '%s', %s)" % (js(e[1]), e[2], js(e[3]))
        return '(%s.%s = %s)' % (js(e[1]), e[2], js(e[3]))
    if k == 'fun':
        return fun(e)
    if k == 'call':
        return '%s(%s)' % (callee(e[1], e[2]), args(e[2]))
    if k == 'mcall':
        return '%s.%s(%s)' % (rec(e[1]), e[2], args(e[3]))
    if k == 'via':
        if e[1] == 'call':
            return '%s.call(%s)' % (callee(e[2], [e[3]] + e[4]), args([e[3]] + e[4]))
        return '%s.apply(%s, [%s])' % (callee(e[2], [e[3]] + e[4]), js(e[3]), args(e[4]))
    if k == 'bind':
        return '%s.bind(%s)' % (callee(e[1], [e[2]] + e[3]), args([e[2]] + e[3]))
    if k == 'new':
        return ('(new %s(%s))' if all(simple(x) for x in e[2]) else 'NEW(%s, [%s])') % (e[1][1], args(e[2]))
    if k == 'try':
        return 'TRY(%s, %s)' % (js(e[1]), js(e[2]))
    if k == 'throw':
        return 'TH()'
    if k == 'arg':
        return 'arguments[%d]' % (e[1] - 1)
    if k == 'setarg':
        return '(arguments[%d] = %s)' % (e[1] - 1, js(e[2]))
    if k == 'argc':
        return 'arguments.length'
    raise vf.MachineryError(k)


def rec(e):
    return js(e) if e[0] in ('var', 'this') else 'ID(%s)' % js(e)


# jsish reads the variable of a callee, or of the object of an assignment, after the arguments: not part of this property
def simple(e):
    return e[0] in ('num', 'var', 'this', 'fun', 'arg', 'argc') or e[0] == 'add' and simple(e[1]) and simple(e[2])


def callee(e, es):
    return e[1] if e[0] == 'var' and all(simple(x) for x in es) else 'ID(%s)' % js(e)


def args(es):
    return ', '.join(js(e) for e in es)


def fun(e, name=None):
    _, style, params, defs, locs, body = e
    b = 'FU(); '
    for n, i in locs:
        b += (fun(i, n) + ' ') if i[0] == 'fun' and i[1] == 's' else 'var %s = %s; ' % (n, js(i))
    for x in body[:-1]:
        b += js(x) + '; '
    b += 'return %s; ' % js(body[-1])
    if style == 'a':
        return '(%s => { %s})' % (params[0] if len(params) == 1 else '(%s)' % ', '.join(params), b)
    ps = ', '.join('%s:any' % p if not d else '%s=%d' % (p, d[0][1]) for p, d in zip(params, defs))
    return 'function%s(%s) { %s}' % (' ' + name if name else '', ps, b)


NAMES = {'n': ['na', 'nb', 'nc'], 'c': ['ca', 'cb'], 'u': ['ua', 'ub'], 'm': ['ma'], 'h': ['ha'], 'o': ['oa', 'ob'], 'k': ['ka']}


class Gen:
    """A typed generator: n numbers, o objects, and functions c ()->n, u (n)->n, m (n)->c, h (c)->n, k constructors."""
    def __init__(self, rng):
        self.rng = rng
        self.fs = []     # enclosing functions: dict(hidden names, nparams, arrow)

    def names(self, t):
        hid = set()
        for f in self.fs:
            hid |= f['hidden']
        return [x for x in NAMES[t] if x not in hid]

    def this(self):
        return ['this'] if not any(f['arrow'] for f in self.fs) else None

    def fun(self, t, d, style=None):
        rng = self.rng
        pts = {'c': '', 'u': 'n', 'm': 'n', 'h': 'c', 'k': 'n'}[t]
        style = style or ('a' if rng.random() < 0.15 and t != 'k' else 'e')
        used, params = set(), []
        for p in pts:
            x = rng.choice([y for y in NAMES[p] if y not in used])
            params.append(x)
            used.add(x)
        defs = [[] for _ in params]
        if style != 'a' and rng.random() < 0.2:
            x = rng.choice([y for y in NAMES['n'] if y not in used])
            params.append(x)
            used.add(x)
            defs.append([['n', rng.randint(10, 50)]])
        f = dict(hidden=set(), np=len(pts), arrow=style == 'a', types=pts)
        self.fs.append(f)
        names = []
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            lt = rng.choice('nnnccumo')
            c = [y for y in NAMES[lt] if y not in used]
            if c:
                x = rng.choice(c)
                used.add(x)
                names.append((x, lt))
        f['hidden'] = set(x for x, _ in names)
        locs = []
        for x, lt in names:
            if lt in 'cumh' and rng.random() < 0.5:
                i = self.fun(lt, d - 1, 's') if d > 0 else self.fun(lt, 0, 's')
            else:
                i = self.ex(lt, d - 1)
            locs.append([x, i])
            f['hidden'] = f['hidden'] - {x}
        body = []
        if t == 'k':
            body = [['setp', ['this'], 'zp', self.ex('n', 0)], ['setp', ['this'], 'zm', self.ex('c', min(d - 1, 1))]]
        for _ in range(rng.choice([0, 1, 1, 2])):
            body.append(self.ex('n', d - 1))
        body.append(self.ex({'c': 'n', 'u': 'n', 'm': 'c', 'h': 'n', 'k': 'n'}[t], d - 1))
        self.fs.pop()
        return ['fun', style, params, defs, locs, body]

    def args(self, ts, d):
        return [self.ex(t, d - 1) for t in ts]

    def ex(self, t, d):
        rng = self.rng
        names = self.names(t)
        if t != 'n' and (d <= 0 or rng.random() < 0.25) and names:
            return ['var', rng.choice(names)]
        if t == 'n':
            if d <= 0 or rng.random() < 0.12:
                p = rng.random()
                if p < 0.6 and names:
                    return ['var', rng.choice(names)]
                return ['num', rng.randint(0, 9)]
            p = rng.random()
            if p < 0.14:
                return ['add', self.ex('n', d - 1), self.ex('n', d - 1)]
            if p < 0.34 and names:
                x = rng.choice(names)
                return ['set', x, rng.choice([['add', ['var', x], ['num', rng.randint(1, 3)]], self.ex('n', d - 1)])]
            if p < 0.42:
                return ['log', self.ex('n', d - 1)]
            if p < 0.60:
                ft = rng.choice('ccuuh')
                return self.anycall(ft, {'c': '', 'u': 'n', 'h': 'c'}[ft], d)
            if p < 0.66:
                return ['mcall', self.ex('o', d - 1), 'zm', []]
            if p < 0.72:
                return ['getp', self.ex('o', d - 1), 'zp']
            if p < 0.78:
                return ['setp', self.ex('o', d - 1), 'zp', self.ex('n', d - 1)]
            if p < 0.82:
                return ['try', self.ex('c', d - 1), self.ex('n', d - 1)]
            if p < 0.84:
                return ['throw']
            if p < 0.90:
                # assign a variable of another type
                lt = rng.choice('ccumhok')
                c = self.names(lt)
                if c and not self.fs and lt != 'n':
                    return ['log', ['add', ['num', 0], ['call', ['fun', 'e', [rng.choice(['oa', 'ob']) if lt != 'o' else 'ca'], [[]], [], [['num', 1]]], [['set', rng.choice(c), self.ex(lt, d - 1)]]]]]
                return ['setp', self.ex('o', d - 1), 'zp', self.ex('n', d - 1)]
            if self.fs and not self.fs[-1]['arrow']:
                f = self.fs[-1]
                if p < 0.93:
                    return ['argc']
                ok = [i + 1 for i in range(f['np']) if f['types'][i] == 'n']
                if ok:
                    return ['arg', rng.choice(ok)] if rng.random() < 0.5 else ['setarg', rng.choice(ok), self.ex('n', d - 1)]
            return ['setp', self.ex('o', d - 1), 'zp', ['add', ['num', 1], self.ex('n', d - 1)]]
        if t == 'o':
            p = rng.random()
            if p < 0.35:
                return ['obj', self.ex('n', d - 1), self.ex('c', d - 1)]
            if p < 0.6 and self.names('k'):
                return ['new', ['var', rng.choice(self.names('k'))], [self.ex('n', d - 1)]]
            if p < 0.8 and self.this() and not any(f['hidden'] for f in self.fs):
                return ['this']
            return ['var', rng.choice(names)] if names else ['obj', ['num', 1], self.fun('c', 0)]
        p = rng.random()
        if t == 'c':
            if p < 0.25:
                return self.anycall('m', 'n', d)
            if p < 0.35:
                return ['getp', self.ex('o', d - 1), 'zm']
            if p < 0.5:
                if rng.random() < 0.5:
                    return ['bind', self.ex('u', d - 1), self.ex('o', d - 1), [self.ex('n', d - 1)]]
                return ['bind', self.ex('c', d - 1), self.ex('o', d - 1), []]
        if p < 0.6 and names and d > 0 and t != 'k':
            return ['set', rng.choice(names), self.ex(t, d - 1)]
        return self.fun(t, max(d, 0))

    def anycall(self, ft, ats, d):
        rng = self.rng
        f, a = self.ex(ft, d - 1), self.args(ats, d)
        p = rng.random()
        if p < 0.05:
            a = a[:-1] if rng.random() < 0.5 else a + [['num', 3], ['num', 4]]
        if p < 0.6:
            return ['call', f, a]
        return ['via', rng.choice(['call', 'apply']), f, self.ex('o', d - 1), a]


def gen(rng, n):
    evs = []
    for _ in range(n):
        g = Gen(rng)
        p = rng.random()
        if p < 0.5:
            t = rng.choice('ccccuumhook')
            e = ['set', rng.choice(NAMES[t]), g.ex(t, rng.choice([2, 3, 4]))]
        else:
            e = g.ex('n', rng.choice([2, 3, 4]))
        if len(repr(e)) < 4000:
            evs.append(dict(op='ev', a=[e]))
    return evs


def main(c):
    def runner(ops):
        text = PRE
        for k, e in enumerate(ops):
            text += 'D = 0; LG = []; try { w = %s; RES(%d, ["v", E(w)]); } catch(e) { RES(%d, ["thrown"]); }\n' % (js(e['a'][0]), k, k)
        return vf.out_events(c.run_script(text), ops), text

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('CloMC', base + 'CONSTANTS MaxDepth = %d Emit = TRUE' % c.n(3, 4), label='short histories', workers=1)
    plans = [[dict(op=e['op'], a=e['a']) for e in h] for h in paths if len(h) == c.n(3, 4)]
    c.rng.shuffle(plans)
    c.conform('CloTrace', plans[:c.n(1500, 20000)], runner, label='specification transitions')
    plans = [gen(c.rng, c.rng.choice([10, 20])) for _ in range(c.n(500, 5000))]
    c.conform('CloTrace', plans, runner, label='random histories')
    c.require_ops(['ev'])


vf.main('L03', 'model_checking', main)
