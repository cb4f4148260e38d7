#!/usr/bin/env python3
"""I01 sub-interpreters: spec/Subs.tla bound to trees of interpreters, their aliases and the calls between them."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

FUNS = r'''
var x = 0, y = 0, z = 0, H1 = null, H2 = null, G = null;
function MU(t:any, n:any) { if (typeof t === 'array') t.push(n); else if (typeof t === 'object') t.q = n; }
function fset(...) { x = arguments.slice(0); return y; }
function fapp(...) { var i, n = arguments.length; if (typeof y !== 'array') y = []; for (i = 0; i < n; i++) y.push(arguments[i]); return n; }
function fthr(...) { z = arguments.slice(0); throw 'thrown'; }
function fmut(...) { var a = arguments.slice(0), n = a.length; if (n > 0) MU(a[n-1], 9); z = JSON.parse(JSON.stringify(a)); return a; }
function fup(...) { var a = arguments.slice(0), n = a.length, r; if (n === 0) r = up(); else if (n === 1) r = up(a[0]); else if (n === 2) r = up(a[0], a[1]); else if (n === 3) r = up(a[0], a[1], a[2]); else r = up.apply(null, a); return [r]; }
function ftry(...) { var r = 99; try { r = fup.apply(null, arguments)[0]; } catch(e) { r = 99; } return r; }
function fun(...) { var up = 55; H1.alias('up', null, null); return up-54; }
function fre(...) { H1.alias('up', fapp, [7]); return 2; }
function fcall(...) { var r = H1.call('fapp', arguments.slice(0), true); return [r]; }
function fcalln(...) { H1.call('fapp', arguments.slice(0)); return 3; }
function fkill(...) { H1 = null; return 4; }
function NEW() { var h = new Interp(); h.eval('var PRELUDE = Util.base64("'+Util.base64(PRELUDE)+'", true);'); h.eval(PRELUDE); return h; }
function fval(...) { return H1.value('y'); }
'''
PRE = vf.PRELUDE + r'''
var PRELUDE = Util.base64("%s", true);
''' % vf.base64s(FUNS.strip() + '\n') + FUNS


def lit(t):
    k = t['k']
    if k == 'n':
        return str(t['n'])
    if k == 's':
        return json.dumps(t['s'])
    if k == 'b':
        return 'true' if t['b'] else 'false'
    if k == 'z':
        return 'null'
    if k == 'v':
        return t['v']
    if k == 'a':
        return '[' + ','.join(lit(x) for x in t['e']) + ']'
    return '{' + ','.join('%s:%s' % (json.dumps(p['key']), lit(p['val'])) for p in t['m']) + '}'


def tree(v):
    if v is None:
        return dict(k='z')
    if isinstance(v, bool):
        return dict(k='b', b=v)
    if isinstance(v, (int, float)):
        return dict(k='n', n=v if int(v) != v else int(v))
    if isinstance(v, str):
        return dict(k='s', s=v)
    if isinstance(v, list):
        return dict(k='a', e=[tree(x) for x in v])
    return dict(k='o', m=[dict(key=k, val=tree(v[k])) for k in sorted(v)])


def body(op, a):
    args = lambda q: ', '.join(lit(x) for x in q)
    arr = lambda q: '[' + args(q) + ']' if q else 'null'
    h = 'H%s' % a[0] if a else ''
    if op == 'new':
        return '%s = NEW(); return 1;' % h
    if op == 'kill':
        return '%s = null; return 1;' % h
    if op == 'set':
        return '%s = %s; return 1;' % (a[0], lit(a[1]))
    if op == 'mut':
        return 'MU(%s, %d); return 1;' % (a[0], a[1])
    if op == 'dump':
        return 'var p = Array.prototype.zz; if (typeof p === "undefined") p = 0; return [x, y, z, Interp.conf("maxDepth"), p];'
    if op == 'conf':
        return 'Interp.conf({maxDepth:%d}); return 1;' % a[0]
    if op == 'proto':
        return 'Array.prototype.zz = %d; return 1;' % a[0]
    if op == 'self':
        return 'Interp.alias("S0", %s, %s); return 1;' % (a[0], arr(a[1]))
    if op == 'unself':
        return 'Interp.alias("S0", null, null); return 1;'
    if op == 'acall':
        return 'return %s(%s);' % (a[0], args(a[1]))
    if op == 'acallto':
        return '%s = %s(%s); return 1;' % (a[1], a[0], args(a[2]))
    if op == 'hold':
        return 'if (typeof %s !== "function") throw "none"; G = %s; return 1;' % (a[0], a[0])
    if op == 'hcall':
        return 'return G(%s);' % args(a[0])
    if op == 'pull':
        return '%s = %s.eval("return %s;"); return 1;' % (a[1], h, a[2])
    if op == 'ev':
        return 'return %s.eval(%s);' % (h, json.dumps('%s = %s; %s' % (a[1], lit(a[2]), 'throw "x";' if a[4] else 'return %s;' % a[3])))
    if op == 'call':
        return 'return %s.call("%s", [%s]%s);' % (h, a[1], args(a[2]), ', true' if a[3] else '')
    if op == 'callto':
        return '%s = %s.call("%s", [%s], true); return 1;' % (a[1], h, a[2], args(a[3]))
    if op == 'kconf':
        return 'return %s.conf("maxDepth");' % h if a[1] == 0 else '%s.conf({maxDepth:%d}); return 1;' % (h, a[1])
    if op == 'alias':
        return '%s.alias("%s", %s, %s); return 1;' % (h, a[1], a[2], arr(a[3]))
    if op == 'badalias':
        return '%s.alias("%s", %s, %s); return 1;' % (h, a[1], 'null' if a[2] else 'fset', '[]' if a[2] else '3')
    if op == 'unalias':
        return '%s.alias("%s", null, null); return 1;' % (h, a[1])
    if op == 'names':
        return 'return %s.alias().sort();' % h
    if op == 'bound':
        return 'var r = %s.alias("%s", null); if (typeof r === "undefined") r = null; return r;' % (h, a[1])
    raise AssertionError(op)


def wrap(b):
    return ("function XX() { var RR = 0; try { RR = (function() { %s })(); if (typeof RR === 'undefined') RR = '[\"u\"]'; else RR = JSON.stringify(['v', RR]); } "
            "catch(e) { RR = '[\"e\"]'; } return RR; } return XX();") % b


def text(k, e):
    code = wrap(body(e['op'], e['a'][1:]))
    for h in reversed(e['a'][0]):
        code = 'return H%d.eval(%s);' % (h, json.dumps(code))
    return 'var RES; try { RES = (function() { %s })(); } catch(e) { RES = \'["p"]\'; } puts("@["+%d+","+RES+"]");\n' % (code, k)


class Gen:
    def __init__(self, r):
        self.r = r
        self.evs = []
        self.kids = {(): set()}
        self.al = {}

    def lit(self, d=0):
        r = self.r
        p = r.random()
        if p < 0.3 or d > 2:
            return dict(k='n', n=r.choice([0, 1, -5, 42, 2000000000]))
        if p < 0.45:
            return dict(k='s', s=r.choice(['', 'a', 'q"\\', 'two words', "it's", 'l1\nl2', 'a\tb', '\u00e9\u20ac', '[1,2]', '{"a":1}', 'null', '12', '$x', '</script>', 'x' * 300]))
        if p < 0.5:
            return dict(k='b', b=r.random() < 0.5)
        if p < 0.55:
            return dict(k='z')
        if p < 0.8:
            return dict(k='a', e=[self.lit(d + 1) for _ in range(r.choice([0, 1, 2, 3]))])
        return dict(k='o', m=[dict(key=k, val=self.lit(d + 1)) for k in sorted(r.sample(['a', 'b', 'q', 'x y', 'z'], r.choice([0, 1, 2])))])

    def args(self, lits=False):
        r = self.r
        return [self.lit() if lits or r.random() < 0.5 else dict(k='v', v=r.choice('xyz')) for _ in range(r.choice([0, 1, 1, 2, 3]))]

    def step(self):
        r = self.r
        p = r.choice(list(self.kids))
        if r.random() < 0.03:
            p = p + (r.choice([1, 2]),)
        kids = self.kids.get(p, set())
        funs = ['fset', 'fapp', 'fthr', 'fmut', 'fup', 'fup', 'ftry', 'fun', 'fre', 'fcall', 'fcalln', 'fkill', 'fval']
        if r.random() < 0.7:
            funs = [f for f in funs if f != 'fkill']
        h = r.choice(sorted(kids)) if kids and r.random() < 0.95 else r.choice([1, 2])
        bound = [dict(k='n', n=r.choice([1, 2])) if r.random() < 0.6 else dict(k='s', s=r.choice(['b', 'c d'])) for _ in range(r.choice([0, 0, 1, 2]))]
        ops = (['set'] * 4 + ['mut'] * 6 + ['dump'] * 6 + ['conf', 'proto'] + ['self', 'unself'] + ['acall'] * 8 + ['hold'] * 2 + ['hcall'] * 2 + ['pull'] * 4 + ['ev'] * 4 + ['call'] * 8 + ['callto'] * 5 + ['acallto'] * 4 +
               ['kconf'] * 2 + ['alias'] * 8 + ['badalias'] + ['unalias'] * 2 + ['names'] * 2 + ['bound'] * 2)
        if len(p) < 3 and len(kids) < 2:
            ops += ['new'] * (12 if not kids else 3)
        if kids:
            ops += ['kill']
        o = r.choice(ops)
        if o == 'new':
            a = [h if h not in kids else r.choice([1, 2])]
            self.forget(p + (a[0],))
            self.kids.setdefault(p, set()).add(a[0])
            self.kids[p + (a[0],)] = set()
        elif o == 'kill':
            a = [h]
            self.forget(p + (h,))
            kids.discard(h)
        elif o == 'set':
            a = [r.choice('xyz'), self.lit()]
        elif o == 'mut':
            a = [r.choice('xyz'), r.choice([5, 6, 7])]
        elif o in ('dump', 'unself'):
            a = []
        elif o in ('conf', 'proto'):
            a = [r.choice([40, 60, 100])]
        elif o == 'self':
            a = [r.choice(['fset', 'fapp', 'fthr', 'fmut', 'fun']), bound]
        elif o == 'acall':
            n = r.choice(['A0', 'A1', 'up', 'up', 'up', 'S0'])
            a = [n, self.args(n == 'S0' or not p)]
        elif o == 'hold':
            a = [r.choice(['A0', 'A1', 'up', 'S0'])]
        elif o == 'hcall':
            a = [self.args(True)]
        elif o == 'pull':
            a = [h, r.choice('xyz'), r.choice('xyz')]
        elif o == 'ev':
            a = [h, r.choice('xyz'), self.lit(), r.choice('xyz'), r.random() < 0.2]
        elif o == 'call':
            a = [h, r.choice(funs), self.args(), r.random() < 0.6]
        elif o == 'callto':
            a = [h, r.choice('xyz'), r.choice(funs + ['fset'] * 8), self.args()]
        elif o == 'acallto':
            a = [r.choice(['A0', 'A1', 'up', 'up', 'up']), r.choice('xyz'), self.args(not p)]
        elif o == 'kconf':
            a = [h, r.choice([0, 0, 50, 70])]
        elif o == 'alias':
            a = [h, r.choice(['A0', 'A1', 'up', 'up', 'up']), r.choice(funs), bound]
        elif o == 'badalias':
            a = [h, r.choice(['A0', 'A1', 'up']), r.random() < 0.5]
        elif o in ('unalias', 'bound'):
            a = [h, r.choice(['A0', 'A1', 'up', 'S0'])]
        else:
            a = [h]
        self.evs.append(dict(op=o, a=[list(p)] + a))

    def forget(self, p):
        for q in list(self.kids):
            if q[:len(p)] == p:
                del self.kids[q]


def main(c):
    def runner(plan):
        t = PRE + ''.join(text(k, e) for k, e in enumerate(plan))
        r = c.run_script(t)
        evs = vf.out_events(r, plan)
        for e in evs:
            if e.get('r') and e['r'][0] == 'v':
                e['r'] = ['v', tree(e['r'][1])]
        return evs, t

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('SubsMC', base + 'CONSTANTS MaxDepth = %d Big = %s Emit = TRUE' % ((5, 'TRUE') if c.thorough else (4, 'FALSE')), label='small histories')
    top = max(len(p) for p in paths)
    paths = [p for p in paths if len(p) == top]
    c.rng.shuffle(paths)
    plans = []
    for h in paths[:c.n(1500, 20000)]:
        evs = [dict(op=e['op'], a=e['a']) for e in h]
        plans.append(evs + [dict(op='dump', a=[p]) for p in ([], [1], [1, 1])])
    c.conform('SubsTrace', plans, runner, label='specification transitions')

    def gen():
        g = Gen(c.rng)
        n = c.rng.choice([12, 25, 45])
        while len(g.evs) < n:
            g.step()
        return g.evs + [dict(op='dump', a=[list(p)]) for p in sorted(g.kids)]
    c.conform('SubsTrace', [gen() for _ in range(c.n(1200, 15000))], runner, label='random histories')
    c.require_ops(['new', 'kill', 'set', 'mut', 'dump', 'conf', 'proto', 'self', 'unself', 'acall', 'hold', 'hcall', 'pull', 'ev', 'call', 'kconf', 'alias', 'badalias', 'unalias', 'names', 'bound', 'callto', 'acallto'])


vf.main('I01', 'model_checking', main)
