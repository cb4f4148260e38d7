#!/usr/bin/env python3
"""L02 expressions: spec/Ops.tla bound to the operators, assignments and operand sources."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

PRE = vf.PRELUDE + r'''
var a, b, c, o, r, L, w;
function t(k:any, v:any) { L.push('n' + k); return v; }
function sv(v:any) { a = v; o.p = v; r[0] = v; return v; }
function ob(x:any) { return x; }
function th() { throw 'stop'; }
function f1(x:any, y:any, z:any) { return x; }
function f2(x:any, y:any, z:any) { return y; }
function f3(x:any, y:any, z:any) { return z; }
function I(v1:any, v2:any, v3:any, p1:any, q1:any, r1:any, r2:any, r3:any) {
    a = v1; b = v2; c = v3; L = [];
    o = {p:p1, q:q1, get g() { L.push('g'); return this.p; }, set g(v) { L.push('s'); this.p = v; }};
    r = [r1, r2, r3];
}
function Y(k:number, v:any) { O([k, [v, L, [E(a), E(b), E(c), E(o.p), E(o.q), E(r[0]), E(r[1]), E(r[2])]]]); }
'''
PREC = {'*': 12, '/': 12, '%': 12, '+': 11, '-': 11, '<<': 10, '>>': 10, '>>>': 10, '<': 9, '>': 9, '<=': 9, '>=': 9,
        '==': 8, '!=': 8, '===': 8, '!==': 8, '&': 7, '^': 6, '|': 5}
NAMES = {1: 'a', 2: 'b', 3: 'c', 4: 'o.p', 5: 'o.q'}


def lit(v):
    if v[0] == 'n':
        return str(v[1])
    if v[0] == 's':
        return "'%s'" % v[1]
    if v[0] == 'b':
        return 'true' if v[1] else 'false'
    return {'z': 'null', 'u': 'undefined'}[v[0]]


def src(e, full, form):
    """(text, precedence)"""
    def sub(x, p):
        t, q = src(x, full, form)
        return '(%s)' % t if q < p or (full and q < 20) else t
    k = e[0]
    if k == 'lit':
        return lit(e[1]), (13 if e[1][0] == 'n' and e[1][1] < 0 else 20)
    if k in ('var', 'prop'):
        return NAMES[e[1]], 20
    if k == 'acc':
        return 'o.g', 20
    if k == 'cprop':
        return 'o[%s]' % sub(e[1], 0), 20
    if k == 'idx':
        return 'r[%s]' % sub(e[1], 0), 20
    if k == 't':
        return 't(%d, %s)' % (e[1], sub(e[2], 2)), 20
    if k == 'setv':
        return 'sv(%s)' % sub(e[1], 2), 20
    if k == 'throw':
        return 'th()', 20
    if k == 'pick':
        f = (form + e[1]) % 3
        args = [sub(x, 2) for x in e[2]]
        if f == 0:
            return '[%s][%d]' % (', '.join(args), e[1] - 1), 20
        if f == 1:
            return 'ob({%s}).%s' % (', '.join('%s:%s' % z for z in zip('xyz', args)), 'xyz'[e[1] - 1]), 20
        return 'f%d(%s)' % (e[1], ', '.join(args)), 20
    if k == 'un':
        t = sub(e[2], 13)
        return e[1] + (' ' if e[1].isalpha() or t[0] in '+-' else '') + t, 13
    if k == 'and':
        return sub(e[1], 4) + ' && ' + sub(e[2], 5), 4
    if k == 'or':
        return sub(e[1], 3) + ' || ' + sub(e[2], 4), 3
    if k == 'if':
        return sub(e[1], 3) + ' ? ' + sub(e[2], 2) + ' : ' + sub(e[3], 2), 2
    if k == 'comma':
        l = sub(e[1], 1)
        return ('(%s)' % l if l.isalnum() and not l.isdigit() else l) + ', ' + sub(e[2], 2), 1
    if k == 'bin':
        p = PREC[e[1]]
        r = sub(e[3], p + 1)
        return sub(e[2], p) + ' ' + e[1] + ' ' + r, p
    if k == 'asg':
        return sub(e[1], 20) + ' = ' + sub(e[2], 2), 2
    if k == 'op':
        return sub(e[2], 20) + ' ' + e[1] + '= ' + sub(e[3], 2), 2
    if k == 'inc':
        d = '++' if e[1] > 0 else '--'
        return (d + sub(e[3], 20), 13) if e[2] else (sub(e[3], 20) + d, 13)
    raise vf.MachineryError(k)


def line(k, e, full):
    env, tree = e['a']
    return ('I(%s);\ntry { w = E((%s)); Y(%d, ["v", w]); } catch(e) { Y(%d, ["thrown"]); }\n' %
            (', '.join(lit(v) for v in env), src(tree, full, k)[0], k, k))


VALS = [['n', 1], ['n', 2], ['n', 5], ['n', -3], ['n', 0], ['n', 12], ['n', 100], ['n', -70], ['s', ''], ['s', '5'], ['s', 'x'], ['s', 'ab'], ['s', '12'],
        ['b', True], ['b', False], ['z'], ['u']]
NUMS = [v for v in VALS if v[0] == 'n']


class Gen:
    def __init__(self, rng, num):
        self.rng, self.k, self.num = rng, 0, num

    def val(self):
        return self.rng.choice(NUMS if self.rng.random() < self.num else VALS)

    def init(self):
        v = self.val()
        return v if v != ['u'] else ['n', 4]

    def place(self, d):
        p = self.rng.random()
        if p < 0.4:
            return ['var', self.rng.randint(1, 3)]
        if p < 0.55:
            return ['prop', self.rng.randint(4, 5)]
        if p < 0.65:
            return ['acc']
        if p < 0.8:
            return ['cprop', self.label(['lit', ['s', self.rng.choice('pqg')]])]
        return ['idx', self.label(['lit', ['n', self.rng.randint(0, 2)]])]

    def label(self, e):
        self.k += 1
        return ['t', self.k, e]

    def ex(self, d):
        rng = self.rng
        p = rng.random()
        if d <= 0 or p < 0.06:
            return rng.choice([lambda: ['lit', self.val()], lambda: self.label(['lit', self.val()]), lambda: self.place(0), lambda: self.place(0)])()
        if p < 0.44:
            ops = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '>>>', '==', '!=', '===', '!==', '<', '>', '<=', '>=', '+', '-', '*', '<']
            return ['bin', rng.choice(ops), self.ex(d - 1), self.ex(d - 1)]
        if p < 0.52:
            return ['un', rng.choice(['-', '+', '!', '!', '~', 'typeof', 'void']), self.ex(d - 1)]
        if p < 0.60:
            return [rng.choice(['and', 'or']), self.ex(d - 1), self.ex(d - 1)]
        if p < 0.66:
            return ['if', self.ex(d - 1), self.ex(d - 1), self.ex(d - 1)]
        if p < 0.72:
            return ['asg', self.place(d), self.ex(d - 1)]
        if p < 0.81:
            return ['op', rng.choice(['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '+', '-']), self.place(d), self.ex(d - 1)]
        if p < 0.88:
            return ['inc', rng.choice([1, -1]), rng.random() < 0.5, self.place(d)]
        if p < 0.92:
            return ['setv', self.ex(d - 1)]
        if p < 0.94:
            return ['comma', self.ex(d - 1), self.ex(d - 1)]
        if p < 0.98:
            return ['pick', rng.randint(1, 3), [self.ex(d - 1), self.ex(d - 1), self.ex(d - 1)]]
        if p < 0.985:
            return ['throw']
        return self.label(self.ex(d - 1))


def gen(rng):
    g = Gen(rng, rng.choice([0.4, 0.8, 1]))
    return dict(op='ev', a=[[g.init() for _ in range(8)], g.ex(rng.choice([1, 2, 2, 3, 3, 4, 5]))])


def main(c):
    def runner(plan):
        ops, full = plan
        text = PRE + ''.join(line(k, e, full) for k, e in enumerate(ops))
        return vf.out_events(c.run_script(text), ops), text

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('OpsMC', base + 'CONSTANTS MaxDepth = 1 Big = %s Emit = TRUE' % ('TRUE' if c.thorough else 'FALSE'),
                      label='every operator and place on every operand', workers=1)
    keep = [h[0] for h in paths]
    plans = []
    for i in range(0, len(keep), 40):
        plans.append(([dict(op=e['op'], a=e['a']) for e in keep[i:i + 40]], i // 40 % 2))
    c.conform('OpsTrace', plans, runner, label='specification transitions')
    plans = [([gen(c.rng) for _ in range(40)], i % 2) for i in range(c.n(400, 4000))]
    c.conform('OpsTrace', plans, runner, label='random expressions')
    c.require_ops(['ev'])


vf.main('L02', 'model_checking', main)
