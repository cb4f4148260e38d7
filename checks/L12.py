#!/usr/bin/env python3
"""L12 numbers: spec/Num.tla bound to the arithmetic, comparison and bit operators."""
import os, sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

PRE = vf.PRELUDE + r'''
var a, b, i, w, r = [0, 0, 0], o = {p:0, q:0, get g() { return this.p; }, set g(v) { this.p = v; }};
function id(x:any) { return x; }
function loc(x:number, y:number) { var n = 0; if (x < y) n = 1; return n; }
'''
ARITH = ['+', '-', '*', '/', '%']
BITS = ['<<', '>>', '>>>', '&', '|', '^']
CMPS = ['==', '===', '!=', '!==', '<', '>', '<=', '>=']
FORMS = 8


def value(x):
    if x[0] == 'e':
        return Fraction(x[1], 8)
    v = x[1] * 65536 + x[2]
    return Fraction(v - (1 << 32) if x[0] == 'w' and x[1] >= 32768 else v)


def text(x):
    v = value(x)
    return str(v.numerator) if v.denominator == 1 else repr(float(v))


def line(k, e):
    op, x, y, f = e['a']
    x, y = text(x), text(y)
    f %= FORMS
    if op in ('~', '!', 'neg', 'pos', 'inc', 'dec'):
        s = {'neg': '-', 'pos': '+'}.get(op, op)
        if op in ('inc', 'dec'):
            s = '++' if op == 'inc' else '--'
            body = ['a = %s; ' % x + s + 'a; w = a;', 'a = %s; w = %sa;' % (x, s), 'o.p = %s; o.p%s; w = o.p;' % (x, s), 'r[1] = %s; %sr[1]; w = r[1];' % (x, s),
                    'a = %s; w = a%s; w = (w === %s ? a : "old");' % (x, s, x), 'o.g = %s; o.g%s; w = o.p;' % (x, s), 'o.g = %s; w = %so.g; w = (w === o.p ? w : "other");' % (x, s),
                    'w = (function(x:number) { x%s; return x; })(%s);' % (s, x)][f]
        else:
            body = ['w = %s(%s);' % (s, x), 'a = %s; w = %sa;' % (x, s), 'o.p = %s; w = %so.p;' % (x, s), 'r[1] = %s; w = %sr[1];' % (x, s), 'w = %sid(%s);' % (s, x),
                    'a = %s; w = %sa; if (a !== %s) w = "changed";' % (x, s, x), 'o.g = %s; w = %so.g;' % (x, s), 'w = (function(x:number) { return %sx; })(%s);' % (s, x)][f]
    else:
        c = op not in CMPS
        body = ['w = (%s) %s (%s);' % (x, op, y), 'a = %s; b = %s; w = a %s b;' % (x, y, op),
                ('a = %s; a %s= %s; w = a;' if c else 'a = %s; w = a %s %s;') % (x, op, y),
                'o.p = %s; r[2] = %s; w = o.p %s r[2];' % (x, y, op),
                'a = %s; b = %s; w = a %s b; if (a !== %s || b !== %s) w = "changed";' % (x, y, op, x, y),
                ('o.g = %s; o.g %s= %s; w = o.p;' if c else 'o.g = %s; w = o.g %s %s;') % (x, op, y),
                'w = (function(x:number, y:number) { return x %s y; })(%s, %s);' % (op, x, y),
                ('r[0] = %s; r[0] %s= id(%s); w = r[0];' if c else 'r[0] = %s; w = false; if (r[0] %s id(%s)) w = true;') % (x, op, y)][f]
    return 'w = null; try { %s w = E(w); } catch(e) { w = "E"+e; } O([%d, w]);\n' % (body, k)


def outcome(op, t):
    if isinstance(t, list):
        return t
    if t in ('bT', 'bF'):
        return ['b', t == 'bT']
    if t[:1] == 'n':
        try:
            v = Fraction(t[1:])
        except ValueError:
            return ['?', t]
        if op in BITS or op == '~':
            if v.denominator != 1 or abs(v) >= 1 << 33:
                return ['?', t]
            m = abs(v.numerator)
            return ['m', v < 0, m >> 16, m & 65535]
        v *= 64
        return ['e', v.numerator] if v.denominator == 1 and abs(v) < 1 << 31 else ['?', t]
    return ['?', t]


def word(r):
    h = r.choice([0, 0, 1, 255, 32767, 32768, 65535, r.randrange(65536), r.randrange(65536), r.randrange(65536)])
    return ['w', h, r.choice([0, 1, 65535, r.randrange(65536), r.randrange(65536)])]


def gen(r):
    k = r.choice(ARITH * 2 + BITS * 2 + CMPS + ['~', '!', 'neg', 'pos', 'inc', 'dec'])
    e = lambda: ['e', r.choice([r.randint(-40, 40), r.randint(-30000, 30000), 8 * r.randint(-3000, 3000)])]
    small = lambda: ['e', r.randint(-24, 24)]
    if k in ('<<', '>>', '>>>'):
        x, y = r.choice([word(r), word(r), ['u'] + word(r)[1:], e()]), r.choice([['e', 8 * r.randint(0, 31)], ['e', 8 * r.randint(-40, 70)], small(), word(r)])
    elif k in ('&', '|', '^', '~'):
        x, y = r.choice([word(r), word(r), e()]), r.choice([word(r), word(r), e()])
    elif k in CMPS + ['!']:
        x = r.choice([word(r), ['u'] + word(r)[1:], e(), small()])
        y = r.choice([word(r), ['u'] + word(r)[1:], e(), small(), list(x), [x[0], x[1] + (1 if x[0] == 'e' else 0)] + x[2:]])
    elif k == '/':
        y = r.choice([small(), e()])
        while y[1] == 0:
            y = e()
        q = r.randint(-400, 400)
        n = Fraction(q, 64) * y[1]
        x = ['e', int(n)] if n.denominator == 1 and abs(n) <= 30000 else ['e', r.randint(-60, 60) * y[1] if abs(y[1]) < 500 else y[1]]
    else:
        x, y = r.choice([e(), small()]), r.choice([e(), small()])
        if k == '%' and y[1] == 0:
            y = ['e', 12]
    return dict(op='num', a=[k, x, y, r.randrange(FORMS)])


def main(c):
    def runner(plan):
        t = PRE + ''.join(line(k, e) for k, e in enumerate(plan))
        evs = vf.out_events(c.run_script(t), plan)
        for e in evs:
            if 'bad' not in e:
                e['r'] = outcome(e['a'][0], e['r'])
        return evs, t

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('NumMC', base + 'CONSTANTS MaxDepth = 1 Big = %s Emit = TRUE' % ('TRUE' if c.thorough else 'FALSE'), label='every operator on edge numbers', workers=1)
    evs = []
    for p in paths:
        for f in (range(FORMS) if c.thorough else c.rng.sample(range(FORMS), 2)):
            evs.append(dict(op='num', a=p[0]['a'][:3] + [f]))
    c.rng.shuffle(evs)
    c.conform('NumTrace', [evs[i:i + 60] for i in range(0, len(evs), 60)], runner, label='specification transitions')
    c.conform('NumTrace', [[gen(c.rng) for _ in range(60)] for _ in range(c.n(400, 6000))], runner, label='random operands')
    c.require_ops(['num'])


vf.main('L12', 'model_checking', main)
