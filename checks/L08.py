#!/usr/bin/env python3
"""L08 regular expressions: spec/Rex.tla bound to RegExp and the String methods that take one."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

PRE = vf.PRELUDE + r'''
var V = [null, null, null, null], R, C = 0;
function TXT(x:any) { return x === null ? 'null' : ''+x; }
function ARR(x:any) {
    var i, r = [];
    if (x === null) return ['z', []];
    for (i = 0; i < x.length; i++) r.push(x[i] === null ? ['z', ''] : ['s', x[i]]);
    return ['l', r];
}
function F1(m) { return '<'+m+'>'; }
function F0(m, o, s) { if (C && --C == 0) throw 'x'; return '<'+m+':'+o+':'+s+'>'; }
function F2(m, a:any, o, s) { if (C && --C == 0) throw 'x'; return '<'+m+':'+TXT(a)+':'+o+':'+s+'>'; }
function F3(m, a:any, b:any, o, s) { if (C && --C == 0) throw 'x'; return '<'+m+':'+TXT(a)+':'+TXT(b)+':'+o+':'+s+'>'; }
function F4(m, a:any, b:any, c:any, o, s) { if (C && --C == 0) throw 'x'; return '<'+m+':'+TXT(a)+':'+TXT(b)+':'+TXT(c)+':'+o+':'+s+'>'; }
function DO(k:number, f:function) {
    var r;
    try { r = f(); } catch(e) { r = ['e', []]; }
    O([k, r]);
}
'''
TOK = {'eac': 'é', 'han': '中'}
BACK = {v: k for k, v in TOK.items()}
SPECIAL = set('.*+?()[]{}|^$\\')


def chars(t):
    return [BACK.get(c, c) for c in t]


def text(q):
    return ''.join(TOK.get(c, c) for c in q)


def lit(q):
    return json.dumps(text(q), ensure_ascii=False)


def pat(t, prec=0):
    """the text of a tree; prec: 0 alternation allowed, 1 concatenation allowed, 2 an atom wanted (without making groups)"""
    k = t[0]
    if k == 'c':
        c = TOK.get(t[1], t[1])
        return '\\' + c if c in SPECIAL else c
    if k == 'any':
        return '.'
    if k == 'set':
        return '[' + ('^' if t[2] else '') + ''.join(TOK.get(c, c) for c in t[1]) + ']'
    if k == 'bol':
        return '^'
    if k == 'eol':
        return '$'
    if k == 'grp':
        return '(' + pat(t[2]) + ')'
    if k == 'alt':
        assert prec == 0
        return '|'.join(pat(x, 1) for x in t[1])
    if k == 'cat':
        assert prec <= 1
        return ''.join(pat(x, 1) for x in t[1])
    x = pat(t[1], 2)
    lo, hi = t[2], t[3]
    if (lo, hi) == (0, 99):
        return x + '*'
    if (lo, hi) == (1, 99):
        return x + '+'
    if (lo, hi) == (0, 1):
        return x + '?'
    return x + ('{%d}' % lo if lo == hi else '{%d,}' % lo if hi == 99 else '{%d,%d}' % (lo, hi))


def number(t, n=0):
    """give groups their numbers (in the order of their opening parentheses); groups are needed wherever a sequence or an
    alternation is repeated or an alternation is part of a sequence"""
    k = t[0]
    if k == 'grp':
        n += 1
        me = n
        x, n = number(t[-1], n)
        return ['grp', me, x], n
    if k in ('alt', 'cat'):
        r = []
        for x in t[1]:
            if k == 'cat' and x[0] == 'alt' or k == 'cat' and x[0] == 'cat':
                x = ['grp', 0, x]
            y, n = number(x, n)
            r.append(y)
        return [k, r], n
    if k == 'rep':
        x = t[1]
        if x[0] in ('alt', 'cat', 'rep', 'bol', 'eol'):
            x = ['grp', 0, x]
        x, n = number(x, n)
        return ['rep', x, t[2], t[3]], n
    return t, n


def spat(t):
    return pat(fix(t))


def fix(t):
    """numbered groups -> the two-element form pat() wants"""
    k = t[0]
    if k == 'grp':
        return ['grp', t[1], fix(t[2])]
    if k in ('alt', 'cat'):
        return [k, [fix(x) for x in t[1]]]
    if k == 'rep':
        return ['rep', fix(t[1]), t[2], t[3]]
    return t


def tpl(items):
    out = ''
    for x in items:
        out += {'t': lambda: text(x[1]), '&': lambda: '$&', '$': lambda: '$$', 'n': lambda: '$%d' % x[1], 'pre': lambda: '$`', 'post': lambda: "$'"}[x[0]]()
    return json.dumps(out, ensure_ascii=False)


def js(e, ngr):
    o, a = e['op'], e['a']
    v = 'V[%d]' % a[0]
    if o == 'mk':
        p = PAT[json.dumps(a[1])] if json.dumps(a[1]) in PAT else pat2(a[1])
        fl = ('g' if a[3] else '') + ('i' if a[4] else '')
        if a[5] == 0:
            return '%s = /%s/%s; return ["ok", []];' % (v, p, fl)
        s = json.dumps(p, ensure_ascii=False)
        return '%s = %s; return ["ok", []];' % (v, 'new RegExp(%s, "%s")' % (s, fl) if fl or a[5] == 2 else 'new RegExp(%s)' % s)
    if o == 'bad':
        return '%s = new RegExp(%s); return ["ok", []];' % (v, json.dumps(a[1]))
    if o == 'copy':
        return '%s = V[%d]; return ["ok", []];' % (v, a[1])
    if o == 'matchs':
        return 'R = %s; var m = ARR(%s.match(R)); if (R !== %s) return ["changed", []]; return m;' % (lit(a[2]), lit(a[1]), lit(a[2]))
    pre = 'if (%s === null) return ["-", []]; ' % v
    s = lit(a[1]) if len(a) > 1 and isinstance(a[1], list) else ''
    if o == 'test':
        return pre + 'return ["b", [""+%s.test(%s)]];' % (v, s)
    if o == 'search':
        return pre + 'return ["n", [""+%s.search(%s)]];' % (s, v)
    if o == 'exec':
        return pre + 'return ARR(%s.exec(%s));' % (v, s)
    if o == 'match':
        return pre + 'return ARR(%s.match(%s));' % (s, v)
    if o == 'getLast':
        return pre + 'R = %s.lastIndex; if (typeof R === "undefined") R = 0; return ["n", [""+R]];' % v
    if o == 'setLast':
        return pre + ('%s.lastIndex = %d; return ["n", ["%d"]];' % (v, a[1], a[1]) if ngr[1] else 'return ["-", []];')
    if o == 'replace':
        return pre + 'return ["s", %s.replace(%s, %s)];' % (s, v, tpl(a[2]))
    if o == 'replace1':
        return pre + 'return ["s", %s.replace(%s, F1)];' % (s, v)
    if o == 'replaceN':
        return pre + 'C = %d; return ["s", %s.replace(%s, F%d)];' % (a[2], s, v, ngr[0] + 1 if ngr[0] else 0)
    raise KeyError(o)


PAT = {}


def pat2(t):
    """text of a tree of the specification: groups only where it says grp"""
    k = t[0]
    if k == 'grp':
        return '(' + pat2(t[2]) + ')'
    if k == 'cat':
        return ''.join(pat2(x) for x in t[1])
    if k == 'alt':
        return '|'.join(pat2(x) for x in t[1])
    if k == 'rep':
        if t[1][0] == 'cat':          # a sequence cannot be repeated without a group
            raise KeyError('rep of cat')
        x = pat2(t[1])
        return pat(['rep', ['c', 'a'], t[2], t[3]]).replace('a', x, 1)
    return pat(t)


def script(plan):
    out, cur, objs = [], [0, 0, 0, 0], [(0, False)]
    for k, e in enumerate(plan):
        a = e['a']
        if e['op'] == 'mk':
            objs.append((a[2], a[3]))
        out.append('DO(%d, function() { %s });\n' % (k, js(e, objs[cur[a[0]]])))
        if e['op'] == 'mk':
            cur[a[0]] = len(objs) - 1
        elif e['op'] == 'copy':
            cur[a[0]] = cur[a[1]]
    return PRE + ''.join(out)


def conv(r):
    k, v = r
    if k == 's':
        return [k, chars(v)]
    if k == 'l':
        return [k, [[x[0], chars(x[1])] for x in v]]
    return [k, v]


def tree(r, d, wide, rep=False):
    """wide: multi-byte characters may occur in subjects; rep: inside a repetition (no groups)"""
    p = r.random()
    if d <= 0 or p < 0.3:
        x = r.random()
        if x < 0.65:
            return ['c', r.choice(['a', 'b', 'a', 'b', 'c', 'A', '.', '+'] + (['eac', 'han'] if wide and not rep else []))]
        if x < 0.8 and not wide:
            return ['any']
        return ['set', r.sample(['a', 'b', 'c', 'A'], r.choice([1, 2])), (not wide) and r.random() < 0.3]
    if p < 0.62:
        return ['cat', [tree(r, d - 1, wide, rep) for _ in range(r.choice([2, 2, 3]))]]
    if p < 0.78:
        lo, hi = r.choice([(0, 99), (1, 99), (0, 1), (2, 2), (1, 2), (2, 99), (0, 99)])
        x = tree(r, 0, wide, True)
        return ['rep', x, lo, hi]
    if rep:
        return tree(r, 0, wide, True)
    if p < 0.9:
        return ['grp', 0, tree(r, d - 1, wide)]
    return ['grp', 0, ['alt', [tree(r, d - 1, wide) for _ in range(2)]]]


def pattern(r, wide):
    while True:
        t = tree(r, r.choice([0, 1, 2, 3]), wide)
        if t[0] == 'cat' or True:
            x = [t]
            if r.random() < 0.15:
                x = [['bol']] + x
            if r.random() < 0.15:
                x = x + [['eol']]
            if len(x) > 1:
                t = ['cat', x]
        if r.random() < 0.12:
            t = ['alt', [t, tree(r, 1, wide)]]
        t, n = number(t)
        if n <= 3 and len(pat2(t)) < 40:
            return t, n


def subject(r, wide):
    pool = r.choice([['a', 'b'], ['a', 'b', 'c', 'A'], ['a'], ['a', 'b', '.', '+', ' ', 'B']])
    if wide and r.random() < 0.7:
        pool = pool + ['eac', 'han']
    return [r.choice(pool) for _ in range(r.choice([0, 1, 2, 3, 4, 6, 8, 11]))]


def gen(r, length, wide):
    evs, objs, cur = [], [(0, False)], [0, 0, 0, 0]
    subs = [subject(r, wide) for _ in range(3)]
    while len(evs) < length:
        i = r.randint(1, 3)
        if not cur[i] or r.random() < 0.08:
            t, n = pattern(r, wide)
            if r.random() < 0.15 and len(objs) > 1:        # the same pattern again, as another object
                t, n, g, ic = r.choice(objs[1:])[2:] if len(objs[-1]) > 2 else (t, n, False, False)
            else:
                g, ic = r.random() < 0.6, r.random() < 0.2
            evs.append(dict(op='mk', a=[i, t, n, g, ic, r.choice([0, 1, 2])]))
            objs.append((n, g, t, n, g, ic))
            cur[i] = len(objs) - 1
            continue
        if r.random() < 0.25:
            subs[r.randint(0, 2)] = subject(r, wide)
        q = r.choice(subs)
        o = r.choice(['exec'] * 5 + ['test', 'search', 'match', 'match', 'replace', 'replace', 'replace1', 'replaceN', 'getLast', 'setLast', 'copy', 'bad', 'matchs'])
        if o == 'copy':
            j = r.randint(1, 3)
            if cur[j]:
                evs.append(dict(op=o, a=[i, j]))
                cur[i] = cur[j]
        elif o == 'bad':
            evs.append(dict(op=o, a=[i, r.choice(['(a', '[a', 'a{2', '*', 'a)'][:2])]))
        elif o == 'matchs':
            evs.append(dict(op=o, a=[1, q, [r.choice(['a', 'b'] + (['eac'] if wide else [])) for _ in range(r.choice([1, 2]))]]))
        elif o == 'getLast':
            evs.append(dict(op=o, a=[i]))
        elif o == 'setLast':
            if objs[cur[i]][1]:
                evs.append(dict(op=o, a=[i, r.choice([0, 1, 2, 3, 5, 8, 30, -1])]))
        elif o == 'replace':
            items = []
            for _ in range(r.choice([0, 1, 2, 3])):
                items.append(r.choice([['t', [r.choice(['x', 'y', '-', 'eac'])]], ['&'], ['$'], ['n', r.choice([1, 1, 2, 2, 3, 4, 5, 8, 9])], ['pre'], ['post'], ['t', ['x', '$']]]))
            if any(x[0] == 't' and x[1][-1] == '$' for x in items[:-1]):
                continue
            evs.append(dict(op=o, a=[i, q, items]))
        elif o == 'replaceN':
            evs.append(dict(op=o, a=[i, q, r.choice([0, 0, 0, 1, 2])]))
        else:
            evs.append(dict(op=o, a=[i, q]))
    return evs


def main(c):
    def runner(plan):
        t = script(plan)
        r = c.run_script(t)
        evs = vf.out_events(r, plan)
        for e in evs:
            if 'bad' not in e:
                try:
                    e['r'] = conv(e['r'])
                except (TypeError, ValueError):
                    e['bad'] = 1
        return evs, t

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('RexMC', base + 'CONSTANTS MaxDepth = %d Big = %s Emit = TRUE' % (3, 'TRUE' if c.thorough else 'FALSE'),
                      label='small patterns x strings', workers=1)
    c.rng.shuffle(paths)
    keep = [p for p in paths if len(p) > 1][:c.n(6000, 60000)]
    plans = []
    for i in range(0, len(keep), 30):
        plans.append([dict(op=e['op'], a=e['a']) for h in keep[i:i + 30] for e in h])
    c.conform('RexTrace', plans, runner, label='specification transitions')
    plans = [gen(c.rng, c.rng.choice([20, 40]), i % 3 == 0) for i in range(c.n(600, 6000))]
    c.conform('RexTrace', plans, runner, label='random patterns and histories')
    c.require_ops(['mk', 'exec', 'match', 'replace', 'replace1', 'replaceN', 'search', 'test', 'setLast', 'getLast', 'copy', 'bad', 'matchs'])


vf.main('L08', 'model_checking', main)
