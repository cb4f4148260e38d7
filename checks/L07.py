#!/usr/bin/env python3
"""L07 strings: spec/Str.tla bound to the String methods and operators of jsish."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

TOK = {'eac': 'é', 'EAC': 'É', 'han': '中', 'smi': '😀'}
BACK = {v: k for k, v in TOK.items()}
ALPHA = list('abcxABCX,1<>.$ \t\n') + list(TOK)

PRE = vf.PRELUDE + r'''
var S = ['', '', '', '', ''], OB = {}, R;
function PUT(d:number, x:string) { if (d) S[d] = x; return ['s', x]; }
function N(x:any) { return ['n', ''+x]; }
function RF(m) { return '<'+m+'>'; }
function DO(k:number, f:function) {
    var r;
    try { r = f(); } catch(e) { r = ['e', []]; }
    O([k, r]);
}
function WIDE(x:string) { var i; for (i = 0; i < x.length; i++) if (x.charCodeAt(i) > 127) return true; return false; }
'''


def lit(seq):
    return json.dumps(''.join(TOK.get(c, c) for c in seq), ensure_ascii=False)


def js(e):
    o, a = e['op'], e['a']
    d = a[0]
    q = 'S[%s]' % a[1] if len(a) > 1 and not isinstance(a[1], list) else ''
    x = a[2] if len(a) > 2 else None
    y = a[3] if len(a) > 3 else None
    simple = {'toUpperCase', 'toLowerCase', 'toTitle', 'trim', 'trimLeft', 'trimRight'}

    def put(t):
        return 'return PUT(%d, %s);' % (d, t)
    if o == 'fill':
        return 'S = ["", %s]; return ["l", S.slice(1)];' % ', '.join(lit(z) for z in a[1])
    if o == 'lit':
        return put(lit(a[1]))
    if o == 'codes':
        return put('String.fromCharCode(%s)' % ', '.join(str(ord(TOK.get(c, c))) for c in a[1]))
    if o == 'copy':
        return put(q)
    if o == 'plus':
        return put('%s + S[%d]' % (q, x))
    if o == 'app':
        return 'S[%d] += %s; return ["s", S[%d]];' % (d, q, d)
    if o == 'all':
        return 'return ["l", S.slice(1)];'
    if o == 'len':
        return 'return N(%s.length);' % q
    if o == 'charAt':
        return put('%s.charAt(%d)' % (q, x))
    if o == 'index':
        return 'R = %s; if (typeof R[%d] === "undefined") return ["u", []]; return PUT(%d, R[%d]);' % (q, x, d, x)
    if o == 'code':
        return 'return N(%s.charCodeAt(%d));' % (q, x)
    if o == 'concat':
        return put('%s.concat(S[%d], S[%d])' % (q, x, y))
    if o in ('indexOf', 'lastIndexOf', 'search'):
        return 'return N(%s.%s(S[%d]));' % (q, o, x)
    if o in ('indexFrom', 'lastFrom'):
        return 'return N(%s.%s(S[%d], %d));' % (q, {'i': 'indexOf', 'l': 'lastIndexOf'}[o[0]], x, y)
    if o in ('substr0', 'substr1', 'substr2', 'substring0', 'substring1', 'substring2', 'slice1', 'slice2'):
        return put('%s.%s(%s)' % (q, o[:-1], ', '.join(str(z) for z in a[2:])))
    if o == 'split':
        return 'if (S[%d] === "" && WIDE(%s)) return ["l", ["b"]]; return ["l", %s.split(S[%d])];' % (x, q, q, x)
    if o == 'words':
        return 'return ["l", %s.split(null)];' % q
    if o == 'join':
        return put('S[%d] === "" ? %s : %s.split(S[%d]).join(S[%d])' % (x, q, q, x, x))
    if o == 'repeat':
        return put('%s.repeat(%d)' % (q, x))
    if o in simple:
        return put('%s.%s()' % (q, o))
    if o in ('trimc', 'trimLeftc', 'trimRightc'):
        return put('%s.%s(S[%d])' % (q, o[:-1], x))
    if o == 'map':
        return put('%s.map([%s]%s)' % (q, ', '.join('S[%d]' % z for z in x), ', true' if y else ''))
    if o == 'replace':
        return put('%s.replace(S[%d], S[%d])' % (q, x, y))
    if o == 'replacef':
        return put('%s.replace(S[%d], RF)' % (q, x))
    if o == 'cmp':
        w = 'S[%d]' % x
        return 'return ["l", [[%s]]];' % ', '.join('""+(%s %s %s)' % (q, z, w) for z in ('<', '==', '>', '>=', '<=', '==='))
    if o == 'oput':
        return 'OB[%s] = %d; return N(%d);' % (q, x, x)
    if o == 'oget':
        return 'R = OB[%s]; if (typeof R === "undefined") return ["u", []]; return N(R);' % q
    if o == 'okeys':
        return 'return ["l", Object.keys(OB).sort()];'
    raise KeyError(o)


def chars(t):
    return [BACK.get(c, c) for c in t]


def conv(r, op):
    k, v = r
    if k == 's':
        return [k, chars(v)]
    if k == 'n':
        return [k, [v]]
    if k == 'l' and op != 'cmp':
        return [k, [chars(x) for x in v]]
    return [k, v]


def word(r):
    p = r.random()
    pool = r.choice([ALPHA, ['a', 'eac'], ['a', 'b'], ['eac', 'han', 'smi'], ['a', ' ', 'han'], ['a', 'B', 'A', 'b', 'EAC', 'eac']])
    n = 0 if p < 0.06 else r.choice([1, 1, 1, 2, 2, 3]) if p < 0.5 else r.randint(1, 14) if p < 0.97 else r.randint(60, 140)
    return [r.choice(pool) for _ in range(n)]


def gen(r, length):
    evs = []
    L = [0, 0, 0, 0, 0]          # a mirror of lengths, kept as an upper bound

    def ix():
        return r.choice([0, 1, 2, 3, 4, 5, 7, 12, 100, -1, -2, -3, -9])

    def add(op, *a):
        evs.append(dict(op=op, a=list(a)))
    for i in range(1, 5):
        w = word(r)
        L[i] = len(w)
        add('lit', i, w)
    while len(evs) < length:
        d, j, k, m = r.randint(1, 4), r.randint(1, 4), r.randint(1, 4), r.randint(1, 4)
        if r.random() < 0.4:
            d = 0
        o = r.choice(['lit', 'lit', 'lit', 'codes', 'copy', 'plus', 'app', 'app', 'len', 'charAt', 'index', 'code', 'concat', 'indexOf', 'indexFrom', 'lastIndexOf',
                      'lastFrom', 'substr0', 'substr1', 'substr2', 'substr2', 'substring0', 'substring1', 'substring2', 'substring2', 'slice1', 'slice2',
                      'slice2', 'split', 'split', 'words', 'join', 'repeat', 'trim', 'trimLeft', 'trimRight', 'trimc', 'trimLeftc', 'trimRightc',
                      'toUpperCase', 'toLowerCase', 'toTitle', 'map', 'map', 'replace', 'replacef', 'search', 'cmp', 'cmp', 'oput', 'oget', 'okeys', 'all', 'all'])
        n = 0
        if o in ('lit', 'codes'):
            w = word(r) if o == 'lit' else (word(r) or ['a'])
            n = len(w)
            d = d or 1
            add(o, d, w)
        elif o == 'app':
            d = d or 2
            n = L[d] + L[j]
            if n > 300:
                continue
            add(o, d, j)
        elif o in ('copy', 'len', 'substr0', 'substring0', 'words', 'trim', 'trimLeft', 'trimRight', 'toUpperCase', 'toLowerCase', 'toTitle', 'oget'):
            n = L[j]
            add(o, d, j)
        elif o in ('okeys', 'all'):
            add(o, 0, 1)
            d = 0
        elif o in ('charAt', 'index', 'code', 'substr1', 'substring1', 'slice1'):
            n = L[j]
            add(o, d, j, ix())
        elif o in ('substr2', 'substring2', 'slice2'):
            n = L[j]
            x, y = ix(), ix()
            if L[j] > 16 and o != 'substr2' and (x < 0 or y < x):
                x, y = r.choice([(0, y), (3, 12), (2, 2)])
            add(o, d, j, x, y)
        elif o == 'repeat':
            c = r.choice([-1, 0, 1, 2, 3, 20])
            n = L[j] * max(0, c)
            if n > 300:
                continue
            add(o, d, j, c)
        elif o in ('plus', 'indexOf', 'lastIndexOf', 'split', 'join', 'trimc', 'trimLeftc', 'trimRightc', 'replacef', 'search', 'cmp'):
            n = L[j] + L[k] + 2
            if n > 300:
                continue
            add(o, d, j, k)
        elif o in ('indexFrom', 'lastFrom'):
            add(o, d, j, k, ix())
        elif o in ('replace', 'concat'):
            n = L[j] + L[k] + L[m]
            if n > 300:
                continue
            add(o, d, j, k, m)
        elif o == 'map':
            c = r.choice([1, 2, 2, 2, 3, 4])
            ks = [r.randint(1, 4) for _ in range(c)]
            n = L[j] * max([1] + [L[x] for x in ks])
            if n > 300:
                continue
            add(o, d, j, ks, r.random() < 0.4)
        elif o == 'oput':
            add(o, 0, j, r.randint(1, 9))
            d = 0
        if d and o not in ('len', 'code', 'indexOf', 'indexFrom', 'lastIndexOf', 'lastFrom', 'split', 'words', 'search', 'cmp', 'oget'):
            L[d] = max(n, L[d]) if o == 'index' else n
    add('all', 0, 1)
    return evs


def main(c):
    def runner(plan):
        text = PRE + ''.join('DO(%d, function() { %s });\n' % (i, js(e)) for i, e in enumerate(plan))
        r = c.run_script(text)
        evs = vf.out_events(r, plan)
        for e in evs:
            if 'r' in e and 'bad' not in e:
                try:
                    e['r'] = conv(e['r'], e['op'])
                except (TypeError, ValueError):
                    e['bad'] = 1
        return evs, text

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('StrMC', base + 'CONSTANTS MaxDepth = 2 Big = %s Emit = TRUE' % ('TRUE' if c.thorough else 'FALSE'),
                      label='every method x strings x indexes', workers=1)
    paths = [p for p in paths if len(p) == 2]
    c.rng.shuffle(paths)
    keep = paths[:c.n(5000, 60000)]
    plans = []
    for i in range(0, len(keep), 40):
        plans.append([dict(op=e['op'], a=e['a']) for h in keep[i:i + 40] for e in h])
    c.conform('StrTrace', plans, runner, label='specification transitions')
    plans = [gen(c.rng, c.rng.choice([20, 40, 80])) for i in range(c.n(700, 8000))]
    c.conform('StrTrace', plans, runner, label='random histories')
    c.require_ops(['lit', 'codes', 'copy', 'plus', 'app', 'split', 'map', 'replace', 'replacef', 'cmp', 'oput', 'okeys', 'repeat', 'slice2', 'trimc'])


vf.main('L07', 'model_checking', main)
