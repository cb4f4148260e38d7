#!/usr/bin/env python3
"""L11 numbers and format: spec/Fmt.tla bound to format, parseInt, parseFloat, Number and the Number methods of jsish."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

TOK = {'eac': 'é', 'han': '中'}
BACK = {v: k for k, v in TOK.items()}

PRE = vf.PRELUDE + r'''
var N = 0, Q = '', R;
function PN(x:number) {
    if (isNaN(x)) { N = x; return ['n', ['nan']]; }
    if (x > 2000000 || x < -2000000) return ['n', ['big']];
    var k = x*8;
    if (Math.floor(k) != k) return ['n', ['odd']];
    if (k == 0) { k = 0; x = 0; }
    N = x;
    return ['n', [''+k]];
}
function PQ(x:string) { Q = x; return ['s', x]; }
function PF(x:string) {
    if (x.length > 300) { Q = ''; return ['x', []]; }
    for (var i = 0; i < x.length; i++) {
        var c = x.charCodeAt(i);
        if ((c < 32 && c != 9 && c != 10) || (c > 126 && c != 233 && c != 20013)) { Q = ''; return ['x', []]; }
    }
    return PQ(x);
}
function B(x:boolean) { return ['b', [x ? 'true' : 'false']]; }
function A() { return isNaN(N) ? 7 : N; }
function DO(k:number, f:function) {
    var r;
    try { r = f(); } catch(e) { r = ['e', []]; }
    O([k, r]);
}
'''


def lit(seq):
    return json.dumps(''.join(TOK.get(c, c) for c in seq), ensure_ascii=False)


def eighths(k):
    t = repr(k / 8)
    t = t[:-2] if t.endswith('.0') else t
    return '(%s)' % t if k < 0 else t


def arg(x):
    return {'N': 'A()', 'Q': 'Q', 'b': 'true', 'z': 'null', 'n': eighths(x['k']), 's': lit(x['v'])}[x['t']]


STRS = ['String(N)', '""+N', 'N.toString()', 'format("%S", N)', '[N].join(",")', '(new Number(N)).toString()', 'N+""']


def js(e, i=0):
    o, a = e['op'], e['a']
    if o == 'set':
        return 'return PN(%s);' % eighths(a[0])
    if o == 'lit':
        return 'return PQ(%s);' % lit(a[0])
    if o == 'str':
        return 'return PQ(%s);' % STRS[i % len(STRS)]
    if o == 'nstr':
        return 'return PQ(%s);' % ('JSON.stringify(N)', 'format("%q", N)')[i % 2]
    if o == 'rad':
        if a[0] < 2 or a[0] > 36:
            return 'return PQ(N.toString(%d));' % a[0]
        return 'if (isNaN(N) || Math.floor(N) != N) return ["x", []]; return PQ(N.toString(%d));' % a[0]
    if o in ('fix', 'exp'):
        return '%s return PQ(N.%s(%d));' % ('' if a[0] > 100 else 'if (isNaN(N)) return ["x", []];', {'fix': 'toFixed', 'exp': 'toExponential'}[o], a[0])
    if o == 'pint':
        return 'return PN(parseInt(Q%s));' % (', %d' % a[0] if a[0] else '')
    if o == 'pintn':
        return 'return PN(parseInt(N));'
    if o in ('pflt', 'num'):
        return 'if (Q.length > 20) return ["x", []]; R = Q.trimLeft() + "  "; if (R[0] === "-" || R[0] === "+") R = R.substr(1); R = R.substr(0, 2); if (R === "0x" || R === "0X") return ["x", []]; return PN(%s(Q));' \
            % {'pflt': 'parseFloat', 'num': 'Number'}[o]
    if o == 'kind':
        if a[0] == 'isNaN':
            return 'return B(%s);' % ('isNaN(N)', 'N.isNaN()', 'Number.isNaN(N)')[i % 3]
        return 'return B(%s);' % ('N.%s()' % a[0], 'Number.%s(N)' % a[0])[i % 2]
    if o == 'rt':
        t = lit(a[0])
        x = ['Number(%s)', 'parseInt(%s, 10)', 'parseFloat(%s)', 'JSON.parse(%s)', 'parseInt(Number(%s).toString(16), 16)', 'parseInt((Number(%s)).toString(8), 8)', 'parseInt(%s)'][i % 7] % t
        y = ['String(R)', '""+R', 'R.toFixed(0)', 'format("%%d", R)', 'JSON.stringify(R)', 'R.toString(10)', 'format("%%.0f", R)'][(i // 7) % 7].replace('%%', '%')
        return 'R = %s; return PQ(%s);' % (x, y)
    if o == 'fmt' and re.search(r'%[-0 +]*#[-0 +#]*[0-9*.]*(h|ll?)?[gG]', ''.join(a[0])):
        return 'format(%s); Q = ""; return ["x", []];' % ', '.join([lit(a[0])] + [arg(x) for x in a[1]])
    if o == 'fmt':
        return 'return PF(format(%s));' % ', '.join([lit(a[0])] + [arg(x) for x in a[1]])
    raise KeyError(o)


def conv(r):
    k, v = r
    return [k, [BACK.get(c, c) for c in v]] if k == 's' else [k, v]


def gen(r, length):
    evs = []

    def add(op, *a):
        evs.append(dict(op=op, a=list(a)))

    def num():
        p = r.random()
        return r.choice([0, 1, -1, 4, 12, -20, 8 * 10 - 1, 8 * 100 - 1]) if p < 0.2 else 8 * r.randint(-300, 300) if p < 0.5 else \
            r.randint(-3000, 3000) if p < 0.8 else 8 * r.randint(-10 ** 6, 10 ** 6) if p < 0.93 else r.randint(-10 ** 7, 10 ** 7)

    def text():
        p = r.random()
        if p < 0.5:
            t = r.choice(['', '', ' ', '  ']) + r.choice(['', '', '', '-', '+']) + r.choice(['', '', '0x', '0X', '0', '.', '00']) + \
                ''.join(r.choice('0123456789' if r.random() < 0.8 else '01789abfFzZ') for _ in range(r.randint(0, 5)))
            if r.random() < 0.4:
                t += '.' + r.choice(['', '5', '25', '125', '0', '50', '375', '3'])
            if r.random() < 0.3:
                t += r.choice('eE') + r.choice(['', '-', '+']) + r.choice(['', '0', '1', '2', '3', '02'])
            if r.random() < 0.3:
                t += r.choice([' ', 'p', 'x', '.', '-', 'z ', '..1', '\n'])
            return list(t)
        return [r.choice(['a', 'b', '%', 'eac', 'han', '1', ' ', 'z', 'Q', '-']) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9]))]

    def aarg(want):
        p = r.random()
        if p > 0.93:
            want = r.choice('nsbz')
        if want == 'n':
            return dict(t='N', k=0, v=[]) if r.random() < 0.4 else dict(t='n', k=num(), v=[])
        if want == 's':
            return dict(t='Q', k=0, v=[]) if r.random() < 0.4 else dict(t='s', k=0, v=text())
        return dict(t=want, k=0, v=[])

    def fmt():
        f, args = [], []
        for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
            for _ in range(r.choice([0, 0, 1, 2])):
                f.append(r.choice(['b', 'eac', ' ', '<', '.']))
            if r.random() < 0.06:
                f += ['%', '%']
                continue
            f.append('%')
            for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
                f.append(r.choice('-0 +#'))
            p = r.random()
            if p < 0.45:
                f += list(str(r.choice([1, 2, 3, 5, 8, 12, 40, 130])))
            elif p < 0.55:
                f.append('*')
                args.append(aarg('z') if r.random() < 0.03 else dict(t='n', k=8 * r.choice([0, 1, 4, 7, 20, -1, -6]), v=[]))
            if r.random() < 0.35:
                f.append('.')
                p = r.random()
                if p < 0.6:
                    f += list(str(r.choice([0, 1, 2, 3, 4, 7, 12, 110])))
                elif p < 0.8:
                    f.append('*')
                    args.append(dict(t='n', k=8 * r.choice([0, 1, 2, 3, 9, -1, -4]), v=[]))
            if r.random() < 0.2:
                f += list(r.choice(['h', 'l', 'll']))
            c = r.choice('diuxXofeEgGsssSScCqd')
            if r.random() < 0.03:
                c = r.choice('zy*.%')
            f.append(c)
            if c in 'cC':
                args.append(r.choice([dict(t='n', k=8 * r.choice([65, 32, 90, 48, 70, 300, -1]), v=[]), dict(t='s', k=0, v=[r.choice('abZ')]), dict(t='s', k=0, v=['a', 'b']), dict(t='z', k=0, v=[])]))
                if c == 'C' and r.random() < 0.2:
                    args[-1] = dict(t='n', k=8 * 233, v=[])
            else:
                args.append(aarg('s' if c == 's' else r.choice('nsnsbz') if c in 'Sq' else 'n'))
        p = r.random()
        if p < 0.04 and args:
            args.pop()
        elif p < 0.08:
            args.append(aarg('n'))
        elif p < 0.1:
            f = f[:-1] + ['b']
        add('fmt', f, args)
    # texts that %c would take as a single character of several bytes are not generated: it takes single bytes
    while len(evs) < length:
        o = r.choice(['set', 'set', 'lit', 'lit', 'str', 'nstr', 'rad', 'fix', 'exp', 'pint', 'pint', 'pint', 'pintn', 'pflt', 'pflt', 'num', 'num', 'kind', 'rt', 'fmt', 'fmt', 'fmt', 'fmt', 'fmt', 'fmt'])
        if o == 'set':
            add('set', num())
        elif o == 'lit':
            add('lit', text())
        elif o == 'rad':
            add('rad', r.choice([8, 8, 16, 16, 16, 10, 2, 36, 5, 1, 0, 37]))
        elif o in ('fix', 'exp'):
            add(o, r.choice([0, 1, 2, 2, 3, 4, 6, 10, 99, 100, 101]))
        elif o == 'pint':
            add('pint', r.choice([0, 0, 0, 10, 10, 16, 8, 2, 36, 7, 1, 37]))
        elif o == 'kind':
            add('kind', r.choice(['isInteger', 'isFinite', 'isNaN', 'isSafeInteger']))
        elif o == 'rt':
            add('rt', list(r.choice(['', '', '-']) + r.choice('123456789') + ''.join(r.choice('0123456789') for _ in range(r.randint(0, 14)))))
        elif o == 'fmt':
            fmt()
        else:
            add(o)
    return evs


def main(c):
    def runner(plan):
        text = PRE + ''.join('DO(%d, function() { %s });\n' % (i, js(e, e.get('i', i))) for i, e in enumerate(plan))
        r = c.run_script(text)
        evs = vf.out_events(r, plan)
        for e in evs:
            if 'r' in e and 'bad' not in e:
                try:
                    e['r'] = conv(e['r'])
                except (TypeError, ValueError):
                    e['bad'] = 1
        return evs, text

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('FmtMC', base + 'CONSTANTS MaxDepth = 2 Wide = %s Emit = TRUE' % ('TRUE' if c.thorough else 'FALSE'),
                      label='every conversion x flags x widths x values', workers=1)
    by = {}
    for p in paths:
        if len(p) == 2:
            by.setdefault(json.dumps([p[0]['op'], p[0]['a']]), []).append(dict(op=p[1]['op'], a=p[1]['a']))
    plans = []
    left = c.n(12000, 400000)
    tot = sum(len(v) for v in by.values())
    for k in sorted(by):
        first = json.loads(k)
        ops = by[k]
        c.rng.shuffle(ops)
        ops = ops[:max(200, left * len(ops) // tot)]
        for i in range(0, len(ops), 60):
            plan = []
            for x in ops[i:i + 60]:
                plan += [dict(op='set', a=[0]), dict(op='lit', a=[[]])] if first[0] != 'set' else [dict(op='lit', a=[[]])]
                plan += [dict(op=first[0], a=first[1]), x]
            plans.append(plan)
    c.conform('FmtTrace', plans, runner, label='specification transitions')
    plans = [gen(c.rng, c.rng.choice([30, 60, 100])) for i in range(c.n(700, 9000))]
    c.conform('FmtTrace', plans, runner, label='random histories')
    c.require_ops(['set', 'lit', 'str', 'nstr', 'rad', 'fix', 'exp', 'pint', 'pintn', 'pflt', 'num', 'kind', 'rt', 'fmt'])


vf.main('L11', 'model_checking', main)
