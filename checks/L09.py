#!/usr/bin/env python3
"""L09 JSON: spec/JsonText.tla (a grammar of JSON as a parser) bound to JSON.parse, JSON.check and JSON.stringify."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

PRE = r'''
var S = [null, {u:1}, {u:1}, {u:1}], HIT = 0, UN = [0,1,1,1];
function HITF(x:any=null) { HIT++; return 1; }
function CODES(s:string) { var i, r = []; for (i = 0; i < s.length; i++) r.push(s.charCodeAt(i)); return r.join('.'); }
// plain text, not JSON: what is under test reports nothing about itself
function ENC(v:any) {
    var t = typeof v, i, r = '', k, n = 0;
    if (t === 'undefined') return 'u ';
    if (t === 'null') return 'z ';
    if (t === 'boolean') return v ? 'T ' : 'F ';
    if (t === 'number') return 'n'+format('%.17g', v)+' ';
    if (t === 'string') return 's'+CODES(v)+' ';
    if (t === 'array') {
        for (i = 0; i < v.length; i++) r += ENC(v[i]);
        return 'a'+v.length+' '+r;
    }
    if (t === 'object') {
        for (k in v) { n++; r += 's'+CODES(k)+' '+ENC(v[k]); }
        return 'o'+n+' '+r;
    }
    return '?'+t+' ';
}
function SHOW(i:number) { return UN[i] ? 'u ' : ENC(S[i]); }
function PARSE(i:number, t:string, strict:boolean) {
    var w = S[i], r;
    try {
        if (strict) S[i] = JSON.parse(t); else S[i] = JSON.parse(t, false);
    } catch(e) { return 'E '; }
    r = ENC(S[i]);
    if (!strict && !JSON.check(t)) S[i] = null;
    UN[i] = 0;
    return r;
}
function DO(k:number, f:function) {
    var r;
    try { r = f(); } catch(e) { r = '!'+e; }
    puts('@'+k+' '+r);
}
'''


def jsstr(s):
    out = ''
    for c in s:
        if c in '\\"':
            out += '\\' + c
        elif c in '\n\r\t\f\b':
            out += {'\n': '\\n', '\r': '\\r', '\t': '\\t', '\f': '\\f', '\b': '\\b'}[c]
        else:
            out += c
    return '"' + out + '"'


def canon(t):
    f = float(t)
    return repr(0.0 if f == 0 else f)


def table(text):
    """what the specification takes as given: the values of numbers and the characters of escapes"""
    d = {'\\"': '"', '\\\\': '\\', '\\/': '/', '\\b': '\b', '\\f': '\f', '\\n': '\n', '\\r': '\r', '\\t': '\t'}
    for m in re.finditer(r'-?(0|[1-9][0-9]*)', text):
        for k in (m.group(0), m.group(0).lstrip('-')):
            d[k] = canon(k)
    # every number the grammar may see: from every position
    for i in range(len(text)):
        m = re.compile(r'-?(?:0|[0-9]+)(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)?').match(text, i)
        if m:
            d[m.group(0)] = canon(m.group(0))
    for m in re.finditer(r'(?=\\u([0-9a-fA-F]{4}))', text):
        n = int(m.group(1), 16)
        d[m.group(1)] = chr(n) if not 0xd800 <= n < 0xe000 else '?'
    for m in re.finditer(r'(?=\\u([dD][89abAB][0-9a-fA-F]{2})\\u([dD][c-fC-F][0-9a-fA-F]{2}))', text):
        d[m.group(1) + m.group(2)] = chr(0x10000 + ((int(m.group(1), 16) & 0x3ff) << 10) + (int(m.group(2), 16) & 0x3ff))
    return d


def decode(t):
    toks = t.split(' ')
    pos = [0]

    def chars(x):
        return [chr(int(c)) for c in x.split('.')] if x else []

    def val():
        x = toks[pos[0]]
        pos[0] += 1
        if x in ('u', 'E'):
            return [x]
        if x == 'z':
            return ['z']
        if x in ('T', 'F'):
            return ['b', x == 'T']
        if x[0] == 'n':
            try:
                return ['n', canon(x[1:])]
            except ValueError:
                return ['n', x]
        if x[0] == 's':
            return ['s', chars(x[1:])]
        if x[0] == 'a':
            return ['a', [val() for _ in range(int(x[1:]))]]
        if x[0] == 'o':
            r = []
            for _ in range(int(x[1:])):
                k = toks[pos[0]]
                pos[0] += 1
                r.append([chars(k[1:]), val()])
            return ['o', r]
        return ['?' + x]
    try:
        return val()
    except (IndexError, ValueError):
        return ['?' + t[:80]]


def jsval(v):
    """a literal of the script for a value"""
    if v[0] == 'z':
        return 'null'
    if v[0] == 'b':
        return 'true' if v[1] else 'false'
    if v[0] == 'n':
        return v[2] if len(v) > 2 else v[1]
    if v[0] == 's':
        return jsstr(''.join(v[1]))
    if v[0] == 'a':
        return '[' + ', '.join(jsval(x) for x in v[1]) + ']'
    return '{' + ', '.join('%s:%s' % (jsstr(''.join(k)), jsval(x)) for k, x in v[1]) + '}'


def strip(v):
    if v[0] == 'n':
        return ['n', canon(v[1])]
    if v[0] == 'a':
        return ['a', [strip(x) for x in v[1]]]
    if v[0] == 'o':
        return ['o', [[k, strip(x)] for k, x in v[1]]]
    return v


CH = list('ab"\\/\n\t\r\b\f\'<{[:,]} xé€') + ['😀', '\x7f', 'Z', '1', '中']
NUMS = ['0', '1', '-1', '5', '42', '-0', '0.5', '0.1', '1e5', '1E-3', '-2.5e+2', '12345678901', '9007199254740993', '123456789012345680000', '1e21', '0.30000000000000004',
        '3.141592653589793', '1e-7', '1.7976931348623157e308', '5e-324', '-123.456', '100', '0.0', '1e0', '2147483648', '4294967296', '-9223372036854775808']
BADNUM = ['01', '-', '+1', '1.', '.5', '1e', '1e+', '0x10', '1_0', '--1', '1.5.5', '1e5e', 'NaN', 'Infinity', '-Infinity', '00', '-01', '1a']
BADTOK = ['tru', 'True', 'nul', 'undefined', 'HITF()', '(HITF())', 'HIT', "'a'", 'function(){HITF()}', 'new Object', ';', '=', '//', '/*x*/', 'false1', 'nullnull', '"a', 'a"', '"\\x"', '"\\u12"', '"\\u12G4"', '\\n', '...']


class G:
    def __init__(s, rng):
        s.rng = rng

    def string(s):
        r = s.rng
        n = r.choice([0, 1, 1, 2, 3, 6, 12, 30]) if r.random() < 0.93 else r.choice([88, 89, 90, 91, 92, 93, 95, 100, 180, 200, 260])
        if n > 80 and r.random() < 0.5:
            return [r.choice('abc') for _ in range(n)] + [r.choice(CH)]
        return [r.choice(CH) for _ in range(n)]

    def key(s):
        r = s.rng
        return list(r.choice(['a', 'b', 'c', 'k1', 'length', 'if', 'x y', 'toString', '__proto__', 'constructor', '0', '', '1'])) if r.random() < 0.6 else s.string()

    def value(s, d):
        r = s.rng
        x = r.random()
        if d <= 0 or x < 0.45:
            y = r.random()
            if y < 0.3:
                n = r.choice(NUMS)
                return ['n', n]
            if y < 0.75:
                return ['s', s.string()]
            if y < 0.85:
                return ['z']
            return ['b', r.random() < 0.5]
        if x < 0.72:
            return ['a', [s.value(d - 1) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]]
        out, ks = [], set()
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            k = s.key()
            if ''.join(k) not in ks and ''.join(k) != '':
                ks.add(''.join(k))
                out.append([k, s.value(d - 1)])
        return ['o', out]

    def ws(s):
        return ''.join(s.rng.choice(' \t\n\r') for _ in range(s.rng.choice([0, 0, 0, 0, 1, 2])))

    def text(s, v):
        """one of the texts of a value"""
        r = s.rng
        if v[0] == 'n':
            t = v[1]
        elif v[0] == 'z':
            t = 'null'
        elif v[0] == 'b':
            t = 'true' if v[1] else 'false'
        elif v[0] == 's':
            t = s.qstr(v[1])
        elif v[0] == 'a':
            t = '[' + (','.join(s.text(x) for x in v[1]) or s.ws()) + ']'
        else:
            prs = list(v[1])
            if prs and r.random() < 0.1:
                prs.insert(0, [prs[-1][0], ['z']])       # a key given twice: the last counts
            t = '{' + (','.join(s.ws() + s.qstr(k) + s.ws() + ':' + s.text(x) for k, x in prs) or s.ws()) + '}'
        return s.ws() + t + s.ws()

    def qstr(s, chars):
        r = s.rng
        out = '"'
        p = r.choice([0, 0, 0.1, 0.5])
        for c in chars:
            o = ord(c)
            if c in '"\\' or o < 32:
                m = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r', '\b': '\\b', '\f': '\\f'}
                out += m[c] if r.random() > p else ('\\u%04x' if r.random() < 0.5 else '\\u%04X') % o
            elif r.random() < p:
                if c == '/' and r.random() < 0.7:
                    out += '\\/'
                elif o > 0xffff:
                    out += '\\u%04x\\u%04x' % (0xd800 + ((o - 0x10000) >> 10), 0xdc00 + ((o - 0x10000) & 0x3ff))
                else:
                    out += ('\\u%04x' if r.random() < 0.5 else '\\u%04X') % o
            else:
                out += c
        return out + '"'

    def deep(s):
        r = s.rng
        n = r.choice([10, 25, 45, 58])
        v = ['s', s.string()]
        for _ in range(n):
            v = ['a', [v]] if r.random() < 0.5 else ['o', [[['k'], v]]]
        return v

    def broken(s):
        while True:
            t = s.broken1()
            if not any(v in ("inf", "-inf", "\0") for v in table(t).values()):
                return t

    def broken1(s):
        """a text with a small mistake, or a sequence of tokens"""
        r = s.rng
        if r.random() < 0.5:
            t = s.text(s.value(r.choice([1, 2, 3])))
            for _ in range(r.choice([1, 1, 1, 2])):
                i = r.randint(0, len(t))
                x = r.random()
                if x < 0.35 and i < len(t):
                    t = t[:i] + t[i + 1:]
                elif x < 0.7:
                    t = t[:i] + r.choice(list('{}[],:"1e-. tn\\/') + ['null', '""', '1,', ',1', '{}', '[]']) + t[i:]
                elif x < 0.85:
                    t = t[:i]
                else:
                    t = t[:i] + r.choice(BADTOK + BADNUM) + t[i:]
            return t
        toks = ['{', '}', '[', ']', ',', ':', '"a"', '1', 'true', 'null', '-2', '"b"', ' ', '{"a":', '[1,', '"k":'] + [r.choice(BADTOK), r.choice(BADNUM)]
        return ''.join(r.choice(toks) for _ in range(r.choice([1, 2, 3, 4, 5, 7, 9])))

    def plan(s, length):
        r = s.rng
        evs = []
        for _ in range(length):
            x = r.random()
            i = r.randint(1, 3)
            if x < 0.12:
                evs.append(dict(op='make', a=[i, s.value(r.choice([0, 1, 2, 3, 4]))]))
            elif x < 0.32:
                v = s.value(r.choice([0, 1, 2, 3, 4])) if r.random() < 0.96 else s.deep()
                evs.append(dict(op='parse', a=[i, s.text(v), r.random() < 0.8]))
            elif x < 0.5:
                t = s.broken()
                evs.append(dict(op='parse', a=[i, t, r.random() < 0.85]))
            elif x < 0.62:
                t = s.broken() if r.random() < 0.7 else s.text(s.value(r.choice([0, 1, 2])))
                evs.append(dict(op='check', a=[t, r.random() < 0.85]))
            elif x < 0.7:
                evs.append(dict(op='show', a=[i]))
            elif x < 0.84:
                evs.append(dict(op='str', a=[i, r.choice(['', '', ', true', ', null', ', true, 1', ', true, 4', ', true, 0'])]))
            elif x < 0.92:
                evs.append(dict(op='rt', a=[i, r.randint(0, 3)]))
            elif x < 0.95:
                evs.append(dict(op='push', a=[i, s.value(r.choice([0, 1]))]))
            elif x < 0.98:
                evs.append(dict(op='set', a=[i, s.key() or ['a'], s.value(r.choice([0, 1]))]))
            else:
                evs.append(dict(op='hits', a=[]))
        for e in evs:       # raw control characters and empty texts: not judged
            if e['op'] in ('parse', 'check'):
                j = 1 if e['op'] == 'parse' else 0
                t = e['a'][j]
                inq, out, k = False, '', 0
                while k < len(t):
                    c = t[k]
                    if inq and c == '\\' and k + 1 < len(t):
                        out += t[k:k + 2]
                        k += 2
                        continue
                    if c == '"':
                        inq = not inq
                    if inq and ord(c) < 32:
                        c = ' '
                    out += c
                    k += 1
                if not out.strip():
                    out = '0'
                # lone surrogates have no character
                out = re.sub(r'\\u([dD][89abAB][0-9a-fA-F]{2})(?!\\u[dD][c-fC-F][0-9a-fA-F]{2})', r'\\u0041', out)
                out = re.sub(r'(?<!\\u[dD][89abAB][0-9a-fA-F]{2})\\u([dD][c-fC-F][0-9a-fA-F]{2})', r'\\u0041', out)
                e['a'][j] = out
        evs.append(dict(op='hits', a=[]))
        return evs


def js(e):
    op, a = e['op'], e['a']
    if op == 'make':
        return 'S[%d] = %s; UN[%d] = 0; return "ok";' % (a[0], jsval(a[1]), a[0])
    if op == 'parse':
        return 'return PARSE(%d, %s, %s);' % (a[0], jsstr(a[1]), 'true' if a[2] else 'false')
    if op == 'check':
        return 'return JSON.check(%s%s) ? "T " : "F ";' % (jsstr(a[0]), '' if a[1] else ', false')
    if op == 'show':
        return 'return SHOW(%d);' % a[0]
    if op == 'str':
        return 'return UN[%d] ? "u " : "s"+CODES(JSON.stringify(S[%d]%s));' % (a[0], a[0], a[1])
    if op == 'rt':
        return ('return UN[%d] ? "u " : ENC(%s);' % (a[0], ['JSON.parse(JSON.stringify(S[%d]))', 'JSON.parse(JSON.stringify(S[%d], false), false)',
                'JSON.parse(JSON.stringify([S[%d]], null))[0]', 'JSON.parse(JSON.stringify({q:S[%d]}))["q"]'][a[1]] % a[0]))
    if op == 'push':
        return 'if (!UN[%d] && typeof S[%d] === "array") S[%d].push(%s); return "ok";' % (a[0], a[0], a[0], jsval(a[1]))
    if op == 'set':
        return 'var k = %s; if (!UN[%d] && typeof S[%d] === "object") S[%d][k] = %s; return "ok";' % (jsstr(''.join(a[1])), a[0], a[0], a[0], jsval(a[2]))
    return 'return ""+HIT;'


def main(c):
    def runner(plan):
        text = PRE + ''.join('DO(%d, function() { %s });\n' % (k, js(e)) for k, e in enumerate(plan))
        r = c.run_script(text)
        got = {}
        for line in r.out.decode('utf8', 'replace').split('\n'):
            m = re.match(r'@(\d+) (.*)$', line)
            if m:
                got[int(m.group(1))] = m.group(2)
        evs = []
        for k, e in enumerate(plan):
            op, a = e['op'], e['a']
            if k not in got or got[k].startswith('!'):
                evs.append(dict(op=op, a=a, r='?', bad=got.get(k) or (r.err.decode('utf8', 'replace')[-200:] or 'rc %s' % r.rc)))
                break
            g = got[k]
            if op == 'make':
                ev = dict(op=op, a=[a[0], strip(a[1])], r='ok')
            elif op == 'parse':
                ev = dict(op=op, a=[a[0], list(a[1]), table(a[1]), a[2], decode(g)], r='ok')
            elif op == 'check':
                ev = dict(op=op, a=[list(a[0]), table(a[0]), a[1], g == 'T '], r='ok')
            elif op in ('show', 'rt'):
                ev = dict(op=op, a=[a[0], decode(g)], r='ok')
            elif op == 'str':
                x = decode(g)
                t = ''.join(x[1]) if x[0] == 's' else ''
                ev = dict(op=op, a=[a[0], list(t), table(t)], r='ok')
            elif op == 'push':
                ev = dict(op=op, a=[a[0], strip(a[1])], r='ok')
            elif op == 'set':
                ev = dict(op=op, a=[a[0], a[1], strip(a[2])], r='ok')
            else:
                ev = dict(op=op, a=[0], r=g)
            evs.append(ev)
        return evs, text

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('JsonTextMC', base + 'CONSTANTS MaxDepth = 1 MaxLen = %d Emit = TRUE' % c.n(4, 5), label='every text of a few tokens', workers=1)
    texts = sorted(set(''.join(h[0]['a'][0]) for h in paths))
    c.rng.shuffle(texts)
    texts = [t for t in texts if t.strip()][:c.n(9000, 200000)]
    evs = []
    for t in texts:
        evs.append(dict(op='check', a=[t, True]))
        evs.append(dict(op='parse', a=[c.rng.randint(1, 3), t, True]))
        if c.rng.random() < 0.1:
            evs.append(dict(op='show', a=[c.rng.randint(1, 3)]))
    plans = [evs[i:i + 120] for i in range(0, len(evs), 120)]
    c.conform('JsonTextTrace', plans, runner, label='every text of a few tokens')
    plans = [G(c.rng).plan(c.rng.choice([15, 30, 50])) for i in range(c.n(700, 9000))]
    c.conform('JsonTextTrace', plans, runner, label='random values and texts')
    c.require_ops(['make', 'parse', 'check', 'show', 'str', 'rt', 'push', 'set', 'hits'])


vf.main('L09', 'model_checking', main)
