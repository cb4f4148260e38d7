#!/usr/bin/env python3
"""U02 times and dates: spec/Cal.tla bound to strftime and strptime in several time zones."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

TZ = {'UTC': 'UTC0', 'East': 'XXX-5:30', 'West': 'YYY9:30', 'Far': 'ZZZ-14', 'NewYork': 'EST5EDT,M3.2.0,M11.1.0',
      'Sydney': 'AEST-10AEDT,M10.1.0,M4.1.0/3', 'London': 'GMT0BST,M3.5.0/1,M10.5.0/2'}
DST = ('NewYork', 'Sydney', 'London')
DAY = 86400000
PRE = r'''
var T = 0, X;
function SHOW(k, x:any) {
    if (typeof x === 'number') {
        if (isNaN(x)) { puts('@'+k+' sNaN'); return; }
        if (x !== Math.floor(x)) { puts('@'+k+' odd '+x); return; }
        T = x;
        puts('@'+k+' t'+format('%.0f', x));
    } else puts('@'+k+' s'+x);
}
'''
MON = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']


def render(f, pieces, ds, off):
    y, mo, d, h, mi, s = f
    sub = {'%Y': '%04d' % y, '%m': '%02d' % mo, '%d': '%02d' % d, '%H': '%02d' % h, '%M': '%02d' % mi, '%S': '%02d' % s,
           '%F': '%04d-%02d-%02d' % (y, mo, d), '%T': '%02d:%02d:%02d' % (h, mi, s), '%R': '%02d:%02d' % (h, mi),
           '%e': '%d' % d, '%b': MON[(mo - 1) % 12][:3], '%B': MON[(mo - 1) % 12], '%I': '%02d' % (h % 12 or 12), '%p': 'AM' if h < 12 else 'PM',
           '%y': '%02d' % (y % 100), '%%': '%', '%f': ''.join(map(str, ds))}
    t = ''.join(sub.get(p, p) for p in pieces)
    if ds and '%f' not in pieces:
        t += '.' + ''.join(map(str, ds))
    if off[0] != 'none':
        t += '%s%02d:%02d' % (off[0], off[1] // 3600, off[1] // 60 % 60)
    return t


DEFAULTS = [['%F', ' ', '%T'], ['%F', 'T', '%T'], ['%F', ' ', '%R'], ['%F', 'T', '%R'], ['%F']]


def js(k, e, r, cur):
    o, a = e['op'], e['a']

    def opts(utc, fmt=None, iso=False, plain=True):
        ps = []
        if utc or r.random() < 0.3:
            ps.append('utc:' + ('true' if utc else 'false'))
        if fmt is not None:
            if not ps and r.random() < 0.5:
                return json.dumps(fmt)
            ps.append('fmt:' + json.dumps(fmt))
        if iso:
            ps.append('iso:true')
        if not ps and r.random() < 0.7:
            return r.choice(['', '{}'])
        r.shuffle(ps)
        return '{%s}' % ', '.join(ps)

    def fm(op):
        if op.startswith('{') and cur % 125 == 0 and r.random() < 0.4:
            return 'strftime(T/1000, %s)' % (op[:-1] + (', ' if op != '{}' else '') + 'secs:true}')
        return 'strftime(T, %s)' % op
    if o == 'set':
        return 'T = %d; SHOW(%d, T);' % (a[0] * DAY + a[1], k)
    if o == 'fmt':
        return 'SHOW(%d, %s);' % (k, fm(opts(a[1], ''.join(a[0]))))
    if o == 'std':
        return 'SHOW(%d, %s);' % (k, fm(opts(a[1], iso=a[0] == 'iso')))
    if o == 'rt':
        f = ''.join(a[0])
        return 'SHOW(%d, strptime(%s, %s));' % (k, fm(opts(a[1], f)), opts(a[1], f))
    if o == 'rtd':
        return 'SHOW(%d, strptime(%s, %s));' % (k, fm(opts(a[1], iso=a[0] == 'iso')), opts(a[1], iso=r.random() < 0.2))
    if o == 'secs':
        return 'X = T; SHOW(%d, strptime(strftime(T, {utc:true, iso:true}), {utc:true, secs:true}) * 1000); T = X;' % k
    if o == 'parse':
        f, p, utc, ds, off = a
        t = render(f, p, ds, off)
        if off[0] != 'none' and r.random() < 0.5:
            t = t[:-6] + ' ' + t[-6:]
        free = p in DEFAULTS and all(x < y for x, y in zip(f[3:], (24, 60, 60))) and r.random() < 0.7
        return 'SHOW(%d, strptime(%s, %s));' % (k, json.dumps(t), opts(utc, None if free else ''.join(p)))
    raise KeyError(o)


LITS = ['-', '/', ' ', ':', '.', 'T', 'at ', '%%', ', ', 'x']
CONVS = ['%Y', '%m', '%d', '%H', '%M', '%S', '%y', '%C', '%e', '%j', '%u', '%w', '%I', '%p', '%a', '%A', '%b', '%B', '%U', '%W', '%G', '%V', '%F', '%T', '%R', '%D', '%c', '%z']


def pieces(r):
    out = []
    for _ in range(r.randint(1, 6)):
        out.append(r.choice(CONVS))
        if r.random() < 0.7:
            out.append(r.choice(LITS))
    if r.random() < 0.5:
        out.insert(r.randint(0, len(out)), '%f')
    return out


def trip(r, frac):
    y = r.choice(['%Y'] * 3 + ['%y'])
    date = r.choice([['%F'], [y, '-', '%m', '-', '%d'], ['%d', '/', '%m', '/', y], ['%d', '.', '%m', '.', y], ['%m', '/', '%d', '/', y], ['%B', ' ', '%e', ', ', y], ['%d', ' ', '%b', ' ', y], ['%Y', '%m', '%d']])
    time = r.choice([['%T'], ['%H', ':', '%M', ':', '%S'], ['%R'], ['%H', '%M', '%S'], ['%I', ':', '%M', ':', '%S', ' ', '%p'], ['%H', 'h', '%M'], []])
    if frac and time and time[-1] in ('%T', '%S'):
        time = time + ['.', '%f']
    return date + ([r.choice([' ', 'T', ' at '])] + time if time else [])


def gen(r):
    z = r.choice(list(TZ))
    dst = z in DST
    ev = [dict(op='zone', a=[z])]

    def day():
        if dst:
            y = r.randint(1971, 2199)
            n = 365 * (y - 1970) + (y - 1) // 4 - 492 - ((y - 1) // 100 - 19) + ((y - 1) // 400 - 4)
            return n + r.choice([r.randint(2, 362), r.randint(66, 75), r.randint(300, 313), r.randint(82, 99), r.randint(273, 281)])
        return r.choice([r.randint(-354000, 2930000), r.randint(-40000, 60000), r.randint(-3, 3), 24854, 24855, 24856, 11015, 11016, 11017])

    def ms():
        return r.choice([r.randint(0, DAY - 1), r.randint(0, 86399) * 1000, r.randint(0, 23) * 3600000, r.randint(0, 23) * 3600000 + 1800000, r.randint(0, 690000) * 125, 0, DAY - 1, 1, 999])
    ev.append(dict(op='set', a=[day(), ms()]))
    for _ in range(r.randint(15, 30)):
        u = r.random() < 0.4
        o = r.choice(['set', 'fmt', 'fmt', 'fmt', 'std', 'rt', 'rt', 'rtd', 'secs', 'parse', 'parse', 'parse'])
        if o == 'set':
            ev.append(dict(op=o, a=[day(), ms()]))
        elif o == 'fmt':
            ev.append(dict(op=o, a=[pieces(r), u]))
        elif o in ('std', 'rtd'):
            ev.append(dict(op=o, a=[r.choice(['plain', 'iso']), u]))
        elif o == 'rt':
            ev.append(dict(op=o, a=[[x for x in trip(r, r.random() < 0.6) if x not in ('%y',) or not dst], u]))
            if not any(x in ('%Y', '%F', '%y') for x in ev[-1]['a'][0]):
                ev[-1]['a'][0] = ['%F', ' ', '%T']
        elif o == 'secs':
            ev.append(dict(op=o, a=[]))
        else:
            y = r.randint(1972, 2198) if dst else r.choice([r.randint(1000, 9999), r.randint(1890, 2110), 1969, 1970, 2000, 2024])
            f = [y, r.randint(1, 12), r.choice([r.randint(1, 28), 1, 28, 29, 30, 31]), r.choice([0, 1, 2, 3, 12, 23, r.randint(0, 23)]), r.choice([0, 59, 30, r.randint(0, 59)]), r.choice([0, 59, r.randint(0, 59)])]
            if dst and r.random() < 0.4:
                f[1] = r.choice([3, 4, 10, 11])
            p = r.choice([r.choice(DEFAULTS), trip(r, r.random() < 0.4)])
            if r.random() < 0.1 and '%B' not in p and '%b' not in p and '%I' not in p and not ('%d' in p and '%Y' in p and '%m' in p and len([x for x in p if x.startswith('%')]) == len(p)):
                i = r.choice([1, 2, 3])
                if i < 3 or any(x in ('%T', '%H', '%R') for x in p):
                    f[i] = {1: r.choice([0, 13, 19]), 2: r.choice([0, 32, 39]), 3: r.choice([24, 25, 29])}[i]
                if i == 3 and p == ['%H', 'h', '%M']:
                    f[i] = 1
            if '%y' in p and (dst or not 1969 <= y <= 2068):
                f[0] = r.randint(1972, 2068)
            ds = [r.randint(0, 9) for _ in range(r.choice([1, 2, 3, 3, 3, 4, 6, 9]))] if '%f' in p or (p[-1] in ('%T', '%S') and r.random() < 0.4) else []
            off = [r.choice('+-'), r.choice([0, 3600, 5400, 19800, 45900, 1800, 50400])] if r.random() < 0.25 and (p[-1] in ('%T', '%S', '%R', '%M', '%f')) else ['none', 0]
            ev.append(dict(op=o, a=[f, p, u, ds, off]))
    return ev


def main(c):
    def runner(plan):
        seed, evs = plan
        rng = __import__('random').Random(seed)
        zone, body, cur = 'UTC', [], 1
        for k, e in enumerate(evs):
            if e['op'] == 'zone':
                zone = e['a'][0]
                body.append("puts('@%d s');" % k)
            else:
                cur = e['a'][1] if e['op'] == 'set' else cur if e['op'] in ('fmt', 'std', 'secs') else 1
                body.append(js(k, e, rng, cur).replace(', )', ')'))
        text = PRE + '\n'.join(body) + '\n'
        r = c.run_script(text, env={'TZ': TZ[zone]})
        got = {}
        for line in r.out.decode('utf8', 'replace').split('\n'):
            if line.startswith('@'):
                k, _, v = line[1:].partition(' ')
                got[int(k)] = v
        out = []
        for k, e in enumerate(evs):
            ev = dict(op=e['op'], a=e['a'])
            v = got.get(k)
            if v is None or v[:1] not in 'st':
                ev['bad'] = 'no answer (rc=%s) %s %s' % (r.rc, v, r.err.decode('latin1')[:200])
                ev['r'] = dict(k='?', x='', d=0, m=0)
                out.append(ev)
                break
            if v[0] == 's':
                ev['r'] = dict(k='s', x=v[1:], d=0, m=0)
            else:
                n = int(v[1:])
                ev['r'] = dict(k='t', x='', d=max(-10**9, min(10**9, n // DAY)), m=n % DAY)
            out.append(ev)
        return out, '// TZ=%s\n' % TZ[zone] + text

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('CalMC', base + 'CONSTANTS MaxDepth = 3 Emit = TRUE Big = %s' % ('TRUE' if c.thorough else 'FALSE'), label='ends of days, months, years, daylight-saving time')
    # the operations on one time in one zone are performed in one process
    by = {}
    for h in paths:
        key = json.dumps([[e['op'], e['a']] for e in h[:-1]])
        by.setdefault(key, []).append(dict(op=h[-1]['op'], a=h[-1]['a']))
    plans = []
    for key, es in sorted(by.items()):
        pre = [dict(op=o, a=a) for o, a in json.loads(key)]
        if not pre:
            continue
        reset = [x for x in pre if x['op'] == 'set']
        c.rng.shuffle(es)
        step = 40
        for i in range(0, len(es), step):
            p = list(pre)
            for x in es[i:i + step]:
                p.append(x)
                if x['op'] in ('rt', 'rtd') and reset:
                    p.append(reset[-1])
            plans.append((c.rng.random(), p))
    c.rng.shuffle(plans)
    c.conform('CalTrace', plans[:c.n(700, 20000)], runner, label='specification transitions')
    c.conform('CalTrace', [(c.rng.random(), gen(c.rng)) for _ in range(c.n(500, 20000))], runner, label='random times, formats and texts')
    c.require_ops(['zone', 'set', 'fmt', 'std', 'rt', 'rtd', 'secs', 'parse'])


vf.main('U02', 'model_checking', main)
