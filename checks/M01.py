#!/usr/bin/env python3
"""M01 packages: spec/Pkg.tla bound to require and provide on package files that provide, require and fail."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

PRE = vf.PRELUDE + r'''
function OUT(k, f) { var r, l = ''; try { r = ['ok', f()]; } catch(e) { r = ['err', []]; } puts('@['+k+','+JSON.stringify(r)+']'); }
function V(n) { return Math.round(n*10000); }
function D(o) { if (o === null) return []; if (Util.verConvert(o.verStr) !== o.version || Util.verConvert(o.version) !== o.verStr) throw('conversion'); return [[V(o.version), o.loadFile]]; }
function WR(p, t) { var f = new Channel(p, 'w'); f.write(t); f.close(); }
'''
NOT = -1
BADV = ['"x"', '"1.2x"', '""', '-1', '-0.5', '"-1"', '100', '250.5', '"100"', '"1.100.0"', '"1.2.300"', '".5"', 'NaN']


def ver(r, v):
    """A literal for version v (ten-thousandths)."""
    if v < 0:
        return r.choice(BADV)
    if r.random() < 0.5:
        t = '%d.%d.%d' % (v // 10000, v // 100 % 100, v % 100)
        if r.random() < 0.4:
            t = re.sub(r'\.0$', '', t)
        if r.random() < 0.3:
            t = re.sub(r'\.0$', '', t)
        return '"%s"' % t
    t = ('%.4f' % (v / 10000.0))
    return t if r.random() < 0.3 else re.sub(r'\.?0*$', '', t)


def body(d, n, b, r):
    t = ''
    for c in b:
        k, m, v = c['k'], json.dumps(c['n']), c['v']
        if k == 'p':
            t += 'provide(%s, %s);\n' % (m, ver(r, v))
        elif k == 'd':
            t += 'provide();\n'
        elif k == 'r':
            t += 'require(%s%s);\n' % (m, ', ' + ver(r, v) if v else r.choice(['', ', 0']))
        elif k == 'o':
            t += 'require(%s, %s, {log:"debug"});\n' % (m, ver(r, v))
        elif k == 'c':
            t += 'try { require(%s, %s); } catch(e) { }\n' % (m, ver(r, v))
        elif k == 'x':
            t += 'throw("boo");\n'
        else:
            t += 'var = ;\n'
    return 'puts("#%s|%s");\n' % ('/'.join(d), n) + t


def main(c):
    def runner(plan):
        import random
        r = random.Random(json.dumps(plan))
        d = c.newdir()
        real = {'t': d}
        for x in 'ab':
            real[x] = os.path.join(d, 'p' + x)
        names = ['A', 'B', 'C', 'D_1']
        for x in 'ab':
            for n in names:
                os.makedirs(os.path.join(real[x], n))
        for n in names:
            os.makedirs(os.path.join(d, n))
        for q, _, _ in os.walk(d):
            os.chmod(q, 0o777)
        dirp = lambda q: '/'.join([real[q[0]]] + list(q[1:]))
        fp = lambda q, n: json.dumps(dirp(q) + '/' + n + '.jsi')
        st = []
        for k, e in enumerate(plan):
            o, a = e['op'], e['a']
            if o == 'req':
                f = 'return [[V(require(%s)), ""]];' % json.dumps(a[0])
            elif o == 'reqv':
                f = 'return D(require(%s, %s));' % (json.dumps(a[0]), ver(r, a[1]))
            elif o == 'reqo':
                f = 'return [[V(require(%s, %s, %s)), ""]];' % (json.dumps(a[0]), ver(r, a[1]), {'ok': r.choice(['{}', '{log:"debug"}', '{udata:{x:1}}']), 'bad': '{nosuch:1}'}[a[3]])
            elif o == 'prov':
                f = 'provide(%s, %s); return [];' % (json.dumps(a[0]), ver(r, a[1])) if a[1] != 10000 or r.random() < 0.5 else 'provide(%s); return [];' % json.dumps(a[0])
            elif o == 'provd':
                f = 'provide(); return [];'
            elif o == 'info':
                f = 'return D(Info.package(%s));' % json.dumps(a[0])
            elif o == 'has':
                f = 'return [[require().indexOf(%s) >= 0 ? 1 : 0, ""]];' % json.dumps(a[0])
            elif o == 'dirs':
                f = 'Interp.conf({pkgDirs:%s}); return [];' % json.dumps([dirp(q) for q in a[0]])
            elif o == 'write':
                f = 'WR(%s, Util.base64("%s", true)); return [];' % (fp(a[0], a[1]), vf.base64s(body(a[0], a[1], a[2], r)))
            else:
                f = 'if (File.exists(%s)) File.remove(%s); return [];' % (fp(a[0], a[1]), fp(a[0], a[1]))
            st.append('OUT(%d, function() { %s });\n' % (k, f))
        t = PRE + ''.join(st)
        x = c.run_script(t, cwd=d)
        log, logs = [], {}
        for line in x.out.decode('utf8', 'replace').split('\n'):
            if re.match(r'#[^|]*\|[^|]*$', line):
                q, n = line[1:].split('|')
                log.append([q.split('/'), n])
            elif line.startswith('@'):
                m = re.match(r'@\[(\d+),', line)
                logs[int(m.group(1))], log = log, []
        evs = vf.out_events(x, plan)
        if x.timeout and 'bad' in evs[-1]:
            # packages that require each other before they provide themselves can load one another for ages
            need = {}
            for e in plan:
                if e['op'] == 'write':
                    need.setdefault(e['a'][1], set()).update(y['n'] for y in e['a'][2] if y['k'] in 'rc')
            for _ in need:
                for q in need.values():
                    q.update(*[need.get(y, ()) for y in list(q)])
            if any(n in q for n, q in need.items()):
                evs.pop()

        def fid(p):
            if not p:
                return [['t'], 'main']
            q, n = os.path.split(p)
            for y in ('a', 'b', 't'):
                if q == real[y] or q.startswith(real[y] + '/'):
                    return [[y] + [z for z in q[len(real[y]):].split('/') if z], n[:-4]]
            return [['?'], p]
        for k, e in enumerate(evs):
            if 'bad' in e or not isinstance(e['r'], list):
                continue
            e['r'] = dict(ok=e['r'][0], log=logs.get(k, []), v=[[v, fid(p)] for v, p in e['r'][1]])
        return evs, t

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    keep = dict(req=1, reqv=2, reqo=4, prov=2, provd=0, info=1, has=1, dirs=1, write=3, remove=2)
    D1, D2, DB = ['a'], ['b'], ['a', 'B']
    paths = c.explore('PkgMC', base + 'CONSTANTS MaxDepth = %d Emit = TRUE Big = %s' % ((5, 'TRUE') if c.thorough else (4, 'FALSE')), label='small package trees')
    plans = []
    for h in paths:
        q = h[0]['a']
        plans.append([dict(op='dirs', a=[q[0]])] + [dict(op='write', a=[f['d'], f['n'], f['b']]) for f in q[1]]
                     + [dict(op=e['op'], a=e['a'][:keep[e['op']]]) for e in h[1:]])
    c.conform('PkgTrace', plans, runner, label='specification transitions')
    c.conform('PkgTrace', [gen(c.rng) for _ in range(c.n(700, 12000))], runner, label='random package trees and histories')
    c.require_ops(list(keep))


VERS = [10000, 10000, 20000, 10203, 10200, 15000, 20001, 999999, 1, 101, 120000, 10199]


def gen(r):
    names = ['A', 'B', 'C', 'D_1'][:r.choice([2, 3, 4])]
    dirs = [['a'], ['b'], ['t']]
    bad = lambda p=0.04: r.random() < p

    def vv(z=True):
        return NOT if bad() else 0 if z and r.random() < 0.25 else r.choice(VERS)

    def name():
        return r.choice(['', '9a', 'a-b', 'a.b']) if bad(0.03) else r.choice(names)

    def bod(n):
        b = []
        me = [dict(k='d', n='', v=0)] if r.random() < 0.15 else [dict(k='p', n=n, v=vv(False))] if r.random() < 0.9 else []
        first = r.random() < 0.6
        if first:
            b += me
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            k = r.choice('rrrccco' + ('x' if bad(0.5) else '') + ('p' if bad(0.5) else '') + ('s' if bad(0.05) else ''))
            m = r.choice(names) if k == 'p' else name()
            if not first and k in 'rco' and r.random() < 0.9:       # mostly without circles before the package is provided
                later = [x for x in names if x > n]
                if not later:
                    continue
                m = r.choice(later)
            b.append(dict(k=k, n=m, v=vv()))
        if not first:
            b += me
        return b

    def place(n):
        d = r.choice(dirs)
        if r.random() < 0.25:   # a package below another one's folder is only found from there
            d = d + [r.choice(names)]
        if r.random() < 0.4:
            d = d + [n]
        return d[:2]
    evs = [dict(op='dirs', a=[r.choice([[['a'], ['b']], [['b'], ['a']], [['a']], []])])]
    for n in names:
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            evs.append(dict(op='write', a=[place(n), n, bod(n)]))
    for _ in range(r.choice([6, 15, 25])):
        o = r.choice(['req'] * 6 + ['reqv'] * 5 + ['reqo'] * 3 + ['prov'] * 2 + ['info'] * 3 + ['has'] * 2 + ['dirs', 'write', 'write', 'remove'] + (['provd'] if bad(0.2) else []))
        if o == 'req':
            a = [name()]
        elif o == 'reqv':
            a = [name(), vv()]
        elif o == 'reqo':
            a = [name(), vv(), '', r.choice(['ok', 'ok', 'bad'])]
        elif o == 'prov':
            a = [name(), vv(False)]
        elif o == 'provd':
            a = []
        elif o in ('info', 'has'):
            a = [r.choice(names)]
        elif o == 'dirs':
            ds = [['a'], ['b'], ['a', r.choice(names)], ['t', r.choice(names)]]
            r.shuffle(ds)
            a = [ds[:r.choice([0, 1, 2, 2, 3])]]
        elif o == 'write':
            n = r.choice(names)
            a = [place(n), n, bod(n)]
        else:
            w = [e['a'] for e in evs if e['op'] == 'write']
            a = list(r.choice(w)[:2]) if w else [['a'], 'A']
        evs.append(dict(op=o, a=a))
    return evs


vf.main('M01', 'model_checking', main)
