#!/usr/bin/env python3
"""T01 the test runner: spec/Suite.tla bound to jsish -u running, showing and updating test files."""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import json, vf


def stmt(t):
    k, x = t['k'], t['x']
    return {'puts': 'puts(%s);' % json.dumps(x), 'mark': "puts('*' + '/');", 'printf': 'printf("%%s", %s);' % json.dumps(x), 'expr': ';%s;' % x, 'note': ';%s;' % x,
            'throws': ';//%s;' % x, 'nothrow': ';//%s;' % x, 'read': "Q = console.input(); puts(typeof Q === 'string' ? '<'+Q+'>' : 'END');", 'args': "puts(console.args.join(' '));",
            'count': 'G++;\n;G;', 'die': "throw('died');", 'syntax': 'var Z = (1;'}[k]


def block(x):
    return '\n/*\n=!EXPECTSTART!=\n' + x + '=!EXPECTEND!=\n*/\n'


def render(f, n):
    ks = {t['k'] for t in f['body']}
    h = ("if (typeof G === 'undefined') G = 0;\n" if 'count' in ks else '') + ('var Q;\n' if 'read' in ks else '')
    t = h + ''.join(stmt(t) + '\n' for t in f['body'])
    if f['args']:
        t += '/*\n=!ARGSTART!=\n%s\n=!ARGEND!=\n*/\n' % f['args']
    if f['inp']:
        t += '/*\n=!INPUTSTART!=\n%s=!INPUTEND!=\n*/\n' % ''.join(y + '\n' for y in f['inp'])
    return t


VERDICT = re.compile(r'\r\[(PASS|FAIL)\] (\S+)|\r(Created|Updated|Unchanged) (\S+)|\[(FAIL)\]!: (\S+): Exceptions require|(update contains a \[FAIL\])')


def main(c):
    def runner(plan):
        d = c.newdir()
        os.mkdir(d + '/w')
        for x in (d, d + '/w'):
            os.chmod(x, 0o777)
        ev, log, files = [], [], {}

        def put(p, t):
            with open(p, 'w') as h:
                h.write(t)
            os.chmod(p, 0o666)

        def base(n):                       # the parts of the file around the EXPECT block
            f, top = files[n]
            return ('', render(f, n)) if top else (render(f, n), '')

        for e in plan:
            o, (ns, f, p) = e['op'], e['a']
            n = ns[0] if ns else ''
            res = dict(code=0, vs=[], f=-1, p=-1, t='')
            if o in ('write', 'expect'):
                if o == 'write':
                    files[n] = (f, n == 'b.jsi' and f['blk'] == 'yes')
                elif f['blk'] == 'no' or not os.path.exists(d + '/w/' + n):
                    files[n] = (files[n][0], False)
                a, b = base(n)
                put(d + '/w/' + n, a + (block(f['exp']) if f['blk'] == 'yes' else '') + b)
            elif o == 'text':
                put(d + '/' + n, ''.join(y + '\n' for y in f['inp']))
            elif o == 'remove':
                if os.path.exists(d + '/w/' + n):
                    os.remove(d + '/w/' + n)
                files.pop(n, None)
            elif o == 'block':
                s = open(d + '/w/' + n).read()
                a, b = base(n)
                if s.startswith(a) and s.endswith(b) and len(s) >= len(a + b):
                    m = s[len(a):len(s) - len(b)] if b else s[len(a):]
                    q = re.fullmatch(r'\n/\*\n=!EXPECTSTART!=\n(.*)=!EXPECTEND!=\n\*/\n', m, re.S)
                    res['t'] = '=' + q.group(1) if q else '' if m == '' else 'damaged'
                else:
                    res['t'] = 'damaged'
            else:
                av = []
                if o in ('update', 'upddir'):
                    av += ['-update', 'true']
                if o == 'show':
                    av += ['-show', 'true']
                if p['mode'] == 'exec':
                    av += ['-exec', 'true']
                if p['args']:
                    av += ['-args', p['args']]
                if p['inf']:
                    av += ['-inFile', d + '/' + p['inf']]
                if p['expf']:
                    av += ['-expectFile', d + '/' + p['expf']]
                if p['fmax']:
                    av += ['-failMax', str(p['fmax'])]
                for y in ('silent', 'force'):
                    if p[y]:
                        av += ['-' + y, 'true']
                av += ['.'] if o in ('rundir', 'upddir') else list(ns)
                r = c.run([c.jsish, '-u'] + av, cwd=d + '/w', timeout=40)
                out = r.out if isinstance(r.out, str) else r.out.decode('utf-8', 'replace')
                log.append('jsish -u %s -> %s %s' % (' '.join(av), r.rc, out[-600:]))
                if o == 'show':
                    res['code'] = r.rc
                    res['t'] = out[:-1]
                else:
                    for m in VERDICT.finditer(out):
                        if m.group(7):
                            # the test announced last
                            a = list(re.finditer(r'Test (\S+) ', out[:m.start()]))
                            nm, v = (a[-1].group(1) if a and not p['silent'] else '?'), 'refused'
                        else:
                            nm = m.group(2) or m.group(4) or m.group(6)
                            v = m.group(1) or m.group(3) or 'needs'
                        res['vs'].append(dict(n=nm[2:] if nm.startswith('./') else nm, v=v))
                    res['code'] = r.rc
                    m = re.search(r'^(\d+) FAIL, (\d+) PASS: runtime', out, re.M)
                    if m:
                        res['f'], res['p'] = int(m.group(1)), int(m.group(2))
            ev.append(dict(op=o, a=e['a'], r=res))
        shutil.rmtree(d, ignore_errors=True)
        return ev, '\n'.join(log)

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('SuiteMC', base + 'CONSTANTS MaxDepth = %d Emit = TRUE Big = %s' % ((4, 'TRUE') if c.thorough else (3, 'FALSE')), label='sequences over two test files')
    c.rng.shuffle(paths)
    c.conform('SuiteTrace', paths[:c.n(3500, 20000)], runner, label='specification transitions')
    c.conform('SuiteTrace', [gen(c.rng) for _ in range(c.n(250, 4000))], runner, label='random histories of a test directory')
    c.require_ops(['write', 'run', 'update', 'rundir', 'upddir', 'show', 'block', 'expect', 'text', 'remove'])


EXPRS = [('1+2', '3'), ('[1,2]', '[ 1, 2 ]'), ("[1,{a:'x'}]", '[ 1, { a:"x" } ]'), ('null', 'null'), ('true', 'true'), ('2*3', '6'), ("'abc'.length", '3'), ('1.5', '1.5')]
TH = [("throw('boo')", 'boo'), ("throw('a b')", 'a b'), ("JSON.parse('{')", None)][:2]
WORDS = ['a', 'b', '', 'a b', 'x;y', 'tab\there', '$1', '%s', '\\n', "it's", 'q"q', '// no', '\u00e9', 'ok ==> 3', '.+', '[a', 'longer line of text']


def gen(r):
    names = ['a.jsi', 'b.jsi', 'c.js', 'd.jsi']
    O0 = dict(mode='in', args='', inf='', expf='', fmax=0, silent=False, force=False)
    F0 = dict(body=[], blk='no', exp='', args='', inp=[])
    T = lambda k, x='', y='': dict(k=k, x=x, y=y)
    ev, fs, tx = [], {}, {}

    def body():
        b = []
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            k = r.choice(['puts'] * 4 + ['printf', 'printf', 'expr', 'expr', 'note', 'throws', 'nothrow', 'read', 'args', 'count', 'count'] + ['die', 'syntax', 'mark'] * (r.random() < 0.15))
            if k in ('puts', 'printf'):
                b.append(T(k, r.choice(WORDS)))
            elif k == 'expr':
                b.append(T(k, *r.choice(EXPRS)))
            elif k == 'note':
                b.append(T(k, r.choice(["'x y'", "'1) first'", "'abc'"])))
            elif k == 'throws':
                b.append(T(k, *r.choice(TH)))
            elif k == 'nothrow':
                b.append(T(k, r.choice(['1+1', 'puts.length', 'null'][:1])))
            else:
                b.append(T(k))
        return b

    def out(f, args=None):                 # what the test prints (only to make matching blocks likely)
        o, g, inp = '', 0, list(f['inp'])
        for t in f['body']:
            k = t['k']
            if k == 'puts':
                o += t['x'] + '\n'
            elif k == 'printf':
                o += t['x']
            elif k == 'expr':
                o += t['x'] + ' ==> ' + t['y'] + '\n'
            elif k == 'note':
                o += t['x'] + '\n'
            elif k == 'throws':
                o += t['x'] + ' ==>\n[PASS]!: err = ' + t['y'] + '\n'
            elif k == 'nothrow':
                o += t['x'] + ' ==>\n[FAIL]!: expected a throw\n\n'
            elif k == 'read':
                o += '<%s>\n' % inp.pop(0) if inp else 'END\n'
            elif k == 'args':
                o += f['args'] + '\n'
            elif k == 'count':
                g += 1
                o += 'G ==> %d\n' % g
            elif k == 'mark':
                o += 'mark\n'
        return o

    def text(f):
        t = out(f)
        q = r.random()
        if q < 0.55:
            return t
        ls = t.split('\n')
        i = r.randrange(len(ls))
        if q < 0.65:
            ls[i] += r.choice([' ', 'x'])
        elif q < 0.75:
            ls.insert(i, r.choice(WORDS))
        elif q < 0.85:
            ls.pop(i)
        elif q < 0.9:
            return t + '\n'
        else:
            return t[:-1]
        return '\n'.join(ls)

    def add(op, ns, f=F0, **o):
        ev.append(dict(op=op, a=[ns, f, dict(O0, **o)]))

    def write(n):
        f = dict(body=body(), blk='no', exp='', args=r.choice(['', '', 'p', 'p q', 'x y z']), inp=[r.choice([w for w in WORDS]) for _ in range(r.choice([0, 0, 1, 2]))])
        if r.random() < 0.6:
            f.update(blk='yes', exp=text(f))
        fs[n] = f
        add('write', [n], f)

    for n in r.sample(names, r.choice([1, 2, 3, 4])):
        write(n)
    for _ in range(r.randint(4, 14)):
        k = r.choice(['write', 'expect', 'expect', 'run', 'run', 'run', 'update', 'update', 'rundir', 'upddir', 'show', 'block', 'block', 'text', 'remove'])
        ex = sorted(fs)
        if k == 'write':
            write(r.choice(names))
        elif k == 'text':
            n = r.choice(['t1', 't2'])
            src = fs[r.choice(ex)] if ex else F0
            ls = out(src).split('\n')[:-1] if r.random() < 0.7 else [r.choice(WORDS) for _ in range(r.randint(0, 2))]
            tx[n] = ls
            add('text', [n], dict(F0, inp=ls))
        elif k == 'remove':
            n = r.choice(names)
            fs.pop(n, None)
            add('remove', [n])
        elif k in ('rundir', 'upddir'):
            if ex:
                f = k == 'upddir' and r.random() < 0.3         # the refusal of an update does not name its file
                add(k, ['a.jsi'], silent=(k == 'rundir' or f) and r.random() < 0.2, fmax=r.choice([0, 0, 1, 2]), force=f)
        elif not ex:
            continue
        elif k == 'expect':
            n = r.choice(ex)
            blk = r.choice(['no', 'yes', 'yes', 'yes'])
            add('expect', [n], dict(F0, blk=blk, exp=text(fs[n]) if blk == 'yes' else ''))
        elif k == 'block':
            add('block', [r.choice(ex)])
        elif k == 'show':
            n = r.choice(ex)
            if not any(t['k'] in ('die', 'syntax') for t in fs[n]['body']):
                add('show', [n], args=r.choice(['', 'm n']))
        else:
            ns = [r.choice(ex if r.random() < 0.93 else names + ['e.txt']) for _ in range(r.choice([1, 1, 2, 3]))]
            o = dict(silent=r.random() < 0.15, fmax=r.choice([0, 0, 0, 1, 2]), args=r.choice(['', '', '', 'm', 'm n']))
            if k == 'update':
                o['force'] = r.random() < 0.3
                if o['silent'] and not o['force']:
                    o['silent'] = False        # the refusal does not name its file
            else:
                if tx and r.random() < 0.25:
                    o['inf'] = r.choice(sorted(tx))
                if tx and r.random() < 0.25:
                    o['expf'] = r.choice(sorted(tx))
                if not o.get('inf') and all(not fs.get(n, F0)['inp'] for n in ns) and r.random() < 0.2:
                    o['mode'] = 'exec'
            add(k, ns, **o)
    for n in sorted(fs):
        add('block', [n])
    return ev


if __name__ == '__main__':
    vf.main('T01', 'model_checking', main)
