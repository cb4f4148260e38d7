#!/usr/bin/env python3
"""F05 exec: spec/Exec.tla bound to exec with shell commands, programs run without a shell, input, options and background commands."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

PRE = vf.PRELUDE + r'''
var BIG = 'B', HERE = File.pwd(), NBG = 0;
while (BIG.length < 70000) BIG += BIG;
BIG = BIG.substr(0, 70000);
function TOK(x:string) {
    var r = [], s = x.split(BIG), i, j, t;
    for (i = 0; i < s.length; i++) {
        if (i) r.push('BIG');
        t = s[i];
        if (t.length > 400) { r.push('long'); continue; }
        for (j = 0; j < t.length; j++) r.push(t[j]);
    }
    return r;
}
function OK(c, g, t) { return {k:'ok', code:c, sig:g, out:t}; }
function BACK(v:any) {
    if (File.pwd() !== HERE) throw('moved');
    if (typeof v === 'number') return OK(v, 0, []);
    if (typeof v === 'string') return OK(0, 0, TOK(v));
    return OK(v.code, v.status, TOK(v.data));
}
function GO() {
    var n = NBG, f = HERE+'/done'+n;
    if (!n) return OK(0, 0, []);
    NBG = 0;
    if (File.exists(f)) { File.remove(f); throw('done already'); }
    File.write(HERE+'/go'+n, '');
    for (var i = 0; i < 2000 && !File.exists(f); i++) System.sleep(0.005);
    if (!File.exists(f)) throw('not done');
    File.remove(f); File.remove(HERE+'/go'+n);
    return OK(1, 0, []);
}
function DO(k:number, f:function) {
    var r;
    try { r = f(); } catch(e) { r = {k:'err', code:0, sig:0, out:[]}; }
    if (File.pwd() !== HERE) r = {k:'moved', code:0, sig:0, out:[]};
    O([k, r]);
}
'''


def sq(x):
    return "'" + ''.join(x).replace("'", "'\\''") + "'"


def step(t):
    k, x, f, n = t['k'], t['x'], t['f'], t['n']
    return {'out': "printf '%%s' %s" % sq(x), 'big': "head -c 70000 /dev/zero | tr '\\000' B", 'wr': "printf '%%s' %s > %s" % (sq(x), f), 'app': "printf '%%s' %s >> %s" % (sq(x), f),
            'cat': 'cat %s' % f, 'rm': 'rm -f %s' % f, 'in': 'cat > %s' % f, 'head': 'head -c %d > %s' % (n, f), 'pipe': "printf '%%s' %s | tr a b" % sq(x),
            'err': "printf '%%s' %s >&2" % sq(x), 'true': 'true', 'false': 'false', 'nosuch': 'nosuchcommand', 'exit': 'exit %d' % n, 'sig': 'kill -%d $$' % n}[k]


def main(c):
    def runner(plan):
        d = c.newdir()
        os.mkdir(d + '/sub')
        os.chmod(d + '/sub', 0o777)
        st, nbg = [], 0
        for k, e in enumerate(plan):
            o, (cm, op, x) = e['op'], e['a']
            js = lambda t: json.dumps(''.join(t)) if 'BIG' not in t else '+'.join('BIG' if y == 'BIG' else json.dumps(y) for y in t)
            if o == 'put':
                f = 'File.write("%s/%s", %s); return OK(0, 0, []);' % (op[0], op[1], js(x))
            elif o == 'read':
                f = 'return OK(0, 0, TOK(File.read("%s/%s")));' % (op[0], op[1])
            elif o == 'go':
                f = 'return GO();'
            else:
                if o == 'exec':
                    t = '; '.join(step(y) for y in cm)
                else:
                    t = ' '.join(('of=' + y['f'] + ' status=none' if cm[0]['x'] == ['dd'] else y['f'] if y['f'] else ''.join(y['x'])) if i else ''.join(y['x']).replace('nosuch', 'nosuchcommand') for i, y in enumerate(cm))
                pre = ''
                if o == 'exec' and ('bg' in op or 'amp' in op) and not ('input' in op or 'inputs' in op or 'bad' in op or 'cdbad' in op or 'noRedir' in op):
                    nbg += 1
                    t = 'i=0; while [ ! -f %s/go%d -a $i -lt 500 ]; do sleep 0.01; i=$((i+1)); done; (%s); echo > %s/done%d' % (d, nbg, t, d, nbg)
                    pre = 'NBG = %d; ' % nbg
                if 'amp' in op:
                    t = '(%s) &' % t
                opts = ['%s:true' % y for y in op if y in ('trim', 'retCode', 'retAll', 'noError', 'noRedir', 'bg')]
                if o == 'nosh':
                    opts.append('noShell:true')
                if 'cd' in op:
                    opts.append('chdir:"sub"')
                if 'cdbad' in op:
                    opts.append('chdir:"nowhere"')
                if 'bad' in op:
                    opts.append('nosuch:1')
                if 'input' in op or ('inputs' in op and opts):
                    opts.append('inputStr:%s' % js(x))
                    arg = ', {%s}' % ', '.join(opts)
                elif 'inputs' in op:
                    arg = ', %s' % js(x)
                else:
                    arg = ', {%s}' % ', '.join(opts) if opts else ''
                f = '%sreturn BACK(exec(%s%s));' % (pre, json.dumps(t), arg)
            st.append('DO(%d, function() { %s });\n' % (k, f))
        t = PRE + ''.join(st)
        r = c.run_script(t, cwd=d)
        import shutil
        shutil.rmtree(d, ignore_errors=True)
        return vf.out_events(r, plan), t

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('ExecMC', base + 'CONSTANTS MaxDepth = %d Emit = TRUE Big = %s' % ((4, 'TRUE') if c.thorough else (3, 'FALSE')), label='sequences of two steps with every option')
    c.rng.shuffle(paths)
    c.conform('ExecTrace', paths[:c.n(1400, 12000)], runner, label='specification transitions')
    c.conform('ExecTrace', [gen(c.rng) for _ in range(c.n(400, 5000))], runner, label='random commands')
    c.require_ops(['exec', 'nosh', 'put', 'read', 'go'])


CH = list('abcxyz') + [' ', '\n', '\t', '$', '>', ';', '&', '|', '*', '"', "'", '`', '#', '=', '%', '<', '(', '!', '~']


def gen(r):
    F = ['f', 'g', 'h']

    def text(n=6, extra=()):
        x = [r.choice(CH) for _ in range(r.randint(0, n))]
        if r.random() < 0.5:
            x.append('\n')
        return x

    def T(k, x=(), f='', n=0):
        return dict(k=k, x=list(x), f=f, n=n)

    def steps(inp, quiet):
        out, used = [], False
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            k = r.choice(['out', 'cat', 'pipe', 'big'] * (0 if inp or quiet else 2) + ['wr', 'app', 'app', 'rm', 'true', 'false', 'nosuch', 'err'] + (['in', 'in', 'head'] if inp and not used else [])
                         + ['exit'] * (r.random() < 0.3) + ['sig'] * (r.random() < 0.2 and not quiet))
            if k in ('in', 'head'):
                used = True
            if k in ('out', 'pipe', 'wr', 'app', 'err'):
                x = text()
                if x[:1] == ['-']:
                    x = []
                out.append(T(k, x, r.choice(F) if k in ('wr', 'app') else ''))
            elif k in ('cat', 'rm', 'in'):
                out.append(T(k, [], r.choice(F)))
            elif k == 'head':
                out.append(T(k, [], r.choice(F), r.choice([1, 2, 3, 5])))
            elif k == 'exit':
                out.append(T(k, [], '', r.choice([0, 1, 2, 3, 77, 255])))
            elif k == 'sig':
                out.append(T(k, [], '', r.choice([9, 15, 2])))
            else:
                out.append(T(k))
        return out
    evs, pend = [], False
    for _ in range(r.choice([6, 12, 20])):
        o = r.choice(['exec'] * 8 + ['nosh'] * 3 + ['put', 'read', 'read', 'read'] + ['go'] * (3 if pend else 0))
        if o == 'put':
            e = dict(op=o, a=[[], [r.choice(['.', 'sub']), r.choice(F)], text(10)])
        elif o == 'read':
            e = dict(op=o, a=[[], [r.choice(['.', 'sub']), r.choice(F)], []])
        elif o == 'go':
            e, pend = dict(op=o, a=[[], [], []]), False
        else:
            op = {x for x in ('trim', 'retCode', 'retAll', 'noError', 'cd') if r.random() < 0.2}
            if r.random() < 0.08:
                op.add('noRedir')
            if r.random() < 0.03:
                op.add(r.choice(['bad', 'cdbad']))
            if 'cdbad' in op:
                op.discard('cd')
            inp = r.random() < 0.3
            if inp:
                op.add('inputs' if not op and r.random() < 0.6 else 'input')
            x = ([r.choice(CH) for _ in range(r.randint(0, 12))] + (['BIG'] * r.choice([1, 2]) if r.random() < 0.3 else [])) if inp else []
            if o == 'exec':
                bg = not pend and not inp and r.random() < 0.1
                if bg:
                    op.add(r.choice(['bg', 'bg', 'amp']))
                    if r.random() < 0.1:
                        op |= {'bg', 'amp'}
                cm = steps(inp, bg)
                refused = 'bad' in op or 'cdbad' in op or 'noRedir' in op
                if bg and 'noRedir' in op:
                    op.discard('noRedir')
                    refused = 'bad' in op or 'cdbad' in op
                if bg and not refused:
                    pend = True
            else:
                p = r.choice(['dd'] if inp and r.random() < 0.8 else ['echo', 'echo', 'echo', 'cat', 'cat', 'true', 'false', 'nosuch'] if not inp else ['true', 'false', 'nosuch'])
                cm = [T('w', [p])]
                if p == 'echo':
                    for _ in range(r.choice([0, 1, 2, 3])):
                        w = [y for y in text(5) if y not in (' ', '\n', '\t', '&')]
                        if w:
                            cm.append(T('w', w))
                elif p in ('cat', 'dd'):
                    f = r.choice(F)
                    cm.append(T('w', [f] if p == 'cat' else [], f))
                if r.random() < 0.03:
                    op.add('bg')
            e = dict(op=o, a=[cm, sorted(op), x])
        evs.append(e)
    if pend:
        evs.append(dict(op='go', a=[[], [], []]))
    for d in ('.', 'sub'):
        for f in F:
            evs.append(dict(op='read', a=[[], [d, f], []]))
    return evs


vf.main('F05', 'model_checking', main)
