#!/usr/bin/env python3
"""L01 control flow: spec/Ctl.tla bound to programs run by jsish."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

PRE = r'''
var B, N, bi, ni;
var wx = 'w0', W1 = {wx:'w1'}, W2 = {wx:'w2'}, W3 = {wx:'w3'};
function L(t) { puts('@'+t); }
function V(v:any) { return typeof v === 'undefined' ? 'u' : v; }
function d() { return bi < B.length ? B[bi++] : (bi++, false); }
function n() { return ni < N.length ? N[ni++] : (ni++, 0); }
'''


def X(x):
    return {'w': lambda: 'wx', 'err': lambda: 'V(nosuch())', 'c': lambda: "'%s'" % x['v'], 'e': lambda: 'e%d' % x['i'], 'call': lambda: 'V(P%df%d())' % (x.get('p', 0), x['f'])}[x['k']]()


def S(s, ind):
    p = '  ' * ind
    k = s['k']
    B = lambda b: '{\n' + ''.join(S(q, ind + 1) for q in b) + p + '}'
    if k == 'log':
        return p + "L('%s');\n" % s['t']
    if k == 'logx':
        return p + "L('='+%s);\n" % X(s['x'])
    if k == 'block':
        return p + B(s['b']) + '\n'
    if k == 'with':
        return p + 'with (%s) ' % s['w'].upper() + B(s['b']) + '\n'
    if k == 'if':
        return p + 'if (d()) ' + B(s['b']) + (' else ' + B(s['e']) if s['e'] else '') + '\n'
    if k == 'while':
        return p + 'while (d()) ' + B(s['b']) + '\n'
    if k == 'do':
        return p + 'do ' + B(s['b']) + ' while (d());\n'
    if k == 'for':
        return p + "for (; d(); L('%s')) " % s['step'] + B(s['b']) + '\n'
    if k == 'each':
        v = s.get('var', 'q')
        if s['of']:
            return p + "for (var %s of [%s]) {\n%s  L('%s'+%s);\n" % (v, ', '.join("'%s'" % x for x in s['keys']), p, s['t'], v) + ''.join(S(q, ind + 1) for q in s['b']) + p + '}\n'
        return p + "for (var %s in {%s}) {\n%s  L('%s'+%s);\n" % (v, ', '.join("%s:1" % x for x in s['keys']), p, s['t'], v) + ''.join(S(q, ind + 1) for q in s['b']) + p + '}\n'
    if k == 'switch':
        r = p + 'switch (n()) {\n'
        for c in s['cs']:
            r += p + ('  default:\n' if c['d'] else '  case %d:\n' % c['n']) + ''.join(S(q, ind + 2) for q in c['b'])
        return r + p + '}\n'
    if k == 'label':
        return p + s['l'] + ':\n' + S(s['s'], ind)
    if k in ('break', 'continue'):
        return p + k + (' ' + s['l'] if s['l'] else '') + ';\n'
    if k in ('return', 'throw'):
        return p + k + ' ' + X(s['x']) + ';\n'
    if k == 'try':
        r = p + "try {\n" + p + "  L('T%s');\n" % s['id'] + ''.join(S(q, ind + 1) for q in s['b']) + p + '}'
        if s['hasc']:
            r += " catch (e%d) {\n" % s['i'] + p + "  L('C%s');\n" % s['id'] + ''.join(S(q, ind + 1) for q in s['c']) + p + '}'
        if s['hasf']:
            r += " finally {\n" + p + "  L('F%s');\n" % s['id'] + ''.join(S(q, ind + 1) for q in s['f']) + p + '}'
        return r + '\n'
    raise vf.MachineryError(k)


def render(progs):
    out = PRE
    for i, p in enumerate(progs):
        def setp(o):
            if isinstance(o, dict):
                if o.get('k') == 'call':
                    o['p'] = i
                for v in o.values():
                    setp(v)
            elif isinstance(o, list):
                for v in o:
                    setp(v)
        setp(p)
        for j, f in enumerate(p['fns']):
            out += 'function P%df%d() {\n' % (i, j + 1) + ''.join(S(s, 1) for s in f) + '}\n'
        out += 'function P%dmain() {\n' % i + ''.join(S(s, 1) for s in p['main']) + '}\n'
        out += "B = [%s]; N = [%s]; bi = 0; ni = 0;\n" % (', '.join('true' if b else 'false' for b in p['bits']), ', '.join(map(str, p['nums'])))
        out += "puts('#%d');\nvar X%d;\ntry { X%d = P%dmain(); L('R'+V(X%d)); } catch(ee) { L('U'+ee); }\n" % (i, i, i, i, i)
    out += "puts('#end');\n"
    return out


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.t = 0
        self.tryid = 0
        self.nf = 0
        self.v = 0

    def tok(self):
        self.t += 1
        return 'l%d' % self.t

    def expr(self, ctx):
        k = self.r.random()
        if ctx['catch'] and k < 0.35:
            return dict(k='e', i=self.r.choice(ctx['catch']))
        if 0.35 <= k < (0.7 if ctx.get('with') else 0.42):
            return dict(k='w')
        if k > 0.92:
            return dict(k='err')
        if ctx['f'] < self.nf and k < 0.6:
            return dict(k='call', f=self.r.randint(ctx['f'] + 1, self.nf))
        return dict(k='c', v=self.r.choice(['v1', 'v2', 'v3']))

    def stmts(self, ctx, depth, lo=1, hi=3):
        res = []
        for _ in range(self.r.randint(lo, hi)):
            res.append(self.stmt(ctx, depth))
        return res

    def body(self, ctx, depth):
        return self.stmts(ctx, depth - 1)

    def stmt(self, ctx, depth):
        r = self.r
        ch = ['log'] * 3 + ['logx']
        if depth > 0:
            ch += ['if', 'if', 'while', 'do', 'for', 'each', 'switch', 'label', 'try', 'try', 'try', 'try', 'block', 'with', 'with']
        if ctx['loop'] or ctx['sw']:
            ch += ['break'] * 2
        if ctx['loop']:
            ch += ['continue'] * 2
        if ctx['labels']:
            ch += ['breakl'] * 2
        if ctx['looplabels']:
            ch += ['continuel'] * 2
        ch += ['return', 'throw', 'throw']
        k = r.choice(ch)
        # abrupt statements mostly under a condition, so that what follows is reached too
        if k in ('break', 'continue', 'breakl', 'continuel', 'return', 'throw') and r.random() < 0.5:
            return dict(k='if', b=[self.abrupt(k, ctx)], e=[])
        if k in ('break', 'continue', 'breakl', 'continuel', 'return', 'throw'):
            return self.abrupt(k, ctx)
        if k == 'log':
            return dict(k='log', t=self.tok())
        if k == 'logx':
            return dict(k='logx', x=self.expr(ctx))
        if k == 'with':
            return dict(k='with', w=r.choice(['w1', 'w2', 'w3']), b=self.body(dict(ctx, **{'with': True}), depth))
        if k == 'block':
            return dict(k='block', b=self.body(ctx, depth))
        if k == 'if':
            return dict(k='if', b=self.body(ctx, depth), e=self.body(ctx, depth) if r.random() < 0.5 else [])
        if k in ('while', 'do', 'for', 'each'):
            return self.loop(k, ctx, depth, [])
        if k == 'switch':
            c2 = dict(ctx, sw=True)
            n = r.randint(1, 4)
            cs = [dict(d=False, n=i, b=self.stmts(c2, depth - 1, 0, 2)) for i in r.sample(range(5), n)]
            if r.random() < 0.6:
                cs.insert(r.randint(0, n) if r.random() < 0.4 else n, dict(d=True, n=0, b=self.stmts(c2, depth - 1, 0, 2)))
            return dict(k='switch', cs=cs)
        if k == 'label':
            self.v += 1
            l = 'w%d' % self.v
            c2 = dict(ctx, labels=ctx['labels'] + [l])
            return dict(k='label', l=l, s=self.loop(r.choice(['while', 'do', 'for', 'each']), c2, depth, [l]))
        if k == 'try':
            self.tryid += 1
            hc = r.random() < 0.8
            hf = not hc or r.random() < 0.6
            i = min(9, len(ctx['catch']) + 1)
            id = str(self.tryid)
            if self.tryid > 28 or i == 9:
                return dict(k='log', t=self.tok())
            return dict(k='try', id=id, i=i, b=self.body(ctx, depth), hasc=hc,
                        c=self.body(dict(ctx, catch=ctx['catch'] + [i]), depth) if hc else [],
                        hasf=hf, f=self.stmts(ctx, depth - 1, 0, 2) if hf else [])
        raise vf.MachineryError(k)

    def loop(self, k, ctx, depth, own):
        c2 = dict(ctx, loop=True, sw=False, looplabels=ctx['looplabels'] + own)
        b = self.body(c2, depth)
        if k == 'for':
            return dict(k='for', b=b, step=self.tok())
        if k == 'each':
            self.v += 1
            return dict(k='each', b=b, keys=sorted(self.r.sample(['a', 'b', 'c', 'd'], self.r.randint(0, 3))), t=self.tok(), of=self.r.random() < 0.5, var='q%d' % self.v)
        return dict(k=k, b=b)

    def abrupt(self, k, ctx):
        r = self.r
        if k == 'break':
            return dict(k='break', l='')
        if k == 'continue':
            return dict(k='continue', l='')
        if k == 'breakl':
            return dict(k='break', l=r.choice(ctx['labels']))
        if k == 'continuel':
            return dict(k='continue', l=r.choice(ctx['looplabels']))
        return dict(k=k, x=self.expr(ctx))

    def program(self, depth, nf):
        self.nf = nf
        ctx = dict(loop=False, sw=False, labels=[], looplabels=[], catch=[], f=0)
        r = self.r
        main = self.stmts(ctx, depth, 2, 4)
        fns = [self.stmts(dict(ctx, f=i + 1), depth - 1, 1, 3) for i in range(nf)]
        return dict(main=main, fns=fns, bits=[r.random() < 0.6 for _ in range(r.choice([4, 10, 20]))], nums=[r.randint(0, 5) for _ in range(8)])


def main(c):
    def runner(plan):
        text = render(plan)
        r = c.run_script(text)
        outs, cur = {}, None
        for line in r.out.decode('utf8', 'replace').split('\n'):
            if line.startswith('#'):
                cur = line[1:]
                outs[cur] = []
            elif line.startswith('@') and cur is not None:
                outs[cur].append(line[1:])
        evs = []
        for i, p in enumerate(plan):
            o = outs.get(str(i), [])
            nxt = str(i + 1) if i + 1 < len(plan) else 'end'
            if nxt not in outs:
                o = o + ['!HANG' if r.timeout else '!DIED rc=%s %s' % (r.rc, r.err.decode('utf8', 'replace')[-200:])]
            evs.append(dict(op='run', a=[p], r=o))
            if nxt not in outs:
                break
        return evs, text

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    h = c.explore('CtlMC', base + 'CONSTANTS MaxDepth = 1 Emit = TRUE Wide = %s' % ('TRUE' if c.thorough else 'FALSE'), label='try x leave x loop')
    progs = [x[-1]['a'][0] for x in h]
    for p in progs:
        p['bits'] = p['bits'] or []
    c.conform('CtlTrace', [progs[i:i + 20] for i in range(0, len(progs), 20)], runner, label='specification programs')
    plans = []
    for i in range(c.n(350, 5000)):
        plans.append([Gen(c.rng).program(c.rng.choice([2, 3, 3, 4]), c.rng.choice([0, 1, 2, 3])) for _ in range(8)])
    c.conform('CtlTrace', plans, runner, label='random programs')


vf.main('L01', 'model_checking', main)
