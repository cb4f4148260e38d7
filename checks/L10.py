#!/usr/bin/env python3
"""L10 typed calls: spec/Typed.tla bound to functions with declared types and to the signatures of built-in functions."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

LIT = dict(n5='5', nm='-1.5', s1='"ab"', s0='""', bT='true', bF='false', a1='[1,2]', a0='[]', o1='{x:1}', f='Vf', r='Vr', x='Vx', z='null', u='undefined')
IDS = sorted(LIT)
DEF = ['n5', 'nm', 's1', 's0', 'bT', 'bF', 'z']
TYPES = ['number', 'string', 'boolean', 'array', 'object', 'function', 'regexp', 'userobj', 'null', 'undefined', 'any']
PRE = vf.PRELUDE + r'''
var LOG = [], TOT = 0, RV = 5, TODO = [], Vn5 = 5, Vnm = -1.5, Vs1 = 'ab', Vs0 = '', VbT = true, VbF = false, Va1 = [1,2], Va0 = [], Vo1 = {x:1}, Vf = function(...) { return 1; }, Vr = /x/, Vx = new Interp(), Vz = null, Vu;
var VV = {n5:5, nm:-1.5, s1:'ab', s0:'', bT:true, bF:false, a1:Va1, a0:Va0, o1:Vo1, f:Vf, r:Vr, x:Vx, z:null, u:Vu};
function Q(v:any) {
    var t = typeof v;
    if (t === 'undefined') return 'u';
    if (t === 'null') return 'z';
    if (t === 'array') return v.length === 2 && v[0] === 1 && v[1] === 2 ? 'a1' : v.length === 0 ? 'a0' : 'a?';
    if (t === 'number') return v === 5 ? 'n5' : v === -1.5 ? 'nm' : 'n?';
    if (t === 'boolean') return v ? 'bT' : 'bF';
    if (t === 'string') return v === 'ab' ? 's1' : v === '' ? 's0' : 's?';
    if (t === 'function') return 'f';
    if (t === 'regexp') return 'r';
    if (t === 'userobj') return 'x';
    return v.x === 1 ? 'o1' : 'o?';
}
function IN() {
    if (TODO.length === 0) return false;
    var t = TODO[0], v, r, q;
    TODO = TODO.slice(1);
    RV = t[2];
    if (t[2] === 'u') RV = 'u';
    try { r = DOF(t[0], t[1]); q = Q(r); LOG.push(['in', 'ok', q]); } catch(e) { LOG.push(['in', 'e', '']); }
    return true;
}
function DOF(i, a):any { var q = [], j, fs = [F1, F2, F3, F4]; for (j = 0; j < a.length; j++) if (a[j] === 'u') q.push(Vu); else q.push(VV[a[j]]); return fs[i-1].apply(null, q); }
function RVAL(rv):any { if (rv === 'u') return Vu; return VV[rv]; }
function ARGS(a) { var q = [], i; for (i = 0; i < a.length; i++) q.push(Q(a[i])); return q; }
function F1(...) { throw 'undefined function'; } function F2(...) { throw 'undefined function'; } function F3(...) { throw 'undefined function'; } function F4(...) { throw 'undefined function'; }
function T(e) { var m = ''+e; return m.search(/type mismatch|got [0-9]+ args|call with undefined|missing args|extra args|too few/) >= 0 ? 't' : 'e'; }
'''


def decl(i, ps, va, ret):
    names = ['abcdefgh'[k] for k in range(len(ps))]
    q = []
    for n, p in zip(names, ps):
        d = p['d']
        q.append(n + (':' + '|'.join(p['ty']) if p['ty'] else '') + ('' if d == '' else '=void' if d == 'void' else '=' + LIT[d]))
    if va:
        q.append('...')
    entry = "LOG.push([%s].concat(ARGS(arguments)));" % ', '.join(["'%d'" % i, "''+arguments.length"] + ['Q(%s)' % n for n in names] + ["'|'"])
    return "function(%s)%s { var rv = RV, lg; %s TOT++; lg = IN(); if (lg) { %s TOT++; } return RVAL(rv); }" % (', '.join(q), ':' + '|'.join(ret) if ret else '', entry, entry)


def text(k, e):
    o, a = e['op'], e['a']
    put = 'puts("@["+%d+","+JSON.stringify(%%s)+"]");' % k
    if o == 'def':
        return 'F%d = %s; %s\n' % (a[0], decl(*a), put % '["ok"]')
    if o == 'tot':
        return put % '[TOT]' + '\n'
    if o == 'b':
        call = '%s(%s)' % (bname(a[0]), ', '.join('V' + x for x in a[1]) if e['f'] == 'var' else ', '.join(LIT[x] for x in a[1]))
        if e['f'] == 'apply':
            n = bname(a[0])
            this = n.rsplit('.', 1)[0] if '.' in n else 'null'
            vs = ['V' + x for x in a[1]]
            call = '%s.call(%s)' % (n, ', '.join([this] + vs)) if this in ('Vs1', 'Vn5', 'Va1') else '%s.apply(%s, [%s])' % (n, this, ', '.join(vs))
        return 'var RES; try { %s; RES = "o"; } catch(e) { RES = T(e); } %s\n' % (call, put % '[RES]')
    todo = '[%s]' % ', '.join("[%d, [%s], '%s']" % (t['f'], ', '.join("'%s'" % x for x in t['args']), t['rv']) for t in (a[4] if o != 'arg' else []))
    rv = a[3] if o != 'arg' else a[4]
    f = 'F%d' % a[0]
    lits = ', '.join(LIT[x] for x in a[2]) if o != 'arg' else ''
    vs = ', '.join('V' + x for x in a[2]) if o != 'arg' else ''
    form = a[1] if o != 'arg' else None
    pre = post = ''
    if o == 'arg':
        # the value returned by the inner call decides what the outer is given; the outer returns a[5]
        c = 'F%d((function():any { var t = F%d(%s); RV = "%s"; return t; })()%s)' % (a[0], a[2], ', '.join('V' + x for x in a[3]), a[5], ''.join(', V' + x for x in a[1]))
    elif o == 'new':
        c = 'new %s(%s)' % (f, vs)
    elif form == 'direct':
        c = '%s(%s)' % (f, lits)
    elif form == 'var':
        c = '%s(%s)' % (f, vs)
    elif form == 'expr':
        c = '%s(%s)' % (f, ', '.join({'n': 'V%s+0', 's': 'V%s+""', 'b': '!!V%s'}.get(x[0], '(V%s)') % x if x[0] in 'nsb' else 'V' + x for x in a[2]))
    elif form == 'apply':
        c = '%s.apply(null, [%s])' % (f, vs)
    elif form == 'call':
        c = '%s.call(%s)' % (f, ', '.join(['null'] + (['V' + x for x in a[2]])))
    elif form == 'method':
        pre, c = 'var ob = {m:%s};' % f, 'ob.m(%s)' % vs
    elif form == 'elem':
        pre, c = 'var ar = [1,%s];' % f, 'ar[1](%s)' % vs
    elif form == 'other':
        pre, c = 'var g = %s;' % f, 'g(%s)' % lits
    elif form == 'param':
        pre, c = 'function hh(g) { return g(%s); };' % vs, 'hh(%s)' % f
    elif form == 'eval':
        pre, c = 'var rs;', "eval('rs = %s(%s);')" % (f, vs)
        post = ' v = rs;'
    elif form == 'eval':
        c = ''
    elif form == 'alias':
        n = len(a[2]) // 2
        pre = 'Interp.alias("AL", %s, %s);' % (f, '[' + ', '.join('V' + x for x in a[2][:n]) + ']' if n else 'null')
        c = 'AL(%s)' % ', '.join('V' + x for x in a[2][n:])
    elif form == 'bind':
        n = len(a[2]) // 2
        pre = 'var bb = %s.bind(%s);' % (f, ', '.join(['null'] + ['V' + x for x in a[2][:n]]))
        c = 'bb(%s)' % ', '.join('V' + x for x in a[2][n:])
    elif form == 'map':
        c = '[V%s].map(%s)' % (a[2][0], f)
        post = ' v = v[0];'
    elif form == 'reduce':
        c = '[V%s].reduce(%s, V%s)' % (a[2][1], f, a[2][0])
    elif form == 'interp':
        c = 'Interp.eval("return %s(%s);")' % (f, vs) if False else '%s(%s)' % (f, vs)
    elif form == 'replace':
        c = '"ab".replace(/ab/, %s)' % f
    return ('LOG = []; RV = "%s"; TODO = %s; (function() { var RES, v; %s try { v = %s;%s RES = ["ok", %s, LOG]; } catch(e) { RES = ["e", "", LOG]; } %s })();\n' %
            (rv, todo, pre, c, post, '""' if o == 'new' else 'Q(v)', put % 'RES'))


RECV = dict(String='Vs1', Array='Va1', Number='Vn5', Object='Vo1')


def bname(n):
    ns, _, m = n.partition('.')
    if not m:
        return n
    return RECV.get(ns, ns) + '.' + m


def sigs():
    res = []
    for line in open(os.path.join(vf.SPEC, 'Sigs.tla')):
        m = re.match(r'  \[n \|-> "([^"]+)", lo \|-> (-?\d+), hi \|-> (-?\d+), pure \|-> (TRUE|FALSE), ps \|-> <<(.*)>>\],?$', line)
        if m:
            res.append((m[1], int(m[2]), int(m[3]), m[4] == 'TRUE', [re.findall(r'"([^"]+)"', t) for t in re.findall(r'\{([^}]*)\}', m[5])]))
    return res


TYPE = dict(n5='number', nm='number', s1='string', s0='string', bT='boolean', bF='boolean', a1='array', a0='array', o1='object', f='function', r='regexp', x='userobj', z='null', u='undefined')


def accepted(ty, v):
    return not ty or 'any' in ty or TYPE[v] in ty


def main(c):
    def runner(plan):
        t = PRE + ''.join(text(k, e) for k, e in enumerate(plan))
        r = c.run_script(t)
        evs = vf.out_events(r, plan)
        for e in evs:
            e.pop('f', None)
        return evs, t

    r = c.rng
    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('TypedMC', base + 'CONSTANTS MaxDepth = 2 Big = %s Emit = TRUE' % ('TRUE' if c.thorough else 'FALSE'), label='declarations and calls')
    groups = {}
    for p in paths:
        d = p[0]
        k = str(d['a'])
        g = groups.setdefault(k, [dict(op='def', a=d['a'])])
        for e in p[1:]:
            g.append(dict(op='call', a=e['a']))
    plans = []
    for g in groups.values():
        for form in ('direct', 'apply', 'expr'):
            if form == 'direct' or r.random() < c.n(0.4, 1):
                plans.append(g[:1] + [dict(op=e['op'], a=[e['a'][0], form] + e['a'][2:]) for e in g[1:]] + [dict(op='tot', a=[])])
    c.conform('TypedTrace', plans, runner, label='specification transitions')

    def gdecl(i):
        ps = []
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 5])
        first = r.randint(0, n)
        for k in range(n):
            ty = r.sample(TYPES, r.choice([0, 1, 1, 1, 2, 3]))
            if 'any' in ty:
                ty = ['any']
            d = r.choice(DEF + ['void'] * 5) if k >= first else ''
            if not ty and d == 'void':
                ty = ['any']
            ps.append(dict(ty=ty, d=d))
        ret = r.sample(TYPES[:9] + ['void'] * 3, r.choice([0, 0, 0, 1, 2])) if r.random() < 0.9 else ['any']
        return [i, ps, r.random() < 0.25, sorted(set(ret))]

    def gargs(d):
        ps, va = d[1], d[2]
        least = min([k for k, p in enumerate(ps) if p['d']] or [len(ps)])
        n = r.randint(least, len(ps)) + (r.choice([0, 1, 2]) if va else 0)
        if r.random() < 0.1:
            n = max(0, n + r.choice([-1, 1]))
        q = []
        for k in range(n):
            v = r.choice(IDS)
            if k < len(ps) and r.random() < 0.9:
                p = ps[k]
                ty = p['ty'] + ([TYPE[p['d']]] if p['d'] not in ('', 'void') else [])
                ok = [x for x in IDS if (TYPE[x] in ty or 'any' in ty or not ty and x != 'u')]
                if ok:
                    v = r.choice(ok)
            q.append(v)
        return q

    def grv(d):
        ok = [x for x in IDS if TYPE[x] in d[3] or ('void' in d[3] and x == 'u')]
        return r.choice(ok) if ok and r.random() < 0.8 else r.choice(IDS)

    def gen():
        ds = {i: gdecl(i) for i in (1, 2, 3, 4)}
        evs = [dict(op='def', a=ds[i]) for i in ds]
        for _ in range(r.choice([15, 30, 50])):
            i = r.choice([1, 2, 3, 4])
            d = ds[i]
            x = r.random()
            if x < 0.06:
                ds[i] = gdecl(i)
                evs.append(dict(op='def', a=ds[i]))
                continue
            if x < 0.1:
                evs.append(dict(op='tot', a=[]))
                continue
            q = gargs(d)
            rv = grv(d)
            todo = []
            while r.random() < 0.3 and len(todo) < 3:
                j = r.choice([1, 2, 3, 4])
                todo.append(dict(f=j, args=gargs(ds[j]), rv=grv(ds[j])))
            # (a body's own call returns before the value is chosen, so values are taken in order)
            if x < 0.17:
                j = r.choice([1, 2, 3, 4])
                q = gargs(d)
                evs.append(dict(op='arg', a=[i, q[1:], j, gargs(ds[j]), r.choice(q[:1] or ['n5']), rv]))
            elif x < 0.22:
                evs.append(dict(op='new', a=[i, 'new', q, rv, todo]))
            else:
                form = r.choice(['direct', 'var', 'expr', 'apply', 'call', 'method', 'elem', 'other', 'param', 'eval', 'alias', 'bind', 'map', 'reduce'])
                if form in ('map', 'reduce'):
                    if len(d[1]) != (1 if form == 'map' else 2) or d[2] or 'u' in q or len(q) != len(d[1]):
                        form = 'var'
                if form in ('eval', 'map', 'reduce') and rv == 'u':
                    form = 'var'
                evs.append(dict(op='call', a=[i, form, q, rv, todo]))
        return evs + [dict(op='tot', a=[])]
    c.conform('TypedTrace', [gen() for _ in range(c.n(800, 12000))], runner, label='random declarations and calls')

    def bplans():
        res = []
        for n, lo, hi, pure, ps in sigs():
            top = len(ps) if hi < 0 else hi

            def pick(k, good=True):
                ty = ps[k] if k < len(ps) else []
                ok = [v for v in IDS if accepted(ty, v) and v != 'u' and (v != 'x' or not good)]
                return r.choice(ok or ['n5'])
            mine = []
            for k in range(lo):             # too few
                mine.append([pick(j) for j in range(k)])
            if hi >= 0:
                mine += [[pick(j) for j in range(hi + k)] for k in (1, 2)]
            for k in range(len(ps)):        # one of another type
                if not ps[k]:
                    continue
                bad = [v for v in IDS if not accepted(ps[k], v) and '?' + TYPE[v] not in ps[k] and '?any' not in ps[k]]
                for v in r.sample(bad, min(len(bad), c.n(3, 9))):
                    for m in {max(k + 1, lo), top}:
                        if m >= k + 1:
                            q = [pick(j) for j in range(m)]
                            q[k] = v
                            mine.append(q)
            if pure:
                for m in range(lo, top + 1):
                    for _ in range(c.n(2, 8)):
                        mine.append([pick(j) for j in range(m)])
            for q in mine:
                f = r.choice(['var', 'lit', 'apply'])
                res.append(dict(op='b', a=[n, q], f=f))
        r.shuffle(res)
        return [res[k:k + 40] for k in range(0, len(res), 40)]
    pl = []
    for _ in range(c.n(2, 10)):
        pl += bplans()
    c.conform('TypedTrace', pl, runner, label='built-in functions')
    c.require_ops(['def', 'call', 'new', 'arg', 'tot', 'b'])


vf.main('L10', 'model_checking', main)
