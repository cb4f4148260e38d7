#!/usr/bin/env python3
"""I04 options: spec/Conf.tla bound to conf of the main interpreter, of children and of safe children."""
import json, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

SPEC = open(os.path.join(vf.VERIF, 'spec', 'Conf.tla')).read()


def table():
    t = {}
    top, sub = SPEC.split('Table ==')[1].split('Sub ==')
    for n, k, w in re.findall(r'(\w+) \|-> D\("(\w+)", "(\w+)"\)', top):
        t[(n,)] = (k, w)
    for g, body in re.findall(r'(\w+) \|-> \[(.*?)\]', sub.split('Groups ==')[0], re.S):
        for n, k, w in re.findall(r'(\w+) \|-> D\("(\w+)", "(\w+)"\)', body):
            t[(re.sub(r'.*\[', '', g), n)] = (k, w)
    return t


TABLE = table()
NAMES = {k: re.findall(r'"(\w+)"', re.search(n + r' == <<(.*?)>>', SPEC).group(1)) for k, n in (('bitset', 'Logs'), ('bitset9', 'Traces9'), ('bitset5', 'TypeChks'))}
NAMES['enum'] = ['log', 'puts', 'throw']
NAMES['enum2'] = ['none', 'read', 'write', 'writeRead', 'lockdown']
SHOWN = [p for p in TABLE if p != ('retValue',)]
GOODF = {('onComplete',): 'function(prefix:string, start:number, end:number) { return 1; }', ('onEval',): 'function(cmd:string) { return 1; }', ('onExit',): 'function() { return 1; }'}
BADF = 'function(a:object, b:array, c:object, d:array) { return 1; }'

PRE = vf.PRELUDE + r'''
var X = {}, LAST = {}, PATHS = %s, FUNCS = %s;
function FL(o) { var r = {}, i, p, v; for (i = 0; i < PATHS.length; i++) { p = PATHS[i]; v = p.length === 1 ? o[p[0]] : o[p[0]][p[1]];
  r[p.join('.')] = typeof v === 'undefined' ? 'undefined' : v !== null && FUNCS.indexOf(p[0]) >= 0 ? '"f"' : JSON.stringify(v); } return r; }
function DUMP(i) { return FL(i === 'M' ? Interp.conf() : X[i].conf()); }
function LIST(o) { var r = [], k; for (k in o) r.push([k, o[k]]); return r; }
function CH() { var r = [], i, k, d; var all = ['M'].concat(Object.keys(X)); for (i = 0; i < all.length; i++) { d = DUMP(all[i]);
  for (k in d) if (!LAST[all[i]] || LAST[all[i]][k] !== d[k]) r.push([all[i], k, d[k]]); LAST[all[i]] = d; } return r; }
function OUT(k, f, ask) { var o = 'ok', v = ''; try { v = f(); } catch(e) { o = 'e'; } if (!ask || typeof v === 'undefined') v = ''; puts('@['+k+','+JSON.stringify([o, v, CH()])+']'); }
function STR(p, v) { return v !== null && FUNCS.indexOf(p) >= 0 ? '"f"' : JSON.stringify(v); }
var FUNCTEXT = %s;
''' % (json.dumps([list(p) for p in SHOWN]), json.dumps([p[0] for p, d in TABLE.items() if d[0] == 'func']), json.dumps(json.dumps([p[0] for p, d in TABLE.items() if d[0] == 'func'])))


def jtext(p, v):
    """The program text of a value for the option p."""
    t, s, l = v['t'], v['s'], v['l']
    if t == 'fun':
        return BADF if tuple(l) != p else GOODF[p]
    it = [('!' if l[i] == '-' else '', l[i + 1]) for i in range(0, len(l), 2)]
    if t == 'bstr':
        return json.dumps(s + ','.join(n + x for n, x in it))
    if t == 'barr':
        return json.dumps(([s] if s else []) + [n + x for n, x in it])
    if t == 'bobj':
        return '{%s}' % ', '.join('%s:%s' % (l[i + 1], {'+': 'true', '-': 'false'}.get(l[i], '5')) for i in range(0, len(l), 2))
    return s


def obj(items, r=None):
    out, groups = [], {}
    for it in items:
        p = tuple(it['p'])
        if len(p) == 1:
            out.append('%s:%s' % (p[0], jtext(p, it['v'])))
        else:
            if p[0] not in groups:
                groups[p[0]] = []
                out.append(p[0])
            groups[p[0]].append('%s:%s' % (p[1], jtext(p, it['v'])))
    out = ['%s:{%s}' % (x, ', '.join(groups[x])) if x in groups else x for x in out]
    return '{%s}' % ', '.join(out)


def text(plan):
    r = random.Random(json.dumps(plan))
    t = PRE + 'X.A = new Interp({}); X.S = new Interp({isSafe:true});\nputs("@[-1,"+JSON.stringify([LIST(DUMP("M")), LIST(DUMP("A")), LIST(DUMP("S"))])+"]"); delete X.A; delete X.S; LAST.M = DUMP("M");\n'
    for k, e in enumerate(plan):
        o, a = e['op'], e['a']
        i = a[0]
        tgt = 'Interp' if i == 'M' else 'X.%s' % i
        if o == 'new':
            it = [dict(p=['isSafe'], v=dict(t='bool', s='true', l=[]))] if i == 'S' else [dict(p=['noConfig'], v=dict(t='bool', s='true', l=[]))] if i == 'N' else []
            t += 'OUT(%d, function() { if (X.%s) throw "there"; var n = new Interp(%s); X.%s = n; }, false);\n' % (k, i, obj(it + a[1]), i)
        elif o == 'set':
            x = obj(a[1])
            if a[2] == 'in' and i != 'M':
                t += 'OUT(%d, function() { X.%s.eval(Util.base64("%s", true)); }, false);\n' % (k, i, vf.base64s('Interp.conf(%s); 1;' % x))
            else:
                t += 'OUT(%d, function() { %s.conf(%s); }, false);\n' % (k, tgt, x)
        else:
            p, n = a[1], json.dumps('.'.join(a[1]))
            if a[2] == 'in' and i != 'M':
                t += 'OUT(%d, function() { return X.%s.eval(Util.base64("%s", true)); }, true);\n' % (
                    k, i, vf.base64s('var V = Interp.conf(%s), F = %s; return V !== null && F.indexOf("%s") >= 0 ? \'"f"\' : JSON.stringify(V);' % (n, json.dumps([q[0] for q, d in TABLE.items() if d[0] == 'func']), p[0])))
            else:
                t += 'OUT(%d, function() { return STR("%s", %s.conf(%s)); }, true);\n' % (k, p[0], tgt, n)
    return t


def norm(p, x):
    """An observed value as [text, names]."""
    if x == '':
        return '', []
    if x == 'undefined':
        return x, []
    try:
        v = json.loads(x)
    except ValueError:
        return x, []
    if TABLE.get(tuple(p), ('',))[0].startswith('bitset') and isinstance(v, list):
        return '', v
    return ('f' if x == '"f"' else json.dumps(v)), []


def fn(lst):
    q = [[k.split('.')] + list(norm(k.split('.'), v)) for k, v in lst]
    return q + [[['retValue'], 'null', []]]


class Gen:
    def __init__(self, r):
        self.r = r

    def value(self, p, k, good):
        r = self.r
        V = lambda t, s, l=[]: dict(t=t, s=s, l=list(l))
        if not good:
            c = [V('num', '5'), V('str', '"zork"'), V('bool', 'true'), V('arr', '["q"]'), V('null', 'null')]
            if k in ('int', 'uint'):
                c = [V('str', '"5"'), V('bool', 'true'), V('null', 'null'), V('num', r.choice(['3000000000', '1000000000000', '-3000000000'] if k == 'int' else ['-3', '4294967296'])), V('arr', '[5]')]
            elif k == 'bool':
                c = [V('num', '1'), V('str', '"true"'), V('null', 'null'), V('obj', '{"a": 1}')]
            elif k.startswith('bitset'):
                n = NAMES[k]
                c = [V('num', '5'), V('bool', 'true'), V('null', 'null'), V('bstr', r.choice(['', '=']), ['+', r.choice(n), '+', 'zork']), V('bstr', '=', ['+', r.choice(n), '-', r.choice(n)]),
                     V('barr', r.choice(['', '=']), ['+', r.choice(n), r.choice('+-'), 'zork']), V('bobj', '', ['+', r.choice(n[:3]), '?', r.choice(n[3:])]), V('bobj', '', ['-', 'zork', '+', n[0]])]
            elif k.startswith('enum'):
                c = [V('str', '"zork"'), V('bool', 'true'), V('arr', '["log"]'), V('null', 'null')]
            elif k in ('strkey', 'string'):
                c = [V('num', '5'), V('bool', 'true'), V('arr', '["a"]'), V('obj', '{"a": 1}')]
            elif k == 'array':
                c = [V('num', '5'), V('bool', 'true'), V('str', '"a"'), V('obj', '{"a": 1}')]
            elif k == 'obj':
                c = [V('num', '5'), V('bool', 'true'), V('str', '"a"')]
            elif k == 'func':
                c = [V('num', '5'), V('str', '"a"'), V('fun', 'f', ['bad'])]
            return r.choice(c)
        if k == 'bool':
            return V('bool', r.choice(['true', 'false']))
        if k == 'int':
            return V('num', r.choice(['150', '100'] if p == ('maxDepth',) else ['150', '1000', '100'] if p[0].startswith('max') or p == ('memLeakCnt',) else ['0', '1', '5', '20', '-3', '2147483647', '-2147483648', '70000']))
        if k == 'uint':
            return V('num', r.choice(['1000', '70000', '2147483647', '3000000000', '4294967295']))
        if k in ('strkey', 'string'):
            return r.choice([V('str', json.dumps(r.choice(['', 'a', 'n1', 'some text']))), V('null', 'null')]) if r.random() < .4 else V('str', json.dumps('v%d' % r.randint(1, 9)))
        if k.startswith('enum'):
            return V('str', json.dumps(r.choice(NAMES[k])))
        if k.startswith('bitset'):
            n = NAMES[k][3:] if p == ('typeCheck',) else NAMES[k]
            if p == ('traceCall',):
                n = n[5:]
            if p == ('typeCheck',):
                n = ['nowith']
            t = r.choice(['bstr', 'barr', 'bobj'])
            s = '' if t == 'bobj' else r.choice(['', '', '='])
            names = r.sample(n, r.randint(1, min(4, len(n)))) if t == 'bobj' or s else [r.choice(n) for _ in range(r.randint(1, 4))]
            return V(t, s, sum([[r.choice('+-') if not (s and t == 'bstr') else '+', x] for x in names], []))
        if k == 'array':
            return r.choice([V('arr', '["a", "b"]'), V('arr', '[]'), V('arr', '["x"]'), V('null', 'null')])
        if k == 'obj':
            return r.choice([V('obj', '{"a": 1}'), V('obj', '{}'), V('obj', '{"k": ["b"], "z": null}'), V('null', 'null')])
        if k == 'func':
            return V('fun', 'f', p) if r.random() < .7 else V('null', 'null')
        return V('num', '1')

    SKIP = {('noError',), ('subOpts', 'compat'), ('subOpts', 'noproto'), ('subOpts', 'dblPrec'), ('debugOpts', 'forceBreak'), ('debugOpts', 'includeOnce'), ('debugOpts', 'doContinue'), ('debugOpts', 'minLevel')}

    def items(self, new, inside, main):
        r, out, seen = self.r, [], set()
        for _ in range(r.choice([1, 1, 2, 3, 4, 6])):
            z = r.random()
            if z < .04:
                p, v = r.choice([('zork',), ('logOpts', 'zork'), ('Asserts',), ('subOpts', 'asserts')]), dict(t='num', s='1', l=[])
            elif z < .09 and not new:
                p, v = (r.choice(['logOpts', 'subOpts'] + ([] if main else ['debugOpts'])),), dict(t='null', s='null', l=[]) if r.random() < .8 else dict(t='num', s='5', l=[])
            else:
                when = r.choice(['any'] * 12 + ['lock'] * 4 + ([] if new else ['init', 'ro']) + (['ro'] if new and r.random() < .2 else []))
                p = r.choice([q for q in TABLE if TABLE[q][1] == when and q not in self.SKIP])
                k = TABLE[p][0]
                if p in (('noSubInterps',), ('scriptFile',)) and (main or new):
                    continue
                v = self.value(p, k, r.random() < .93)
                if v['t'] == 'fun' and not (inside or main):
                    continue
                if new and k in ('func', 'obj'):
                    continue
                if new and p == ('udata',) or new and v['t'] == 'null' and k in ('strkey', 'string', 'array', 'obj'):
                    continue
            if p == ('assertMode',) and ('asserts',) in seen or p == ('asserts',) and ('assertMode',) in seen:
                continue
            if any(q[0] == p[0] and (len(q) != len(p) or q == p) for q in seen):
                continue
            seen.add(p)
            out.append(dict(p=list(p), v=v))
        return out

    def run(self):
        r = self.r
        evs, live = [], ['M']
        for _ in range(r.choice([8, 15, 25])):
            o = r.choice(['set'] * 6 + ['new'] * 2 + ['get'] * 2)
            f = r.choice(['in', 'out'])
            if o == 'new':
                i = r.choice('ABSN')
                evs.append(dict(op='new', a=[i, self.items(True, False, False) if r.random() < .7 else []]))
                live.append(i)
            elif o == 'set':
                i = r.choice(live)
                it = self.items(False, f == 'in', i == 'M')
                if it:
                    evs.append(dict(op='set', a=[i, it, f]))
            else:
                i = r.choice(live)
                evs.append(dict(op='get', a=[i, list(r.choice([q for q in SHOWN] + [('zork',), ('logOpts', 'zork')])), f, 0]))
        return evs


def main(c):
    def runner(plan):
        t = text(plan)
        x = c.run_script(t)
        res = {}
        for ln in x.out.decode('latin-1').splitlines():
            if ln.startswith('@['):
                try:
                    v = json.loads(ln[1:])
                except ValueError:
                    continue
                res[v[0]] = v[1]
        evs = []
        if -1 not in res:
            return [dict(op='setup', a=[[], [], []], r=1, bad=1)], t
        for k, e in enumerate(plan):
            if k not in res:
                evs.append(dict(e, r={}, bad=1))
                break
            o, v, ch = res[k]
            p = e['a'][1] if e['op'] == 'get' else ['']
            s, l = norm(p, v) if o == 'ok' and e['op'] == 'get' else ('', [])
            evs.append(dict(e, r=dict(o=o, v=s, l=l, ch=[[i, q.split('.')] + list(norm(q.split('.'), y)) for i, q, y in ch])))
        return [dict(op='setup', a=[fn(x) for x in res[-1]], r=0)] + evs, t

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('ConfMC', base + 'CONSTANTS MaxDepth = %d Emit = TRUE Big = %s' % ((3, 'TRUE') if c.thorough else (2, 'TRUE')), label='small histories of options')
    by, plans = {}, []
    for h in paths:
        if h[-1]['op'] == 'get':
            by.setdefault(json.dumps(h[:-1]), []).append(h[-1])
        else:
            plans.append(h)
    plans += [json.loads(h) + q for h, q in by.items()]
    c.rng.shuffle(plans)
    plans = plans[:c.n(10 ** 9, 12000)]
    c.conform('ConfTrace', plans, runner, label='specification transitions')
    c.conform('ConfTrace', [Gen(c.rng).run() for _ in range(c.n(450, 5000))], runner, label='random histories')
    c.require_ops(['new', 'set', 'get'])


vf.main('I04', 'model_checking', main)
