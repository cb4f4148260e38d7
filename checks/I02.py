#!/usr/bin/env python3
"""I02 limits: spec/Lim.tla bound to chains of interpreters that try to go beyond their limits."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

DEPTH = dict(
    plain='function RC(n) { CNT = n; if (n < WANT) RC(n+1); return 1; } RC(1);',
    call='function RC(n) { CNT = n; if (n < WANT) RC.call(null, n+1); return 1; } RC(1);',
    apply='function RC(n) { CNT = n; if (n < WANT) RC.apply(null, [n+1]); return 1; } RC(1);',
    bind='function RC(n) { CNT = n; if (n < WANT) { var b = RC.bind(null, n+1); b(); } return 1; } RC(1);',
    new='function RC(n) { CNT = n; if (n < WANT) new RC(n+1); } new RC(1);',
    mutual='function RD(n) { CNT = n; if (n < WANT) RC(n+1); return 1; } function RC(n) { CNT = n; if (n < WANT) RD(n+1); return 1; } RC(1);',
    method='var RO = {f:function(n) { CNT = n; if (n < WANT) RO.f(n+1); return 1; }}; RO.f(1);',
    map='function RC(n) { CNT = n; if (n < WANT) [n+1].map(RC); return 1; } RC(1);',
    each='function RC(n) { CNT = n; if (n < WANT) [n+1].forEach(RC); return 1; } RC(1);',
    some='function RC(n) { CNT = n; if (n < WANT) [n+1].some(RC); return true; } RC(1);',
    sort='function RC(n) { CNT = n; if (n < WANT) [1,2].sort(function(a, b) { if (CNT === n) RC(n+1); return a-b; }); return 1; } RC(1);',
    reduce='function RC(n) { CNT = n; if (n < WANT) [n,n].reduce(function(a, b) { return RC(n+1); }); return 1; } RC(1);',
    eval='function RC(n) { CNT = n; if (n < WANT) eval("RC("+(n+1)+");"); return 1; } RC(1);',
    replace='function RC(n) { CNT = n; if (n < WANT) "a".replace("a", function(m) { RC(n+1); return "b"; }); return 1; } RC(1);',
    getter='var RO = {get z() { CNT++; if (CNT < WANT) return RO.z; return 1; }}; var rv = RO.z;',
    setter='var RO = {set z(v) { CNT++; if (CNT < WANT) RO.z = v; }}; RO.z = 1;',
    trys='function RC(n) { CNT = n; try { if (n < WANT) RC(n+1); } catch(e) { throw e; } return 1; } RC(1);',
    alias='Interp.alias("RA", function(n) { CNT = n; if (n < WANT) RA(n+1); return 1; }, null); RA(1);',
    reviver='function RC(n) { CNT = n; if (n < WANT) Object.keys({a:1}).filter(function(k) { RC(n+1); return true; }); return 1; } RC(1);',
)
ARR = dict(
    push='for (j = 0; j < n; j++) a.push(j);',
    pushm='for (j = 0; j+5 <= n; j += 5) a.push(1,2,3,4,5); while (j++ < n) a.push(1);',
    set='for (j = 0; j < n; j++) a[j] = j;',
    last='if (n > 0) a[n-1] = 1;',
    unshift='for (j = 0; j < n; j++) a.unshift(j);',
    splice='for (j = 0; j < n; j++) a.splice(0, 0, j);',
    splicem='for (j = 0; j+3 <= n; j += 3) a.splice(j, 0, 1, 2, 3); while (j++ < n) a.splice(0, 0, 1);',
    concat='for (j = 0; j < n; j++) a = a.concat([j]);',
    concat2='var h = n >> 1; for (j = 0; j < h; j++) a.push(j); a = a.concat(a, n % 2 === 1 ? [1] : []);',
    json='var t = "["; for (j = 0; j < n; j++) t += (j ? ",1" : "1"); a = JSON.parse(t+"]");',
    literal='var t = "["; for (j = 0; j < n; j++) t += (j ? ",1" : "1"); a = eval("return "+t+"];");',
    keys='var o = {}; for (j = 0; j < n; j++) o["k"+j] = j; a = Object.keys(o);',
    match='var t = "x"; for (j = 1; j < n; j++) t += "x"; if (n > 0) { a = t.match(/x/g); }',
    split='var t = "x"; for (j = 1; j < n; j++) t += ",x"; if (n > 0) a = t.split(",");',
    chars='var t = ""; for (j = 0; j < n; j++) t += "x"; if (n > 0) a = t.split("");',
    flat='var q = []; for (j = 0; j+3 <= n; j += 3) q.push([1,2,3]); while (j++ < n) q.push(1); a = q.flat();',
    fill='for (j = 0; j < n; j++) a.push(j); a.fill(3, 0, n+50);',
    map='for (j = 0; j < n; j++) a.push(j); a = a.map(function(x) { return 2*x; });',
    slice='for (j = 0; j < n; j++) a.push(j); a = a.slice(0);',
    args='for (j = 0; j < n; j++) a.push(j); a = (function(...) { return arguments; }).apply(null, a);',
    bound='for (j = 0; j < (n>>1); j++) a.push(j); var b = (function(...) { return arguments; }).bind.apply(function(...) { return arguments; }, [null].concat(a)); if (n % 2 === 1) a.push(1); a = b.apply(null, a);',
    nested='var o = {p:{q:[]}}; a = o.p.q; for (j = 0; j < n; j++) o.p.q.push([j]);',
    values='var o = {}; for (j = 0; j < n; j++) o["k"+j] = j; a = Object.values(o);',
)
LIB = r'''
var H = null, CNT = 0, WANT = 0, KEEP = [];
function TRY(f) { try { return ["ok", f()]; } catch(e) { return ["e", 0]; } }
function DEPTH(code, n) { CNT = 0; WANT = n; try { eval(code); } catch(e) { return ["e", CNT]; } return ["ok", CNT]; }
function ARR(code, n) { var a = [], j = 0, r = 'ok'; try { eval(code); } catch(e) { r = 'e'; } return [r, a.length]; }
function OBJS(n) { var j, k = 0; try { for (j = 0; j < n; j++) { if (j % 2) KEEP.push(new Channel(DIR+'/i1.jsi', 'r')); else new Channel(DIR+'/i1.jsi', 'r'); k++; } } catch(e) { return ["e", k]; } return ["ok", k]; }
function INC(p, n) { CNT = 0; WANT = n; try { if (n > 0) source(p+'/i1.jsi'); } catch(e) { return ["e", CNT]; } return ["ok", CNT]; }
function REQ(p, n) { CNT = 0; WANT = n; try { if (n > 0) require(p+'_1', 1); } catch(e) { return ["e", CNT]; } return ["ok", CNT]; }
function SPIN(n) { var j; for (j = 0; j < n; j++) ; return j; }
function RUN(d, code) { if (d > 0) { if (H === null) return '["gone",0]'; return H.call('RUN', [d-1, code], true); } return JSON.stringify(eval(code)); }
'''
PRE = vf.PRELUDE + 'var LIBT = Util.base64("%s", true);\n' % vf.base64s(LIB.strip() + '\n') + LIB


def body(op, a, k=0):
    if op == 'new':
        o = ''.join(', %s:%d' % (k, v) for k, v in a[0])
        return ('H = null; return TRY(function() { var h = new Interp({isSafe:%s, safeReadDirs:[DIR]%s}); h.eval("var LIBT = Util.base64(\'"+Util.base64(LIBT)+"\', true), DIR = \'"+DIR+"\';"); '
                'h.eval(LIBT); H = h; return 0; });') % ('true' if a[1] else 'false', o)
    if op == 'get':
        return 'return ["ok", Interp.conf("%s")];' % a[0]
    if op == 'kget':
        return 'if (H === null) return ["gone", 0]; return ["ok", H.conf("%s")];' % a[0]
    if op == 'set':
        return 'return TRY(function() { Interp.conf({%s:%d}); return 0; });' % (a[0], a[1])
    if op == 'kset':
        return 'if (H === null) return ["gone", 0]; return TRY(function() { H.conf({%s:%d}); return 0; });' % (a[0], a[1])
    if op == 'depth':
        return 'return DEPTH(%s, %d);' % (json.dumps(DEPTH[a[0]]), a[1])
    if op == 'arr':
        return 'return ARR(%s, %d);' % (json.dumps(ARR[a[0]]), a[1])
    if op == 'inc':
        return 'return INC(DIR, %d);' % a[0]
    if op == 'req':
        return 'return REQ("q%d", %d);' % (k, a[0])
    if op == 'objs':
        return 'return OBJS(%d);' % a[0]
    if op == 'spin':
        return 'return ["ok", SPIN(%d)];' % a[0]
    raise AssertionError(op)


def text(k, e):
    b = vf.base64s(body(e['op'], e['a'][1:], k))
    if e['op'] == 'spin':
        return ('var RES = null; try { RES = RUN(%d, Util.base64("%s", true)); } catch(e) { RES = null; } if (typeof RES !== "string") { RES = \'["e",0]\'; %s }\n puts("\\n@["+%d+","+RES+"]");\n'
                % (e['a'][0], b, 'H = null;' if e['a'][0] == 1 else 'RUN(%d, "H = null; return 0;");' % (e['a'][0] - 1), k))
    return 'var RES = null; try { RES = RUN(%d, Util.base64("%s", true)); } catch(e) { RES = \'["p"]\'; } puts("\\n@["+%d+","+RES+"]");\n' % (e['a'][0], b, k)


class Gen:
    """Keeps the limits roughly in mind, only so that numbers near them are chosen."""
    DEF = dict(maxDepth=200, maxArrayList=100000, maxIncDepth=50, maxInterpDepth=10, maxUserObjs=0, maxOpCnt=0)

    def __init__(self, r, ops=False):
        self.r = r
        self.evs = []
        self.ch = [dict(self.DEF, safe=False)]
        self.ops = ops

    def opts(self):
        r = self.r
        o = []
        for k, c in (('maxDepth', [30, 45, 60, 100, 150, 250]), ('maxArrayList', [60, 100, 130, 200]), ('maxIncDepth', [3, 5, 8]), ('maxInterpDepth', [1, 2, 3, 4]), ('maxUserObjs', [0, 2, 4, 7])):
            if r.random() < 0.6:
                o.append([k, r.choice(c)])
        if self.ops and r.random() < 0.8:
            o.append(['maxOpCnt', r.choice([5000, 20000, 60000])])
        r.shuffle(o)
        return o

    def step(self):
        r = self.r
        i = r.choice([len(self.ch) - 1] * 3 + list(range(len(self.ch))))
        n = self.ch[i]
        if self.ops:
            i = len(self.ch) - 1
            if len(self.ch) == 1:
                o = 'new'
            else:
                o = r.choice(['new'] + ['spin'] * 6)
        else:
            o = r.choice(['new'] * (12 if len(self.ch) < 3 else 4) + ['get'] * 3 + ['kget'] * 3 + ['set'] * 3 + ['kset'] * 3 + ['depth'] * 8 + ['arr'] * 12 + ['inc'] * 4 + ['req'] * 3 + ['objs'] * 4)
        near = lambda m, d: max(0, r.choice([m, m + 1, m + 1, m - 1, m + r.randint(2, 30), m - r.randint(2, d), m // 2, r.randint(0, m)]))
        if o == 'new':
            op = self.opts()
            safe = r.random() < 0.5
            a = [op, safe]
            self.ch = self.ch[:i + 1]
            if i + 1 <= n['maxInterpDepth']:
                k = dict(n) if n['safe'] else dict(self.DEF, maxInterpDepth=n['maxInterpDepth'], safe=safe)
                if not n['safe']:
                    k.update({x: y for x, y in op})
                self.ch.append(k)
        elif o in ('get', 'kget'):
            a = [r.choice(list(self.DEF))]
        elif o in ('set', 'kset'):
            k = r.choice(list(self.DEF))
            v = dict(maxDepth=[50, 70, 120], maxArrayList=[80, 150, 1000], maxIncDepth=[2, 4, 9], maxInterpDepth=[2, 3, 9], maxUserObjs=[3, 5, 30], maxOpCnt=[100000])[k]
            if i == 0 and o == 'set' and k in ('maxArrayList', 'maxDepth'):
                k, v = 'maxIncDepth', [4, 9]
            v = r.choice(v)
            a = [k, v]
            t = i if o == 'set' else i + 1
            if t < len(self.ch) and not self.ch[t]['safe'] and k != 'maxOpCnt':
                self.ch[t][k] = v
        elif o == 'depth':
            a = [r.choice(list(DEPTH)), near(min(200, n['maxDepth']), 25)]
            a[1] = max(1, a[1])
        elif o == 'arr':
            m = n['maxArrayList']
            a = [r.choice(list(ARR)), near(m, 50) if m < 2000 else r.choice([0, 1, 50, 300])]
        elif o in ('inc', 'req'):
            a = [min(60, near(n['maxIncDepth'], 4))]
        elif o == 'objs':
            a = [r.choice([1, 2, 3, 6])]
        else:
            m = n['maxOpCnt'] or 3000
            a = [r.choice([1, 10, m // 100, m // 60, m // 3, m, 2 * m])]
        self.evs.append(dict(op=o, a=[i] + a))
        if o == 'spin' and n['maxOpCnt']:
            self.ch = self.ch[:2]        # likely gone: start over
            if r.random() < 0.3:
                self.ch = self.ch[:1]


def main(c):
    def runner(plan):
        d = c.newdir()
        for k in range(1, 62):
            open(os.path.join(d, 'i%d.jsi' % k), 'w').write('CNT = %d;\nif (WANT > %d) source("%s/i%d.jsi");\n' % (k, k, d, k + 1))
        for k, e in enumerate(plan):
            for j in range(1, 62 if e['op'] == 'req' else 0):
                open(os.path.join(d, 'q%d_%d.jsi' % (k, j)), 'w').write('CNT = %d;\nif (WANT > %d) require("q%d_%d", 1);\nprovide("q%d_%d", 1);\n' % (j, j, k, j + 1, k, j))
        t = PRE + 'var DIR = "%s"; Interp.conf({pkgDirs:[DIR]});\n' % d + ''.join(text(k, e) for k, e in enumerate(plan))
        r = c.run_script(t)
        return vf.out_events(r, plan), t

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('LimMC', base + 'CONSTANTS MaxDepth = %d Big = %s Emit = TRUE' % ((4, 'TRUE') if c.thorough else (3, 'FALSE')), label='small histories')
    # results that are nondeterministic in the specification give several paths with the same operations
    seen = {}
    for p in paths:
        seen[json.dumps([[e['op'], e['a']] for e in p])] = p
    paths = list(seen.values())
    top = max(len(p) for p in paths)
    paths = [p for p in paths if len(p) == top]
    c.rng.shuffle(paths)
    unpad = dict(new=3, get=2, kget=2, set=3, kset=3, depth=3, arr=3, inc=2, req=2, objs=2)
    plans = [[dict(op=e['op'], a=e['a'][:unpad[e['op']]]) for e in h] for h in paths[:c.n(1200, 20000)]]
    c.conform('LimTrace', plans, runner, label='specification transitions')

    def gen(ops):
        g = Gen(c.rng, ops)
        n = c.rng.choice([10, 20, 35])
        while len(g.evs) < n:
            g.step()
        return g.evs
    c.conform('LimTrace', [gen(False) for _ in range(c.n(700, 10000))], runner, label='random histories')
    c.conform('LimTrace', [gen(True) for _ in range(c.n(150, 2000))], runner, label='operation counts')
    c.require_ops(['new', 'get', 'kget', 'set', 'kset', 'depth', 'arr', 'inc', 'req', 'objs', 'spin'])


vf.main('I02', 'model_checking', main)
