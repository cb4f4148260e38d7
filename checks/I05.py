#!/usr/bin/env python3
"""I05 levels: spec/Frames.tla bound to nested functions, evals and code run at other levels."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

PRE = vf.PRELUDE + r'''
function OUT(k, o, v, m) { puts('@['+k+','+JSON.stringify({o:o, v:v, m:m})+']'); }
function LOCS(o) { var r = [], i, n = ['x', 'y', 'z']; for (i = 0; i < 3; i++) if (typeof o[n[i]] !== 'undefined') r.push([n[i], o[n[i]]]); var q = Object.keys(o).length; return q === r.length ? r : ['extra']; }
function ZERO(a) { return a.map(function(n) { return [n, 0]; }); }
'''


class Text:
    def __init__(self, plan, r):
        self.plan, self.r, self.k, self.top = plan, r, 0, []

    def b64(self, t):
        return 'Util.base64("%s", true)' % vf.base64s(t)

    def func(self, k, q, n, name=''):
        """The text of a function that declares the names in q, and arguments for it."""
        r = self.r
        q = list(q)
        par, loc = q[:n], q[n:]
        # (names are given in the order of the text)
        t = 'function%s(%s) { %s OUT(%d, "ok", 0, []);\n%s }' % (
            ' ' + name if name else '', ', '.join(x for x, _ in par),
            'var %s;' % ', '.join('%s = %d' % (x, v) for x, v in loc) if loc and r.random() < 0.5 else ' '.join('var %s = %d;' % (x, v) for x, v in loc), k, self.body())
        return t, [str(v) for _, v in par]

    def call(self, k, kind, q, lev, np):
        r = self.r
        if kind in ('eval', 'up'):
            t = ' '.join('var %s = %d;' % (x, v) for x, v in q) + ' OUT(%d, "ok", 0, []);\n' % k + self.body()
            return 'eval(%s);\n' % self.b64(t) if kind == 'eval' else 'Interp.uplevel(%s, %d);\n' % (self.b64(t), lev)
        if kind == 'top':
            n = 'F%d' % k
            t, a = self.func(k, q, np, n)
            self.top.append(t)
            f = n
        else:
            t, a = self.func(k, q, np)
            f = '(%s)' % t
        w = r.choice(['direct', 'direct', 'call', 'apply', 'map', 'new', 'bind'])
        if w == 'map' and len(a) == 1:
            return ';[%s].map(%s);\n' % (a[0], f if kind == 'top' else t)
        if w == 'apply':
            return ';%s.apply(null, [%s]);\n' % (f, ', '.join(a))
        if w == 'call':
            return ';%s.call(%s);\n' % (f, ', '.join(['null'] + a))
        if w == 'new' and kind == 'top':
            return ';new %s(%s);\n' % (f, ', '.join(a))
        return ';%s(%s);\n' % (f, ', '.join(a))

    def guard(self, k, v, m='[]'):
        return 'try { OUT(%d, "ok", %s, %s); } catch(E) { OUT(%d, "e", 0, []); }\n' % (k, v, m, k)

    def body(self):
        t = ''
        while self.k < len(self.plan):
            k = self.k
            e = self.plan[k]
            o, a = e['op'], e['a']
            self.k += 1
            if o == 'call':
                t += self.call(k, a[0], a[1], a[2], a[3])
                if self.k <= len(self.plan) and self.k > 0 and self.ended is not None:
                    t += 'OUT(%d, "ok", 0, []);\n' % self.ended
                    self.ended = None
            elif o == 'ret':
                self.ended = k
                return t
            elif o == 'read':
                t += 'OUT(%d, "ok", typeof %s === "undefined" ? -1 : %s, []);\n' % (k, a[0], a[0])
            elif o == 'set':
                t += 'if (typeof %s !== "undefined") { %s = %d; OUT(%d, "ok", 1, []); } else OUT(%d, "ok", 0, []);\n' % (a[0], a[0], a[1], k, k)
            elif o == 'value':
                t += self.guard(k, 'Interp.value("%s"%s)' % (a[0], ', %d' % a[1] if a[1] or self.r.random() < 0.5 else ''))
            elif o == 'uread':
                t += self.guard(k, 'Interp.uplevel("return typeof %s === \'undefined\' ? -1 : %s;", %d)' % (a[0], a[0], a[1]))
            elif o == 'uset':
                t += self.guard(k, 'Interp.uplevel("if (typeof %s !== \'undefined\') { %s = %d; return 1; } return 0;", %d)' % (a[0], a[0], a[1], a[2]))
            elif o == 'udecl':
                t += self.guard(k, 'Interp.uplevel("var %s = %d; return 0;", %d)' % (a[0], a[1], a[2]))
            elif o == 'ulevel':
                t += self.guard(k, 'Interp.uplevel("return Info.level();", %d)' % a[0])
            elif o == 'level':
                t += 'OUT(%d, "ok", Info.level(), []);\n' % k
            elif o == 'info':
                t += self.guard(k, 'Info.level(%d).level' % a[0], 'ZERO(Info.level(%d).locals)' % a[0])
            elif o == 'locals':
                t += 'OUT(%d, "ok", 0, Info.level() === 1 || INGLOBAL(Info.locals()) ? [] : LOCS(Info.locals()));\n' % k
        return t

    def text(self):
        self.ended = None
        t = self.body()
        return PRE + 'function INGLOBAL(o) { return typeof o.INGLOBAL === "function"; }\n' + '\n'.join(self.top) + '\n' + t


class Gen:
    def __init__(self, r):
        self.r = r

    def run(self):
        r = self.r
        evs, st, v = [], ['main'], 0
        names = ['x', 'y', 'z'][:r.choice([1, 2, 3, 3])]
        for _ in range(r.choice([15, 30, 50])):
            v += 1
            n = r.choice(names)
            lev = r.choice([0, -1, -1, -2, 1, 1, 2, 3, r.randint(-len(st) - 1, len(st) + 1)])
            o = r.choice(['call'] * 6 + ['ret'] * 4 + ['read'] * 3 + ['set'] * 2 + ['value'] * 4 + ['uread'] * 3 + ['uset'] * 3 + ['udecl'] * 2 + ['level', 'ulevel'] + ['info'] * 2 + ['locals'] * 2)
            if o == 'ret' and len(st) == 1 or o == 'call' and len(st) >= 8:
                continue
            if o == 'call':
                k = r.choice(['top'] * 3 + ['inner'] * 3 + ['eval'] * 2 + ['up'] * 2)
                q = [[x, v * 10 + j] for j, x in enumerate(r.sample(names, r.randint(0, len(names))))]
                if k == 'up' and not (0 < lev <= len(st) or lev <= 0 and len(st) + lev >= 1):
                    lev = 0
                a = [k, q, lev if k == 'up' else 0, r.choice([0, len(q), r.randint(0, len(q))])]
                st.append(k)
            elif o == 'ret':
                a = []
                st.pop()
            elif o in ('level', 'locals'):
                a = []
            elif o in ('ulevel', 'info'):
                a = [lev]
            elif o == 'read':
                a = [n]
            elif o == 'set':
                a = [n, v]
            elif o in ('value', 'uread'):
                a = [n, lev]
            else:
                a = [n, v, lev]
            evs.append(dict(op=o, a=a))
        return evs


def main(c):
    def runner(plan):
        r = random.Random(json.dumps(plan))
        plan = plan + [dict(op='ret', a=[])] * (sum(1 if e['op'] == 'call' else -1 if e['op'] == 'ret' else 0 for e in plan))
        t = Text(plan, r).text()
        x = c.run_script(t)
        return vf.out_events(x, plan), t

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    keep = dict(call=4, ret=0, read=1, set=2, value=2, uread=2, uset=3, udecl=3, ulevel=1, level=0, info=1, locals=0)
    paths = c.explore('FramesMC', base + 'CONSTANTS MaxDepth = %d Emit = TRUE Big = %s' % ((4, 'TRUE') if c.thorough else (3, 'TRUE')), label='small call stacks')
    # operations that change nothing, asked in the same state, are performed one after the other
    by, plans = {}, []
    for h in paths:
        h = [dict(op=e['op'], a=e['a'][:keep[e['op']]]) for e in h]
        if h[-1]['op'] in ('call', 'ret', 'set', 'uset', 'udecl'):
            plans.append(h)
        else:
            by.setdefault(json.dumps(h[:-1]), []).append(h[-1])
    plans += [json.loads(h) + q for h, q in by.items()]
    c.conform('FramesTrace', plans, runner, label='specification transitions')
    c.conform('FramesTrace', [Gen(c.rng).run() for _ in range(c.n(800, 15000))], runner, label='random call stacks')
    c.require_ops(list(keep))


vf.main('I05', 'model_checking', main)
