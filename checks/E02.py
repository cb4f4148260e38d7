#!/usr/bin/env python3
"""E02 signals: spec/Sig.tla bound to the Signal commands and event processing."""
import json, os, signal, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

NUM = dict(USR1=10, USR2=12, TERM=15, ALRM=14, WINCH=28, URG=23)
PRE = vf.PRELUDE + r'''
var ID = [0], LG = [], ME = Util.getpid(), SO = new Channel('stdout', 'w');
function W(t) { puts(t); SO.flush(); }
function ACT(n:number, k:array) {
    W('#h'+n);
    var o = k[0];
    if (o === 'raise') Signal.kill(ME, k[1]);
    else if (o === 'rmself') clearInterval(ID[n]);
    else if (o === 'add') CB(k[1], ['log']);
    else if (o === 'ignore') Signal.ignore(k[1]);
    else if (o === 'reset') Signal.reset(k[1]);
    else if (o === 'throw') throw 'thrown';
}
function CB(g:any, k:array) {
    var n = ID.length;
    ID.push(0);
    ID[n] = Signal.callback(function() { ACT(n, k); }, g);
}
function LEFT(x:number) { return x === 0 ? 'z' : x > 550 && x <= 600 ? 'p' : '?'+x; }
function UNTIL(t:number) { while (strptime() < t) System.sleep(0.005); }
function DO(k:number, f:function) {
    var r;
    W('['+k);
    try { r = f(); } catch(e) { r = ['e']; }
    W('@'+JSON.stringify([k, r]));
}
'''
U = ('SIGALRM', 'SIGTERM', 'SIGURG', 'SIGUSR1', 'SIGUSR2', 'SIGWINCH')


def sg(r, g, quiet=False):
    f = r.choice(['"%s"', '"%s"', '"SIG%s"', 'l"%s"', 'lSIG', '#', '"#"'])
    if f == '#':
        return str(NUM[g])
    if f == '"#"':
        return '"%d"' % NUM[g]
    if f.startswith('l'):
        return '"%s"' % (('sig' if 'SIG' in f else '') + g.lower())
    return f % g


def js(e, r):
    o, a = e['op'], e['a']
    if o == 'cb':
        return 'CB(%s, %s); return ["ok"];' % (sg(r, a[0]), json.dumps(a[1]))
    if o == 'rm':
        return 'clearInterval(ID[%d]); return ["ok"];' % a[0]
    if o in ('handle', 'ignore', 'reset'):
        if r.random() < 0.3:
            return ''.join('Signal.%s(%s);' % (o, sg(r, g)) for g in a[0]) + ' return ["ok"];'
        return 'Signal.%s(%s); return ["ok"];' % (o, ', '.join(sg(r, g) for g in a[0]))
    if o == 'list':
        return ('var U = %s; return Signal.%s().filter(function(x) { return U.indexOf(x) >= 0; }).sort().map(function(x) { return x.substr(3); });'
                % (json.dumps(U), dict(H='handle', I='ignore', D='reset')[a[0]]))
    if o == 'kill':
        if a[0] == 'TERM' and r.random() < 0.3:
            return 'Signal.kill(ME); return ["ok"];'
        if r.random() < 0.2:
            return 'exec("kill -%d "+ME); return ["ok"];' % NUM[a[0]]
        return 'Signal.kill(ME, %s); return ["ok"];' % sg(r, a[0])
    if o == 'bad':
        return {'kill0': 'Signal.kill(ME, 0);', 'kill': 'Signal.kill(ME, "NOSUCH");', 'kill99': 'Signal.kill(ME, 99);', 'handle': 'Signal.handle("NOSUCH");',
                'ignore': 'Signal.ignore("SIGNOPE");', 'reset': 'Signal.reset("");', 'cb': 'Signal.callback(ACT, "NOSUCH");', 'cb99': 'Signal.callback(ACT, 99);',
                'fun': 'Signal.callback("x", "USR1");', 'rm': 'clearInterval(99999);', 'neg': 'Signal.callback(ACT, -1);'}[a[0]] + ' return ["ok"];'
    if o == 'update':
        return 'update(0); return [];'
    if o == 'alarm':
        return 'return [LEFT(Signal.alarm(%s))];' % ('600' if a[0] else '0')
    if o == 'ring':
        return 'var t = strptime(), r = LEFT(Signal.alarm(0.02)); UNTIL(t+90); return [r];'
    if o == 'wait':
        return ('var t = strptime(); Signal.alarm(1.6); UNTIL(t+1150); update(0); if (strptime()-t > 1590) W("?slow"); UNTIL(t+1690); return [];')
    raise KeyError(o)


def gen(r, length):
    g3 = r.sample(sorted(NUM), r.choice([1, 2, 2, 3]))
    evs, ncb, H, slow = [], 0, set(), 0
    order = {g: i for i, g in enumerate(sorted(NUM))}

    def kind(g):
        up = [x for x in g3 if order[x] > order[g]]
        k = r.choice(['log'] * 5 + ['rmself', 'throw', 'add', 'ignore', 'reset'] + ['raise'] * 2)
        if k == 'raise':
            return ['raise', r.choice(up)] if up else ['log']
        if k in ('add', 'ignore', 'reset'):
            return [k, r.choice(g3)]
        return [k]
    while len(evs) < length:
        g = r.choice(g3)
        o = r.choice(['cb'] * 3 + ['kill'] * 8 + ['update'] * 6 + ['rm', 'handle', 'ignore', 'reset', 'list', 'list', 'bad', 'alarm', 'ring'])
        if o == 'cb':
            if ncb >= 4:
                continue
            k = kind(g)
            ncb += 1 + (k[0] == 'add')
            evs.append((o, [g, k]))
            H.add(g)
        elif o == 'rm':
            if not ncb:
                continue
            n = sum(1 for x, y in evs if x == 'cb')
            evs.append((o, [r.randint(1, n)]))
        elif o in ('handle', 'ignore', 'reset'):
            gs = r.sample(g3, r.randint(1, len(g3)))
            evs.append((o, [gs]))
            (H.update if o != 'reset' else H.difference_update)(gs)
        elif o == 'list':
            evs.append((o, [r.choice('HID')]))
        elif o == 'kill':
            if g not in H and r.random() < 0.9:
                continue
            evs.append((o, [g]))
        elif o == 'bad':
            evs.append((o, [r.choice(['kill0', 'kill', 'kill99', 'handle', 'ignore', 'reset', 'cb', 'cb99', 'fun', 'rm', 'neg'])]))
        elif o == 'update':
            evs.append((o, [0]))
        elif o == 'alarm':
            evs.append((o, [r.random() < 0.5]))
        elif o == 'ring':
            if 'ALRM' not in g3 or 'ALRM' not in H and r.random() < 0.9:
                continue
            if r.random() < 0.06 and not slow:
                slow = 1
                o = 'wait'
            evs.append((o, [0]))
    return [dict(op=x, a=y) for x, y in evs]


def main(c):
    names = {NUM[g]: g for g in NUM}

    def runner(p):
        seed, plan = p
        rng = __import__('random').Random(seed)
        text = PRE + ''.join('DO(%d, function() { %s });\n' % (k, js(e, rng)) for k, e in enumerate(plan))
        r = c.run_script(text)
        logs, cur, slow = {}, None, None
        for line in r.out.decode('utf8', 'replace').split('\n'):
            if line.startswith('['):
                cur = int(line[1:])
                logs[cur] = []
            elif line.startswith('#') and cur is not None:
                logs[cur].append(line[1:])
            elif line.startswith('?'):
                slow = cur
        evs = vf.out_events(r, plan)
        if slow is not None:
            del evs[slow:]
        for k, e in enumerate(evs):
            if 'bad' not in e:
                if isinstance(e['r'], list):
                    e['r'] = logs.get(k, []) + e['r']
            elif r.rc is not None and -r.rc in names and not r.timeout and cur == k:
                del e['bad']
                e['r'] = logs.get(k, []) + ['dead-' + names[-r.rc]]
        return evs, text

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('SigMC', base + 'CONSTANTS MaxDepth = %d Emit = TRUE Big = %s' % ((5, 'TRUE') if c.thorough else (4, 'FALSE')), label='small histories')
    paths = [p for p in paths if p[-1]['op'] in ('update', 'kill', 'list') and len(p) > 2]
    c.rng.shuffle(paths)
    plans = [(c.rng.random(), [dict(op=e['op'], a=e['a']) for e in h]) for h in paths[:c.n(1200, 20000)]]
    c.conform('SigTrace', plans, runner, label='specification transitions')
    c.conform('SigTrace', [(c.rng.random(), gen(c.rng, c.rng.choice([10, 20, 35]))) for _ in range(c.n(900, 12000))], runner, label='random histories')
    c.require_ops(['cb', 'rm', 'handle', 'ignore', 'reset', 'list', 'kill', 'bad', 'update', 'alarm', 'ring', 'wait'])


vf.main('E02', 'model_checking', main)
