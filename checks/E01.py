#!/usr/bin/env python3
"""E01 timers: spec/Timer.tla bound to setTimeout, setInterval, clearInterval, update, Event.names and Info.event under a virtual clock."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

PRE = vf.PRELUDE + r'''
var LG = [], N = 0, IDS = [-1], SC = [], T0 = strptime(), KK = 0, w;
function A2(a:any, k:any) {
    var op = a[0], i, nm, t = '';
    if (op === 'set') {
        var n = IDS.length, sc = a[3], id;
        if (a[1]) id = setTimeout(function() { FIRE(n, sc); }, a[2]);
        else id = setInterval(function() { FIRE(n, sc); }, a[2]);
        LG.push(IDS.indexOf(id) >= 0 ? 'dup' : 's');
        IDS.push(id);
    } else if (op === 'clear' || op === 'clearself') {
        i = op === 'clear' ? a[1] : k;
        try { clearInterval(i < IDS.length ? IDS[i] : 100000+i); LG.push('c'); } catch(e) { LG.push(e === 'thrown' ? 'stale' : 'e'); }
    } else if (op === 'throw') throw 'thrown';
    else if (op === 'sleep') { if (a[1] > 0) System.sleep(a[1]); }
    else if (op === 'update') LG.push('u'+UPD(a[1]));
    else if (op === 'names') {
        nm = Event.names().map(function(x) { return IDS.indexOf(x); });
        nm = nm.sort(function(x,y) { return x-y; });
        for (i = 0; i < nm.length; i++) t += nm[i]+',';
        LG.push('n'+t);
    } else if (op === 'info') {
        try {
            i = Info.event(a[1] < IDS.length ? IDS[a[1]] : 100000);
            LG.push('i'+(i.once?'T':'F')+i.when+','+i.count+','+i.initial+(i.busy?'T':'F'));
        } catch(e) { LG.push(e === 'thrown' ? 'stale' : 'e'); }
    }
}
function UPD(u:any) {
    if (u.max < 0 && u.passes === 0 && u.sleep === 1) return u.min === 0 ? update() : update(u.min);
    return update({minTime:u.min, maxEvents:u.max, maxPasses:u.passes, sleep:u.sleep});
}
function FIRE(k:any, sc:any) {
    if (++N > 30) { O([KK, [-1, LG]]); exit(0); }
    LG.push('f'+k+'@'+(strptime()-T0));
    for (var i = 0; i < SC[sc-1].length; i++) A2(SC[sc-1][i], k);
}
function DO(k:number, op:string, a:any) {
    N = 0; LG = []; KK = k;
    var c = 0;
    if (op === 'scripts') SC = a[0];
    else if (op === 'update') c = UPD(a[0]);
    else { a.unshift(op); A2(a, 0); }
    O([k, [c, LG]]);
}
'''


def js(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, dict):
        return '{' + ', '.join('%s:%s' % (k, js(x)) for k, x in v.items()) + '}'
    if isinstance(v, list):
        return '[' + ', '.join(js(x) for x in v) + ']'
    if isinstance(v, str):
        return '"%s"' % v
    return str(v)


def upd(rng, nested=False):
    p = rng.random()
    if p < 0.35:
        return dict(min=0, max=-1, passes=0, sleep=1)
    if p < 0.6:
        return dict(min=rng.choice([1, 2, 5, 20] if not nested else [1, 3]), max=-1, passes=0, sleep=1)
    return dict(min=rng.choice([0, 4, 9, -1] if not nested else [0, 2]), max=rng.choice([-1, 0, 1, 2, 3, 5]), passes=rng.choice([1, 2, 4]), sleep=rng.choice([1, 2, 5, 0]))


def gen(rng, length):
    ms = rng.choice([[0, 1, 2, 3], [0, 1, 5, 10, 20], [1, 10, 999, 1000, 1500], [-3, 0, 2, 7]])

    def action(nsc):
        p = rng.random()
        if p < 0.2:
            return ['set', rng.random() < 0.6, rng.choice(ms), rng.randint(1, nsc)]
        if p < 0.4:
            return ['clear', rng.randint(1, 8)]
        if p < 0.5:
            return ['clearself']
        if p < 0.6:
            return ['throw']
        if p < 0.72:
            return ['sleep', rng.choice([1, 2, 5])]
        if p < 0.85:
            return ['update', upd(rng, True)]
        if p < 0.92:
            return ['names']
        return ['info', rng.randint(1, 6)]
    nsc = rng.randint(1, 6)
    scs = [[action(nsc) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))] for _ in range(nsc)]
    evs = [dict(op='scripts', a=[scs])]
    n = 0
    many = rng.random() < 0.2     # enough timers for the table to grow while it is walked
    while len(evs) < length:
        p = rng.random()
        if p < (0.65 if many and n < 24 else 0.35):
            evs.append(dict(op='set', a=[rng.random() < 0.6, rng.choice(ms), rng.randint(1, nsc)]))
            n += 1
        elif p < 0.47 and not many:
            evs.append(dict(op='clear', a=[rng.randint(1, max(1, n + 1))]))
        elif p < 0.57 and not many:
            evs.append(dict(op='sleep', a=[rng.choice([1, 3, 10, 998])]))
        elif p < 0.9:
            u = upd(rng)
            if u['min'] > 0 and rng.random() < 0.1:
                u['min'] = 400
            evs.append(dict(op='update', a=[u]))
        elif p < 0.94:
            evs.append(dict(op='names', a=[]))
        else:
            evs.append(dict(op='info', a=[rng.randint(1, n + 1)]))
    return evs


def main(c):
    so = os.path.join(c.scratch, 'fakeclock.so')
    if subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', so, os.path.join(vf.VERIF, 'harness', 'fakeclock.c')]).returncode:
        raise vf.MachineryError('cannot build the virtual clock')

    def runner(p):
        start, plan = p
        text = PRE + ''.join("DO(%d, '%s', %s);\n" % (k, e['op'], js(e['a'])) for k, e in enumerate(plan))
        r = c.run_script(text, env={'LD_PRELOAD': so, 'FAKE_START_US': str(start)})
        evs = vf.out_events(r, plan)
        for i, e in enumerate(evs):
            if e['r'][0] == -1:
                del evs[i + 1:]
        return evs, '// LD_PRELOAD=fakeclock.so FAKE_START_US=%d\n' % start + text

    def start():
        return 1700000000000000 + c.rng.choice([0, 0, 999000, 998500, 995000, 990000, 500000, c.rng.randrange(1000000)])

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    tab = [[], [['clearself'], ['set', True, 0, 1]], [['clear', 1], ['clear', 2]], [['update', dict(min=0, max=-1, passes=0, sleep=1)], ['throw']],
           [['sleep', 3], ['names'], ['info', 1]]]
    paths = c.explore('TimerMC', base + 'CONSTANTS MaxDepth = %d Big = %s Emit = TRUE' % ((4, 'TRUE') if c.thorough else (3, 'TRUE')),
                      label='small histories', workers=1)
    top = max(len(p) for p in paths)
    paths = [p for p in paths if p[-1]['op'] in ('update', 'clear') and len(p) == top]
    c.rng.shuffle(paths)
    keep = paths[:c.n(1500, 20000)]
    plans = [(start(), [dict(op='scripts', a=[tab])] + [dict(op=e['op'], a=e['a']) for e in h]) for h in keep]
    c.conform('TimerTrace', plans, runner, label='specification transitions')
    plans = [(start(), gen(c.rng, c.rng.choice([10, 20, 35]))) for i in range(c.n(1500, 20000))]
    c.conform('TimerTrace', plans, runner, label='random histories')
    c.require_ops(['set', 'clear', 'sleep', 'update', 'names', 'info'])


vf.main('E01', 'model_checking', main)
