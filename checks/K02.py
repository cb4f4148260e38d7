#!/usr/bin/env python3
"""K02 dynamic strings: spec/DStr.tla bound to Jsi_DString through harness/dstr.c."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf


def gen(rng, length):
    evs = []
    op = lambda o, *a: evs.append(dict(op=o, a=list(a)))
    nd = rng.choice([1, 1, 2, 3])
    sizes = []
    for _ in range(nd):
        kind = rng.randint(0, 3)
        n = rng.choice([1, 10, 50, 301, 8192, 9000]) if kind == 2 else rng.choice([0, 1, 198, 199, 200, 201, 400, 9000])
        op('new', kind, 97, n)
        sizes.append(n if kind == 2 else 200)
    huge = rng.random() < 0.4

    def ln(d):
        p = rng.random()
        if p < 0.35:
            return rng.randint(0, 5)
        if p < 0.65:
            return max(0, sizes[d - 1] + rng.randint(-3, 3))
        if p < 0.8 or not huge:
            return rng.randint(0, 450)
        return rng.choice([8190, 8191, 8192, 8193, 16384, rng.randint(0, 30000)])
    ch = lambda: rng.choice([97, 98, 37, 200])
    while len(evs) < length:
        d = rng.randint(1, nd)
        p = rng.random()
        if p < 0.3:
            m = rng.randint(1, 3)
            op('app', d, ch(), ln(d), ch() if m > 1 else 0, ln(d) if m > 1 else -1, ch() if m > 2 else 0, ln(d) if m > 2 else -1)
        elif p < 0.42:
            n = ln(d)
            m = rng.choice([-1, n, n, rng.randint(0, n)])
            op('applen', d, rng.choice([0, 97, 98]), n, m)
        elif p < 0.65:
            op('printf', d, ch(), ln(d), ch(), ln(d), rng.randint(0, 3))
            if evs[-1]['a'][5] == 2:
                evs[-1]['a'][2] = max(1, evs[-1]['a'][2])
        elif p < 0.72:
            op('set', d, ch(), rng.choice([-1, ln(d), ln(d)]))
        elif p < 0.84:
            op('setlen', d, ln(d))
        elif p < 0.9:
            op('free', d)
        elif p < 0.95:
            op('freedup', d)
        elif nd > 1:
            e = rng.choice([x for x in range(1, nd + 1) if x != d])
            op('copy', d, e)
    return evs


def main(c):
    prog = c.cc('dstr.c', 'dstr', ('jsiDString.c',))

    def runner(plan):
        text = ''.join('%d %s %s\n' % (k, e['op'], ' '.join(map(str, e['a']))) for k, e in enumerate(plan))
        r = c.run([prog], c.scratch, stdin=text.encode(), env={'ASAN_OPTIONS': 'detect_leaks=0:max_malloc_fill_size=4096:abort_on_error=0'}, mem=None)
        return vf.out_events(r, plan), '# stdin of harness/dstr.c\n' + text

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    plans = []
    for kind, sz in ((0, 200), (1, 200), (2, 10), (2, 8192)):
        paths = c.explore('DStrMC', base + 'CONSTANTS MaxDepth = %d Emit = TRUE Sz = %d' % (c.n(4, 5), sz), label='lengths around %d' % sz)
        c.rng.shuffle(paths)
        for h in paths[:c.n(900, 12000)]:
            plans.append([dict(op='new', a=[kind, 97, sz])] + [dict(op=e['op'], a=e['a']) for e in h])
    c.conform('DStrTrace', plans, runner, label='specification transitions')
    c.conform('DStrTrace', [gen(c.rng, 30) for _ in range(c.n(1200, 15000))], runner, label='random histories')
    c.require_ops('new app applen printf set setlen free freedup copy'.split())
    c.assumptions += ['a string is not appended to itself']


vf.main('K02', 'model_checking', main)
