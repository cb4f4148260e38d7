#!/usr/bin/env python3
"""K01 containers of the C API: spec/Coll.tla bound to Jsi_Hash, Jsi_Tree, Jsi_Map and Jsi_List through harness/coll.c."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

KTS = {1: [0, 1, 2, 3, 4, 12], 2: [0, 1, 2, 3, 4, 12]}


def gen(rng, length, big):
    evs, maps, held, lists, ents = [], [], [], [], []      # ents: [list or 0 or -1]
    op = lambda o, *a: evs.append(dict(op=o, a=list(a)))

    def new():
        t = rng.choice([1, 2, 2, 3])
        fp = rng.randint(0, 1) if t != 3 else 1
        op('new', t, rng.choice(KTS[t]) if t != 3 else 0, rng.randint(0, 1) if t != 3 else 0, fp)
        maps.append([t, set()])
    new()
    if rng.random() < 0.4:
        new()
    nk = rng.choice([4, 8, 20, 60]) if not big else rng.choice([60, 200, 900])
    K = lambda: rng.randint(0, nk)
    kill = lambda m, ks=None: [h.__setitem__(2, False) for h in held if h[0] == m and (ks is None or h[1] in ks)]
    while len(evs) < length:
        p = rng.random()
        live = [i for i, x in enumerate(maps) if x[0]]
        if not live or (p < 0.03 and len(maps) < 8):
            new()
            continue
        i = rng.choice(live)
        t, ks = maps[i]
        m = i + 1
        if t == 3:
            mine = [x + 1 for x, l in enumerate(ents) if l == m]
            al = [x + 1 for x, l in enumerate(ents) if l >= 0 and (l == 0 or maps[l - 1][0] == 3)]
            before = rng.choice([0] + mine) if mine else 0
            if p < 0.35 or not al:
                op('lnew', m, rng.randint(1, 99), before)
                ents.append(m)
            elif p < 0.55:
                x = rng.choice(al)
                if before == x:
                    before = 0
                op('lmove', m, x, before)
                ents[x - 1] = m
            elif p < 0.65 and mine:
                x = rng.choice(mine)
                op('lpop', m, x)
                ents[x - 1] = 0
            elif p < 0.75:
                x = rng.choice(al)
                op('ldel', ents[x - 1] or m, x)
                ents[x - 1] = -1
            elif p < 0.88 and mine:
                o = rng.choice(['lpopback', 'lpopfront'])
                op(o, m)
                # order is tracked by the specification only: replay it here to know what was popped
                ents[pop(evs, m, o) - 1] = 0
            elif p < 0.93:
                op('lset', m if ents[al[0] - 1] == 0 else ents[al[0] - 1], al[0], rng.randint(1, 99))
            elif p < 0.97:
                op('clear', m)
                for x in range(len(ents)):
                    if ents[x] == m:
                        ents[x] = -1
            elif p < 0.985:
                # entries outside every list keep no link to it
                op('del', m)
                maps[i][0] = 0
                for x in range(len(ents)):
                    if ents[x] == m:
                        ents[x] = -1
            continue
        if big and p < 0.3:
            a = rng.randint(0, nk)
            b = min(nk, a + rng.randint(1, nk))
            st = rng.choice([1, 1, 2, 3, 7])
            if rng.random() < 0.65:
                op('fill', m, a, b, st, rng.randint(0, 1))
                ks.update(range(a, b + 1, st))
            else:
                op('unfill', m, a, b, st)
                ks.difference_update(range(a, b + 1, st))
                kill(m, set(range(a, b + 1, st)))
        elif p < 0.45:
            k = K()
            op('set', m, k, rng.randint(0, 99))
            ks.add(k)
        elif p < 0.5:
            k = K()
            op('enew', m, k)
            ks.add(k)
        elif p < 0.66:
            k = rng.choice(sorted(ks)) if ks and rng.random() < 0.8 else K()
            op('unset', m, k)
            ks.discard(k)
            kill(m, {k})
        elif p < 0.7:
            op(rng.choice(['get', 'find']), m, rng.choice(sorted(ks)) if ks and rng.random() < 0.6 else K())
        elif p < 0.78:
            k = rng.choice(sorted(ks)) if ks and rng.random() < 0.9 else K()
            op('hold', m, k)
            held.append([m, k, k in ks])
        elif p < 0.86:
            al = [j for j, h in enumerate(held) if h[2]]
            if al:
                j = rng.choice(al)
                o = rng.choice(['hget', 'hget', 'hset', 'hdel'])
                op(o, j + 1, *([rng.randint(0, 99)] if o == 'hset' else []))
                if o == 'hdel':
                    maps[held[j][0] - 1][1].discard(held[j][1])
                    kill(held[j][0], {held[j][1]})
        elif p < 0.88:
            n = rng.randint(0, max(0, len(ks)))
            op('sdel', m, n)
            if t == 2:
                if n < len(ks):
                    k = sorted(ks)[n]
                    ks.discard(k)
                    kill(m, {k})
            else:
                kill(m)
                ks.clear()      # which one went is not known here
        elif p < 0.91 and t == 2:
            n, act = rng.randint(0, max(0, len(ks))), rng.randint(1, 5)
            k = rng.choice(sorted(ks)) if ks and rng.random() < 0.5 else K()
            op('during', m, rng.randint(0, 2), rng.randint(0, 3), n, act, k, rng.randint(0, 99))
            if n < len(ks):
                if act == 1:
                    kill(m)
                    ks.clear()
                elif act == 2:
                    ks.add(k)
                elif act == 3:
                    ks.discard(k)
                    kill(m, {k})
        elif p < 0.965:
            op('shape' if t == 2 else 'search', m, 0)
        elif p < 0.98:
            op('clear', m)
            kill(m)
            ks.clear()
        elif p < 0.99:
            op('del', m)
            kill(m)
            maps[i][0] = 0
    for i, x in enumerate(maps):
        if x[0] in (1, 2):
            op('shape' if x[0] == 2 else 'search', i + 1, 0)
    for i, x in enumerate(maps):
        if x[0]:
            op('del', i + 1)
    return evs


def pop(evs, m, o):
    """which entry a pop takes: the list operations so far, replayed"""
    seqs, n = {}, 0
    unl = lambda x: [q.remove(x) for q in seqs.values() if x in q]
    for e in evs[:-1] + [None]:
        if e is None:
            return seqs[m][-1 if o == 'lpopback' else 0]
        a = e['a']
        ins = lambda q, x, b: q.append(x) if b == 0 else q.insert(q.index(b), x)
        if e['op'] == 'lnew':
            n += 1
            ins(seqs.setdefault(a[0], []), n, a[2])
        elif e['op'] == 'lmove':
            unl(a[1])
            ins(seqs.setdefault(a[0], []), a[1], a[2])
        elif e['op'] in ('lpop', 'ldel'):
            unl(a[1])
        elif e['op'] in ('lpopback', 'lpopfront'):
            seqs[a[0]].pop(-1 if e['op'] == 'lpopback' else 0)
        elif e['op'] in ('clear', 'del') and a[0] in seqs:
            seqs[a[0]] = []


def main(c):
    prog = c.cc('coll.c', 'coll', ('jsiHash.c', 'jsiTree.c', 'jsiUtils.c'))

    def runner(plan):
        text = ''.join('%d %s %s\n' % (k, e['op'], ' '.join(map(str, e['a']))) for k, e in enumerate(plan))
        r = c.run([prog], c.scratch, stdin=text.encode(), env={'ASAN_OPTIONS': 'detect_leaks=0:max_malloc_fill_size=4096:abort_on_error=0'}, mem=None)
        return vf.out_events(r, plan), '# stdin of harness/coll.c\n' + text

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    plans = []
    for kind, depth in ((1, c.n(5, 6)), (2, c.n(5, 6)), (3, c.n(5, 6))):
        paths = c.explore('CollMC', base + 'CONSTANTS MaxDepth = %d Emit = TRUE Kind = %d' % (depth, kind), label='small histories of kind %d' % kind)
        if kind == 3:
            top = max(len(p) for p in paths)
            paths = [p for p in paths if len(p) == top]
        c.rng.shuffle(paths)
        pre = [dict(op='new', a=[3, 0, 0, 1])] * 2
        for h in paths[:c.n(800, 8000)]:
            p = pre if kind == 3 else [dict(op='new', a=[kind, c.rng.choice(KTS[kind]), c.rng.randint(0, 1), 1])]
            end = [] if kind == 3 else [dict(op='shape' if kind == 2 else 'search', a=[1, 0])]
            plans.append([dict(x) for x in p] + [dict(op=e['op'], a=e['a']) for e in h] + end)
    c.conform('CollTrace', plans, runner, label='specification transitions')
    c.conform('CollTrace', [gen(c.rng, 80, False) for _ in range(c.n(600, 8000))], runner, label='random histories')
    full = [[dict(op='new', a=[2, kt, api, 1]), dict(op='fill', a=[1, 0, 1700, 1, 1]), dict(op='shape', a=[1, 0]), dict(op='unfill', a=[1, 0, 1700, 3]),
             dict(op='shape', a=[1, 0]), dict(op='del', a=[1])] for kt, api in ((0, 0), (2, 1))]
    c.conform('CollTrace', full, runner, label='full collections', heap='10g')
    c.conform('CollTrace', [gen(c.rng, c.rng.choice([12, 25, 40]), True) for _ in range(c.n(100, 1200))], runner, label='large collections', heap='10g')
    c.require_ops('new set fill unfill get find enew unset hold hget hset hdel clear del search sdel during shape lnew lmove lpop lpopback lpopfront ldel lset'.split())
    c.assumptions += ['keys are strings k<n> in dictionary order, interned strings, one-word keys (small, and differing only above bit 32), 4 and 12 byte structs',
                      'entry handles are used only while their entry exists']


vf.main('K01', 'model_checking', main)
