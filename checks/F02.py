#!/usr/bin/env python3
"""F02 files: spec/Fs.tla bound to the commands of File, in a tree of files in a scratch directory."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
from files import TOP, Gen, conv, script, snapshot


def main(c):
    def runner(plan):
        t = script(plan)
        d, m = c.newdir(), c.newdir()
        q = d
        for x in TOP + ['w', 'v']:
            q = os.path.join(q, x)
            os.mkdir(q)
            if c.dropuid:
                os.chown(q, vf.NOBODY, vf.NOBODY)
        f = os.path.join(m, 'main.jsi')
        with open(f, 'w') as fh:
            fh.write(t)
        r = c.run([c.jsish, f], os.path.join(d, *TOP))
        evs = vf.out_events(r, [e for e in plan if e['op'] != 'final'])
        for e in evs:
            if 'bad' not in e:
                try:
                    e['r'] = conv(e['r'], d, e)
                except (TypeError, ValueError, IndexError):
                    e['bad'] = 1
        if plan[-1]['op'] == 'final' and r.rc == 0 and not any('bad' in x for x in evs):
            evs.append(dict(plan[-1], r=snapshot(d)))
        vf.shutil.rmtree(d)
        vf.shutil.rmtree(m)
        return evs, t

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('FsMC', base + 'CONSTANTS MaxDepth = %d Big = %s Emit = TRUE' % (c.n(3, 4), 'TRUE' if c.thorough else 'FALSE'),
                      label='few names', workers=1)
    c.rng.shuffle(paths)
    plans = []
    for h in [p for p in paths if len(p) > 2][:c.n(400, 8000)]:
        plans.append([dict(op=e['op'], a=e['a']) for e in h] + [dict(op='final', a=[])])
    c.conform('FsTrace', plans, runner, label='specification transitions')
    plans = [Gen(c.rng).run(c.rng.choice([15, 30, 50, 80])) for _ in range(c.n(700, 9000))]
    c.conform('FsTrace', plans, runner, label='random histories')
    c.require_ops(['write', 'read', 'trunc', 'copy', 'rename', 'remove', 'mkdir', 'link', 'chmod', 'temp', 'exists', 'isdir', 'isfile', 'readable', 'writable',
                   'size', 'perms', 'stat', 'lstat', 'readlink', 'chdir', 'pwd', 'glob', 'final'])


vf.main('F02', 'model_checking', main)
