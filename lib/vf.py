"""Common harness: builds jsish from /repo, runs generated scripts in it, and lets TLC decide
whether what was recorded is a behaviour of the TLA+ specification (see DESIGN.md)."""
import base64, fcntl, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
WORK = os.path.join(VERIF, '.work')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = min(8, os.cpu_count() or 4)
NOBODY = 65534


class MachineryError(Exception):
    pass


# --------------------------------------------------------------------------------------------- build
BUDGET = float(os.environ.get("VERIF_BUDGET", "700"))      # seconds a thorough run may use
CHUNK = 2000


def _sh(cmd, cwd, env=None, log=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if log is not None:
        log.append(p.stdout.decode('utf8', 'replace'))
    return p.returncode


def build():
    """Build jsish and libjsi.so from /repo's working tree, as /opt/vp/build.sh does, in a folder of /verif
    that git ignores.  Returns the build folder."""
    base = os.path.join(WORK, 'copy-of-repo-that-the-checks-build-in')
    os.makedirs(base, exist_ok=True)
    lock = open(os.path.join(WORK, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        env = dict(os.environ, HOME='/root', LC_ALL='C.UTF-8', CFLAGS='-MMD -MP',
                   PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
        log = []
        ex = ' '.join("--exclude='%s'" % x for x in
                      ['/.git', '/_build', '/.depend', '/make.conf', '/src/parser.h', '/src/parser.c',
                       '/src/parser.output', '/src/*.o', '/src/*.d', '/miniz/*.o', '/miniz/*.d'])
        prep = r"""set -e
rsync -rlpc --delete %s %s/ ./
sed -e 's/^WITH_EXT_WEBSOCKET=1/WITH_EXT_WEBSOCKET=0/' -e 's/^BUILDIN_\(.*\)=1/BUILDIN_\1=0/' \
    -e 's/-DJSI__WEBSOCKET=1/-DJSI__WEBSOCKET=0/' Configs/make_default.conf > make.conf.new
cmp -s make.conf.new make.conf || cp make.conf.new make.conf
rm make.conf.new
echo '-include $(wildcard src/*.d miniz/*.d)' > .depend
rm -f jsish jsish_ jsishs jsimin libjsi.a libjsi.so libjsish.so zhash.txt
MK="make CC=gcc SQLITELIB= EXTRALD=-lsqlite3"
$MK src/parser.c
$MK -j%d libjsi.so
$MK all
test -x jsish
""" % (ex, REPO, NPROC)
        if _sh(prep, base, env, log):
            raise MachineryError('build of %s failed:\n%s' % (REPO, log[-1][-3000:]))
        return base
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


# ------------------------------------------------------------------------------------------- running
class Result:
    __slots__ = ('rc', 'out', 'err', 'timeout')

    def __init__(s, rc, out, err, timeout):
        s.rc, s.out, s.err, s.timeout = rc, out, err, timeout


def base64s(t):
    return base64.b64encode(t.encode()).decode()


def tlaq(s):
    return json.dumps(s)


class Check:
    def __init__(self, pid, level, rule=None):
        self.pid, self.level = pid, level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if len(sys.argv) > 1 and sys.argv[1] in ('quick', 'thorough'):
            self.tier = sys.argv[1]
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random('%s/%d' % (pid, self.seed))
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'events_validated': 0,
                    'samples': [], 'ops': {}, 'runs': []}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.flaky = 0
        self.scratch = tempfile.mkdtemp(prefix='vf-%s-' % pid, dir='/tmp')
        os.chmod(self.scratch, 0o755)
        self.replaydir = os.path.join(VERIF, 'evidence', 'replay', pid)
        shutil.rmtree(self.replaydir, ignore_errors=True)
        self.jsish = None
        self._n = 0
        self.findings = load_findings(pid)
        self.dropuid = os.getuid() == 0

    # -- building
    def build(self):
        self.bdir = build()
        self.jsish = os.path.join(self.scratch, 'jsish')
        shutil.copy2(os.path.join(self.bdir, 'jsish'), self.jsish)
        os.chmod(self.jsish, 0o755)
        return self.jsish

    def cc(self, src, out, watched=()):
        """Compile a harness program against the library just built; the source files watched are compiled into it with
        AddressSanitizer, so that an access outside of an object ends the program."""
        d = ' '.join('-DJSI__%s' % x for x in ('MAIN=1 BASE64=1 CDATA=1 DEBUG=1 ENCRYPT=1 EVENT=1 FILESYS=1 INFO=1 LOAD=1 MATH=1 MD5=1 '
                     'MINIZ=1 READLINE=1 SHA1=1 SHA256=1 SIGNAL=1 STUBS=1 THREADS=1 ZVFS=1 MEMDEBUG=0 REGEX=0 SANITIZE=0 SOCKET=1 '
                     'SQLITE=1 WEBSOCKET=0').split())
        lib = os.path.join(self.scratch, 'libjsi.so')
        shutil.copy2(os.path.join(self.bdir, 'libjsi.so'), lib)
        os.chmod(lib, 0o755)
        o = os.path.join(self.scratch, out)
        log = []
        own = ''.join(' %s/src/%s' % (self.bdir, x) for x in watched)
        if own:
            own = ' -fsanitize=address -fno-omit-frame-pointer' + own
        if _sh('gcc -w -O1 -g %s -I%s/src -I%s/miniz -I%s -o %s %s/harness/%s%s %s -Wl,-rpath,%s -lsqlite3 -lm -ldl -lpthread' %
               (d, self.bdir, self.bdir, self.bdir, o, VERIF, src, own, lib, self.scratch), self.scratch, log=log):
            raise MachineryError('cannot build %s: %s' % (src, log[-1][-2000:]))
        os.chmod(o, 0o755)
        return o

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- running one jsish process inside its own scratch folder, as nobody
    def newdir(self, name=None):
        self._n += 1
        d = os.path.join(self.scratch, 'd%d' % self._n if name is None else name)
        os.mkdir(d)
        if self.dropuid:
            os.chown(d, NOBODY, NOBODY)
        return d

    def run(self, argv, cwd, stdin=b'', timeout=40, env=None, mem=2 << 30):
        e = {'HOME': cwd, 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC', 'PATH': '/usr/bin:/bin', 'TMPDIR': cwd}
        e.update(env or {})
        lim = '%sulimit -c 0; ulimit -f 400000; exec "$@"' % ('ulimit -v %d; ' % (mem // 1024) if mem else '')
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if self.dropuid else {}
        p = subprocess.Popen(['/bin/sh', '-c', lim, 'sh'] + argv, cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=e, start_new_session=True, **kw)
        to = False
        try:
            out, err = p.communicate(stdin, timeout=timeout)
        except subprocess.TimeoutExpired:
            to = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out, err = p.communicate()
        if not to:
            try:
                os.killpg(p.pid, signal.SIGKILL)   # whatever it left behind
            except (ProcessLookupError, PermissionError):
                pass
        return Result(p.returncode, out, err, to)

    def run_script(self, text, cwd=None, args=(), timeout=40, stdin=b'', keep=False, opts=(), env=None):
        own = cwd is None
        if own:
            cwd = self.newdir()
        f = os.path.join(cwd, 'main.jsi')
        with open(f, 'w', encoding='utf8', errors='surrogateescape') as fh:
            fh.write(text)
        r = self.run([self.jsish] + list(opts) + [f] + list(args), cwd, timeout=timeout, stdin=stdin, env=env)
        if own and not keep:
            shutil.rmtree(cwd, ignore_errors=True)
        return r

    def pmap(self, fn, items, workers=NPROC):
        with ThreadPoolExecutor(workers) as ex:
            return list(ex.map(fn, items))

    # -- TLC
    def tlc(self, module, cfg, env=None, workers=NPROC, timeout=800, heap='6g', extra=(), files=None, partial=False):
        """Run TLC on spec/<module>.tla with the given config text.  Returns its output lines."""
        self._n += 1
        d = os.path.join(self.scratch, 'tlc%d' % self._n)
        os.mkdir(d)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        for name, text in (files or {}).items():
            with open(os.path.join(d, name), 'w') as fh:
                fh.write(text)
        with open(os.path.join(d, module + '.cfg'), 'w') as fh:
            fh.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xss64m', '-Xmx' + heap, '-cp', JAR, 'tlc2.TLC', '-metadir', os.path.join(d, 'meta'),
               '-workers', str(workers), '-noGenerateSpecTE', '-config', module + '.cfg'] + list(extra) + [module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        stopped = False
        with open(os.path.join(d, 'out.txt'), 'wb') as fh:
            p = subprocess.Popen(cmd, cwd=d, stdout=fh, stderr=subprocess.STDOUT, env=e, start_new_session=True)
            try:
                p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                if not partial:
                    raise MachineryError('TLC timed out on %s' % module)
                stopped = True
        with open(os.path.join(d, 'out.txt'), 'rb') as fh:
            out = fh.read().decode('utf8', 'replace')
        shutil.rmtree(d, ignore_errors=True)
        gen = dist = 0
        mm = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', out)
        if mm:
            gen, dist = [int(x.replace(',', '')) for x in mm[-1]]
        return dict(rc=0 if stopped else p.returncode, out=out, generated=gen, distinct=dist, wall=time.time() - t, stopped=stopped)

    def explore(self, module, cfg, label=None, timeout=800, emit=True, workers=1, heap='6g'):
        """Exhaustive model checking of the specification; every transition TLC takes is printed (as JSON) and
        returned, to be run in the implementation.  The thorough tier stops a search that is not over after a third
        of the time left and goes on with what was found (TLC searches breadth first, so that is every short history)."""
        if self.thorough:
            r = self.tlc(module, cfg, timeout=max(60, 0.33 * (BUDGET - (time.time() - self.t0))), workers=workers, heap=heap, partial=True)
        else:
            r = self.tlc(module, cfg, timeout=timeout, workers=workers, heap=heap)
        over = 'Model checking completed. No error' in r['out']
        if r['rc'] != 0 or not over and (not r['stopped'] or 'Error:' in r['out']):
            raise MachineryError('TLC on %s: rc=%d\n%s' % (module, r['rc'], r['out'][-4000:]))
        self.cov['states'] += r['distinct']
        self.cov['transitions'] += r['generated']
        self.cov['runs'].append(dict(kind='model-check', module=module, label=label, generated=r['generated'],
                                     distinct=r['distinct'], complete=over, wall_s=round(r['wall'], 1)))
        return emitted(r['out'], 'HIST', 60000 if self.thorough else None, self.rng) if emit else r

    def validate(self, module, traces, cfg_extra='', label=None, timeout=800, workers=NPROC, heap='8g', count=True):
        """traces: list of lists of events.  Returns {index: (event number, allowed)} of those TLC rejects."""
        if not traces:
            return {}
        self._n += 1
        f = os.path.join(self.scratch, 'traces%d.ndjson' % self._n)
        with open(f, 'w') as fh:
            for t in traces:
                fh.write(json.dumps({'ev': t}, ensure_ascii=True) + '\n')
        cfg = 'INIT TCInit\nNEXT TCNext\nINVARIANT TCInv\nCHECK_DEADLOCK FALSE\nCONSTANTS TDo <- DoT TInit <- InitT TInv <- Inv\n' + cfg_extra
        r = self.tlc(module, cfg, env={'TRACES': f}, timeout=timeout, workers=workers, heap=heap)
        os.unlink(f)
        if r['rc'] != 0 or 'Model checking completed. No error' not in r['out']:
            raise MachineryError('TLC on %s: rc=%d\n%s' % (module, r['rc'], r['out'][-6000:]))
        acc, rej = set(), {}
        for v in emitted(r['out'], 'ACCEPT'):
            acc.add(v[0] - 1)
        for v in emitted(r['out'], 'REJECT'):
            rej[v[0] - 1] = (v[1] - 1, v[2] if len(v) > 2 else None)
        if acc | set(rej) != set(range(len(traces))) or acc & set(rej):
            raise MachineryError('TLC on %s: %d traces, %d accepted, %d rejected\n%s' %
                                 (module, len(traces), len(acc), len(rej), r['out'][-3000:]))
        if count:
            self.cov['states'] += r['distinct']
            self.cov['transitions'] += r['generated']
            self.cov['traces_validated_against_impl'] += len(acc)
            self.cov['events_validated'] += sum(len(traces[i]) for i in acc)
            for t in traces:
                for e in t:
                    o = e.get('op', '?')
                    self.cov['ops'][o] = self.cov['ops'].get(o, 0) + 1
            self.cov['runs'].append(dict(kind='trace-validation', module=module, label=label, traces=len(traces),
                                         accepted=len(acc), rejected=len(rej), generated=r['generated'],
                                         distinct=r['distinct'], wall_s=round(r['wall'], 1)))
        return rej

    def conform(self, module, plans, runner, cfg_extra='', label=None, show=None, reruns=2, timeout=800, heap='8g'):
        """plans: things runner(plan) turns into (events, text).  Runs all, validates all with TLC, repeats what is
        rejected, reports what stays rejected.  The thorough tier works through the plans in portions until its time is
        used up."""
        if self.thorough and len(plans) > CHUNK:
            plans = list(plans)
            self.rng.shuffle(plans)
            end = time.time() + 0.55 * (BUDGET - (time.time() - self.t0))
            done = i = bad = 0
            size, last = CHUNK // 4, 0
            while i < len(plans) and not bad and (not i or time.time() + last * 1.2 < end):
                t = time.time()
                bad = self._conform(module, plans[i:i + size], runner, cfg_extra, label, reruns, timeout, heap)
                i += size
                last = time.time() - t
                if last * 4 < end - time.time() and size < CHUNK:
                    size *= 2
                    last *= 2
            self.cov['runs'].append(dict(kind='portions', label=label, plans=len(plans), run=min(i, len(plans))))
            return bad
        return self._conform(module, plans, runner, cfg_extra, label, reruns, timeout, heap)

    def _conform(self, module, plans, runner, cfg_extra, label, reruns, timeout, heap):
        t = time.time()
        res = self.pmap(runner, plans)
        tr = time.time() - t
        rej = self.validate(module, [r[0] for r in res], cfg_extra, label, timeout=timeout, heap=heap)
        self.cov['runs'][-1]['impl_wall_s'] = round(tr, 1)
        for i in range(0, len(res), max(1, len(res) // 2)):
            if len(self.cov['samples']) < 6 and i not in rej:
                self.cov['samples'].append(dict(label=label, events=res[i][0][:12]))
        if not rej:
            return 0
        todo = sorted(rej)
        todo = todo[:12]
        confirmed = {}
        for k in range(reruns):
            again = self.pmap(lambda i: runner(plans[i]), todo)
            rej2 = self.validate(module, [a[0] for a in again], cfg_extra, count=False, timeout=timeout, heap=heap)
            for j, i in enumerate(todo):
                if j in rej2 and i not in confirmed:
                    confirmed[i] = (again[j], rej2[j])
            todo = [i for i in todo if i not in confirmed]
            if not todo:
                break
        self.flaky += len(todo)
        for i, ((ev, text), (at, allowed)) in sorted(confirmed.items()):
            self.report(ev, at, allowed, text, label)
        return len(confirmed)

    def report(self, ev, at, allowed, text, label=None):
        e = ev[at] if at < len(ev) else None
        key = json.dumps(e, sort_keys=True)
        for f in self.findings:
            if re.search(f['match'], key) and (not f.get('label') or f['label'] == label):
                msg = 'KNOWN-FINDING: property=%s %s' % (self.pid, f['what'])
                if msg not in self.known:
                    self.known.append(msg)
                    print(msg)
                return
        os.makedirs(self.replaydir, exist_ok=True)
        p = os.path.join(self.replaydir, 'v%d.txt' % len(self.violations))
        with open(p, 'w', encoding='utf8', errors='surrogateescape') as fh:
            fh.write('property %s  (%s)\nrejected event %d: %s\nspecification allows: %s\n\nevents so far:\n' %
                     (self.pid, label, at, json.dumps(e), json.dumps(allowed)))
            for x in ev[:at + 1]:
                fh.write('  ' + json.dumps(x) + '\n')
            fh.write('\n---- replay ----\n' + text)
        self.violations.append(p)
        if len(self.violations) <= 5:
            print('rejected: %s   specification allows: %s' % (json.dumps(e)[:600], json.dumps(allowed)[:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            sys.stdout.flush()

    def require_ops(self, names):
        miss = [n for n in names if not self.cov['ops'].get(n)]
        if miss:
            raise MachineryError('never exercised: %s' % miss)

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        self.cov['flaky_rejections_not_reported'] = self.flaky
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        print('%s %s seed=%d: %d states, %d transitions, %d traces (%d events) validated, %d violations, %.1fs' %
              (self.pid, self.tier, self.seed, self.cov['states'], self.cov['transitions'],
               self.cov['traces_validated_against_impl'], self.cov['events_validated'], len(self.violations),
               time.time() - self.t0))
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def emitted(out, tag, most=None, rng=None):
    """Values printed by TLC as  <<"TAG", "json">>  (one per line); a random choice of them if there are more than most."""
    res = []
    seen = 0
    pre = '<<"%s", "' % tag
    lines = out.splitlines()
    for i, line in enumerate(lines):
        if line == '<< "%s",' % tag:            # TLC breaks long lines
            j = i + 1
            while not lines[j].endswith('>>'):
                j += 1
            line = pre[:-1] + ' '.join(x.strip() for x in lines[i + 1:j + 1])
            line = line[:-2].rstrip() + '>>'
        if line.startswith(pre) and line.endswith('">>'):
            s = line[len(pre):-3]
            seen += 1
            if most and seen > most:
                k = rng.randrange(seen)
                if k < most:
                    res[k] = s
                continue
            res.append(s)
    return [json.loads(json.loads('"' + s + '"')) for s in res]


def load_findings(pid):
    res = []
    f = os.path.join(VERIF, 'known-findings.jsonl')
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d['property'] == pid:
                    res.append(d)
    return res


def main(pid, level, fn):
    # signals ignored by whoever started this (nohup, a background shell) would be ignored by what runs here, too
    for n in (signal.SIGINT, signal.SIGQUIT, signal.SIGHUP):
        if signal.getsignal(n) == signal.SIG_IGN:
            signal.signal(n, signal.SIG_DFL)
    c = Check(pid, level)
    rc = 3
    try:
        c.build()
        fn(c)
        rc = c.finish()
    except MachineryError as e:
        if c.violations:
            # what was reported before stands: it was rejected twice
            rc = c.finish()
        else:
            print('CHECK-ERROR %s: %s' % (pid, e))
    finally:
        c.cleanup()
    sys.stdout.flush()
    os._exit(rc)


PRELUDE = r'''
var __o = [], __k = 0;
function E(v:any) {
    var t = typeof v;
    if (t === 'undefined') return 'u';
    if (t === 'null') return 'z';
    if (t === 'array') return 'o';
    if (t === 'number') return 'n'+v;
    if (t === 'boolean') return v?'bT':'bF';
    if (t === 'string') return 's'+v;
    if (t === 'function') return 'f';
    return 'o';
}
function O(x:any) { puts('@'+JSON.stringify(x)); }
'''


def out_events(r, plan_ops, opkey=None):
    """Merge the '@[k, result]' lines of a run into the planned operations; a run that ended early gets an END event
    that no specification accepts."""
    evs = []
    got = {}
    for line in r.out.split(b'\n'):
        if line.startswith(b'@'):
            try:
                k, v = json.loads(line[1:].decode('utf8', 'surrogateescape'))
            except Exception:
                continue
            got[k] = v
    for k, op in enumerate(plan_ops):
        if k not in got:
            why = 'HANG' if r.timeout else ('CRASH %s' % r.rc if r.rc and r.rc < 0 else 'END rc=%s' % r.rc)
            evs.append(dict(op=op['op'], a=op.get('a', []), r=['!' + why, r.err.decode('utf8', 'replace')[-300:]], bad=why))
            break
        e = dict(op)
        e['r'] = got[k]
        evs.append(e)
    return evs
