"""Trees of files: the operations of spec/Fs.tla as calls of File, their results, random histories."""
import base64, os
import vf

ORDER = ['a', 'ab', 'a.c', 'b', 'b.txt', 'c', 'd', 'L', '.h', 'w', 'v', 'r1', 'r2', 'r3', 't', 'P', 'q', '.', '..']
IDX = {x: k for k, x in enumerate(ORDER)}
NAMES = ['a', 'ab', 'a.c', 'b', 'b.txt', 'c', 'd']
TOP = ['r1', 'r2', 'r3', 't']
LONG = 'L' * 90
PRE = vf.PRELUDE + r'''
var ROOT = File.pwd();
ROOT = ROOT.substr(0, ROOT.length-'/r1/r2/r3/t'.length);
function D(x) { return Util.base64(x, true); }
function B(x:any) { return ['b', ''+x]; }
function N(x:any) { return ['n', ''+x]; }
function Z(x:any) { return ['ok', '']; }
function P(x:any) { return ['p', ''+x]; }
function S(x:any) { return ['s', x !== '' ? Util.base64(x) : '']; }
function T(x:any) { return ['t', x.mode, x.nlink, x.size]; }
function G(x:any) { return ['l', x]; }
function C(x:any) { return ['c', ''+x]; }
function tail(x) { return x.replace(/^.*\//, ''); }
function DO(k:number, f:function) {
    var r;
    try { r = f(); } catch(e) { r = ['e', '']; }
    O([k, r]);
}
'''


def name(x):
    return LONG if x == 'L' else x


def text(p):
    t = '/'.join(map(name, p['c']))
    if p['abs']:
        return 'ROOT' + ('+"/%s"' % t if t else '')
    return '"%s"' % t


def data(q):
    return 'D("%s")' % base64.b64encode(bytes(int(b, 16) for b in q)).decode() if q else "''"


def tf(x):
    return 'true' if x else 'false'


def js(e):
    o, a = e['op'], e['a']
    p = text(a[0]) if a else ''
    if o == 'write':
        return 'return N(File.write(%s, %s%s));' % (p, data(a[1]), ', "%s"' % a[2] if a[2] else '')
    if o == 'read':
        return 'return S(File.read(%s));' % p
    if o == 'trunc':
        return 'return Z(File.truncate(%s, %d));' % (p, a[1])
    if o in ('copy', 'rename', 'link'):
        return 'File.%s(%s, %s%s); return Z(0);' % (o, p, text(a[1]), ', true' if a[2] else '')
    if o in ('remove', 'mkdir'):
        return 'File.%s(%s%s); return Z(0);' % (o, p, ', true' if a[1] else '')
    if o == 'chmod':
        return 'File.chmod(%s, File.isdir(%s) ? %d : %d); return Z(0);' % (p, p, 0o755 if a[2] else 0o555, (256 if a[1] else 0) | (128 if a[2] else 0))
    if o == 'temp':
        return ('var f = File.tempfile(%s+"/zzXXXXXX"); var n; if (f instanceof Channel) { n = f.filename(); f.close(); } else n = f; '
                'var ok = File.exists(n) && tail(n).length === 8; File.remove(n); return B(ok);' % p)
    if o in ('exists', 'isdir', 'isfile', 'readable', 'writable'):
        return 'return B(File.%s(%s));' % (o, p)
    if o == 'size':
        return 'var n = File.size(%s); return File.isdir(%s) ? Z(0) : N(n);' % (p, p)
    if o == 'perms':
        return 'return ["m", File.perms(%s)];' % p
    if o in ('stat', 'lstat'):
        return 'return T(File.%s(%s));' % (o, p)
    if o == 'readlink':
        return 'return P(File.readlink(%s));' % p
    if o == 'chdir':
        return 'File.chdir(%s); return Z(0);' % p
    if o == 'pwd':
        return 'return P(File.pwd());'
    if o == 'glob':
        g = a[2]
        w = []
        if a[0]['c'] or a[0]['abs']:
            w.append('dir:%s' % p)
        if g['recurse']:
            w.append('recurse:true, maxDepth:%d' % g['maxDepth'])
        for k in ('types', 'noTypes'):
            if g[k]:
                w.append('%s:"%s"' % (k, ''.join(g[k])))
        pre = ''
        if g['throw']:
            pre += 'function ff(x) { throw("no"); }; '
            w.append('filter:ff')
        elif g['filter']:
            pre += 'function ff(x) { return x != "%s"; }; ' % name(g['filter'])
            w.append('filter:ff')
        if g['dirFilter']:
            pre += 'function df(x) { return tail(x) != "%s"; }; ' % name(g['dirFilter'])
            w.append('dirFilter:df')
        if g['prefix']:
            w.append('prefix:"P"')
        if g['tails']:
            w.append('tails:true')
        if g['count']:
            w.append('retCount:true')
        if g['limit']:
            w.append('limit:%d' % g['limit'])
        pat = '/'.join(''.join(x) for x in a[1])
        how = g.get('how', '')
        conv = 'C' if g['count'] else 'G'
        if how == 're':
            pre += 'var re = /^%s$/; ' % pat.replace('.', '\\.').replace('*', '.*').replace('?', '.')
            return pre + 'return %s(File.glob(re, {%s}));' % (conv, ', '.join(w))
        if how == 'opt':
            return pre + 'return %s(File.glob({%s}));' % (conv, ', '.join(w))
        if how == 'none':
            return 'return G(File.glob());'
        if how == 'pattern':
            return pre + 'return %s(File.glob(null, {%s}));' % (conv, ', '.join(w + ['pattern:"%s"' % pat]))
        if how == 'fn':
            return pre + 'return %s(File.glob("%s", ff));' % (conv, pat)
        return pre + 'return %s(File.glob("%s", {%s}));' % (conv, pat, ', '.join(w))
    raise KeyError(o)


def script(plan):
    return PRE + ''.join('DO(%d, function() { %s });\n' % (k, js(e)) for k, e in enumerate(plan) if e['op'] != 'final')


def hexs(b):
    return ['%02x' % x for x in b]


def back(x):
    return 'L' if x == LONG else x


def comps(t, root):
    if t.startswith(root + '/') or t == root:
        t = t[len(root):]
        return ['abs'] + [back(x) for x in t.split('/') if x]
    if t.startswith('/'):
        return ['abs', t]
    return ['rel'] + [back(x) for x in t.split('/')]


def rel(t):
    while t.startswith('./'):
        t = t[2:]
    return [back(x) for x in t.split('/')]


def key(q):
    return [IDX.get(x, 99) for x in q]


def conv(r, root, e):
    k = r[0]
    if k in ('e', 'ok'):
        return [k, []]
    if k == 's':
        return ['s', hexs(base64.b64decode(r[1]))]
    if k == 'p':
        return ['p', comps(r[1], root)]
    if k == 'm':
        t = r[1]
        return ['s', [t[0], ('r' if t[1] == 'r' else '-') + ('w' if t[2] == 'w' else '-')]]
    if k == 't':
        ty = {0o100000: '-', 0o40000: 'd', 0o120000: 'l'}.get(r[1] & 0o170000, '?')
        if ty == '-':
            return ['t', [ty, str(r[2]), str(r[3])]]
        return ['t', [ty, '', '']]
    if k == 'l':
        return ['l', sorted((rel(x) for x in r[1]), key=key)]
    if k == 'c':
        return ['c', [[r[1]]]]
    return [k, [r[1]]]


def snapshot(root):
    res = []

    def visit(q, p):
        st = os.lstat(p)
        rw = ('r' if st.st_mode & 0o400 else '-') + ('w' if st.st_mode & 0o200 else '-')
        if os.path.islink(p):
            res.append(['l', q, comps(os.readlink(p), root), 'rw'])
        elif os.path.isdir(p):
            res.append(['d', q, [], rw])
            for x in os.listdir(p):
                visit(q + [back(x)], os.path.join(p, x))
        elif st.st_size > 100000:
            res.append(['f', q, ['huge', str(st.st_size)], rw])
        else:
            with open(p, 'rb') as f:
                res.append(['f', q, hexs(f.read()), rw])
    visit([], root)
    res.sort(key=lambda x: key(x[1]))
    return ['l', res]


def P(*c):
    return dict(abs=False, c=list(c))


G0 = dict(recurse=False, maxDepth=0, types=[], noTypes=[], filter='', dirFilter='', prefix=False, tails=False, throw=False, count=False, limit=0)


class Gen:
    """histories below one directory.  What is removed, renamed or overwritten always ends in one of NAMES; the directories
    of the set-up and the current directory are never moved."""

    def __init__(self, r):
        self.r = r
        self.evs = []
        self.names = r.sample(NAMES, r.choice([2, 3, 4]))
        if r.random() < 0.2:
            self.names.append('L')
        if r.random() < 0.2:
            self.names.append('.h')
        self.links = r.random() < 0.6
        self.perm = r.random() < 0.4
        self.ups = 0
        self.made = []

    def ev(self, op, *a):
        self.evs.append(dict(op=op, a=list(a)))

    def path(self, safe=False):
        r = self.r
        c = []
        if self.made and r.random() < 0.65:
            c = list(r.choice(self.made))
            if r.random() < 0.3 and len(c) < 3:
                c.append(r.choice(self.names))
            if c == ['w']:
                c.append(r.choice(self.names))
        else:
            for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
                c.append(r.choice(self.names))
        if r.random() < 0.12:
            c.insert(0, r.choice(['w', 'w', 'v']))
        if r.random() < 0.08 and '..' not in c:
            c.insert(r.randrange(len(c)), '..')
        if r.random() < 0.06:
            c.insert(r.randrange(len(c)), '.')
        if not safe and r.random() < 0.08:
            k = r.random()
            if k < 0.3 and '..' not in c:
                c.append('..')
            elif k < 0.5:
                c.append('.')
            elif k < 0.75:
                c = ['w']
            else:
                c = ['w', 'v']
        if r.random() < 0.1 and '..' not in c:
            return dict(abs=True, c=TOP + c)
        return dict(abs=False, c=c)

    def bytes(self):
        r = self.r
        return [r.choice(['61', '62', '0a', '00', 'ff']) for _ in range(r.choice([0, 1, 2, 3, 5]))]

    def note(self, p):
        if not p['abs'] and '..' not in p['c'] and len(p['c']) <= 3:
            self.made.append(p['c'])

    def pat(self):
        r = self.r
        n = list(name(r.choice(self.names)))
        k = r.random()
        if k < 0.3:
            return ['*']
        if k < 0.45:
            return n
        if k < 0.6:
            return n[:1] + ['*']
        if k < 0.75:
            return ['*'] + n[-1:]
        if k < 0.85:
            return ['?'] + n[1:]
        if k < 0.93:
            return [r.choice(['[ab]', '[cd]'])] + n[1:2] + ['*']
        return n[:1] + ['*'] + n[-1:]

    def glob(self):
        r = self.r
        g = dict(G0)
        start = P() if r.random() < 0.5 else self.path()
        pats = [self.pat()]
        if r.random() < 0.35:
            g['recurse'] = True
            g['maxDepth'] = r.choice([1, 2, 3])
        elif r.random() < 0.35:
            pats = [r.choice([['*'], ['*'], list(name(r.choice(self.names)))]) for _ in range(r.choice([1, 1, 2]))] + pats
        if r.random() < 0.25:
            g['types'] = r.choice([['f'], ['d'], ['l'], ['f', 'l'], ['d', 'f']])
            if g['recurse'] and 'd' in g['types']:
                g['types'] = ['f']
        elif r.random() < 0.1:
            g['noTypes'] = r.choice([['d'], ['l'], ['d', 'l']])
        if r.random() < 0.2:
            g['filter'] = r.choice(self.names)
        if g['recurse'] and r.random() < 0.3:
            g['dirFilter'] = r.choice(self.names)
        k = r.random()
        if k < 0.1 and (start['c'] or start['abs']):
            g['prefix'] = True
        elif k < 0.25:
            g['tails'] = True
        elif k < 0.35:
            g['count'] = True
            if r.random() < 0.6:
                g['limit'] = r.choice([1, 2, 3])
        elif k < 0.4 and not g['dirFilter']:
            g['throw'] = True
            g['filter'] = ''
        k = r.random()
        if len(pats) == 1 and k < 0.2 and '[' not in ''.join(pats[0]):
            g['how'] = 're'
        elif pats == [['*']] and k < 0.4:
            g['how'] = 'opt'
        elif k < 0.3:
            g['how'] = 'pattern'
        elif k < 0.4 and g == dict(G0, filter=g['filter']) and g['filter'] and not start['c']:
            g['how'] = 'fn'
        elif g == G0 and pats == [['*']] and not start['c']:
            g['how'] = 'none'
        self.ev('glob', start, pats, g)

    def step(self):
        r = self.r
        o = r.choice(['write'] * 5 + ['mkdir'] * 5 + ['copy'] * 3 + ['rename'] * 4 + ['remove'] * 3 + ['link'] * 4 + ['chmod'] * 2 + ['trunc', 'chdir', 'pwd', 'temp'] +
                     ['read', 'read', 'exists', 'isdir', 'isfile', 'readable', 'writable', 'size', 'perms', 'stat', 'lstat', 'lstat', 'readlink', 'readlink'] + ['glob'] * 7)
        if o == 'glob':
            return self.glob()
        if o == 'write':
            p = self.path(True)
            self.ev(o, p, self.bytes(), r.choice(['', '', '', 'w', 'a', 'a']))
            self.note(p)
        elif o == 'mkdir':
            p = self.path(True)
            self.ev(o, p, r.random() < 0.4)
            self.note(p)
            if r.random() < 0.5:
                self.note(p)
        elif o in ('copy', 'rename'):
            p, q = self.path(True), self.path(True)
            if r.random() < 0.05:
                q = p
            self.ev(o, p, q, r.random() < 0.5)
            self.note(q)
        elif o == 'link':
            hard = r.random() < 0.3
            if not self.links and not hard:
                return
            p, q = self.path(hard), self.path(True)
            if not hard and '..' in p['c']:
                if self.ups >= 2:
                    return
                self.ups += 1
            self.ev(o, p, q, hard)
            self.note(q)
        elif o == 'remove':
            self.ev(o, self.path(True), r.random() < 0.5)
        elif o == 'chmod':
            if self.perm:
                p = self.path(True)
                self.ev(o, p, r.random() < 0.6, r.random() < 0.5)
                k = r.random()
                if k < 0.4:                   # what is done next sees it
                    q = self.path(True)
                    self.ev('copy', p, q, r.random() < 0.8)
                    self.note(q)
                elif k < 0.6 and len(p['c']) > 1 and not set(p['c']) & {'..', '.', 'w', 'v'} and not p['abs']:
                    self.ev('remove', P(*p['c'][:-1]), True)
        elif o == 'trunc':
            self.ev(o, self.path(), r.choice([0, 1, 2, 4, 7, -1]))
        elif o == 'chdir':
            self.ev(o, r.choice([P('.'), P('w'), P('w', 'v'), dict(abs=True, c=TOP), dict(abs=True, c=TOP + ['w']), dict(abs=True, c=TOP), self.path(True) if r.random() < 0.0 else P('v')]))
        elif o == 'pwd':
            self.ev(o)
        else:
            self.ev(o, self.path())

    def setup(self):
        """two directories with files in them, and links from one to the other"""
        r = self.r
        d1, d2 = r.sample(self.names + ['w'], 2)
        for d in (d1, d2):
            if d != 'w':
                self.ev('mkdir', P(d), False)
            self.made.append([d])
        for _ in range(r.choice([1, 2, 3])):
            q = [r.choice([d1, d2]), r.choice(self.names)]
            if r.random() < 0.3:
                self.ev('mkdir', P(*q), False)
                self.made.append(q)
                q = q + [r.choice(self.names)]
            self.ev('write', P(*q), self.bytes(), '')
            self.made.append(q)
        if not self.links:
            return
        for _ in range(r.choice([1, 1, 2])):
            q = [r.choice([d1, d2]), r.choice(self.names)]
            t = d1 if q[0] == d2 else d2
            if r.random() < 0.5 and self.ups < 2:
                self.ups += 1
                self.ev('link', P('..', t), P(*q), False)
            else:
                self.ev('link', dict(abs=True, c=TOP + r.choice([[t], r.choice(self.made)])), P(*q), False)
            self.made.append(q)

    def stuck(self):
        """a directory that cannot be written to, inside one that is removed"""
        r = self.r
        q = [r.choice(self.names) for _ in range(r.choice([2, 2, 3]))]
        self.ev('mkdir', P(*q), True)
        for _ in range(r.choice([1, 2])):
            k = r.choice(self.names)
            self.ev(*(('write', P(*q, k), self.bytes(), '') if r.random() < 0.7 else ('mkdir', P(*q, k), False)))
        self.ev('chmod', P(*q), True, False)
        self.ev('remove', P(*q[:r.randint(1, len(q))]), r.random() < 0.85)

    def run(self, n):
        if self.r.random() < 0.6:
            self.setup()
        while len(self.evs) < n:
            if self.perm and self.r.random() < 0.02:
                self.stuck()
            self.step()
        self.ev('final')
        return self.evs
