#!/usr/bin/env python3
"""U01 encodings, checksums, digests, encryption: spec/Enc.tla and spec/Digest.tla bound to Util and the URI functions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

PRE = r'''
var BOX = [];
function W(k:number, s:string) { File.write('o'+k, s); return 's'; }
function I(n:string) { return File.read(n); }
function DO(k:number, f:function) {
    var r;
    try { r = f(); } catch(e) { r = 'e'; }
    puts('@'+k+' '+r);
}
'''
TYPES = ['md5', 'sha1', 'sha256', 'sha3_224', 'sha3_256', 'sha3_384', 'sha3_512']
RATE = {'md5': 64, 'sha1': 64, 'sha256': 64, 'sha3_224': 144, 'sha3_256': 136, 'sha3_384': 104, 'sha3_512': 72}
UTF = ['é', '♥', 'ü', '語']


class Tx:
    """the texts of a plan: in files, or as literals where they can be"""
    def __init__(t, rng):
        t.rng, t.files = rng, {}

    def __call__(t, b):
        b = bytes(b)
        if b and all(32 <= x < 127 for x in b) and t.rng.random() < 0.5:
            return '"%s"' % b.decode().replace('\\', '\\\\').replace('"', '\\"')
        if not b and t.rng.random() < 0.5:
            return '""'
        n = 'i%d' % len(t.files)
        t.files[n] = b
        return "I('%s')" % n

    def file(t, b):
        n = 'f%d' % len(t.files)
        t.files[n] = bytes(b)
        return "'%s'" % n


def js(k, e, tx):
    o, a = e['op'], e['a']
    r = tx.rng
    if o in ('b64', 'hex'):
        return 'return W(%d, Util.%s(%s%s));' % (k, {'b64': 'base64', 'hex': 'hexStr'}[o], tx(a[0]), r.choice(['', ', false']))
    if o in ('b64d', 'hexd'):
        return 'return W(%d, Util.%s(%s, true));' % (k, {'b64d': 'base64', 'hexd': 'hexStr'}[o], tx(a[0]))
    if o in ('uri', 'urid'):
        return 'return W(%d, %scodeURI%s(%s));' % (k, 'en' if o == 'uri' else 'de', 'Component' if a[1] == 'c' else '', tx(a[0]))
    if o == 'crc':
        q, i = a
        if i == 0 and r.random() < 0.5:
            return "return 'c'+format('%%.0f', Util.crc32(%s));" % tx(q)
        return "return 'c'+format('%%.0f', Util.crc32(%s, Util.crc32(%s)));" % (tx(q[i:]), tx(q[:i]))
    if o == 'sum':
        q, t, f, i = a
        opts = []
        if t != 'sha256' or r.random() < 0.5:
            opts.append("type:'%s'" % t)
        if f == 'raw' or r.random() < 0.3:
            opts.append('noHex:' + ('true' if f == 'raw' else 'false'))
        if i:
            opts.append('file:' + tx.file(q[-i:]))
            q = q[:-i]
        return 'return W(%d, Util.hash(%s%s));' % (k, tx(q), ', {%s}' % ', '.join(opts) if opts else '')
    if o == 'enc':
        return 'var C = Util.encrypt(%s, %s); BOX.push(C); return W(%d, C);' % (tx(a[0]), tx(a[1]), k)
    if o == 'dec':
        return 'return W(%d, Util.decrypt(BOX[%d], %s));' % (k, a[0] - 1, tx(a[1]))
    if o == 'decx':
        return "return W(%d, Util.decrypt(%s, 'k'));" % (k, tx(a[0]))
    if o == 'ver':
        v = a[0]
        n = 3 if v[2] else 2 if v[1] else 1
        n = r.randint(max(n, 2), 3)
        return "return 'v'+format('%%.0f', Util.verConvert('%s') * 10000);" % '.'.join(map(str, v[:n]))
    if o == 'vers':
        v = a[0]
        return 'return W(%d, Util.verConvert(%d.%02d%02d%s));' % (k, v[0], v[1], v[2], ', %d' % a[1] if a[1] else r.choice(['', ', 0']))
    raise KeyError(o)


def gen(r, n, sums):
    evs, box = [], []
    def bs(hi=300):
        k = r.random()
        n = r.choice([1, 2, 3, 4, 5, 7, 8, 9]) if k < 0.3 else r.choice([53, 54, 55, 107, 108, 109, 161, 162, 163, 216]) if k < 0.5 else r.randint(0, hi)
        z = r.random()
        if z < 0.3:
            return [r.randrange(256) for _ in range(n)]
        if z < 0.5:
            return [r.choice([0, 255, 128, 127, 10]) for _ in range(n)]
        return [r.randrange(32, 127) for _ in range(n)]
    def text():
        t = ''
        for _ in range(r.choice([0, 1, 3, 8, 20, 60])):
            t += r.choice(UTF) if r.random() < 0.1 else chr(r.randrange(32, 127)) if r.random() < 0.5 else r.choice("-_.!~*'()%;,/?:@&=+$# aZ9\n\"\\")
        return list(t.encode())
    def esc(t):
        out = []
        for c in t:
            h = '%02x' % c
            h = ''.join(r.choice([x, x.upper()]) for x in h)
            out += list(b'%' + h.encode()) if c == 37 or r.random() < 0.3 else [c]
        return out
    while len(evs) < n:
        o = r.choice(['b64', 'b64d', 'hex', 'hexd', 'uri', 'urid', 'crc', 'enc', 'enc', 'dec', 'dec', 'decx', 'ver', 'vers'] + ['sum'] * sums)
        if o in ('b64', 'hex'):
            evs.append((o, [bs()]))
        elif o == 'b64d':
            import base64
            t = list(base64.b64encode(bytes(bs())))
            z = r.random()
            if z < 0.3:
                w = r.choice([1, 3, 4, 7, 64, 72, 76])
                t = [x for i in range(0, len(t), w) for x in t[i:i + w] + [10]]
            elif z < 0.4:
                t = [x for x in t if x != 61]
            evs.append((o, [t]))
        elif o == 'hexd':
            t = list(''.join(r.choice([x, x.upper()]) for x in bytes(bs(60)).hex()).encode())
            z = r.random()
            if t and z < 0.15:
                t[r.randrange(len(t))] = r.choice([103, 71, 47, 58, 64, 96, 32, 45])
            elif t and z < 0.25:
                t.pop()
            evs.append((o, [t]))
        elif o == 'uri':
            evs.append((o, [text(), r.choice('cu')]))
        elif o == 'urid':
            evs.append((o, [esc(text()), r.choice('cu')]))
        elif o == 'crc':
            q = bs()
            if not q:
                continue
            evs.append((o, [q, r.randint(0, len(q))]))
        elif o == 'sum':
            t = r.choice(TYPES)
            b = RATE[t]
            n2 = r.choice([0, 1, b - 9, b - 8, b - 1, b, b + 1, r.randint(0, 2 * b + 2)] + ([2 * b - 9, 2 * b - 8, 2 * b] if r.random() < 0.3 else []))
            q = [r.randrange(256) for _ in range(n2)]
            if r.random() < 0.5:
                q = [32 + x % 95 for x in q]
            evs.append((o, [q, t, r.choice(['hex', 'raw']), r.randint(1, len(q)) if q and r.random() < 0.4 else 0]))
        elif o == 'enc':
            q = bs()
            if not q:
                continue
            z = r.random()
            k = [r.randrange(33, 127) for _ in range(r.choice([1, 2, 8, 15, 16, 17, 31, 32, 32, 33, 64]))] if z < 0.8 or not box else list(r.choice(box)[1])
            box.append((q, k))
            evs.append((o, [q, k]))
        elif o == 'dec':
            if not box:
                continue
            i = r.randrange(len(box))
            k = list(box[i][1])
            if r.random() < 0.35:
                z = r.random()
                j = r.choice([0, len(k) - 1, r.randrange(len(k))])
                if z < 0.5:
                    k[j] = 33 + (k[j] - 32) % 94
                elif z < 0.75:
                    k = k + [65]
                elif len(k) > 1:
                    k = k[:-1]
            evs.append((o, [i + 1, k]))
        elif o == 'decx':
            evs.append((o, [[r.randrange(33, 127) for _ in range(r.choice([2, 3, 4, 6, 7, 8, 10, 11, 12, 30]))]]))
        elif o == 'ver':
            evs.append((o, [[r.choice([0, 1, 2, 9, 10, 11, 99]) for _ in range(3)]]))
        else:
            evs.append((o, [[r.choice([1, 2, 9, 10, 99])] + [r.choice([0, 0, 1, 9, 10, 20, 99]) for _ in range(2)], r.randrange(3)]))
    return [dict(op=x, a=y) for x, y in evs]


def main(c):
    def runner(p):
        seed, plan = p
        tx = Tx(__import__('random').Random(seed))
        text = PRE + ''.join('DO(%d, function() { %s });\n' % (k, js(k, e, tx)) for k, e in enumerate(plan))
        d = c.newdir()
        os.chmod(d, 0o777)
        for n, b in tx.files.items():
            with open(os.path.join(d, n), 'wb') as f:
                f.write(b)
        r = c.run_script(text, cwd=d)
        got = {}
        for line in r.out.decode('latin1').split('\n'):
            if line.startswith('@'):
                k, _, v = line[1:].partition(' ')
                got[int(k)] = v
        evs, box = [], []
        for k, e in enumerate(plan):
            o, a = e['op'], e['a']
            ev = dict(op=o, a=a)
            v = got.get(k)
            if v is None:
                ev['bad'] = 'no answer (rc=%s) %s' % (r.rc, r.err.decode('latin1')[:200])
                ev['r'] = ['?', []]
                evs.append(ev)
                break
            if o == 'enc':
                box.append(a)
            if v == 'e':
                ev['r'] = ['e', []]
            elif v == 's':
                p = os.path.join(d, 'o%d' % k)
                b = open(p, 'rb').read() if os.path.exists(p) else None
                if b is None:
                    ev['r'] = ['?', []]
                elif o == 'enc':
                    q = bytes(a[0])
                    ev['r'] = ['h', []] if len(q) < 3 or q not in b else ['plain', []]
                elif o == 'dec' and box[a[0] - 1][1] != a[1]:
                    q = box[a[0] - 1][0]
                    ev['r'] = ['x', []] if len(q) < 3 or list(b) != q else ['s', list(b)]
                else:
                    ev['r'] = ['s', list(b)]
            elif v.startswith('c'):
                n = int(v[1:])
                ev['r'] = ['s', [n >> 24 & 255, n >> 16 & 255, n >> 8 & 255, n & 255]] if 0 <= n < 1 << 32 else ['?', []]
            elif v.startswith('v') and v[1:].isdigit():
                n = int(v[1:])
                ev['r'] = ['s', [n // 10000, n // 100 % 100, n % 100]]
            else:
                ev['r'] = ['?', []]
            if o == 'dec' and ev['r'][0] == 'e' and box[a[0] - 1][1] != a[1]:
                ev['r'] = ['x', []]
            evs.append(ev)
        for n in os.listdir(d):
            os.unlink(os.path.join(d, n))
        os.rmdir(d)
        return evs, text + ''.join('// %s: %s\n' % (n, b.hex()) for n, b in tx.files.items())

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('EncMC', base + 'CONSTANTS MaxDepth = 2 Emit = TRUE Big = %s' % ('TRUE' if c.thorough else 'FALSE'), label='small texts')
    one = [dict(op=h[0]['op'], a=h[0]['a']) for h in paths if len(h) == 1]
    c.rng.shuffle(one)
    encs = [x for x in one if x['op'] == 'enc']
    rest = [x for x in one if x['op'] != 'enc']
    plans = [(c.rng.random(), rest[i:i + 12]) for i in range(0, len(rest), 12)]
    plans += [(c.rng.random(), [dict(op=e['op'], a=e['a']) for e in h]) for h in paths if len(h) == 2][:c.n(400, 8000)]
    c.conform('EncTrace', plans, runner, label='specification transitions')
    c.conform('EncTrace', [(c.rng.random(), gen(c.rng, 25, 0)) for _ in range(c.n(300, 4000))], runner, label='random histories')
    c.conform('EncTrace', [(c.rng.random(), gen(c.rng, 10, 14)) for _ in range(c.n(60, 900))], runner, label='digests')
    c.require_ops(['b64', 'b64d', 'hex', 'hexd', 'uri', 'urid', 'crc', 'sum', 'enc', 'dec', 'decx', 'ver', 'vers'])


vf.main('U01', 'model_checking', main)
