#!/usr/bin/env python3
"""Writes spec/Sigs.tla from the signatures the built-in functions publish (lines [name, min, max, args, flags] of Info.cmds),
as they were at the pinned commit: data of the specification, not read from the code under test."""
import json, sys
TY = ['number', 'string', 'boolean', 'array', 'object', 'function', 'regexp', 'userobj', 'null', 'undefined', 'void', 'any', 'iterobj']
SKIP = {'exit', 'System.exit', 'System.sleep', 'sleep', 'exec', 'System.exec', 'update', 'Event.update', 'System.update', 'Channel.open', 'console.input', 'assert', 'LogDebug', 'LogTrace', 'LogTest', 'LogInfo', 'LogWarn', 'LogError', 'console.assert', 'String.fromCharCode'}
# accepted calls of these have no effect but on their arguments
PURE = {'String', 'Math', 'JSON', 'Number'}
PURE1 = {'encodeURI', 'encodeURIComponent', 'decodeURI', 'decodeURIComponent', 'isFinite', 'isNaN', 'parseInt', 'parseFloat', 'quote', 'noOp', 'format',
         'Util.base64', 'Util.md5', 'Util.sha1', 'Util.crc32', 'File.join', 'File.dirname', 'File.tail', 'File.extension', 'File.rootname', 'File.normalize',
         'File.exists', 'File.isDirectory', 'File.isFile', 'Object.is', 'Object.keys', 'Array.join', 'Array.indexOf', 'Array.slice', 'Array.concat', 'Array.lastIndexOf', 'Array.includes'}
out = []
for line in open(sys.argv[1]):
    line = line.strip()
    if line.startswith('#') or not line:
        continue
    name, lo, hi, args, fl = json.loads(line)
    ns = name.split('.')[0] if '.' in name else ''
    if name in SKIP or ns in ('Sqlite', 'Socket', 'Channel', 'Interp', 'System', 'Boolean', 'RegExp', 'Function', 'Signal'):
        continue
    if fl:
        continue
    ps = []
    typed = ':' in args
    for i, p in enumerate(x.strip() for x in args.split(',')):
        if p in ('', '...'):
            continue
        nt, _, d = p.partition('=')
        _, _, t = nt.partition(':')
        ty = [x for x in t.split('|') if x]
        assert all(x in TY for x in ty), p
        # what the default is: its type is accepted too
        if d and ty:
            dt = ('null' if d == 'null' else 'boolean' if d in ('true', 'false') else 'undefined' if d in ('void', 'undefined') else 'number' if d[0] in '-0123456789' else 'string' if d[0] in "'\"" else 'any')
            if dt not in ty:
                ty.append('?' + dt)
        elif d:
            ty = ['?any']
        if not typed or (hi < 0 and i + 1 >= lo):
            ty = []
        ps.append(ty)
    if hi >= 0 and len(ps) != hi:
        print('?', name, lo, hi, args, file=sys.stderr)
    pure = ns in PURE or name in PURE1
    out.append((name, lo, hi, ps, pure))
with open(sys.argv[2], 'w') as f:
    f.write('---- MODULE Sigs ----\nEXTENDS Integers\n(* Published signatures of built-in functions: least and greatest number of arguments (-1: any), the types of each parameter\n'
            '   ({}: any; "?t": the default is of type t), and whether a call does nothing but compute.  Written by tools/sigs.py. *)\nSigs == <<\n')
    f.write(',\n'.join('  [n |-> "%s", lo |-> %d, hi |-> %d, pure |-> %s, ps |-> <<%s>>]' % (n, lo, hi, 'TRUE' if pu else 'FALSE',
            ', '.join('{' + ', '.join('"%s"' % x for x in t) + '}' for t in ps)) for n, lo, hi, ps, pu in out))
    f.write('\n>>\n====\n')
print(len(out), sum(x[4] for x in out))
