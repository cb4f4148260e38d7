#!/usr/bin/env python3
"""D02 queries: spec/Qry.tla bound to query, eval, onecolumn, exists, func, collate and import of the Sqlite module."""
import json, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

PRE = vf.PRELUDE + r'''
require('Sqlite','2');
var d = new Sqlite('q.db');
d.eval('pragma synchronous=off; pragma journal_mode=memory; create table t(k integer primary key, a, b bool);'
  + 'create table t2(k integer primary key, a, b bool); create table t3(k integer primary key, a, b)');
var P1, P2, P3, OB = {}, RR = [];
var SEL = 'select k,a,b from t where k>=$P1 order by k';
d.collate('bylen', function(db:userobj, x:string, y:string) { return y.length - x.length; });
function ROWO(o:any) { return o.k + ':' + E(o.a) + ':' + E(o.b); }
function ROWA(o:any) { return o[0] + ':' + E(o[1]) + ':' + E(o[2]); }
function ROWS(v:any, how:number, hdr:any) {
    var i, r = [];
    if (how === 0) { for (i = 0; i < v.length; i++) r.push(ROWO(v[i])); }
    else if (how === 1) {
        for (i = 0; i < v.length; i++) {
            if (hdr && i === 0) r.push(v[0].join(',') === 'k,a,b' ? 'H' : '?'+v[0]);
            else r.push(ROWA(v[i]));
        }
    } else {
        for (i = 0; i < v.length; i += 3) {
            if (hdr && i === 0) r.push(v.slice(0,2).join(',') === 'k,a,b' ? 'H' : '?'+v);
            else r.push(v[i] + ':' + E(v[i+1]) + ':' + E(v[i+2]));
        }
    }
    return r.join(';');
}
function KS(v:any) { var i, r = []; for (i = 0; i < v.length; i++) r.push(v[i].k); return r.join(','); }
function INTYPE(v:any) {
    if (v === null) return '';
    if (typeof v === 'number') return v === Math.floor(v) ? ':integer' : ':double';
    if (typeof v === 'boolean') return ':bool';
    return ':string';
}
function BIND(f:number, pre:string, mid:string, lits:any, vals:any) {  // pre with %1 %2 %3 for the parameters
    var n = [], i, o = {retChanged:true}, sql = pre, nm = ['P1','P2','P3'], x = ['x','y','z'];
    for (i = 0; i < vals.length; i++) {
        var t = '?';
        if (f === 0) t = lits[i];
        else if (f === 1) t = '$'+nm[i];
        else if (f === 2) t = (i === 1 ? '@' : ':')+nm[i];
        else if (f === 4) t = '$OB('+x[i]+')';
        else if (f === 5) t = (i === 1 ? '$RR(['+i+'])' : '$RR('+i+')');
        else if (f === 6) t = '$OB('+x[i]+INTYPE(vals[i])+')';
        else if (f === 7) t = '$'+['L1','L2','L3'][i];
        sql = sql.replace('%'+(i+1), t);
    }
    if (f === 1 || f === 2) { P1 = vals[0]; if (vals.length > 1) P2 = vals[1]; if (vals.length > 2) P3 = vals[2]; }
    else if (f === 3) o.values = vals;
    else if (f === 4 || f === 6) { OB = {}; for (i = 0; i < vals.length; i++) OB[x[i]] = vals[i]; }
    else if (f === 5) RR = vals;
    if (f === 7) return LOC(sql, vals, mid);
    var r = CALL(sql, o, mid);
    // passing a value does not change it
    if (f === 1 || f === 2) { if (E(P1) !== E(vals[0]) || (vals.length > 1 && E(P2) !== E(vals[1]))) return 'changed'; }
    if (f === 6) for (i = 0; i < vals.length; i++) if (E(OB[x[i]]) !== lits[i+3]) return 'changed '+i;
    return r;
}
function UNESC(s:string) { return s.split('\\u00e9').join('é'); }
function CALL(sql:string, o:object, mid:string) {
    if (mid === 'c') return ''+d.query(sql, o);
    delete o.retChanged;
    return KS(d.query(sql, o));
}
function LOC(sql:string, vals:any, mid:string) {
    var L1 = vals[0], L2 = null, L3 = null;
    if (vals.length > 1) L2 = vals[1];
    if (vals.length > 2) L3 = vals[2];
    if (mid === 'c') return ''+d.query(sql, {retChanged:true});
    return KS(d.query(sql));
}
var NEST = 0;
var BAD = [
    function() { d.query('select * from nosuch'); },
    function() { d.eval('create tabel x'); },
    function() { d.query('select $nosuchvar'); },
    function() { d.query('select nosuch(1)'); },
    function() { d.query('select 1', {mode:'wrong'}); },
    function() { d.query('select 1', {nosuch:1}); },
    function() { d.onecolumn('select'); },
    function() { d.exists('selct 1'); },
    function() { d.eval('insert into t3 values(1,2,3); insert into t3 values(1,2,3)'); },
    function() { d.query('select 1', {callback:function(o:any) { throw 'cbx'; }}); },
    function() { d.query('select k from t where k in (?,?)', [1]); },
];
function BADX(i:number) {
    var r = 'none';
    try { BAD[i](); } catch(e) { r = 'E'; }
    d.eval('delete from t3');
    return r;
}
function SETF(i:number) {
    if (i === 1) d.func('fx', function(v:any) { return v; });
    if (i === 2) d.func('fx', function(v:any) { return '<'+(v === null ? 'null' : v)+'>'; });
    if (i === 3) d.func('fx', function(v:any) { return null; });
}
function DYN(v:any) { if (typeof v !== 'string') return v; return ['', v, ''].join(''); }
function FX(v:any) { var i, r = []; for (i = 0; i < v.length; i++) r.push(E(v[i].x)); return r.join(';'); }
function DO(k:number, f:function) {
    var r;
    try { r = f(); } catch(e) { r = 'E'; }
    O([k, r]);
}
'''


def jsstr(chars):
    s = ''.join(chars)
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t') + '"'


def jsv(v):
    return v[1] if v[0] == 'n' else 'null' if v[0] == 'z' else jsstr(v[1]) if v[0] == 's' else ('true' if v[1] else 'false')


def sqlv(v):
    return v[1] if v[0] == 'n' else 'NULL' if v[0] == 'z' else "'" + ''.join(v[1]).replace("'", "''") + "'" if v[0] == 's' else ('1' if v[1] else '0')


def enc(v):
    return 'n' + v[1] if v[0] == 'n' else 'z' if v[0] == 'z' else 's' + ''.join(v[1]) if v[0] == 's' else 'b' + 'FT'[v[1]]


def bind(form, sql, mid, vals):
    if form == 0:
        for i, v in enumerate(vals):
            sql = sql.replace('%%%d' % (i + 1), '\x00%d' % i)
        for i, v in enumerate(vals):
            sql = sql.replace('\x00%d' % i, sqlv(v))
        return ("return ''+d.query(%s, {retChanged:true});" if mid == 'c' else 'return KS(d.query(%s));') % jsstr(sql)
    lits = [jsstr(sqlv(v)) for v in vals] + ['0'] * (3 - len(vals)) + [jsstr(enc(v)) for v in vals]
    return 'return BIND(%d, %s, "%s", [%s], [%s]);' % (form, jsstr(sql), mid, ','.join(lits), ','.join(jsv(v) for v in vals))


def js(e, rng):
    op, a = e['op'], e['a']
    if op == 'ins':
        return bind(a[0], 'insert into t values(%1,%2,%3)', 'c', [['n', str(a[1]), True], a[2], a[3]])
    if op == 'upd':
        return bind(a[0], 'update t set a=%1 where k=%2', 'c', [a[2], ['n', str(a[1]), True]])
    if op == 'del':
        return bind(a[0], 'delete from t where k=%1', 'c', [['n', str(a[1]), True]])
    if op == 'find':
        return bind(a[0], 'select k from t where a=%1 order by k', 'k', [['s', a[1]]])
    if op == 'q':
        m, f, o = a
        opt = ['mode:"%s"' % m]
        if o['hdr']:
            opt.append('headers:true')
        if o['lim']:
            opt.append('limit:%d' % o['lim'])
        dflt = '|' if m == 'list' else '\t' if m == 'tabs' else ','
        if m in ('list', 'tabs', 'csv') and (''.join(o['sep']) != dflt or rng.random() < 0.3):
            opt.append('separator:' + jsstr(o['sep']))
        if o['nul'] or rng.random() < 0.2:
            opt.append('nullvalue:' + jsstr(o['nul']))
        if m == 'insert':
            opt.append('table:"tt"')
        if rng.random() < 0.3:
            opt.append('nocache:true')
        rng.shuffle(opt)
        w = {'rows': 'ROWS(%s, 0, false)', 'arrays': 'ROWS(%%s, 1, %s)' % ('true' if o['hdr'] else 'false'),
             'array1d': 'ROWS(%%s, 2, %s)' % ('true' if o['hdr'] else 'false'), 'json': 'UNESC(%s)', 'json2': 'UNESC(%s)'}.get(m, "''+%s")
        call = 'd.query(SEL, {%s})' % ', '.join(opt)
        if m == 'rows' and rng.random() < 0.4 and not o['lim']:
            call = 'd.query(SEL)'
        if m == 'none':
            return 'P1 = %d; %s; return "";' % (f, call)
        return 'P1 = %d; return %s;' % (f, w % call)
    if op == 'col':
        return 'P1 = %d; return d.query(SEL, {mode:"column", headers:true, limit:%d});' % (a[0], a[1])
    if op == 'cb':
        return ('P1 = %d; var r = []; d.query(SEL, {limit:%d, callback:function(o:any) { r.push(o.k+":"+E(o.a)); return r.length === %d; }}); return r.join(";");'
                % (a[0], a[1], a[2]))
    if op == 'hold':
        f, v = a
        par = {1: '$P1', 2: ':P1', 3: '?', 4: '$OB(x)', 5: '$RR(0)'}[f]
        return ("var r = [], n = 0, v = DYN(%s); P1 = v; OB = {x:v}; RR = [v]; d.query('select k, '+%s+' as p from t order by k', {%scallback:function(o:any) { "
                "n++; v = null; P1 = 'other '+n+P1; OB = {x:n}; RR[0] = 'else'+n; r.push(o.k+':'+E(o.p)); }}); return r.join(';');"
                % (jsv(v), jsstr(par), 'values:RR, ' if f == 3 else ''))
    if op == 'nest':
        return ('P1 = %d; var r = []; d.query(SEL, {callback:function(o:any) { var q = []; d.query(SEL, {callback:function(i:any) { q.push(i.k); }}); '
                'r.push(o.k+"("+q.join(",")+")"); }}); return r.join(";");' % a[0])
    if op == 'one':
        return 'P1 = %d; return E(d.onecolumn("select a from t where k>=$P1 order by k"));' % a[0]
    if op == 'ex':
        return 'P1 = %d; return E(d.exists(SEL));' % a[0]
    if op == 'type':
        return 'var v = d.query("select typeof(a) as x from t order by k"), i, r = []; for (i = 0; i < v.length; i++) r.push(v[i].x); return r.join(",");'
    if op == 'bad':
        return 'return BADX(%d);' % rng.randint(0, 10)
    if op == 'cache':
        return 'd.conf({stmtCacheMax:%d}); return "ok";' % a[0]
    if op == 'conf':
        return 'd.conf(); d.conf("name"); return "ok";'
    if op == 'fi':
        return 'd.conf({forceInt:%s}); return "ok";' % ('true' if a[0] else 'false')
    if op == 'func':
        return 'SETF(%d); return "ok";' % a[0]
    if op == 'usef':
        return 'return FX(d.query("select fx(a) as x from t order by k"));'
    if op == 'coll':
        return 'return KS(d.query("select k from t where typeof(a)=\'text\' order by a collate bylen, k"));'
    if op == 'copy':
        return ('d.eval("delete from t2"); d.eval(d.query("select * from t", {mode:"insert", table:"t2"})); '
                'return ROWS(d.query("select * from t2 order by k"), 0, false);')
    if op == 'csv':
        return ('File.write("x.csv", d.query("select * from t order by k", {mode:"csv", headers:%s})); d.eval("delete from t3"); '
                'var n = d.import("t3", "x.csv", {csv:true, headers:(%s && d.exists("select * from t"))}), v = d.query("select * from t3 order by k"); d.eval("delete from t3"); '
                'return n < v.length ? "n"+n : ROWS(v, 0, false);') % ((rng.choice(['true', 'false']),) * 2)
    raise KeyError(op)


CH = ['a', 'b', 'z', '1', '<', '&', '|', '\\', ',', ';', "'", '"', '\n', '\t', ' ', 'é', 'a', 'b']
TEXTS = [list(x) for x in ('', '1', 'null', "'", '"', 'a,b', '""', 'true', 'a\nb', "it's", '\\n', '<b>', ' a', 'a ', '11', '1b', "');", '&amp;', '\\', '$P1', '?1' * 3, '||', 'a||b', 'ab', '1ab', 'abb', ', ', '1, a')]
TEXTS = [t for t in TEXTS if all(c in CH or c.isalpha() or c in 'tru(){}$?Pm>)' for c in t)]


class G:
    def __init__(s, rng):
        s.rng = rng

    def text(s):
        r = s.rng
        if r.random() < 0.3:
            return r.choice(TEXTS)
        return [r.choice(CH if not s.col else [c for c in CH if c != 'é']) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 12]))]

    def val(s):
        r = s.rng
        x = r.random()
        if x < 0.3:
            n = r.choice([0, 1, 2, 5, -3, 42, 12345, 0.5, 2.5, -0.25, 1000000])
            return ['n', ('%g' % n if n != 12345 and n != 1000000 else str(n)), n == int(n)]
        if x < 0.8:
            return ['s', s.text()]
        if x < 0.9:
            return ['z']
        return ['b', r.random() < 0.5]

    def bval(s):
        r = s.rng
        x = r.random()
        return ['b', r.random() < 0.5] if x < 0.6 else ['z'] if x < 0.8 else ['n', str(r.choice([0, 1, 2, 7])), True]

    def opts(s, m):
        r = s.rng
        sep = list(r.choice([',', ';', '|', '\t', '||', ',', ', ', 'ab']))
        if m not in ('list', 'tabs', 'csv'):
            sep = [',']
        elif r.random() < 0.4:
            sep = list('|' if m == 'list' else '\t' if m == 'tabs' else ',')
        return dict(hdr=r.random() < 0.35, lim=r.choice([0, 0, 0, 1, 2, 9]), sep=sep, nul=r.choice([[], [], ['z'], ['a', ',', '<'], list('null')]))

    def ops(s, length):
        r = s.rng
        s.col = r.random() < 0.3      # column mode counts bytes: plain characters only
        evs = []
        forms = [0, 1, 2, 3, 4, 5, 6, 7]
        K = lambda: r.randint(1, 6)
        lens = {'': 0}
        for i in range(length):
            x = r.random()
            if x < 0.25:
                evs.append(('ins', [r.choice(forms), K(), s.val(), s.bval()]))
            elif x < 0.32:
                evs.append(('upd', [r.choice(forms), K(), s.val()]))
            elif x < 0.36:
                evs.append(('del', [r.choice(forms), K()]))
            elif x < 0.62:
                m = r.choice(['rows', 'arrays', 'array1d', 'json', 'json2', 'list', 'tabs', 'csv', 'csv', 'csv', 'html', 'insert', 'none'])
                evs.append(('q', [m, r.randint(1, 6) if r.random() < 0.4 else 1, s.opts(m)]))
            elif x < 0.65 and s.col:
                evs.append(('col', [r.randint(1, 4), r.choice([0, 0, 1, 2]), None]))
            elif x < 0.68:
                evs.append(('cb', [r.randint(1, 4), r.choice([0, 0, 1, 2]), r.choice([0, 0, 1, 2])]))
            elif x < 0.695:
                evs.append(('hold', [r.randint(1, 5), s.val()]))
            elif x < 0.715:
                evs.append(('nest', [r.randint(1, 3)]))
            elif x < 0.75:
                evs.append((r.choice(['one', 'ex']), [r.randint(1, 6)]))
            elif x < 0.78:
                evs.append(('type', [0]))
            elif x < 0.81:
                evs.append(('bad', [0]))
            elif x < 0.83:
                evs.append(('cache', [r.choice([0, 1, 2, 10])]))
            elif x < 0.84:
                evs.append(('conf', [0]))
            elif x < 0.86:
                evs.append(('fi', [r.random() < 0.5]))
            elif x < 0.88:
                evs.append(('func', [r.randint(1, 3)]))
            elif x < 0.91:
                evs.append(('usef', [0]))
            elif x < 0.93:
                evs.append(('coll', [0]))
            elif x < 0.96:
                evs.append(('find', [r.choice(forms), s.text()]))
            elif x < 0.98:
                evs.append(('copy', [0]))
            else:
                evs.append(('csv', [0]))
        # column mode needs the lengths of number texts
        nums = {}
        for op, a in evs:
            for v in a:
                if isinstance(v, list) and v and v[0] == 'n':
                    nums[v[1]] = len(v[1])
        nums.update({'0': 1, '1': 1, 'true': 4, 'false': 5, '': 0})
        return [dict(op=o, a=[a[0], a[1], nums] if o == 'col' else a) for o, a in evs]


def main(c):
    def runner(p):
        seed, plan = p
        rng = __import__('random').Random(seed)
        d = c.newdir()
        text = PRE + ''.join('DO(%d, function() { %s });\n' % (k, js(e, rng)) for k, e in enumerate(plan))
        r = c.run_script(text, cwd=d)
        shutil.rmtree(d, ignore_errors=True)
        return vf.out_events(r, plan), text

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('QryMC', base + 'CONSTANTS MaxDepth = %d Emit = TRUE' % c.n(2, 3), label='every short history of two rows', workers=1)
    c.rng.shuffle(paths)
    # histories that share their beginning
    plans = [(c.rng.random(), [dict(op=e['op'], a=e['a']) for e in h]) for h in paths[:c.n(1200, 12000)]]
    c.conform('QryTrace', plans, runner, label='specification transitions')
    plans = [(c.rng.random(), G(c.rng).ops(c.rng.choice([12, 25, 40]))) for i in range(c.n(700, 9000))]
    c.conform('QryTrace', plans, runner, label='random histories')
    c.require_ops(['ins', 'upd', 'del', 'q', 'col', 'cb', 'hold', 'nest', 'one', 'ex', 'type', 'bad', 'cache', 'conf', 'fi', 'func', 'usef', 'coll', 'find', 'copy', 'csv'])


vf.main('D02', 'model_checking', main)
