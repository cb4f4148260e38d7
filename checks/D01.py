#!/usr/bin/env python3
"""D01 transactions: spec/Db.tla bound to the Sqlite module on several connections to one file, with deaths of the process."""
import json, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

PRE = vf.PRELUDE + r'''
require('Sqlite','2');
var LG = [], KK = 0, CON = [], HOOK = [0,0,0,0], BUSY = [-1,-1,-1,-1];
function OPEN(i) {
    var d = new Sqlite('x.db', {onCommit:null});
    d.eval('pragma synchronous=off; pragma foreign_keys=on; pragma journal_mode=%JM%');
    d.onecolumn('select count(*) from t');
    return d;
}
function SETUP() {
    var d = new Sqlite('x.db');
    d.eval('create table if not exists t(k integer primary key, v integer not null);'
        + 'create table if not exists o(k integer primary key, p references t(k) deferrable initially deferred)');
    delete d;
}
function CODE(e) {
    e = ''+e;
    if (e.indexOf('locked')>=0) return 'L';
    if (e.indexOf('FOREIGN')>=0) return 'F';
    if (e.indexOf('NOT NULL')>=0) return 'N';
    if (e.indexOf('hookerr')>=0) return 'K';
    if (e.indexOf('constraint failed')>=0) return 'K';
    if (e.indexOf('expected 2 columns')>=0) return 'W';
    if (e.indexOf('Tx')>=0) return 'T';
    return '?'+e;
}
var VAL = "(select coalesce((select v from t where k=1),0)||','||coalesce((select v from t where k=2),0)||','||coalesce((select v from t where k=3),0)||','||(select count(*) from o)) as v";
var SEL = 'select '+VAL+', n from (select 1 as n union all select 2)';
function HOOKS(c, h) {
    if (h === 0) CON[c].conf({onCommit:null});
    else CON[c].conf({onCommit:function(db:userobj) { LG.push('h'); if (h === 3) throw 'hookerr'; return h === 2 ? 1 : 0; }});
}
function BUSYS(c, n) {
    if (n < 0) CON[c].conf({onBusy:null});
    else CON[c].conf({onBusy:function(db:userobj, tries:number) { LG.push('b'); return tries < n ? 1 : 0; }});
}
function WR(c, k, v, how) {
    var d = CON[c], r;
    if (k === 4) {
        if (v) d.eval('insert or replace into o values(1,999)'); else d.eval('delete from o');
    } else if (how === 0) d.eval(v ? 'insert or replace into t values('+k+','+v+')' : 'delete from t where k='+k);
    else if (how === 1) { if (v) d.query('insert or replace into t values(?,?)', {values:[k,v]}); else d.query('delete from t where k=$k'); }
    else { if (v) d.query('insert or replace into t values(@k,@v)', {mode:'none'}); else d.query('delete from t where k=?', [k]); }
}
var OUTCH = new Channel('stdout', 'w');
function RD(c, how) {
    var d = CON[c], r;
    if (how === 0) r = d.query(SEL)[0].v;
    else if (how === 1) r = d.onecolumn(SEL);
    else if (how === 2) r = d.query(SEL, {mode:'json', limit:1}).split('"')[3];
    else { d.exists(SEL); r = d.query(SEL, {mode:'arrays', limit:1, nocache:true})[0][0]; }
    LG.push('r'+r);
}
function ACT(a:any) {
    var c = a[2], op = a[1];
    if (op === 'throw') throw 'Tx';
    else if (op === 'kill') {
        LG.push('!'); O([KK, [LG, '!']]); OUTCH.flush();
        if (c) exit(0);
        Signal.kill(Util.getpid(), 9);
        System.sleep(1000);
    }
    else if (op === 'conf') { HOOKS(c, a[3]); BUSYS(c, a[4]); }
    else if (op === 'peek') { if (a[3]) CON[c].conf(); else CON[c].conf('timeout'); }
    else if (op === 'w') WR(c, a[3], a[4], a[5]);
    else if (op === 'x') CON[c].eval((a[4] ? 'insert or replace into t values('+a[3]+','+a[4]+')' : 'delete from t where k='+a[3])+'; insert into t values(9,null)');
    else if (op === 'imp') {
        var i, t = '';
        for (i = 0; i < a[3].length; i++) t += a[3][i][0]+'\t'+a[3][i][1]+'\n';
        if (a[4] === 1) t += '3\n';
        if (a[4] === 2) t += '3\t\n';
        File.write('imp.txt', t);
        CON[c].import('t', 'imp.txt', {conflict:'REPLACE'});
    }
    else if (op === 'r') RD(c, a[3]);
    else if (op === 'q') {
        var body = a[3], mode = a[4];
        CON[c].query(SEL, {limit:(mode === 2 ? 1 : 0), callback:function(o:any) { LG.push('q'+o.v); RUN(body); return mode === 1; }});
    }
    else if (op === 'tx') {
        var b = a[4];
        if (a[3] === 0) CON[c].transaction(function() { RUN(b); });
        else CON[c].transaction(function() { RUN(b); if (b.length > 1) return 'x'; }, ['', 'deferred', 'immediate', 'exclusive'][a[3]]);
    }
}
function RUN(l:any) {
    for (var i = 0; i < l.length; i++) {
        if (!l[i][0]) ACT(l[i]);
        else { try { ACT(l[i]); } catch(e) { LG.push('c'+CODE(e)); } }
    }
}
function DO(k:number, op:string, a:any) {
    LG = []; KK = k;
    var t = '';
    try { RUN(a[0]); } catch(e) { t = CODE(e); }
    O([k, [LG, t]]);
}
SETUP();
var II;
CON.push(0);
for (II = 1; II <= 3; II++) CON.push(OPEN(II));
'''


def js(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, list):
        return '[' + ', '.join(js(x) for x in v) + ']'
    if isinstance(v, str):
        return '"%s"' % v
    return str(v)


def dress(rng, acts):
    """add how a read or write is done, which the specification does not distinguish"""
    out = []
    for a in acts:
        a = list(a)
        if a[1] == 'w':
            a = a[:5] + [rng.randint(0, 2)]
        elif a[1] == 'r':
            a = a[:3] + [rng.randint(0, 3)]
        elif a[1] == 'peek':
            a = a[:3] + [rng.randint(0, 1)]
        elif a[1] == 'q':
            a[3] = dress(rng, a[3])
        elif a[1] == 'tx':
            a[4] = dress(rng, a[4])
        out.append(a)
    return out


def gen_acts(rng, n, depth, intx, inq, p):
    """intx: connections with open transactions; inq: with running queries"""
    out = []
    free = [c for c in range(1, p['nc'] + 1) if c not in inq]
    for _ in range(n):
        ca = rng.random() < p['catch']
        x = rng.random()
        if x < 0.3 and free:
            out.append([ca, 'w', rng.choice(free), rng.choice([1, 2, 3, 3, 4]), 0])
            out[-1][4] = rng.choice([0, 1]) if out[-1][3] == 4 else rng.choice([0, 5, 6, 7, 8])
        elif x < 0.37 and free:
            out.append([ca, 'x', rng.choice(free), rng.randint(1, 3), rng.choice([0, 5, 6])])
        elif x < 0.42 and free:
            out.append([ca, 'imp', rng.choice(free), [[rng.randint(1, 3), rng.randint(5, 9)] for _ in range(rng.randint(0, 3))], rng.choice([0, 0, 1, 2])])
        elif x < 0.57:
            out.append([ca, 'r', rng.randint(1, p['nc'])])
        elif x < 0.6:
            out.append([False, 'peek', rng.randint(1, p['nc'])])
        elif x < 0.63:
            out.append([False, 'throw'])
        elif x < 0.645 and p['kill']:
            out.append([False, 'kill', rng.randint(0, 1)])
        elif x < 0.73 and depth > 0:
            c = rng.randint(1, p['nc'])
            out.append([ca, 'q', c, gen_acts(rng, rng.randint(0, 3), depth - 1, intx, inq | {c}, p), rng.choice([0, 0, 1, 2])])
        elif depth > 0 and free:
            c = rng.choice(free)
            out.append([ca, 'tx', c, rng.choice([0, 0, 0, 1, 2, 3]), gen_acts(rng, rng.choice([0, 1, 2, 3, 4]), depth - 1, intx | {c}, inq, p)])
    return out


def gen(rng, length):
    p = dict(nc=rng.choice([1, 2, 2, 3]), catch=rng.choice([0.3, 0.6, 0.9]), kill=rng.random() < 0.4)
    evs = []
    for i in range(length):
        acts = []
        if rng.random() < 0.25:
            acts.append([False, 'conf', rng.randint(1, p['nc']), rng.choice([0, 0, 1, 2, 3]), rng.choice([-1, -1, 0, 1, 3])])
        evs.append(dict(op='run', a=[acts + gen_acts(rng, rng.randint(1, 4), rng.choice([1, 2, 3, 4]), frozenset(), frozenset(), p)]))
    return evs


def main(c):
    def runner(p):
        seed, plan = p
        rng = __import__('random').Random(seed)
        jm = rng.choice(['delete', 'truncate', 'persist', 'delete'])
        pre = PRE.replace('%JM%', jm)
        body = [dict(op='run', a=[dress(rng, e['a'][0])]) for e in plan]
        d = c.newdir()
        evs, texts, at = [], [], 0
        for _ in range(len(plan) + 1):
            text = pre + ''.join("DO(%d, 'run', %s);\n" % (k, js(body[k]['a'])) for k in range(at, len(plan)))
            texts.append(text)
            r = c.run_script(text, cwd=d)
            got = {}
            for line in r.out.decode('utf8', 'replace').splitlines():
                if line.startswith('@['):
                    try:
                        k, v = json.loads(line[1:])
                        got[k] = v
                    except ValueError:
                        pass
            died = False
            while at < len(plan) and at in got:
                evs.append(dict(op='run', a=plan[at]['a'], r=got[at]))
                at += 1
                if got[at - 1][1] == '!':
                    died = True
                    break
            if at == len(plan):
                break
            if not died:
                evs.append(dict(op='run', a=plan[at]['a'], r=['?'], bad=(r.err.decode('utf8', 'replace')[-300:] or 'rc %s' % r.rc)))
                break
        shutil.rmtree(d, ignore_errors=True)
        return evs, '\n//---- next process ----\n'.join(texts)

    base = 'INIT EXInit\nNEXT EXNext\nINVARIANT EXInv\nVIEW View\nACTION_CONSTRAINT EXEmit\nCHECK_DEADLOCK FALSE\n'
    paths = c.explore('DbMC', base + 'CONSTANTS MaxDepth = %d Big = %s Emit = TRUE' % ((3, 'TRUE') if c.thorough else (2, 'FALSE')),
                      label='every program of a small grammar', workers=1)
    c.rng.shuffle(paths)
    plans = [(c.rng.random(), [dict(op=e['op'], a=e['a']) for e in h] + [dict(op='run', a=[[[True, 'r', 1], [True, 'r', 2]]])]) for h in paths[:c.n(900, 12000)]]
    c.conform('DbTrace', plans, runner, label='specification transitions')
    plans = [(c.rng.random(), gen(c.rng, c.rng.choice([4, 8, 12]))) for i in range(c.n(1200, 16000))]
    c.conform('DbTrace', plans, runner, label='random programs')
    c.require_ops(['run'])


vf.main('D01', 'model_checking', main)
