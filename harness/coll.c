/* Performs operations on the containers of the C API (Jsi_Hash, Jsi_Tree, Jsi_Map, Jsi_List), read one per line from
   stdin as "k op args...", and prints what each gave as "@[k, result]" (see spec/Coll.tla). */
#include "jsiInt.h"
#include <stdlib.h>
#define NM 64
#define NH 4096
static struct { int t, kt, api; Jsi_Hash *h; Jsi_Tree *tr; Jsi_Map *mp; Jsi_List *l; } M[NM];
static struct { int m; void *e; } H[NH];
static Jsi_ListEntry *L[NH];
static int nm, nh, nl;
static long F[100000]; static int nf;
static char *pool[5000];

static Jsi_RC freeP(Jsi_Interp *interp, void *h, void *v) { F[nf++] = (long)v; return JSI_OK; }
static Jsi_RC freeL(Jsi_Interp *interp, void *h, void *v) { F[nf++] = (long)v; return JSI_OK; }
static const void *KEY(int m, int i) {
    static char buf[8][64]; static int b;
    char *s = buf[b++ & 7];
    switch (M[m].kt) {
        case 0: sprintf(s, "k%d", i); return s;
        case 1: if (!pool[i]) { sprintf(s, "s%05d", i); pool[i] = strdup(s); } return pool[i];
        case 2: return (void*)(uintptr_t)i;
        case 3: return (void*)(((uintptr_t)i << 32) + 5);
        default:
            memset(s, 0, 64);
            { int n = M[m].kt; s[n-1] = i & 0xff; s[n-2] = (i >> 8) & 0xff; s[0] = 1; }
            return s;
    }
}
static int KT(int kt) { return kt == 3 ? JSI_KEYS_ONEWORD : kt; }
static int UNKEY(int m, const void *k) {
    switch (M[m].kt) {
        case 0: return atoi((char*)k+1);
        case 1: return atoi((char*)k+1);
        case 2: return (int)(uintptr_t)k;
        case 3: return ((uintptr_t)k & 0xffffffff) == 5 ? (int)((uintptr_t)k >> 32) : -9;
        default: { const uchar *s = (const uchar*)k; int n = M[m].kt; return s[n-1] + (s[n-2] << 8); }
    }
}
static int cmpl(const void *a, const void *b) { long x = *(long*)a, y = *(long*)b; return x < y ? -1 : x > y; }
static int cnt;
static void I(long v) { printf("%s%ld", cnt++ ? "," : "", v); }
static void *find(int m, int k) {
    if (M[m].api) return Jsi_MapEntryFind(M[m].mp, KEY(m, k));
    return M[m].t == 1 ? (void*)Jsi_HashEntryFind(M[m].h, KEY(m, k)) : (void*)Jsi_TreeEntryFind(M[m].tr, KEY(m, k));
}
static long val(int m, void *e) {
    if (M[m].api) return (long)Jsi_MapValueGet(e);
    return (long)(M[m].t == 1 ? Jsi_HashValueGet(e) : Jsi_TreeValueGet(e));
}
static int keyof(int m, void *e) {
    if (M[m].api) return UNKEY(m, Jsi_MapKeyGet(e, 0));
    return UNKEY(m, M[m].t == 1 ? Jsi_HashKeyGet(e) : Jsi_TreeKeyGet(e));
}
static void edel(int m, void *e) {
    if (M[m].api) Jsi_MapEntryDelete(e);
    else if (M[m].t == 1) Jsi_HashEntryDelete(e);
    else Jsi_TreeEntryDelete(e);
}
static void set(int m, int k, long v) {
    void *e;
    if (M[m].api) e = Jsi_MapSet(M[m].mp, KEY(m, k), (void*)v);
    else if (M[m].t == 1) e = Jsi_HashSet(M[m].h, KEY(m, k), (void*)v);
    else e = Jsi_TreeSet(M[m].tr, KEY(m, k), (void*)v);
    if (!e || keyof(m, e) != k || val(m, e) != v) I(-99);
}
static int unset(int m, int k) {
    if (M[m].api) return Jsi_MapUnset(M[m].mp, KEY(m, k));
    return M[m].t == 1 ? Jsi_HashUnset(M[m].h, KEY(m, k)) : Jsi_TreeUnset(M[m].tr, (void*)KEY(m, k));
}
static long size(int m) {
    if (M[m].t == 0) return 0;
    if (M[m].t == 3) return Jsi_ListSize(M[m].l);
    if (M[m].api) return Jsi_MapSize(M[m].mp);
    return M[m].t == 1 ? Jsi_HashSize(M[m].h) : Jsi_TreeSize(M[m].tr);
}
/* shape of a tree: nodes in preorder, numbered from 1 */
static Jsi_TreeEntry *N[100000]; static int nn;
static int num(Jsi_TreeEntry *e, Jsi_TreeEntry *par, int *bad) {
    if (!e) return 0;
    if (e->parent != par || nn > 20000) { *bad = 1; if (nn > 20000) return 0; }
    N[nn++] = e;
    int me = nn;
    num(e->right, e, bad);
    num(e->left, e, bad);
    return me;
}
static int idx(Jsi_TreeEntry *e) { int i; if (!e) return 0; for (i = 0; i < nn; i++) if (N[i] == e) return i+1; return -1; }
static Jsi_RC walkP(Jsi_Tree *t, Jsi_TreeEntry *e, void *d) { I(keyof(*(int*)d, e)); return JSI_OK; }
static void search(int m, int order, int del) {
    int n = 0; void *e;
    if (M[m].api) {
        Jsi_MapSearch s;
        for (e = Jsi_MapSearchFirst(M[m].mp, &s, order); e && n < 20000; e = Jsi_MapSearchNext(&s)) {
            I(keyof(m, e));
            if (n++ == del) edel(m, e);
        }
        Jsi_MapSearchDone(&s);
    } else if (M[m].t == 1) {
        Jsi_HashSearch s;
        for (e = Jsi_HashSearchFirst(M[m].h, &s); e && n < 20000; e = Jsi_HashSearchNext(&s)) {
            I(keyof(m, e));
            if (n++ == del) edel(m, e);
        }
    } else {
        Jsi_TreeSearch s;
        for (e = Jsi_TreeSearchFirst(M[m].tr, &s, order, NULL); e && n < 20000; e = Jsi_TreeSearchNext(&s)) {
            I(keyof(m, e));
            if (n++ == del) edel(m, e);
        }
        Jsi_TreeSearchDone(&s);
    }
}
/* a change to the tree made while it is searched or walked */
static struct { int m, at, n, act, k, v; } D;
static Jsi_RC change(void) {
    if (D.at++ != D.n) return JSI_OK;
    if (D.act == 1) { if (M[D.m].api) Jsi_MapClear(M[D.m].mp); else Jsi_TreeClear(M[D.m].tr); }
    else if (D.act == 2) set(D.m, D.k, D.v);
    else if (D.act == 3) unset(D.m, D.k);
    return D.act == 5 ? JSI_ERROR : JSI_OK;
}
static Jsi_RC walkD(Jsi_Tree *t, Jsi_TreeEntry *e, void *d) { I(keyof(D.m, e)); return change(); }
static void during(int how, int order) {
    Jsi_Tree *t = M[D.m].api ? M[D.m].mp->v.tree : M[D.m].tr;
    void *e;
    if (how == 1) { int rc = Jsi_TreeWalk(t, walkD, NULL, order); I(rc == JSI_OK); }
    else if (how == 2 && M[D.m].api) {
        Jsi_MapSearch s;
        for (e = Jsi_MapSearchFirst(M[D.m].mp, &s, order); e; e = Jsi_MapSearchNext(&s)) { I(keyof(D.m, e)); if (change() != JSI_OK) break; }
        Jsi_MapSearchDone(&s); I(1);
    } else {
        Jsi_TreeSearch s;
        for (e = Jsi_TreeSearchFirst(t, &s, order, NULL); e; e = Jsi_TreeSearchNext(&s)) { I(keyof(D.m, e)); if (change() != JSI_OK) break; }
        Jsi_TreeSearchDone(&s); I(1);
    }
}
static void lists(void) {
    int i, n; Jsi_ListEntry *e; Jsi_ListSearch s;
    for (i = 1; i <= nm; i++) if (M[i].t == 3) {
        I(i); I(Jsi_ListSize(M[i].l));
        for (n = 0, e = Jsi_ListSearchFirst(M[i].l, &s, 0); e && n < 5000; e = Jsi_ListSearchNext(&s), n++) I((long)Jsi_ListValueGet(e));
        I(-1);
        for (n = 0, e = Jsi_ListSearchFirst(M[i].l, &s, JSI_LIST_REVERSE); e && n < 5000; e = Jsi_ListSearchNext(&s), n++) I((long)Jsi_ListValueGet(e));
        I(-2);
    }
}
int main(void) {
    char line[512], op[32];
    setvbuf(stdout, NULL, _IOLBF, 0);
    while (fgets(line, sizeof(line), stdin)) {
        int k, a[8] = {0}, i, m;
        sscanf(line, "%d %31s %d %d %d %d %d %d %d", &k, op, &a[0], &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]);
        m = a[0]; cnt = nf = 0;
        printf("@[%d, [[", k);
        if (!strcmp(op, "new")) {
            m = ++nm; M[m].t = a[0]; M[m].kt = a[1]; M[m].api = a[2];
            if (a[0] == 3) M[m].l = Jsi_ListNew(NULL, 0, a[3] ? (Jsi_HashDeleteProc*)freeL : NULL);
            else if (a[2]) M[m].mp = Jsi_MapNew(NULL, a[0] == 1 ? JSI_MAP_HASH : JSI_MAP_TREE, KT(a[1]), a[3] ? (Jsi_MapDeleteProc*)freeP : NULL);
            else if (a[0] == 1) M[m].h = Jsi_HashNew(NULL, KT(a[1]), a[3] ? (Jsi_HashDeleteProc*)freeP : NULL);
            else M[m].tr = Jsi_TreeNew(NULL, KT(a[1]), a[3] ? (Jsi_TreeDeleteProc*)freeP : NULL);
        } else if (!strcmp(op, "set")) set(m, a[1], a[2]);
        else if (!strcmp(op, "fill")) { for (i = a[1]; i <= a[2]; i += a[3]) set(m, i, a[4] ? i+1 : 0); }
        else if (!strcmp(op, "unfill")) { for (i = a[1]; i <= a[2]; i += a[3]) I(unset(m, i)); }
        else if (!strcmp(op, "get")) {
            I((long)(M[m].api ? Jsi_MapGet(M[m].mp, KEY(m, a[1]), 0) : M[m].t == 1 ? Jsi_HashGet(M[m].h, KEY(m, a[1]), 0) : Jsi_TreeGet(M[m].tr, (void*)KEY(m, a[1]), 0)));
        } else if (!strcmp(op, "find")) I(find(m, a[1]) != NULL);
        else if (!strcmp(op, "enew")) {
            bool isn = 0; void *e;
            if (M[m].api) e = Jsi_MapEntryNew(M[m].mp, KEY(m, a[1]), &isn);
            else if (M[m].t == 1) e = Jsi_HashEntryNew(M[m].h, KEY(m, a[1]), &isn);
            else e = Jsi_TreeEntryNew(M[m].tr, KEY(m, a[1]), &isn);
            I(isn); I(keyof(m, e)); I(val(m, e));
        } else if (!strcmp(op, "unset")) I(unset(m, a[1]));
        else if (!strcmp(op, "hold")) {
            void *e = find(m, a[1]);
            ++nh; H[nh].m = m; H[nh].e = e; I(e != NULL);
        } else if (!strcmp(op, "hget")) { m = H[a[0]].m; I(keyof(m, H[a[0]].e)); I(val(m, H[a[0]].e)); }
        else if (!strcmp(op, "hset")) {
            m = H[a[0]].m;
            if (M[m].api) Jsi_MapValueSet(H[a[0]].e, (void*)(long)a[1]);
            else if (M[m].t == 1) Jsi_HashValueSet(H[a[0]].e, (void*)(long)a[1]);
            else Jsi_TreeValueSet(H[a[0]].e, (void*)(long)a[1]);
        } else if (!strcmp(op, "hdel")) { m = H[a[0]].m; edel(m, H[a[0]].e); }
        else if (!strcmp(op, "clear")) {
            if (M[m].t == 3) Jsi_ListClear(M[m].l);
            else if (M[m].api) Jsi_MapClear(M[m].mp);
            else if (M[m].t == 1) Jsi_HashClear(M[m].h);
            else Jsi_TreeClear(M[m].tr);
        } else if (!strcmp(op, "del")) {
            if (M[m].t == 3) Jsi_ListDelete(M[m].l);
            else if (M[m].api) Jsi_MapDelete(M[m].mp);
            else if (M[m].t == 1) Jsi_HashDelete(M[m].h);
            else Jsi_TreeDelete(M[m].tr);
            M[m].t = 0;
        } else if (!strcmp(op, "search")) search(m, a[1], -1);
        else if (!strcmp(op, "sdel")) search(m, 0, a[1]);
        else if (!strcmp(op, "during")) { D.m = m; D.at = 0; D.n = a[3]; D.act = a[4]; D.k = a[5]; D.v = a[6]; during(a[1], a[2] << 4); }
        else if (!strcmp(op, "shape")) {
            Jsi_Tree *t = M[m].api ? M[m].mp->v.tree : M[m].tr;
            int bad = 0;
            nn = 0; num(t->root, NULL, &bad);
            I(bad); I(nn);
            for (i = 0; i < nn; i++) { I(keyof(m, N[i])); I((long)N[i]->value); I(N[i]->f.bits.color); I(idx(N[i]->right)); I(idx(N[i]->left)); }
            for (i = 0; i <= 0x30; i += 0x10) { int mm = m; Jsi_TreeWalk(t, walkP, &mm, i); }
            for (i = 0; i <= 0x30; i += 0x10) search(m, i, -1);
        } else if (!strcmp(op, "lnew")) { L[++nl] = Jsi_ListEntryNew(M[m].l, (void*)(long)a[1], a[2] ? L[a[2]] : NULL); m = a[0]; }
        else if (!strcmp(op, "lmove")) Jsi_ListPush(M[m].l, L[a[1]], a[2] ? L[a[2]] : NULL);
        else if (!strcmp(op, "lpop")) Jsi_ListPop(M[m].l, L[a[1]]);
        else if (!strcmp(op, "lpopback")) { Jsi_ListEntry *e = Jsi_ListPopBack(M[m].l); for (i = nl; i > 0; i--) if (L[i] == e) break; I(i); }
        else if (!strcmp(op, "lpopfront")) { Jsi_ListEntry *e = Jsi_ListPopFront(M[m].l); for (i = nl; i > 0; i--) if (L[i] == e) break; I(i); }
        else if (!strcmp(op, "ldel")) { m = a[0]; Jsi_ListEntryDelete(L[a[1]]); L[a[1]] = NULL; }
        else if (!strcmp(op, "lset")) { m = a[0]; Jsi_ListValueSet(L[a[1]], (void*)(long)a[2]); }
        if (m > 0 && M[m].t == 3) lists();
        printf("],[");
        qsort(F, nf, sizeof(F[0]), cmpl);
        for (i = 0; i < nf; i++) printf("%s%ld", i ? "," : "", F[i]);
        printf("],%ld]]\n", size(m));
    }
    return 0;
}
