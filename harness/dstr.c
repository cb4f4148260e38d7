/* Performs operations on Jsi_DStrings read from stdin ("k op args...") and prints, after each, the result and the
   contents of every string, run-length encoded (see spec/DStr.tla). */
#include <stddef.h>
#include "jsiInt.h"
#include <stdlib.h>
static Jsi_DString *D[32];
static int nd, cnt;
static void I(long v) { printf("%s%ld", cnt++ ? "," : "", v); }
static char *run(int ch, int n) { char *s = malloc(n+2); memset(s, ch, n); s[n] = 0; s[n+1] = 'x'; return s; }
static void rle(const char *s, int len) {
    int i = 0, j;
    while (i < len) { for (j = i; j < len && s[j] == s[i]; j++); I((unsigned char)s[i]); I(j-i); i = j; }
}
int main(void) {
    char line[512], op[32];
    while (fgets(line, sizeof(line), stdin)) {
        int k, a[8] = {0}, i, d;
        sscanf(line, "%d %31s %d %d %d %d %d %d %d", &k, op, &a[0], &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]);
        d = a[0]; cnt = 0;
        printf("@[%d, [[", k);
        char *p = NULL, *x = run(a[1], a[2] > 0 ? a[2] : 0), *y = run(a[3], a[4] > 0 ? a[4] : 0), *z = run(a[5], a[6] > 0 ? a[6] : 0);
        if (!strcmp(op, "new")) {
            int siz = a[0] == 2 ? a[2] : JSI_DSTRING_STATIC_SIZE;
            Jsi_DString *n = D[++nd] = malloc(a[0] == 2 ? offsetof(Jsi_DString, Str) + siz : sizeof(Jsi_DString)); /* not a byte more */
            memset(n, a[0] == 1 || a[0] == 2 ? 0x55 : 0, a[0] == 2 ? offsetof(Jsi_DString, Str) + siz : sizeof(Jsi_DString));
            if (a[0] == 1) Jsi_DSInit(n);
            else if (a[0] == 2) { n->staticSize = siz; n->strA = 0; n->Str[0] = 0; n->spaceAvl = n->len = 0; }   /* JSI_DSTRING_VAR */
            else if (a[0] == 3) { n->strA = x; x = NULL; }
        } else if (!strcmp(op, "app")) {
            p = a[4] < 0 ? Jsi_DSAppend(D[d], x, NULL) : a[6] < 0 ? Jsi_DSAppend(D[d], x, y, NULL) : Jsi_DSAppend(D[d], x, y, z, NULL);
        } else if (!strcmp(op, "applen")) p = Jsi_DSAppendLen(D[d], x, a[3]);
        else if (!strcmp(op, "printf")) {
            switch (a[5]) {
                case 0: p = Jsi_DSPrintf(D[d], "%s", x); break;
                case 1: p = Jsi_DSPrintf(D[d], "%s%s", x, y); break;
                case 2: p = Jsi_DSPrintf(D[d], "%0*d", a[2] < 1 ? 1 : a[2], 7); break;
                case 3: p = Jsi_DSPrintf(D[d], "%d%s%c%s", 5, x, 'c', y); break;
            }
        } else if (!strcmp(op, "set")) p = Jsi_DSSet(D[d], a[2] < 0 ? NULL : x);
        else if (!strcmp(op, "setlen")) I(Jsi_DSSetLength(D[d], a[1]) >= (uint)a[1]);
        else if (!strcmp(op, "free")) Jsi_DSFree(D[d]);
        else if (!strcmp(op, "freedup")) { int l = Jsi_DSLength(D[d]); char *cp = Jsi_DSFreeDup(D[d]); rle(cp, l); I(cp[l] ? -7 : -3); free(cp); }
        else if (!strcmp(op, "copy")) p = Jsi_DSAppendLen(D[d], Jsi_DSValue(D[a[1]]), Jsi_DSLength(D[a[1]]));
        if (p && p != Jsi_DSValue(D[d])) I(-9);
        free(x); free(y); free(z);
        printf("],[");
        cnt = 0;
        for (i = 1; i <= nd; i++) {
            int l = Jsi_DSLength(D[i]); const char *v = Jsi_DSValue(D[i]);
            I(i); I(l); rle(v, l); I(v[l] == 0 ? -1 : -7);
        }
        printf("]]]\n");
        fflush(stdout);
    }
    return 0;
}
