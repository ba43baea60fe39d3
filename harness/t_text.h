/* The rules for text files in the manual, as a reference reader over files made of pieces. */
#ifndef T_TEXT_H
#define T_TEXT_H
#define MF (NA+2)
typedef struct { int ct, num, two, bad; double x; char s[NA*32]; int n; } field; /* ct: pieces */
static double xs[NA]; static char xt[NA][32]; static const char *delims;
enum {NUM, LET, SP, TAB, COMMA, NL, QQ, BS, HASH, NUL, PIPE, CR, NKIND};
static int kinds[NKIND], nkind;
static field F[MF][MF]; static int Fct[MF], lines, ambiguous;
static void put(field *f, int lit, const char *t, int len, int isnum, double x, int *last){
    if (isnum && f->two) ambiguous = 1;                      /* a number right after a number */
    if (isnum && !f->bad) { f->num = 1; f->x = x; }
    if (isnum || !t[0] || !strchr(" \t\n\r", t[0])) f->bad = 1; /* what is read as a number is at the head */
    f->two = isnum;
    memcpy(f->s + f->n, t, len); f->n += len; f->ct++; if (lit) *last = f->n;
}
static void oracle(const int *a, int n){
    lines = 0; ambiguous = 0; int p = 0, go = 1;
    while (go){
        int q = 0, ct = 0, open = 0, last = 0, end = 0; field *L = F[lines], *f = L;
        #define OPEN() do { if (!open) { memset(f, 0, sizeof *f); open = 1; last = 0; } } while (0)
        #define CLOSE() do { if (!open) memset(f, 0, sizeof *f); f->s[open ? last : 0] = 0; if (!open) f->n = 0; open = 0; ct++; f++; } while (0)
        while (!end){
            if (p >= n) { go = 0; break; }
            int k = a[p], pos = p; p++; int lit = q; char t[32]; int len = 1;
            if (k == BS){ if (p >= n) { go = 0; break; } k = a[p]; pos = p; p++; lit = 1; }
            else if (k == QQ) { q = !q; continue; }
            else if (!q && k == HASH){ while (p < n && a[p] != NL) p++; if (p < n) p++; else go = 0; end = 1; break; }
            if (k == NUM) { len = strlen(xt[pos]); memcpy(t, xt[pos], 32); } else t[0] = "?z \t,\n\"\\#\0|\r"[k], t[1] = 0;
            if (lit || k == NUM || k == LET) { OPEN(); put(f, 1, t, len, k == NUM, xs[pos], &last); continue; }
            if (k == NL) { end = 1; break; }
            int isd = t[0] && strchr(delims, t[0]), white = k == SP || k == TAB || k == CR || k == NUL;
            if (isd && white) { if (open) CLOSE(); }
            else if (isd) CLOSE();
            else if (white) { if (open) put(f, 0, t, len, 0, 0, &last); }
            else { OPEN(); put(f, 1, t, len, 0, 0, &last); }
        }
        if (open || ct) CLOSE();
        if (ct) Fct[lines++] = ct;
    }
}
static int tx_bytes(const int *a, int n, char *b){ int len = 0; for (int i = 0; i < n; i++) if (a[i] == NUM) { int l = strlen(xt[i]); memcpy(b + len, xt[i], l); len += l; } else b[len++] = "?z \t,\n\"\\#\0|\r"[a[i]]; return len; }
/* a new file at each call (paths run side by side) */
static void tx_write(char *name, const char *b, int len){ snprintf(name, 200, "%s/sxtextXXXXXX", getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp"); int fd = mkstemp(name); if (fd < 0) return; FILE *fo = fdopen(fd, "w"); fwrite(b, 1, len, fo); fclose(fo); }
#endif
