/* Text file -> data set. Every file made of up to NA pieces (a symbolic number, a letter, white space, delimiters, quotes,
   escapes, comments, line ends, NULs), read with and without row and column names, against the rules of the manual. */
#include "hx.h"
#include <unistd.h>
#ifndef NA
#ifdef SX_THOROUGH
#define NA 6
#else
#define NA 5
#endif
#endif
#include "t_text.h"
static const int *cur; static int curn, curopt;
static void show(void){ if (sx_symbolic() && !getenv("SHOW")) return; fprintf(stderr, "opt %d file:", curopt); for (int i = 0; i < curn; i++) fprintf(stderr, " %s", ((char*[]){"NUM","z","SP","TAB",",","NL","\"","\\","#","NUL","|","CR"})[cur[i]]); fprintf(stderr, "\n"); }
#define CK(c, l) do { int c_ = (c); if (!c_) show(); sx_check(c_, l); } while (0)
static char fname[200];
static int same(const char *got, const field *f){ return got && !strcmp(got, f->s); } /* a NUL ends the string */
static void one(const int *a, int n){
    char b[NA*32]; int len = tx_bytes(a, n, b);
    oracle(a, n); if (ambiguous) return;
    tx_write(fname, b, len);
    for (int opt = 0; opt < 4; opt++){
        cur = a; curn = n; curopt = opt; int rown = opt & 1, coln = opt >> 1, nd = lines - coln; if (coln && !lines) nd = 0;
        apop_data *d = apop_text_to_data(fname, rown ? 'y' : 'n', coln ? 'y' : 'n', .delimiters = delims);
        CK(d != NULL, "a data set"); if (!d) continue;
        if (nd <= 0) { CK(d->error != 0, "no data is an error"); apop_data_free(d); continue; }
        int cols = Fct[coln] - rown, good = 0, err = 0; 
        while (good < nd && Fct[coln + good] - rown <= cols) good++;
        err = good < nd; CK(!!d->error == err, "an error exactly when a line is too long");
        if (cols > 0) {
            int shape = d->matrix && d->matrix->size2 == cols && (err ? d->matrix->size1 >= good : d->matrix->size1 == good);
            CK(shape, "a row for each line, a column for each field");
            if (shape) for (int i = 0; i < good; i++) for (int j = 0; j < cols; j++){
                field *f = &F[coln + i][j + rown]; int blank = j + rown >= Fct[coln + i] || !f->num;
                sx_check_same(gsl_matrix_get(d->matrix, i, j), blank ? NAN : f->x, "value of a field");
            }
            if (coln){ int m = Fct[0] < cols ? Fct[0] : cols; CK(d->names->colct == m, "count of column names"); for (int j = 0; j < m && j < d->names->colct; j++) CK(same(d->names->col[j], &F[0][j]), "column name"); }
            else CK(d->names->colct == 0, "no column names");
        } 
        if (rown){ CK(err ? d->names->rowct >= good : d->names->rowct == good, "count of row names"); for (int i = 0; i < good && i < d->names->rowct; i++) CK(same(d->names->row[i], &F[coln + i][0]), "row name"); }
        else CK(d->names->rowct == 0, "no row names");
        if (nd > 0 && cols > 1 && good > 1) sx_reach("two by two");
        if (err) sx_reach("long line");
        apop_data_free(d);
    }
    remove(fname);
}
void sx_main(void){
    apop_opts.verbose = -1;
    int dl = sx_choice("delimiters", 3); delims = ((const char*[]){"|,\t", " ", ","})[dl];
    /* pieces in play; with one set of delimiters some are like others */
    static const int base[] = {NUM, LET, SP, COMMA, NL, QQ, BS, HASH, NUL, TAB};
    nkind = dl == 0 ? 10 : 8; memcpy(kinds, base, sizeof base); if (dl == 1) kinds[7] = HASH; if (dl == 2) kinds[7] = TAB;
    for (int i = 0; i < NA; i++) { xs[i] = sx_real(hxn("x", i)); snprintf(xt[i], 32, "%.17g", xs[i]); }
    int a[NA], n = sx_choice("pieces", NA + 1), fix = n < 3 ? n : 3; 
    for (int i = 0; i < fix; i++) a[i] = kinds[sx_choice("piece", nkind)];
    long tot = 1; for (int i = fix; i < n; i++) tot *= nkind;
    for (long s = 0; s < tot; s++){ long r = s; for (int i = fix; i < n; i++) { a[i] = kinds[r % nkind]; r /= nkind; } one(a, n); }
}
