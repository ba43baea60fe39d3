/* Text file -> database table: structure of the file, names, what to do with an existing table, field parameters. */
#include "hx.h"
#include <unistd.h>
#ifdef SX_THOROUGH
#define NA 5
#else
#define NA 4
#endif
#include "t_text.h"
static char fname[200];
static int isnumber(const field *f){ return f->num && f->ct == 1; } /* the field is just the number */
static void cellcheck(const apop_data *tx, const apop_data *num, int i, int j, const field *f, int blank){
    if (blank || !f->s[0]) { sx_check(!strcmp(tx->text[i][j], "NaN"), "a blank is NULL"); sx_check_same(gsl_matrix_get(num->matrix, i, j), NAN, "a blank is NaN"); }
    else if (isnumber(f)) sx_check_same(gsl_matrix_get(num->matrix, i, j), f->x, "number");
    else if (!f->num) sx_check(!strcmp(tx->text[i][j], f->s), "text");
}
static void tables(const int *a, int n){
    char b[NA*32]; int len = tx_bytes(a, n, b); oracle(a, n); if (ambiguous) return;
    for (int i = 0; i < lines; i++) { if (Fct[i] > Fct[0]) return; for (int j = 0; j < Fct[i]; j++) if (F[i][j].num && !isnumber(&F[i][j])) return; } /* lines too long, numbers with a tail: SQLite's rules */
    tx_write(fname, b, len);
    for (int rown = 0; rown < 2; rown++){
        apop_table_exists("tab", 'd');
        int r = apop_text_to_db(fname, "tab", .has_row_names = rown ? 'y' : 'n', .has_col_names = 'n', .delimiters = delims);
        if (!lines || Fct[0] <= rown) { sx_check(r == -1, "nothing to read: -1"); continue; }
        sx_check(r == lines, "number of rows is returned");
        char *nc = apop_opts.db_name_column; apop_opts.db_name_column = "none of them"; apop_data *tx = apop_query_to_text("select * from tab"); int ok = tx && tx->textsize[0] == lines && tx->textsize[1] == Fct[0];
        apop_data *num = apop_query_to_data("select * from tab"); apop_opts.db_name_column = nc;
        sx_check(ok, "a row for each line, a column for each field"); if (!ok || !num || !num->matrix) { sx_check(num && num->matrix, "matrix"); continue; }
        for (int i = 0; i < lines; i++) for (int j = 0; j < Fct[0]; j++) cellcheck(tx, num, i, j, &F[i][j], j >= Fct[i]);
        for (int j = 0; j < Fct[0]; j++) { char w[24]; if (rown && !j) strcpy(w, "row_names"); else snprintf(w, 24, "col_%d", j - rown); sx_check(!strcmp(tx->names->text[j], w), "name of a column"); }
        if (lines > 1 && Fct[0] > 1) sx_reach("two by two");
        apop_data_free(tx); apop_data_free(num);
    }
    remove(fname);
}
static void lines_of(char *b, const double *x, int r, int c, int rown, const char *sep, int head, int lastnl, const char *pre){
    b[0] = 0; if (head) { for (int j = 0; j < c; j++) sprintf(b + strlen(b), "%s%s%d", j ? sep : "", pre, j); strcat(b, "\n"); }
    for (int i = 0; i < r; i++){ if (rown) sprintf(b + strlen(b), "row%d%s", i, sep); for (int j = 0; j < c; j++) sprintf(b + strlen(b), "%s%.17g", j ? sep : "", x[i*c + j]); if (i < r - 1 || lastnl) strcat(b, "\n"); }
}
void sx_main(void){
    apop_opts.verbose = -1; hx_nonzero = 1; int op = sx_choice("op", 4); char b[2000]; double x[20]; for (int i = 0; i < 20; i++) x[i] = i < 9 ? hx_x("x", hxn("", i)) : i;
    if (op == 0){
        static const int base[] = {NUM, LET, COMMA, NL, TAB, QQ, SP, HASH, BS, NUL}; nkind = 9; memcpy(kinds, base, sizeof base); delims = "|,\t";
        for (int i = 0; i < NA; i++) { xs[i] = sx_pos("p"); snprintf(xt[i], 32, "%.17g", xs[i]); }
        int a[NA], n = sx_choice("pieces", NA + 1), fix = n < 2 ? n : 2; for (int i = 0; i < fix; i++) a[i] = kinds[sx_choice("piece", nkind)];
        long tot = 1; for (int i = fix; i < n; i++) tot *= nkind;
        for (long s = 0; s < tot; s++){ long r = s; for (int i = fix; i < n; i++) { a[i] = kinds[r % nkind]; r /= nkind; } tables(a, n); }
        return;
    }
    if (op == 1){ /* names: from the file, given, made up; row names */
        int r = 1 + sx_choice("rows", 2), c = 1 + sx_choice("cols", 2), rown = sx_choice("row names", 2), how = sx_choice("names", 3), nl = sx_choice("last newline", 2), colarg = how == 2 ? sx_choice("colarg", 2) : 0;
        lines_of(b, x, r, c, rown, sx_choice("sep", 2) ? ", " : "\t", how == 0, nl, "head"); tx_write(fname, b, strlen(b));
        char *given[] = {"one", "two words", NULL}; int ret = how == 2 ? apop_text_to_db(fname, "tab", .has_row_names = rown ? 'y' : 'n', .has_col_names = colarg ? 'y' : 'n', .field_names = given) : apop_text_to_db(fname, "tab", .has_row_names = rown ? 1 : 'n', .has_col_names = how == 0 ? 'y' : 'n');
        sx_check(ret == r, "number of rows is returned"); ds e; memset(&e, 0, sizeof e); e.hasm = 1; e.nr = r; e.nc = c; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) e.m[i][j] = x[i*c + j];
        e.cn = c; for (int j = 0; j < c; j++) if (how == 2) strcpy(e.c[j], given[j]); else snprintf(e.c[j], 24, how ? "col_%d" : "head%d", j);
        if (rown) { e.rn = r; for (int i = 0; i < r; i++) snprintf(e.r[i], 24, "row%d", i); }
        apop_data *q = apop_query_to_data("select * from tab"); hx_check(q, &e, "named table", 0); sx_reach("names");
        if (how < 2) { ds f = e; if (how) f.cn = 0; apop_data *d = apop_text_to_data(fname, .has_row_names = rown ? 'y' : 'n', .has_col_names = how == 0 ? 'y' : 'n'); hx_check(d, &f, "straight to a data set", 0); }
        /* the default table name is the name of the file */
        char *base = strrchr(fname, '/') + 1; ret = how == 0 ? apop_text_to_db(fname, .has_row_names = rown ? 'y' : 'n') : 0; if (how == 0) { sx_check(ret == r && apop_table_exists(base), "named for the file"); }
    } else if (op == 2){ /* the table exists already */
        int r = 1 + sx_choice("rows", 2), k = sx_choice("if exists", 5), rown = sx_choice("row names", 2), same = sx_choice("same columns", 2); apop_query("create table other(a)"); apop_query("insert into other values (3)");
        lines_of(b, x, r, 2, rown, ",", 1, 1, "h"); tx_write(fname, b, strlen(b)); int r1 = apop_text_to_db(fname, "tab", .has_row_names = rown ? 'y' : 'n'); sx_check(r1 == r, "rows");
        int c2 = k == 3 && !same ? 1 : 2; lines_of(b, x + 4, 2, c2, rown, ",", 1, 0, k == 3 && !same ? "new" : "h"); tx_write(fname, b, strlen(b));
        int r2 = k == 0 ? apop_text_to_db(fname, "tab", .has_row_names = rown ? 'y' : 'n') : apop_text_to_db(fname, "tab", .has_row_names = rown ? 'y' : 'n', .if_table_exists = "?ndoa"[k]);
        ds e; memset(&e, 0, sizeof e); e.hasm = 1; e.nc = c2; int n = 0; if (k < 2 || k == 4) for (int i = 0; i < r; i++, n++) { e.m[n][0] = x[2*i]; e.m[n][1] = x[2*i+1]; snprintf(e.r[n], 24, "row%d", i); } if (k >= 2) for (int i = 0; i < 2; i++, n++) { for (int j = 0; j < c2; j++) e.m[n][j] = x[4 + c2*i + j]; snprintf(e.r[n], 24, "row%d", i); }
        e.nr = n; e.cn = c2; for (int j = 0; j < c2; j++) snprintf(e.c[j], 24, k == 3 && !same ? "new%d" : "h%d", j); e.rn = rown ? n : 0; sx_check(k < 2 ? r2 == -1 : r2 == 2, "rows read, or -1");
        hx_check(apop_query_to_data("select * from tab"), &e, "existing table", 0); sx_check(apop_query_to_float("select a from other") == 3 && apop_query_to_float("select count(*) from other") == 1, "other tables stay"); sx_reach("existing");
    } else { /* types, constraints; missing values; files that are not there */
        int k = sx_choice("what", 6);
        if (k == 0){ tx_write(fname, "id,val,name\n007,1.50,010\n02,2,x\n", 32); apop_data *fp = apop_text_fill(apop_text_alloc(NULL, 2, 2), "^na", "text", "id", "integer primary key"); apop_text_to_db(fname, "tab", .field_params = fp); apop_data *q = apop_query_to_text("select id, val, name, typeof(name), typeof(val) from tab order by id"); sx_check(q && q->textsize[0] == 2 && !strcmp(q->text[1][2], "010") && !strcmp(q->text[1][3], "text") && !strcmp(q->text[1][0], "7") && !strcmp(q->text[1][1], "1.5") && !strcmp(q->text[0][4], "integer"), "field types are used"); int n = apop_text_to_db(fname, "tab", .if_table_exists = 'a'); (void)n; sx_check(apop_query_to_float("select count(*) from tab") == 2, "the primary key is a key"); }
        else if (k == 1){ tx_write(fname, "a,b\n1,2\n1,3\n1,2\n", 16); apop_text_to_db(fname, "tab", .table_params = "unique (a, b)"); sx_check(apop_query_to_float("select count(*) from tab") == 2, "table constraints are used"); }
        else if (k == 2){ /* what counts as missing */ int m = sx_choice("nan string", 3); apop_opts.nan_string = m == 0 ? "NaN" : m == 1 ? "Missing" : NULL; snprintf(b, 2000, "a,b,c\n%.17g,nan,missing\nNAN,%.17g,NaNcy\n,,Inf\n", x[0], x[1]); tx_write(fname, b, strlen(b)); sx_check(apop_text_to_db(fname, "tab") == 3, "rows"); apop_data *q = apop_query_to_data("select a, b from tab"); ds e; memset(&e, 0, sizeof e); e.hasm = 1; e.nr = 3; e.nc = e.cn = 2; strcpy(e.c[0], "a"); strcpy(e.c[1], "b"); e.m[0][0] = x[0]; e.m[1][1] = x[1]; e.m[0][1] = e.m[1][0] = e.m[2][0] = e.m[2][1] = NAN; hx_check(q, &e, "missing values", 0);
            sx_check(apop_query_to_float("select count(*) from tab where c is null") == (m == 1), "only the missing string is missing"); sx_check(apop_query_to_float("select count(*) from tab where c = 'NaNcy'") == 1, "other text stays"); sx_check_same(apop_query_to_float("select c from tab where rowid = 3"), INFINITY, "infinity"); sx_reach("missing"); }
        else if (k == 3){ snprintf(fname, 200, "/tmp/no such file"); sx_check(apop_text_to_db(fname, "tab") == -1, "no file: -1"); apop_data *d = apop_text_to_data(fname); sx_check(d && d->error == 't', "no file: error t"); return; }
        else if (k == 5){ /* ways to write a number */ static const char *w[] = {".05", "-.5", "-INF", "-inf", "INF", "+2", "1e-3", "0.5e2", "-0", "007", ".5e1", "-Infinity"}; static const double z[] = {.05, -.5, -INFINITY, -INFINITY, INFINITY, 2, .001, 50, 0, 7, 5, -INFINITY}; b[0] = 0; int n = 12, first = sx_choice("first", 12); for (int i = 0; i < n; i++) sprintf(b + strlen(b), "%s,%s\n", w[(first + i) % n], w[i]); tx_write(fname, b, strlen(b)); sx_check(apop_text_to_db(fname, "tab", .has_col_names = 'n') == n, "rows"); apop_data *q = apop_query_to_data("select * from tab"), *d = apop_text_to_data(fname, .has_row_names = 'n', .has_col_names = 'n'); int ok = q && q->matrix && (int)q->matrix->size1 == n && q->matrix->size2 == 2 && d && d->matrix && (int)d->matrix->size1 == n && d->matrix->size2 == 2; sx_check(ok, "all numbers"); if (ok) for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) { double v = z[j ? i : (first + i) % n]; sx_check_same(gsl_matrix_get(q->matrix, i, j), v, "number in the table"); sx_check_same(gsl_matrix_get(d->matrix, i, j), v, "number in the data set"); } sx_reach("spellings"); }
        else { /* fixed width */
            int w = sx_choice("widths", 3), rown = sx_choice("row names", 2), coln = sx_choice("column names", 2), last = sx_choice("last newline", 2), given = sx_choice("last end given", 2), shortrow = sx_choice("short", 2), blank = sx_choice("blank line", 2); char t[6][40]; int wd = 0; (void)w;
            for (int i = 0; i < 6; i++) { snprintf(t[i], 40, "%.17g", x[i]); if ((int)strlen(t[i]) > wd) wd = strlen(t[i]); } if (w == 1) wd += 2; int c = w == 2 ? 1 : 2, nr = 2; int ends[4], ne = 0, pos = 0; if (rown) ends[ne++] = pos += 4; for (int j = 0; j < c; j++) ends[ne++] = pos += wd; if (!given) ends[ne - 1] = 100000; b[0] = 0; ds e; memset(&e, 0, sizeof e); e.hasm = 1; e.nr = nr; e.nc = c; shortrow = shortrow && c == 2;
            if (coln) { sprintf(b, c == 2 ? "%-*s%s\n" : "%.*s%s\n", c == 2 ? wd : 1, c == 2 ? "nm" : "", "na"); e.cn = c; strcpy(e.c[c-1], "na"); }
            if (c == 2 && coln) { for (int i = 0; i < wd; i++) e.c[0][i < 23 ? i : 23] = i < 2 ? "nm"[i] : ' '; e.c[0][wd < 23 ? wd : 23] = 0; }
            if (wd > 22 && coln) { return; }
            for (int i = 0; i < nr; i++) { if (blank && i == 1) strcat(b, "\n"); if (rown) sprintf(b + strlen(b), "rn %d", i); int cc = i == 1 && shortrow ? 1 : c; for (int j = 0; j < cc; j++) sprintf(b + strlen(b), "%-*s", wd, t[2*i + j]); if (i < nr - 1 || last) strcat(b, "\n"); for (int j = 0; j < c; j++) e.m[i][j] = j < cc ? x[2*i + j] : NAN; if (rown) { e.rn = nr; snprintf(e.r[i], 24, "rn %d", i); } }
            if (coln && rown) { /* the names line has no field for the row names; the ends would not fit it */ return; }
            tx_write(fname, b, strlen(b)); apop_data *d = apop_text_to_data(fname, .has_row_names = rown ? 'y' : 'n', .has_col_names = coln ? 'y' : 'n', .field_ends = ends); hx_check(d, &e, "fixed width", 0);
            sx_check(apop_text_to_db(fname, "tab", .has_row_names = rown ? 'y' : 'n', .has_col_names = coln ? 'y' : 'n', .field_ends = ends) == nr, "fixed width rows"); if (!coln) { e.cn = c; for (int j = 0; j < c; j++) snprintf(e.c[j], 24, "col_%d", j); } hx_check(apop_query_to_data("select * from tab"), &e, "fixed width table", 0); sx_reach("fixed width"); }
    }
}
