/* Printing to files, pipes and tables; reading back what was printed. */
#include "hx.h"
#include <unistd.h>
#include <fcntl.h>
static char fn[4][200];
static char *newname(int i){ snprintf(fn[i], 200, "%s/sxpr%dXXXXXX", getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp", i); int fd = mkstemp(fn[i]); if (fd >= 0) { close(fd); remove(fn[i]); } return fn[i]; }
static char *slurp(const char *n, int *len){ static char buf[4][6000]; static int k; char *b = buf[k++ % 4]; *len = -1; FILE *f = fopen(n, "r"); if (!f) return ""; *len = fread(b, 1, 5999, f); b[*len] = 0; fclose(f); return b; }
static int samefile(const char *a, const char *b){ int la, lb; char *x = slurp(a, &la), *y = slurp(b, &lb); return la >= 0 && la == lb && !memcmp(x, y, la); }
static double X(void){ double x = sx_open("x", 0.125, 0.875); return x; } /* not an integer: printed with its decimals */
static void fill(ds *d){ for (int i = 0; i < d->nv; i++) d->v[i] = X(); for (int i = 0; i < d->nr; i++) for (int j = 0; j < d->nc; j++) d->m[i][j] = X(); for (int i = 0; i < d->nw; i++) d->w[i] = X(); }
static ds D(const char *p, int nv, int nr, int nc, int nw){ ds d; memset(&d, 0, sizeof d); d.hasv = nv > 0; d.nv = nv; d.hasm = nr > 0 && nc > 0; d.nr = d.hasm ? nr : 0; d.nc = d.hasm ? nc : 0; d.hasw = nw > 0; d.nw = nw; fill(&d); (void)p; return d; }
/* every number, name and cell is there, in order: vector, matrix, text, weights */
static char *tk[80]; static int ntk;
static void toks(char *s){ ntk = 0; char *sv = NULL; for (char *t = strtok_r(s, " \t\n,|", &sv); t && ntk < 80; t = strtok_r(NULL, " \t\n,|", &sv)) tk[ntk++] = t; }
static void whole(void){
    int how = sx_choice("how", 3), hv = sx_choice("vector", 2), hm = sx_choice("matrix", 3), ht = sx_choice("text", 3), hw = sx_choice("weights", 2), rn = sx_choice("row names", 2), cn = sx_choice("column names", 2), r = 2, k = 0; if (!hv && !hm && !ht) return; if (rn != cn && (hm == 2 || ht == 2)) return; if (ht && hv && hw && hm == 1) return;
    ds a = D("a", hv ? r : 0, hm ? r : 0, hm, hw ? r : 0); if (hm) { a.m[r-1][0] = how ? 3 : 1234567; } hx_names(&a, "n", rn ? r : 0, cn ? hm : 0, cn && hv, 0); static const char *cell[2][2] = {{"ab", "c"}, {"def", "gh"}}; if (ht) { a.tr = r; a.tc = ht; for (int i = 0; i < r; i++) for (int j = 0; j < ht; j++) strcpy(a.text[i][j], cell[i][j]); if (cn) { a.tn = ht; strcpy(a.t[0], "first"); strcpy(a.t[1], "second"); } } apop_data *d = hx_build(&a);
    apop_data *pg = NULL; if (hm == 1 && !ht) { pg = apop_data_alloc(1); gsl_vector_set(pg->vector, 0, .5); apop_data_add_page(d, pg, "extra"); }
    newname(0); if (how == 0) apop_data_print(d, fn[0]); else { fflush(stdout); int sv = dup(1), fd = open(fn[0], O_CREAT|O_TRUNC|O_RDWR, 0600); dup2(fd, 1); close(fd); if (how == 1) apop_data_show(d); else apop_data_print(d); fflush(stdout); dup2(sv, 1); close(sv); }
    int l; char *txt = slurp(fn[0], &l); sx_check(l > 0, "something is printed"); if (l <= 0) return; toks(txt);
    #define NEXT(str) do { sx_check(k < ntk && !strcmp(tk[k], str), hxl("in order:", str)); k++; } while (0)
    #define NUM(x, lab) do { sx_check(k < ntk, lab); if (k < ntk) { char *e; double g = strtod(tk[k], &e); sx_check(e != tk[k], lab); sx_check_eq(g, x, lab); } k++; } while (0)
    if (cn) { if (hv) NEXT(a.vn); for (int j = 0; j < hm; j++) NEXT(a.c[j]); for (int j = 0; j < ht; j++) NEXT(j ? "second" : "first"); if (how == 1 && hw) k++; }
    for (int i = 0; i < r; i++) { if (rn) NEXT(a.r[i]); if (hv) NUM(a.v[i], "vector"); for (int j = 0; j < hm; j++) NUM(a.m[i][j], "matrix"); for (int j = 0; j < ht; j++) NEXT(cell[i][j]); if (hw) NUM(a.w[i], "weights"); }
    if (pg) { while (k < ntk && strcmp(tk[k], "0.5") && strncmp(tk[k], "0.50", 4)) k++; NUM(.5, "later pages"); }
    sx_check(k == ntk, "nothing else"); hx_check(d, &a, "input left alone", 0); sx_reach("everything is there"); }
/* vectors, matrices, names and models shown on the screen */
static void shows(void){
    int what = sx_choice("what", 4), r = 1 + sx_choice("rows", 3), c = 1 + sx_choice("cols", 2), named = sx_choice("named", 2), str = sx_choice("view", 2), k = 0; ds a = D("a", r, r, c, 0); if (named) hx_names(&a, "n", r, c, 1, 1); if (named && what == 2) { a.tr = r; a.tc = 1; for (int i = 0; i < r; i++) strcpy(a.text[i][0], "cell"); a.tn = 1; strcpy(a.t[0], "textcol"); } apop_data *d = hx_build(&a), *inf = NULL; apop_model *m = NULL;
    if (what == 3) { m = apop_model_copy(apop_normal); strcpy(m->name, "MyModel"); m->parameters = d; a.hasv = 1; if (str) { m->info = inf = apop_data_alloc(); apop_data_add_named_elmt(inf, "informative", .25); } }
    newname(0); fflush(stdout); int sv = dup(1), fd = open(fn[0], O_CREAT|O_TRUNC|O_RDWR, 0600); dup2(fd, 1); close(fd);
    if (what == 0) { if (str) { gsl_vector_view cv = gsl_matrix_column(d->matrix, c - 1); apop_vector_show(&cv.vector); } else apop_vector_show(d->vector); } else if (what == 1) { if (str && c > 1) { gsl_matrix_view mv = gsl_matrix_submatrix(d->matrix, 0, 0, r, 1); apop_matrix_show(&mv.matrix); } else apop_matrix_show(d->matrix); } else if (what == 2) { if (str) apop_name_print(NULL); else apop_name_print(d->names); } else { if (named) apop_model_show(m); else apop_model_print(m, stdout); } fflush(stdout); dup2(sv, 1); close(sv);
    int l; char *txt = slurp(fn[0], &l); sx_check(l > 0 || (what == 2 && !named), "something is printed"); if (l <= 0) return; toks(txt);
    if (what == 0) for (int i = 0; i < r; i++) NUM(str ? a.m[i][c-1] : a.v[i], "vector"); else if (what == 1) for (int i = 0; i < r; i++) for (int j = 0; j < (str ? 1 : c); j++) NUM(a.m[i][j], "matrix");
    else if (what == 2) { if (str) { NEXT("NULL"); } else { const char *want[12]; int n = 0; want[n++] = a.title; want[n++] = a.vn; for (int j = 0; j < c; j++) want[n++] = a.c[j]; want[n++] = "textcol"; for (int i = 0; i < r; i++) want[n++] = a.r[i]; for (int i = 0; i < n; i++) { int at = -1; for (int q = k; q < ntk; q++) if (!strcmp(tk[q], want[i])) { at = q; break; } sx_check(at >= 0, "every name"); if (at >= 0) k = at + 1; } } k = ntk; }
    else { NEXT("MyModel"); if (named) while (k < ntk && strcmp(tk[k], a.r[0])) k++; for (int i = 0; i < r; i++) { if (named) NEXT(a.r[i]); NUM(a.v[i], "parameters"); for (int j = 0; j < c; j++) NUM(a.m[i][j], "parameters"); } if (inf) { NEXT("informative"); NUM(.25, "information"); } }
    sx_check(k == ntk, "nothing else"); hx_check(d, &a, "input left alone", 0); remove(fn[0]); sx_reach("shown"); }
void sx_main(void){
    apop_opts.verbose = -1; int op = sx_choice("op", 7); if (op == 5) { whole(); return; } if (op == 6) { shows(); return; }
    if (op == 0){ /* a file that can be read back */
        int r = 1 + sx_choice("rows", 2), c = 1 + sx_choice("cols", 2), v = sx_choice("vector", 2), rn = sx_choice("row names", 2), cn = sx_choice("col names", 2), dl = sx_choice("delimiter", v ? 1 : 3), how = sx_choice("how", 2), nan = sx_choice("nan", 2), in = sx_choice("integers", 2);
        if (dl) strcpy(apop_opts.output_delimiter, dl == 1 ? "," : "|"); ds a = D("a", v ? r : 0, r, c, 0); if (nan) a.m[r-1][c-1] = NAN; if (in) a.m[0][0] = v ? 12 : -3; hx_names(&a, "a", rn ? r : 0, cn ? c : 0, v && cn, 0); apop_data *d = hx_build(&a);
        if (how == 0) apop_data_print(d, newname(0)); else { FILE *f = fopen(newname(0), "w"); apop_data_print(d, .output_pipe = f); sx_check(fputs("", f) >= 0, "the pipe stays open"); fclose(f); }
        hx_check(d, &a, "input left alone", 0);
        ds e = a; if (v) { e.hasv = e.hasvn = 0; e.nc = c + 1; for (int i = 0; i < r; i++) { e.m[i][0] = a.v[i]; for (int j = 0; j < c; j++) e.m[i][j+1] = a.m[i][j]; } if (cn) { e.cn = c + 1; strcpy(e.c[0], a.vn); for (int j = 0; j < c; j++) strcpy(e.c[j+1], a.c[j]); } }
        apop_data *q = apop_text_to_data(fn[0], .has_row_names = rn ? 'y' : 'n', .has_col_names = cn ? 'y' : 'n'); hx_check(q, &e, "printed and read", 0); sx_reach("round trip");
        if (rn && how == 0) { sx_check(apop_text_to_db(fn[0], "tab", .has_row_names = 'y', .has_col_names = cn ? 'y' : 'n') == r, "printed and read to the database"); if (!cn) { e.cn = e.nc; for (int j = 0; j < e.nc; j++) snprintf(e.c[j], 24, "col_%d", j); } hx_check(apop_query_to_data("select * from tab"), &e, "printed and read to the database", 0); }
    } else if (op == 1){ /* pages: the file has each of them */
        int n = 1 + sx_choice("pages", 3), how = sx_choice("how", 3), shape = sx_choice("shape", 4); apop_data *d = NULL, *pg[3]; FILE *f = fopen(newname(1), "w");
        for (int i = 0; i < n; i++) { ds a = D("a", shape == 1 ? 2 : 0, shape != 1 ? 1 + i : 0, 2, shape == 2 ? 1 + i : 0); hx_names(&a, "p", shape == 3 ? 1 + i : 0, shape == 3 ? 2 : 0, 0, 0); pg[i] = hx_build(&a); if (i) apop_data_add_page(d, pg[i], i == 1 ? "second" : "third"); else d = pg[0]; }
        for (int i = 0; i < n; i++) { apop_data *more = pg[i]->more; pg[i]->more = NULL; apop_data_print(pg[i], .output_pipe = f); pg[i]->more = more; } fclose(f);
        if (how == 0) apop_data_print(d, newname(0)); else if (how == 1) { f = fopen(newname(0), "w"); apop_data_print(d, .output_pipe = f, .output_type = 'p'); fclose(f); } else { newname(0); apop_data_print(d, fn[0], .output_append = 'w'); }
        sx_check(samefile(fn[0], fn[1]), "every page, in order"); int l; char *s = slurp(fn[0], &l); if (n > 1) sx_check(strstr(s, "second") != NULL, "page title"); if (n > 2) sx_check(strstr(s, "third") != NULL, "page title"); sx_reach("pages");
    } else if (op == 2){ /* writing over, writing at the end */
        int kind = sx_choice("kind", 3), app = sx_choice("append", 2), there = sx_choice("there", 2), pages = kind == 0 && sx_choice("pages", 2); ds a = D("a", kind == 1 ? 2 : 0, kind != 1 ? 2 : 0, 2, 0), b = D("b", kind == 1 ? 1 : 0, kind != 1 ? 1 : 0, 2, 0); apop_data *d = hx_build(&a), *e = hx_build(&b); newname(0); FILE *f = fopen(newname(1), "w"); if (pages) { apop_data_add_page(d, hx_build(&b), "pg"); apop_data_add_page(e, hx_build(&a), "pg"); }
        #define PR(x, ...) do { if (kind == 0) apop_data_print(x, __VA_ARGS__); else if (kind == 1) apop_vector_print((x)->vector, __VA_ARGS__); else apop_matrix_print((x)->matrix, __VA_ARGS__); } while (0)
        if (there) { PR(d, fn[0], .output_append = 'w'); if (app) PR(d, .output_pipe = f); } PR(e, fn[0], .output_append = app ? 'a' : 'w'); PR(e, .output_pipe = f); fclose(f); sx_check(samefile(fn[0], fn[1]), "written over, or at the end"); sx_reach("append");
    } else if (op == 3){ /* tables */
        int kind = sx_choice("kind", 2); ds a = D("a", kind ? 2 : 0, kind ? 0 : 2, 2, 0); apop_data *d = hx_build(&a); if (kind) apop_vector_print(d->vector, .output_name = "tab", .output_type = 'd'); else apop_matrix_print(d->matrix, "tab", .output_type = 'd');
        apop_data *q = apop_query_to_mixed_data(kind ? "v" : "mm", "select * from tab"); sx_check(q != NULL, "the table is there"); if (q) { if (kind) hx_vec(q->vector, a.v, 2, "vector to table"); else { ds e = a; e.cn = 2; strcpy(e.c[0], "c0"); strcpy(e.c[1], "c1"); hx_check(q, &e, "matrix to table", 0); } } hx_check(d, &a, "input left alone", 0);
        int ap = sx_choice("again", 3); if (ap < 2) { ds b = D("b", kind ? 1 : 0, kind ? 0 : 1, 2, 0); apop_data *e = hx_build(&b); char how = ap ? 'a' : 'w'; if (kind) apop_vector_print(e->vector, .output_name = "tab", .output_type = 'd', .output_append = how); else apop_matrix_print(e->matrix, "tab", .output_type = 'd', .output_append = how); apop_data *z = apop_query_to_mixed_data(kind ? "v" : "mm", "select * from tab"); int n = ap ? 3 : 1, ok = z && (int)(kind ? z->vector ? z->vector->size : 0 : z->matrix ? z->matrix->size1 : 0) == n; sx_check(ok, "written over, or at the end"); if (ok) { for (int j = 0; j < 2; j++) { if (kind && j) break; double g = kind ? gsl_vector_get(z->vector, n - 1) : gsl_matrix_get(z->matrix, n - 1, j); sx_check_same(g, kind ? b.v[0] : b.m[0][j], "new row last"); if (ap) sx_check_same(kind ? gsl_vector_get(z->vector, 0) : gsl_matrix_get(z->matrix, 0, j), kind ? a.v[0] : a.m[0][j], "old row first"); } } } sx_check(fputs("", stdout) >= 0, "standard output stays open"); sx_reach("table");
    } else { /* nothing there, nowhere to write */
        int k = sx_choice("what", 5); if (k == 0) apop_data_print(hx_build(&(ds){.hasv = 1, .nv = 1}), "/no such directory/x"); else if (k == 1) apop_vector_print(NULL, newname(0)); else if (k == 2) apop_matrix_print(NULL, .output_name = newname(0)); else if (k == 3) apop_data_print(NULL, newname(0)); else apop_vector_print(hx_build(&(ds){.hasv = 1, .nv = 1})->vector, "/no such directory/x");
        if (k == 1 || k == 3) { int l; char *s = slurp(fn[0], &l); sx_check(l >= 0 && !strcmp(s, "NULL\n"), "NULL is said to be NULL"); } sx_reach("nothing"); }
}
