/* The command-line tools, run through their own main(): arguments, input and output files on one side, the library on the other. */
#include "hx.h"
#include <unistd.h>
#include <fcntl.h>
#include <setjmp.h>
#include <getopt.h>
static jmp_buf out_;
static int fclose_(FILE *f){ return f == stdout ? fflush(f) : fclose(f); }
#define fclose fclose_
#define popen(a, b) fopen("/dev/null", "w")
#define exit(n) (longjmp(out_, 100 + (n)))
#define main crosstab_main
#include "cmd/apop_db_to_crosstab.c"
#undef main
#define main text_main
#include "cmd/apop_text_to_db.c"
#undef main
#define main plot_main
#define query plot_query_fn
#include "cmd/apop_plot_query.c"
#undef main
#undef query
#undef fclose
#undef popen
static char nm[4][200]; static const char *newname(int i){ snprintf(nm[i], 200, "%s/sxcmdXXXXXX", getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp"); int fd = mkstemp(nm[i]); if (fd >= 0) close(fd); return nm[i]; }
static int run(int (*m)(int, char **), char **argv, const char *to){ int n = 0; while (argv[n]) n++; optind = 0; fflush(stdout); volatile int sv = dup(1); int fd = open(to, O_CREAT|O_TRUNC|O_RDWR, 0600); dup2(fd, 1); close(fd); volatile int r = setjmp(out_); if (!r) r = m(n, argv); else r -= 100; fflush(stdout); dup2(sv, 1); close(sv); apop_opts.verbose = -1; apop_db_close(); return r; }
static char *slurp(const char *f){ static char b[20000]; FILE *h = fopen(f, "r"); int n = h ? fread(b, 1, sizeof b - 1, h) : 0; b[n] = 0; if (h) fclose(h); return b; }
static void put(const char *f, const char *s){ FILE *h = fopen(f, "w"); fputs(s, h); fclose(h); }

static void crosstab(void){
    int n = 1 + sx_choice("rows", 3), args = sx_choice("args", 4), delim = sx_choice("delimiter", 2), R[3], C[3]; double x[3]; static const char *rn[] = {"ay", "bee"}, *cn[] = {"en", "oh"};
    for (int i = 0; i < n; i++) { R[i] = sx_choice("r", 2); C[i] = sx_choice("c", 2); x[i] = sx_open(hxn("x", i), .125, .875); for (int j = 0; j < i; j++) if (args == 3 && R[i] == R[j] && C[i] == C[j]) return; }
    newname(0); newname(1); apop_db_open(nm[0]); apop_query("create table t (r, c, x)"); for (int i = 0; i < n; i++) { char q[200]; snprintf(q, 200, "insert into t values ('%s', '%s', %.17g)", rn[R[i]], cn[C[i]], x[i]); apop_query("%s", q); } apop_db_close();
    char *av[10] = {"x"}; int k = 1; if (delim) { av[k++] = "-d"; av[k++] = ";"; } av[k++] = nm[0]; av[k++] = "t"; if (args > 0) av[k++] = "r"; if (args > 1) av[k++] = "c"; if (args > 2) av[k++] = "x"; run(crosstab_main, av, nm[1]);
    apop_data *d = apop_text_to_data(nm[1], .has_row_names = 'y', .has_col_names = 'y', .delimiters = delim ? ";" : "\t"); int seen[2] = {0}, cseen[2] = {0}; for (int i = 0; i < n; i++) seen[R[i]] = cseen[C[i]] = 1; int nr = args ? seen[0] + seen[1] : 1, nc = args > 1 ? cseen[0] + cseen[1] : 1;
    int ok = d && !d->error && d->matrix && (int)d->matrix->size1 == nr && (int)d->matrix->size2 == nc && d->names->rowct == nr && d->names->colct == nc; sx_check(ok, "a table with one row and column per category"); if (!ok) return;
    for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { if (args ? !seen[a] : a) continue; if (args > 1 ? !cseen[b] : b) continue; int i = args ? apop_name_find(d->names, rn[a], 'r') : 0, j = args > 1 ? apop_name_find(d->names, cn[b], 'c') : 0; sx_check(i >= 0 && j >= 0, "names"); if (i < 0 || j < 0) continue; double want = 0; int any = 0; for (int l = 0; l < n; l++) if ((!args || R[l] == a) && (args < 2 || C[l] == b)) { want = args == 3 ? x[l] : want + 1; any = 1; } if (any) sx_check_same(gsl_matrix_get(d->matrix, i, j), want, "cell"); }
    remove(nm[0]); remove(nm[1]); sx_reach("crosstab");
}
static void text(void){
    int what = sx_choice("what", 12); double x[6]; for (int i = 0; i < 6; i++) x[i] = hx_x("x", hxn("", i)); char t[600], *av[14] = {"x"}; int k = 1; newname(0); newname(1); newname(2); unlink(nm[1]); const char *D = ",";
    int names = what != 1 && what != 2 && what != 4, row = what == 3, ex = what >= 8 ? what - 8 : -1, nulls = what == 5;
    if (what == 6) { D = ";"; av[k++] = "-d"; av[k++] = ";"; } if (what == 7) { D = " "; av[k++] = "-d "; }
    if (what == 1) av[k++] = "-nc"; if (what == 2) { av[k++] = "-nc"; av[k++] = "-N"; av[k++] = "p,q"; } if (what == 3) av[k++] = "-r"; if (what == 4) { av[k++] = "-nc"; static char ff[8]; strcpy(ff, "-f2,5"); av[k++] = ff; } if (what == 5) { av[k++] = "-n"; av[k++] = "no"; }
    static char *exs[] = {"-en", "-ed", "-eo", "-ea"}; if (ex >= 0) av[k++] = exs[ex];
    t[0] = 0; if (names) sprintf(t, "p%sq\n", D); if (what == 4) strcpy(t, "12345\nab6 7\n"); else for (int i = 0; i < 2; i++) { char s[200]; if (row) sprintf(s, "row%d%s", i, D); else s[0] = 0; if (nulls && i == 1) sprintf(s + strlen(s), "NO%s%.17g\n", D, x[3]); else sprintf(s + strlen(s), "%.17g%s%.17g\n", x[2*i], D, x[2*i + 1]); strcat(t, s); }
    put(nm[0], t); if (ex >= 0) { apop_db_open(nm[1]); apop_query("create table tab (p numeric, q numeric)"); apop_query("insert into tab values (77, 78)"); apop_db_close(); }
    av[k++] = nm[0]; av[k++] = "tab"; av[k++] = nm[1]; run(text_main, av, nm[2]); sx_check(!*slurp(nm[2]), "nothing on standard output"); apop_opts.db_name_column = "row_names"; apop_db_open(nm[1]); apop_data *d = apop_query_to_text("select * from tab"); apop_db_close();
    int rows = ex == 0 ? 1 : ex == 3 ? 3 : 2, ok = d && !d->error && (int)d->textsize[0] == rows && (int)d->textsize[1] == 2; sx_check(ok, "every row, once"); if (!ok) return; if (row) sx_check(d->names->rowct == 2 && !strcmp(d->names->row[1], "row1"), "row names"); if (names || what == 2) sx_check(d->names->textct == 2 && !strcmp(d->names->text[0], "p") && !strcmp(d->names->text[1], "q"), "column names");
    if (what == 4) { sx_check(!strcmp(d->text[0][0], "12") && !strcmp(d->text[0][1], "345") && !strcmp(d->text[1][0], "ab") && !strcmp(d->text[1][1], "6 7"), "fixed widths"); sx_reach("fixed"); return; }
    int at = 0; if (ex == 0 || ex == 3) { sx_check_eq(atof(d->text[0][0]), 77, "what was there"); at = 1; } if (ex != 0) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { if (nulls && i == 1 && !j) { sx_check(!d->text[i][j] || !*d->text[i][j] || !strcasecmp(d->text[i][j], apop_opts.nan_string) || !strcasecmp(d->text[i][j], "NaN"), "a blank"); continue; } sx_check_same(atof(d->text[at + i][j]), x[2*i + j], "value"); }
    remove(nm[0]); remove(nm[1]); remove(nm[2]); sx_reach("text");
}
static void plot(void){
    int how = sx_choice("how", 4), to = sx_choice("to", 3), type = to == 2 ? 0 : sx_choice("type", 2), n = 1 + sx_choice("rows", 2); double x[4]; for (int i = 0; i < 4; i++) x[i] = sx_open(hxn("x", i), .125, .875); newname(0); newname(1); newname(2); newname(3); char q[1400] = "select a, b from t", *av[14] = {"x"}; int k = 1;
    apop_db_open(nm[0]); apop_query("create table t (a, b)"); for (int i = 0; i < n; i++) { char s[200]; snprintf(s, 200, "insert into t values (%.17g, %.17g)", x[2*i], x[2*i + 1]); apop_query("%s", s); } apop_db_close();
    if (to == 0) { av[k++] = "-f"; av[k++] = "-"; } if (to == 1) { av[k++] = "-f"; av[k++] = nm[2]; } if (to == 2) av[k++] = "-n"; if (type) { av[k++] = "-t"; av[k++] = "points"; }
    if (how == 0) { av[k++] = nm[0]; av[k++] = q; } if (how == 1) { av[k++] = "-d"; av[k++] = nm[0]; av[k++] = "-q"; av[k++] = q; } if (how == 2) { av[k++] = "-d"; av[k++] = nm[0]; av[k++] = q; } if (how == 3) { char big[2500]; snprintf(big, 2500, "select\n a,\n b %700s%700s\nfrom t", "", ""); put(nm[3], big); av[k++] = "-d"; av[k++] = nm[0]; av[k++] = "-Q"; av[k++] = nm[3]; }
    run(plot_main, av, nm[1]); char *s = slurp(to == 1 ? nm[2] : nm[1]); apop_data *d;
    if (to == 2) { put(nm[3], s); d = apop_text_to_data(nm[3], .has_row_names = 'n', .has_col_names = 'y', .delimiters = " "); sx_check(d && d->names && d->names->colct == 2 && !strcmp(d->names->col[0], "a") && !strcmp(d->names->col[1], "b"), "column names"); } else { char w[100]; snprintf(w, 100, "plot '-' with %s\n", type ? "points" : "lines"); int l = strlen(w); sx_check(!strncmp(s, w, l), "plot header"); if (strncmp(s, w, l)) return; put(nm[3], s + l); d = apop_text_to_data(nm[3], .has_row_names = 'n', .has_col_names = 'n'); }
    int ok = d && !d->error && d->matrix && (int)d->matrix->size1 == n && d->matrix->size2 == 2; sx_check(ok, "one line per row"); if (!ok) return; for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) sx_check_same(gsl_matrix_get(d->matrix, i, j), x[2*i + j], "value");
    for (int i = 0; i < 4; i++) remove(nm[i]); sx_reach("plot");
}
static void histo(void){
    int how = sx_choice("bins", 3), to = sx_choice("to", 2); double x = sx_open("x", .125, .25); newname(0); newname(1); newname(2); char h[8], *av[] = {"x", "-f", to ? nm[2] : "-", h, nm[0], "select a from t", NULL}; sprintf(h, "-H%d", how == 2 ? 4 : 2 * how);
    apop_db_open(nm[0]); apop_query("create table t (a)"); apop_query("insert into t values (0)"); apop_query("insert into t values (%.17g)", x); apop_query("insert into t values (.875)"); apop_query("insert into t values (1)"); apop_db_close(); run(plot_main, av, nm[1]); char *s = slurp(to ? nm[2] : nm[1]);
    static const char *head = "set key off\t;\nplot '-' with impulses\n"; int l = strlen(head); sx_check(!strncmp(s, head, l), "histogram header"); int e = strlen(s); sx_check(e > l + 2 && !strcmp(s + e - 3, "\ne\n"), "end of the data"); if (e <= l + 2) return; s[e - 2] = 0; put(nm[2], s + l); apop_data *d = apop_text_to_data(nm[2], .has_row_names = 'n', .has_col_names = 'n');
    int ok = d && !d->error && d->matrix && d->matrix->size2 == 2 && d->matrix->size1 == 2; sx_check(ok, "one line per bin that is not empty"); if (!ok) return; double edge = how == 2 ? .75 : .5; sx_check_eq(gsl_matrix_get(d->matrix, 0, 0), 0, "first bin"); sx_check_eq(gsl_matrix_get(d->matrix, 1, 0), edge, "second bin"); for (int i = 0; i < 2; i++) sx_check_eq(gsl_matrix_get(d->matrix, i, 1), 2, "count");
    for (int i = 0; i < 3; i++) remove(nm[i]); sx_reach("histogram");
}
void sx_main(void){ apop_opts.verbose = -1; hx_nonzero = 1; int p = sx_choice("tool", 4); if (p == 0) crosstab(); else if (p == 1) text(); else if (p == 2) plot(); else histo(); }
