/* Text file -> data set and table: longer lines and longer files than t01_text.c: four fields, each in one of several styles, and lines
   that lie across any boundary of the buffer the file is read through. */
#include "hx.h"
#include <unistd.h>
static char fname[200];
static void wr(const char *b, int len){ snprintf(fname, 200, "%s/sxlongXXXXXX", getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp"); int fd = mkstemp(fname); if (fd < 0) return; FILE *fo = fdopen(fd, "w"); fwrite(b, 1, len, fo); fclose(fo); }
static char big[320000];
void sx_main(void){
    apop_opts.verbose = -1; hx_nonzero = 1; double x[16]; for (int i = 0; i < 16; i++) x[i] = i < 8 && i % 3 != 1 ? hx_x("x", hxn("", i)) : i + .5;
    switch (sx_choice("op", 2)){
    case 0: { /* two lines of four fields, two of them in some style */
        int sep = sx_choice("sep", 3), a = sx_choice("where", 4), b = sx_choice("second", 4), row = sx_choice("line", 2), sa = sx_choice("style", 10), sb = a == b ? 0 : sx_choice("style2", 10), rown = sx_choice("row names", 2); if (a == b && b) return; if (b && a > b) return; if (sep && sb) return; if (rown && (a == 0 || b == 0) && a != b) return;
        if (sep && rown) return; char t[1000] = "", want[2][4][60]; double v[2][4]; int tx[2][4]; const char *S = sep == 0 ? "," : sep == 1 ? "\t" : " , ";
        for (int i = 0; i < 2; i++) { for (int j = 0; j < 4; j++) { char num[40]; snprintf(num, 40, "%.17g", x[4*i + j]); int s = i != row ? 0 : j == a ? sa : j == b ? sb : 0; if (j == 0 && rown) s = 1; v[i][j] = x[4*i + j]; tx[i][j] = 1; char f[100]; const char *q = "";
                switch (s){ case 0: sprintf(f, "%s", num); tx[i][j] = 0; break; case 1: sprintf(f, "r#%d", j); sprintf(f, "\"r#%d, z\"", j); sprintf(want[i][j], "r#%d, z", j); v[i][j] = NAN; break; case 2: sprintf(f, "\"%s\"", num); tx[i][j] = 0; break; case 3: sprintf(f, "\"%s # no\"", num); sprintf(want[i][j], "?"); tx[i][j] = -1; break;
                    case 4: sprintf(f, "a\\,b"); sprintf(want[i][j], "a,b"); v[i][j] = NAN; break; case 5: sprintf(f, "\"say \\\"hi\\\"\""); sprintf(want[i][j], "say \"hi\""); v[i][j] = NAN; break; case 6: sprintf(f, "\" led\""); sprintf(want[i][j], " led"); v[i][j] = NAN; break; case 7: sprintf(f, "two words"); sprintf(want[i][j], "two words"); v[i][j] = NAN; break;
                    case 8: sprintf(f, "\"a\"mid\"c,d\""); sprintf(want[i][j], "amidc,d"); v[i][j] = NAN; break; case 9: sprintf(f, "x\\#y\\\\"); sprintf(want[i][j], "x#y\\"); v[i][j] = NAN; break; }
                (void)q; sprintf(t + strlen(t), "%s%s", j ? S : "", f); } strcat(t, i ? "  # the end, \"of it\n" : "\n"); }
        wr(t, strlen(t)); apop_data *d = apop_text_to_data(fname, .has_row_names = rown ? 'y' : 'n', .has_col_names = 'n'); int ok = d && !d->error && d->matrix && d->matrix->size1 == 2 && (int)d->matrix->size2 == 4 - rown; sx_check(ok, "two lines of four fields"); if (!ok) break;
        for (int i = 0; i < 2; i++) for (int j = rown; j < 4; j++) sx_check_same(gsl_matrix_get(d->matrix, i, j - rown), v[i][j], "value of a field"); if (rown) for (int i = 0; i < 2; i++) sx_check(d->names->rowct == 2 && !strcmp(d->names->row[i], want[i][0]), "row name");
        /* as a header line too */
        apop_data *h = apop_text_to_data(fname, .has_row_names = 'n', .has_col_names = 'y'); sx_check(h && h->names->colct == 4 && h->matrix && h->matrix->size1 == 1, "header"); if (h && h->names->colct == 4) for (int j = 0; j < 4; j++) if (tx[0][j] == 1) sx_check(!strcmp(h->names->col[j], want[0][j]), "name of a column");
        if (!rown) { sx_check(apop_text_to_db(fname, "tab", .has_col_names = 'n') == 2, "rows in a table"); apop_data *q = apop_query_to_text("select * from tab"); int k = q && q->textsize[0] == 2 && q->textsize[1] == 4; sx_check(k, "table"); if (k) for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) if (tx[i][j] == 1) sx_check(!strcmp(q->text[i][j], want[i][j]), "text of a field"); }
        remove(fname); sx_reach("styles"); break; }
    case 1: { /* a long comment first, so that the lines lie across the boundary */
        int todb = sx_choice("to db", 2), off = sx_choice("offset", 56), nl = sx_choice("last newline", 2), wide = sx_choice("long field", 2); if (todb && off % 3) return; if (nl && off % 2) return; if (wide && (off % 7)) return; char line[400] = ""; for (int i = 0; i < 3; i++) sprintf(line + strlen(line), "%.17g,\"w#%d\",%.17g%s", x[2*i], i, x[2*i+1], i < 2 || nl ? "\n" : "");
        static int unit; unit = sx_choice("unit", 3) == 0 ? 100000 : 0; int L = strlen(line); if (!unit) { if (off > 0) return; unit = 65536; } int pre = unit - off; if (pre < 10) return; 
        memset(big, 'q', sizeof big); if (wide) { memcpy(big, "1,", 2); big[pre - 3] = ','; big[pre - 2] = '2'; } else { big[0] = '#'; } big[pre - 1] = '\n'; memcpy(big + pre, line, L); wr(big, pre + L);
        if (!todb) { apop_data *d = apop_text_to_data(fname, .has_row_names = 'n', .has_col_names = 'n'); int ok = d && !d->error && d->matrix && (int)d->matrix->size1 == 3 + wide && d->matrix->size2 == 3; sx_check(ok, "every line of a long file"); if (ok) { if (wide) { sx_check_eq(gsl_matrix_get(d->matrix, 0, 0), 1, "value"); sx_check_eq(gsl_matrix_get(d->matrix, 0, 2), 2, "value"); } for (int i = 0; i < 3; i++) { sx_check_same(gsl_matrix_get(d->matrix, i + wide, 0), x[2*i], "value"); sx_check_same(gsl_matrix_get(d->matrix, i + wide, 1), NAN, "value"); sx_check_same(gsl_matrix_get(d->matrix, i + wide, 2), x[2*i+1], "value"); } } }
        else { sx_check(apop_text_to_db(fname, "tab", .has_col_names = 'n') == 3 + wide, "every line of a long file"); apop_data *q = apop_query_to_text("select * from tab"); int ok = q && (int)q->textsize[0] == 3 + wide && q->textsize[1] == 3; sx_check(ok, "table"); if (ok) { if (wide) sx_check((int)strlen(q->text[0][1]) == pre - 5, "all of a long field"); for (int i = 0; i < 3; i++) { char w[8]; sprintf(w, "w#%d", i); sx_check(!strcmp(q->text[i + wide][1], w), "text"); sx_check_same(atof(q->text[i + wide][0]), x[2*i], "value"); sx_check_same(atof(q->text[i + wide][2]), x[2*i+1], "value"); } } }
        remove(fname); sx_reach("long"); break; }
    }
}
