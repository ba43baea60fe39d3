/* Shared harness helpers: a plain-C description of a data set ("ds"), building the library's structure
   from it, and checking the library's structure against it, part by part. */
#ifndef HX_H
#define HX_H
#include <apop.h>
#include <math.h>
#include <string.h>
#include "sx.h"
#define HM 12
typedef struct {
    int hasv, nv; double v[HM];
    int hasm, nr, nc; double m[HM][HM];
    int hasw, nw; double w[HM];
    int rn, cn, tn; char r[HM][24], c[HM][24], t[HM][24];
    int hasvn, hastitle; char vn[24], title[24];
    int tr, tc; char text[HM][6][24];     /* "" stands for a blank cell */
} ds;

static char *hxl(const char *a, const char *b){ char *o=NULL; if (asprintf(&o, "%s %s", a, b)<0) return ""; return o; }
static char *hxn(const char *a, int i){ char *o=NULL; if (asprintf(&o, "%s%d", a, i)<0) return ""; return o; }

static int hx_nonzero; /* leave out zeros (each read by apop_data_set would otherwise fork on val!=0) */
static inline double hx_x(const char *pfx, const char *k){ double x = sx_real(hxl(pfx,k)); if (hx_nonzero) sx_assume_ne(x,0); return x; }
/* symbolic contents; pfx makes names distinct between data sets */
static inline ds hx_ds(const char *pfx, int nv, int nr, int nc, int nw){
    ds d; memset(&d, 0, sizeof d);
    d.hasv = nv>0; d.nv = nv; d.hasm = nr>0&&nc>0; d.nr = d.hasm?nr:0; d.nc = d.hasm?nc:0; d.hasw = nw>0; d.nw = nw;
    for (int i=0;i<nv;i++) d.v[i] = hx_x(pfx,"v");
    for (int i=0;i<d.nr;i++) for (int j=0;j<d.nc;j++) d.m[i][j] = hx_x(pfx,"m");
    for (int i=0;i<nw;i++) d.w[i] = hx_x(pfx,"w");
    return d;
}
static inline void hx_names(ds *d, const char *pfx, int rn, int cn, int vn, int title){
    d->rn = rn; d->cn = cn; d->hasvn = vn; d->hastitle = title;
    for (int i=0;i<rn;i++) snprintf(d->r[i], 24, "%sr%d", pfx, i);
    for (int i=0;i<cn;i++) snprintf(d->c[i], 24, "%sc%d", pfx, i);
    if (vn) snprintf(d->vn, 24, "%svec", pfx);
    if (title) snprintf(d->title, 24, "%stitle", pfx);
}
static inline void hx_text(ds *d, const char *pfx, int tr, int tc, int tnames){
    d->tr = tr; d->tc = tc; if (!tr || !tc) d->tr = d->tc = 0;
    for (int i=0;i<tr;i++) for (int j=0;j<tc;j++)
        if ((i+2*j)%4==3) d->text[i][j][0]=0; else snprintf(d->text[i][j], 24, "%st%d,%d", pfx, i, j);
    d->tn = tnames?tc:0; for (int j=0;j<d->tn;j++) snprintf(d->t[j], 24, "%stn%d", pfx, j);
}
static inline apop_data *hx_build(const ds *d){
    apop_data *o = apop_data_alloc();
    if (d->hasv){ o->vector = gsl_vector_alloc(d->nv); for (int i=0;i<d->nv;i++) gsl_vector_set(o->vector,i,d->v[i]); }
    if (d->hasm){ o->matrix = gsl_matrix_alloc(d->nr,d->nc); for (int i=0;i<d->nr;i++) for (int j=0;j<d->nc;j++) gsl_matrix_set(o->matrix,i,j,d->m[i][j]); }
    if (d->hasw){ o->weights = gsl_vector_alloc(d->nw); for (int i=0;i<d->nw;i++) gsl_vector_set(o->weights,i,d->w[i]); }
    for (int i=0;i<d->rn;i++) apop_name_add(o->names, d->r[i], 'r');
    for (int i=0;i<d->cn;i++) apop_name_add(o->names, d->c[i], 'c');
    for (int i=0;i<d->tn;i++) apop_name_add(o->names, d->t[i], 't');
    if (d->hasvn) apop_name_add(o->names, d->vn, 'v');
    if (d->hastitle) apop_name_add(o->names, d->title, 'h');
    if (d->tr && d->tc){ apop_text_alloc(o, d->tr, d->tc);
        for (int i=0;i<d->tr;i++) for (int j=0;j<d->tc;j++) if (d->text[i][j][0]) apop_text_set(o, i, j, "%s", d->text[i][j]); }
    return o;
}
static inline void hx_vec(const gsl_vector *v, const double *x, int n, const char *lab){
    sx_check((v!=NULL)==(n>0), hxl(lab,"present"));
    if (!v || !n) return;
    sx_check((int)v->size==n, hxl(lab,"length"));
    if ((int)v->size!=n) return;
    for (int i=0;i<n;i++) sx_check_same(gsl_vector_get(v,i), x[i], lab);
}
static inline void hx_strs(char **s, int n, const char (*want)[24], int nwant, const char *lab){
    sx_check(n==nwant, hxl(lab,"count"));
    for (int i=0;i<n && i<nwant;i++) sx_check(s && s[i] && !strcmp(s[i], want[i]), lab);
}
#define HX_NONAMES 1
static inline void hx_check(const apop_data *o, const ds *d, const char *lab, int flags){
    sx_check(o!=NULL, hxl(lab,"not NULL")); if (!o) return;
    hx_vec(o->vector, d->v, d->hasv?d->nv:0, hxl(lab,"vector"));
    hx_vec(o->weights, d->w, d->hasw?d->nw:0, hxl(lab,"weights"));
    sx_check((o->matrix!=NULL)==d->hasm, hxl(lab,"matrix present"));
    if (o->matrix && d->hasm){
        int ok = (int)o->matrix->size1==d->nr && (int)o->matrix->size2==d->nc;
        sx_check(ok, hxl(lab,"matrix shape"));
        if (ok) for (int i=0;i<d->nr;i++) for (int j=0;j<d->nc;j++) sx_check_same(gsl_matrix_get(o->matrix,i,j), d->m[i][j], hxl(lab,"matrix"));
    }
    int okt = (int)(o->textsize[0]*o->textsize[1])==d->tr*d->tc && (!(d->tr*d->tc) || ((int)o->textsize[0]==d->tr && (int)o->textsize[1]==d->tc));
    sx_check(okt, hxl(lab,"text shape"));
    if (okt) for (int i=0;i<d->tr;i++) for (int j=0;j<d->tc;j++) sx_check(o->text[i][j] && !strcmp(o->text[i][j], d->text[i][j]), hxl(lab,"text"));
    if (flags & HX_NONAMES) return;
    apop_name none = {0}; const apop_name *n = o->names ? o->names : &none;
    hx_strs(n->row, n->rowct, d->r, d->rn, hxl(lab,"row names"));
    hx_strs(n->col, n->colct, d->c, d->cn, hxl(lab,"column names"));
    hx_strs(n->text, n->textct, d->t, d->tn, hxl(lab,"text names"));
    sx_check((n->vector!=NULL)==d->hasvn && (!d->hasvn || !strcmp(n->vector, d->vn)), hxl(lab,"vector name"));
    sx_check((n->title!=NULL)==d->hastitle && (!d->hastitle || !strcmp(n->title, d->title)), hxl(lab,"title"));
}
static inline gsl_vector *hx_v(const double *x, int n){ gsl_vector *v = gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(v,i,x[i]); return v; }
/* scalars laid out as a vector, a column, a row, a 2x2 grid, a vector beside a column, or one number beside two; returns how many */
#define HX_LAYOUTS 6
static inline int hx_count(int lay){ static const int n[]={2,2,3,4,4,3}; return n[lay]; }
static inline apop_data *hx_lay(int lay, const double *x){
    apop_data *d = apop_data_alloc();
    int nv = lay==0||lay==4 ? 2 : lay==5, nr = lay==0?0: lay==2||lay==5?1:2, nc = lay==0?0: lay==2?3: lay==3||lay==5?2:1, k=0;
    if (nv){ d->vector = gsl_vector_alloc(nv); for (int i=0;i<nv;i++) gsl_vector_set(d->vector,i,x[k++]); }
    if (nr){ d->matrix = gsl_matrix_alloc(nr,nc); for (int i=0;i<nr;i++) for (int j=0;j<nc;j++) gsl_matrix_set(d->matrix,i,j,x[k++]); }
    return d;
}
/* overwrite everything, to show a result does not alias its source */
static inline void hx_scribble(apop_data *d){
    if (d->vector) gsl_vector_set_all(d->vector, -77);
    if (d->matrix) gsl_matrix_set_all(d->matrix, -77);
    if (d->weights) gsl_vector_set_all(d->weights, -77);
    for (size_t i=0;i<d->textsize[0];i++) for (size_t j=0;j<d->textsize[1];j++) if (d->text[i][j][0]) d->text[i][j][0]='#';
    apop_name *n=d->names; if (!n) return;
    for (int i=0;i<n->rowct;i++) if (*n->row[i]) n->row[i][0]='#';
    for (int i=0;i<n->colct;i++) if (*n->col[i]) n->col[i][0]='#';
    for (int i=0;i<n->textct;i++) if (*n->text[i]) n->text[i][0]='#';
    if (n->vector) n->vector[0]='#'; if (n->title) n->title[0]='#';
}
#endif
