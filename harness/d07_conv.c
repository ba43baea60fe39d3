/* Conversions, copies, fills, stacks and resizes of bare vectors and matrices. */
#include "hx.h"
static gsl_matrix *mk(int r,int c,double (*m)[HM],const char*p){ for(int i=0;i<r;i++)for(int j=0;j<c;j++) m[i][j]=sx_real(p); if(!r||!c) return NULL; gsl_matrix *o=gsl_matrix_alloc(r,c); for(int i=0;i<r;i++)for(int j=0;j<c;j++) gsl_matrix_set(o,i,j,m[i][j]); return o; }
static void ckm(const gsl_matrix *o,double (*m)[HM],int r,int c,const char*l){ sx_check((o!=NULL)==(r*c>0),hxl(l,"present")); if(!o) return; int ok=(int)o->size1==r&&(int)o->size2==c; sx_check(ok,hxl(l,"shape")); if(ok) for(int i=0;i<r;i++)for(int j=0;j<c;j++) sx_check_same(gsl_matrix_get(o,i,j),m[i][j],l); }
void sx_main(void){
    apop_opts.verbose=-1;
    double A[HM][HM],B[HM][HM],C[HM][HM]; double x[HM*2],y[HM*2];
    switch(sx_choice("op",8)){
    case 0: { int n=1+sx_choice("n",4); for(int i=0;i<n;i++) x[i]=sx_real("x"); gsl_vector *v=apop_array_to_vector(x,n); double keep[HM]; memcpy(keep,x,n*sizeof*x); hx_vec(v,x,n,"array to vector"); x[0]=-7; hx_vec(v,keep,n,"array to vector copies");
        int rc=sx_choice("rc",3); gsl_matrix *m = rc==2? apop_vector_to_matrix(v) : apop_vector_to_matrix(v, "rR"[rc]); for(int i=0;i<n;i++) if(rc<2) A[0][i]=keep[i]; else A[i][0]=keep[i]; ckm(m,A,rc<2?1:n,rc<2?n:1,"vector to matrix");
        gsl_vector *c=apop_vector_copy(v); hx_vec(c,keep,n,"vector copy"); gsl_vector_set_all(v,-77); hx_vec(c,keep,n,"vector copy is its own"); ckm(m,A,rc<2?1:n,rc<2?n:1,"matrix from vector is its own");
        sx_check(!apop_vector_copy(NULL)&&!apop_matrix_copy(NULL)&&!apop_vector_to_matrix(NULL),"NULL gives NULL"); sx_reach("convert"); break; }
    case 1: { int r=1+sx_choice("r",3),c=1+sx_choice("c",3); gsl_matrix *m=mk(r,c,A,"a"); gsl_matrix *q=apop_matrix_copy(m); ckm(q,A,r,c,"matrix copy"); gsl_matrix_set_all(m,-77); ckm(q,A,r,c,"matrix copy is its own");
        gsl_vector_view cv=gsl_matrix_column(q,c-1); gsl_vector *vc=apop_vector_copy(&cv.vector); for(int i=0;i<r;i++) x[i]=A[i][c-1]; hx_vec(vc,x,r,"copy of a strided view"); sx_reach("matrix copy"); break; }
    case 2: { /* fill */ int v=sx_choice("v",2),c=sx_choice("c",3),r=2; if(!v&&!c) return; apop_data *d=apop_data_alloc(v?r:0,c?r:0,c); double f[16]; for(int i=0;i<r*(v+c);i++) f[i]=sx_real("f"); apop_data *o=apop_data_fill_base(d,f); sx_check(o==d,"fill returns its input");
        int k=0; for(int i=0;i<r;i++){ if(v) sx_check_same(apop_data_get(d,i,-1),f[k++],"fill vector"); for(int j=0;j<c;j++) sx_check_same(apop_data_get(d,i,j),f[k++],"fill matrix"); }
        gsl_vector *q=gsl_vector_alloc(3); sx_check(apop_vector_fill_base(q,f)==q,"vector fill returns its input"); if(r*(v+c)>=3) hx_vec(q,f,3,"vector fill");
        apop_data *e=apop_data_falloc((2,2,1),f[0],f[1],4,5); sx_check_same(apop_data_get(e,0,-1),f[0],"falloc"); sx_check_same(apop_data_get(e,0,0),f[1],"falloc"); sx_check_eq(apop_data_get(e,1,-1),4,"falloc"); sx_check_eq(apop_data_get(e,1,0),5,"falloc"); sx_reach("fill"); break; }
    case 3: { /* vector stack */ int n1=sx_choice("n1",4),n2=sx_choice("n2",4),in=sx_choice("in",3); for(int i=0;i<n1;i++) x[i]=sx_real("x"); for(int i=0;i<n2;i++) y[i]=sx_real("y"); gsl_vector *a=n1?hx_v(x,n1):NULL,*b=n2?hx_v(y,n2):NULL;
        gsl_vector *o= in==2? apop_vector_stack(a,b) : apop_vector_stack(a,b,.inplace="yn"[in]); if(in==0&&a) sx_check(o==a,"stacked in place"); 
        double z[8]; for(int i=0;i<n1;i++) z[i]=x[i]; for(int i=0;i<n2;i++) z[n1+i]=y[i]; hx_vec(o,z,n1+n2,"vector stack"); hx_vec(b,y,n2,"second is untouched"); if(in){ hx_vec(a,x,n1,"first is untouched"); if(o){ gsl_vector_set_all(o,-77); hx_vec(a,x,n1,"result is its own"); hx_vec(b,y,n2,"result is its own"); } } sx_reach("vstack"); break; }
    case 4: { /* matrix stack */ int pos=sx_choice("pos",2),in=sx_choice("in",3); int r1=sx_choice("r1",3),c1=2,r2=1+sx_choice("r2",2),c2=2; if(pos){ int t=r1;r1=c1;c1=t; t=r2;r2=c2;c2=t; } int mis=sx_choice("mis",2); if(mis){ if(pos) r2++; else c2++; }
        gsl_matrix *a=mk(r1,c1,A,"a"),*b=mk(r2,c2,B,"b"); gsl_matrix *o= in==2? apop_matrix_stack(a,b,"rc"[pos]) : apop_matrix_stack(a,b,"rc"[pos],.inplace="yn"[in]);
        if(!a){ ckm(o,B,r2,c2,"stack onto nothing"); break; }
        if(mis){ sx_check(o==NULL,"mismatched sizes refused"); ckm(b,B,r2,c2,"refusal leaves second"); ckm(a,A,r1,c1,"refusal leaves first"); sx_reach("mismatch"); break; }
        int r=pos?r1:r1+r2,c=pos?c1+c2:c1; for(int i=0;i<r;i++)for(int j=0;j<c;j++) C[i][j]= pos? (j<c1?A[i][j]:B[i][j-c1]) : (i<r1?A[i][j]:B[i-r1][j]);
        ckm(o,C,r,c,"matrix stack"); ckm(b,B,r2,c2,"second is untouched"); if(in==0) sx_check(o==a,"stacked in place"); else { ckm(a,A,r1,c1,"first is untouched"); gsl_matrix_set_all(o,-77); ckm(a,A,r1,c1,"result is its own"); ckm(b,B,r2,c2,"result is its own"); }
        sx_check(apop_matrix_stack(b,NULL,.inplace='n')!=b,"stacking nothing copies"); sx_reach("mstack"); break; }
    case 5: { /* realloc */ int r=1+sx_choice("r",3),c=1+sx_choice("c",3),R=1+sx_choice("R",4),K=1+sx_choice("K",4); gsl_matrix *m=mk(r,c,A,"a"); gsl_matrix *o=apop_matrix_realloc(m,R,K); sx_check(o==m&&(int)o->size1==R&&(int)o->size2==K,"resized"); if(o&&(int)o->size1==R&&(int)o->size2==K) for(int i=0;i<R&&i<r;i++)for(int j=0;j<K&&j<c;j++) sx_check_same(gsl_matrix_get(o,i,j),A[i][j],"resizing keeps the overlap"); gsl_matrix_set_all(o,3); sx_check_eq(gsl_matrix_get(o,R-1,K-1),3,"resized matrix is usable"); sx_reach("mrealloc"); break; }
    case 6: { int n=1+sx_choice("n",3),N=1+sx_choice("N",5); for(int i=0;i<n;i++) x[i]=sx_real("x"); gsl_vector *v=hx_v(x,n); gsl_vector *o=apop_vector_realloc(v,N); sx_check(o==v&&(int)o->size==N,"resized vector"); for(int i=0;i<n&&i<N;i++) sx_check_same(gsl_vector_get(o,i),x[i],"resizing keeps the head"); gsl_vector_set_all(o,3); sx_check_eq(gsl_vector_get(o,N-1),3,"resized vector is usable"); gsl_vector *z=apop_vector_realloc(NULL,N); sx_check(z&&(int)z->size==N,"resizing NULL allocates"); gsl_matrix *zz=apop_matrix_realloc(NULL,N,2); sx_check(zz&&(int)zz->size1==N&&zz->size2==2,"resizing NULL allocates"); sx_reach("vrealloc"); break; }
    case 7: { /* views refused */ gsl_matrix *m=mk(3,3,A,"a"); gsl_matrix_view s=gsl_matrix_submatrix(m,0,0,2,2); sx_check(!apop_matrix_realloc(&s.matrix,4,4),"a submatrix view cannot be resized"); ckm(m,A,3,3,"and its source is untouched"); gsl_vector_view c=gsl_matrix_column(m,1); sx_check(!apop_vector_realloc(&c.vector,5),"a column view cannot be resized"); ckm(m,A,3,3,"and its source is untouched"); sx_reach("views"); break; }
    }
}
