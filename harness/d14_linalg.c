/* Dot products, determinants, inverses, definiteness, elementwise logs and exponentials, bounds checks. */
#include "hx.h"
static gsl_matrix *mk(int r,int c,double m[4][4],const char*p){ gsl_matrix *o=gsl_matrix_alloc(r,c); for(int i=0;i<r;i++)for(int j=0;j<c;j++){ m[i][j]=sx_real(p); gsl_matrix_set(o,i,j,m[i][j]); } return o; }
static double det3(double a[4][4],int n){ if(n==1) return a[0][0]; if(n==2) return a[0][0]*a[1][1]-a[0][1]*a[1][0]; return a[0][0]*(a[1][1]*a[2][2]-a[1][2]*a[2][1])-a[0][1]*(a[1][0]*a[2][2]-a[1][2]*a[2][0])+a[0][2]*(a[1][0]*a[2][1]-a[1][1]*a[2][0]); }
void sx_main(void){
    apop_opts.verbose=-1; double A[4][4],B[4][4]; 
    switch(sx_choice("op",6)){
    case 0: { /* dot */ static const char F[]={0,'n','t','p','v'}; int f1=sx_choice("f1",5),f2=sx_choice("f2",5),k1=sx_choice("k1",3),k2=sx_choice("k2",3); int r1=2,c1=sx_choice("c1",2)?2:3,r2=3-sx_choice("r2",2),c2=2; int nm=sx_choice("names",2); if(nm&&(f1==1||f2==1||f1==3)) return;
        int va=3,vb=3; if(k1!=0&&(k1==1||f1==4)) va=3-sx_choice("left length",2); if(k2!=0&&(k2==1||f2==4)) vb=3-sx_choice("right length",2); ds a=hx_ds("a",k1!=0?va:0,k1!=1?r1:0,c1,0), b=hx_ds("b",k2!=0?(k2==1||f2==4?vb:r2):0,k2!=1?r2:0,c2,0); if(k1==1) a.nr=a.nc=0; if(k2==1) b.nr=b.nc=0; if(nm){ hx_names(&a,"a",a.nr,a.nc,0,1); hx_names(&b,"b",b.nr,b.nc,0,1); }
        int um1=k1!=1&&f1!=4, um2=k2!=1&&f2!=4; apop_data *x=hx_build(&a),*y=hx_build(&b); apop_data *o= (!f1&&!f2)?apop_dot(x,y):apop_dot(x,y,.form1=F[f1],.form2=F[f2]);
        if((f1==4&&k1==0)||(f2==4&&k2==0)){ /* vector asked for, only a matrix present */ sx_check(o==NULL,"no vector to use"); hx_check(x,&a,"left alone",0); break; }
        int t1=um1&&(f1==2||f1==3),t2=um2&&(f2==2||f2==3); int R=um1?(t1?a.nc:a.nr):1,K1=um1?(t1?a.nr:a.nc):a.nv,K2=um2?(t2?b.nc:b.nr):b.nv,C=um2?(t2?b.nr:b.nc):1;
        sx_check(o!=NULL,"result"); if(!o) break; if(K1!=K2){ sx_check(o->error!=0,"mismatched dimensions flagged"); hx_check(x,&a,"left alone",0); hx_check(y,&b,"right alone",0); sx_reach("mismatch"); break; }
        sx_check(!o->error,"no error"); int ismat=um1&&um2; sx_check((o->matrix!=NULL)==ismat&&(o->vector!=NULL)==!ismat,"matrix or vector result"); int n= um1?R:C; if(ismat) { sx_check((int)o->matrix->size1==R&&(int)o->matrix->size2==C,"shape"); if((int)o->matrix->size1!=R||(int)o->matrix->size2!=C) break; } else { sx_check((int)o->vector->size==n,"length"); if((int)o->vector->size!=n) break; }
        for(int i=0;i<R;i++)for(int j=0;j<C;j++){ double s=0; for(int k=0;k<K1;k++) s+=(um1?(t1?a.m[k][i]:a.m[i][k]):a.v[k])*(um2?(t2?b.m[j][k]:b.m[k][j]):b.v[k]); sx_check_eq(ismat?gsl_matrix_get(o->matrix,i,j):gsl_vector_get(o->vector,um1?i:j),s,"dot product"); }
        if(nm&&(um1||um2)){ int rn=!um1?0:t1?a.cn:a.rn,cn=!um2?0:t2?b.rn:b.cn; sx_check(o->names->rowct==rn&&o->names->colct==cn,"names carried"); for(int i=0;i<rn&&i<o->names->rowct;i++) sx_check(!strcmp(o->names->row[i],t1?a.c[i]:a.r[i]),"row names"); for(int i=0;i<cn&&i<o->names->colct;i++) sx_check(!strcmp(o->names->col[i],t2?b.r[i]:b.c[i]),"column names"); }
        hx_check(x,&a,"left alone",0); hx_check(y,&b,"right alone",0); sx_reach("dot"); break; }
    case 1: { /* det and inverse */ int n=1+sx_choice("n",3),how=sx_choice("how",4); gsl_matrix *m=mk(n,n,A,"a"); double D=det3(A,n); gsl_matrix *inv=NULL; double d=0; 
        if(how==0) d=apop_matrix_determinant(m); else if(how==1) inv=apop_matrix_inverse(m); else d=apop_det_and_inv(m,&inv,how==2,1);
        for(int i=0;i<n;i++)for(int j=0;j<n;j++) sx_check_same(gsl_matrix_get(m,i,j),A[i][j],"input left alone");
        int sing= D==0; if(how==0){ sx_check_eq(d,D,"determinant"); sx_reach("det"); break; } 
        if(sing){ sx_check(inv==NULL,"no inverse of a singular matrix"); if(how>1) sx_check(isnan(d),"NaN on trouble"); sx_reach("singular"); break; }
        if(how==2) sx_check_eq(d,D,"determinant with inverse"); if(how==3) sx_check_eq(d,0,"zero when no determinant asked"); sx_check(inv!=NULL,"inverse exists"); if(!inv) break; for(int i=0;i<n;i++)for(int j=0;j<n;j++){ double s=0; for(int k=0;k<n;k++) s+=A[i][k]*gsl_matrix_get(inv,k,j); sx_check_eq(s,i==j,"matrix times inverse"); } sx_reach("inverse"); break; }
    case 2: { gsl_matrix *m=mk(2,3,A,"a"),*o=(void*)1; sx_check(isnan(apop_matrix_determinant(m)),"no determinant of a non-square matrix"); sx_check(isnan(apop_det_and_inv(m,&o,1,1))&&!o,"no inverse of a non-square matrix"); sx_check(!apop_matrix_inverse(m),"no inverse of a non-square matrix"); sx_check(!apop_dot(NULL,NULL),"NULL dot"); sx_reach("nonsquare"); break; }
    case 3: { /* positive definite */ int n=1+sx_choice("n",3); gsl_matrix *m=gsl_matrix_alloc(n,n); for(int i=0;i<n;i++)for(int j=0;j<=i;j++){ A[i][j]=A[j][i]=(i==2&&j==1&&0)?0:sx_real("s"); gsl_matrix_set(m,i,j,A[i][j]); gsl_matrix_set(m,j,i,A[i][j]); } int pd=1; for(int k=1;k<=n&&pd;k++){ double D=det3(A,k); if(D==0) return; if(D<0) pd=0; }
        sx_check(!!apop_matrix_is_positive_semidefinite(m,'d')==pd,"definite"); sx_check(!!apop_matrix_is_positive_semidefinite(m)==pd,"semidefinite, away from singularity"); sx_check(!apop_matrix_is_positive_semidefinite(NULL),"NULL is not"); sx_reach("pd"); break; }
    case 4: { double x[3]; for(int i=0;i<3;i++) x[i]=sx_pos("p"); gsl_vector *v=hx_v(x,3); int k=sx_choice("fn",3); if(k==0) apop_vector_log(v); else if(k==1) apop_vector_exp(v); else apop_vector_log10(v); for(int i=0;i<3;i++) sx_check_eq(gsl_vector_get(v,i),k==0?log(x[i]):k==1?exp(x[i]):log10(x[i]),"elementwise"); sx_reach("logs"); break; }
    case 5: { double x[2]; for(int i=0;i<2;i++){ int k=sx_choice("kind",4); x[i]=k==1?NAN:k==2?INFINITY:k==3?-INFINITY:sx_real("b"); } gsl_vector *v=hx_v(x,2); int fin=isfinite(x[0])&&isfinite(x[1]); sx_check(!!apop_vector_bounded(v)==fin,"finite"); double b=sx_pos("bound"); int in=fin&&x[0]<=b&&x[0]>=-b&&x[1]<=b&&x[1]>=-b; sx_check(!!apop_vector_bounded(v,b)==in,"within bounds"); sx_check(apop_vector_bounded(NULL)==1,"NULL is bounded"); sx_reach("bounded"); break; }
    }
}
