/* Reference models of the external numerical routines the library calls (GSL), written from the GSL
   manual's definitions.  Compiled through the same pass, so they act on symbolic numbers. */
#include <gsl/gsl_vector.h>
#include <gsl/gsl_matrix.h>
#include <gsl/gsl_blas.h>
#include <gsl/gsl_permutation.h>
#include <gsl/gsl_rng.h>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_math.h>
#include <gsl/gsl_integration.h>
#include <sqlite3.h>
#include <string.h>
#include <stdlib.h>
#include "sx.h"
double log(double), exp(double), sqrt(double), pow(double,double), lgamma(double), gsl_sf_lnbeta(double,double), gsl_sf_lnchoose(unsigned,unsigned), gsl_sf_gamma(double), gsl_sf_lnfact(unsigned);
#define G gsl_vector_get
#define ST gsl_vector_set
#define LEN(a,b) if((a)->size!=(b)->size){ gsl_error("vectors must have same length",__FILE__,__LINE__,GSL_EBADLEN); return GSL_EBADLEN; }
int sxm_gsl_vector_add(gsl_vector*a,const gsl_vector*b){ LEN(a,b) for(size_t i=0;i<a->size;i++) ST(a,i,G(a,i)+G(b,i)); return 0; }
int sxm_gsl_vector_sub(gsl_vector*a,const gsl_vector*b){ LEN(a,b) for(size_t i=0;i<a->size;i++) ST(a,i,G(a,i)-G(b,i)); return 0; }
int sxm_gsl_vector_mul(gsl_vector*a,const gsl_vector*b){ LEN(a,b) for(size_t i=0;i<a->size;i++) ST(a,i,G(a,i)*G(b,i)); return 0; }
int sxm_gsl_vector_div(gsl_vector*a,const gsl_vector*b){ LEN(a,b) for(size_t i=0;i<a->size;i++) ST(a,i,G(a,i)/G(b,i)); return 0; }
int sxm_gsl_vector_scale(gsl_vector*a,double x){ for(size_t i=0;i<a->size;i++) ST(a,i,G(a,i)*x); return 0; }
int sxm_gsl_vector_add_constant(gsl_vector*a,double x){ for(size_t i=0;i<a->size;i++) ST(a,i,G(a,i)+x); return 0; }
double sxm_gsl_vector_max(const gsl_vector*a){ double m=G(a,0); for(size_t i=0;i<a->size;i++){ double x=G(a,i); if(x!=x) return x; if(x>m) m=x; } return m; }
double sxm_gsl_vector_min(const gsl_vector*a){ double m=G(a,0); for(size_t i=0;i<a->size;i++){ double x=G(a,i); if(x!=x) return x; if(x<m) m=x; } return m; }
void sxm_gsl_vector_minmax(const gsl_vector*a,double*mi,double*ma){ *mi=sxm_gsl_vector_min(a); *ma=sxm_gsl_vector_max(a); }
size_t sxm_gsl_vector_max_index(const gsl_vector*a){ size_t k=0; for(size_t i=0;i<a->size;i++) if(G(a,i)>G(a,k)) k=i; return k; }
size_t sxm_gsl_vector_min_index(const gsl_vector*a){ size_t k=0; for(size_t i=0;i<a->size;i++) if(G(a,i)<G(a,k)) k=i; return k; }
double sxm_gsl_vector_sum(const gsl_vector*a){ double s=0; for(size_t i=0;i<a->size;i++) s+=G(a,i); return s; }
int sxm_gsl_vector_isnull(const gsl_vector*a){ for(size_t i=0;i<a->size;i++) if(G(a,i)!=0) return 0; return 1; }
int sxm_gsl_vector_equal(const gsl_vector*a,const gsl_vector*b){ for(size_t i=0;i<a->size;i++) if(G(a,i)!=G(b,i)) return 0; return 1; }
#define MG gsl_matrix_get
#define MS gsl_matrix_set
#define ML(a,b) if((a)->size1!=(b)->size1||(a)->size2!=(b)->size2){ gsl_error("matrices must have same dimensions",__FILE__,__LINE__,GSL_EBADLEN); return GSL_EBADLEN; }
#define MOP(nm,op) int sxm_gsl_matrix_##nm(gsl_matrix*a,const gsl_matrix*b){ ML(a,b) for(size_t i=0;i<a->size1;i++) for(size_t j=0;j<a->size2;j++) MS(a,i,j,MG(a,i,j) op MG(b,i,j)); return 0; }
MOP(add,+) MOP(sub,-) MOP(mul_elements,*) MOP(div_elements,/)
int sxm_gsl_matrix_scale(gsl_matrix*a,double x){ for(size_t i=0;i<a->size1;i++) for(size_t j=0;j<a->size2;j++) MS(a,i,j,MG(a,i,j)*x); return 0; }
int sxm_gsl_matrix_add_constant(gsl_matrix*a,double x){ for(size_t i=0;i<a->size1;i++) for(size_t j=0;j<a->size2;j++) MS(a,i,j,MG(a,i,j)+x); return 0; }
double sxm_gsl_matrix_max(const gsl_matrix*a){ double m=MG(a,0,0); for(size_t i=0;i<a->size1;i++) for(size_t j=0;j<a->size2;j++){ double x=MG(a,i,j); if(x!=x) return x; if(x>m) m=x; } return m; }
double sxm_gsl_matrix_min(const gsl_matrix*a){ double m=MG(a,0,0); for(size_t i=0;i<a->size1;i++) for(size_t j=0;j<a->size2;j++){ double x=MG(a,i,j); if(x!=x) return x; if(x<m) m=x; } return m; }
int sxm_gsl_blas_ddot(const gsl_vector*a,const gsl_vector*b,double*r){ if(a->size!=b->size){ gsl_error("invalid length",__FILE__,__LINE__,GSL_EBADLEN); return GSL_EBADLEN; } double s=0; for(size_t i=0;i<a->size;i++) s+=G(a,i)*G(b,i); *r=s; return 0; }
double sxm_gsl_blas_dnrm2(const gsl_vector*a){ double s=0; for(size_t i=0;i<a->size;i++) s+=G(a,i)*G(a,i); return sqrt(s); }
double sxm_gsl_blas_dasum(const gsl_vector*a){ double s=0; for(size_t i=0;i<a->size;i++){ double x=G(a,i); s+= x<0?-x:x; } return s; }
int sxm_gsl_blas_daxpy(double al,const gsl_vector*x,gsl_vector*y){ if(x->size!=y->size){ gsl_error("invalid length",__FILE__,__LINE__,GSL_EBADLEN); return GSL_EBADLEN; } for(size_t i=0;i<x->size;i++) ST(y,i,al*G(x,i)+G(y,i)); return 0; }
static double T(CBLAS_TRANSPOSE_t t,const gsl_matrix*m,size_t i,size_t j){ return t==CblasNoTrans?MG(m,i,j):MG(m,j,i); }
int sxm_gsl_blas_dgemv(CBLAS_TRANSPOSE_t t,double al,const gsl_matrix*A,const gsl_vector*x,double be,gsl_vector*y){
    size_t R=t==CblasNoTrans?A->size1:A->size2, C=t==CblasNoTrans?A->size2:A->size1; if(C!=x->size||R!=y->size){ gsl_error("invalid length",__FILE__,__LINE__,GSL_EBADLEN); return GSL_EBADLEN; }
    double *o=malloc(sizeof(double)*(R+1)); for(size_t i=0;i<R;i++){ double s=0; for(size_t j=0;j<C;j++) s+=T(t,A,i,j)*G(x,j); o[i]=al*s; if(be!=0) o[i]+=be*G(y,i); } for(size_t i=0;i<R;i++) ST(y,i,o[i]); free(o); return 0; }
int sxm_gsl_blas_dgemm(CBLAS_TRANSPOSE_t ta,CBLAS_TRANSPOSE_t tb,double al,const gsl_matrix*A,const gsl_matrix*B,double be,gsl_matrix*Cm){
    size_t M=Cm->size1,N=Cm->size2, MA=ta==CblasNoTrans?A->size1:A->size2, NA=ta==CblasNoTrans?A->size2:A->size1, MB=tb==CblasNoTrans?B->size1:B->size2, NB=tb==CblasNoTrans?B->size2:B->size1;
    if(M!=MA||N!=NB||NA!=MB){ gsl_error("invalid length",__FILE__,__LINE__,GSL_EBADLEN); return GSL_EBADLEN; }
    double *o=malloc(sizeof(double)*(M*N+1)); for(size_t i=0;i<M;i++) for(size_t j=0;j<N;j++){ double s=0; for(size_t k=0;k<NA;k++) s+=T(ta,A,i,k)*T(tb,B,k,j); o[i*N+j]=al*s; if(be!=0) o[i*N+j]+=be*MG(Cm,i,j); } for(size_t i=0;i<M;i++) for(size_t j=0;j<N;j++) MS(Cm,i,j,o[i*N+j]); free(o); return 0; }
int sxm_gsl_blas_dsymv(CBLAS_UPLO_t u,double al,const gsl_matrix*A,const gsl_vector*x,double be,gsl_vector*y){
    size_t M=A->size1,N=A->size2; if(M!=N){ gsl_error("matrix must be square",__FILE__,__LINE__,GSL_ENOTSQR); return GSL_ENOTSQR; } if(N!=x->size||N!=y->size){ gsl_error("invalid length",__FILE__,__LINE__,GSL_EBADLEN); return GSL_EBADLEN; }
    double *o=malloc(sizeof(double)*(N+1)); for(size_t i=0;i<N;i++){ double s=0; for(size_t j=0;j<N;j++){ size_t a=i,b=j; if((u==CblasUpper&&a>b)||(u==CblasLower&&a<b)){ a=j;b=i; } s+=MG(A,a,b)*G(x,j); } o[i]=al*s; if(be!=0) o[i]+=be*G(y,i); } for(size_t i=0;i<N;i++) ST(y,i,o[i]); free(o); return 0; }
/* PA = LU, Doolittle; the pivot is the first nonzero entry (any valid pivoting yields the same det and inverse over the reals) */
int sxm_gsl_linalg_LU_decomp(gsl_matrix*A,gsl_permutation*p,int*signum){ size_t n=A->size1; if(n!=A->size2){ gsl_error("LU decomposition requires square matrix",__FILE__,__LINE__,GSL_ENOTSQR); return GSL_ENOTSQR; } if(p->size!=n){ gsl_error("permutation length",__FILE__,__LINE__,GSL_EBADLEN); return GSL_EBADLEN; }
    *signum=1; for(size_t i=0;i<n;i++) p->data[i]=i;
    for(size_t j=0;j+1<n;j++){ size_t k=j; for(;k<n;k++) if(MG(A,k,j)!=0) break; if(k==n) continue; if(k!=j){ for(size_t c=0;c<n;c++){ double t=MG(A,j,c); MS(A,j,c,MG(A,k,c)); MS(A,k,c,t); } size_t t=p->data[j]; p->data[j]=p->data[k]; p->data[k]=t; *signum=-*signum; }
        for(size_t i=j+1;i<n;i++){ double f=MG(A,i,j)/MG(A,j,j); MS(A,i,j,f); for(size_t c=j+1;c<n;c++) MS(A,i,c,MG(A,i,c)-f*MG(A,j,c)); } }
    return 0; }
double sxm_gsl_linalg_LU_det(gsl_matrix*LU,int s){ double d=s; for(size_t i=0;i<LU->size1;i++) d*=MG(LU,i,i); return d; }
double sxm_gsl_linalg_LU_lndet(gsl_matrix*LU){ double d=0; for(size_t i=0;i<LU->size1;i++){ double x=MG(LU,i,i); d+=log(x<0?-x:x);} return d; }
static int lusolve(const gsl_matrix*LU,const gsl_permutation*p,double*b){ size_t n=LU->size1; double*x=malloc(sizeof(double)*n); for(size_t i=0;i<n;i++){ double s=b[p->data[i]]; for(size_t j=0;j<i;j++) s-=MG(LU,i,j)*x[j]; x[i]=s; } for(size_t ii=n;ii>0;ii--){ size_t i=ii-1; double s=x[i]; for(size_t j=i+1;j<n;j++) s-=MG(LU,i,j)*x[j]; x[i]=s/MG(LU,i,i); } memcpy(b,x,sizeof(double)*n); free(x); return 0; }
int sxm_gsl_linalg_LU_invert(const gsl_matrix*LU,const gsl_permutation*p,gsl_matrix*inv){ size_t n=LU->size1; for(size_t i=0;i<n;i++) if(MG(LU,i,i)==0){ gsl_error("matrix is singular",__FILE__,__LINE__,GSL_EDOM); return GSL_EDOM; }
    double*b=malloc(sizeof(double)*n); for(size_t j=0;j<n;j++){ for(size_t i=0;i<n;i++) b[i]=(i==j); lusolve(LU,p,b); for(size_t i=0;i<n;i++) MS(inv,i,j,b[i]); } free(b); return 0; }
int sxm_gsl_linalg_cholesky_decomp(gsl_matrix*A){ size_t n=A->size1; for(size_t j=0;j<n;j++){ double d=MG(A,j,j); for(size_t k=0;k<j;k++) d-=MG(A,j,k)*MG(A,j,k); if(!(d>0)){ gsl_error("matrix must be positive definite",__FILE__,__LINE__,GSL_EDOM); return GSL_EDOM; } d=sqrt(d); MS(A,j,j,d); for(size_t i=j+1;i<n;i++){ double s=MG(A,i,j); for(size_t k=0;k<j;k++) s-=MG(A,i,k)*MG(A,j,k); MS(A,i,j,s/d); } } 
    for(size_t i=0;i<n;i++) for(size_t j=i+1;j<n;j++) MS(A,i,j,MG(A,j,i)); return 0; }
int sxm_gsl_linalg_HH_solve(gsl_matrix*A,const gsl_vector*b,gsl_vector*x){ size_t N=A->size1,M=A->size2; if(M>N){ gsl_error("System is underdetermined",__FILE__,__LINE__,GSL_EINVAL); return GSL_EINVAL; } if(N!=M) return GSL_EBADLEN; int s; gsl_permutation*p=gsl_permutation_alloc(N); gsl_matrix*c=gsl_matrix_alloc(N,N); gsl_matrix_memcpy(c,A); sxm_gsl_linalg_LU_decomp(c,p,&s);
    for(size_t i=0;i<N;i++) if(MG(c,i,i)==0){ gsl_permutation_free(p); gsl_matrix_free(c); gsl_error("matrix is singular",__FILE__,__LINE__,GSL_ESING); return GSL_ESING; }
    double*t=malloc(sizeof(double)*N); for(size_t i=0;i<N;i++) t[i]=G(b,i); lusolve(c,p,t); for(size_t i=0;i<N;i++) ST(x,i,t[i]); free(t); gsl_permutation_free(p); gsl_matrix_free(c); return 0; }
/* statistics (GSL manual) */
double sxm_gsl_stats_mean(const double*d,size_t s,size_t n){ double t=0; for(size_t i=0;i<n;i++) t+=d[i*s]; return t/n; }
double sxm_gsl_stats_variance_m(const double*d,size_t s,size_t n,double m){ double t=0; for(size_t i=0;i<n;i++) t+=(d[i*s]-m)*(d[i*s]-m); return t/(n-1.0); }
double sxm_gsl_stats_variance(const double*d,size_t s,size_t n){ return sxm_gsl_stats_variance_m(d,s,n,sxm_gsl_stats_mean(d,s,n)); }
double sxm_gsl_stats_covariance(const double*a,size_t sa,const double*b,size_t sb,size_t n){ double ma=sxm_gsl_stats_mean(a,sa,n),mb=sxm_gsl_stats_mean(b,sb,n),t=0; for(size_t i=0;i<n;i++) t+=(a[i*sa]-ma)*(b[i*sb]-mb); return t/(n-1.0); }
double sxm_gsl_stats_correlation(const double*a,size_t sa,const double*b,size_t sb,size_t n){ return sxm_gsl_stats_covariance(a,sa,b,sb,n)/sqrt(sxm_gsl_stats_variance(a,sa,n)*sxm_gsl_stats_variance(b,sb,n)); }
/* sorting */
void sxm_gsl_sort_vector(gsl_vector*v){ for(size_t i=1;i<v->size;i++){ double x=G(v,i); size_t j=i; while(j>0&&G(v,j-1)>x){ ST(v,j,G(v,j-1)); j--; } ST(v,j,x); } }
int sxm_gsl_sort_vector_index(gsl_permutation*p,const gsl_vector*v){ for(size_t i=0;i<v->size;i++) p->data[i]=i; for(size_t i=1;i<v->size;i++){ size_t k=p->data[i]; double x=G(v,k); size_t j=i; while(j>0&&G(v,p->data[j-1])>x){ p->data[j]=p->data[j-1]; j--; } p->data[j]=k; } return 0; }
void sxm_gsl_sort(double*d,size_t s,size_t n){ for(size_t i=1;i<n;i++){ double x=d[i*s]; size_t j=i; while(j>0&&d[(j-1)*s]>x){ d[j*s]=d[(j-1)*s]; j--; } d[j*s]=x; } }
/* densities (GSL manual) */
double sxm_gsl_ran_gaussian_pdf(double x,double s){ return exp(-x*x/(2*s*s))/sqrt(2*M_PI*s*s); }
double sxm_gsl_ran_ugaussian_pdf(double x){ return exp(-x*x/2)/sqrt(2*M_PI); }
double sxm_gsl_ran_exponential_pdf(double x,double mu){ return x<0?0:exp(-x/mu)/mu; }
double sxm_gsl_ran_gamma_pdf(double x,double a,double b){ if(x<0) return 0; if(x==0) return a==1?1/b:0; return exp((a-1)*log(x/b)-x/b-lgamma(a))/b; }
double sxm_gsl_ran_beta_pdf(double x,double a,double b){ if(x<0||x>1) return 0; return exp(-gsl_sf_lnbeta(a,b)+(a-1)*log(x)+(b-1)*log(1-x)); }
double sxm_gsl_ran_lognormal_pdf(double x,double z,double s){ if(x<=0) return 0; double u=(log(x)-z)/s; return exp(-u*u/2)/(x*fabs(s)*sqrt(2*M_PI)); }
double sxm_gsl_ran_binomial_pdf(unsigned k,double p,unsigned n){ if(k>n) return 0; if(p==0) return k==0; if(p==1) return k==n; return exp(gsl_sf_lnchoose(n,k)+k*log(p)+(n-k)*log(1-p)); }
double sxm_gsl_ran_bernoulli_pdf(unsigned k,double p){ return k==1?p:k==0?1-p:0; }
double sxm_gsl_ran_poisson_pdf(unsigned k,double mu){ return exp(log(mu)*k-gsl_sf_lnfact(k)-mu); }
double sxm_gsl_ran_tdist_pdf(double x,double nu){ return exp(lgamma((nu+1)/2)-lgamma(nu/2))/sqrt(M_PI*nu)*pow(1+x*x/nu,-(nu+1)/2); }
double sxm_gsl_ran_chisq_pdf(double x,double nu){ if(x<0) return 0; return exp((nu/2-1)*log(x/2)-x/2-lgamma(nu/2))/2; }
double sxm_gsl_ran_flat_pdf(double x,double a,double b){ return x<b&&x>=a?1/(b-a):0; }
double sxm_gsl_ran_dirichlet_lnpdf(size_t K,const double*al,const double*th){ double l=0,s=0; for(size_t i=0;i<K;i++) l+=(al[i]-1)*log(th[i]); for(size_t i=0;i<K;i++) s+=al[i]; l+=lgamma(s); for(size_t i=0;i<K;i++) l-=lgamma(al[i]); return l; }
double sxm_gsl_ran_dirichlet_pdf(size_t K,const double*al,const double*th){ return exp(sxm_gsl_ran_dirichlet_lnpdf(K,al,th)); }
double sxm_gsl_ran_multinomial_lnpdf(size_t K,const double*p,const unsigned*n){ unsigned N=0; for(size_t i=0;i<K;i++) N+=n[i]; double s=0; for(size_t i=0;i<K;i++) s+=p[i]; double l=gsl_sf_lnfact(N); for(size_t i=0;i<K;i++) if(n[i]>0) l+=log(p[i]/s)*n[i]-gsl_sf_lnfact(n[i]); return l; }
double sxm_gsl_ran_multinomial_pdf(size_t K,const double*p,const unsigned*n){ return exp(sxm_gsl_ran_multinomial_lnpdf(K,p,n)); }
double sxm_gsl_cdf_binomial_P(unsigned k,double p,unsigned n){ if(k>=n) return 1; double s=0; for(unsigned i=0;i<=k;i++) s+=sxm_gsl_ran_binomial_pdf(i,p,n); return s; }
double sxm_gsl_cdf_binomial_Q(unsigned k,double p,unsigned n){ return 1-sxm_gsl_cdf_binomial_P(k,p,n); }
double sxm_gsl_cdf_lognormal_Q(double x,double z,double s){ extern double gsl_cdf_lognormal_P(double,double,double); return 1-gsl_cdf_lognormal_P(x,z,s); }
double sxm_gsl_cdf_flat_Q(double x,double a,double b){ extern double gsl_cdf_flat_P(double,double,double); return 1-gsl_cdf_flat_P(x,a,b); }
/* random numbers: see draws.c */
/* sqlite: symbolic numbers travel as numeric tokens */
extern double sx_alias(double), sx_unalias(double);
double sqlite3_column_double_native(sqlite3_stmt*,int);
int sxm_sqlite3_bind_double(sqlite3_stmt*s,int i,double d){ extern int sxn_bind_double(sqlite3_stmt*,int,double); return sxn_bind_double(s,i,sx_alias(d)); }
double sxm_sqlite3_value_double(sqlite3_value*v){ extern double sxn_value_double(sqlite3_value*); return sx_unalias(sxn_value_double(v)); }
double sxm_sqlite3_column_double(sqlite3_stmt*s,int i){ extern double sxn_column_double(sqlite3_stmt*,int); return sx_unalias(sxn_column_double(s,i)); }
void sxm_sqlite3_result_double(sqlite3_context*c,double d){ extern void sxn_result_double(sqlite3_context*,double); sxn_result_double(c,sx_alias(d)); }
/* not called by the library today, but natural in its place */
void sxm_gsl_blas_dscal(double al,gsl_vector*x){ for(size_t i=0;i<x->size;i++) ST(x,i,al*G(x,i)); }
int sxm_gsl_blas_dcopy(const gsl_vector*x,gsl_vector*y){ LEN(x,y) for(size_t i=0;i<x->size;i++) ST(y,i,G(x,i)); return 0; }
int sxm_gsl_vector_axpby(double al,const gsl_vector*x,double be,gsl_vector*y){ LEN(x,y) for(size_t i=0;i<x->size;i++) ST(y,i,al*G(x,i)+be*G(y,i)); return 0; }
int sxm_gsl_vector_ispos(const gsl_vector*a){ for(size_t i=0;i<a->size;i++) if(!(G(a,i)>0)) return 0; return 1; }
int sxm_gsl_vector_isneg(const gsl_vector*a){ for(size_t i=0;i<a->size;i++) if(!(G(a,i)<0)) return 0; return 1; }
int sxm_gsl_vector_isnonneg(const gsl_vector*a){ for(size_t i=0;i<a->size;i++) if(!(G(a,i)>=0)) return 0; return 1; }
int sxm_gsl_matrix_isnull(const gsl_matrix*a){ for(size_t i=0;i<a->size1;i++) for(size_t j=0;j<a->size2;j++) if(MG(a,i,j)!=0) return 0; return 1; }
int sxm_gsl_matrix_equal(const gsl_matrix*a,const gsl_matrix*b){ ML(a,b) for(size_t i=0;i<a->size1;i++) for(size_t j=0;j<a->size2;j++) if(MG(a,i,j)!=MG(b,i,j)) return 0; return 1; }
void sxm_gsl_matrix_minmax(const gsl_matrix*a,double*mi,double*ma){ *mi=sxm_gsl_matrix_min(a); *ma=sxm_gsl_matrix_max(a); }
double sxm_hypot(double a,double b){ return sqrt(a*a+b*b); }
double sxm_fdim(double a,double b){ return a!=a||b!=b?a+b:a>b?a-b:0; }
double sxm_exp2(double a){ return pow(2,a); }
double sxm_gsl_hypot(double a,double b){ return sqrt(a*a+b*b); }
double sxm_gsl_pow_5(double a){ return a*a*a*a*a; }
