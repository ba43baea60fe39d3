/* Kolmogorov-Smirnov tests. */
#include "hx.h"
#include "draws.h"
#ifdef SX_THOROUGH
#define NB 4
#define NK 3
#define NT 6
#else
#define NB 3
#define NK 2
#define NT 5
#endif
/* P(D<d) for the one-sample statistic, n=1,2, from the definition: n! times the volume where every order statistic is within d of its steps */
static double ks1(int n,double d){ if(n==1) return d<=.5?0:d>=1?1:2*d-1;
    if(d<=.25) return 0; if(d>=1) return 1; /* u1 in (max(0,.5-d), d), u2 in (1-d, min(1,.5+d)), u1<u2 */
    double a1=.5-d>0?.5-d:0,b1=d,a2=1-d,b2=.5+d<1?.5+d:1; double A=(b1-a1)*(b2-a2); /* minus the part with u1>u2 */
    if(b1>a2){ double lo=a1>a2?a1:a2; /* region u2<u1, u2 in (a2,..), u1 in (a1,b1) */ double full=(b1-lo)*(b1-lo)/2; double extra=lo>a2?(b1-lo)*(lo-a2):0; if(b2<b1) return NAN; A-=full+extra; } return 2*A; }
static void ksone(void){ int n=1+sx_choice("rows",NK),lay=sx_choice("layout",2),wt=sx_choice("weights",2),zw=wt&&n>1?sx_choice("zero weight",2)*n-1:-1; double x[5],w[5],W=0; apop_data *d=lay?apop_data_alloc(n,1):apop_data_alloc(n); for(int i=0;i<n;i++){ x[i]=sx_open("x",0,1); if(i) sx_assume_lt(x[i-1],x[i]); if(lay) gsl_matrix_set(d->matrix,i,0,x[i]); else gsl_vector_set(d->vector,i,x[i]); w[i]=wt?(n>1&&i==zw?0:2+i):1; W+=w[i]; } if(wt){ d->weights=gsl_vector_alloc(n); for(int i=0;i<n;i++) gsl_vector_set(d->weights,i,w[i]); }
    apop_model *m=apop_estimate(d,apop_pmf),*u=apop_model_set_parameters(apop_uniform,0,1); double D=0,s=0; for(int i=0;i<n;i++){ double a=x[i]-s/W,b=(s+w[i])/W-x[i]; s+=w[i]; if(a>D) D=a; if(b>D) D=b; }
    apop_data *t=apop_test_kolmogorov(m,u); sx_check_eq(apop_data_get(t,.rowname="max distance"),D,"largest distance between the CDFs"); double p=apop_data_get(t,.rowname="p value, 2 tail"),c=apop_data_get(t,.rowname="confidence, 2 tail"); sx_check_eq(p+c,1,"p and confidence"); if(n<=2&&zw<0) sx_check_eq(c,ks1(n,D),"distribution of the statistic"); sx_reach("ks one sample"); }
/* share of the interleavings of n1 and n2 points whose largest distance is below D (in units of 1/(n1*n2)) */
static int below,all; static void walk(int i,int j,int n1,int n2,int D,int ok){ int dist=abs(i*n2-j*n1); if(dist>=D) ok=0; if(i==n1&&j==n2){ all++; below+=ok; return; } if(i<n1) walk(i+1,j,n1,n2,D,ok); if(j<n2) walk(i,j+1,n1,n2,D,ok); }
static void kstwo(void){ int n1=1+sx_choice("first",NT-1),n2=1+sx_choice("second",NT-1); if(n1+n2>NT||(n1+n2==5&&abs(n1-n2)==1)) return; int lay=sx_choice("layout",2),lay2=n1+n2<4?sx_choice("second layout",2):lay; double x[5],y[5]; apop_data *d1=lay?apop_data_alloc(n1,1):apop_data_alloc(n1),*d2=lay2?apop_data_alloc(n2,1):apop_data_alloc(n2);
    for(int i=0;i<n1;i++){ x[i]=sx_real("x"); if(i) sx_assume_lt(x[i-1],x[i]); if(lay) gsl_matrix_set(d1->matrix,i,0,x[i]); else gsl_vector_set(d1->vector,i,x[i]); } for(int i=0;i<n2;i++){ y[i]=sx_real("y"); if(i) sx_assume_lt(y[i-1],y[i]); if(lay2) gsl_matrix_set(d2->matrix,i,0,y[i]); else gsl_vector_set(d2->vector,i,y[i]); }
    int zw=0; if(n1>1&&n1+n2<=4&&!lay) zw=sx_choice("weight zero",3); double w1=1,w2=1; if(zw){ d1->weights=gsl_vector_alloc(n1); for(int i=0;i<n1;i++) gsl_vector_set(d1->weights,i,i==zw-1&&zw<=n1?0:1); int N=n1-(zw<=n1); double best=0; for(int k=0;k<n1+n2;k++){ double at=k<n1?x[k]:y[k-n1],a=0,b=0; for(int i=0;i<n1;i++) a+=x[i]<=at&&i!=zw-1; for(int i=0;i<n2;i++) b+=y[i]<=at; double dd=fabs(a/N-b/n2); if(dd>best) best=dd; } apop_data *t=apop_test_kolmogorov(apop_estimate(d1,apop_pmf),apop_estimate(d2,apop_pmf)); sx_check(fabs(apop_data_get(t,.rowname="max distance")-best)<1e-12,"rows of weight zero do not count"); sx_reach("zero weight"); return; } (void)w1;(void)w2; int D=0; for(int k=0;k<n1+n2;k++){ double at=k<n1?x[k]:y[k-n1]; int a=0,b=0; for(int i=0;i<n1;i++) a+=x[i]<=at; for(int i=0;i<n2;i++) b+=y[i]<=at; int dd=abs(a*n2-b*n1); if(dd>D) D=dd; }
    apop_data *t=apop_test_kolmogorov(apop_estimate(d1,apop_pmf),apop_estimate(d2,apop_pmf)); double g=apop_data_get(t,.rowname="max distance"); sx_check(fabs(g-D/(double)(n1*n2))<1e-12,"largest distance between the two samples' CDFs"); below=all=0; walk(0,0,n1,n2,D,1); double c=apop_data_get(t,.rowname="confidence, 2 tail"); sx_check(fabs(c-below/(double)all)<1e-12,"exact two-sample distribution"); sx_check(fabs(apop_data_get(t,.rowname="p value, 2 tail")-(1-c))<1e-12,"p and confidence"); sx_reach("ks two sample"); }
void sx_main(void){ apop_opts.verbose=-1; int k=sx_choice("part",2); if(k==0) kstwo(); else ksone(); }
