/* Divergence of one distribution from another, entropy of a model, the Beta distribution with a given mean and variance. */
#include "hx.h"
#include "draws.h"
#ifdef SX_THOROUGH
#define NP 4
#define NDR 4
#else
#define NP 3
#define NDR 2
#endif
static apop_data *rows(const double *x,int n,int lay){ apop_data *d=lay==1?apop_data_alloc(0,n,1):lay==2?apop_data_alloc(0,n,2):apop_data_alloc(n); for(int i=0;i<n;i++){ if(lay) gsl_matrix_set(d->matrix,i,0,x[i]); else gsl_vector_set(d->vector,i,x[i]); if(lay==2) gsl_matrix_set(d->matrix,i,1,i); } return d; }
static void setw(apop_data *d,const double *w,int n){ d->weights=gsl_vector_alloc(n); for(int i=0;i<n;i++) gsl_vector_set(d->weights,i,w[i]); }
static double npdf(double x,double m,double s){ return exp(-(x-m)*(x-m)/(2*s*s))/(s*sqrt(2*M_PI)); }
static double epdf(double x,double m){ return exp(-x/m)/m; }
void sx_main(void){
    apop_opts.verbose=-1; double x[4],y[4],w[4],v[4];
    switch(sx_choice("op",5)){
    case 0: { /* between two lists of points */
        int n=1+sx_choice("points",NP),lay=sx_choice("layout",3),wf=sx_choice("first weights",3),wt=sx_choice("second weights",2),miss=sx_choice("missing",n+1)-1,zero=wf==1&&n>1?sx_choice("zero weight",n+1)-1:-1,rot=sx_choice("order",n); double W=0,V=0; if(wf==2&&(miss>=0||lay==2)) return; for(int i=0;i<n;i++){ x[i]=7*i+.5; w[i]=i==zero?0:wf?sx_pos("w"):1; W+=w[i]; }
        int m=0; for(int i=0;i<n;i++){ int k=(i+rot)%n; if(k==miss) continue; y[m]=x[k]; v[m]=wt?sx_pos("v"):1; V+=v[m]; m++; } if(!m){ y[m]=99; v[m++]=1; V=1; }
        apop_data *d=rows(x,n,lay),*e=rows(y,m,lay); if(lay==2) for(int i=0;i<m;i++) gsl_matrix_set(e->matrix,i,1,(int)(y[i]/7)); if(wf==1) setw(d,w,n); if(wt) setw(e,v,m); apop_model *p=apop_estimate(d,apop_pmf),*q=apop_estimate(e,apop_pmf); if(wf==2) setw(p->data,w,n); /* weights set after */
        double want=0; int none=0; for(int i=0;i<n;i++){ if(i==zero) continue; double pi=w[i]/W,qi=0; for(int j=0;j<m;j++) if(y[j]==x[i]) qi=v[j]/V; if(i==miss) { none=1; continue; } want+=pi*log(pi/qi); }
        double g=apop_kl_divergence(p,q); if(none) sx_check(g==-INFINITY,"a point the second does not have"); else sx_check_eq(g,want,"sum of p log(p/q)"); sx_check_eq(apop_kl_divergence(p,p),0,"none from itself"); for(int i=0;i<n;i++) if(wf) sx_check_same(gsl_vector_get(d->weights,i),w[i],"weights left alone"); sx_reach("points"); break; }
    case 1: { /* from a list of points to a density */
        int n=1+sx_choice("points",NP),lay=sx_choice("layout",2),wf=sx_choice("weights",2); double W=0,mu=sx_real("mu"),s=sx_pos("s"),want=0; for(int i=0;i<n;i++){ x[i]=sx_real("x"); w[i]=wf?sx_pos("w"):1; W+=w[i]; } apop_data *d=rows(x,n,lay); if(wf) setw(d,w,n); apop_model *p=apop_estimate(d,apop_pmf),*q=apop_model_set_parameters(apop_normal,mu,s); for(int i=0;i<n;i++) want+=w[i]/W*(log(w[i]/W)+(x[i]-mu)*(x[i]-mu)/(2*s*s)+log(s)+log(2*M_PI)/2); sx_check_eq(apop_kl_divergence(p,q),want,"points against a density"); sx_reach("density"); break; }
    case 2: { /* by draws */
        int n=1+sx_choice("draws",NDR),to=sx_choice("to",2),nr=sx_choice("rng",2); double mu=sx_real("mu"),s=sx_pos("s"),m2=sx_real("mu2"),s2=sx_pos("s2"),want=0; apop_model *p=to?apop_model_set_parameters(apop_exponential,s):apop_model_set_parameters(apop_normal,mu,s),*q=to?apop_model_set_parameters(apop_exponential,s2):apop_model_set_parameters(apop_normal,m2,s2); sx_ndraws=0; double g=apop_kl_divergence(p,q,.draw_ct=n,.rng=nr?apop_rng_alloc(2):NULL); sx_check(sx_ndraws==n,"as many draws as asked for"); for(int i=0;i<n&&i<sx_ndraws;i++){ if(to){ double z=s*sx_draws[i].value; want+=log(s2/s)-z/s+z/s2; } else { double z=mu+s*sx_draws[i].value; want+=-(z-mu)*(z-mu)/(2*s*s)+(z-m2)*(z-m2)/(2*s2*s2)+log(s2/s); } } sx_check_eq(g,want/n,"average of log(p/q) over draws from the first"); sx_check(isnan(apop_kl_divergence(NULL,q))&&isnan(apop_kl_divergence(p,NULL)),"NULL models"); apop_model *nod=apop_model_copy(p); nod->dsize=0; sx_check(isnan(apop_kl_divergence(nod,q)),"no draw size"); sx_reach("draws"); break; }
    case 3: { /* entropy */
        int n=1+sx_choice("draws",NDR),k=sx_choice("model",2); double mu=sx_real("mu"),s=sx_pos("s"); sx_ndraws=0; if(k){ apop_model *p=apop_model_set_parameters(apop_exponential,s); double g=apop_model_entropy(p,n),want=0; sx_check(sx_ndraws==n,"as many draws as asked for"); for(int i=0;i<n&&i<sx_ndraws;i++) want+=sx_draws[i].value+log(s); sx_check_eq(g,want/n,"average of minus the log likelihood"); } else { apop_model *p=apop_model_set_parameters(apop_normal,mu,s); sx_check_eq(apop_model_entropy(p,n),log(2*M_PI)/2+log(s)+.5,"entropy of a Normal"); sx_check(sx_ndraws==0,"no draws needed"); } sx_check(isnan(apop_model_entropy(NULL)),"NULL model"); sx_reach("entropy"); break; }
    case 4: { double m=sx_real("m"),s=sx_pos("v"); apop_model *b=apop_beta_from_mean_var(m,s); if(m<=0||m>=1){ sx_check(b&&b->error=='r',"mean out of range"); sx_reach("range"); break; } sx_check(b&&!b->error&&b->parameters&&b->parameters->vector,"parameters"); double A=apop_data_get(b->parameters,0,-1),B=apop_data_get(b->parameters,1,-1); sx_assume_lt(s,m*(1-m)); sx_check_eq(A,m*(A+B),"mean"); sx_check_eq(A*B,s*(A+B)*(A+B)*(A+B+1),"variance"); sx_check_lt(0,A,"positive"); sx_check_lt(0,B,"positive"); sx_check(b->draw==apop_beta->draw,"a Beta"); sx_reach("beta"); break; }
    }
    (void)npdf;(void)epdf;
}
