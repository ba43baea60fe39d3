/* Log likelihoods of the discrete models are the sums of the logs of the documented probabilities. */
#include "hx.h"
#include <gsl/gsl_sf_zeta.h>
static double fact(int n){ return n<2?1:n*fact(n-1); }
void sx_main(void){
    apop_opts.verbose=-1; int k=sx_choice("model",5); apop_model *m=NULL; double w=0;
    if(k==3){ /* multinomial and binomial: one observation per row */
        int kind=sx_choice("bins",3), bins=kind==0?2:kind+1, rows=1+sx_choice("rows",2), n=1+sx_choice("draws",3);
        double p[4], s=0; for(int i=1;i<bins;i++){ p[i]=sx_open("p",0,1); s+=p[i]; } p[0]=1-s; sx_assume_lt(0,p[0]);
        m=apop_model_copy(kind==0?apop_binomial:apop_multinomial); if(kind){ m->vsize=bins; m->dsize=bins; } apop_prep(NULL,m);
        sx_check(m->parameters&&m->parameters->vector&&(int)m->parameters->vector->size==bins,"parameter vector is ready"); if(!m->parameters||!m->parameters->vector) return;
        gsl_vector_set(m->parameters->vector,0,n); for(int i=1;i<bins;i++) gsl_vector_set(m->parameters->vector,i,p[i]);
        apop_data *d=apop_data_alloc(rows,bins);
        for(int r=0;r<rows;r++){ int left=n; w+=log(fact(n)); for(int i=0;i<bins;i++){ int h= i==bins-1?left:sx_choice("hits",left+1); left-=h; apop_data_set(d,r,i,h); w+= h*log(p[i])-log(fact(h)); } }
        sx_check_eq(apop_log_likelihood(d,m),w,"multinomial log likelihood"); sx_check_eq(apop_p(d,m),exp(w),"multinomial likelihood");
        sx_check_eq(gsl_vector_get(m->parameters->vector,0),n,"parameters left alone"); for(int i=1;i<bins;i++) sx_check_same(gsl_vector_get(m->parameters->vector,i),p[i],"parameters left alone");
        sx_reach("multinomial"); return; }
    if(k==1&&sx_choice("not an integer",2)){ static const double f[]={.3,1.3,.7,2.5,2.75}; double z[2]={1,f[sx_choice("which",5)]}; sx_check(apop_log_likelihood(hx_lay(sx_choice("held",2),z),apop_model_set_parameters(apop_poisson,sx_pos("lambda")))==-INFINITY,"Poisson data are integers"); sx_reach("not an integer"); return; }
    int lay=sx_choice("layout",HX_LAYOUTS),n=hx_count(lay); double x[HM];
    switch(k){
    case 0: { double p=sx_open("p",0,1); m=apop_model_set_parameters(apop_bernoulli,p); for(int i=0;i<n;i++){ x[i]=sx_choice("x",2); w+=x[i]?log(p):log(1-p); } break; }
    case 1: { double l=sx_pos("lambda"); m=apop_model_set_parameters(apop_poisson,l); for(int i=0;i<n;i++){ int c=n>3&&i>1?i:sx_choice("x",4); x[i]=c; w+=c*log(l)-l-log(fact(c)); } break; }
    case 2: { double b=1+sx_pos("b"); m=apop_model_set_parameters(apop_yule,b); for(int i=0;i<n;i++){ x[i]=1+(sx_choice("int",2)?(double)sx_choice("x",3):sx_pos("x")); w+=log(b-1)+lgamma(b)+lgamma(x[i])-lgamma(x[i]+b); } break; }
    case 4: { double a=1+sx_pos("a"); m=apop_model_set_parameters(apop_zipf,a); for(int i=0;i<n;i++){ x[i]=1+sx_pos("x"); w+=-a*log(x[i])-log(gsl_sf_zeta(a)); } break; }
    }
    apop_data *d=hx_lay(lay,x); sx_check_eq(apop_log_likelihood(d,m),w,"log likelihood is the sum of log probabilities"); sx_check_eq(apop_p(d,m),exp(w),"likelihood"); sx_reach("discrete");
}
