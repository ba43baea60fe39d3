/* Log likelihoods of the univariate continuous models: the sum of the logs of the documented densities,
   for data in the vector, the matrix, or both; the probability is its exponential. */
#include "hx.h"
#define L2PI (log(2*M_PI))
static double lnorm(double x,double m,double s){ return -(x-m)*(x-m)/(2*s*s)-L2PI/2-log(s); }
static double lt(double x,double m,double s,double df){ double z=(x-m)/s; return lgamma((df+1)/2)-lgamma(df/2)-log(M_PI*df)/2-(df+1)/2*log(1+z*z/df)-log(s); }
void sx_main(void){
    apop_opts.verbose=-1; int lay=sx_choice("layout",HX_LAYOUTS),n=hx_count(lay),k=sx_choice("model",9); double x[HM],w=0; apop_model *m=NULL;
    switch(k){
    case 0: { double mu=sx_real("mu"),s=sx_pos("sd"); m=apop_model_set_parameters(apop_normal,mu,s); for(int i=0;i<n;i++){ x[i]=sx_real("x"); w+=lnorm(x[i],mu,s); } break; }
    case 1: { double mu=sx_real("mu"),s=sx_pos("sd"); m=apop_model_set_parameters(apop_lognormal,mu,s); for(int i=0;i<n;i++){ x[i]=sx_pos("x"); w+=lnorm(log(x[i]),mu,s)-log(x[i]); } break; }
    case 2: { double mu=sx_pos("mean"); m=apop_model_set_parameters(apop_exponential,mu); for(int i=0;i<n;i++){ x[i]=sx_pos("x"); w+=-log(mu)-x[i]/mu; } break; }
    case 3: { double a=sx_pos("a"),b=sx_pos("b"); m=apop_model_set_parameters(apop_gamma,a,b); for(int i=0;i<n;i++){ x[i]=sx_pos("x"); w+=(a-1)*log(x[i])-x[i]/b-lgamma(a)-a*log(b); } break; }
    case 4: { double a=sx_pos("a"),b=sx_pos("b"); m=apop_model_set_parameters(apop_beta,a,b); for(int i=0;i<n;i++){ x[i]=sx_open("x",0,1); w+=(a-1)*log(x[i])+(b-1)*log(1-x[i])-lgamma(a)-lgamma(b)+lgamma(a+b); } break; }
    case 5: { double mu=sx_real("mu"),s=sx_pos("sd"),df=sx_pos("df"); m=apop_model_set_parameters(apop_t_distribution,mu,s,df); for(int i=0;i<n;i++){ x[i]=sx_real("x"); w+=lt(x[i],mu,s,df); } break; }
    case 6: { double a=sx_real("a"),b=a+sx_pos("width"); m=apop_model_set_parameters(apop_uniform,a,b); int out=0; for(int i=0;i<n;i++){ x[i]=sx_real("x"); if(x[i]<a||x[i]>b) out=1; w+=-log(b-a); } if(out){ sx_check(apop_log_likelihood(hx_lay(lay,x),m)==-INFINITY&&apop_p(hx_lay(lay,x),m)==0,"outside the support"); sx_reach("outside"); return; } break; }
    case 7: { m=apop_model_copy(apop_improper_uniform); for(int i=0;i<n;i++) x[i]=sx_real("x"); break; }
    case 8: { /* outside the support of beta */ double a=sx_pos("a"),b=sx_pos("b"); m=apop_model_set_parameters(apop_beta,a,b); for(int i=0;i<n;i++) x[i]=sx_open("x",0,1); int bad=sx_choice("bad",n); x[bad]=sx_choice("side",2)?1+sx_pos("over"):-sx_pos("under"); sx_check(apop_log_likelihood(hx_lay(lay,x),m)==-INFINITY,"outside the support"); sx_reach("beta outside"); return; }
    }
    apop_data *d=hx_lay(lay,x); double ll=apop_log_likelihood(d,m); sx_check_eq(ll,w,"log likelihood is the sum of log densities"); if(k!=6||n<4) sx_check_eq(apop_p(d,m),exp(w),"likelihood");
    int q=0; if(d->vector) for(size_t i=0;i<d->vector->size;i++) sx_check_same(gsl_vector_get(d->vector,i),x[q++],"data left alone"); if(d->matrix) for(size_t i=0;i<d->matrix->size1;i++)for(size_t j=0;j<d->matrix->size2;j++) sx_check_same(gsl_matrix_get(d->matrix,i,j),x[q++],"data left alone");
    sx_reach("density");
}
