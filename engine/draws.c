/* Random draws as symbolic inputs: each call returns a fresh unknown of the right range, and logs its
   parameters so that a harness can say which distribution the code drew from.  In the engine the functions
   are the models of GSL's; in replay they replace GSL's and hand back the solver's values. */
#include <gsl/gsl_rng.h>
#include <gsl/gsl_math.h>
#include <string.h>
#include "sx.h"
#include "draws.h"
#ifdef SX_REPLAY
#define N(x) x
#else
#define N(x) sxm_##x
#endif
sx_draw sx_draws[SX_MAXDRAWS]; int sx_ndraws;
static double lg(const char*n,double a,double b,double v){ if(sx_ndraws<SX_MAXDRAWS){ sx_draw*d=sx_draws+sx_ndraws++; strncpy(d->name,n,15); d->a=a; d->b=b; d->value=v; } return v; }
double N(gsl_rng_uniform)(const gsl_rng*r){ double u=sx_in("u01",0,1); sx_assume_lt(u,1); return lg("uniform",0,1,u); }
double N(gsl_rng_uniform_pos)(const gsl_rng*r){ return lg("uniform",0,1,sx_open("u01",0,1)); }
unsigned long N(gsl_rng_uniform_int)(const gsl_rng*r,unsigned long n){ if(n>8) n=8; int k=sx_choice("uint",n); lg("uniform_int",n,0,k); return k; }
unsigned long N(gsl_rng_get)(const gsl_rng*r){ return sx_choice("rngget",2); }
double N(gsl_ran_gaussian)(const gsl_rng*r,double s){ return s*lg("gaussian",s,0,sx_real("gauss")); }
double N(gsl_ran_exponential)(const gsl_rng*r,double m){ return m*lg("exponential",m,0,sx_pos("expo")); }
double N(gsl_ran_gamma)(const gsl_rng*r,double a,double b){ return b*lg("gamma",a,b,sx_pos("gam")); }
double N(gsl_ran_beta)(const gsl_rng*r,double a,double b){ int again=sx_ndraws&&!strcmp(sx_draws[sx_ndraws-1].name,"beta"); return lg("beta",a,b,again?sx_in("bet",1e-9,1-1e-9):sx_open("bet",0,1)); } /* a redraw is well inside (0,1) */
double N(gsl_ran_tdist)(const gsl_rng*r,double nu){ return lg("tdist",nu,0,sx_real("tdr")); }
double N(gsl_ran_flat)(const gsl_rng*r,double a,double b){ return a+(b-a)*lg("flat",a,b,sx_open("u01",0,1)); }
unsigned N(gsl_ran_poisson)(const gsl_rng*r,double mu){ int k=sx_choice("pois",3); lg("poisson",mu,0,k); return k; }
unsigned N(gsl_ran_binomial)(const gsl_rng*r,double p,unsigned n){ int k= p>=1?n: p<=0?0: sx_choice("bino",(n<3?n:3)+1); lg("binomial",p,n,k); return k; }
unsigned N(gsl_ran_binomial_knuth)(const gsl_rng*r,double p,unsigned n){ return N(gsl_ran_binomial)(r,p,n); }
void N(gsl_ran_dirichlet)(const gsl_rng*r,size_t K,const double*al,double*th){ double s=0; for(size_t i=0;i<K;i++){ th[i]=lg("gamma",al[i],1,sx_pos("gam")); s+=th[i]; } for(size_t i=0;i<K;i++) th[i]/=s; }
