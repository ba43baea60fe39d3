/* Cumulative distribution functions: closed forms, and the share of draws at or below the point. */
#include "hx.h"
#include <gsl/gsl_cdf.h>
static double q[16]; static int qn; static int draw(double*o,gsl_rng*r,apop_model*m){ for(int i=0;i<m->dsize;i++) o[i]=q[qn++]; return 0; }
static apop_data *pt(int how,double x){ apop_data *d; if(how==0){ d=apop_data_alloc(1); gsl_vector_set(d->vector,0,x); } else if(how==1){ d=apop_data_alloc(1,1); apop_data_set(d,0,0,x); } else if(how==2){ d=apop_data_alloc(2); gsl_vector_set(d->vector,0,x); gsl_vector_set(d->vector,1,sx_real("other")); } else if(how==4){ d=apop_data_alloc(1,1,1); gsl_vector_set(d->vector,0,x); apop_data_set(d,0,0,sx_real("other")); } else { d=apop_data_alloc(2,2); for(int i=0;i<4;i++) apop_data_set(d,i/2,i%2,i?sx_real("other"):x); } return d; }
void sx_main(void){
    apop_opts.verbose=-1; int k=sx_choice("model",11);
    if(k==10){ /* by drawing */ int dim=1+sx_choice("dim",2),n=1+sx_choice("draws",3),how=sx_choice("held",3); apop_model *m=apop_model_copy(apop_improper_uniform); m->cdf=NULL; m->draw=draw; m->dsize=dim; m->vsize=0; Apop_model_add_group(m,apop_cdf,.draws=n); double x[2]; int hits=0; for(int j=0;j<dim;j++) x[j]=sx_real("x"); for(int i=0;i<n*dim;i++) q[i]=sx_real("draw"); qn=0;
        apop_data *d; int rows=1+sx_choice("rows",2); if(how==2&&dim==1) how=0; d= how==0?(dim==1?apop_data_alloc(rows):NULL):how==1?apop_data_alloc(rows,dim):apop_data_alloc(rows,rows,1); if(!d) d=apop_data_alloc(rows,dim); if(d->vector) gsl_vector_set_all(d->vector,0); if(d->matrix) gsl_matrix_set_all(d->matrix,0); if(d->vector&&d->matrix){ gsl_vector_set(d->vector,0,x[0]); apop_data_set(d,0,0,x[1]); } else if(d->vector) gsl_vector_set(d->vector,0,x[0]); else for(int j=0;j<dim;j++) apop_data_set(d,0,j,x[j]);
        double c=apop_cdf(d,m); for(int i=0;i<n;i++){ int ok=1; for(int j=0;j<dim;j++) if(q[i*dim+j]>x[j]) ok=0; hits+=ok; } sx_check_eq(c,hits/(double)n,"share of draws at or below the point"); sx_check(qn==n*dim,"as many draws as asked for"); c=apop_cdf(d,m); sx_check_eq(c,hits/(double)n,"the same again"); sx_check(qn==n*dim,"draws made once"); sx_reach("draws"); return; }
    double x=k==1||k==2||k==3?sx_pos("x"):k==4?sx_open("x",0,1):k==7?sx_choice("x",4)-1+(sx_choice("half",2)?.5:0):k==8?sx_choice("x",4):sx_real("x"),w=0; apop_model *m=NULL;
    switch(k){
    case 0: { double mu=sx_real("mu"),s=sx_pos("sd"); m=apop_model_set_parameters(apop_normal,mu,s); w=gsl_cdf_ugaussian_P((x-mu)/s); break; }
    case 1: { double mu=sx_real("mu"),s=sx_pos("sd"); m=apop_model_set_parameters(apop_lognormal,mu,s); w=gsl_cdf_ugaussian_P((log(x)-mu)/s); break; }
    case 2: { double mu=sx_pos("mu"); m=apop_model_set_parameters(apop_exponential,mu); w=1-exp(-x/mu); break; }
    case 3: { double a=sx_pos("a"),b=sx_pos("b"); m=apop_model_set_parameters(apop_gamma,a,b); w=gsl_cdf_gamma_P(x/b,a,1); break; }
    case 4: { double a=sx_pos("a"),b=sx_pos("b"); m=apop_model_set_parameters(apop_beta,a,b); w=gsl_cdf_beta_P(x,a,b); break; }
    case 5: { double a=sx_real("a"),b=a+sx_pos("width"); m=apop_model_set_parameters(apop_uniform,a,b); w= x<=a?0:x>=b?1:(x-a)/(b-a); break; }
    case 6: { double mu=sx_real("mu"),s=sx_pos("sd"),df=sx_pos("df"); m=apop_model_set_parameters(apop_t_distribution,mu,s,df); w=gsl_cdf_tdist_P((x-mu)/s,df); break; }
    case 7: { double p=sx_open("p",0,1); m=apop_model_set_parameters(apop_bernoulli,p); w=x<0?0:x<1?1-p:1; break; }
    case 8: { double p=sx_open("p",0,1); int n=1+sx_choice("n",3); m=apop_model_set_parameters(apop_binomial,n,p); double c=1; for(int i=0;i<=n&&i<=(int)x;i++){ double t=c; for(int j=0;j<i;j++) t*=p; for(int j=i;j<n;j++) t*=1-p; w+=t; c=c*(n-i)/(i+1); } if(x>=n) w=1; break; }
    case 9: { m=apop_model_copy(apop_improper_uniform); w=0.5; break; } }
    int np=m->parameters&&m->parameters->vector?m->parameters->vector->size:0; double keep[4]; for(int i=0;i<np;i++) keep[i]=gsl_vector_get(m->parameters->vector,i);
    sx_check_eq(apop_cdf(pt(sx_choice("held",5),x),m),w,"cumulative probability"); for(int i=0;i<np;i++) sx_check_same(gsl_vector_get(m->parameters->vector,i),keep[i],"parameters left alone"); sx_reach("closed form");
}
