/* The score is the exact gradient of the log likelihood in the parameters. */
#include "hx.h"
static apop_model *m; static apop_data *d;
static double ll(double x, void *ip){ int i=*(int*)ip; double was=gsl_vector_get(m->parameters->vector,i); gsl_vector_set(m->parameters->vector,i,x); double o=apop_log_likelihood(d,m); gsl_vector_set(m->parameters->vector,i,was); return o; }
void sx_main(void){
    apop_opts.verbose=-1; int k=sx_choice("model",8),np=1; double x[HM],p[4]; int n=0;
    if(k==7){ int bins=2+sx_choice("bins",2),rows=1+sx_choice("rows",2); np=bins; m=apop_model_copy(apop_dirichlet); m->vsize=m->dsize=bins; apop_prep(NULL,m); d=apop_data_alloc(rows,bins);
        for(int i=0;i<bins;i++){ p[i]=sx_in("alpha",0.125,1000); gsl_vector_set(m->parameters->vector,i,p[i]); } for(int r=0;r<rows;r++) for(int i=0;i<bins;i++) apop_data_set(d,r,i,sx_open("theta",0,1)); }
    else { int lay=sx_choice("layout",HX_LAYOUTS); n=hx_count(lay);
        switch(k){
        case 0: np=2; p[0]=sx_real("mu"); p[1]=sx_pos("sd"); m=apop_model_set_parameters(apop_normal,p[0],p[1]); for(int i=0;i<n;i++) x[i]=sx_real("x"); break;
        case 1: np=2; p[0]=sx_real("mu"); p[1]=sx_pos("sd"); m=apop_model_set_parameters(apop_lognormal,p[0],p[1]); for(int i=0;i<n;i++) x[i]=sx_pos("x"); break;
        case 2: p[0]=sx_pos("mu"); m=apop_model_set_parameters(apop_exponential,p[0]); for(int i=0;i<n;i++) x[i]=sx_pos("x"); break;
        case 3: np=2; p[0]=sx_pos("a"); p[1]=sx_pos("b"); m=apop_model_set_parameters(apop_gamma,p[0],p[1]); for(int i=0;i<n;i++) x[i]=sx_pos("x"); break;
        case 4: np=2; p[0]=sx_pos("a"); p[1]=sx_pos("b"); m=apop_model_set_parameters(apop_beta,p[0],p[1]); for(int i=0;i<n;i++) x[i]=sx_open("x",0,1); break;
        case 5: p[0]=sx_pos("lambda"); m=apop_model_set_parameters(apop_poisson,p[0]); for(int i=0;i<n;i++) x[i]=sx_choice("x",3); break;
        case 6: p[0]=sx_in("b",1.125,1000); m=apop_model_set_parameters(apop_yule,p[0]); for(int i=0;i<n;i++) x[i]=1+sx_pos("x"); break; }
        d=hx_lay(lay,x); }
    gsl_vector *g=gsl_vector_alloc(np); gsl_vector_set_all(g,-77); apop_score(d,g,m);
    for(int i=0;i<np;i++) sx_check_eq(gsl_vector_get(g,i),sx_deriv(ll,&i,p[i]),"score is the gradient");
    for(int i=0;i<np;i++) sx_check_same(gsl_vector_get(m->parameters->vector,i),p[i],"parameters left alone");
    sx_reach("score");
}
