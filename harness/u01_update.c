/* Bayesian updating: the conjugate table, sizes, and the weighted prior draws. */
#include "hx.h"
#include "draws.h"
#ifdef SX_THOROUGH
#define NR 4
#define NP 3
#else
#define NR 3
#define NP 2
#endif
static apop_model *pm(apop_model *m,double a,double b){ apop_model *o=apop_model_copy(m); o->parameters=apop_data_alloc(2); gsl_vector_set(o->parameters->vector,0,a); gsl_vector_set(o->parameters->vector,1,b); return o; }
static double P(apop_model*m,int k){ return gsl_vector_get(m->parameters->vector,k); }
static int which; /* 0 betabinom 1 betabernie 2 gammaexpo 3 gammapoisson 4 normnorm */
static void conj(void){
    which=sx_choice("pair",5); double a=sx_pos("a"),b=sx_pos("b"); int lay=sx_choice("layout",HX_LAYOUTS),n=hx_count(lay); double x[4]={0},s=0,q=0,nz=0; apop_model *prior,*like,*post; apop_data *d=NULL,*keep=NULL;
    if(which==0){ prior=pm(apop_beta,a,b); like=apop_model_copy(apop_binomial); int nodata=sx_choice("no data",2); double h=0,m=0;
        if(nodata){ double N=sx_pos("n"),p=sx_open("p",0,1); like=pm(apop_binomial,N,p); h=N*p; m=N*(1-p); post=apop_update(NULL,prior,like); }
        else { int r=1+sx_choice("rows",NR); d=apop_data_alloc(r,2); for(int i=0;i<r;i++){ double mi=sx_real("miss"),hi=sx_real("hit"); gsl_matrix_set(d->matrix,i,0,mi); gsl_matrix_set(d->matrix,i,1,hi); m+=mi; h+=hi; } if(sx_choice("designated",2)) post=apop_update(.data=d,.prior=prior,.likelihood=like); else post=apop_update(d,prior,like,NULL); }
        sx_check_eq(P(post,0),a+h,"alpha plus hits"); sx_check_eq(P(post,1),b+m,"beta plus misses"); }
    else { prior=pm(which==1?apop_beta:which==4?apop_normal:apop_gamma,a,b); like=which==1?apop_bernoulli:which==2?apop_exponential:which==3?apop_poisson:apop_normal; if(which==4&&sx_choice("no data",2)){ double m=sx_real("mu"),sg=sx_pos("sigma"); post=apop_update(.prior=prior,.likelihood=pm(apop_normal,m,sg)); sx_check_eq(P(post,0),(a/(b*b)+m/(sg*sg))/(1/(b*b)+1/(sg*sg)),"mean, from a parameterized Normal"); double v=1/(1/(b*b)+1/(sg*sg)); sx_check_eq(P(post,1)*P(post,1),v,"variance, from a parameterized Normal"); }
        else { for(int i=0;i<n;i++){ x[i]=which==2?sx_pos("x"):sx_real("x"); s+=x[i]; q+=x[i]*x[i]; } d=hx_lay(lay,x); keep=apop_data_copy(d); 
            if(which==1) for(int i=0;i<n;i++) if(x[i]!=0) nz++;
            if(which==4) sx_assume_lt(0,q/n-(s/n)*(s/n)); if(which==3) sx_assume_lt(0,s+a);
            post=apop_update(d,prior,like);
            if(which==1){ sx_check_eq(P(post,0),a+nz,"alpha plus ones"); sx_check_eq(P(post,1),b+n-nz,"beta plus zeros"); }
            if(which==2){ sx_check_eq(P(post,0),a+n,"shape plus the size of the data"); sx_check_eq(P(post,1)*(1/b+s),1,"inverse scale plus the sum"); }
            if(which==3){ sx_check_eq(P(post,0),a+s,"shape plus the sum"); sx_check_eq(P(post,1)*(1/b+n),1,"inverse scale plus the size"); }
            if(which==4){ double v=q/n-(s/n)*(s/n),pv=1/(1/(b*b)+n/v); sx_check_eq(P(post,0),(a/(b*b)+s/v)*pv,"precision-weighted mean"); sx_check_eq(P(post,1)*P(post,1),pv,"inverse of summed precisions"); sx_check_lt(0,P(post,1),"positive"); }
            for(int i=0;i<n;i++) if(d->vector&&i<(int)d->vector->size) sx_check_same(gsl_vector_get(d->vector,i),x[i],"data kept"); } }
    sx_check(post!=prior&&post->parameters!=prior->parameters,"a new model"); sx_check_same(P(prior,0),a,"prior kept"); sx_check_same(P(prior,1),b,"prior kept");
    sx_check(!strcmp(post->name,prior->name)&&post->draw==prior->draw,"same family as the prior"); 
    if(which==1&&d){ double a1=P(post,0),b1=P(post,1); apop_model *again=apop_update(d,post,like); sx_check_eq(P(again,0),a1+nz,"chained updating"); sx_check_eq(P(again,1),b1+n-nz,"chained updating"); sx_check_same(P(post,0),a1,"chained updating keeps the first posterior"); }
    (void)keep; sx_reach("conjugate"); }
/* priors that can only draw */
static int nd,ne; static double dr[16][3],pr[16]; static int ev[16],nzero; static int dim,shape;
static int pdraw(double*o,gsl_rng*r,apop_model*m){ (void)r;(void)m; for(int j=0;j<dim;j++) o[j]=dr[nd][j]=sx_real("draw"); ev[nd]=0; nd++; return 0; }
static double param(apop_model*m,int j){ return shape==0?gsl_vector_get(m->parameters->vector,j):shape==1?gsl_matrix_get(m->parameters->matrix,0,j):j?gsl_matrix_get(m->parameters->matrix,0,j-1):gsl_vector_get(m->parameters->vector,0); }
static apop_data *want_d; static int nnan;
static long double lp(apop_data*d,apop_model*m){ sx_check(d==want_d,"the likelihood sees the data"); for(int j=0;j<dim;j++) sx_check_same(param(m,j),dr[nd-1][j],"the likelihood is evaluated at the draw"); ev[nd-1]=1; if(nzero<1&&sx_choice("impossible",2)){ nzero++; return pr[nd-1]=0; } if(nnan<1&&sx_choice("undefined",2)){ nnan++; ne=-1; pr[nd-1]=NAN; return NAN; } return pr[nd-1]=sx_pos("p"); }
static void weighted(void){
    dim=1+sx_choice("dimension",3); shape=sx_choice("shape",3); if(shape==2&&dim<2) return; int periods=1+sx_choice("periods",NP); apop_model *prior=apop_model_copy(apop_improper_uniform); prior->p=NULL; prior->log_likelihood=NULL; prior->cdf=NULL; prior->draw=pdraw; prior->prep=NULL; prior->constraint=NULL; prior->estimate=NULL; prior->dsize=dim;
    apop_model *like=apop_model_copy(apop_improper_uniform); like->p=lp; like->log_likelihood=NULL; like->prep=NULL; like->draw=NULL; like->constraint=NULL; like->vsize=shape==0?dim:shape==1?0:1; like->msize1=shape?1:0; like->msize2=shape==0?0:shape==1?dim:dim-1; like->parameters=apop_data_alloc(like->vsize,like->msize1,like->msize2);
    Apop_model_add_group(prior,apop_mcmc,.periods=periods,.burnin=.5); want_d=sx_choice("data",2)?apop_data_alloc(1):NULL; nd=ne=nnan=0; nzero=periods==1||dim>2; apop_model *o=apop_update(want_d,prior,like,apop_rng_alloc(1));
    sx_check(o&&o->data&&o->data->matrix&&(int)o->data->matrix->size1==periods&&(int)o->data->matrix->size2==dim,"one row per period, whatever the burn-in"); sx_check(o->data->weights&&(int)o->data->weights->size==periods,"one weight per row"); double T=0; 
    int r=0; for(int i=0;i<nd;i++){ if(!ev[i]||isnan(pr[i])) continue; if(r>=periods){ r++; break; } for(int j=0;j<dim;j++) sx_check_same(gsl_matrix_get(o->data->matrix,r,j),dr[i][j],"rows are the draws, without undefined ones"); sx_check_same(gsl_vector_get(o->data->weights,r),pr[i],"weighted by the likelihood"); r++; T+=pr[i]; } sx_check(r==periods,"draws");
    apop_data *at=apop_data_alloc(1,dim); for(int j=0;j<dim;j++) gsl_matrix_set(at->matrix,0,j,gsl_matrix_get(o->data->matrix,0,j)); if(periods==1) sx_check_eq(apop_p(at,o),1,"a PMF"); sx_reach("weighted draws"); }
static void sizes(void){ int a=1+sx_choice("prior size",3),b=1+sx_choice("likelihood size",3); apop_model *prior=apop_model_copy(apop_improper_uniform); prior->p=NULL; prior->log_likelihood=NULL; prior->draw=pdraw; prior->prep=NULL; prior->dsize=dim=a; apop_model *like=apop_model_copy(prior); like->p=lp; like->draw=NULL; like->vsize=b; like->msize1=like->msize2=0; like->parameters=apop_data_alloc(b); shape=0; want_d=NULL; nnan=1; nzero=1; nd=0; Apop_model_add_group(prior,apop_mcmc,.periods=1); apop_model *o=apop_update(.prior=prior,.likelihood=like,.rng=apop_rng_alloc(1)); if(a!=b) sx_check(o&&o->error=='d'&&nd==0,"sizes must agree"); else sx_check(o&&!o->error,"sizes agree"); sx_reach("sizes"); }
void sx_main(void){ apop_opts.verbose=-1; int k=sx_choice("part",3); if(k==0) conj(); else if(k==1) weighted(); else sizes(); }
