/* Models derived from another: data-constrained models and models with some parameters fixed. */
#include "hx.h"
#include "draws.h"
#ifdef SX_THOROUGH
#define NR 3
#define ND 4
#define NS 4
#else
#define NR 2
#define ND 3
#define NS 3
#endif
static double cut; static int scalings,draws_made; static double drawn[8];
static double xof(apop_data*d,int i){ return d->vector?gsl_vector_get(d->vector,i):gsl_matrix_get(d->matrix,i,0); }
static long double bll(apop_data*d,apop_model*m){ int n=d->vector?d->vector->size:d->matrix->size1; double a=gsl_vector_get(m->parameters->vector,0),b=gsl_vector_get(m->parameters->vector,1),s=0; for(int i=0;i<n;i++) s+=a+b*xof(d,i); return s; }
static double above(apop_data*d,apop_model*m){ (void)m; return xof(d,0)>cut; }
static double share(apop_model*m){ scalings++; return exp(gsl_vector_get(m->parameters->vector,1)-2*gsl_vector_get(m->parameters->vector,0)); }
static int bdraw(double*o,gsl_rng*r,apop_model*m){ (void)r;(void)m; *o=drawn[draws_made++]; return 0; }
static apop_model *base(double a,double b){ apop_model *m=apop_model_copy(apop_improper_uniform); m->log_likelihood=bll; m->p=NULL; m->cdf=NULL; m->draw=bdraw; m->prep=NULL; m->constraint=NULL; m->dsize=1; m->vsize=2; m->parameters=apop_data_alloc(2); gsl_vector_set(m->parameters->vector,0,a); gsl_vector_set(m->parameters->vector,1,b); return m; }
static apop_data *obs(int n,double*x,int lay){ apop_data *d=lay?apop_data_alloc(n,1):apop_data_alloc(n); for(int i=0;i<n;i++){ x[i]=sx_real("x"); if(lay) gsl_matrix_set(d->matrix,i,0,x[i]); else gsl_vector_set(d->vector,i,x[i]); } return d; }
static void dll(void){
    double a=sx_real("a"),b=sx_real("b"),x[4]; sx_assume_ne(a,0); sx_assume_ne(b,0); cut=sx_real("cut"); int n=1+sx_choice("rows",NR),lay=sx_choice("layout",2); apop_data *d=obs(n,x,lay); apop_model *bm=base(a,b); apop_model *m=apop_model_dconstrain(.base_model=bm,.constraint=above,.scaling=share);
    apop_prep(d,m); sx_check(m->parameters==bm->parameters&&m->dsize==1&&m->vsize==2,"prep takes the base model's parameters and sizes"); int in=1; for(int i=0;i<n;i++) if(!(x[i]>cut)) in=0; scalings=0; int calls=0; double la=0,lb=0; int seen=0;
    for(int s=0;s<NS;s++){ int op=s?sx_choice("then",in?4:1):0; if(op==1){ double na=sx_real("new a"); sx_assume_ne(na,a); sx_assume_ne(na,0); gsl_vector_set(m->parameters->vector,0,a=na); } else if(op==2){ double nb=sx_real("new b"); sx_assume_ne(nb,b); sx_assume_ne(nb,0); gsl_vector_set(bm->parameters->vector,1,b=nb); } else if(op==3) Apop_settings_set(m,apop_dconstrain,scale,0);
        double l=apop_log_likelihood(d,m),want=0; for(int i=0;i<n;i++) want+=a+b*x[i]; if(!in){ sx_check(l==-INFINITY,"impossible outside of the constraint"); sx_check(apop_p(d,m)==0,"density zero outside of the constraint"); continue; } if(op||!seen) calls++; seen=1; la=a; lb=b; sx_check_eq(l,want-n*(b-2*a),"base density over the share inside, per row"); sx_check(scalings==calls,"the share is recalculated exactly when needed"); }
    (void)la;(void)lb; if(in){ apop_model *c=apop_model_copy(m); double l=apop_log_likelihood(d,m); sx_check_eq(apop_log_likelihood(d,c),l,"a copy agrees"); apop_model_free(c); sx_check_eq(apop_log_likelihood(d,m),l,"freeing a copy leaves the original"); sx_check_eq(apop_p(d,m),exp(l),"density"); }
    sx_reach("constrained likelihood"); }
static void ddraw(void){
    apop_model *bm=base(1,2),*m=apop_model_dconstrain(.base_model=bm,.constraint=above,.scaling=share); cut=sx_real("cut"); apop_prep(NULL,m); int k=0; for(int i=0;i<ND;i++) drawn[i]=sx_real("draw"); sx_assume_lt(cut,drawn[ND-1]); while(!(drawn[k]>cut)) k++; draws_made=0; double o[2]={-77,-77}; sx_check(apop_draw(o,apop_rng_alloc(1),m)==0,"success"); sx_check_same(o[0],drawn[k],"the first draw inside the constraint"); sx_check(draws_made==k+1,"as many draws as needed"); sx_check(o[1]==-77,"one draw"); sx_reach("constrained draws"); }
static void dscale(void){
    double a=sx_real("a"),b=sx_real("b"),x[2]; cut=sx_real("cut"); int n=1+sx_choice("draw count",ND); apop_model *bm=base(a,b),*m=apop_model_dconstrain(.base_model=bm,.constraint=above,.draw_ct=n); apop_data *d=obs(1,x,sx_choice("layout",2)); sx_assume_lt(cut,x[0]); apop_prep(d,m); int in=0; for(int i=0;i<n;i++){ drawn[i]=sx_real("draw"); if(drawn[i]>cut) in++; } if(!in) return; draws_made=0; double l=apop_log_likelihood(d,m); sx_check(draws_made==n,"as many draws as asked"); sx_check_eq(l,a+b*x[0]-log(in/(double)n),"share of the draws inside"); sx_reach("default share"); }
/* fixed parameters: a base whose log likelihood is a distinct multiple of every parameter, on two pages */
static double pv(apop_data*p,int k){ return k<2?gsl_vector_get(p->vector,k):k<4?gsl_matrix_get(p->matrix,0,k-2):gsl_vector_get(k<5?p->more->vector:p->more->more->vector,0); }
static void ps(apop_data*p,int k,double v){ if(k<2) gsl_vector_set(p->vector,k,v); else if(k<4) gsl_matrix_set(p->matrix,0,k-2,v); else gsl_vector_set(k<5?p->more->vector:p->more->more->vector,0,v); }
static int np; static long double fll(apop_data*d,apop_model*m){ double s=xof(d,0); for(int k=0;k<np;k++) s+=(k+1)*pv(m->parameters,k)*xof(d,0); return s; }
static long double fp(apop_data*d,apop_model*m){ return exp(fll(d,m)); }
static int fdraw(double*o,gsl_rng*r,apop_model*m){ (void)r; double s=0; for(int k=0;k<np;k++) s+=(k+3)*pv(m->parameters,k); *o=s; return 0; }
static double lim; static long double fcon(apop_data*d,apop_model*m){ (void)d; double t=0; for(int k=0;k<np;k++){ double v=pv(m->parameters,k); if(v<lim){ t+=lim-v; ps(m->parameters,k,lim); } } return t; }
static void fix(void){
    int pages=1+sx_choice("pages",3); np=3+pages; static const int some[]={32,48,34,63,16,33}; int mask=pages==3?some[sx_choice("free parameters",6)]:sx_choice("free parameters",1<<np); double v[6],f[6]; apop_data *p=apop_data_alloc(2,1,2); if(pages>=2){ p->more=apop_data_alloc(1); apop_name_add(p->more->names,"second",'h'); } if(pages==3){ p->more->more=apop_data_alloc(1); apop_name_add(p->more->more->names,"third",'h'); }
    apop_model *m=apop_model_copy(apop_improper_uniform); m->log_likelihood=fll; m->p=sx_choice("density",2)?fp:NULL; m->cdf=NULL; m->draw=fdraw; m->prep=NULL; m->constraint=fcon; m->dsize=1; m->parameters=p; int nf=0,at[6]; for(int k=0;k<np;k++){ if(mask>>k&1){ at[nf++]=k; ps(p,k,NAN); } else { v[k]=sx_real("fixed"); sx_assume_ne(v[k],0); ps(p,k,v[k]); } }
    double start[6]={11,12,13,14,15,16}; int st=sx_choice("starting point",2); if(st) Apop_model_add_group(m,apop_mle,.starting_pt=start,.tolerance=.0625);
    apop_model *x=apop_model_fix_params(m); if(!nf){ sx_check(x!=m&&x->log_likelihood==fll,"nothing free: a copy"); for(int k=0;k<np;k++) sx_check_same(pv(x->parameters,k),v[k],"nothing free: a copy"); sx_reach("fixed parameters"); return; }
    sx_check(x->vsize==nf&&x->dsize==1,"one parameter per free element"); if(st){ double *s=Apop_settings_get(x,apop_mle,starting_pt); sx_check(Apop_settings_get(x,apop_mle,tolerance)==.0625,"search settings are kept"); for(int i=0;i<nf;i++) sx_check(s&&s[i]==start[at[i]],"starting point of the free elements"); }
    apop_prep(NULL,x); sx_check(x->parameters&&x->parameters->vector&&(int)x->parameters->vector->size==nf&&!x->parameters->matrix,"one parameter per free element"); for(int i=0;i<nf;i++){ v[at[i]]=f[i]=sx_real("free"); sx_assume_ne(f[i],0); gsl_vector_set(x->parameters->vector,i,f[i]); }
    double z; apop_data *d=obs(1,&z,sx_choice("layout",2)); int part=sx_choice("method",4); double want=z,dr=0; for(int k=0;k<np;k++){ want+=(k+1)*v[k]*z; dr+=(k+3)*v[k]; }
    if(part==0){ sx_check_eq(apop_log_likelihood(d,x),want,"likelihood of the base at the fixed and free values"); sx_check_eq(apop_p(d,x),exp(want),"density of the base"); double g=sx_real("later"); sx_assume_ne(g,0); gsl_vector_set(x->parameters->vector,nf-1,g); sx_check_eq(apop_log_likelihood(d,x),want+(at[nf-1]+1)*(g-f[nf-1])*z,"new values are used"); }
    else if(part==1){ double o[2]={-77,-77}; sx_check(apop_draw(o,apop_rng_alloc(1),x)==0,"success"); sx_check_eq(o[0],dr,"draws of the base at the fixed and free values"); sx_check(o[1]==-77,"one draw"); }
    else if(part==2){ apop_model *b=apop_model_fix_params_get_base(x); sx_check(b->log_likelihood==fll,"the base"); for(int k=0;k<np;k++) sx_check_same(pv(b->parameters,k),v[k],"the base has the fixed and free values"); }
    else { if(nf>3) return; lim=sx_real("limit"); for(int k=0;k<np;k++) if(!(mask>>k&1)) sx_assume_lt(lim,v[k]); double t=0; for(int i=0;i<nf;i++) if(f[i]<lim){ t+=lim-f[i]; f[i]=lim; } sx_check_eq(x->constraint(d,x),t,"penalty of the base"); for(int i=0;i<nf;i++) sx_check_same(gsl_vector_get(x->parameters->vector,i),f[i],"corrected free values"); }
    sx_reach("fixed parameters"); }
/* transformed data: the base density where the data came from, times the Jacobian */
static int tcalls,jcalls; static apop_data *seen_t,*seen_j; static double jac; static apop_data *back(apop_data*d){ tcalls++; seen_t=d; apop_data *o=apop_data_copy(d); int n=o->vector?o->vector->size:o->matrix->size1; for(int i=0;i<n;i++){ double *p=o->vector?gsl_vector_ptr(o->vector,i):gsl_matrix_ptr(o->matrix,i,0); *p=3**p+1; } return o; } static double jback(apop_data*d){ jcalls++; seen_j=d; return jac; }
static void trans(void){ double a=sx_real("a"),b=sx_real("b"),x[4]; sx_assume_ne(a,0); sx_assume_ne(b,0); jac=sx_pos("jacobian"); int n=1+sx_choice("rows",NR),lay=sx_choice("layout",2),miss=sx_choice("missing piece",4); apop_data *d=obs(n,x,lay); apop_model *bm=base(a,b),*m=apop_model_coordinate_transform(.base_model=miss==3?NULL:bm,.transformed_to_base=miss==1?NULL:back,.jacobian_to_base=miss==2?NULL:jback);
    if(miss){ sx_check(isnan(apop_log_likelihood(d,m)),"a missing piece: NaN"); sx_reach("transformed, incomplete"); return; } apop_prep(d,m); sx_check(m->parameters==bm->parameters&&m->dsize==1,"prep takes the base model's parameters and sizes"); double want=log(jac); for(int i=0;i<n;i++) want+=a+b*(3*x[i]+1); tcalls=jcalls=0; sx_check_eq(apop_log_likelihood(d,m),want,"base likelihood of the data sent back, times the Jacobian"); sx_check(tcalls==1&&jcalls==1&&seen_t==d&&seen_j==d,"both functions see the data"); sx_check_eq(apop_p(d,m),exp(want),"density"); double nb=sx_real("new b"); sx_assume_ne(nb,0); gsl_vector_set(m->parameters->vector,1,nb); for(int i=0;i<n;i++){ want+=(nb-b)*(3*x[i]+1); sx_check_same(xof(d,i),x[i],"data left alone"); } sx_check_eq(apop_log_likelihood(d,m),want,"new parameters are used"); sx_reach("transformed"); }
void sx_main(void){ apop_opts.verbose=-1; int k=sx_choice("part",5); if(k==0) dll(); else if(k==1) ddraw(); else if(k==2) dscale(); else if(k==3) fix(); else trans(); }
