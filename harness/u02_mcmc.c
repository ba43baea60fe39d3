/* Metropolis-Hastings chains: acceptance, repetition, burn-in, blocks, starting points, further draws. */
#include "hx.h"
#include "draws.h"
#ifdef SX_THOROUGH
#define NP 4
#define NB 3
#define NX 2
#else
#define NP 3
#define NB 2
#define NX 1
#endif
#define Q 4
/* model parameters: a vector of 1-2, a vector and a matrix row, or two pages */
static int shape,N; static apop_data *pars(void){ apop_data *p=shape==0?apop_data_alloc(1):shape==1?apop_data_alloc(2):shape==2?apop_data_alloc(1,1,2):apop_data_alloc(2); if(shape==3){ p->more=apop_data_alloc(1); apop_name_add(p->more->names,"second",'h'); } N=shape==0?1:shape==1?2:3; return p; }
static double *pp(apop_data*p,int k){ return shape<2?gsl_vector_ptr(p->vector,k):shape==2?(k?gsl_matrix_ptr(p->matrix,0,k-1):gsl_vector_ptr(p->vector,0)):k<2?gsl_vector_ptr(p->vector,k):gsl_vector_ptr(p->more->vector,0); }
/* what happened: proposals, constraint failures, likelihoods, in order */
static struct { int block; double v[Q]; int fail; double ll; int undef; } ev[64]; static int nev; static double cur[Q]; static int B,bs[Q+1];
static apop_data *want_d; static int badll,badc,allow_bad,allow_fail,nbad,nfail;
static int prdraw(double*o,gsl_rng*r,apop_model*m){ (void)r; int b=gsl_vector_get(m->parameters->vector,0); ev[nev].block=b; for(int j=bs[b];j<bs[b+1];j++) o[j-bs[b]]=ev[nev].v[j]=sx_real("proposal"); ev[nev].fail=0; nev++; return 0; }
static int stepped[Q]; static double stepv[Q];
static void prstep(double const*d,apop_mcmc_proposal_s*ps,apop_mcmc_settings*s){ (void)s; int b=gsl_vector_get(ps->proposal->parameters->vector,0); stepped[b]++; for(int j=bs[b];j<bs[b+1];j++) stepv[j]=d[j-bs[b]]; }
static int noadapt(apop_mcmc_proposal_s*ps,apop_mcmc_settings*s){ (void)ps;(void)s; return 0; }
static long double con(apop_data*d,apop_model*m){ (void)d;(void)m; if(nfail<allow_fail&&sx_choice("outside",2)){ nfail++; ev[nev-1].fail=1; return 1; } return 0; }
static int custom; static double seen[64][Q];
static long double ll(apop_data*d,apop_model*m){ sx_check(d==want_d,"the likelihood sees the data"); int e=custom?nev-1:nev++; for(int j=0;j<N;j++) seen[e][j]=*pp(m->parameters,j); ev[e].undef=0; if(nbad<allow_bad){ int u=sx_choice("undefined",4); if(u){ nbad++; ev[e].undef=1; return u==1?NAN:u==2?INFINITY:-INFINITY; } } return ev[e].ll=sx_real("ll"); }
static void blocks(char g){ if(g=='a'){ B=1; bs[0]=0; bs[1]=N; } else if(g=='b'){ B=shape<2?1:2; bs[0]=0; bs[1]=shape<2?N:shape==2?1:2; bs[2]=N; } else { B=N; for(int i=0;i<=N;i++) bs[i]=i; } }
/* replay: events e0.. for `steps' steps from cur; fills rows */
static double last; static int nu,acc,rej,steps_ok[Q];
static int replay(int e,int steps,int first,apop_data*out,int row0){
    for(int t=0;t<steps;t++){ int b=(first+t)%B; for(;;e++){ sx_check(e<nev&&ev[e].block==b,"blocks take turns"); double full[Q]; for(int j=0;j<N;j++) full[j]=j>=bs[b]&&j<bs[b+1]?ev[e].v[j]:cur[j]; if(ev[e].fail) continue; for(int j=0;j<N;j++) sx_check_same(seen[e][j],full[j],"the likelihood is evaluated at the proposal"); if(ev[e].undef) continue; break; }
        int ok=last==-INFINITY||ev[e].ll>=last; if(!ok){ sx_check(nu<sx_ndraws&&!strcmp(sx_draws[nu].name,"uniform"),"a uniform draw decides"); double u=sx_draws[nu++].value; ok=log(u)<ev[e].ll-last; }
        if(ok){ for(int j=bs[b];j<bs[b+1];j++) cur[j]=ev[e].v[j]; last=ev[e].ll; acc++; steps_ok[b]++; } else rej++; e++;
        if(out&&row0+t>=0) for(int j=0;j<N;j++) sx_check_same(gsl_matrix_get(out->matrix,row0+t,j),cur[j],"rows are the accepted proposals, the last one repeated upon rejection"); }
    return e; }
static void chain(void){
    custom=1; shape=sx_choice("parameters",4); apop_model *m=apop_model_copy(apop_improper_uniform); m->log_likelihood=ll; m->p=NULL; m->cdf=NULL; m->draw=NULL; m->prep=NULL; m->estimate=NULL; m->constraint=NULL; m->parameters=pars(); static const char gs[]="ba1"; char g=gs[sx_choice("blocks",3)]; blocks(g);
    int two=shape>=2; int periods=1+sx_choice("periods",two?NB+(B>2):NP); static const double bi[]={0,.25,.5}; double burn=bi[sx_choice("burn-in",3)]; int skip=periods*burn; if(!skip&&burn==.5) return; if(shape==1&&g=='b') return;
    allow_fail=allow_bad=0; if(!two){ int k=sx_choice("trouble",3); if(k==1){ allow_fail=1; m->constraint=con; } else if(k==2) allow_bad=1; if(k&&(periods==NP||g=='1')) return; } nfail=nbad=nev=0; nu=acc=rej=0; memset(stepped,0,sizeof stepped); memset(steps_ok,0,sizeof steps_ok);
    int at=sx_choice("start",2); for(int j=0;j<N;j++){ double v=sx_real("start"); sx_assume_ne(v,0); *pp(m->parameters,j)=v; cur[j]=at?v:1; }
    apop_mcmc_proposal_s ps[Q]; memset(ps,0,sizeof ps); for(int b=0;b<B;b++){ apop_model *q=apop_model_copy(apop_improper_uniform); q->draw=prdraw; q->prep=NULL; q->dsize=bs[b+1]-bs[b]; q->parameters=apop_data_alloc(1); gsl_vector_set(q->parameters->vector,0,b); ps[b].proposal=q; ps[b].step_fn=prstep; ps[b].adapt_fn=noadapt; }
    Apop_model_add_group(m,apop_mcmc,.periods=periods,.burnin=burn,.gibbs_chunks=g,.start_at=at?'p':'1',.proposals=ps); want_d=at?apop_data_alloc(1):NULL; last=-INFINITY;
    apop_model *o=apop_model_metropolis(want_d,apop_rng_alloc(1),m); sx_check(o&&o->data&&o->data->matrix&&(int)o->data->matrix->size1==periods-skip&&(int)o->data->matrix->size2==N,"one row per period after the burn-in"); sx_check(o->data->weights&&(int)o->data->weights->size==periods-skip,"one weight per row");
    int e=replay(0,periods,0,o->data,-skip); sx_check(e==nev,"no more proposals than needed"); sx_check(nu==sx_ndraws,"no more uniform draws than needed"); for(int i=0;i<periods-skip;i++) sx_check(gsl_vector_get(o->data->weights,i)==1,"equal weights");
    for(int j=0;j<N;j++) sx_check_same(*pp(m->parameters,j),cur[j],"the model is left at the last accepted proposal"); sx_check(o->error==(nfail?'c':0),"marked when proposals failed the constraint"); for(int b=0;b<B;b++) sx_check(stepped[b]==steps_ok[b],"one step per accepted proposal"); 
    sx_check(Apop_settings_get(m,apop_mcmc,accept_count)==acc&&Apop_settings_get(m,apop_mcmc,reject_count)==rej,"counts");
    int rows=periods-skip; if(!two) for(int x=0;x<NX;x++){ if(periods==NP||(allow_bad&&periods>1)) break; double d[Q+1]; for(int j=0;j<=Q;j++) d[j]=-77; int e0=nev,f0=nfail; int rc=apop_draw(d,apop_rng_alloc(2),o); sx_check(rc==(nfail>f0),"nonzero when a proposal failed the constraint"); apop_data *od=o->data; sx_check((int)od->matrix->size1==rows+B&&(int)od->weights->size==rows+B,"further steps extend the data"); e=replay(e0,B,0,od,rows); sx_check(e==nev&&nu==sx_ndraws,"one step per block"); for(int j=0;j<N;j++) sx_check_same(d[j],cur[j],"the draw is the next step"); sx_check(d[N]==-77,"one draw"); for(int i=0;i<rows+B;i++) sx_check(gsl_vector_get(od->weights,i)==1,"equal weights"); rows+=B; }
    sx_reach("chain"); }
/* the default proposal: a Normal around the last accepted point */
static void deflt(void){
    custom=0; shape=sx_choice("parameters",4); apop_model *m=apop_model_copy(apop_improper_uniform); m->log_likelihood=ll; m->p=NULL; m->cdf=NULL; m->draw=NULL; m->prep=NULL; m->estimate=NULL; m->constraint=NULL; m->parameters=pars(); static const char gs[]="ba1"; char g=gs[sx_choice("blocks",3)]; blocks(g); int periods=2; allow_fail=allow_bad=nfail=nbad=nev=0; nu=0;
    int at=sx_choice("start",2); double mean[Q]; for(int j=0;j<N;j++){ double v=sx_real("start"); sx_assume_ne(v,0); *pp(m->parameters,j)=v; mean[j]=cur[j]=at?v:1; } if(sx_choice("set start",2)) Apop_model_add_group(m,apop_mcmc,.periods=periods,.burnin=0,.gibbs_chunks=g,.start_at=at?'p':'1',.base_adapt_fn=noadapt); else { if(at) return; Apop_model_add_group(m,apop_mcmc,.periods=periods,.burnin=0,.gibbs_chunks=g,.base_adapt_fn=noadapt); }
    want_d=NULL; last=-INFINITY; apop_model *o=apop_model_metropolis(.m=m,.rng=apop_rng_alloc(1)); int k=0; for(int t=0;t<periods;t++){ int b=t%B; double prop[Q]; for(int j=0;j<N;j++) prop[j]=cur[j]; for(int j=bs[b];j<bs[b+1];j++){ sx_check(k<sx_ndraws&&!strcmp(sx_draws[k].name,"gaussian"),"Normal proposals"); prop[j]=mean[j]+sx_draws[k++].value; } for(int j=0;j<N;j++) sx_check_eq(seen[t][j],prop[j],"proposals are centred on the last accepted point"); int ok=!t||ev[t].ll>=last; if(!ok){ sx_check(k<sx_ndraws&&!strcmp(sx_draws[k].name,"uniform"),"a uniform draw decides"); ok=log(sx_draws[k++].value)<ev[t].ll-last; } if(ok){ last=ev[t].ll; for(int j=0;j<N;j++) mean[j]=j>=bs[b]&&j<bs[b+1]?prop[j]:mean[j]; for(int j=0;j<N;j++) cur[j]=prop[j]; } for(int j=0;j<N;j++) sx_check_eq(gsl_matrix_get(o->data->matrix,t,j),cur[j],"rows"); }
    sx_check(k==sx_ndraws,"no more draws than needed"); sx_reach("default proposals"); }
/* the default adaptation moves towards the target */
static void adapt(void){
    apop_model *m=apop_model_copy(apop_improper_uniform); double t=sx_open("target",0,1); int periods=1+sx_choice("periods",3)*50; apop_mcmc_settings *s=Apop_model_add_group(m,apop_mcmc,.periods=periods,.target_accept_rate=t); apop_mcmc_proposal_s p={.accept_count=sx_choice("accepted",4),.reject_count=sx_choice("rejected",4)}; if(!p.accept_count&&!p.reject_count) return; int n=1+sx_choice("dimension",2); double S[2][2]; p.proposal=apop_model_copy(apop_multivariate_normal); p.proposal->parameters=apop_data_alloc(n,n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ S[i][j]=sx_real("S"); gsl_matrix_set(p.proposal->parameters->matrix,i,j,S[i][j]); } for(int i=0;i<n;i++) gsl_vector_set(p.proposal->parameters->vector,i,7);
    sx_assume_lt(0,S[0][0]); s->base_adapt_fn(&p,s); double r=p.accept_count/(double)(p.accept_count+p.reject_count),f=gsl_matrix_get(p.proposal->parameters->matrix,0,0)/S[0][0]; sx_check_lt(0,f,"covariance stays positive"); if(r>t) sx_check_lt(1,f,"widens when too many are accepted"); else if(r<t) sx_check_lt(f,1,"narrows when too few are accepted"); else sx_check_eq(f,1,"unchanged on target"); for(int i=0;i<n;i++){ for(int j=0;j<n;j++) sx_check_eq(gsl_matrix_get(p.proposal->parameters->matrix,i,j),f*S[i][j],"scales the covariance"); sx_check(gsl_vector_get(p.proposal->parameters->vector,i)==7,"means kept"); } sx_reach("adaptation"); }
/* updating runs a chain over prior times likelihood, at the likelihood's own shape of parameters */
static double ul[8],up[8],useen[8][Q]; static int nup,nul,ufail; static apop_data *udata;
static long double prior_ll(apop_data*d,apop_model*m){ (void)m; for(int j=0;j<N;j++) useen[nup][j]=d->vector?gsl_vector_get(d->vector,j):gsl_matrix_get(d->matrix,0,j); return up[nup++]=sx_real("prior"); }
static long double like_ll(apop_data*d,apop_model*m){ sx_check(d==udata,"the likelihood sees the data"); for(int j=0;j<N;j++) sx_check_same(*pp(m->parameters,j),useen[nup-1][j],"prior and likelihood are evaluated at the same point"); return ul[nul++]=sx_real("likelihood"); }
static long double like_con(apop_data*d,apop_model*m){ (void)d; (void)m; if(!ufail&&sx_choice("outside",2)) return ufail=1; return 0; }
static void upd(void){
    shape=sx_choice("parameters",4); apop_model *like=apop_model_copy(apop_improper_uniform); like->parameters=pars(); like->log_likelihood=like_ll; like->p=NULL; like->prep=NULL; like->estimate=NULL; like->draw=NULL; like->cdf=NULL; int c=sx_choice("constraint",2); like->constraint=c?like_con:NULL; apop_model *prior=apop_model_copy(apop_improper_uniform); prior->log_likelihood=prior_ll; prior->p=NULL; prior->prep=NULL; prior->estimate=NULL; prior->draw=NULL; prior->cdf=NULL; prior->constraint=NULL; prior->dsize=N;
    Apop_model_add_group(prior,apop_mcmc,.periods=2,.burnin=0,.base_adapt_fn=noadapt); nup=nul=ufail=0; udata=apop_data_alloc(1); apop_model *o=apop_update(udata,prior,like,apop_rng_alloc(1)); sx_check(o&&!strcmp(o->name,apop_pmf->name)&&o->data->matrix&&(int)o->data->matrix->size1==2&&(int)o->data->matrix->size2==N,"a PMF of the chain"); sx_check(nup==2&&nul==2,"one evaluation per step"); if(ufail) sx_check(o->error=='c',"marked when proposals failed the constraint");
    int ok=ul[1]+up[1]>=ul[0]+up[0]; if(!ok) ok=log(sx_draws[sx_ndraws-1].value)<ul[1]+up[1]-ul[0]-up[0]; for(int j=0;j<N;j++){ sx_check_same(gsl_matrix_get(o->data->matrix,0,j),useen[0][j],"the first proposal"); sx_check_same(gsl_matrix_get(o->data->matrix,1,j),useen[ok][j],"accepted by the ratio of prior times likelihood"); }
    int k=0; if(!c||!ufail) for(int j=0;j<N;j++) sx_check_eq(useen[0][j],1+sx_draws[k++].value,"starts from ones"); sx_reach("updating by chain"); }
void sx_main(void){ apop_opts.verbose=-1; int k=sx_choice("part",4); if(k==0) chain(); else if(k==1) deflt(); else if(k==2) adapt(); else upd(); }
