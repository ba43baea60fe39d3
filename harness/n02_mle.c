/* Maximum likelihood: what the search is given, and what is reported of where it stopped. */
#include "hx.h"
#include "opt.h"
static int n,useP,con,evals,gevals,badat,haspath; static double A[3],X,K,lim; static apop_model *M; static apop_data *D;
static double tv[3]; static void th(apop_model*m,double*t){ gsl_vector*v=m->parameters->vector; int vs=v?v->size:0; for(int i=0;i<n;i++) t[i]=i<vs?gsl_vector_get(v,i):gsl_matrix_get(m->parameters->matrix,0,i-vs); }
static double F(const double*t){ if(useP){ double s=1; for(int i=0;i<n;i++) s+=(1+i)*t[i]*t[i]; return s*X; } double s=K; for(int i=0;i<n;i++) s-=A[i]*(t[i]-X)*(t[i]-X); if(n>1) s+=t[0]*t[1]/2; return s; }
static void dF(const double*t,double*g){ for(int i=0;i<n;i++) g[i]=useP?2*(1+i)*t[i]*X:-2*A[i]*(t[i]-X); if(!useP&&n>1){ g[0]+=t[1]/2; g[1]+=t[0]/2; } }
static int calls,negp; static long double ll(apop_data*d,apop_model*m){ double t[3]; th(m,t); sx_check(d==D,"the data is passed on"); if(badat&&++calls==badat) return NAN; return F(t); }
static void score(apop_data*d,gsl_vector*g,apop_model*m){ double t[3],o[3]; th(m,t); dF(t,o); sx_check(d==D,"the data is passed on"); for(int i=0;i<n;i++) gsl_vector_set(g,i,o[i]); }
static void setth(apop_model*m,int i,double x){ gsl_vector*v=m->parameters->vector; int vs=v?v->size:0; if(i<vs) gsl_vector_set(v,i,x); else gsl_matrix_set(m->parameters->matrix,0,i-vs,x); }
static long double clampit(apop_data*d,apop_model*m){ double t[3]; th(m,t); if(t[0]<lim){ setth(m,0,lim); return 2*(lim-t[0]); } return 0; }
static double best; static int anyf; static double last[3]; static int nlast; static int hs;
static struct { double t[3],f; } seenf[24]; static int ns;
static void seen(const double*asked,const gsl_vector*after,const double*f,const gsl_vector*g){
    double t[3],pen=0,o[3]; for(int i=0;i<n;i++) t[i]=asked[i]; if(con&&t[0]<lim){ pen=2*(lim-t[0]); t[0]=lim; } 
    if(f){ sx_check_eq(*f,pen-F(t),"minimised: the penalty less the likelihood"); for(int i=0;i<n;i++) sx_check_eq(gsl_vector_get(after,i),t[i],"points that break the constraint are moved"); if(ns<24){ for(int i=0;i<n;i++) seenf[ns].t[i]=t[i]; seenf[ns++].f=-*f; } evals++; if(useP&&con&&*f>=0) negp=1; }
    if(g){ for(int i=0;i<n;i++) t[i]=gsl_vector_get(after,i); dF(t,o); int edge=con&&!hs&&!(t[0]>lim+1); for(int i=0;i<n;i++) if(!(edge&&i==0)) sx_check_eq(gsl_vector_get(g,i),-o[i],"gradient: that of what is minimised"); gevals++; if(edge&&f&&!useP&&t[0]==lim&&n==1&&o[0]>.25&&o[0]<1) sx_check(gsl_vector_get(g,0)<0,"at the edge the penalty pushes inwards"); } }
static double elmt(apop_model*m,const char*nm){ int k=apop_name_find(m->info->names,nm,'r'); return k<0?NAN:gsl_vector_get(m->info->vector,k); }
static int has(apop_model*m,const char*nm){ return m->info&&apop_name_find(m->info->names,nm,'r')>=0; }
static const char *meth[]={"","FR cg","bfgs CG","PR cg","NM simplex","Newton","Newton hybrid","Newton hybrid no scale","annealing"};
/* the annealer's candidates are no further away than the step size, in the metric it is given */
static int na; static double apt[6][3]; static long double arec(apop_data*d,apop_model*m){ if(na<6) th(m,apt[na++]); return 1; }
static void annealing_steps(void){ n=2+sx_choice("parameters",2); M=apop_model_copy(&(apop_model){"tested",.vsize=n,.log_likelihood=arec}); int zero=sx_choice("start at zero",2); double sp[]={zero?0:sx_in("start",.5,3),0,zero?0:-3}; Apop_model_add_group(M,apop_mle,.method="annealing",.step_size=.75,.starting_pt=sp); Apop_settings_add_group(M,apop_parts_wanted); sx_opt_moves=1; apop_prep(NULL,M); apop_maximum_likelihood(NULL,M); if(na==2){ double far=0; for(int i=0;i<n;i++){ double s=sp[i]==0?1:fabs(sp[i]); far+=fabs(apt[1][i]-sp[i])/s; } sx_check_le(far,.75,"a step no longer than the step size"); if(zero) sx_check(far>0,"the search moves away from zero"); } for(int i=0;i<n;i++) sx_check_eq(apt[0][i],sp[i],"starts where told to"); sx_reach("annealing steps"); }
static const int vs[]={1,2,0},m2[]={0,0,1};
void sx_main(void){
    apop_opts.verbose=-1; int kind=sx_choice("kind",7),mi,shape,start=0,want=0,wd=1,it=1; static const int mcon[]={0,1,4,8},mwant[]={1,4,6,8},mpath[]={1,4,8,6};
    if(kind==6){ annealing_steps(); return; }
    if(kind==0){ mi=sx_choice("method",9); shape=sx_choice("parameters",3); hs=sx_choice("score",2); start=sx_choice("start",2); useP=mi<5?sx_choice("p",2):0; wd=useP||mi>4?1:sx_choice("data",2); }
    else if(kind==1){ mi=mcon[sx_choice("method",4)]; shape=sx_choice("parameters",2); hs=sx_choice("score",2); useP=sx_choice("p",2); con=1; }
    else if(kind==2){ mi=mwant[sx_choice("method",4)]; shape=sx_choice("parameters",3); hs=sx_choice("score",2); want=1+sx_choice("wanted",3); useP=want!=2?sx_choice("p",2):0; }
    else if(kind==3){ it=2; mi=mcon[sx_choice("method",4)]; shape=sx_choice("parameters",2)*(mi!=1); hs=sx_choice("score",2); }
    else if(kind==4){ haspath=1; mi=mpath[sx_choice("method",4)]; shape=sx_choice("parameters",3); hs=mi==6||sx_choice("score",2); con=mi==4&&shape<2?sx_choice("constraint",2):0; }
    else { mi=sx_choice("method",8); hs=sx_choice("score",2); badat=hs?1+sx_choice("NaN",2):1; want=1; shape=0; if(!hs&&mi>=5) return; if(hs==0&&(mi==4||mi==0)) badat=1+sx_choice("NaN",2); }
    n=vs[shape]+m2[shape];
    sx_opt_moves=it==2?1:2;
#ifndef SX_THOROUGH
    if(kind==4||(kind==0&&(mi==2||mi==3||shape==2||useP))||(kind==1&&(shape||useP))||(kind==2&&want!=2)) sx_opt_moves=1;
#endif
    if(mi==8&&it==1) sx_opt_moves=1;
    M=apop_model_copy(&(apop_model){"tested",.vsize=vs[shape],.msize1=shape==2,.msize2=m2[shape]}); if(useP) M->p=ll; else M->log_likelihood=ll; if(con){ M->constraint=clampit; lim=sx_in("limit",-2,2); } if(hs) apop_score_vtable_add(score,M);
    X=useP?sx_in("x",.5,2):sx_in("x",-2,2); if(!useP) K=sx_in("k",-4,4); A[0]=1; A[1]=2; if(!useP&&want==2) A[0]=sx_in("a",1,3); double sp[3]; for(int i=0;i<n;i++) sp[i]=sx_in("start",-3,3); apop_data *path=NULL; 
    double tol=.125; apop_mle_settings *ms=Apop_model_add_group(M,apop_mle,.method=(char*)meth[mi],.max_iterations=it,.tolerance=tol,.step_size=.75,.starting_pt=start?sp:NULL,.n_tries=3,.iters_fixed_T=4,.k=.5,.t_initial=7,.mu_t=1.5,.t_min=.25,.path=haspath?&path:NULL); if(want==1) Apop_settings_add_group(M,apop_parts_wanted,.info='n'); if(want==2) Apop_settings_add_group(M,apop_parts_wanted,.covariance='y',.info='y'); if(want==3) Apop_settings_add_group(M,apop_parts_wanted,.predicted='y');
    D=!wd?NULL:shape==1?apop_data_alloc(5):shape==2?apop_data_alloc(5,2):apop_data_alloc(5,1); if(D&&D->matrix) gsl_matrix_set_all(D->matrix,2); if(D&&D->vector) gsl_vector_set_all(D->vector,2); if(D&&(shape==1||mi==4)){ D->weights=gsl_vector_alloc(5); gsl_vector_set_all(D->weights,.25); } sx_opt_seen=seen; apop_prep(D,M); apop_maximum_likelihood(D,M);
    int nm=mi==4||(mi==0&&!hs), root=mi>=5&&mi<8, sa=mi==8; if(badat==1&&(!root||!hs)){ sx_reach("NaN at the start"); return; }
    const void *want_t= nm?(void*)gsl_multimin_fminimizer_nmsimplex: mi==2?(void*)gsl_multimin_fdfminimizer_vector_bfgs2: mi==3?(void*)gsl_multimin_fdfminimizer_conjugate_pr: mi<=1?(void*)gsl_multimin_fdfminimizer_conjugate_fr: mi==5?(void*)gsl_multiroot_fsolver_dnewton: mi==6?(void*)gsl_multiroot_fsolver_hybrid: mi==7?(void*)gsl_multiroot_fsolver_hybrids:NULL; if(!sa) sx_check(sx_opt_type==want_t,"the method asked for"); else sx_check(sx_opt_siman.n_tries==3&&sx_opt_siman.iters_fixed_T==4&&sx_opt_siman.step_size==.75&&sx_opt_siman.k==.5&&sx_opt_siman.t_initial==7&&sx_opt_siman.mu_t==1.5&&sx_opt_siman.t_min==.25,"annealing as set"); if(!sa&&!root) sx_check(sx_opt_step==.75,"step size"); if(!sa&&sx_opt_iters>0&&!sx_opt_failed&&!badat) sx_check(sx_opt_tol==tol,"tolerance"); if(!sa) sx_check(sx_opt_iters<=it,"no more iterations than allowed");
    double t[3]; th(M,t); sx_check(M->info!=NULL&&has(M,"status"),"a status is reported"); if(!M->info) return; double st=elmt(M,"status"); if(!badat&&!sa){ if(sx_opt_converged) sx_check(st==0,"status 0: converged"); else if(!sx_opt_failed) sx_check(st!=0,"status: did not converge"); } if(sa) sx_check(st==0,"annealing ends"); if(badat&&calls>=badat) sx_check(st!=0,"status: NaN");
    if(con&&!root) sx_check(!(t[0]<lim),"the estimate is within the constraint");
    int info=want==0||want==2; if(want==1||want==3) sx_check(!has(M,"AIC")&&!has(M,"log likelihood"),"no information that was not wanted"); else if(!badat&&!negp) { double L=useP?log(F(t)):F(t); sx_check(has(M,"log likelihood"),"log likelihood reported"); sx_check_eq(elmt(M,"log likelihood"),L,"log likelihood at the estimate"); sx_check_eq(elmt(M,"AIC"),2*n-2*L,"AIC"); if(wd){ sx_check_eq(elmt(M,"BIC"),n*log(5)-2*L,"BIC"); sx_check_eq(elmt(M,"AIC_c"),2*n-2*L+2*n*(n+1.)/(5-n-1.),"AIC_c"); } }
    apop_data *cv=apop_data_get_page(M->parameters,"<Covariance>"); if(want==2){ sx_check(cv&&cv->matrix,"covariance wanted, covariance given"); if(cv&&cv->matrix&&!useP){ if(n==1) sx_check_eq(gsl_matrix_get(cv->matrix,0,0),1/(2*A[0]),"covariance at the estimate"); else { double d=4*A[0]*A[1]-.25; sx_check_eq(gsl_matrix_get(cv->matrix,0,0),2*A[1]/d,"covariance at the estimate"); sx_check_eq(gsl_matrix_get(cv->matrix,0,1),.5/d,"covariance at the estimate"); } } } else sx_check(!cv,"no covariance that was not wanted");
    if(start){ /* the first point tried is the one given */ if(ns&&!con&&!sa) for(int i=0;i<n;i++) sx_check_eq(seenf[0].t[i],sp[i],"the search starts where it was told to"); } else if(ns&&!con) for(int i=0;i<n;i++) sx_check_eq(seenf[0].t[i],1,"the search starts at one"); for(int i=0;i<n&&start;i++) sx_check(ms->starting_pt==sp,"settings");
    if(haspath&&root&&hs&&path&&path->matrix) for(int r=0;r<(int)path->vector->size;r++){ double p[3]; for(int i=0;i<n;i++) p[i]=gsl_matrix_get(path->matrix,r,i); sx_check_eq(gsl_vector_get(path->vector,r),F(p),"path: each with its value"); } if(haspath&&root&&hs){ sx_check(path&&path->vector&&(int)path->vector->size>=gevals,"path: a row for each point tried"); sx_reach("root path"); }
    if(!sa&&!root&&!badat){ int at=0; for(int k=0;k<ns;k++){ int eq=1; for(int i=0;i<n;i++) if(t[i]!=seenf[k].t[i]) eq=0; at|=eq; } sx_check(at,"the estimate is a point that was tried"); }
    if(haspath&&!root){ sx_check(path&&path->matrix&&path->vector&&(int)path->matrix->size2==n&&path->matrix->size1==path->vector->size&&(int)path->vector->size>=ns,"a row for each point tried"); if(path&&path->matrix) for(int r=0;r<(int)path->vector->size;r++){ double p[3]; for(int i=0;i<n;i++) p[i]=gsl_matrix_get(path->matrix,r,i); if(!con) sx_check_eq(gsl_vector_get(path->vector,r),F(p),"each with its value"); } sx_reach("path"); }
    sx_check(M->data==D,"the data is kept"); if(D) sx_check(shape==1?D->vector->size==5:D->matrix->size1==5,"data"); sx_reach(nm?"simplex":root?"root":sa?"annealing":"gradient"); }
