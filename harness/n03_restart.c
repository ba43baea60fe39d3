/* Restarting a search, and searching one dimension at a time. */
#include "hx.h"
#include "opt.h"
static int n,shape; static double K; static apop_data *D; static int ns; static double first[3];
static void th(apop_model*m,double*t){ gsl_vector*v=m->parameters->vector; int vs=v?v->size:0; for(int i=0;i<n;i++) t[i]=i<vs?gsl_vector_get(v,i):gsl_matrix_get(m->parameters->matrix,0,i-vs); }
static double F(const double*t){ double s=K; for(int i=0;i<n;i++) s-=(1+i)*t[i]; return s; }
static int badval; static long double ll(apop_data*d,apop_model*m){ double t[3]; th(m,t); sx_check(d==D,"the same data"); return F(t); }
static void seen(const double*asked,const gsl_vector*after,const double*f,const gsl_vector*g){ if(f&&!ns++) for(int i=0;i<n;i++) first[i]=asked[i]; if(ns>1) sx_opt_moves=0; }
static apop_model *mod(void){ apop_model *m=apop_model_copy(&(apop_model){"tested",.vsize=shape==2?0:shape+1,.msize1=shape==2,.msize2=shape==2?2:0,.log_likelihood=ll}); return m; }
static void setp(apop_model*m,const double*t){ if(!m->parameters) m->parameters=apop_data_alloc(m->vsize,m->msize1,m->msize2); for(int i=0;i<n;i++) if(m->vsize) gsl_vector_set(m->parameters->vector,i,t[i]); else gsl_matrix_set(m->parameters->matrix,0,i,t[i]); }
static void restart(void){ shape=sx_choice("parameters",3); n=shape==0?1:2; K=sx_in("k",-4,4); int which=sx_choice("from",5),own=sx_choice("second model",2),st0=sx_choice("first start",2),info=sx_choice("info",2); static char *nm[]={"ep","es","np","ns",NULL}; if(which==3&&!own&&!st0) return;
#ifndef SX_THOROUGH
    if((shape!=1&&(which>2||(info&&own)))||(which==4&&(own||st0))||(info&&which>1)) return;
#endif
   
    D=apop_data_alloc(4,1); gsl_matrix_set_all(D->matrix,1); apop_model *b=mod(); static double s0[2],s1[2],pe[2],pn[2]; for(int i=0;i<n;i++){ s0[i]=sx_in("s",-3,3); pe[i]=sx_in("e",-3,3); s1[i]=.5+i; pn[i]=sx_in("c",-3,3); }
    Apop_model_add_group(b,apop_mle,.method="NM simplex",.max_iterations=1,.starting_pt=st0?s0:NULL); int wi=shape==0&&which<2?sx_choice("information wanted",2):0; if(!wi) Apop_settings_add_group(b,apop_parts_wanted); apop_model *e=apop_model_copy(b); e->data=D; setp(e,pe); if(info){ e->info=apop_data_alloc(); apop_data_add_named_elmt(e->info,"log likelihood",F(pe)); }
    apop_model *c=NULL; if(own){ c=mod(); if(!wi) Apop_settings_add_group(c,apop_parts_wanted); if(own==1&&(which==3||st0)) Apop_model_add_group(c,apop_mle,.method="NM simplex",.max_iterations=1,.starting_pt=s1); setp(c,pn); }
    double want[2]; for(int i=0;i<n;i++) want[i]= which==0||which==4?pe[i]: which==1?(st0?s0[i]:1): which==2?(own?pn[i]:pe[i]): own?s1[i]:s0[i];
    int bd=info&&!own?sx_choice("bound",2):0, over=0; if(bd) for(int i=0;i<n;i++) if(want[i]>1||want[i]<-1) over=1;
    ns=0; sx_opt_seen=seen; sx_opt_moves=1; apop_model *o= which==4?(bd?apop_estimate_restart(e,c,.boundary=1):apop_estimate_restart(e,c)): bd?apop_estimate_restart(e,c,nm[which],1): apop_estimate_restart(e,c,.starting_pt=nm[which]);
    if(over){ sx_check(o==e&&!ns,"a start beyond the bound: the old estimate, no search"); sx_reach("diverged"); return; }
    sx_check(ns>0,"a search"); if(ns) for(int i=0;i<n;i++) sx_check_eq(first[i],want[i],"starts where asked"); double t[2]; sx_check(o!=NULL&&o->parameters,"an estimate"); if(!o) return; th(o,t); double Le=F(pe),Lo=F(t); sx_check_le(Le,Lo,"no worse than the old estimate"); if(o==e) for(int i=0;i<n;i++) sx_check_eq(t[i],pe[i],"the old estimate is as it was"); if(bd) for(int i=0;i<n&&o!=e;i++) sx_check(t[i]<=1&&t[i]>=-1,"within the bound"); sx_check(o->data==D,"data"); sx_reach(o==e?"the old":"the new"); }
static double bestF; static void seen2(const double*asked,const gsl_vector*after,const double*f,const gsl_vector*g){ if(f){ ns++; if(ns>3) sx_opt_moves=0; } }
/* one dimension at a time: at the end the parameters are the last ones tried in each dimension, and the settings are as they were */
static double lastt[2]; static long double ll2(apop_data*d,apop_model*m){ th(m,lastt); return F(lastt); }
static void cycle(void){ n=2; shape=1; K=3; D=NULL; apop_model *m=mod(); m->log_likelihood=ll2; int st=sx_choice("start",2); double s[2]={sx_in("s",-3,3),.5}; Apop_model_add_group(m,apop_mle,.method=st?"FR cg":"NM simplex",.max_iterations=1,.dim_cycle_tolerance=.5,.starting_pt=st?s:NULL); Apop_settings_add_group(m,apop_parts_wanted); apop_prep(NULL,m); sx_opt_moves=1; sx_opt_seen=seen2; apop_maximum_likelihood(NULL,m); double t[2]; th(m,t); sx_check(!(t[0]!=t[0])&&!(t[1]!=t[1]),"every parameter is estimated"); sx_check(Apop_settings_get(m,apop_mle,dim_cycle_tolerance)==.5,"settings are as they were"); double *sp=Apop_settings_get(m,apop_mle,starting_pt); sx_check(sp==(st?s:NULL),"settings are as they were"); if(sp) sx_check(sp[0]==sp[0],"a start that can be read"); sx_check_eq(lastt[0],t[0],"the estimate is where the search ended"); sx_check_eq(lastt[1],t[1],"the estimate is where the search ended"); sx_check(ns>=2*2,"at least two cycles"); sx_reach("cycling"); }
void sx_main(void){ apop_opts.verbose=-1; if(sx_choice("part",2)) cycle(); else restart(); }
