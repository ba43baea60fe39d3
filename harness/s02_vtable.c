/* Registered special-case functions: each table is a map keyed by the functions of the model, first registration
   wins until dropped, tables and models do not interfere, and the generic entry points use what is registered. */
#include "hx.h"
static long double p1(apop_data*d,apop_model*m){return .5;} static long double p2(apop_data*d,apop_model*m){return .25;} static long double l1(apop_data*d,apop_model*m){return 1;} static void e1(apop_data*d,apop_model*m){} static void e2(apop_data*d,apop_model*m){} static int d1(double*o,gsl_rng*r,apop_model*m){return 0;}
static double V; static int hit;
static void sc1(apop_data*d,gsl_vector*g,apop_model*m){hit=1; gsl_vector_set_all(g,V);} static void sc2(apop_data*d,gsl_vector*g,apop_model*m){hit=2; gsl_vector_set_all(g,-V);}
static apop_data *pr1(apop_data*d,apop_model*m){hit=1;return d;} static apop_data *pr2(apop_data*d,apop_model*m){hit=2;return d;}
static apop_model *pm1(apop_data*d,apop_model*m){hit=1;return m;} static apop_model *pm2(apop_data*d,apop_model*m){hit=2;return m;}
static long double en1(apop_model*m){hit=1;return V;} static long double en2(apop_model*m){hit=2;return V;}
static void mp1(apop_model*m,FILE*f){hit=1;} static void mp2(apop_model*m,FILE*f){hit=2;}
static apop_model *up1(apop_data*d,apop_model*a,apop_model*b){hit=1;return a;} static apop_model *up2(apop_data*d,apop_model*a,apop_model*b){hit=2;return a;}
/* models: 0 and 1 have the same functions in every respect; the rest differ */
static apop_model M[6]={{.name="a",.log_likelihood=l1,.estimate=e1},{.name="b",.log_likelihood=l1,.estimate=e1,.vsize=2},{.name="c",.p=p1},{.name="d",.p=p2},{.name="e",.p=p1,.estimate=e2},{.name="f",.draw=d1}};
static int ref[6][8]; /* table x key class -> which function */
/* does the key of table t tell models apart? score: likelihood or p; predict, parameter model: that and the estimate; entropy: all; print: the first of several */
static int cls(int t,int m){ static const int score[]={0,0,1,2,1,3},est[]={0,0,1,2,3,4},ent[]={0,0,1,2,1,3},pr[]={0,0,1,2,1,3}; return t==0?score[m]:t==1||t==2?est[m]:t==3?ent[m]:t==4?pr[m]:pr[m]; }
static void add(int t,int m,int f){ apop_model*x=&M[m]; switch(t){ case 0: apop_score_vtable_add(f==1?sc1:sc2,x); break; case 1: apop_predict_vtable_add(f==1?pr1:pr2,x); break; case 2: apop_parameter_model_vtable_add(f==1?pm1:pm2,x); break; case 3: apop_entropy_vtable_add(f==1?en1:en2,x); break; case 4: apop_model_print_vtable_add(f==1?mp1:mp2,x); break; case 5: apop_update_vtable_add(f==1?up1:up2,x,&M[2]); } }
static int drop(int t,int m){ apop_model*x=&M[m]; switch(t){ case 0: return apop_score_vtable_drop(x); case 1: return apop_predict_vtable_drop(x); case 2: return apop_parameter_model_vtable_drop(x); case 3: return apop_entropy_vtable_drop(x); case 4: return apop_model_print_vtable_drop(x); default: return apop_update_vtable_drop(x,&M[2]); } }
static int get(int t,int m){ apop_model*x=&M[m]; void*g; switch(t){ case 0: g=apop_score_vtable_get(x); return g==sc1?1:g==sc2?2:g?3:0; case 1: g=apop_predict_vtable_get(x); return g==pr1?1:g==pr2?2:g?3:0; case 2: g=apop_parameter_model_vtable_get(x); return g==pm1?1:g==pm2?2:g?3:0; case 3: g=apop_entropy_vtable_get(x); return g==en1?1:g==en2?2:g?3:0; case 4: g=apop_model_print_vtable_get(x); return g==mp1?1:g==mp2?2:g?3:0; default: g=apop_update_vtable_get(x,&M[2]); return g==up1?1:g==up2?2:g?3:0; } }
static void all(const char*lab){ for(int t=0;t<6;t++) for(int m=0;m<6;m++) sx_check(get(t,m)==ref[t][cls(t,m)],lab); }
void sx_main(void){
    apop_opts.verbose=-1; V=sx_real("v"); int steps=4, t2=sx_choice("tables",5)+1; /* two tables at a time, or the same one twice */
#ifdef SX_THOROUGH
    steps=5;
#endif
    int start=sx_choice("start",3); all("empty"); if(start==1){ add(3,5,2); ref[3][cls(3,5)]=2; add(4,5,1); ref[4][cls(4,5)]=1; add(t2,5,1); if(!ref[t2][cls(t2,5)]) ref[t2][cls(t2,5)]=1; all("other entries"); }
    if(start==2){ static const int ms[]={2,3,5}; for(int i=0;i<3;i++) for(int w=0;w<2;w++){ int t=w?t2:0; add(t,ms[i],1+(i==1)); if(!ref[t][cls(t,ms[i])]) ref[t][cls(t,ms[i])]=1+(i==1); } all("several entries"); }
    int swap=t2&1; /* which of the two tables is used in step 1; the other in the other steps */
    for(int s=0;s<steps;s++){ int op=sx_choice("op",7), two=(s==1)!=swap, t=two?t2:0, m=op<2?0:op<4?(s&1?4:2):op==4?1:3; int k=cls(t,m);
        if(op==0||op==2||op==4){ add(t,m,1); if(!ref[t][k]) ref[t][k]=1; } else if(op==5){ add(t,m,2); if(!ref[t][k]) ref[t][k]=2; } else if(op==6){ int dt=t; int dk=cls(dt,2); sx_check(drop(dt,2)==(ref[dt][dk]?0:1),"dropping reports whether it was there"); ref[dt][dk]=0; } else { sx_check(drop(t,m)==(ref[t][k]?0:1),"dropping reports whether it was there"); ref[t][k]=0; }
        all("after"); }
    /* dispatch */
    int w=ref[0][0]; if(w){ gsl_vector*g=gsl_vector_alloc(2); hit=0; apop_score(NULL,g,&M[1]); sx_check(hit==w,"registered score used"); sx_check_same(gsl_vector_get(g,0),w==1?V:-V,"score"); }
    w=ref[1][0]; apop_data*d=apop_data_alloc(1); if(w){ hit=0; apop_predict(d,&M[1]); sx_check(hit==w,"registered prediction used"); }
    w=ref[2][0]; if(w){ hit=0; sx_check(apop_parameter_model(d,&M[1])==&M[1]&&hit==w,"registered parameter model used"); }
    w=ref[3][0]; if(w){ hit=0; sx_check_same(apop_model_entropy(&M[1]),V,"entropy"); sx_check(hit==w,"registered entropy used"); }
    w=ref[4][0]; if(w){ hit=0; apop_model_print(&M[1],stdout); sx_check(hit==w,"registered printing used"); }
    sx_reach("vtable");
}
