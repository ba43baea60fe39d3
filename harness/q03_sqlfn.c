/* The functions added to SQL. */
#include "hx.h"
void sx_main(void){
    apop_opts.verbose=-1; int op=sx_choice("op",3);
    if(op==0){ /* aggregates: by group, skipping blanks */
        int n=1+sx_choice("n",4),groups=1+sx_choice("groups",2),blank=sx_choice("blank",2); double x[2][4]; apop_query("create table t (g, x)"); for(int i=0;i<4;i++) for(int g=0;g<groups;g++) if(i<n-(g?(n>2):0)){ x[g][i]=sx_real("x"); apop_query("insert into t values (%i, %.17g)",g,x[g][i]); if(blank&&i==0) apop_query("insert into t values (%i, NULL)",g); }
        for(int g=0;g<groups;g++){ int m=n-(g?(n>2):0); gsl_vector *v=hx_v(x[g],m); double mu=0,s2=0,s3=0,s4=0; for(int i=0;i<m;i++) mu+=x[g][i]; mu/=m; for(int i=0;i<m;i++){ double d=x[g][i]-mu; s2+=d*d; s3+=d*d*d; s4+=d*d*d*d; }
            static const char *samp[]={"var","var_samp"},*pop[]={"variance","var_pop"},*ssd[]={"stddev","stddev_samp"},*psd[]={"std","stddev_pop"}; int k=sx_choice("alias",2);
#define Q(f) apop_query_to_float("select z from (select g, %s(x) as z from t group by g) where g=%i",f,g)
            double a=Q(samp[k]),b=Q(pop[k]),c=Q(ssd[k]),d=Q(psd[k]); if(m>1){ sx_check_eq(a,s2/(m-1),"sample variance"); sx_check_eq(a,apop_vector_var(v),"as for vectors"); sx_check_eq(c*c,s2/(m-1),"sample deviation"); sx_check_le(0,c,"deviation sign"); } sx_check_eq(b,s2/m,"population variance"); sx_check_eq(d*d,s2/m,"population deviation"); sx_check_le(0,d,"deviation sign");
            if(m>2){ sx_check_eq(Q("skew"),m*s3/((m-1.)*(m-2.)),"skew"); sx_check_eq(Q("skew"),apop_vector_skew(v),"skew as for vectors"); sx_check_eq(Q(k?"kurt":"kurtosis"),apop_vector_kurtosis(v),"kurtosis as for vectors"); } sx_check_same(apop_query_to_float("select count(x) from t where g=%i",g),m,"count"); }
        sx_reach("aggregates"); }
    else if(op==1){ /* one-to-one functions */
        double x=sx_real("x"),p=sx_pos("p"); 
#define F(f,v) apop_query_to_float("select %s(%.17g) as z",f,v)
        int k=sx_choice("fn",11); static const char *nm[]={"sqrt","exp","log","ln","log10","sin","cos","tan","atan"}; double a= k==0||(k>=2&&k<=4)?p:x; if(k<9){ double w= k==0?sqrt(p):k==1?exp(x):k==2||k==3?log(p):k==4?log10(p):k==5?sin(x):k==6?cos(x):k==7?tan(x):atan(x); sx_check_eq(F(nm[k],a),w,nm[k]); }
        else if(k==9){ int e=sx_choice("power",4); sx_check_eq(apop_query_to_float("select pow(%.17g, %i) as z",x,e),e==0?1:e==1?x:e==2?x*x:x*x*x,"integer powers"); sx_check_eq(apop_query_to_float("select pow(%.17g, 0.5) as z",p),sqrt(p),"square root as a power"); sx_check_eq(apop_query_to_float("select pow(%.17g, -1) as z",p),1/p,"reciprocal"); }
        else { sx_check_eq(F("asin",1.),M_PI/2,"asin"); sx_check_eq(F("acos",0.),M_PI/2,"acos"); double z=F("asin",0.); sx_check_eq(z,0,"asin 0"); } 
        apop_query("create table t (k, x)"); apop_query("insert into t values (1, %.17g)",p); apop_query("insert into t values (2, %.17g)",p*2); apop_data *d=apop_query_to_data("select exp(x) as e, log(x) as l from t order by k"); sx_check_eq(gsl_matrix_get(d->matrix,0,0),exp(p),"row by row"); sx_check_eq(gsl_matrix_get(d->matrix,1,1),log(2*p),"row by row"); sx_reach("functions"); }
    else { /* random numbers: one fresh uniform per row */
        int n=2+sx_choice("n",2); apop_query("create table t (x)"); for(int i=0;i<n;i++) apop_query("insert into t values (%i)",i); gsl_vector *v=apop_query_to_vector("select ran() from t"); sx_check(v&&(int)v->size==n,"one per row"); for(int i=0;i<n;i++){ double u=gsl_vector_get(v,i); sx_check_le(0,u,"at least zero"); sx_check_lt(u,1,"below one"); for(int j=0;j<i;j++) sx_check(!(sx_symbolic()?0:u==gsl_vector_get(v,j)),"fresh"); } sx_reach("ran"); }
}
