/* Least squares, weighted or not: normal equations, error variance, covariance, predictions, sums of squares,
   information criteria, names, which parts are produced, and what is left of the input. */
#include "hx.h"
static int n,k,hasw,hasvec; static double X[4][3],Y[4],W[4];
static double inf(apop_model*e,const char*s){ int r=e->info?apop_name_find(e->info->names,s,'r'):-2; sx_check(r>=0,hxl("reported:",s)); return r<0?NAN:gsl_vector_get(e->info->vector,r); }
static int hasinf(apop_model*e,const char*s){ return e->info&&apop_name_find(e->info->names,s,'r')>=0; }
static apop_data *data(int named){ apop_data *d=apop_data_alloc(hasvec?n:0,n,k); for(int i=0;i<n;i++){ for(int j=0;j<k;j++) gsl_matrix_set(d->matrix,i,j,!hasvec&&!j?Y[i]:X[i][j]); if(hasvec) gsl_vector_set(d->vector,i,Y[i]); }
    if(hasw){ d->weights=gsl_vector_alloc(n); for(int i=0;i<n;i++) gsl_vector_set(d->weights,i,W[i]); }
    if(named){ if(hasvec) apop_name_add(d->names,"dep",'v'); for(int j=0;j<k;j++) apop_name_add(d->names,!hasvec&&!j?"dep":hxn("ind",j),'c'); } return d; }
static void untouched(apop_data*d,int named){ sx_check(d->vector&&(int)d->vector->size==n,"dependent variable in the vector"); for(int i=0;i<n;i++){ sx_check_same(gsl_vector_get(d->vector,i),Y[i],"dependent variable"); for(int j=0;j<k;j++) sx_check_same(gsl_matrix_get(d->matrix,i,j),X[i][j],"independent variables"); if(hasw) sx_check_same(gsl_vector_get(d->weights,i),W[i],"weights left alone"); }
    if(named){ sx_check(d->names->vector&&!strcmp(d->names->vector,"dep"),"dependent variable name"); for(int j=0;j<k;j++) sx_check(d->names->colct==k&&!strcmp(d->names->col[j],!hasvec&&!j?"1":hxn("ind",j)),"column names"); } }
#ifdef SX_THOROUGH
#define FULL 0
#else
#define FULL 1 /* with weights, only one row of the regressors is symbolic */
#endif
static void bad(void){ int how=sx_choice("how",4); apop_data *d; /* unusable data */
    if(how<2){ d=apop_data_alloc(3,3); double a=sx_real("a"); if(sx_choice("names",2)) for(int j=0;j<3;j++) apop_name_add(d->names,j?hxn("c",j):"",'c'); for(int i=0;i<3;i++){ gsl_matrix_set(d->matrix,i,0,sx_real("y")); gsl_matrix_set(d->matrix,i,1,how?i*a:a); gsl_matrix_set(d->matrix,i,2,how?3*i*a:i); } } else if(how==2) d=apop_data_alloc(3); else d=NULL;
    apop_model *m=apop_model_copy(apop_ols); if(sx_choice("few",2)) Apop_settings_add_group(m,apop_parts_wanted); apop_model *e=apop_estimate(d,m); sx_check(e&&e->error,how<2?"collinear columns are an error":"no data matrix is an error"); if(how<2&&e->parameters&&e->parameters->vector) for(size_t j=0;j<e->parameters->vector->size;j++) sx_check(isnan(gsl_vector_get(e->parameters->vector,j)),"no estimate from collinear columns"); sx_reach("unusable"); }
void sx_main(void){
    apop_opts.verbose=-1; int part=sx_choice("part",4);
    if(part==3){ bad(); return; } /* 0: the estimates 1: parts wanted 2: sizes, names */
    n=3; k=2; hasw=sx_choice("weights",2); hasvec=sx_choice("vector",2); int named=part==2;
    if(part==2){ k=1+sx_choice("k",3); n=k+1; if(n==2) n=3; }
    for(int i=0;i<n;i++){ Y[i]=part==0||(part==2&&(i<2||!hasw))?sx_real("y"):(double[]){1,4,2,7}[i]; W[i]=hasw?(part==0?sx_pos("w"):part==1?(double[]){1,.5,2,1}[i]:(i==1?sx_pos("w"):i+.5)):1; for(int j=0;j<k;j++) X[i][j]=!hasvec&&!j?1:part==0?(hasvec&&!j?(double[]){1,2,1,3}[i]:FULL&&hasw?i*i+2:sx_real("x")):part==1?(double[]){1,3,2,5}[i]*(j+1)+(j&&i==2):(j==0?1:j==1?(double[]){1,3,2,5}[i]:(double[]){0,2,7,1}[i]); }
    /* full rank */
    if(part==0){ double a=0,b=0,c=0; for(int i=0;i<n;i++){ a+=W[i]*X[i][0]*X[i][0]; b+=W[i]*X[i][0]*X[i][1]; c+=W[i]*X[i][1]*X[i][1]; } sx_assume_ne(a*c-b*b,0); if(hasvec) sx_assume_ne(a,0); }
    apop_data *d=data(named); apop_model *m=apop_model_copy(apop_ols); int wc=1,wp=1,wt=1,wall=1;
    if(part==1){ int how=sx_choice("wants",3); if(how==1){ wc=sx_choice("cov",2); wp=sx_choice("predicted",2); wt=sx_choice("tests",2); Apop_settings_add_group(m,apop_parts_wanted,.covariance=wc?'y':'n',.predicted=wp?'y':'n',.tests=wt?'y':'n'); wc|=wt; wall=0; } else if(how==2){ wc=wt=sx_choice("cov",2); wp=sx_choice("predicted",2); Apop_settings_add_group(m,apop_lm,.want_cov=wc?'y':'n',.want_expected_value=wp?'y':'n'); } }
    apop_model *e=apop_estimate(d,m); sx_check(!e->error,"no error"); sx_check(!apop_ols->parameters&&!m->parameters&&!apop_ols->data,"the original model is untouched"); untouched(d,named); sx_check(e->data==d,"the model points to its data");
    sx_check(e->parameters&&e->parameters->vector&&(int)e->parameters->vector->size==k,"one parameter per column"); double B[3],E[4],F[4],sse=0; for(int j=0;j<k;j++) B[j]=gsl_vector_get(e->parameters->vector,j);
    for(int i=0;i<n;i++){ F[i]=0; for(int j=0;j<k;j++) F[i]+=X[i][j]*B[j]; E[i]=Y[i]-F[i]; sse+=W[i]*E[i]*E[i]; }
    for(int j=0;j<k;j++){ double z=0; for(int i=0;i<n;i++) z+=X[i][j]*W[i]*E[i]; sx_check_eq(z,0,"residuals orthogonal to every column"); }
    apop_data *c=apop_data_get_page(e->parameters,"<Covariance>"),*ev=apop_data_get_page(e->parameters,"<Error variance>"),*p=apop_data_get_page(e->info,"<Predicted>"),*t=apop_data_get_page(e->info,"<test info>");
    sx_check((c!=NULL)==wc,"covariance page iff wanted"); sx_check((p!=NULL)==wp,"predicted page iff wanted"); sx_check((t!=NULL)==wt,"tests iff wanted"); sx_check((ev!=NULL)==(wc||wp),"error variance page");
    double s2=sse/(n-k); if(ev){ sx_check_eq(apop_data_get(ev,0,-1),s2,"error variance"); }
    if(c){ sx_check(c->matrix&&(int)c->matrix->size1==k&&(int)c->matrix->size2==k,"covariance size"); for(int a=0;a<k;a++) for(int b=0;b<k;b++){ double z=0; for(int q=0;q<k;q++){ double xx=0; for(int i=0;i<n;i++) xx+=X[i][a]*W[i]*X[i][q]; z+=xx*gsl_matrix_get(c->matrix,q,b); } sx_check_eq(z,a==b?s2:0,"covariance is the error variance times the inverse of X'WX"); } }
    if(p){ sx_check(p->matrix&&(int)p->matrix->size1==n&&p->matrix->size2==3,"predicted page size"); sx_check(p->names->colct==3&&!strcasecmp(p->names->col[0],"observed")&&!strcasecmp(p->names->col[1],"predicted")&&!strcasecmp(p->names->col[2],"residual"),"predicted page columns");
        for(int i=0;i<n;i++){ sx_check_eq(gsl_matrix_get(p->matrix,i,0),Y[i],"observed"); sx_check_eq(gsl_matrix_get(p->matrix,i,1),F[i],"predicted"); sx_check_eq(gsl_matrix_get(p->matrix,i,2),E[i],"residual"); }
        double wy=0,w=0,sst=0; for(int i=0;i<n;i++){ wy+=W[i]*Y[i]; w+=W[i]; } for(int i=0;i<n;i++) sst+=W[i]*(Y[i]-wy/w)*(Y[i]-wy/w); if(part==0) sx_assume_lt(0,sst);
        sx_check_eq(inf(e,"SSE"),sse,"SSE"); sx_check_eq(inf(e,"SST"),sst,"SST"); sx_check_eq(inf(e,"SSR"),sst-sse,"SSR"); sx_check_eq(inf(e,"R squared"),1-sse/sst,"R squared"); sx_check_eq(inf(e,"R squared adj"),1-(sse/(n-k))/(sst/(n-1)),"adjusted R squared"); }
    else sx_check(!hasinf(e,"SSE"),"no sums of squares without predictions");
    double ll=inf(e,"log likelihood");
    if(ev){ sx_assume_lt(1e-9,sse); double want=0; for(int i=0;i<n;i++) want+=W[i]*log(gsl_ran_gaussian_pdf(E[i],sqrt(s2))); sx_check_eq(ll,want,"log likelihood"); sx_check_eq(apop_log_likelihood(d,e),want,"log likelihood of the estimated model"); apop_data *d2=data(0); sx_check_eq(apop_log_likelihood(d2,e),want,"log likelihood of another copy of the data"); }
    sx_check_eq(inf(e,"AIC"),2*k-2*ll,"AIC"); sx_check_eq(inf(e,"BIC"),k*log(n)-2*ll,"BIC"); if(n>k+1) sx_check_eq(inf(e,"AIC_c"),2*k-2*ll+2*k*(k+1.)/(n-k-1),"corrected AIC");
    if(t){ if(part==2) sx_assume_lt(1e-6,sse); sx_check_eq(inf(e,"df"),n-k,"degrees of freedom"); sx_check(t->matrix&&(int)t->matrix->size1==k&&t->matrix->size2==2,"test page size");
        if(part!=0) for(int j=0;j<k;j++){ double se=sqrt(gsl_matrix_get(c->matrix,j,j)); double f=B[j]==0?.5:gsl_cdf_tdist_P(-B[j]/se,n-k),conf=2*(f<.5?.5-f:f-.5); int pc=apop_name_find(t->names,"p value",'c'),cc=apop_name_find(t->names,"confidence",'c'); sx_check(pc>=0&&cc>=0,"test page columns"); if(pc>=0&&cc>=0){ sx_check_eq(gsl_matrix_get(t->matrix,j,cc),conf,"confidence"); sx_check_eq(gsl_matrix_get(t->matrix,j,pc),1-conf,"p value"); } } }
    if(named){ const char*nm[3]; for(int j=0;j<k;j++) nm[j]=!hasvec&&!j?"1":hxn("ind",j); sx_check(e->parameters->names->rowct==k,"parameter name count"); for(int j=0;j<k&&j<e->parameters->names->rowct;j++) sx_check(!strcmp(e->parameters->names->row[j],nm[j]),"parameter names"); sx_check(e->parameters->names->title&&strstr(e->parameters->names->title,"dep")!=NULL,"title names the dependent variable");
        if(c) for(int j=0;j<k;j++) sx_check(c->names->rowct==k&&c->names->colct==k&&!strcmp(c->names->row[j],nm[j])&&!strcmp(c->names->col[j],nm[j]),"covariance names"); if(t) for(int j=0;j<k;j++) sx_check(t->names->rowct==k&&!strcmp(t->names->row[j],nm[j]),"test names"); }
    if(part!=0&&wc){ /* prediction for new data */ apop_data *q=apop_data_alloc(2,k); double z[2][3],f[2]; for(int i=0;i<2;i++){ f[i]=0; for(int j=0;j<k;j++){ z[i][j]=i&&part==2?3-i-4*j:sx_real("new"); gsl_matrix_set(q->matrix,i,j,z[i][j]); f[i]+=(j?z[i][j]:1)*B[j]; } } apop_data *r=apop_predict(q,e); sx_check(r==q&&q->vector&&q->vector->size==2,"prediction fills the vector"); if(q->vector) for(int i=0;i<2;i++) sx_check_eq(gsl_vector_get(q->vector,i),f[i],"prediction with a constant column"); 
        apop_data *v=apop_data_alloc(2,2,k); double fv[2]={0}; for(int i=0;i<2;i++){ gsl_vector_set(v->vector,i,NAN); for(int j=0;j<k;j++){ gsl_matrix_set(v->matrix,i,j,z[i][j]); fv[i]+=z[i][j]*B[j]; } } apop_predict(v,e); for(int i=0;i<2;i++) sx_check_eq(gsl_vector_get(v->vector,i),fv[i],"prediction"); }
    if(part==1&&wp&&wc){ double g[3]; gsl_vector *gr=gsl_vector_alloc(k); apop_score(d,gr,e); for(int j=0;j<k;j++){ g[j]=0; for(int i=0;i<n;i++) g[j]+=W[i]*X[i][j]*E[i]/s2; sx_check_eq(gsl_vector_get(gr,j),g[j],"score"); } }
    sx_reach("ols");
}
