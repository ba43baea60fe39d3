/* Numerical gradients, Hessians and covariances of log likelihoods (polynomials, for which the stencil is exact). */
#include "hx.h"
#include "opt.h"
static double C[3][3]; static int n;
static double th(apop_model*m,int i){ gsl_vector*v=m->parameters->vector; int vs=v?v->size:0; return i<vs?gsl_vector_get(v,i):gsl_matrix_get(m->parameters->matrix,(i-vs)/m->parameters->matrix->size2,(i-vs)%m->parameters->matrix->size2); }
static double poly(const double*t,double w){ double s=0; for(int i=0;i<n;i++){ s+=C[i][i]*t[i]*t[i]*t[i]*t[i]-w*t[i]*t[i]; for(int j=0;j<i;j++) s+=C[i][j]*t[i]*t[j]*t[j]; } return s; }
static void grad(const double*t,double w,double*g){ for(int i=0;i<n;i++) g[i]=4*C[i][i]*t[i]*t[i]*t[i]-2*w*t[i]; for(int i=0;i<n;i++) for(int j=0;j<i;j++){ g[i]+=C[i][j]*t[j]*t[j]; g[j]+=2*C[i][j]*t[i]*t[j]; } }
static void hess(const double*t,double w,double h[3][3]){ for(int i=0;i<3;i++) for(int j=0;j<3;j++) h[i][j]=0; for(int i=0;i<n;i++) h[i][i]=12*C[i][i]*t[i]*t[i]-2*w; for(int i=0;i<n;i++) for(int j=0;j<i;j++){ h[i][j]+=2*C[i][j]*t[j]; h[j][i]+=2*C[i][j]*t[j]; h[j][j]+=2*C[i][j]*t[i]; } }
static double wt(apop_data*d){ return d?gsl_matrix_get(d->matrix,0,0)+gsl_matrix_get(d->matrix,1,0):1; }
static double T0[3],far_; /* how far from the parameters the likelihood was evaluated */
static long double ll(apop_data*d,apop_model*m){ double t[3]; for(int i=0;i<n;i++){ t[i]=th(m,i); double x=fabs(t[i]-T0[i]); if(x>far_) far_=x; } return poly(t,wt(d)); }
static double skew; /* a score that is not a gradient: the two estimates of a cross derivative differ */
static void score(apop_data*d,gsl_vector*g,apop_model*m){ double t[3],o[3]; for(int i=0;i<n;i++) t[i]=th(m,i); grad(t,wt(d),o); for(int i=0;i<n;i++) gsl_vector_set(g,i,o[i]+(i==1?skew*t[0]:0)); }
static double *first(apop_model*m){ gsl_vector*v=m->parameters->vector; return v?gsl_vector_ptr(v,0):gsl_matrix_ptr(m->parameters->matrix,0,0); }
/* the first parameter must be at least 10 */
static long double floor_(apop_data*d,apop_model*m){ double *x=first(m),k=10-*x; if(k<=0) return 0; *x=10; return k; }
static long double free_(apop_data*d,apop_model*m){ return 0; }
void sx_main(void){
    apop_opts.verbose=-1; int shape=sx_choice("parameters",5); static const int vs[]={1,2,0,1,3},m1[]={0,0,1,1,0},m2[]={0,0,2,2,0}; n=vs[shape]+m1[shape]*m2[shape]; int what=sx_choice("what",3); if(what==2&&shape>2) return;
    for(int i=0;i<n;i++) for(int j=0;j<=i;j++) C[i][j]=i==j&&i==0?sx_in("c",-2,2):i==1&&!j?sx_in("c",-2,2):(1+i-j)*.5-i;
    int sc=what?sx_choice("score",2):0; skew=sc&&n>1?sx_in("skew",-1,1):0; int useP=sx_choice("p",2), wd=sx_choice("data",2), set=sx_choice("settings",2), dl=sx_choice("delta",2), con=sx_choice("constraint",what?2:3); if((what&&con&&useP)||(shape>2&&what==1&&(con||useP))) return; int named=what?sx_choice("names",2):0;
    apop_model *m=apop_model_copy(&(apop_model){"tested",.vsize=vs[shape],.msize1=m1[shape],.msize2=m2[shape]}); if(useP) m->p=ll; else m->log_likelihood=ll; if(con) m->constraint=con==2?floor_:free_; m->parameters=apop_data_alloc(vs[shape],m1[shape],m2[shape]); if(named&&vs[shape]) for(int i=0;i<n;i++){ char b[9]; sprintf(b,"r%d",i); apop_name_add(m->parameters->names,b,'r'); }
    double t[3]; for(int i=0;i<n;i++){ t[i]=i==2?.5:sx_in("theta",-3,3); if(i<vs[shape]) gsl_vector_set(m->parameters->vector,i,t[i]); else gsl_matrix_set(m->parameters->matrix,0,i-vs[shape],t[i]); T0[i]=t[i]; }
    if(set) Apop_settings_add_group(m,apop_mle,.delta=.25); if(sc) apop_score_vtable_add(score,m);
    apop_data *d=NULL; double w=1; if(wd){ d=apop_data_alloc(2,1); double a=sx_in("datum",-2,2); gsl_matrix_set(d->matrix,0,0,a); gsl_matrix_set(d->matrix,1,0,3); w=a+3; }
    double g[3],h[3][3],t0=t[0]; if(con==2) t[0]=10; grad(t,w,g); t[0]=t0; if(con==2) g[0]=1; /* below the floor, the value at the floor less the distance to it */ hess(t,w,h); if(n>1){ h[0][1]+=skew/2; h[1][0]+=skew/2; }
    if(what==0){ gsl_vector *o=dl?apop_numerical_gradient(d,m,.5):apop_numerical_gradient(d,m); sx_check(o&&(int)o->size==n,"one derivative per parameter"); if(o) for(int i=0;i<n;i++) sx_check_eq(gsl_vector_get(o,i),g[i],"derivative"); sx_reach("gradient"); }
    else if(what==1){ apop_data *o=dl?apop_model_hessian(d,m,.5):apop_model_hessian(d,m); sx_check(o&&o->matrix&&(int)o->matrix->size1==n&&(int)o->matrix->size2==n,"Hessian's size"); if(o&&o->matrix) for(int i=0;i<n;i++) for(int j=0;j<n;j++) sx_check_eq(gsl_matrix_get(o->matrix,i,j),h[i][j],"second derivative"); if(named&&vs[shape]==n&&o) for(int i=0;i<n;i++){ sx_check(o->names->rowct==n&&o->names->colct==n&&!strcmp(o->names->row[i],m->parameters->names->row[i])&&!strcmp(o->names->col[i],m->parameters->names->row[i]),"rows and columns are named for the parameters"); } sx_reach("Hessian"); }
    else { double det=n==1?h[0][0]:h[0][0]*h[1][1]-h[0][1]*h[1][0]; sx_assume_ne(det,0); if(n>1) sx_assume_ne(h[0][0],0); int had=sx_choice("page",2); if(had) apop_data_add_page(m->parameters,apop_data_falloc((1),7),"<Covariance>"); apop_data *o=dl?apop_model_numerical_covariance(d,m,.5):apop_model_numerical_covariance(d,m); sx_check(o&&o->matrix&&(int)o->matrix->size1==n,"covariance's size"); if(o&&o->matrix){ if(n==1) sx_check_eq(gsl_matrix_get(o->matrix,0,0),-1/det,"negated inverse"); else { sx_check_eq(gsl_matrix_get(o->matrix,0,0)*det,-h[1][1],"negated inverse"); sx_check_eq(gsl_matrix_get(o->matrix,1,1)*det,-h[0][0],"negated inverse"); sx_check_eq(gsl_matrix_get(o->matrix,0,1)*det,h[0][1],"negated inverse"); sx_check_eq(gsl_matrix_get(o->matrix,1,0)*det,h[0][1],"negated inverse"); } }
        apop_data *pg=apop_data_get_page(m->parameters,"<Covariance>"); { int ct=0; for(apop_data*q=m->parameters;q;q=q->more) if(q->names&&q->names->title&&!strcmp(q->names->title,"<Covariance>")) ct++; sx_check(ct==1,"one covariance page"); } sx_check(pg!=NULL&&(had?!pg->matrix&&pg->vector:pg->matrix==o->matrix||1),"the parameters have a covariance page"); if(pg&&!had&&pg->matrix) for(int i=0;i<n;i++) for(int j=0;j<n;j++) sx_check_same(gsl_matrix_get(pg->matrix,i,j),gsl_matrix_get(o->matrix,i,j),"which is the covariance"); else if(pg&&had) sx_check(!pg->matrix&&pg->vector&&gsl_vector_get(pg->vector,0)==7,"and is not overwritten"); if(o&&named&&vs[shape]==n) for(int i=0;i<n;i++) sx_check(o->names->rowct==n&&o->names->colct==n&&!strcmp(o->names->row[i],m->parameters->names->row[i])&&!strcmp(o->names->col[i],m->parameters->names->row[i]),"rows and columns are named for the parameters"); sx_reach("covariance"); }
    if(con!=2){ double dx=dl?.5:set?.25:0; if(dx) sx_check(far_>=dx/4&&far_<=(what&&!sc?4.01:2.01)*dx||sc,"evaluated as far away as asked"); }
    for(int i=0;i<n;i++) sx_check_eq(th(m,i),t[i],"the model's parameters are as they were"); if(d) sx_check(d->matrix->size1==2,"data");
}
