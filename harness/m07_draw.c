/* Random draws: which distribution each model draws from, and what is made of the draw. */
#include "hx.h"
#include "draws.h"
static void drew(int i,const char*n,double a,double b,const char*lab){ sx_check(sx_ndraws>i&&!strcmp(sx_draws[i].name,n),hxl(lab,"draws from the right distribution")); if(sx_ndraws<=i) return; sx_check_eq(sx_draws[i].a,a,hxl(lab,"first parameter")); sx_check_eq(sx_draws[i].b,b,hxl(lab,"second parameter")); }
#define D(i) sx_draws[i].value
static int calls,failat; static int mydraw(double*o,gsl_rng*r,apop_model*m){ int c=calls++; for(int i=0;i<m->dsize;i++) o[i]=gsl_vector_get(m->parameters->vector,0)*(c+1)+i; return c==failat; }
static void many(void){ int dim=1+sx_choice("dim",2),n=1+sx_choice("count",3); double a=sx_real("a"); apop_model *m=apop_model_copy(apop_improper_uniform); m->draw=mydraw; m->dsize=dim; m->parameters=apop_data_alloc(1); gsl_vector_set(m->parameters->vector,0,a); calls=0; failat=sx_choice("fails",n+1)-1; int form=sx_choice("form",5); apop_data *o;
    if(form==0) o=apop_model_draws(m,n); else if(form==1){ apop_data *have=apop_data_alloc(n,dim); o=apop_model_draws(m,.draws=have); sx_check(o==have,"fills the given matrix"); } else if(form==2){ apop_data *have=apop_data_alloc(n,dim); o=apop_model_draws(m,.count=sx_choice("ignored count",2)?n+4:1,.draws=have); sx_check(o==have,"fills the given matrix"); }
    else if(form==3){ sx_check(apop_model_draws(NULL)->error=='m',"no model"); m->dsize=0; sx_check(apop_model_draws(m,n)->error=='m',"no size"); m->dsize=-1; sx_check(apop_model_draws(m,n)->error=='m',"no size"); sx_check(calls==0,"no draws made"); sx_reach("errors"); return; }
    else { apop_data *no=apop_data_alloc(2); sx_check(apop_model_draws(m,.draws=no)==no&&no->error=='m',"no matrix"); m->dsize=3; apop_data *small=apop_data_alloc(n,2); gsl_matrix_set_all(small->matrix,-7); sx_check(apop_model_draws(m,.draws=small)==small&&small->error=='s',"too small"); for(int i=0;i<n;i++) for(int j=0;j<2;j++) sx_check(gsl_matrix_get(small->matrix,i,j)==-7,"nothing written"); sx_reach("errors"); return; }
    sx_check(o->matrix&&(int)o->matrix->size1==n&&(int)o->matrix->size2==dim,"one row per draw"); sx_check(calls==n,"one call per draw"); for(int i=0;i<n;i++) for(int j=0;j<dim;j++){ double g=apop_data_get(o,i,j); if(i==failat) sx_check(isnan(g),"failed draws are NaN"); else sx_check_eq(g,a*(i+1)+j,"draws in order"); } sx_check(o->error==(failat>=0?'d':0),"failures are flagged"); sx_reach("many"); }
static void hyper(void){ double a[3]; int bad=sx_choice("bad",4)-1; double s=sx_pos("a"); for(int i=0;i<3;i++) a[i]=i==bad?(sx_choice("zero",2)?0:-sx_pos("neg")):(i+1)*s; gsl_rng *r=apop_rng_alloc(3); sx_ndraws=0; double g=apop_rng_GHgB3(r,a); if(bad>=0){ sx_check(isnan(g)&&sx_ndraws==0,"not positive: NaN"); sx_reach("GHgB3 bad"); return; }
    sx_check(sx_ndraws==4,"three Gammas and a Poisson"); if(sx_ndraws!=4) return; int at[3]={-1,-1,-1}; for(int i=0;i<3;i++){ sx_check(!strncmp(sx_draws[i].name,"gamma",5),"a Gamma draw"); sx_check_eq(sx_draws[i].b,1,"Gamma scale"); for(int j=0;j<3;j++) if(sx_draws[i].a==a[j]) at[j]=i; } sx_check(at[0]>=0&&at[1]>=0&&at[2]>=0,"one Gamma for each parameter"); if(at[0]<0||at[1]<0||at[2]<0) return; sx_check(!strcmp(sx_draws[3].name,"poisson"),"a Poisson draw"); sx_check_eq(sx_draws[3].a,sx_draws[at[0]].value*sx_draws[at[1]].value/sx_draws[at[2]].value,"Poisson rate"); sx_check_eq(g,sx_draws[3].value,"the draw"); sx_reach("GHgB3"); }
void sx_main(void){
    apop_opts.verbose=-1; int k=sx_choice("model",15); if(k==13){ many(); return; } if(k==14){ hyper(); return; } gsl_rng *r=apop_rng_alloc(3); double o[4]={-77,-77,-77,-77}; int rc; apop_model *m=NULL; int np=2; double keep[4]={0}; sx_ndraws=0; int nr=sx_choice("rng",2); if(nr) r=NULL;
    if(k==10){ int n=1+sx_choice("n",2),bins=2+sx_choice("bins",3); double p[4],s=0; for(int i=1;i<bins;i++){ p[i]=sx_open("p",0,1); s+=p[i]; } p[0]=1-s; sx_assume_lt(0,p[0]); m=apop_model_copy(apop_multinomial); m->vsize=m->dsize=bins; apop_prep(NULL,m); gsl_vector_set(m->parameters->vector,0,n); for(int i=1;i<bins;i++) gsl_vector_set(m->parameters->vector,i,p[i]);
        rc=apop_draw(o,r,m); sx_check(rc==0,"success"); double tot=0; for(int i=0;i<bins;i++){ sx_check(o[i]>=0,"counts"); tot+=o[i]; } sx_check(tot==n,"all draws are allocated"); if(bins==2){ drew(0,"binomial",p[0],n,"multinomial"); sx_check_eq(o[0],D(0),"multinomial misses"); } else { drew(0,"binomial",p[0],n,"multinomial"); sx_check_eq(o[0],D(0),"first bin"); drew(1,"binomial",p[1]/(1-p[0]),n-o[0],"multinomial"); sx_check_eq(o[1],D(1),"second bin"); if(bins==3) drew(2,"binomial",1,n-o[0]-o[1],"multinomial"); else { drew(2,"binomial",p[2]/(1-p[0]-p[1]),n-o[0]-o[1],"multinomial"); sx_check_eq(o[2],D(2),"third bin"); } }
        sx_check_eq(gsl_vector_get(m->parameters->vector,0),n,"parameters left alone"); for(int i=1;i<bins;i++) sx_check_same(gsl_vector_get(m->parameters->vector,i),p[i],"parameters left alone"); sx_reach("multinomial"); return; }
    if(k==11){ int bins=2+sx_choice("bins",2); double a[3],s=0; m=apop_model_copy(apop_dirichlet); m->vsize=m->dsize=bins; apop_prep(NULL,m); for(int i=0;i<bins;i++){ a[i]=sx_pos("alpha"); gsl_vector_set(m->parameters->vector,i,a[i]); } rc=apop_draw(o,r,m); sx_check(rc==0,"success"); for(int i=0;i<bins;i++){ drew(i,"gamma",a[i],1,"dirichlet"); s+=D(i); } for(int i=0;i<bins;i++) sx_check_eq(o[i],D(i)/s,"dirichlet draw"); sx_reach("dirichlet"); return; }
    if(k==12){ int dim=1+sx_choice("dim",2); double L[2][2]={{0}},mu[2],S[2][2]; m=apop_model_copy(apop_multivariate_normal); m->vsize=m->msize1=m->msize2=m->dsize=dim; m->parameters=apop_data_alloc(dim,dim,dim); for(int i=0;i<dim;i++){ mu[i]=sx_real("mu"); gsl_vector_set(m->parameters->vector,i,mu[i]); for(int j=0;j<i;j++) L[i][j]=sx_real("L"); L[i][i]=sx_pos("L"); } for(int i=0;i<dim;i++)for(int j=0;j<dim;j++){ S[i][j]=0; for(int q=0;q<dim;q++) S[i][j]+=L[i][q]*L[j][q]; gsl_matrix_set(m->parameters->matrix,i,j,S[i][j]); }
        rc=apop_draw(o,r,m); sx_check(rc==0,"success"); sx_check(sx_ndraws==dim,"one draw per dimension"); for(int i=0;i<dim;i++){ drew(i,"gaussian",1,0,"mvn"); double w=mu[i]; for(int q=0;q<=i;q++) w+=L[i][q]*D(q); sx_check_eq(o[i],w,"mean plus Cholesky factor times normals"); sx_check_same(gsl_vector_get(m->parameters->vector,i),mu[i],"parameters left alone"); for(int j=0;j<dim;j++) sx_check_same(gsl_matrix_get(m->parameters->matrix,i,j),S[i][j],"parameters left alone"); } sx_reach("mvn"); return; }
    double a,b=0,c=0;
    switch(k){
    case 0: a=sx_real("mu"); b=sx_pos("sd"); m=apop_model_set_parameters(apop_normal,a,b); rc=apop_draw(o,r,m); drew(0,"gaussian",b,0,"normal"); sx_check_eq(o[0],a+b*D(0),"normal draw"); break;
    case 1: a=sx_real("mu"); b=sx_pos("sd"); m=apop_model_set_parameters(apop_lognormal,a,b); rc=apop_draw(o,r,m); drew(0,"gaussian",b,0,"lognormal"); sx_check_eq(o[0],exp(a+b*D(0)),"lognormal draw"); break;
    case 2: a=sx_pos("mu"); np=1; m=apop_model_set_parameters(apop_exponential,a); rc=apop_draw(o,r,m); drew(0,"exponential",a,0,"exponential"); sx_check_eq(o[0],a*D(0),"exponential draw"); break;
    case 3: a=sx_pos("a"); b=sx_pos("b"); m=apop_model_set_parameters(apop_gamma,a,b); rc=apop_draw(o,r,m); drew(0,"gamma",a,b,"gamma"); sx_check_eq(o[0],b*D(0),"gamma draw"); break;
    case 4: a=sx_pos("a"); b=sx_pos("b"); m=apop_model_set_parameters(apop_beta,a,b); rc=apop_draw(o,r,m); drew(sx_ndraws-1,"beta",a,b,"beta"); sx_check_eq(o[0],D(sx_ndraws-1),"beta draw"); break;
    case 5: a=sx_real("mu"); b=sx_pos("sd"); c=sx_pos("df"); np=3; m=apop_model_set_parameters(apop_t_distribution,a,b,c); rc=apop_draw(o,r,m); drew(0,"tdist",c,0,"t"); sx_check_eq(o[0],a+b*D(0),"t draw"); break;
    case 6: a=sx_real("a"); b=a+sx_pos("width"); m=apop_model_set_parameters(apop_uniform,a,b); rc=apop_draw(o,r,m); drew(0,"uniform",0,1,"uniform"); sx_check_eq(o[0],a+(b-a)*D(0),"uniform draw"); break;
    case 7: a=sx_pos("lambda"); np=1; m=apop_model_set_parameters(apop_poisson,a); rc=apop_draw(o,r,m); drew(0,"poisson",a,0,"poisson"); sx_check_eq(o[0],D(0),"poisson draw"); break;
    case 8: a=sx_open("p",0,1); np=1; m=apop_model_set_parameters(apop_bernoulli,a); rc=apop_draw(o,r,m); drew(0,"uniform",0,1,"bernoulli"); if(D(0)<a) sx_check(o[0]==1,"success below p"); else sx_check(o[0]==0,"failure at or above p"); break;
    case 9: { int n=1+sx_choice("n",3); a=n; b=sx_choice("likely",2)?sx_open("p",0.5,1):sx_open("p",0,0.5); m=apop_model_set_parameters(apop_binomial,n,b); rc=apop_draw(o,r,m); sx_check(!strcmp(sx_draws[0].name,"binomial"),"binomial draw"); if(sx_draws[0].a==b) sx_check_eq(o[0],D(0),"hits"); else { drew(0,"binomial",1-b,n,"binomial"); sx_check_eq(o[0],n-D(0),"hits"); } break; } default: return; }
    sx_check(rc==0,"success"); for(int i=1;i<4;i++) sx_check(o[i]==-77,"only one number written"); keep[0]=a; keep[1]=b; keep[2]=c; for(int i=0;i<np;i++) sx_check_same(gsl_vector_get(m->parameters->vector,i),keep[i],"parameters left alone"); apop_model *im=apop_model_copy(apop_improper_uniform); if(k==0) sx_check(apop_draw(o,r,im)==1&&isnan(o[0]),"no draws from an improper distribution"); sx_reach("scalar");
}
