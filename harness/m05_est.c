/* Closed-form estimates: the parameters, their names, the covariance page, the reported log likelihood. */
#include "hx.h"
static void names(apop_model *e,const char**nm,int n){ for(int i=0;i<n;i++) sx_check(e->parameters->names->rowct>i&&!strcmp(e->parameters->names->row[i],nm[i]),"parameter names"); sx_check(e->parameters->names->rowct==n,"parameter name count"); }
static double P(apop_model*e,int i){ return gsl_vector_get(e->parameters->vector,i); }
static double info(apop_model*e,const char*s){ sx_check(e->info!=NULL,"info page"); if(!e->info) return NAN; int r=apop_name_find(e->info->names,s,'r'); sx_check(r>=0,"reported"); return r<0?NAN:apop_data_get(e->info,r,-1); }
static const char *MU="\xce\xbc",*SG="\xcf\x83",*AL="\xce\xb1",*BE="\xce\xb2",*LA="\xce\xbb";
static void multi(void){ int kind=sx_choice("bins",3),bins=kind==0?2:kind+1,rows=1+sx_choice("rows",2),n=1+sx_choice("draws",2); apop_model *m=kind==0?apop_binomial:apop_multinomial; apop_data *d=apop_data_alloc(rows,bins); double tot[4]={0}; for(int r=0;r<rows;r++){ int left=n; for(int i=0;i<bins;i++){ int h=i==bins-1?left:sx_choice("hits",left+1); left-=h; tot[i]+=h; apop_data_set(d,r,i,h); } } for(int i=0;i<bins;i++) tot[i]/=n*rows;
    for(int i=1;i<bins;i++) if(tot[i]==0||tot[0]==0) { sx_reach("degenerate"); break; } /* still estimable */
    if(sx_choice("named",2)) for(int i=0;i<bins;i++) apop_name_add(d->names,hxn("bin",i),'c');
    apop_model *e=apop_estimate(d,m); sx_check(e->parameters&&e->parameters->vector&&(int)e->parameters->vector->size==bins,"size of the parameters"); sx_check_eq(P(e,0),n,"number of draws"); for(int i=1;i<bins;i++) sx_check_eq(P(e,i),tot[i],"bin frequency"); const char *nm[]={"n","p1","p2","p3"}; names(e,nm,bins); sx_check(e->dsize==(kind==0?1:bins),"size of a draw"); sx_check(m->dsize==(kind==0?1:-1)&&!m->parameters,"the original model is untouched");
    apop_data *c=apop_data_get_page(e->parameters,"<Covariance>"); sx_check(c&&c->matrix&&(int)c->matrix->size1==bins&&(int)c->matrix->size2==bins,"covariance page"); if(c&&c->matrix) for(int i=0;i<bins;i++)for(int j=0;j<bins;j++) sx_check_eq(gsl_matrix_get(c->matrix,i,j),i==j?n*tot[i]*(1-tot[i]):-n*tot[i]*tot[j],"covariance");
    int z=0; for(int i=0;i<bins;i++) z|=tot[i]==0; if(!z) sx_check_eq(info(e,"log likelihood"),apop_log_likelihood(d,e),"log likelihood"); sx_reach("multinomial"); }
static void mvn(void){ int dim=2,rows=2+sx_choice("rows",2); ds a=hx_ds("a",0,rows,dim,0); apop_data *d=hx_build(&a); double mu[2]={0},S[2][2]; for(int j=0;j<dim;j++){ for(int i=0;i<rows;i++) mu[j]+=a.m[i][j]; mu[j]/=rows; } for(int j=0;j<dim;j++)for(int k=0;k<dim;k++){ S[j][k]=0; for(int i=0;i<rows;i++) S[j][k]+=(a.m[i][j]-mu[j])*(a.m[i][k]-mu[k]); S[j][k]/=rows-1; }
    if(rows==2) return; sx_assume_lt(0,S[0][0]*S[1][1]-S[0][1]*S[0][1]);
    apop_model *e=apop_estimate(d,apop_multivariate_normal); for(int j=0;j<dim;j++){ sx_check_eq(P(e,j),mu[j],"means"); for(int k=0;k<dim;k++) sx_check_eq(gsl_matrix_get(e->parameters->matrix,j,k),S[j][k],"sample covariance"); } hx_check(d,&a,"data left alone",0); sx_reach("mvn"); }
void sx_main(void){
    apop_opts.verbose=-1; int k=sx_choice("model",11); if(k==9){ multi(); return; } if(k==10){ mvn(); return; }
    int lay=sx_choice("layout",HX_LAYOUTS),n=hx_count(lay); double x[HM],y[HM],mean=0,ss=0; for(int i=0;i<n;i++){ x[i]=k==3?sx_choice("x",3):k==4?sx_choice("x",2):k==5?sx_open("x",0,1):(k==1||k==2||k==6)?sx_pos("x"):sx_real("x"); y[i]=k==1?log(x[i]):x[i]; mean+=y[i]; } mean/=n; for(int i=0;i<n;i++) ss+=(y[i]-mean)*(y[i]-mean); double var=ss/(lay==0?n-1:n);
    if(k!=3&&k!=4&&k!=2&&k!=7) sx_assume_lt(1e-9,ss); if(k==3||k==2) sx_assume_lt(0,mean);
    apop_data *d=hx_lay(lay,x); apop_model *base[]={apop_normal,apop_lognormal,apop_exponential,apop_poisson,apop_bernoulli,apop_beta,apop_gamma,apop_uniform,apop_t_distribution}; apop_model *m=base[k];
    if(k==3){ m=apop_model_copy(m); Apop_settings_add_group(m,apop_parts_wanted,.covariance='n'); } int nocov=k==0&&sx_choice("cov",2); if(nocov){ m=apop_model_copy(m); Apop_settings_add_group(m,apop_lm,.want_cov='n'); }
    apop_model *e=apop_estimate(d,m); sx_check(e!=m&&!m->parameters&&!base[k]->parameters,"the original model is untouched"); sx_check(!e->error,"no error"); apop_data *c=apop_data_get_page(e->parameters,"<Covariance>");
    switch(k){
    case 0: { const char*nm[]={MU,SG}; names(e,nm,2); sx_check_eq(P(e,0),mean,"Normal mean"); sx_check_eq(P(e,1),sqrt(var),"Normal standard deviation"); if(nocov) sx_check(!c,"no covariance when not wanted"); else { sx_check(c&&c->matrix&&c->matrix->size1==2&&c->matrix->size2==2,"covariance page"); if(c){ sx_check_eq(apop_data_get(c,0,0),var/n,"variance of the mean"); sx_check_eq(apop_data_get(c,1,1),2*var*var/(n-1),"variance of the variance"); sx_check_eq(apop_data_get(c,0,1),0,"covariance"); sx_check_eq(apop_data_get(c,1,0),0,"covariance"); } }
        apop_data *p=apop_predict(NULL,e); sx_check(p&&p->matrix&&p->matrix->size1==1&&p->matrix->size2==1,"prediction"); sx_check_eq(apop_data_get(p,0,0),mean,"prediction is the mean"); apop_data *pc=apop_data_get_page(p,"<Covariance>"); sx_check(pc&&pc->matrix,"prediction covariance"); if(pc) sx_check_eq(apop_data_get(pc,0,0),var/n,"variance of the prediction"); break; }
    case 1: { const char*nm[]={MU,SG}; names(e,nm,2); sx_check_eq(P(e,0),mean,"Lognormal mean of logs"); sx_check_eq(P(e,1),sqrt(var),"Lognormal deviation of logs"); apop_data *p=apop_predict(NULL,e); sx_check(p&&p->matrix,"prediction"); sx_check_eq(apop_data_get(p,0,0),exp(mean+P(e,1)*P(e,1)/2),"prediction is the expected value"); break; }
    case 2: { const char*nm[]={MU}; names(e,nm,1); sx_check_eq(P(e,0),mean,"Exponential mean"); break; }
    case 3: { const char*nm[]={LA}; names(e,nm,1); sx_check_eq(P(e,0),mean,"Poisson mean"); sx_check(!c,"no covariance when not wanted"); break; }
    case 4: { const char*nm[]={"p"}; names(e,nm,1); sx_check_eq(P(e,0),mean,"Bernoulli frequency"); sx_check(c&&c->matrix,"covariance page"); if(c) sx_check_eq(apop_data_get(c,0,0),mean*(1-mean),"variance"); break; }
    case 5: { const char*nm[]={AL,BE}; names(e,nm,2); double q=mean*(1-mean)/var-1; sx_check_eq(P(e,0),mean*q,"Beta alpha by moments"); sx_check_eq(P(e,1),(1-mean)*q,"Beta beta by moments"); break; }
    case 6: { sx_check_eq(P(e,0),mean*mean/var,"Gamma shape by moments"); sx_check_eq(P(e,1),var/mean,"Gamma scale by moments"); break; }
    case 7: { const char*nm[]={"min","max"}; names(e,nm,2); double lo=x[0],hi=x[0]; for(int i=1;i<n;i++){ if(x[i]<lo) lo=x[i]; if(x[i]>hi) hi=x[i]; } sx_check_same(P(e,0),lo,"Uniform minimum"); sx_check_same(P(e,1),hi,"Uniform maximum"); break; }
    case 8: { const char*nm[]={MU,SG,"df"}; if(n>3) names(e,nm,3); sx_check_eq(P(e,0),mean,"t mean"); if(n>=3) sx_check_eq(P(e,1)*P(e,1),(n-3.)/(n-1)*ss/(n-1),"t scale"); sx_check_eq(P(e,2),n-1,"t degrees of freedom"); break; } }
    if(k==8&&n<=3) ; else if(k==4&&(mean==0||mean==1)) ; else if(k==7&&P(e,0)==P(e,1)) ; else if(k!=6) sx_check_eq(info(e,"log likelihood"),apop_log_likelihood(d,e),"reported log likelihood");
    apop_data *d2=hx_lay(lay,x); int q=0; if(d->vector) for(size_t i=0;i<d->vector->size;i++) sx_check_same(gsl_vector_get(d->vector,i),x[q++],"data left alone"); if(d->matrix) for(size_t i=0;i<d->matrix->size1;i++)for(size_t j=0;j<d->matrix->size2;j++) sx_check_same(gsl_matrix_get(d->matrix,i,j),x[q++],"data left alone"); apop_data_free(d2); sx_reach("estimate");
}
