/* Jackknife and bootstrap covariances, and the parameter model built on them. */
#include "hx.h"
#include "draws.h"
static int n,lay,calls,nancalls,nanmode; static double V[4],M[4][2],W[4];
static void stat(const int *idx,int k,double *o){ o[0]=o[1]=0; double sm=0; for(int i=0;i<k;i++){ int r=idx[i]; o[0]+=(lay!=1?V[r]:M[r][0])/k; if(lay!=0) sm+=M[r][1]; } o[1]=lay==0?o[0]*o[0]:sm*o[0]; if(lay==2){ double w=0; for(int i=0;i<k;i++) w+=W[idx[i]]*(i+1); o[1]+=w; } }
static void est(apop_data *d,apop_model *m){ double a=0,b=0,w=0; int k= d->vector?(int)d->vector->size:(int)d->matrix->size1; for(int i=0;i<k;i++){ a+=(d->vector?gsl_vector_get(d->vector,i):gsl_matrix_get(d->matrix,i,0))/k; if(d->matrix) b+=gsl_matrix_get(d->matrix,i,1); if(d->weights) w+=gsl_vector_get(d->weights,i)*(i+1); }
    double *o=m->parameters->vector->data; o[0]=a; o[1]=(d->matrix?b*a:a*a)+w; int c=calls++; if(nanmode&&((nanmode==1&&c==0)||(nanmode==2&&c==1)||nanmode==3||(nanmode==4&&c>=2))){ o[1]=NAN; nancalls++; } apop_data_add_names(m->parameters,'r',"first","second"); }
static apop_data *mk(void){ apop_data *d= lay==0?apop_data_alloc(n):lay==1?apop_data_alloc(n,2):apop_data_alloc(n,n,2); for(int i=0;i<n;i++){ if(d->vector) gsl_vector_set(d->vector,i,V[i]); if(d->matrix) for(int j=0;j<2;j++) gsl_matrix_set(d->matrix,i,j,M[i][j]); } if(lay==2){ d->weights=gsl_vector_alloc(n); for(int i=0;i<n;i++) gsl_vector_set(d->weights,i,W[i]); } if(d->matrix){ apop_name_add(d->names,"a",'c'); apop_name_add(d->names,"b",'c'); } for(int i=0;i<n;i++) apop_name_add(d->names,hxn("row",i),'r'); return d; }
static void same(apop_data *d){ for(int i=0;i<n;i++){ if(lay!=1) sx_check_same(gsl_vector_get(d->vector,i),V[i],"vector untouched"); if(lay) for(int j=0;j<2;j++) sx_check_same(gsl_matrix_get(d->matrix,i,j),M[i][j],"matrix untouched"); if(lay==2) sx_check_same(gsl_vector_get(d->weights,i),W[i],"weights untouched"); } sx_check(d->names&&d->names->rowct==n,"names untouched"); if(d->names&&d->names->rowct==n) for(int i=0;i<n;i++) sx_check(!strcmp(d->names->row[i],hxn("row",i)),"names untouched"); }
static void cov(double est[][2],int k,double o[2][2]){ double m[2]={0}; for(int i=0;i<k;i++) for(int j=0;j<2;j++) m[j]+=est[i][j]/k; for(int a=0;a<2;a++) for(int b=0;b<2;b++){ o[a][b]=0; for(int i=0;i<k;i++) o[a][b]+=(est[i][a]-m[a])*(est[i][b]-m[b]); } }
static double olsX[4]={0,1,3,2};
static void notline(int n){ for(int a=0;a<n;a++) for(int b=a+1;b<n;b++) for(int c=b+1;c<n;c++) sx_assume_ne((olsX[b]-olsX[a])*(V[c]-V[a])-(olsX[c]-olsX[a])*(V[b]-V[a]),0); }
static void ols(const int *idx,int k,double *o){ double sx=0,sy=0,sxx=0,sxy=0; for(int i=0;i<k;i++){ double x=olsX[idx[i]],y=V[idx[i]]; sx+=x; sy+=y; sxx+=x*x; sxy+=x*y; } double den=k*sxx-sx*sx; o[1]=(k*sxy-sx*sy)/den; o[0]=(sy-o[1]*sx)/k; }
static void est1(apop_data *d,apop_model *m){ double a=0; int k=d->vector->size; for(int i=0;i<k;i++) a+=gsl_vector_get(d->vector,i)*gsl_vector_get(d->vector,i)/k; gsl_vector_set(m->parameters->vector,0,a); }
static void single(void){ n=2+sx_choice("n",3); apop_data *d=apop_data_alloc(n); double e[4],mu=0,q=0; for(int i=0;i<n;i++){ V[i]=sx_real("v"); gsl_vector_set(d->vector,i,V[i]); } apop_model m={.name="one",.vsize=1,.estimate=est1};
    if(sx_choice("bootstrap",2)){ int it=2; if(n>3) return; gsl_rng *r=gsl_rng_alloc(gsl_rng_taus2); sx_ndraws=0; apop_data *o=apop_bootstrap_cov(d,&m,r,it); for(int t=0;t<it;t++){ e[t]=0; for(int j=0;j<n;j++){ double x=V[(int)sx_draws[t*n+j].value]; e[t]+=x*x/n; } } sx_check(o&&o->matrix&&o->matrix->size1==1&&o->matrix->size2==1,"one variance"); sx_check_eq(gsl_matrix_get(o->matrix,0,0)*2,(e[0]-e[1])*(e[0]-e[1]),"bootstrap variance"); }
    else { apop_data *o=apop_jackknife_cov(d,&m); for(int i=0;i<n;i++){ e[i]=0; for(int j=0;j<n;j++) if(j!=i) e[i]+=V[j]*V[j]/(n-1); mu+=e[i]/n; } for(int i=0;i<n;i++) q+=(e[i]-mu)*(e[i]-mu); sx_check(o&&o->matrix&&o->matrix->size1==1&&o->matrix->size2==1,"one variance"); sx_check_eq(gsl_matrix_get(o->matrix,0,0)*n,(n-1)*q,"jackknife variance"); }
    sx_reach("one parameter"); }
/* rows of text, alone or beside a vector */
static double S[4]; static int withv;
static void est2(apop_data *d,apop_model *m){ double a=0; int k=d->textsize[0]; sx_check(k>0&&d->textsize[1]==2&&(!withv||(d->vector&&(int)d->vector->size==k)),"text in the subset"); for(int i=0;i<k;i++){ int c=d->text[i][1][0]-'a'; sx_check(c>=0&&c<n&&!strcmp(d->text[i][0],"same"),"text in the subset"); double x=S[c]; if(withv) x*=gsl_vector_get(d->vector,i); a+=x/k; } gsl_vector_set(m->parameters->vector,0,a); }
static void labels(void){ n=2+sx_choice("n",2); withv=sx_choice("vector",2); apop_data *d=apop_text_alloc(withv?apop_data_alloc(n):NULL,n,2); for(int i=0;i<n;i++){ S[i]=sx_real("score"); V[i]=withv?sx_real("v"):1; if(withv) gsl_vector_set(d->vector,i,V[i]); apop_text_set(d,i,0,"same"); apop_text_set(d,i,1,"%c",'a'+i); } double e[4],mu=0,q=0; apop_model m={.name="text",.vsize=1,.estimate=est2}; apop_data *o; int k;
    if(sx_choice("bootstrap",2)){ k=2; if(n==3&&withv) return; sx_ndraws=0; o=apop_bootstrap_cov(d,&m,gsl_rng_alloc(gsl_rng_taus2),k); sx_check(sx_ndraws==k*n,"one draw per row"); if(sx_ndraws!=k*n) return; for(int t=0;t<k;t++){ e[t]=0; for(int j=0;j<n;j++){ int x=sx_draws[t*n+j].value; sx_check(sx_draws[t*n+j].a==n,"rows drawn with equal probability"); e[t]+=S[x]*V[x]/n; } } sx_check(o&&o->matrix&&o->matrix->size1==1,"one variance"); sx_check_eq(gsl_matrix_get(o->matrix,0,0)*2,(e[0]-e[1])*(e[0]-e[1]),"bootstrap variance"); }
    else { o=apop_jackknife_cov(d,&m); for(int i=0;i<n;i++){ e[i]=0; for(int j=0;j<n;j++) if(j!=i) e[i]+=S[j]*V[j]/(n-1); mu+=e[i]/n; } for(int i=0;i<n;i++) q+=(e[i]-mu)*(e[i]-mu); sx_check(o&&o->matrix&&o->matrix->size1==1,"one variance"); sx_check_eq(gsl_matrix_get(o->matrix,0,0)*n,(n-1)*q,"jackknife variance"); }
    for(int i=0;i<n;i++) sx_check(d->textsize[0]==n&&d->text[i][1][0]=='a'+i&&!strcmp(d->text[i][0],"same"),"text untouched"); sx_reach("rows of text"); }
void sx_main(void){
    apop_opts.verbose=-1; int op=sx_choice("op",8); if(op==6){ single(); return; } if(op==7){ labels(); return; } n=3; lay=sx_choice("layout",3); for(int i=0;i<4;i++){ V[i]=sx_real("v"); M[i][0]=lay==1?sx_real("a"):i; M[i][1]=lay?(i<2?sx_real("b"):i*i):0; W[i]=lay==2?(i==1?sx_pos("w"):i+1):1; }
    apop_model m={.name="stat",.vsize=2,.estimate=est}; double E[8][2],C[2][2];
    if(op==0){ n=2+sx_choice("n",3); int given=sx_choice("already estimated",2); apop_data *d=mk(); apop_model *mm=given?apop_model_copy(&m):&m; if(given){ mm->parameters=apop_data_alloc(2); gsl_vector_set(mm->parameters->vector,0,sx_real("p")); gsl_vector_set(mm->parameters->vector,1,7); } apop_data *o=apop_jackknife_cov(d,mm); for(int i=0;i<n;i++){ int idx[4],k=0; if(i) idx[0]=-1; for(int j=0;j<n-1;j++) idx[j]= j<i?j:j+1; k=n-1; stat(idx,k,E[i]); }
        if(lay==2){ /* weights enter by position within the subset */ }
        cov(E,n,C); sx_check(o&&!o->error&&o->matrix&&o->matrix->size1==2&&o->matrix->size2==2,"a covariance matrix"); for(int a=0;a<2;a++) for(int b=0;b<2;b++) sx_check_eq(gsl_matrix_get(o->matrix,a,b)*n,(n-1)*C[a][b],"jackknife covariance"); same(d); sx_check(!m.parameters&&!m.data,"the model is untouched"); apop_data *z=apop_jackknife_cov(NULL,&m); sx_check(z&&z->error=='n',"no data"); sx_reach("jackknife"); }
    else if(op==1){ int it=2+sx_choice("iterations",2); n= it==3||lay?2:3; apop_data *st=NULL; int keep=sx_choice("keep",2); nanmode=sx_choice("NaNs",5); if(nanmode==4&&(it!=3||!keep)) return; char ign= nanmode==0?0:nanmode==4||sx_choice("ignore",2)?'y':'n'; if(nanmode&&lay) return; if(nanmode&&it>2&&nanmode!=4) return; if(nanmode) n=2; apop_data *d=mk(); gsl_rng *r=gsl_rng_alloc(gsl_rng_taus2); sx_ndraws=0; calls=0; apop_data *o= keep?apop_bootstrap_cov(d,&m,r,it,.ignore_nans=ign,.boot_store=&st):apop_bootstrap_cov(d,&m,r,it,.ignore_nans=ign); 
        int tot=sx_ndraws/n; sx_check(tot*n==sx_ndraws&&tot==calls,"one draw per row per estimation"); int k=0,skip=0; for(int t=0;t<tot;t++){ int idx[4]; for(int j=0;j<n;j++){ sx_check(!strcmp(sx_draws[t*n+j].name,"uniform_int")&&sx_draws[t*n+j].a==n,"rows drawn with equal probability"); idx[j]=sx_draws[t*n+j].value; } int bad= nanmode==3||(nanmode==4&&t>=2)||(nanmode==1&&t==0)||(nanmode==2&&t==1); if(bad&&ign=='y'){ skip++; continue; } stat(idx,n,E[k]); if(bad) E[k][1]=NAN; k++; }
        same(d); if(nanmode==3&&ign=='y'){ sx_check(o&&o->error=='N',"nothing but NaNs"); sx_check(tot==it,"gives up"); sx_reach("only NaNs"); return; } sx_check(k==(nanmode==4?2:it)&&(nanmode!=4||tot==5),"the number of estimations"); sx_check(o&&(nanmode==4?o->error=='N':!o->error)&&o->matrix&&o->matrix->size1==2&&o->matrix->size2==2,"a covariance matrix"); cov(E,k,C); for(int a=0;a<2;a++) for(int b=0;b<2;b++) sx_check_eq(gsl_matrix_get(o->matrix,a,b)*(k-1),C[a][b],"bootstrap covariance");
        if(keep){ sx_check(st&&st->matrix&&(int)st->matrix->size1==k&&st->matrix->size2==2,"stored estimates"); if(st&&st->matrix&&(int)st->matrix->size1==k){ for(int i=0;i<k;i++) for(int j=0;j<2;j++) sx_check_eq(gsl_matrix_get(st->matrix,i,j),E[i][j],"stored estimates"); sx_check(st->names->colct==2&&!strcmp(st->names->col[0],"first")&&!strcmp(st->names->col[1],"second"),"parameter names"); } } sx_check(!m.parameters&&!m.data,"the model is untouched"); sx_reach(nanmode?"bootstrap with NaNs":"bootstrap"); }
    else if(op==2){ if(lay) return; /* regressions: the dependent variable in the first column */ n=4; notline(4); int vec=sx_choice("vector",2); apop_data *d=apop_data_alloc(vec?n:0,n,2); for(int i=0;i<n;i++){ gsl_matrix_set(d->matrix,i,0,vec?1:V[i]); gsl_matrix_set(d->matrix,i,1,olsX[i]); if(vec) gsl_vector_set(d->vector,i,V[i]); } apop_model *lm=apop_model_copy(apop_ols); Apop_settings_add_group(lm,apop_parts_wanted); apop_data *o=apop_jackknife_cov(d,lm); for(int i=0;i<n;i++){ int idx[4]; for(int j=0;j<n-1;j++) idx[j]= j<i?j:j+1; ols(idx,n-1,E[i]); } cov(E,n,C); sx_check(o&&!o->error&&o->matrix&&o->matrix->size1==2,"a covariance matrix"); for(int a=0;a<2;a++) for(int b=0;b<2;b++) sx_check_eq(gsl_matrix_get(o->matrix,a,b)*n,(n-1)*C[a][b],"jackknife covariance of a regression"); sx_reach("jackknife OLS"); }
    else if(op==3){ if(lay) return; n=3; notline(3); int vec=sx_choice("vector",2),it=2; apop_data *d=apop_data_alloc(vec?n:0,n,2),*st=NULL; for(int i=0;i<n;i++){ gsl_matrix_set(d->matrix,i,0,vec?1:V[i]); gsl_matrix_set(d->matrix,i,1,olsX[i]); if(vec) gsl_vector_set(d->vector,i,V[i]); } sx_ndraws=0; gsl_rng *r=gsl_rng_alloc(gsl_rng_taus2); apop_data *o=apop_bootstrap_cov(d,apop_ols,r,it,.boot_store=&st); sx_check(sx_ndraws==it*n,"draws"); for(int t=0;t<it;t++){ int idx[4],same_=1; for(int j=0;j<n;j++){ idx[j]=sx_draws[t*n+j].value; if(idx[j]!=idx[0]) same_=0; } if(same_) return; ols(idx,n,E[t]); } cov(E,it,C); sx_check(o&&!o->error&&o->matrix&&o->matrix->size1==2,"a covariance matrix"); for(int a=0;a<2;a++) for(int b=0;b<2;b++) sx_check_eq(gsl_matrix_get(o->matrix,a,b)*(it-1),C[a][b],"bootstrap covariance of a regression"); if(!vec) sx_check(!d->vector,"data layout untouched"); for(int i=0;i<n;i++) sx_check_same(vec?gsl_vector_get(d->vector,i):gsl_matrix_get(d->matrix,i,0),V[i],"data untouched"); sx_reach("bootstrap OLS"); }
    else if(op==4){ if(lay) return; n=2; apop_data *d=mk(); apop_model *e=apop_estimate(d,&m); int idx=sx_choice("index",4)-1; sx_ndraws=0; gsl_rng *r=gsl_rng_alloc(gsl_rng_taus2); if(idx<2) Apop_settings_add_group(e,apop_pm,.base=e,.rng=r,.draws=2,.index=idx); else return; apop_model *p=apop_parameter_model(d,e); for(int t=0;t<2;t++){ int ix[2]; for(int j=0;j<n;j++) ix[j]=sx_draws[t*n+j].value; stat(ix,n,E[t]); } cov(E,2,C); double base[2]; stat((int[]){0,1},2,base); sx_check(p&&p->parameters,"a model"); if(idx<0){ for(int a=0;a<2;a++){ sx_check_eq(gsl_vector_get(p->parameters->vector,a),base[a],"mean of the parameter model"); for(int b=0;b<2;b++) sx_check_eq(gsl_matrix_get(p->parameters->matrix,a,b),C[a][b],"covariance of the parameter model"); } sx_check(!strcmp(p->name,apop_multivariate_normal->name)&&p->dsize==2,"multivariate"); } else { sx_check_eq(gsl_vector_get(p->parameters->vector,0),base[idx],"mean of the parameter model"); double s=gsl_vector_get(p->parameters->vector,1); sx_check_le(0,s,"standard deviation of the parameter model"); sx_check_eq(s*s,C[idx][idx],"standard deviation of the parameter model"); sx_check(!strcmp(p->name,apop_normal->name),"univariate"); } sx_reach("parameter model"); }
    else { if(lay) return; /* no data: the simulation's own draws */ extern void sim(apop_data*,apop_model*); apop_model s={.name="sim",.vsize=2,.estimate=sim}; sx_ndraws=0; apop_data *st=NULL; gsl_rng *r=gsl_rng_alloc(gsl_rng_taus2); int it=2+sx_choice("iterations",2); apop_data *o=apop_bootstrap_cov(NULL,&s,r,it,.boot_store=&st); sx_check(sx_ndraws==it,"one simulation per iteration"); for(int t=0;t<it;t++){ E[t][0]=sx_draws[t].value; E[t][1]=E[t][0]*E[t][0]; } cov(E,it,C); for(int a=0;a<2;a++) for(int b=0;b<2;b++) sx_check_eq(gsl_matrix_get(o->matrix,a,b)*(it-1),C[a][b],"covariance of the simulation"); for(int t=0;t<it;t++) sx_check_eq(gsl_matrix_get(st->matrix,t,0),E[t][0],"simulated values"); { apop_model *e=apop_estimate(NULL,&s); int idx=sx_choice("index",3)-1,nd=1+sx_choice("draws",3); Apop_settings_add_group(e,apop_pm,.base=e,.rng=r,.draws=nd,.index=idx); sx_ndraws=0; apop_model *p=apop_parameter_model(NULL,e); sx_check(sx_ndraws==nd,"one simulation per draw of the parameter model"); sx_check(p&&!strcmp(p->name,apop_pmf->name)&&p->data,"a PMF of parameters"); if(p&&p->data){ apop_data *q=p->data; sx_check(idx<0?q->matrix&&(int)q->matrix->size1==nd&&q->matrix->size2==2:q->vector&&(int)q->vector->size==nd&&!q->matrix,"one row per draw"); for(int t=0;t<nd;t++){ double z=sx_draws[t].value; if(idx<0){ sx_check_eq(gsl_matrix_get(q->matrix,t,0),z,"the parameters of each simulation"); sx_check_eq(gsl_matrix_get(q->matrix,t,1),z*z,"the parameters of each simulation"); } else sx_check_eq(gsl_vector_get(q->vector,t),idx?z*z:z,"the parameter asked for"); } } } sx_reach("simulation"); }
}
void sim(apop_data *d,apop_model *m){ static gsl_rng *r; if(!r) r=gsl_rng_alloc(gsl_rng_taus2); double z=gsl_ran_gaussian(r,1); m->parameters->vector->data[0]=z; m->parameters->vector->data[1]=z*z; }
