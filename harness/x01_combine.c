/* Models built from other models: mixtures, cross products, coordinate transformations and kernel densities. */
#include "hx.h"
#include "draws.h"
#ifdef SX_THOROUGH
#define NM 3
#define NO 4
#else
#define NM 3
#define NO 3
#endif
/* a component whose methods are simple known functions of its parameters: density exp(a + b x), CDF c(x) = a x + b, draws a + 10 b + (which call) */
static int calls; static long double cll(apop_data*d,apop_model*m){ double a=gsl_vector_get(m->parameters->vector,0),b=gsl_vector_get(m->parameters->vector,1),s=0; int n=d->vector?d->vector->size:d->matrix->size1; for(int i=0;i<n;i++) s+=a+b*(d->vector?gsl_vector_get(d->vector,i):gsl_matrix_get(d->matrix,i,0)); return s; }
static long double ccdf(apop_data*d,apop_model*m){ return gsl_vector_get(m->parameters->vector,0)*(d->vector?gsl_vector_get(d->vector,0):gsl_matrix_get(d->matrix,0,0))+gsl_vector_get(m->parameters->vector,1); }
static int cdraw(double*o,gsl_rng*r,apop_model*m){ calls++; for(int i=0;i<m->dsize;i++) o[i]=gsl_vector_get(m->parameters->vector,0)+10*gsl_vector_get(m->parameters->vector,1)+i; return 0; }
static double failp; static long double cconstr(apop_data*d,apop_model*m){ double a=gsl_vector_get(m->parameters->vector,0); if(a>=failp) return 0; gsl_vector_set(m->parameters->vector,0,failp); return failp-a; }
static apop_model *comp(double a,double b,int ds){ apop_model *m=apop_model_copy(apop_improper_uniform); m->log_likelihood=cll; m->p=NULL; m->cdf=ccdf; m->draw=cdraw; m->constraint=cconstr; m->dsize=ds; m->vsize=2; m->prep=NULL; m->parameters=apop_data_alloc(2); gsl_vector_set(m->parameters->vector,0,a); gsl_vector_set(m->parameters->vector,1,b); strcpy(m->name,"component"); return m; }
static apop_data *obs(int n,double*x,int lay){ apop_data *d=lay==2?apop_data_calloc(0,n,3):lay?apop_data_alloc(n,1):apop_data_alloc(n); for(int i=0;i<n;i++){ x[i]=sx_real("x"); if(lay) gsl_matrix_set(d->matrix,i,0,x[i]); else gsl_vector_set(d->vector,i,x[i]); } return d; }
static void mixture(void){
    int k=2+sx_choice("components",NM-1+0),part=sx_choice("mixture",5),wt=sx_choice("weights",2); double a[3],b[3],w[3],W=0; apop_model *c[3]; for(int i=0;i<k;i++){ a[i]=sx_real("a"); b[i]=sx_real("b"); sx_assume_ne(a[i],0); sx_assume_ne(b[i],0); c[i]=comp(a[i],b[i],1); }
    apop_model *m=k==2?apop_model_mixture(c[0],c[1]):apop_model_mixture(c[0],c[1],c[2]); sx_check(m->dsize==1,"size of a draw"); for(int i=0;i<k;i++){ w[i]=wt?sx_pos("w"):1; W+=w[i]; }
    if(wt){ gsl_vector *v=gsl_vector_alloc(k); for(int i=0;i<k;i++) gsl_vector_set(v,i,w[i]); Apop_settings_set(m,apop_mixture,weights,v); }
    double x[4]; failp=-INFINITY;
    if(part==0){ int prep=sx_choice("prepped",2); apop_data *d=obs(1,x,sx_choice("layout",2)); if(prep) apop_prep(d,m); double want=0; for(int i=0;i<k;i++) want+=w[i]/W*(a[i]*x[0]+b[i]); sx_check_eq(apop_cdf(d,m),want,"CDF is the weighted sum"); }
    else if(part==1){ sx_ndraws=0; calls=0; gsl_rng *r=apop_rng_alloc(2); double o=-77; sx_check(apop_draw(&o,r,m)==0,"draw"); sx_check(calls==1&&sx_ndraws==1,"one component is drawn from"); if(sx_ndraws<1) return; double u=sx_draws[0].value,lo=0; int hit=0; for(int i=0;i<k;i++){ if(u*W<=lo+w[i]&&(i==0||u*W>lo)){ sx_check_eq(o,a[i]+10*b[i],"the component whose slice of the weights holds the draw"); hit++; } lo+=w[i]; } sx_check(hit==1,"one slice");
        if(wt&&k==2){ /* later changes of weights and parameters are seen by later draws */ int prep=sx_choice("prepped",2); if(prep){ apop_prep(obs(1,x,0),m); a[1]=sx_real("new a"); gsl_vector_set(m->parameters->vector,k+2,a[1]); } else { gsl_vector *v=gsl_vector_alloc(k); w[0]=sx_pos("new w"); w[1]=1; W=w[0]+1; gsl_vector_set(v,0,w[0]); gsl_vector_set(v,1,1); Apop_settings_set(m,apop_mixture,weights,v); } sx_ndraws=0; sx_check(apop_draw(&o,r,m)==0,"draw"); if(sx_ndraws<1) return; u=sx_draws[0].value; int j=u*W>w[0]; sx_check_eq(o,a[j]+10*b[j],"draws after a change of weights or parameters"); } }
    else if(part==2){ int n=1+sx_choice("observations",NO); apop_data *d=obs(n,x,sx_choice("layout",2)); if(k==3&&n>1) return; for(int i=0;i<n;i++) for(int j=0;j<k;j++) sx_assume_ne(a[j]+b[j]*x[i],0); double want=0,lam[3]={0}; for(int i=0;i<n;i++){ double best=0,tot=0; for(int j=0;j<k;j++){ double l=a[j]+b[j]*x[i]+log(w[j]/W); if(!j||l>best) best=l; } for(int j=0;j<k;j++) tot+=exp(a[j]+b[j]*x[i])*w[j]; for(int j=0;j<k;j++) lam[j]+=exp(a[j]+b[j]*x[i])*w[j]/tot/n; want+=best; }
        int prep=sx_choice("prepped",2); if(prep) apop_prep(d,m); sx_check_eq(apop_log_likelihood(d,m),want,"each observation from its most likely weighted component"); gsl_vector *nw=Apop_settings_get(m,apop_mixture,next_weights); sx_check(nw&&(int)nw->size==k,"next weights"); for(int j=0;j<k&&nw;j++) sx_check_eq(gsl_vector_get(nw,j),lam[j],"next weights are the average odds of each component"); if(n==1&&!prep) sx_check_eq(apop_p(d,m),exp(want),"density"); if(prep&&k==2&&n<3){ Apop_settings_set(m,apop_mixture,find_weights,'y'); double pen=m->constraint(d,m),q=0,W2=0,c=0; for(int j=0;j<k;j++){ double old=wt?w[j]:1./k; q+=(lam[j]-old)*(lam[j]-old); sx_check_eq(gsl_vector_get(m->parameters->vector,j),lam[j],"when asked, the search moves to the next weights"); W2+=lam[j]; } sx_check_eq(pen*pen,q,"the penalty is the distance moved"); sx_check_le(0,pen,"the penalty is the distance moved"); for(int j=0;j<k;j++) c+=lam[j]/W2*(a[j]*x[0]+b[j]); if(n==1) sx_check_eq(apop_cdf(d,m),c,"the found weights are used"); } }
    else if(part==3){ /* parameters: the weights, then each component's; changing them reaches the components */ apop_data *d=obs(1,x,0); int nul=sx_choice("component without parameters",2); if(nul){ c[0]->cdf=NULL; apop_model *z=apop_model_copy(apop_improper_uniform); z->cdf=ccdf; z->vsize=0; z->parameters=NULL; z->dsize=1; m=k==2?apop_model_mixture(z,c[1]):apop_model_mixture(z,c[1],c[2]); z->cdf=NULL; }
        if(nul&&wt) return; apop_prep(d,m); int tot=k+2*(k-nul); sx_check(m->parameters&&m->parameters->vector&&(int)m->parameters->vector->size==tot,"one list of parameters"); if((int)m->parameters->vector->size!=tot) return; for(int i=0;i<k;i++) sx_check_eq(gsl_vector_get(m->parameters->vector,i),wt?w[i]:1./k,"weights first"); int at=k; for(int i=nul;i<k;i++){ sx_check_eq(gsl_vector_get(m->parameters->vector,at++),a[i],"then the components in order"); sx_check_eq(gsl_vector_get(m->parameters->vector,at++),b[i],"then the components in order"); }
        double na=sx_real("new"); sx_assume_ne(na,0); gsl_vector_set(m->parameters->vector,tot-2,na); if(!nul){ double want=0; for(int i=0;i<k;i++) want+=w[i]/W*((i==k-1?na:a[i])*x[0]+b[i]); sx_check_eq(apop_cdf(d,m),want,"new parameters are used"); } else m->constraint(d,m);
        sx_check_eq(gsl_vector_get(c[k-1]->parameters->vector,0),na,"components hold their parameters"); sx_check_eq(gsl_vector_get(c[k-1]->parameters->vector,1),b[k-1],"components hold their parameters");
        /* the constraint: corrections by the components appear in the list */ failp=sx_real("limit"); int second=1; double pen=m->constraint(d,m),wantp=0; at=k; for(int i=nul;i<k;i++,at+=2){ double v=i==k-1?na:a[i]; if(v<failp){ wantp+=failp-v; v=failp; } sx_check_eq(gsl_vector_get(m->parameters->vector,at),v,"corrected parameters"); sx_check_eq(gsl_vector_get(m->parameters->vector,at+1),b[i],"other parameters"); } for(int i=0;i<k;i++) sx_check_eq(gsl_vector_get(m->parameters->vector,i),wt?w[i]:1./k,"weights are kept"); sx_check_eq(pen,wantp,"penalty"); (void)second; double neg=sx_real("weight"); gsl_vector_set(m->parameters->vector,0,neg); pen=m->constraint(d,m); if(neg<0){ sx_check_eq(pen,-neg,"weights may not be negative"); sx_check_eq(gsl_vector_get(m->parameters->vector,0),0,"weights may not be negative"); } else { sx_check_eq(pen,0,"weights may be anything else"); sx_check_same(gsl_vector_get(m->parameters->vector,0),neg,"weights may be anything else"); } }
    else { /* copies */ apop_data *d=obs(1,x,0); int prep=sx_choice("prepped",2); if(prep) apop_prep(d,m); double o; if(sx_choice("drawn",2)) apop_draw(&o,apop_rng_alloc(1),m); apop_log_likelihood(d,m); apop_model *cp=apop_model_copy(m); double l1=apop_log_likelihood(d,m); sx_check_eq(apop_log_likelihood(d,cp),l1,"copies agree"); apop_model_free(m); double want=0; for(int i=0;i<k;i++) want+=w[i]/W*(a[i]*x[0]+b[i]); sx_check_eq(apop_cdf(d,cp),want,"a copy outlives the original") ; apop_model_free(cp); }
    sx_reach("mixture"); }
static long double cp_(apop_data*d,apop_model*m){ return exp(cll(d,m)); }
static void est(apop_data*d,apop_model*m){ gsl_vector_set(m->parameters->vector,0,d->vector?gsl_vector_get(d->vector,0):gsl_matrix_get(d->matrix,0,0)); gsl_vector_set(m->parameters->vector,1,5); }
static void cross(void){
    int k=2+sx_choice("models",2),split=sx_choice("split",2),part=sx_choice("cross",6); double a[3],b[3],x[3][2]; apop_model *c[3]; int ds[3]={1,2,1}; for(int i=0;i<k;i++){ a[i]=sx_real("a"); b[i]=sx_real("b"); c[i]=comp(a[i],b[i],ds[i]); c[i]->p=cp_; }
    if(part==4){ apop_model *one=apop_model_cross(c[0]); sx_check(one&&one!=c[0]&&one->log_likelihood==cll&&one->parameters,"a single model is copied"); if(one&&one->parameters) sx_check_eq(gsl_vector_get(one->parameters->vector,0),a[0],"a single model is copied"); apop_model *none=apop_model_cross_base((apop_model*[]){NULL,NULL,NULL}); sx_check(none&&none->error=='n',"no models"); if(!split){ apop_model *f[5]={comp(1,2,1),comp(3,4,1),comp(sx_real("a"),5,2),comp(6,7,1),NULL},*m4=apop_model_cross(f[0],f[1],f[2],f[3]); double q; apop_data *d4=obs(1,&q,0); sx_check(m4->dsize==5,"four models: size of a draw"); sx_check_eq(apop_log_likelihood(d4,m4),10+gsl_vector_get(f[2]->parameters->vector,0)+18*q,"four models: log likelihoods add"); } sx_reach("cross"); return; }
    apop_model *m=k==2?apop_model_cross(c[0],c[1]):apop_model_cross(c[0],c[1],c[2]); apop_data *pg[3]; int last=k-1; sx_check(m->dsize==(k==2?3:4),"size of a draw is the total");
    if(part==5){ /* each row a draw from the cross, with no second page: each model sees its own columns */ if(!split) return; Apop_settings_set(m,apop_cross,splitpage,"none"); if(k==3){ apop_cross_settings *sc=Apop_settings_get_group(m,apop_cross); Apop_settings_set(sc->model2,apop_cross,splitpage,"none"); } int n=1+sx_choice("rows",3),at=0,w=sx_choice("what",3); double y[3][4],want=0; apop_data *d=apop_data_alloc(n,m->dsize); for(int i=0;i<n;i++) for(int j=0;j<m->dsize;j++) gsl_matrix_set(d->matrix,i,j,y[i][j]=sx_real("y")); for(int i=0;i<k;at+=ds[i++]) for(int r=0;r<n;r++) want+=a[i]+b[i]*y[r][at];
        if(w==0) sx_check_eq(apop_log_likelihood(d,m),want,"rows of draws: log likelihoods add"); else if(w==1) sx_check_eq(apop_p(d,m),exp(want),"rows of draws: probabilities multiply"); else { for(int i=0;i<k;i++) c[i]->estimate=est; apop_model *e=apop_estimate(d,m); apop_cross_settings *s=Apop_settings_get_group(e,apop_cross); apop_model *e1=s->model1,*e2=s->model2; if(k==3){ s=Apop_settings_get_group(e2,apop_cross); e2=s->model1; sx_check_eq(gsl_vector_get(s->model2->parameters->vector,0),y[0][3],"third model, from its column"); } sx_check_eq(gsl_vector_get(e1->parameters->vector,0),y[0][0],"first model, from its column"); sx_check_eq(gsl_vector_get(e2->parameters->vector,0),y[0][1],"second model, from its columns"); sx_check(e2->data&&e2->data->matrix&&(k==3||(int)e2->data->matrix->size2==2)&&e2->data->matrix->size1==n,"estimated models keep their data"); sx_check_same(gsl_matrix_get(e2->data->matrix,n-1,0),y[n-1][1],"estimated models keep their data"); }
        for(int i=0;i<n;i++) for(int j=0;j<m->dsize;j++) sx_check_same(gsl_matrix_get(d->matrix,i,j),y[i][j],"data unchanged"); sx_reach("rows of draws"); return; }
    if(split){ if(k==3) { apop_cross_settings *s=Apop_settings_get_group(m,apop_cross); Apop_settings_set(m,apop_cross,splitpage,"second"); Apop_settings_set(s->model2,apop_cross,splitpage,"third"); } else Apop_settings_set(m,apop_cross,splitpage,"SECOND"); }
    int extra=split?sx_choice("extra page",2):0,ml=sx_choice("layouts",split?5:2); apop_data *d=NULL; for(int i=0;i<k;i++){ if(!split&&i){ pg[i]=pg[0]; x[i][0]=x[0][0]; continue; } pg[i]=obs(1,x[i],ml==4?2:ml>>(i&1)&1); if(i) apop_name_add(pg[i]->names,i==1?"second":"third",'h'); }
    d=pg[0]; apop_data *ex=NULL; if(split){ apop_data *t=d; if(extra){ ex=apop_data_alloc(1); apop_name_add(ex->names,"more of the first",'h'); t=t->more=ex; } for(int i=1;i<k;i++){ t->more=pg[i]; t=pg[i]; } }
    if(part==0||part==1){ double want=0; for(int i=0;i<k;i++) want+=a[i]+b[i]*x[i][0]; if(part==0) sx_check_eq(apop_log_likelihood(d,m),want,"log likelihoods add"); else sx_check_eq(apop_p(d,m),exp(want),"probabilities multiply"); }
    else if(part==2){ gsl_rng *r=apop_rng_alloc(1); double o[5]={-77,-77,-77,-77,-77}; sx_check(apop_draw(o,r,m)==0,"draw"); int at=0; for(int i=0;i<k;i++) for(int j=0;j<ds[i];j++) sx_check_eq(o[at++],a[i]+10*b[i]+j,"draws are concatenated"); for(;at<5;at++) sx_check(o[at]==-77,"nothing else written"); }
    else { for(int i=0;i<k;i++) c[i]->estimate=est; apop_model *e=apop_estimate(d,m); apop_cross_settings *s=Apop_settings_get_group(e,apop_cross); apop_model *e1=s->model1,*e2=s->model2; sx_check(e1!=c[0]&&e2!=c[1],"the originals are left alone"); sx_check_eq(gsl_vector_get(c[0]->parameters->vector,0),a[0],"the originals are left alone"); sx_check_eq(gsl_vector_get(e1->parameters->vector,0),x[0][0],"first model estimated with the first data"); if(k==3){ s=Apop_settings_get_group(e2,apop_cross); sx_check_eq(gsl_vector_get(s->model1->parameters->vector,0),x[1][0],"second model"); sx_check_eq(gsl_vector_get(s->model2->parameters->vector,0),x[2][0],"third model"); } else sx_check_eq(gsl_vector_get(e2->parameters->vector,0),x[1][0],"second model estimated with the second data"); }
    if(split){ apop_data *t=d; if(extra){ sx_check(t->more==ex,"pages are put back"); t=ex; } for(int i=1;i<k;i++){ sx_check(t->more==pg[i],"pages are put back"); t=pg[i]; } sx_check(t->more==NULL,"pages are put back"); }
    (void)last; sx_reach("cross"); }
static double jac(apop_data*d){ double x=d->vector?gsl_vector_get(d->vector,0):gsl_matrix_get(d->matrix,0,0); return 1/x; } static int transforms; static apop_data *back(apop_data*d){ transforms++; apop_data *o=apop_data_copy(d); gsl_vector *v=o->vector?o->vector:Apop_cv(o,0); for(size_t i=0;i<v->size;i++) gsl_vector_set(v,i,log(gsl_vector_get(v,i))); return o; }
static void transf(void){ double mu=sx_real("mu"),sd=sx_pos("sd"),x=sx_pos("x"); int lay=sx_choice("layout",2); apop_data *d=lay?apop_data_alloc(1,1):apop_data_alloc(1); if(lay) gsl_matrix_set(d->matrix,0,0,x); else gsl_vector_set(d->vector,0,x); apop_model *n=apop_model_set_parameters(apop_normal,mu,sd); apop_model *m=apop_model_coordinate_transform(.base_model=n,.transformed_to_base=back,.jacobian_to_base=jac); apop_model *l=apop_model_set_parameters(apop_lognormal,mu,sd); sx_check_eq(apop_log_likelihood(d,m),apop_log_likelihood(d,l),"a logged Normal is the Lognormal"); sx_check_same(lay?gsl_matrix_get(d->matrix,0,0):gsl_vector_get(d->vector,0),x,"data unchanged"); apop_prep(d,m); sx_check(m->parameters==n->parameters&&m->dsize==n->dsize,"the base model's parameters"); apop_model *bad=apop_model_coordinate_transform(.base_model=n,.transformed_to_base=back); sx_check(isnan(apop_log_likelihood(d,bad)),"no Jacobian"); sx_reach("transform"); }
static void setk(apop_data*in,apop_model*m){ double c=apop_data_get(in,0,in->matrix?0:-1); gsl_vector_set(m->parameters->vector,0,c); gsl_vector_set(m->parameters->vector,1,2*c); }
static apop_data *one(double x,int lay){ apop_data *d=lay?apop_data_alloc(1,1):apop_data_alloc(1); if(lay) gsl_matrix_set(d->matrix,0,0,x); else gsl_vector_set(d->vector,0,x); return d; }
static void kernel(void){
    int n=1+sx_choice("points",NM),lay=sx_choice("layout",2),wt=sx_choice("weights",2),cust=sx_choice("kernel",3),part=sx_choice("kernel method",4); double p[3],w[3],W=0,x[3]; apop_data *d=lay?apop_data_alloc(n,1):apop_data_alloc(n); for(int i=0;i<n;i++){ p[i]=part==2?10*i:sx_real("point"); if(lay) gsl_matrix_set(d->matrix,i,0,p[i]); else gsl_vector_set(d->vector,i,p[i]); w[i]=wt?sx_pos("w"):1; W+=w[i]; } if(wt){ d->weights=gsl_vector_alloc(n); for(int i=0;i<n;i++) gsl_vector_set(d->weights,i,w[i]); }
    apop_model *kn=cust==1?comp(0,0,1):cust==2?apop_model_set_parameters(apop_normal,0,3):NULL,*m; double sd=cust==2?3:1; if(cust==0) m=apop_estimate(d,apop_kernel_density); else if(cust==1) m=apop_model_copy_set(apop_kernel_density,apop_kernel_density,.base_data=d,.kernel=kn,.set_fn=setk); else { apop_model *pmf=apop_estimate(d,apop_pmf); m=apop_model_copy_set(apop_kernel_density,apop_kernel_density,.base_pmf=pmf,.kernel=kn); }
    if(part==3){ apop_model *c=apop_model_copy(m); apop_model_free(m); m=c; part=0; }
    if(part==0){ apop_data *q=obs(1,x,lay); double want=0; for(int i=0;i<n;i++) want+=w[i]/W*(cust==1?p[i]*x[0]+2*p[i]:gsl_cdf_ugaussian_P((x[0]-p[i])/sd)); sx_check_eq(apop_cdf(q,m),want,"CDF is the weighted mean of the kernels"); }
    else if(part==1){ if(n==3) return; int no=cust==1?1+sx_choice("observations",2):1; if(n==2&&cust!=1&&wt) return;  apop_data *q=obs(no,x,lay); double want=0; for(int k=0;k<no;k++) for(int i=0;i<n;i++){ sx_assume_ne(cust==1?p[i]+2*p[i]*x[k]:x[k]-p[i],0); sx_assume_ne(p[i],0); } for(int k=0;k<no;k++){ double s=0; for(int i=0;i<n;i++){ s+=w[i]/W*(cust==1?exp(p[i]+2*p[i]*x[k]):exp(apop_log_likelihood(one(x[k],lay),apop_model_set_parameters(apop_normal,p[i],sd)))); } want+=log(s); } if(no==1) sx_check_eq(apop_p(q,m),exp(want),"density is the weighted mean of the kernels"); else sx_check_eq(exp(apop_log_likelihood(q,m)),exp(want),"observations are independent"); }
    else { sx_ndraws=0; calls=0; gsl_rng *r=apop_rng_alloc(2); double o[2]={-77,-77}; sx_check(apop_draw(o,r,m)==0,"draw"); sx_check(sx_ndraws>=1,"a point is drawn"); double u=sx_draws[0].value; int k=-1; double lo=0; for(int i=0;i<n;i++){ if(wt?(u*W<=lo+w[i]&&(i==0||u*W>lo)):(u*W>=lo&&u*W<lo+1)) k=i; lo+=w[i]; } sx_check(k>=0,"a point is drawn"); if(cust==1) sx_check_eq(o[0],p[k]+20*p[k],"drawn from the kernel at that point"); else { sx_check(sx_ndraws==2&&!strcmp(sx_draws[1].name,"gaussian"),"one draw from the kernel"); sx_check_eq(o[0],p[k]+sd*sx_draws[1].value,"drawn from the kernel at that point"); } sx_check(o[1]==-77,"one number"); }
    sx_reach("kernel"); }
void sx_main(void){ apop_opts.verbose=-1; int k=sx_choice("family",4); if(k==0) mixture(); else if(k==1) cross(); else if(k==2) transf(); else kernel(); }
