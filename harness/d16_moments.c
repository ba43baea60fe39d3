/* Moments, weighted and unweighted, and the column summaries built on them. */
#include "hx.h"
static double E(const double*x,const double*w,int n){ double s=0,t=0; for(int i=0;i<n;i++){ s+=w[i]*x[i]; t+=w[i]; } return s/t; }
static double Mk(const double*x,const double*w,int n,int k){ double mu=E(x,w,n),s=0,t=0; for(int i=0;i<n;i++){ double p=1; for(int j=0;j<k;j++) p*=x[i]-mu; s+=w[i]*p; t+=w[i]; } return s/t; }
static double C(const double*x,const double*y,const double*w,int n){ double a=E(x,w,n),b=E(y,w,n),s=0,t=0; for(int i=0;i<n;i++){ s+=w[i]*(x[i]-a)*(y[i]-b); t+=w[i]; } return s/t; }
void sx_main(void){
    apop_opts.verbose=-1; double x[HM],y[HM],w[HM],one[HM]; for(int i=0;i<HM;i++) one[i]=1;
    switch(sx_choice("op",5)){
    case 0: { int n=2+sx_choice("n",3); gsl_matrix *m=gsl_matrix_alloc(n,2); for(int i=0;i<n;i++){ x[i]=sx_real("x"); y[i]=sx_real("y"); gsl_matrix_set(m,i,0,x[i]); gsl_matrix_set(m,i,1,y[i]); } int st=sx_choice("strided",2); double mn,vr,av=0,sq=0; apop_matrix_mean_and_var(m,&mn,&vr); for(int i=0;i<n;i++) av+=(x[i]+y[i])/(2*n); for(int i=0;i<n;i++) sq+=((x[i]-av)*(x[i]-av)+(y[i]-av)*(y[i]-av))/(2*n); sx_check_eq(mn,av,"mean of a matrix"); sx_check_eq(vr,sq,"variance of a matrix"); sx_check_eq(apop_matrix_mean(m),av,"mean of a matrix"); gsl_vector_view a=gsl_matrix_column(m,0),b=gsl_matrix_column(m,1); gsl_vector *v=st?&a.vector:hx_v(x,n),*u=st?&b.vector:hx_v(y,n);
        double N=n; sx_check_eq(apop_vector_mean(v),E(x,one,n),"mean"); sx_check_eq(apop_mean(v),E(x,one,n),"mean"); sx_check_eq(apop_vector_var(v),Mk(x,one,n,2)*N/(N-1),"variance"); sx_check_eq(apop_var(v),Mk(x,one,n,2)*N/(N-1),"variance"); double mm=sx_real("m"),s=0; for(int i=0;i<n;i++) s+=(x[i]-mm)*(x[i]-mm); sx_check_eq(apop_vector_var_m(v,mm),s/(N-1),"variance about a given mean");
        sx_check_eq(apop_vector_skew_pop(v),Mk(x,one,n,3),"population skew"); sx_check_eq(apop_vector_kurtosis_pop(v),Mk(x,one,n,4),"population kurtosis"); if(n>2) sx_check_eq(apop_vector_skew(v),Mk(x,one,n,3)*N*N/((N-1)*(N-2)),"sample skew"); sx_check_eq(apop_vector_cov(v,u),C(x,y,one,n)*N/(N-1),"covariance"); 
        double vx=Mk(x,one,n,2),vy=Mk(y,one,n,2); if(n<4&&vx!=0&&vy!=0){ double r=apop_vector_correlation(v,u); sx_check_eq(r*sqrt(vx*vy),C(x,y,one,n),"correlation"); } sx_reach("plain"); break; }
    case 1: { int n=2+sx_choice("n",2),kind=sx_choice("weights",3); double W=0; gsl_vector *wv; if(kind==0){ for(int i=0;i<n;i++){ w[i]=sx_pos("w"); W+=w[i]; } sx_assume_lt(1.1,W); } else if(kind==1) for(int i=0;i<n;i++){ w[i]=sx_pos("w"); W+=w[i]; if(i==n-1){ sx_assume_eq(W,1); } } else { for(int i=0;i<n;i++){ w[i]=1+i; W+=w[i]; } } wv=hx_v(w,n); for(int i=0;i<n;i++){ x[i]=sx_real("x"); y[i]=sx_real("y"); } gsl_vector *v=hx_v(x,n),*u=hx_v(y,n);
        double L= kind==1?n:W; sx_check_eq(apop_vector_mean(v,wv),E(x,w,n),"weighted mean"); sx_check_eq(apop_vector_var(v,wv),Mk(x,w,n,2)*L/(L-1),"weighted variance"); sx_check_eq(apop_vector_skew_pop(v,wv),Mk(x,w,n,3),"weighted skew"); if(n==2) sx_check_eq(apop_vector_kurtosis_pop(v,wv),Mk(x,w,n,4),"weighted kurtosis"); sx_check_eq(apop_vector_cov(v,u,wv),C(x,y,w,n)*L/(L-1),"weighted covariance"); hx_vec(v,x,n,"data left alone"); hx_vec(wv,w,n,"weights left alone");
        gsl_vector *bad=gsl_vector_calloc(n+1); sx_check(isnan(apop_vector_mean(v,bad))&&isnan(apop_vector_var(v,bad))&&isnan(apop_vector_cov(v,u,bad))&&isnan(apop_vector_cov(v,bad)),"sizes must match"); 
        if(kind==2){ /* integer weights count repetitions */ double rx[12],ry[12]; int N=0; for(int i=0;i<n;i++) for(int k=0;k<=i;k++){ rx[N]=x[i]; ry[N++]=y[i]; } gsl_vector *rv=hx_v(rx,N),*ru=hx_v(ry,N); sx_check_eq(apop_vector_mean(v,wv),apop_vector_mean(rv),"weights repeat: mean"); sx_check_eq(apop_vector_var(v,wv),apop_vector_var(rv),"weights repeat: variance"); sx_check_eq(apop_vector_cov(v,u,wv),apop_vector_cov(rv,ru),"weights repeat: covariance"); sx_check_eq(apop_vector_skew_pop(v,wv),apop_vector_skew_pop(rv),"weights repeat: skew"); sx_check_eq(apop_vector_kurtosis_pop(v,wv),apop_vector_kurtosis_pop(rv),"weights repeat: kurtosis"); } sx_reach("weighted"); break; }
    case 2: { int n=3,wt=sx_choice("wt",2),nm=sx_choice("named",2); ds a=hx_ds("a",0,n,wt?2:3,0); if(wt){ a.hasw=1; a.nw=n; double W=0; for(int i=0;i<n;i++){ a.w[i]=sx_pos("w"); W+=a.w[i]; } sx_assume_lt(1.1,W); } if(nm) hx_names(&a,"a",0,a.nc,0,1); apop_data *d=hx_build(&a); double W=0; for(int i=0;i<n;i++) W+=wt?a.w[i]:1; for(int j=0;j<a.nc;j++) for(int i=0;i<n;i++){ (j==0?x:j==1?y:one)[0]=0; } double col[3][3]; for(int j=0;j<a.nc;j++)for(int i=0;i<n;i++) col[j][i]=a.m[i][j]; for(int i=0;i<HM;i++) one[i]=1; double *ww=wt?a.w:one;
        apop_data *c=apop_data_covariance(d); sx_check(c&&(int)c->matrix->size1==a.nc&&(int)c->matrix->size2==a.nc,"square"); for(int i=0;i<a.nc;i++)for(int j=0;j<a.nc;j++) sx_check_eq(apop_data_get(c,i,j),C(col[i],col[j],ww,n)*W/(W-1),"covariance matrix"); sx_check(c->names->rowct==a.cn&&c->names->colct==a.cn,"names"); for(int i=0;i<a.cn;i++) sx_check(!strcmp(c->names->row[i],a.c[i])&&!strcmp(c->names->col[i],a.c[i]),"names");
        if(wt&&!nm){ /* equal and unequal weights */ double w2[3]={1,sx_choice("w2",2)?3:1,2}; for(int i=0;i<n;i++) gsl_vector_set(d->weights,i,w2[i]); double v0=C(col[0],col[0],w2,n),v1=C(col[1],col[1],w2,n); if(v0==0||v1==0) return; apop_data *r=apop_data_correlation(d); sx_check_eq(apop_data_get(r,0,0),1,"weighted correlation"); sx_check_eq(apop_data_get(r,1,1),1,"weighted correlation"); sx_check_eq(apop_data_get(r,0,1)*sqrt(v0)*sqrt(v1),C(col[0],col[1],w2,n),"weighted correlation"); sx_check_same(apop_data_get(r,0,1),apop_data_get(r,1,0),"symmetric"); sx_check_eq(apop_vector_correlation(Apop_cv(d,0),Apop_cv(d,1),d->weights)*sqrt(v0)*sqrt(v1),C(col[0],col[1],w2,n),"weighted correlation of vectors"); for(int i=0;i<n;i++) gsl_vector_set(d->weights,i,a.w[i]); }
        if(!wt){ double v[3]; for(int j=0;j<a.nc;j++){ v[j]=C(col[j],col[j],ww,n); if(v[j]==0) return; } apop_data *r=apop_data_correlation(d); for(int i=0;i<a.nc;i++)for(int j=0;j<a.nc;j++) sx_check_eq(apop_data_get(r,i,j)*(i==j?v[i]:sqrt(v[i])*sqrt(v[j])),C(col[i],col[j],ww,n),"correlation matrix"); } hx_check(d,&a,"data left alone",0); sx_check(!apop_data_covariance(NULL),"NULL"); sx_reach("matrix"); break; }
    case 3: { int n=3,wt=sx_choice("wt",2),nm=sx_choice("named",2); ds a=hx_ds("a",0,n,1,0); if(wt){ a.hasw=1; a.nw=n; double W=0; for(int i=0;i<n;i++){ a.w[i]=sx_pos("w"); W+=a.w[i]; } sx_assume_lt(1.1,W); } if(nm) hx_names(&a,"a",0,1,0,1); apop_data *d=hx_build(&a); double W=0; for(int i=0;i<n;i++){ x[i]=a.m[i][0]; W+=wt?a.w[i]:1; } double *ww=wt?a.w:one; apop_data *s=apop_data_summarize(d); sx_check(s&&s->matrix->size1==1&&s->matrix->size2==6,"one row per column"); double srt[3]={x[0],x[1],x[2]}; for(int i=0;i<3;i++)for(int j=i+1;j<3;j++) if(srt[j]<srt[i]){ double t=srt[i]; srt[i]=srt[j]; srt[j]=t; }
        double var=C(x,x,ww,n)*W/(W-1); sx_check_eq(apop_data_get(s,0,.colname="mean"),E(x,ww,n),"mean"); sx_check_eq(apop_data_get(s,0,.colname="variance"),var,"variance"); double sd=apop_data_get(s,0,.colname="std dev"); sx_check_eq(sd*sd,var,"std dev"); sx_check_le(0,sd,"std dev"); sx_check_same(apop_data_get(s,0,.colname="min"),srt[0],"min"); sx_check_same(apop_data_get(s,0,.colname="median"),srt[1],"median"); sx_check_same(apop_data_get(s,0,.colname="max"),srt[2],"max"); if(nm) sx_check(s->names->rowct==1&&!strcmp(s->names->row[0],"ac0")&&s->names->title&&!strcmp(s->names->title,"summary for atitle"),"named"); hx_check(d,&a,"data left alone",0); sx_reach("summary"); break; }
    case 4: { /* unbiasedness over every sample from a two-point distribution */ int n=4,what=sx_choice("what",4); double a=sx_real("a"),b=sx_real("b"),p=sx_open("p",0,1); double ev=0; for(int k=0;k<16;k++){ double pr=1; for(int i=0;i<n;i++){ int h=k>>i&1; x[i]=h?a:b; pr*=h?p:1-p; } gsl_vector *v=hx_v(x,n); ev+=pr*(what==0?apop_vector_mean(v):what==1?apop_vector_var(v):what==2?apop_vector_skew(v):apop_vector_kurtosis(v)); } double mu=p*a+(1-p)*b; double m=0; if(what==0) m=mu; else { double da=a-mu,db=b-mu,pa=1,pb=1; for(int j=0;j<what+1;j++){ pa*=da; pb*=db; } m=p*pa+(1-p)*pb; } sx_check_eq(ev,m,what==0?"mean unbiased":what==1?"variance unbiased":what==2?"skew unbiased":"kurtosis unbiased"); sx_reach("unbiased"); break; }
    }
}
