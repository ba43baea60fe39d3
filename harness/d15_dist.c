/* Distances, normalisation, sums. */
#include "hx.h"
void sx_main(void){
    apop_opts.verbose=-1; int n=1+sx_choice("n",3); double x[HM],y[HM]; for(int i=0;i<n;i++) x[i]=sx_real("x");
    /* sometimes strided: a column of a matrix */
    int strided=sx_choice("strided",2); gsl_matrix *m=gsl_matrix_alloc(n,2); for(int i=0;i<n;i++){ gsl_matrix_set(m,i,1,x[i]); gsl_matrix_set(m,i,0,-5); } gsl_vector_view c=gsl_matrix_column(m,1); gsl_vector *v=strided?&c.vector:hx_v(x,n);
    switch(sx_choice("op",3)){
    case 0: { int z=sx_choice("zero",2); for(int i=0;i<n;i++) y[i]=z?0:sx_real("y"); gsl_vector *w=z?NULL:hx_v(y,n); int k=sx_choice("metric",12); double d,want=0; 
        if(k==0||k==1||k==11){ d= k==0?apop_vector_distance(v,w):apop_vector_distance(v,w,.metric=k==1?'e':'E'); for(int i=0;i<n;i++) want+=(x[i]-y[i])*(x[i]-y[i]); want=sqrt(want); }
        else if(k==2||k==3){ d=apop_vector_distance(v,w,.metric="mM"[k-2]); for(int i=0;i<n;i++) want+=fabs(x[i]-y[i]); }
        else if(k==4||k==5){ d=apop_vector_distance(v,w,.metric="dD"[k-4]); for(int i=0;i<n;i++) if(x[i]!=y[i]) want=1; }
        else if(k==6||k==7){ d=apop_vector_distance(v,w,.metric="sS"[k-6]); for(int i=0;i<n;i++) if(fabs(x[i]-y[i])>want) want=fabs(x[i]-y[i]); }
        else if(k==8||k==9){ if(n>2) return; double p=k==8?3:1; d=apop_vector_distance(v,w,.metric="lL"[k-8],.norm=p); for(int i=0;i<n;i++) want+=pow(fabs(x[i]-y[i]),p); want=pow(want,1./p); }
        else { d=apop_vector_distance(v,w,.metric='L'); for(int i=0;i<n;i++) want+=pow(fabs(x[i]-y[i]),2.); want=pow(want,.5); }
        sx_check_eq(d,want,"distance"); if(w) hx_vec(w,y,n,"second left alone"); hx_vec(v,x,n,"first left alone"); 
        gsl_vector *bad=gsl_vector_calloc(n+1); sx_check(isnan(apop_vector_distance(v,bad)),"sizes must match"); sx_check(isnan(apop_vector_distance(v,w,.metric='q')),"unknown metric"); 
        gsl_vector *two=gsl_vector_alloc(n); gsl_vector_set_all(two,2); sx_check_eq(apop_vector_distance(two),sqrt(4.*n),"length of another vector"); sx_check_eq(apop_vector_distance(bad),0,"length of a zero vector"); { gsl_vector *lens[3]={bad,two,NULL}; gsl_vector *one=gsl_vector_alloc(1); gsl_vector_set(one,0,x[0]); lens[2]=one; for(int s=0;s<2;s++){ gsl_vector *q=lens[sx_choice("next length",3)]; double tot=0; for(size_t i=0;i<q->size;i++) tot+=gsl_vector_get(q,i)*gsl_vector_get(q,i); sx_check_eq(apop_vector_distance(q),sqrt(tot),"length after another length"); } } sx_reach("distance"); break; }
    case 1: { int k=sx_choice("type",5),into=sx_choice("out",2); double s=0,lo=x[0],hi=x[0]; for(int i=0;i<n;i++){ s+=x[i]; if(x[i]<lo) lo=x[i]; if(x[i]>hi) hi=x[i]; } double mu=s/n,var=0; for(int i=0;i<n;i++) var+=(x[i]-mu)*(x[i]-mu); gsl_vector *o=NULL;
        if((k==0||k==4)&&s==0) return; if(k==1&&lo==hi) return; if(k==2){ if(n<2) return; var/=(n-1); if(var==0) return; }
        if(k==4) { if(into) apop_vector_normalize(v,&o); else apop_vector_normalize(v); } else if(into) apop_vector_normalize(v,&o,"prsm"[k]); else apop_vector_normalize(v,.normalization_type="prsm"[k]); if(into) hx_vec(v,x,n,"input left alone"); else o=v; sx_check(o&&(int)o->size==n,"size"); if(!o) return;
        for(int i=0;i<n;i++){ double g=gsl_vector_get(o,i); if(k==0||k==4) sx_check_eq(g*s,x[i],"sums to one"); else if(k==1) sx_check_eq(g*(hi-lo),x[i]-lo,"zero to one"); else if(k==2) sx_check_eq(g*sqrt(var),x[i]-mu,"standardised"); else sx_check_eq(g,x[i]-mu,"mean zero"); } if(strided) for(int i=0;i<n;i++) sx_check_eq(gsl_matrix_get(m,i,0),-5,"neighbours left alone"); sx_reach("normalise"); break; }
    case 2: { double s=0; for(int i=0;i<n;i++) s+=x[i]; sx_check_eq(apop_vector_sum(v),s,"sum"); sx_check_eq(apop_sum(v),s,"sum"); sx_check_eq(apop_vector_sum(NULL),0,"sum of nothing"); int r=2; gsl_matrix *q=gsl_matrix_alloc(r,n); double ms=0,mss=0; for(int i=0;i<r;i++)for(int j=0;j<n;j++){ double a=sx_real("m"); gsl_matrix_set(q,i,j,a); ms+=a; mss+=a*a; } sx_check_eq(apop_matrix_sum(q),ms,"matrix sum"); sx_check_eq(apop_matrix_mean(q),ms/(r*n),"matrix mean"); double mu,va; apop_matrix_mean_and_var(q,&mu,&va); sx_check_eq(mu,ms/(r*n),"matrix mean and variance"); sx_check_eq(va,mss/(r*n)-(ms/(r*n))*(ms/(r*n)),"matrix population variance"); apop_matrix_mean_and_var(NULL,&mu,&va); sx_check(mu==0&&isnan(va),"of nothing"); sx_check_eq(apop_matrix_mean(NULL),0,"of nothing"); sx_reach("sums"); break; }
    }
}
