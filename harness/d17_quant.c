/* Percentiles, entropy, moving averages, special functions. */
#include "hx.h"
void sx_main(void){
    apop_opts.verbose=-1; double x[HM];
    switch(sx_choice("op",6)){
    case 0: { int n=1+sx_choice("n",4); for(int i=0;i<n;i++) x[i]=sx_real("x"); gsl_vector *v=hx_v(x,n); int k=sx_choice("rounding",4); double *p= k==3?apop_vector_percentiles(v):apop_vector_percentiles(v,"dua"[k]); hx_vec(v,x,n,"data left alone"); double s[HM]; memcpy(s,x,sizeof s); for(int i=0;i<n;i++)for(int j=i+1;j<n;j++) if(s[j]<s[i]){ double t=s[i]; s[i]=s[j]; s[j]=t; }
        for(int q=0;q<=100;q++){ int lo=q*(n-1)/100, ex=q*(n-1)%100==0; if(ex||k==0||k==3) sx_check_same(p[q],s[lo],"percentile"); else if(k==1) sx_check_same(p[q],s[lo+1],"percentile, rounding up"); else sx_check_eq(p[q],(s[lo]+s[lo+1])/2,"percentile, averaging"); } sx_reach("percentiles"); break; }
    case 1: { int n=1+sx_choice("n",4); double S=0; for(int i=0;i<n;i++){ x[i]=sx_choice("zero",2)?0:sx_pos("x"); S+=x[i]; } gsl_vector *v=hx_v(x,n); double e=apop_vector_entropy(v); if(S==0){ sx_check_eq(e,0,"entropy of nothing"); return; } double w=0; for(int i=0;i<n;i++) if(x[i]!=0) w-=x[i]/S*log(x[i]/S); sx_check_eq(e,w,"entropy"); hx_vec(v,x,n,"data left alone"); double y[HM]; double k=sx_pos("scale"); for(int i=0;i<n;i++) y[i]=k*x[i]; sx_check_eq(apop_vector_entropy(hx_v(y,n)),w,"counts or frequencies"); y[0]=-sx_pos("neg"); double tot=0; for(int i=0;i<n;i++) tot+=y[i]; sx_assume_ne(tot,0); sx_check(isnan(apop_vector_entropy(hx_v(y,n))),"negative weights"); sx_check_eq(apop_vector_entropy(NULL),0,"NULL"); sx_reach("entropy"); break; }
    case 2: { int n=1+sx_choice("n",6),b=1+sx_choice("bw",6); for(int i=0;i<n;i++) x[i]=sx_real("x"); gsl_vector *v=hx_v(x,n),*o=apop_vector_moving_average(v,b); int h=b/2, B=2*h+1; int len=n-(B-1); (void)B; if(len<=0){ sx_check(o==NULL||o->size==0,"window larger than the data"); return; } sx_check(o&&(int)o->size==len,"length"); if(!o||(int)o->size!=len) return; for(int i=0;i<len;i++){ double s=0; for(int j=0;j<B;j++) s+=x[i+j]; sx_check_eq(gsl_vector_get(o,i),s/B,"moving average"); } hx_vec(v,x,n,"data left alone"); sx_reach("moving average"); break; }
    case 3: { int N=1+sx_choice("N",6); double s=sx_choice("s",4)*.5+.25; int M=1+sx_choice("M",6); double w=0,u=0; for(int i=1;i<=N;i++) w+=1/pow(i,s); for(int i=1;i<=M;i++) u+=1/pow(i,s); sx_check_eq(apop_generalized_harmonic(N,s),w,"harmonic number"); double t=s+(sx_choice("t",2)?.5:1),z=0; for(int i=1;i<=M;i++) z+=1/pow(i,t); sx_check_eq(apop_generalized_harmonic(M,t),z,"another exponent"); sx_check_eq(apop_generalized_harmonic(M,s),u,"after caching"); sx_check_eq(apop_generalized_harmonic(N,s),w,"after caching"); sx_check(isnan(apop_generalized_harmonic(0,s)),"needs N>0"); sx_reach("harmonic"); break; }
    case 4: { int p=1+sx_choice("p",4); double a=sx_pos("a"); sx_assume_lt((p-1)/2.,a); double w=0; for(int j=1;j<=p;j++) w+=lgamma(a+(1-j)/2.); sx_check_eq(apop_multivariate_lngamma(a,p),w+p*(p-1)/4.*log(M_PI),"log multivariate gamma"); double g=1; for(int j=1;j<=p;j++) g*=gsl_sf_gamma(a+(1-j)/2.); sx_check_eq(apop_multivariate_gamma(a,p),g*pow(M_PI,p*(p-1)/4.),"multivariate gamma"); sx_reach("gamma"); break; }
    case 5: { int p=1+sx_choice("p",4); double a=sx_choice("a2",6)*.5-1; int pole=0; for(int j=1;j<=p;j++){ double z=a+(1-j)/2.; if(z<=0&&z==(int)z) pole=1; } int nan1=isnan(apop_multivariate_gamma(a,p)),nan2=isnan(apop_multivariate_lngamma(a,p)); sx_check(nan1==pole&&nan2==pole,"undefined exactly at the poles"); sx_reach("poles"); break; }
    }
}
