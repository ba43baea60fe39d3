/* Hypothesis tests: t, paired t, F, independence, and the general lookup. */
#include "hx.h"
#include <gsl/gsl_cdf.h>
static double el(apop_data *d,const char *s){ int r=d&&d->names?apop_name_find(d->names,s,'r'):-2; sx_check(r>=0,hxl("reported:",s)); if(r<0) return NAN; return d->vector?gsl_vector_get(d->vector,r):gsl_matrix_get(d->matrix,r,0); }
static double mean(const double*x,int n){ double s=0; for(int i=0;i<n;i++) s+=x[i]; return s/n; }
static double ss(const double*x,int n){ double m=mean(x,n),s=0; for(int i=0;i<n;i++) s+=(x[i]-m)*(x[i]-m); return s; }
static void tcheck(apop_data *o,double diff,double v,int df){ double T=el(o,"t statistic"); sx_check_eq(el(o,"mean left - right"),diff,"difference of the means"); sx_check_eq(T*T*v,diff*diff,"squared t statistic"); sx_check_le(0,T*diff,"sign of the t statistic"); sx_check_eq(el(o,"df"),df,"degrees of freedom");
    double A=diff>0?T:-T,q=gsl_cdf_tdist_Q(A,df); sx_check_eq(el(o,"p value, 1 tail"),q,"one-tailed p value"); sx_check_eq(el(o,"confidence, 1 tail"),1-q,"one-tailed confidence"); sx_check_eq(el(o,"p value, 2 tail"),2*q,"two-tailed p value"); sx_check_eq(el(o,"confidence, 2 tail"),1-2*q,"two-tailed confidence"); }
void sx_main(void){
    apop_opts.verbose=-1; int op=sx_choice("op",6);
    if(op==0){ int na=1+sx_choice("na",3),nb=1+sx_choice("nb",3); if(na+nb<3) return; double a[3],b[3]; for(int i=0;i<na;i++) a[i]=sx_real("a"); for(int i=0;i<nb;i++) b[i]=sx_real("b"); double sa=ss(a,na),sb=ss(b,nb); sx_assume_lt(0,sa+sb); double v=(na>1?sa/(na-1)/na:0)+(nb>1?sb/(nb-1)/nb:0); gsl_vector *A=hx_v(a,na),*B=hx_v(b,nb); tcheck(apop_t_test(A,B),mean(a,na)-mean(b,nb),v,na+nb-2); hx_vec(A,a,na,"left untouched"); hx_vec(B,b,nb,"right untouched"); sx_reach("t"); }
    else if(op==1){ int n=2+sx_choice("n",3); double a[4],b[4],d[4]; for(int i=0;i<n;i++){ a[i]=sx_real("a"); b[i]=sx_real("b"); d[i]=a[i]-b[i]; } double s=ss(d,n); sx_assume_lt(0,s); gsl_vector *A=hx_v(a,n),*B=hx_v(b,n); tcheck(apop_paired_t_test(A,B),mean(d,n),s/(n-1)/n,n-1); hx_vec(A,a,n,"left untouched"); hx_vec(B,b,n,"right untouched"); sx_reach("paired"); }
    else if(op==2){ /* F */
        int n=4,k=2+sx_choice("k",2),how=sx_choice("contrast",5); /* 0 NULL 1 empty set 2 only c 3 only Q 4 both */ int nw=0; double Y[4]; apop_data *d=apop_data_alloc(n,k); static const double X1[4]={1,3,2,5},X2[4]={0,2,7,1}; for(int i=0;i<n;i++){ Y[i]=sx_real("y"); gsl_matrix_set(d->matrix,i,0,Y[i]); gsl_matrix_set(d->matrix,i,1,X1[i]); if(k>2) gsl_matrix_set(d->matrix,i,2,X2[i]); } (void)nw;
        apop_model *m=apop_model_copy(apop_ols); Apop_settings_add_group(m,apop_parts_wanted,.predicted='y'); apop_model *e=apop_estimate(d,m); double B[3],X[4][3],sse=0; for(int j=0;j<k;j++) B[j]=gsl_vector_get(e->parameters->vector,j); for(int i=0;i<n;i++){ X[i][0]=1; X[i][1]=X1[i]; X[i][2]=X2[i]; double r=Y[i]; for(int j=0;j<k;j++) r-=X[i][j]*B[j]; sse+=r*r; } sx_assume_lt(0,sse);
        int q= how<3?k-1:1+sx_choice("q",2); double Q[2][3]={{0}},c[2]={0}; for(int i=0;i<q;i++) for(int j=0;j<k;j++) Q[i][j]= how<3?(j==i+1):(double[][3]){{1,2,-1},{0,1,3}}[i][j]; if(how==2||how==4) for(int i=0;i<q;i++) c[i]=sx_real("c");
        apop_data *ct= how?apop_data_alloc():NULL; if(how>2){ ct->matrix=gsl_matrix_alloc(q,k); for(int i=0;i<q;i++) for(int j=0;j<k;j++) gsl_matrix_set(ct->matrix,i,j,Q[i][j]); } if(how==2||how==4) ct->vector=hx_v(c,q);
        apop_data *o= how||sx_choice("omit",2)?apop_f_test(e,ct):apop_f_test(e); sx_check(o&&!o->error,"no error"); 
        if(how){ sx_check(!ct->matrix==(how<3),"the contrast set is returned as it came: matrix"); sx_check(!ct->vector==(how!=2&&how!=4),"the contrast set is returned as it came: vector"); if(ct->vector) hx_vec(ct->vector,c,q,"vector untouched"); }
        /* the increase in the sum of squared residuals when the hypotheses are imposed: d' (Q (X'X)^-1 Q')^-1 d */
        double xx[3][3],in[3][3]; for(int i=0;i<k;i++) for(int j=0;j<k;j++){ xx[i][j]=0; for(int t=0;t<n;t++) xx[i][j]+=X[t][i]*X[t][j]; }
        double det; if(k==2){ det=xx[0][0]*xx[1][1]-xx[0][1]*xx[1][0]; in[0][0]=xx[1][1]/det; in[1][1]=xx[0][0]/det; in[0][1]=in[1][0]=-xx[0][1]/det; } else { det=0; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ int a=(j+1)%3,b=(j+2)%3,p=(i+1)%3,r=(i+2)%3; in[i][j]=xx[a][p]*xx[b][r]-xx[a][r]*xx[b][p]; } for(int i=0;i<3;i++) det+=xx[0][i]*in[i][0]; for(int i=0;i<3;i++) for(int j=0;j<3;j++) in[i][j]/=det; }
        double M[2][2]={{0}},D[2]; for(int a=0;a<q;a++){ D[a]=-c[a]; for(int j=0;j<k;j++) D[a]+=Q[a][j]*B[j]; for(int b=0;b<q;b++) for(int i=0;i<k;i++) for(int j=0;j<k;j++) M[a][b]+=Q[a][i]*in[i][j]*Q[b][j]; }
        double up= q==1?D[0]*D[0]/M[0][0]:(D[0]*D[0]*M[1][1]-2*D[0]*D[1]*M[0][1]+D[1]*D[1]*M[0][0])/(M[0][0]*M[1][1]-M[0][1]*M[1][0]);
        double df2=el(o,"df2"),F=el(o,"F statistic"); sx_check_eq(el(o,"df1"),q,"numerator degrees of freedom"); sx_check(df2>0&&df2<n,"denominator degrees of freedom"); sx_check_eq(F*sse*q,up*df2,"F statistic"); double p=gsl_cdf_fdist_Q(F,q,df2); sx_check_eq(el(o,"p value"),p,"p value"); sx_check_eq(el(o,"confidence"),1-p,"confidence"); sx_reach(how?"F with contrasts":"F"); }
    else if(op==3){ /* independence */
        int r=1+sx_choice("r",3),c=1+sx_choice("c",3); apop_data *d=apop_data_alloc(r,c); double t=0,R[3]={0},C[3]={0},m[3][3]; if(r*c>6) return; for(int i=0;i<r;i++) for(int j=0;j<c;j++){ m[i][j]=sx_pos("m"); gsl_matrix_set(d->matrix,i,j,m[i][j]); t+=m[i][j]; R[i]+=m[i][j]; C[j]+=m[i][j]; }
        apop_data *o=apop_test_anova_independence(d); if(r*c==1){ sx_check(!o,"one cell cannot be tested"); sx_check(!apop_test_anova_independence(NULL),"no data"); apop_data *v=apop_data_alloc(2); sx_check(!apop_test_anova_independence(v),"no matrix"); sx_reach("degenerate"); return; } double x=0; for(int i=0;i<r;i++) for(int j=0;j<c;j++){ double ex= R[i]*C[j]/t; x+=(m[i][j]-ex)*(m[i][j]-ex)/ex; } int df= r==1?c-1:c==1?r-1:(r-1)*(c-1); sx_check(o!=NULL,"a result"); if(!o) return; sx_check_eq(el(o,"chi squared statistic"),x,"chi squared"); sx_check_eq(el(o,"df"),df,"degrees of freedom"); sx_check_eq(el(o,"p value"),gsl_cdf_chisq_Q(el(o,"chi squared statistic"),df),"p value"); for(int i=0;i<r;i++) for(int j=0;j<c;j++) sx_check_same(gsl_matrix_get(d->matrix,i,j),m[i][j],"table untouched"); sx_reach("independence"); }
    else if(op==5){ /* analysis of variance */
        int n=4+sx_choice("n",2),two=sx_choice("two-way",2),k=two?2:2+sx_choice("groups",2),swap=sx_choice("order",2),bad=sx_choice("failing",5); if(n==4&&two) n=6; double x[6]; apop_query("create table t (g, h, x)"); if(bad&&(swap||n!=4)) return; if(two&&swap&&!bad) return; static const int H[6]={0,1,1,0,1,0};
        if(bad){ apop_query("insert into t values ('a','b',1)"); if(bad==1) sx_check(!apop_anova("nosuch","x","g"),"no such table"); else if(bad==2){ apop_data *o=apop_anova("t","nosuch","g"); sx_check(!o||o->error,"no such column"); } else if(bad==3){ apop_data *o=apop_anova("t","x","nosuch"); sx_check(!o||o->error,"no such grouping"); } else { sx_check(!apop_anova("t","x"),"no grouping"); sx_check(!apop_anova("t",.grouping1="g"),"no data column"); sx_check(!apop_anova(.data="x"),"no table"); } sx_reach("unusable"); return; }
        double gs[3]={0},hs[2]={0},cs[3][2]={{0}},gn[3]={0},hn[2]={0},cn[3][2]={{0}},T=0; for(int i=0;i<n;i++){ int r=swap?n-1-i:i; x[r]=n>4&&(i==1||i==3)?i*.5:sx_real("x"); int g=r%k,h=H[r]; apop_query("insert into t values ('g%i', %i, %.17g)",g,h,x[r]); gs[g]+=x[r]; gn[g]++; hs[h]+=x[r]; hn[h]++; cs[g][h]+=x[r]; cn[g][h]++; T+=x[r]; }
        double m=T/n,tot=0,B=0,C=0,D=0; int cells=0; for(int i=0;i<n;i++) tot+=(x[i]-m)*(x[i]-m); for(int g=0;g<k;g++){ B+=gn[g]*(gs[g]/gn[g]-m)*(gs[g]/gn[g]-m); for(int h=0;h<2;h++) if(cn[g][h]){ cells++; D+=cn[g][h]*(cs[g][h]/cn[g][h]-m)*(cs[g][h]/cn[g][h]-m); } } for(int h=0;h<2;h++) C+=hn[h]*(hs[h]/hn[h]-m)*(hs[h]/hn[h]-m);
        double R= tot-(two?D:B); sx_assume_lt(0,R); if(two){ sx_assume_lt(0,B); sx_assume_lt(0,C); sx_assume_lt(0,D-B-C); } apop_data *o= two?apop_anova("t","x","g","h"):apop_anova("(select * from t)","x","g"); sx_check(o&&!o->error,"no error"); if(!o||o->error) return; int rows=two?5:3; double S[5],df[5]; if(two){ S[0]=B; S[1]=C; S[2]=D-B-C; S[3]=R; S[4]=tot; df[0]=k-1; df[1]=1; df[2]=cells-1-k; df[3]=n-cells; df[4]=n-1; } else { S[0]=B; S[1]=R; S[2]=tot; df[0]=k-1; df[1]=n-k; df[2]=n-1; }
        sx_check((int)o->matrix->size1==rows&&o->matrix->size2==6,"table size"); static const char *cn_[]={"sum of squares","df","mean squares","F ratio","p value","confidence"},*r2[]={"g","h","interaction","residual","total"},*r1[]={"g","residual","total"}; for(int i=0;i<rows;i++) sx_check(!strcmp(o->names->row[i],two?r2[i]:r1[i]),"row labels"); for(int j=0;j<6;j++) sx_check(!strcmp(o->names->col[j],cn_[j]),"column labels");
        for(int i=0;i<rows;i++){ sx_check_eq(gsl_matrix_get(o->matrix,i,0),S[i],"sum of squares"); sx_check_eq(gsl_matrix_get(o->matrix,i,1),df[i],"degrees of freedom"); if(i<rows-1&&df[i]>0) sx_check_eq(gsl_matrix_get(o->matrix,i,2)*df[i],S[i],"mean square"); if(i<rows-2&&df[i]>0){ double F=gsl_matrix_get(o->matrix,i,3); sx_check_eq(F*R*df[i],S[i]*df[rows-2],"F ratio"); double p=gsl_cdf_fdist_Q(F,df[i],df[rows-2]); sx_check_eq(gsl_matrix_get(o->matrix,i,4),p,"p value"); sx_check_eq(gsl_matrix_get(o->matrix,i,5),1-p,"confidence"); } } sx_reach(two?"two-way":"one-way"); }
    else { /* lookup */
        static char *nm[]={NULL,"normal","Gaussian","lognormal","uniform","t","chi squared","chi","CHISQ","F"}; int w=sx_choice("dist",10),tail=sx_choice("tail",3),given=sx_choice("parameters",2); char tc= tail==0?'u':tail==1?'l':0; double s=sx_real("s"),p1=0,p2=0,P,Q; int nrm=w<3,def=!given; double got;
        if(w<4){ p1=given?sx_real("mu"):0; p2=given?sx_pos("sigma"):w<3?1:0; if(w==3&&!given) return; if(w==3&&s<=0) return; P= w==3?gsl_cdf_lognormal_P(s,p1,p2):gsl_cdf_gaussian_P(s-p1,p2); Q=1-P; }
        else if(w==4){ p1=given?sx_real("lo"):0; p2=given?p1+sx_pos("w"):1; P= s<p1?0:s>p2?1:(s-p1)/(p2-p1); Q=1-P; }
        else if(w==5){ if(!given){ sx_check(isnan(apop_test(s,nm[w],.tail=tc)),"degrees of freedom are needed"); return; } p1=sx_pos("df"); P=gsl_cdf_tdist_P(s,p1); Q=1-P; }
        else if(w<9){ if(!given){ sx_check(isnan(apop_test(s,nm[w],.tail=tc)),"degrees of freedom are needed"); return; } p1=sx_pos("df"); P=gsl_cdf_chisq_P(s,p1); Q=1-P; }
        else { if(!given){ sx_check(isnan(apop_test(s,nm[w],.tail=tc)),"degrees of freedom are needed"); sx_check(isnan(apop_test(s,nm[w],2,.tail=tc)),"both degrees of freedom are needed"); return; } p1=sx_pos("df1"); p2=sx_pos("df2"); P=gsl_cdf_fdist_P(s,p1,p2); Q=1-P; }
        if(def) got=tc?apop_test(s,nm[w],.tail=tc):nm[w]?apop_test(s,nm[w]):apop_test(s); else got= apop_test(s,nm[w],p1,p2,tc); 
        if(tail==0) sx_check_eq(got,Q,"upper tail"); else if(tail==1) sx_check_eq(got,P,"lower tail"); else if(w==3||w==9) sx_check(isnan(got),"no two-tailed test"); else if(w>5) sx_check_eq(got,Q,"default is the upper tail"); else { double m= w==4?(p1+p2)/2:w==5?0:p1,a=s>m?s-m:m-s; sx_check_eq(got,2*(w==4?(a>(p2-p1)/2?0:1-(a+m-p1)/(p2-p1)):w==5?gsl_cdf_tdist_Q(a,p1):gsl_cdf_gaussian_Q(a,p2)),"two tails"); } sx_reach(nm[w]?nm[w]:"default"); (void)nrm;
        sx_check(isnan(apop_test(s,"no such distribution")),"unknown distribution"); }
}
