/* Binning and goodness of fit. */
#include "hx.h"
#include "draws.h"
#ifdef SX_THOROUGH
#define NB 3
#define NK 4
#else
#define NB 2
#define NK 3
#endif
static void isbin(double got,double x,double off,double w,int top,const char*lab){
    double k=(got-off)/w; sx_check_eq(floor(k),k,hxl(lab,"a whole number of bins from the offset"));
    if(top){ sx_check_lt(got,x,hxl(lab,"top bin is closed: its lower edge is below the maximum")); sx_check_le(x,got+w,hxl(lab,"top bin reaches the maximum")); }
    else { sx_check_le(got,x,hxl(lab,"lower edge")); sx_check_lt(x,got+w,hxl(lab,"upper edge")); } }
static void bins(void){
    int form=sx_choice("form",6),lay=sx_choice("layout",3),cols=lay==2?2:1,n=1+sx_choice("rows",lay==1?NB:2); double x[2][5],off[2]={0},w[2]; char close=0;
    apop_data *d=lay==0?apop_data_alloc(n):lay==1?apop_data_alloc(n,1):apop_data_alloc(n,n,1); apop_data *spec=NULL; int wt=lay==0&&n==2;
    for(int c=0;c<cols;c++){ w[c]=c?2:form<4?sx_in("width",1.5,2.5):0; off[c]=form<4&&(form&1)?(c?-1:sx_in("offset",-1,2)):0; }
    int edge=form==2||form==3?sx_choice("maximum on an edge",3):0; /* the maximum is exactly this many bins from the offset, or (0) not within 1e-9 above an edge */
    for(int c=0;c<cols;c++) for(int i=0;i<n;i++){ x[c][i]=c?3*i:edge&&i==n-1?off[0]+edge*w[0]:sx_in("x",0,4); if(c==0&&lay!=1) gsl_vector_set(d->vector,i,x[c][i]); else gsl_matrix_set(d->matrix,i,0,x[c][i]); }
    if(edge) for(int i=0;i<n-1;i++) sx_assume_lt(x[0][i],x[0][n-1]);
    if(wt){ d->weights=gsl_vector_alloc(n); for(int i=0;i<n;i++) gsl_vector_set(d->weights,i,i+1); }
    apop_data *o; double mx[2],mn[2]; for(int c=0;c<cols;c++){ mx[c]=mn[c]=x[c][0]; for(int i=1;i<n;i++){ if(x[c][i]>mx[c]) mx[c]=x[c][i]; if(x[c][i]<mn[c]) mn[c]=x[c][i]; } }
    if((form==2||form==3)&&!edge){ double t=(mx[0]-off[0])/w[0]; double k=floor(t); if(mx[0]!=off[0]) sx_assume_le(1e-9,t-k); }
    if(form<4){ int two=form&1; close=form&2?'y':0; spec=lay==0?apop_data_alloc(1+two):lay==1?apop_data_alloc(1+two,1):apop_data_alloc(1+two,1+two,1);
        for(int c=0;c<cols;c++){ for(int r=0;r<=two;r++) apop_data_set(spec,r,lay==1?0:lay==0?-1:c-1,r?off[c]:w[c]); }
        o=close?apop_data_to_bins(d,spec,.close_top_bin='y'):apop_data_to_bins(d,spec); sx_check(!apop_data_get_page(o,"<binspec>"),"no binspec page when one is given"); }
    else { int cnt=form==4?1+sx_choice("bins",3):0; close='y'; o=cnt?apop_data_to_bins(d,.bin_count=cnt):apop_data_to_bins(d); apop_data *p=apop_data_get_page(o,"<binspec>"); sx_check(p!=NULL,"binspec page"); if(!p) return;
        for(int c=0;c<cols;c++){ int at=lay==1?0:lay==0?-1:c-1; off[c]=mn[c]; w[c]=(mx[c]-mn[c])/(cnt?cnt:sqrt(n)); sx_check_eq(apop_data_get(p,0,at),w[c],"default bin width"); sx_check_eq(apop_data_get(p,1,at),off[c],"default offset"); } }
    sx_check((o->vector!=NULL)==(lay!=1)&&(o->matrix!=NULL)==(lay!=0),"same parts"); sx_check((o->weights!=NULL)==wt,"weights kept"); if(wt&&o->weights) for(int i=0;i<n;i++) sx_check(gsl_vector_get(o->weights,i)==i+1,"weights kept");
    for(int c=0;c<cols;c++) for(int i=0;i<n;i++){ int at=lay==1?0:lay==0?-1:c-1; double g=apop_data_get(o,i,at); sx_check_same(apop_data_get(d,i,at),x[c][i],"input unchanged"); if(form>=4&&mx[c]==mn[c]){ sx_check_eq(g,mn[c],"constant column"); continue; }
        if(close&&x[c][i]==mx[c]&&mx[c]!=off[c]){ int on=c==0&&form<4?edge!=0:1; if(form>=4) on=1; else if(c==1) on=fmod(mx[1]-off[1],w[1])==0;
            if(on) isbin(g,x[c][i],off[c],w[c],1,"top"); else isbin(g,x[c][i],off[c],w[c],0,"bin"); } else isbin(g,x[c][i],off[c],w[c],0,"bin"); }
    sx_reach("bins"); }
static void gof(void){
    int n=1+sx_choice("rows",NB+1),miss=sx_choice("missing",n+1)-1,zero=sx_choice("zero",n+1)-1; double o[5],e[5],O=0,E=0; apop_data *od=apop_data_alloc(n,1),*ed=apop_data_alloc(n,1); od->weights=gsl_vector_alloc(n); ed->weights=gsl_vector_alloc(n);
    for(int i=0;i<n;i++){ gsl_matrix_set(od->matrix,i,0,i); gsl_matrix_set(ed->matrix,n-1-i,0,i==miss?99:i); O+=o[i]=i==zero?0:sx_pos("o"); E+=e[i]=sx_pos("e"); gsl_vector_set(od->weights,i,o[i]); gsl_vector_set(ed->weights,n-1-i,e[i]); }
    apop_model *om=apop_estimate(od,apop_pmf),*em=apop_estimate(ed,apop_pmf); int pre=n-(zero>=0)-1; if(pre<1&&miss<0) return; apop_data *t=apop_histograms_test_goodness_of_fit(om,em); double want=0; int df=n-1;
    if(miss>=0){ for(int i=0;i<miss;i++) if(i==zero) df--; sx_check(apop_data_get(t,.rowname="Chi squared statistic")==INFINITY,"impossible observations"); sx_check(n<2||apop_data_get(t,.rowname="p value")==0,"impossible observations have p value zero"); }
    else { for(int i=0;i<n;i++){ double pr=e[i]/E; if(i==zero) df--; else want+=(o[i]-pr)*(o[i]-pr)/pr; } sx_check_eq(apop_data_get(t,.rowname="Chi squared statistic"),want,"statistic"); sx_check(apop_data_get(t,.rowname="df")==df,"degrees of freedom"); double q=gsl_cdf_chisq_Q(want,df); sx_check_eq(apop_data_get(t,.rowname="p value"),q,"p value"); sx_check_eq(apop_data_get(t,.rowname="confidence"),1-q,"confidence"); }
    sx_reach("gof"); }
static void topmf(void){ int n=1+sx_choice("draws",3); apop_data *spec=apop_data_alloc(1,1); gsl_matrix_set(spec->matrix,0,0,.5); apop_model *u=apop_model_set_parameters(apop_uniform,0,1); sx_ndraws=0; apop_model *m=apop_model_to_pmf(u,spec,.draws=n); sx_check(sx_ndraws==n,"as many draws as asked"); double W=0; sx_check((int)m->data->matrix->size1==n,"one row per draw"); gsl_vector *wv=m->data->weights; for(int i=0;i<n&&i<sx_ndraws;i++){ double g=gsl_matrix_get(m->data->matrix,i,0),v=sx_draws[i].value; sx_check(g==(v<.5?0:.5),"draws are binned"); W+=wv?gsl_vector_get(wv,i):1; sx_check(!wv||gsl_vector_get(wv,i)==gsl_vector_get(wv,0),"draws are equally likely"); }
    sx_check(apop_data_to_bins(NULL)==NULL,"NULL data"); sx_check(apop_test_kolmogorov(u,m)->error=='m',"first model must be a PMF"); sx_reach("to pmf"); }
void sx_main(void){ apop_opts.verbose=-1; int k=sx_choice("part",3); if(k==0) bins(); else if(k==1) gof(); else topmf(); }
