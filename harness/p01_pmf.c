/* Probability mass functions: draws, probabilities, cumulative mass, estimation and compression. */
#include "hx.h"
#include "draws.h"
#ifdef SX_THOROUGH
#define NROW 5
#define NPR 4
#else
#define NROW 4
#define NPR 3
#endif
static double U(void){ return sx_draws[0].value; }
/* rows with distinct concrete coordinates: lay 0 vector, 1 one column, 2 two columns, 3 vector and two columns, 4 text only */
static apop_data *rows(int lay,int n){
    apop_data *d=apop_data_alloc();
    if(lay==0||lay==3){ d->vector=gsl_vector_alloc(n); for(int i=0;i<n;i++) gsl_vector_set(d->vector,i,100+i); }
    if(lay>=1&&lay<=3){ int c=lay==1?1:2; d->matrix=gsl_matrix_alloc(n,c); for(int i=0;i<n;i++) for(int j=0;j<c;j++) gsl_matrix_set(d->matrix,i,j,10*i+j); }
    if(lay==4){ apop_text_alloc(d,n,1); for(int i=0;i<n;i++) apop_text_set(d,i,0,"t%d",i); }
    return d; }
static int width(int lay){ return lay==0||lay==1?1:lay==2?2:lay==3?3:0; }
static void draws(void){
    int lay=sx_choice("layout",5),n=1+sx_choice("rows",NROW),wt=sx_choice("weights",3),idx=lay==4?1:sx_choice("index",2); double w[NROW],W=0;
    apop_data *d=rows(lay,n); int zero=-1; if(wt){ if(wt==2){ zero=sx_choice("zero weight",n); if(n==1) return; } d->weights=gsl_vector_alloc(n); for(int i=0;i<n;i++){ w[i]=i==zero?0:sx_pos("w"); gsl_vector_set(d->weights,i,w[i]); } } else for(int i=0;i<n;i++) w[i]=1; for(int i=0;i<n;i++) W+=w[i];
    apop_model *m; if(idx){ apop_model *b=apop_model_copy(apop_pmf); Apop_settings_add_group(b,apop_pmf,.draw_index='y'); m=apop_estimate(d,b); } else m=apop_estimate(d,apop_pmf);
    sx_check(m->data==d,"the data is linked"); sx_check(!m->error,"no error"); if(!idx) sx_check(m->dsize==width(lay),"size of a draw");
    gsl_rng *r=apop_rng_alloc(3); double o[5]={-77,-77,-77,-77,-77}; sx_ndraws=0; int rc=apop_draw(o,r,m); sx_check(rc==0,"success"); sx_check(sx_ndraws==1&&!strcmp(sx_draws[0].name,"uniform"),"one uniform per draw"); if(sx_ndraws<1) return; double u=U();
    int k; if(idx) k=(int)o[0]; else if(lay==0||lay==3) k=(int)(o[0]-100); else k=(int)(o[0]/10); sx_check(k>=0&&k<n,"a row of the data"); if(k<0||k>=n) return;
    int got=0; if(idx) got=1; else { if(lay==0||lay==3) sx_check(o[got++]==100+k,"vector element"); if(lay>=1) for(int j=0;j<(lay==1?1:2);j++) sx_check(o[got++]==10*k+j,"matrix elements"); } for(int i=got;i<5;i++) sx_check(o[i]==-77,"nothing else written");
    double below=0; for(int i=0;i<k;i++) below+=w[i];
    if(!wt){ sx_check_le(below,u*W,"equal slices"); sx_check_lt(u*W,below+1,"equal slices"); } else if(u>0){ sx_check_le(below,u*W,"slice begins at or below the draw"); sx_check_le(u*W,below+w[k],"slice ends at or above the draw"); if(zero>=0&&k==zero) sx_check(0,"zero-weight rows are never drawn"); }
    /* a later draw uses the same slices */
    sx_ndraws=0; sx_reach("draw"); }
static void prob(void){
    int n=1+sx_choice("rows",NPR),lay=sx_choice("layout",4),wt=sx_choice("weights",2),cdf=sx_choice("cdf",2); double x[5],w[5],W=0;
    apop_data *d; if(lay==2){ d=apop_data_alloc(n,2); } else if(lay==0) d=apop_data_alloc(n); else if(lay==1) d=apop_data_alloc(n,1); else { d=apop_data_alloc(); apop_text_alloc(d,n,2); }
    int tx[5]; for(int i=0;i<n;i++){ if(lay==3){ tx[i]=sx_choice("text",2); apop_text_set(d,i,0,"same"); apop_text_set(d,i,1,"%s",tx[i]?"b":"a"); x[i]=tx[i]; } else x[i]=(cdf||lay!=1)?sx_real("x"):sx_real_or_nan("x"); if(cdf&&i) { if(lay==3){ if(tx[i]<tx[i-1]) return; } else sx_assume_le(x[i-1],x[i]); }
        if(lay==0) gsl_vector_set(d->vector,i,x[i]); else if(lay==1) gsl_matrix_set(d->matrix,i,0,x[i]); else if(lay==2){ gsl_matrix_set(d->matrix,i,0,7); gsl_matrix_set(d->matrix,i,1,x[i]); } w[i]=wt?sx_pos("w"):1; W+=w[i]; }
    if(wt){ d->weights=gsl_vector_alloc(n); for(int i=0;i<n;i++) gsl_vector_set(d->weights,i,w[i]); }
    apop_model *m=apop_estimate(d,apop_pmf); int nq=cdf?1:1+sx_choice("observations",2); apop_data *q=lay==2?apop_data_alloc(nq,2):lay==0?apop_data_alloc(nq):lay==1?apop_data_alloc(nq,1):apop_text_alloc(apop_data_alloc(),nq,2); double want=1;
    for(int k=0;k<nq;k++){ double y; if(lay==3){ int t=sx_choice("query",3); apop_text_set(q,k,0,"same"); apop_text_set(q,k,1,"%s",t==2?"c":t?"b":"a"); y=t; } else { y=lay==1&&!cdf?sx_real_or_nan("q"):sx_real("q"); if(lay==0) gsl_vector_set(q->vector,k,y); else gsl_matrix_set(q->matrix,k,lay==2,y); if(lay==2) gsl_matrix_set(q->matrix,k,0,7); }
        double eq=0,le=0; for(int i=0;i<n;i++){ int same=isnan(x[i])?isnan(y):!isnan(y)&&x[i]==y; if(same) eq+=w[i]; if(same||(lay==3?x[i]<y:!isnan(x[i])&&x[i]<y)) le+=w[i]; } int found=0; for(int i=0;i<n;i++) if(isnan(x[i])?isnan(y):!isnan(y)&&x[i]==y) found=1; want*=!found?0:cdf?le/W:eq/W; }
    double got=cdf?apop_cdf(q,m):apop_p(q,m); sx_check_eq(got,want,cdf?"cumulative mass":"probability");
    if(cdf){ sx_check_eq(apop_cdf(q,m),want,"cumulative mass again"); } else if(n<3&&nq==1&&want!=0) sx_check_eq(apop_log_likelihood(q,m),log(want),"log likelihood");
    sx_reach(cdf?"cdf":"p"); }
static void compress(void){
    int n=1+sx_choice("rows",NPR),lay=sx_choice("layout",4),wt=sx_choice("weights",2); double x[5],w[5]; char nm[8]; ds none; (void)none;
    apop_data *d=lay==2?apop_data_alloc(n,n,2):lay==0?apop_data_alloc(n):lay==1?apop_data_alloc(n,2):apop_text_alloc(apop_data_alloc(),n,2);
    for(int i=0;i<n;i++){ snprintf(nm,8,"r%d",i); apop_name_add(d->names,nm,'r'); if(lay==3){ int t=sx_choice("text",3); x[i]=t; apop_text_set(d,i,0,"%s",t==2?"B":"b"); apop_text_set(d,i,1,"%s",t?"q":"p"); } else { x[i]=lay==0?sx_real_or_nan("x"):sx_real("x"); if(lay==0) gsl_vector_set(d->vector,i,x[i]); else { gsl_matrix_set(d->matrix,i,0,5); gsl_matrix_set(d->matrix,i,1,x[i]); if(lay==2) gsl_vector_set(d->vector,i,6); } } w[i]=wt?sx_real("w"):1; }
    if(wt){ d->weights=gsl_vector_alloc(n); for(int i=0;i<n;i++) gsl_vector_set(d->weights,i,w[i]); }
    double kx[5],kw[5]; int kept=0,from[5]; for(int i=0;i<n;i++){ int j=0; for(;j<kept;j++) if(isnan(kx[j])?isnan(x[i]):!isnan(x[i])&&kx[j]==x[i]) break; if(j==kept){ from[kept]=i; kx[kept]=x[i]; kw[kept++]=w[i]; } else kw[j]+=w[i]; }
    apop_data *o=apop_data_pmf_compress(d); sx_check(o==d,"in place"); int wsize=o->weights?o->weights->size:0, maxsize=o->vector?o->vector->size:o->matrix?o->matrix->size1:o->textsize[0]; sx_check(maxsize==kept&&wsize==kept,"one row per distinct observation"); if(maxsize!=kept||wsize!=kept) return;
    for(int i=0;i<kept;i++){ sx_check_eq(gsl_vector_get(o->weights,i),kw[i],"weights are summed"); if(lay==0) sx_check_same(gsl_vector_get(o->vector,i),kx[i],"first occurrences, in order"); else if(lay<3){ sx_check_same(apop_data_get(o,i,1),kx[i],"first occurrences, in order"); sx_check(apop_data_get(o,i,0)==5&&(lay==1||gsl_vector_get(o->vector,i)==6),"other columns"); } else sx_check(!strcmp(o->text[i][0],kx[i]==2?"B":"b")&&!strcmp(o->text[i][1],kx[i]?"q":"p"),"text kept"); snprintf(nm,8,"r%d",from[i]); sx_check(o->names->rowct==kept&&!strcmp(o->names->row[i],nm),"names go with the rows"); }
    sx_reach("compress"); }
static void odd(void){ int k=sx_choice("odd",6); apop_data *d=apop_data_falloc((3),1,2,3);
    if(k==0||k==1){ d->weights=apop_vector_copy(d->vector); gsl_vector_set(d->weights,1,k?NAN:INFINITY); apop_model *m=apop_estimate(d,apop_pmf); sx_check(m->error=='w',"broken total weight is flagged"); }
    else if(k==2){ d->weights=gsl_vector_calloc(3); apop_model *m=apop_estimate(d,apop_pmf); double o=3; gsl_rng *r=apop_rng_alloc(3); int rc=apop_draw(&o,r,m); sx_check(rc!=0&&isnan(o)&&m->error=='f',"no draws from zero density"); }
    else if(k==3){ double a=sx_real("a"); apop_data *e=apop_data_alloc(3); gsl_vector_set_all(e->vector,a); gsl_vector_set(e->vector,1,9); apop_model *m=apop_estimate(e,apop_pmf); if(a==9) return; apop_data_pmf_compress(e); apop_data *q=apop_data_alloc(1); gsl_vector_set(q->vector,0,a); sx_check_eq(apop_p(q,m),2./3,"compressed after the estimation"); sx_check_eq(apop_cdf(q,m),2./3,"compressed after the estimation"); }
    else if(k==4){ sx_check(apop_data_pmf_compress(NULL)==NULL,"NULL data"); }
    else { /* copies draw alike and can be freed separately */ d->weights=gsl_vector_alloc(3); double w[3]; for(int i=0;i<3;i++) gsl_vector_set(d->weights,i,w[i]=sx_pos("w")); apop_model *m=apop_estimate(d,apop_pmf); gsl_rng *r=apop_rng_alloc(3); double o; int before=sx_choice("drawn",2); if(before) apop_draw(&o,r,m); apop_model *c=apop_model_copy(m); apop_model_free(m); sx_ndraws=0; sx_check(apop_draw(&o,r,c)==0,"copy draws"); double u=U(),W=w[0]+w[1]+w[2]; if(o==1) sx_check_le(u*W,w[0],"copy, first row"); else if(o==2){ sx_check_le(w[0],u*W,"copy, second row"); sx_check_le(u*W,w[0]+w[1],"copy, second row"); } else { sx_check(o==3,"a row"); sx_check_le(w[0]+w[1],u*W,"copy, third row"); } apop_model_free(c); }
    sx_reach("odd"); }
void sx_main(void){ apop_opts.verbose=-1; int k=sx_choice("part",4); if(k==0) draws(); else if(k==1) prob(); else if(k==2) compress(); else odd(); }
