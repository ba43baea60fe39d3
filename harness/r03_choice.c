/* Probit and logit: likelihoods for two and three categories, the probit gradient, logit predictions,
   shape and names of the parameters, and the factor coding of the outcome. */
#include "hx.h"
void sx_main(void){
    apop_opts.verbose=-1; int logit=sx_choice("logit",2),cats=2+sx_choice("three",logit?3:2),n=cats==4?4:3,k=2,hasvec=cats<4?sx_choice("vector",2):0,named=sx_choice("named",2);
    double code[4]={-1,2,5,9},X[4][2]; int cat[4]; for(int i=0;i<n;i++) cat[i]=i<cats?(i+named)%cats:sx_choice("category",cats);
    for(int i=0;i<n;i++){ X[i][0]=hasvec?i+1:1; X[i][1]=(double[]){.5,2,-1,3}[i]; }
    apop_data *d=apop_data_alloc(hasvec?n:0,n,k); for(int i=0;i<n;i++){ if(hasvec) gsl_vector_set(d->vector,i,code[cat[i]]); for(int j=0;j<k;j++) gsl_matrix_set(d->matrix,i,j,!hasvec&&!j?code[cat[i]]:X[i][j]); }
    if(named){ if(hasvec) apop_name_add(d->names,"choice",'v'); apop_name_add(d->names,hasvec?"a":"choice",'c'); apop_name_add(d->names,"b",'c'); }
    apop_model *m=apop_model_copy(logit?apop_logit:apop_probit); apop_prep(d,m);
    sx_check(d->vector&&(int)d->vector->size==n,"outcome in the vector"); for(int i=0;i<n;i++){ sx_check(gsl_vector_get(d->vector,i)==cat[i],"outcome coded in order"); for(int j=0;j<k;j++) sx_check_same(gsl_matrix_get(d->matrix,i,j),X[i][j],"regressors and a column of ones"); }
    sx_check(m->parameters&&m->parameters->matrix&&(int)m->parameters->matrix->size1==k&&(int)m->parameters->matrix->size2==cats-1,"one column of parameters per category but the first"); if(!m->parameters||!m->parameters->matrix) return;
    if(named){ sx_check(m->parameters->names->rowct==k&&!strcmp(m->parameters->names->row[0],hasvec?"a":"1")&&!strcmp(m->parameters->names->row[1],"b"),"parameter rows named"); const char*cn[]={"-1","2","5","9"}; sx_check(m->parameters->names->colct==cats-1,"parameter columns named"); for(int c=1;c<cats&&c<=m->parameters->names->colct;c++) sx_check(!strcmp(m->parameters->names->col[c-1],cn[c]),"parameter column names the category"); }
    apop_prep(d,m); for(int i=0;i<n;i++) sx_check(gsl_vector_get(d->vector,i)==cat[i]&&gsl_matrix_get(d->matrix,i,0)==X[i][0],"preparing twice changes nothing");
    double B[2][3],xb[4][4]; for(int j=0;j<k;j++)for(int c=0;c<cats-1;c++){ B[j][c]=cats==4&&j?0:sx_real("b"); gsl_matrix_set(m->parameters->matrix,j,c,B[j][c]); }
    for(int i=0;i<n;i++){ xb[i][0]=0; for(int c=1;c<cats;c++){ xb[i][c]=0; for(int j=0;j<k;j++) xb[i][c]+=X[i][j]*B[j][c-1]; } }
    double want=0; for(int i=0;i<n;i++) if(logit){ double s=0; for(int c=0;c<cats;c++) s+=exp(xb[i][c]); want+=xb[i][cat[i]]-log(s); } else for(int c=1;c<cats;c++){ if(sx_symbolic()){ sx_assume_lt(-4,xb[i][c]); sx_assume_lt(xb[i][c],4); } double ph=gsl_cdf_gaussian_P(-xb[i][c],1); want+=log(cat[i]==c?1-ph:ph); }
    double ll=apop_log_likelihood(d,m);
    if(!logit){ sx_check_eq(ll,want,"probit log likelihood"); if(cats==2){ gsl_vector*g=gsl_vector_alloc(k); apop_score(d,g,m); for(int j=0;j<k;j++){ double w=0; for(int i=0;i<n;i++){ double ph=gsl_cdf_gaussian_P(-xb[i][1],1),f=gsl_ran_gaussian_pdf(-xb[i][1],1); w+=X[i][j]*(cat[i]?f/(1-ph):-f/ph); } sx_check_eq(gsl_vector_get(g,j),w,"probit gradient"); } } }
    else { sx_check_eq(ll,want,"logit log likelihood"); apop_data *p=apop_predict(d,m); sx_check(p&&p->matrix&&(int)p->matrix->size1==n&&(int)p->matrix->size2==cats,"one predicted probability per category"); sx_check(p&&p->names->colct>0&&!strcmp(p->names->col[0],"-1"),"predictions name the first category"); if(p&&p->matrix) for(int i=0;i<n;i++){ double s=0; for(int c=0;c<cats;c++) s+=exp(xb[i][c]); for(int c=0;c<cats;c++) sx_check_eq(gsl_matrix_get(p->matrix,i,c)*s,exp(xb[i][c]),"predicted probability"); int b=0; for(int c=1;c<cats;c++) if(xb[i][c]>xb[i][b]) b=c; sx_check(gsl_vector_get(p->vector,i)==b,"most likely category"); } }
    for(int i=0;i<n;i++){ sx_check(gsl_vector_get(d->vector,i)==cat[i],"outcome left alone"); for(int j=0;j<k;j++) sx_check_same(gsl_matrix_get(d->matrix,i,j),X[i][j],"regressors left alone"); }
    sx_reach("choice");
}
