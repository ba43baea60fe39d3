/* Draws from a linear model and from a Logit: regressors from the input distribution, then the outcome given them. */
#include "hx.h"
#include "draws.h"
static const double X[3][2]={{1,2},{1,-1},{3,.5}};
static apop_data *xs(int wt,double *w){ apop_data *x=apop_data_alloc(3,2); for(int i=0;i<3;i++) for(int j=0;j<2;j++) gsl_matrix_set(x->matrix,i,j,X[i][j]); if(wt){ x->weights=gsl_vector_alloc(3); for(int i=0;i<3;i++) gsl_vector_set(x->weights,i,w[i]); } return x; }
static int rowof(double *o){ for(int i=0;i<3;i++) if(o[0]==X[i][0]&&o[1]==X[i][1]) return i; return -1; }
static int find(const char *n,int from){ for(int i=from;i<sx_ndraws;i++) if(!strncmp(sx_draws[i].name,n,strlen(n))) return i; return -1; }
static void ols(void){
    int wt=sx_choice("weighted input",2),given=sx_choice("input",2),many=sx_choice("many",3); double y[3],w[3]={1,1,1},o[6]; if(!given&&(wt||many)) return; for(int i=0;i<3;i++){ y[i]=i==1?sx_real("y"):4-i; if(wt) w[i]=sx_pos("w"); }
    apop_data *d=xs(0,NULL); d->vector=gsl_vector_alloc(3); for(int i=0;i<3;i++) gsl_vector_set(d->vector,i,y[i]); apop_model *om=apop_model_copy(apop_ols); Apop_settings_add_group(om,apop_parts_wanted,.predicted='y'); apop_model *e=apop_estimate(d,om); sx_check(!e->error&&e->dsize==3,"a draw is the outcome and the regressors"); gsl_rng *r=apop_rng_alloc(3); for(int i=0;i<6;i++) o[i]=-77;
    if(!given){ sx_ndraws=0; sx_check(apop_draw(o,r,e)!=0,"nothing to draw the regressors from: an error"); sx_check(o[3]==-77,"no more than a draw is written"); sx_reach("no input distribution"); return; }
    apop_settings_set(e,apop_lm,input_distribution,apop_estimate(xs(wt,w),apop_pmf)); double b[2]={apop_data_get(e->parameters,0,-1),apop_data_get(e->parameters,1,-1)},sse=0; for(int i=0;i<3;i++){ double z=y[i]-X[i][0]*b[0]-X[i][1]*b[1]; sse+=z*z; }
    sx_ndraws=0; int n=many?many:1; apop_data *got=NULL; if(many){ got=apop_model_draws(e,n); int ok=got&&!got->error&&got->matrix&&(int)got->matrix->size1==n&&got->matrix->size2==3; sx_check(ok,"one row per draw"); if(!ok) return; } else { sx_check(apop_draw(o,r,e)==0,"no error"); sx_check(o[3]==-77,"no more than a draw is written"); }
    sx_check(sx_ndraws==2*n,"one row of regressors and one error per draw"); int u=-1,g=-1; for(int k=0;k<n;k++){ double v[3]; for(int j=0;j<3;j++) v[j]=many?gsl_matrix_get(got->matrix,k,j):o[j]; int row=rowof(v+1); sx_check(row>=0,"regressors from the input distribution"); u=find("uniform",u+1); g=find("gaussian",g+1); sx_check(u>=0&&g>=0,"a uniform for the row, a Normal for the error"); if(row<0||u<0||g<0) return;
        if(!wt) sx_check(sx_draws[u].value*3>=row&&sx_draws[u].value*3<=row+1,"the row drawn"); else { double lo=0,W=w[0]+w[1]+w[2]; for(int i=0;i<row;i++) lo+=w[i]; sx_check_le(lo,sx_draws[u].value*W,"the row drawn"); sx_check_le(sx_draws[u].value*W,lo+w[row],"the row drawn"); }
        sx_check_eq(sx_draws[g].a*sx_draws[g].a*3,sse,"variance of the error"); sx_check_eq(v[0],v[1]*b[0]+v[2]*b[1]+sx_draws[g].a*sx_draws[g].value,"outcome"); }
    sx_reach("ols"); }
static void logit(void){
    int nc=2+sx_choice("categories",2),how=sx_choice("input",3),n=1+sx_choice("draws",2),wt=how==1&&nc==2?sx_choice("weights",2):0; double beta[2][2],w[3]={.5,2,1},o[6]; apop_data *d=xs(0,NULL); d->vector=gsl_vector_alloc(3); for(int i=0;i<3;i++) gsl_vector_set(d->vector,i,(double[]){-1,2,5}[nc==2&&i==2?1:i]); if(how==1&&wt){ d->weights=gsl_vector_alloc(3); for(int i=0;i<3;i++) gsl_vector_set(d->weights,i,w[i]); }
    apop_model *m=apop_model_copy(apop_logit); if(how==0) Apop_model_add_group(m,apop_lm); apop_data *gx=xs(0,NULL); gsl_vector_set_all(Apop_cv(gx,1),9); if(how==2) Apop_model_add_group(m,apop_lm,.input_distribution=apop_estimate(gx,apop_pmf)); apop_prep(d,m); m->data=d; sx_check(m->dsize==3&&m->parameters&&(int)m->parameters->matrix->size1==2&&(int)m->parameters->matrix->size2==nc-1,"sizes"); if(m->dsize!=3) return;
    for(int i=0;i<2;i++) for(int j=0;j<nc-1;j++){ beta[i][j]=sx_real("beta"); gsl_matrix_set(m->parameters->matrix,i,j,beta[i][j]); } gsl_rng *r=apop_rng_alloc(3);
    for(int k=0;k<n;k++){ for(int i=0;i<6;i++) o[i]=-77; sx_ndraws=0; int rc=apop_draw(o,r,m); sx_check(o[3]==-77,"no more than a draw is written"); if(how==0){ sx_check(rc!=0,"nothing to draw the regressors from: an error"); sx_reach("no input distribution"); return; } sx_check(rc==0,"no error"); if(sx_ndraws!=2){ sx_check(0,"one draw for the regressors, one for the category"); return; }
        double v[2]={o[1],how==2?o[2]:o[2]}; int row=-1; if(how==2){ sx_check(v[1]==9,"regressors from the given distribution"); sx_check(v[0]==1||v[0]==3,"regressors from the given distribution"); } else { row=rowof(v); sx_check(row>=0,"regressors from the data"); if(row<0) return; double u=sx_draws[0].value; if(!wt) sx_check(u*3>=row&&u*3<=row+1,"the row drawn"); else { double lo=0; for(int i=0;i<row;i++) lo+=w[i]; sx_check(u*3.5>=lo&&u*3.5<=lo+w[row],"the row drawn"); } }
        double e[3]={1},W=1; for(int j=0;j<nc-1;j++){ e[j+1]=exp(v[0]*beta[0][j]+v[1]*beta[1][j]); W+=e[j+1]; } sx_check((o[0]==0||o[0]==1||(nc==3&&o[0]==2)),"a category"); int c=o[0]; double lo=0,U=sx_draws[1].value*W; for(int j=0;j<c&&j<3;j++) lo+=e[j]; if(c>=0&&c<3){ sx_check_le(lo,U,"category at its probability"); sx_check_le(U,lo+e[c],"category at its probability"); } }
    for(int i=0;i<2;i++) for(int j=0;j<nc-1;j++) sx_check_same(gsl_matrix_get(m->parameters->matrix,i,j),beta[i][j],"parameters left alone"); sx_reach("logit"); }
void sx_main(void){ apop_opts.verbose=-1; if(sx_choice("model",2)) logit(); else ols(); }
