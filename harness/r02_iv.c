/* Instrumental variables: the instrumented normal equations, error variance, sandwich covariance, predictions,
   names, both ways of saying which column is replaced, and the fall back to least squares. */
#include "hx.h"
static int n=3,k=2,hasw,hasvec; static double X[4][3],Z[4][3],Y[4],W[4];
static apop_data *data(void){ apop_data *d=apop_data_alloc(hasvec?n:0,n,k); for(int i=0;i<n;i++){ for(int j=0;j<k;j++) gsl_matrix_set(d->matrix,i,j,!hasvec&&!j?Y[i]:X[i][j]); if(hasvec) gsl_vector_set(d->vector,i,Y[i]); }
    if(hasw){ d->weights=gsl_vector_alloc(n); for(int i=0;i<n;i++) gsl_vector_set(d->weights,i,W[i]); }
    if(hasvec) apop_name_add(d->names,"dep",'v'); for(int j=0;j<k;j++) apop_name_add(d->names,!hasvec&&!j?"dep":hxn("ind",j),'c'); return d; }
void sx_main(void){
    apop_opts.verbose=-1; hasw=sx_choice("weights",2); hasvec=sx_choice("vector",2); int how=sx_choice("instruments",4); /* 0: column numbers 1: names 2: none 3: empty */
    int sym=sx_choice("symbolic",2), col=hasvec?sx_choice("column",2):1, want=how<2?sx_choice("wanted",3):0;
#ifdef SX_THOROUGH
    if(how<2&&sx_choice("bigger",2)){ n=4; k=3; col=hasvec?sx_choice("which",3):1+sx_choice("which",2); }
#endif
    for(int i=0;i<n;i++){ Y[i]=sx_real("y"); W[i]=hasw?(i==1?sx_pos("w"):.5+i):1; for(int j=0;j<k;j++){ X[i][j]=!hasvec&&!j?1:j==0?(double[]){1,2,1,3}[i]:j==1?(sym?(double[]){2,5,3,4}[i]:i==1?sx_real("x"):3*i-1):(double[]){0,1,5,2}[i]; Z[i][j]=X[i][j]; }
        if(how<2) Z[i][col]=sym?sx_real("z"):(double[]){2,3,-1,4}[i]; }
    int q=1,cl[2]={col,0}; if(how<2&&hasvec&&!col&&sym&&!want&&k==2&&sx_choice("two instruments",2)){ n=4; k=3; q=2; cl[0]=2; cl[1]=0; static const double XX[4][3]={{1,2,0},{2,5,1},{1,3,5},{3,4,2}},ZZ[4][3]={{2,2,1},{3,5,-1},{-1,3,2},{4,4,6}}; for(int i=0;i<n;i++){ Y[i]=sx_real("y"); W[i]=hasw?.5+i:1; for(int j=0;j<k;j++){ X[i][j]=XX[i][j]; Z[i][j]=ZZ[i][j]; } } }
    double D; { double a[3][3]; for(int p=0;p<k;p++) for(int q=0;q<k;q++){ a[p][q]=0; for(int i=0;i<n;i++) a[p][q]+=Z[i][p]*W[i]*X[i][q]; } D=k==2?a[0][0]*a[1][1]-a[0][1]*a[1][0]:a[0][0]*(a[1][1]*a[2][2]-a[1][2]*a[2][1])-a[0][1]*(a[1][0]*a[2][2]-a[1][2]*a[2][0])+a[0][2]*(a[1][0]*a[2][1]-a[1][1]*a[2][0]); } sx_assume_ne(D,0);
    apop_data *d=data(),*ins=NULL; if(how<2){ ins=how==0?apop_data_alloc(q,n,q):apop_data_alloc(n,q); for(int t=0;t<q;t++){ for(int i=0;i<n;i++) gsl_matrix_set(ins->matrix,i,t,Z[i][cl[t]]); if(how==0) gsl_vector_set(ins->vector,t,cl[t]); else apop_name_add(ins->names,!hasvec&&!cl[t]?"1":hxn("ind",cl[t]),'c'); } } else if(how==3) ins=apop_data_alloc();
    apop_model *m=apop_model_copy(apop_iv); Apop_settings_add_group(m,apop_lm,.instruments=ins); int wc=want!=2,wp=want!=2; if(want) Apop_settings_add_group(m,apop_parts_wanted,.covariance=want==1?'y':'n'); if(want==1) wp=0;
    apop_model *e=apop_estimate(d,m); sx_check(!e->error,"no error"); sx_check(!m->parameters&&!apop_iv->parameters&&!apop_ols->parameters,"the original model is untouched"); sx_check(e->data==d,"the model points to its data");
    sx_check(e->parameters&&e->parameters->vector&&(int)e->parameters->vector->size==k,"one parameter per column"); double B[3],E[4],sse=0; for(int j=0;j<k;j++) B[j]=gsl_vector_get(e->parameters->vector,j);
    for(int i=0;i<n;i++){ double f=0; for(int j=0;j<k;j++) f+=X[i][j]*B[j]; E[i]=Y[i]-f; sse+=W[i]*E[i]*E[i]; }
    for(int j=0;j<k;j++){ double z=0; for(int i=0;i<n;i++) z+=Z[i][j]*W[i]*E[i]; sx_check_eq(z,0,"residuals orthogonal to every instrument"); }
    apop_data *c=apop_data_get_page(e->parameters,"<Covariance>"),*ev=apop_data_get_page(e->parameters,"<Error variance>"),*p=e->info?apop_data_get_page(e->info,"<Predicted>"):NULL; sx_check((c!=NULL)==wc,"covariance page iff wanted"); sx_check((p!=NULL)==wp,"predicted page iff wanted");
    if(ev) sx_check_eq(apop_data_get(ev,0,-1),sse/(n-k),"error variance");
    if(c){ for(int a=0;a<k;a++) for(int b=0;b<k;b++){ double l=0,r=0; for(int i=0;i<n;i++) r+=Z[i][a]*W[i]*Z[i][b]; for(int q=0;q<k;q++) for(int s=0;s<k;s++){ double zx=0,xz=0; for(int i=0;i<n;i++){ zx+=Z[i][a]*W[i]*X[i][q]; xz+=X[i][s]*W[i]*Z[i][b]; } l+=zx*gsl_matrix_get(c->matrix,q,s)*xz; } sx_check_eq(l,r*sse/(n-k),"covariance"); }
        for(int j=0;j<k;j++){ const char*nm=!hasvec&&!j?"1":hxn("ind",j); sx_check(c->names->rowct==k&&c->names->colct==k&&!strcmp(c->names->row[j],nm)&&!strcmp(c->names->col[j],nm),"covariance names"); } }
    if(p) for(int i=0;i<n;i++){ sx_check_eq(gsl_matrix_get(p->matrix,i,0),Y[i],"observed"); sx_check_eq(gsl_matrix_get(p->matrix,i,1),Y[i]-E[i],"predicted"); sx_check_eq(gsl_matrix_get(p->matrix,i,2),E[i],"residual"); }
    sx_check(e->parameters->names->rowct==k,"parameter name count"); for(int j=0;j<k&&j<e->parameters->names->rowct;j++) sx_check(!strcmp(e->parameters->names->row[j],!hasvec&&!j?"1":hxn("ind",j)),"parameter names");
    for(int i=0;i<n;i++){ sx_check_same(gsl_vector_get(d->vector,i),Y[i],"dependent variable"); for(int j=0;j<k;j++) sx_check_same(gsl_matrix_get(d->matrix,i,j),X[i][j],"independent variables left alone"); if(hasw) sx_check_same(gsl_vector_get(d->weights,i),W[i],"weights left alone"); }
    if(how<2) for(int t=0;t<q;t++) for(int i=0;i<n;i++) sx_check_same(gsl_matrix_get(ins->matrix,i,t),Z[i][cl[t]],"instruments left alone");
    if(how>=2){ apop_data *t=apop_data_get_page(e->info,"<test info>"); sx_check(t!=NULL,"as least squares: tests"); }
    sx_reach("iv");
}
