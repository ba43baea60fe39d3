/* Dirichlet and multivariate Normal log likelihoods. */
#include "hx.h"
void sx_main(void){
    apop_opts.verbose=-1; int k=sx_choice("model",2),rows=1+sx_choice("rows",3); double w=0;
    if(k==0){ int bins=2+sx_choice("bins",2); apop_model *m=apop_model_copy(apop_dirichlet); m->vsize=bins; m->dsize=bins; apop_prep(NULL,m); double a[4],A=0; for(int i=0;i<bins;i++){ a[i]=sx_pos("alpha"); A+=a[i]; gsl_vector_set(m->parameters->vector,i,a[i]); } sx_assume_le(1e-3,A);
        apop_data *d=apop_data_alloc(rows,bins); for(int r=0;r<rows;r++){ double left=1; w+=lgamma(A); for(int i=0;i<bins;i++){ double t; if(i<bins-1){ t=sx_open("theta",0,1); left-=t; } else { t=left; sx_assume_lt(0,t); } apop_data_set(d,r,i,t); w+=(a[i]-1)*log(t)-lgamma(a[i]); } }
        sx_check_eq(apop_log_likelihood(d,m),w,"Dirichlet log likelihood"); sx_check_eq(apop_p(d,m),exp(w),"Dirichlet likelihood"); sx_reach("dirichlet"); }
    else {
#ifdef SX_THOROUGH
        int dim=1+sx_choice("dim",3);
#else
        int dim=1+sx_choice("dim",3);
#endif
        int conc=dim==3&&rows<3; if(dim==3&&rows>1) return; if(rows==3&&dim==2) conc=1;
        apop_model *m=apop_model_copy(apop_multivariate_normal); m->vsize=m->msize1=m->msize2=m->dsize=dim; m->parameters=apop_data_alloc(dim,dim,dim); apop_prep(NULL,m);
        double L[3][3]={{0}},mu[3],Si[3][3]; for(int i=0;i<dim;i++){ mu[i]=sx_real("mu"); gsl_vector_set(m->parameters->vector,i,mu[i]); for(int j=0;j<i;j++) L[i][j]=conc?i-2*j-.5:sx_real("L"); L[i][i]=conc?1+i*.5:sx_pos("L"); }
        for(int i=0;i<dim;i++)for(int j=0;j<dim;j++){ Si[i][j]=0; for(int q=0;q<dim;q++) Si[i][j]+=L[i][q]*L[j][q]; gsl_matrix_set(m->parameters->matrix,i,j,Si[i][j]); }
        apop_data *d=apop_data_alloc(rows,dim); for(int r=0;r<rows;r++){ double z[3]; for(int i=0;i<dim;i++){ double x=sx_real("x"); apop_data_set(d,r,i,x); double t=x-mu[i]; for(int q=0;q<i;q++) t-=L[i][q]*z[q]; z[i]=t/L[i][i]; w+=-z[i]*z[i]/2-log(2*M_PI)/2-log(L[i][i]); } }
        sx_check_eq(apop_log_likelihood(d,m),w,"multivariate Normal log likelihood");
        for(int i=0;i<dim;i++){ sx_check_same(gsl_vector_get(m->parameters->vector,i),mu[i],"parameters left alone"); for(int j=0;j<dim;j++) sx_check_same(gsl_matrix_get(m->parameters->matrix,i,j),Si[i][j],"parameters left alone"); }
        sx_reach("mvn"); }
}
