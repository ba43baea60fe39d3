/* GSL's optimisers, root finders and annealer as adversaries: they evaluate the objective wherever they like
   (fresh unknowns), move wherever they like, and stop whenever they like with any status.  A harness may look
   at every evaluation through sx_opt_seen.  In replay the same code replaces GSL's. */
#include <gsl/gsl_vector.h>
#include <gsl/gsl_math.h>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_multimin.h>
#include <gsl/gsl_multiroots.h>
#include <gsl/gsl_siman.h>
#include <stdlib.h>
#include <string.h>
#include "sx.h"
#include "opt.h"
#ifdef SX_REPLAY
#define N(x) x
#else
#define N(x) sxm_##x
#endif
void (*sx_opt_seen)(const double*asked,const gsl_vector*after,const double*f,const gsl_vector*g);
const void *sx_opt_type; double sx_opt_step,sx_opt_tol; int sx_opt_iters,sx_opt_converged,sx_opt_failed,sx_opt_moves=2;
gsl_siman_params_t sx_opt_siman;
static gsl_vector *point(const gsl_vector*x){ gsl_vector*p=gsl_vector_alloc(x->size); for(size_t i=0;i<x->size;i++) gsl_vector_set(p,i,sx_in("trial",-8,8)); return p; }
#define SAW(x,asked,f,g) if(sx_opt_seen) sx_opt_seen(asked,x,f,g);
static double *keep(const gsl_vector*x){ double*a=malloc(sizeof(double)*x->size); for(size_t i=0;i<x->size;i++) a[i]=gsl_vector_get(x,i); return a; }
gsl_multimin_fdfminimizer *N(gsl_multimin_fdfminimizer_alloc)(const gsl_multimin_fdfminimizer_type*T,size_t n){ gsl_multimin_fdfminimizer*s=calloc(1,sizeof(*s)); s->type=T; sx_opt_type=T; s->x=gsl_vector_calloc(n); s->gradient=gsl_vector_calloc(n); s->dx=gsl_vector_calloc(n); return s; }
static void at(gsl_multimin_fdfminimizer*s){ double*a=keep(s->x); s->fdf->fdf(s->x,s->fdf->params,&s->f,s->gradient); SAW(s->x,a,&s->f,s->gradient) free(a); }
int N(gsl_multimin_fdfminimizer_set)(gsl_multimin_fdfminimizer*s,gsl_multimin_function_fdf*f,const gsl_vector*x,double step,double tol){ s->fdf=f; sx_opt_step=step; sx_opt_tol=tol; sx_opt_iters=sx_opt_converged=sx_opt_failed=0; gsl_vector_memcpy(s->x,x); at(s); return 0; }
int N(gsl_multimin_fdfminimizer_iterate)(gsl_multimin_fdfminimizer*s){ sx_opt_iters++; int k=sx_choice("iterate",sx_opt_moves+1);
    if(k==0){ sx_opt_failed=GSL_ENOPROG; return GSL_ENOPROG; }
    if(k==1){ gsl_vector*p=point(s->x); gsl_vector_memcpy(s->x,p); gsl_vector_free(p); at(s); return 0; }
    gsl_vector*p=point(s->x); double*a=keep(p); double f=s->fdf->f(p,s->fdf->params); SAW(p,a,&f,NULL) free(a); /* a trial; stay or go there, where only the gradient is left to find */
    if(sx_choice("go",2)){ gsl_vector_memcpy(s->x,p); s->f=f; a=keep(s->x); s->fdf->df(s->x,s->fdf->params,s->gradient); SAW(s->x,a,NULL,s->gradient) free(a); } gsl_vector_free(p); return 0; }
int N(gsl_multimin_test_gradient)(const gsl_vector*g,double tol){ sx_opt_converged=sx_choice("converged",2); return sx_opt_converged?GSL_SUCCESS:GSL_CONTINUE; }
void N(gsl_multimin_fdfminimizer_free)(gsl_multimin_fdfminimizer*s){ if(!s) return; gsl_vector_free(s->x); gsl_vector_free(s->gradient); gsl_vector_free(s->dx); free(s); }
gsl_multimin_fminimizer *N(gsl_multimin_fminimizer_alloc)(const gsl_multimin_fminimizer_type*T,size_t n){ gsl_multimin_fminimizer*s=calloc(1,sizeof(*s)); s->type=T; sx_opt_type=T; s->x=gsl_vector_calloc(n); return s; }
int N(gsl_multimin_fminimizer_set)(gsl_multimin_fminimizer*s,gsl_multimin_function*f,const gsl_vector*x,const gsl_vector*step){ s->f=f; sx_opt_step=gsl_vector_get(step,step->size-1); sx_opt_iters=sx_opt_converged=sx_opt_failed=0; gsl_vector_memcpy(s->x,x); double*a=keep(s->x); s->fval=f->f(s->x,f->params); SAW(s->x,a,&s->fval,NULL) free(a); return 0; }
int N(gsl_multimin_fminimizer_iterate)(gsl_multimin_fminimizer*s){ sx_opt_iters++; int k=sx_choice("iterate",sx_opt_moves+1); if(k==0){ sx_opt_failed=GSL_EFAILED; return GSL_EFAILED; }
    gsl_vector*p=point(s->x); double*a=keep(p); double f=s->f->f(p,s->f->params); SAW(p,a,&f,NULL) free(a); if(k==1){ gsl_vector_memcpy(s->x,p); s->fval=f; } gsl_vector_free(p); return 0; }
double N(gsl_multimin_fminimizer_size)(const gsl_multimin_fminimizer*s){ return sx_pos("size"); }
int N(gsl_multimin_test_size)(double size,double tol){ sx_opt_tol=tol; sx_opt_converged=sx_choice("converged",2); return sx_opt_converged?GSL_SUCCESS:GSL_CONTINUE; }
void N(gsl_multimin_fminimizer_free)(gsl_multimin_fminimizer*s){ if(!s) return; gsl_vector_free(s->x); free(s); }
gsl_multiroot_fsolver *N(gsl_multiroot_fsolver_alloc)(const gsl_multiroot_fsolver_type*T,size_t n){ gsl_multiroot_fsolver*s=calloc(1,sizeof(*s)); s->type=T; sx_opt_type=T; s->x=gsl_vector_calloc(n); s->f=gsl_vector_calloc(n); s->dx=gsl_vector_calloc(n); return s; }
static void rat(gsl_multiroot_fsolver*s){ double*a=keep(s->x); s->function->f(s->x,s->function->params,s->f); SAW(s->x,a,NULL,s->f) free(a); }
int N(gsl_multiroot_fsolver_set)(gsl_multiroot_fsolver*s,gsl_multiroot_function*f,const gsl_vector*x){ s->function=f; sx_opt_iters=sx_opt_converged=sx_opt_failed=0; gsl_vector_memcpy(s->x,x); rat(s); return 0; }
int N(gsl_multiroot_fsolver_iterate)(gsl_multiroot_fsolver*s){ sx_opt_iters++; int k=sx_choice("iterate",sx_opt_moves+1); if(k==0){ sx_opt_failed=GSL_ENOPROG; return GSL_ENOPROG; } gsl_vector*p=point(s->x); if(k==1){ gsl_vector_memcpy(s->x,p); rat(s); } else { gsl_vector*g=gsl_vector_alloc(p->size); double*a=keep(p); s->function->f(p,s->function->params,g); SAW(p,a,NULL,g) free(a); gsl_vector_free(g); } gsl_vector_free(p); return 0; }
int N(gsl_multiroot_test_residual)(const gsl_vector*f,double tol){ sx_opt_tol=tol; sx_opt_converged=sx_choice("converged",2); return sx_opt_converged?GSL_SUCCESS:GSL_CONTINUE; }
void N(gsl_multiroot_fsolver_free)(gsl_multiroot_fsolver*s){ if(!s) return; gsl_vector_free(s->x); gsl_vector_free(s->f); gsl_vector_free(s->dx); free(s); }
/* annealing, with user-supplied copying: at most sx_opt_moves steps, each accepted or not, each the best or not */
void N(gsl_siman_solve)(const gsl_rng*r,void*x0,gsl_siman_Efunc_t Ef,gsl_siman_step_t step,gsl_siman_metric_t dist,gsl_siman_print_t pr,gsl_siman_copy_t cp,gsl_siman_copy_construct_t cons,gsl_siman_destroy_t destroy,size_t el,gsl_siman_params_t P){
    sx_opt_siman=P; void*x=cons(x0),*nw=cons(x0),*best=cons(x0); Ef(x0); int n=sx_choice("steps",sx_opt_moves+1);
    for(int i=0;i<n;i++){ cp(x,nw); step(r,nw,P.step_size); Ef(nw); int k=sx_choice("accept",3); if(k==2) cp(nw,best); if(k) cp(nw,x); }
    cp(best,x0); destroy(x); destroy(nw); destroy(best); }
#ifndef SX_REPLAY
/* the first, fixed-step estimate of gsl_deriv_central (five-point rule; exact for polynomials of degree four) */
int sxm_gsl_deriv_central(const gsl_function*F,double x,double h,double*res,double*err){ double fm=GSL_FN_EVAL(F,x-h),fp=GSL_FN_EVAL(F,x+h),fmh=GSL_FN_EVAL(F,x-h/2),fph=GSL_FN_EVAL(F,x+h/2); double r3=(fp-fm)/2, r5=(4*(fph-fmh)-r3)/3; *res=r5/h; *err=0; return 0; }
#endif
