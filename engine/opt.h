#include <gsl/gsl_vector.h>
#include <gsl/gsl_siman.h>
#include <gsl/gsl_multimin.h>
#include <gsl/gsl_multiroots.h>
extern void (*sx_opt_seen)(const double*asked,const gsl_vector*after,const double*f,const gsl_vector*g);
extern const void *sx_opt_type; extern double sx_opt_step,sx_opt_tol; extern int sx_opt_iters,sx_opt_converged,sx_opt_failed,sx_opt_moves;
extern gsl_siman_params_t sx_opt_siman;
