/* Harness interface: the same harness runs symbolically (engine) and concretely (replay). */
#ifndef SX_H
#define SX_H
#ifdef __cplusplus
extern "C" {
#endif
double sx_real(const char *name);                       /* any real number */
double sx_pos(const char *name);                        /* real > 0 */
double sx_in(const char *name, double lo, double hi);   /* lo <= real <= hi */
double sx_open(const char *name, double lo, double hi); /* lo < real < hi */
int sx_choice(const char *name, int n);                 /* every value of 0..n-1, one path each */
double sx_real_or_nan(const char *name);                /* both cases explored */
void sx_assume(int cond);
void sx_assume_lt(double a, double b);
void sx_assume_le(double a, double b);
void sx_assume_ne(double a, double b);
void sx_assume_eq(double a, double b);
void sx_check(int cond, const char *label);
void sx_check_eq(double a, double b, const char *label);   /* exact equality over the reals; NaN equals NaN */
void sx_check_same(double a, double b, const char *label); /* data movement: the very same value */
void sx_check_lt(double a, double b, const char *label);
void sx_check_le(double a, double b, const char *label);
void sx_check_ne(double a, double b, const char *label);

void sx_reach(const char *label);                       /* vacuity witness */
int sx_symbolic(void);                                  /* 1 in the engine, 0 in replay */
/* derivative of an expression with respect to a symbolic input; in replay mode `fn` is
   differentiated numerically (central difference, Richardson) around the current input. */
double sx_deriv(double (*fn)(double x, void *p), void *p, double x);
int sx_quiet(void);
void sx_debug(const char *n, double v);
void sx_main(void);
/* bytes (phase 2) */
#ifdef __cplusplus
}
#endif
#endif
