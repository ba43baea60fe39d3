/* Concrete side of the harness interface: inputs come from a counterexample file. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_cdf.h>
#include <unistd.h>
#include "sx.h"
int sx_replaying=1;
static struct { char n[100]; double v; } val[2000]; static int nval; static struct { char n[100]; int k; } cnt[2000]; static int ncnt; static char trail[200000];
static int count(const char*n){ for(int i=0;i<ncnt;i++) if(!strcmp(cnt[i].n,n)) return cnt[i].k++; strncpy(cnt[ncnt].n,n,99); cnt[ncnt].k=1; ncnt++; return 0; }
static int fails;
static double getv(const char*n,double dflt){ char b[120]; snprintf(b,120,"%s#%d",n,count(n)); for(int i=0;i<nval;i++) if(!strcmp(val[i].n,b)) return val[i].v; return dflt; }
double sx_real(const char*n){ return getv(n,0.5);} double sx_pos(const char*n){ return getv(n,1.5);} double sx_in(const char*n,double lo,double hi){ return getv(n,(lo+hi)/2);} double sx_open(const char*n,double lo,double hi){ return getv(n,(lo+hi)/2);} 
int sx_choice(const char*n,int k){ char b[120],c[120]; snprintf(c,120,"c:%s",n); snprintf(b,120," %s#%d=",n,count(c)); char*p=strstr(trail,b); if(!p){ printf("REPLAY-NOTE choice %s not in trail\n",n); printf("REPLAY-RESULT %s\n",fails?"fail":"diverged"); fflush(stdout); _exit(fails?3:4);} int v=atoi(p+strlen(b)); return v; }
double sx_real_or_nan(const char*n){ char c[100]; snprintf(c,100,"nan_%s",n); if(sx_choice(c,2)) return NAN; return sx_real(n); }
static void out(const char*why){ printf("REPLAY-NOTE assumption not met: %s\nREPLAY-RESULT %s\n",why,fails?"fail":"diverged"); fflush(stdout); _exit(fails?3:4); }
void sx_assume(int c){ if(!c) out("assume"); } void sx_assume_lt(double a,double b){ if(!(a<b+1e-12)) out("lt"); } void sx_assume_le(double a,double b){ if(!(a<=b+1e-9)) out("le"); } void sx_assume_ne(double a,double b){ if(a==b) out("ne"); } void sx_assume_eq(double a,double b){ if(!(fabs(a-b)<1e-9*(1+fabs(a)))) out("eq"); }
static void bad(const char*l,double a,double b){ fails++; printf("REPLAY-VIOLATION %s: left %.12g right %.12g\n",l,a,b); fflush(stdout); }
#ifndef SX_TOL
#define SX_TOL 1e-6
#endif
static int close_(double a,double b){ if(isnan(a)&&isnan(b)) return 1; if(isinf(a)||isinf(b)) return a==b; double m=fabs(a)>fabs(b)?fabs(a):fabs(b); return fabs(a-b)<=SX_TOL*(1+m); }
void sx_check(int c,const char*l){ if(!c) bad(l,0,1); } void sx_check_eq(double a,double b,const char*l){ if(!close_(a,b)) bad(l,a,b);} void sx_check_same(double a,double b,const char*l){ if(!close_(a,b)) bad(l,a,b);} void sx_check_lt(double a,double b,const char*l){ if(!(a<b)) bad(l,a,b);} void sx_check_le(double a,double b,const char*l){ if(!(a<=b+SX_TOL*(1+fabs(a)))) bad(l,a,b);} void sx_check_ne(double a,double b,const char*l){ if(a==b) bad(l,a,b);} 
void sx_reach(const char*l){} int sx_symbolic(void){ return 0; } void sx_debug(const char*n,double v){ printf("%s = %.15g\n",n,v); }
double sx_uf(double a){ return 0.123+0.01*a; }
double sx_alias(double d){return d;} double sx_unalias(double d){return d;}
double sx_deriv(double(*fn)(double,void*),void*p,double x){ double h=1e-4*(1+fabs(x)); double d1=(fn(x+h,p)-fn(x-h,p))/(2*h), d2=(fn(x+h/2,p)-fn(x-h/2,p))/h; return (4*d2-d1)/3; }
static void fin(void){ printf("REPLAY-RESULT %s\n",fails?"fail":"exit-called"); fflush(stdout); }
const char*__asan_default_options(void){ return "detect_leaks=0:handle_abort=1:exitcode=5:allocator_may_return_null=1:malloc_fill_byte=190:max_malloc_fill_size=4096:detect_stack_use_after_return=0"; }
int main(int argc,char**argv){ FILE*f=fopen(argv[1],"r"); if(!f){ perror(argv[1]); return 9; } char*line=NULL; size_t n=0; while(getline(&line,&n,f)>0){ line[strcspn(line,"\n")]=0; if(!strncmp(line,"trail",5)) { snprintf(trail,sizeof trail,"%s ",line+5); } else if(!strncmp(line,"val ",4)&&nval<2000){ char*sp=strrchr(line+4,' '); *sp=0; strncpy(val[nval].n,line+4,99); val[nval].v=atof(sp+1); nval++; } } fclose(f);
    atexit(fin); sx_main(); printf("REPLAY-RESULT %s\n",fails?"fail":"pass"); fflush(stdout); _exit(fails?3:0); }
