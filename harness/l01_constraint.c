/* Linear constraints. */
#include "hx.h"
#ifdef SX_THOROUGH
#define ND 4
#else
#define ND 3
#endif
static gsl_vector *vec(int n,const double*x){ gsl_vector *v=gsl_vector_alloc(n); for(int i=0;i<n;i++) gsl_vector_set(v,i,x[i]); return v; }
/* something else first: state kept between calls must not matter */
static void before(int n){ int k=sx_choice("earlier call",5); if(!k||(k==4&&n==1)) return; double b[5]={-1,-.001,-2,-3,-1}; gsl_vector *v=vec(k==3?n+1:k==4?n-1:n,b); if(k==2){ apop_data *c=apop_data_falloc((2,2,2),.5,1.,0.,.5,0.,1.); double y[2]={.4999,.4998}; gsl_vector *w=vec(2,y); apop_linear_constraint(w,c); } else apop_linear_constraint(v); }
static void orthant(void){ int n=1+sx_choice("size",ND),mg=sx_choice("margin",3); double b[5],m=mg==0?0:mg==1?.5:sx_pos("margin"); before(n); for(int i=0;i<n;i++) b[i]=sx_real("beta"); gsl_vector *v=vec(n,b); double p=mg?apop_linear_constraint(v,.margin=m):apop_linear_constraint(v),d=0; for(int i=0;i<n;i++){ double w=b[i]<m?m:b[i]; sx_check_eq(gsl_vector_get(v,i),w,"elements below the margin are brought to it, others are kept"); d+=(w-b[i])*(w-b[i]); } sx_check_eq(p,sqrt(d),"penalty is the distance moved"); sx_reach("orthant"); }
static void single(void){ int n=1+sx_choice("size",ND),mg=sx_choice("margin",3); double b[5],c[5],k=sx_real("k"),m=mg==0?0:mg==1?.25:sx_pos("margin"),dot=0,cc=0; before(n); apop_data *con=apop_data_alloc(1,1,n); gsl_vector_set(con->vector,0,k); for(int i=0;i<n;i++){ b[i]=sx_real("beta"); c[i]=i?sx_real("c"):1+sx_pos("c"); if(sx_choice("sign",2)) c[i]=-c[i]; gsl_matrix_set(con->matrix,0,i,c[i]); dot+=b[i]*c[i]; cc+=c[i]*c[i]; }
    gsl_vector *v=vec(n,b); double p=mg?apop_linear_constraint(v,con,.margin=m):apop_linear_constraint(v,.constraint=con); double edge=mg?k+m*sqrt(cc):k; if(dot<edge){ double s=(edge-dot)/cc; for(int i=0;i<n;i++) sx_check_eq(gsl_vector_get(v,i),b[i]+s*c[i],"the closest point of the border"); sx_check_eq(p*p,s*s*cc,"penalty is the distance moved"); sx_check_le(0,p,"penalty"); } else { for(int i=0;i<n;i++) sx_check_same(gsl_vector_get(v,i),b[i],"met: left alone"); sx_check(p==0,"met: no penalty"); }
    for(int i=0;i<n;i++) sx_check_same(gsl_matrix_get(con->matrix,0,i),c[i],"the constraint is kept"); sx_reach("one constraint"); }
/* two constraints in the plane: the closest point is on one border if that meets the other, else at the corner */
static const double sets[6][6]={{0,1,0, 0,0,1},{0,2,0, 1,0,3},{1,3,4, 0,-5,12},{-1,3,-4, 0,8,6},{0,4,-3, -2,12,-5},{-4,-3,-4, 0,1,0}};
static void two(void){ const double*s=sets[sx_choice("constraints",6)]; int mg=sx_choice("margin",2); double m=mg?.125:0,b[2]={sx_in("beta",-8,8),sx_in("beta",-8,8)}; before(2); apop_data *con=apop_data_alloc(2,2,2); double k[2],n[2]; for(int i=0;i<2;i++){ gsl_vector_set(con->vector,i,s[3*i]); n[i]=sqrt(s[3*i+1]*s[3*i+1]+s[3*i+2]*s[3*i+2]); k[i]=s[3*i]+m*n[i]; for(int j=0;j<2;j++) gsl_matrix_set(con->matrix,i,j,s[3*i+1+j]); }
    const double e=1e-9; double v[2],want[2]; for(int i=0;i<2;i++) v[i]=s[3*i+1]*b[0]+s[3*i+2]*b[1]; int in=v[0]>=k[0]&&v[1]>=k[1]; gsl_vector *g=vec(2,b); double p=mg?apop_linear_constraint(g,con,m):apop_linear_constraint(g,con); if(in){ sx_check_same(gsl_vector_get(g,0),b[0],"met: left alone"); sx_check_same(gsl_vector_get(g,1),b[1],"met: left alone"); sx_check(p==0,"met: no penalty"); sx_reach("two constraints"); return; }
    int done=0; for(int i=0;i<2&&!done;i++) if(v[i]<k[i]){ double t=(k[i]-v[i])/n[i]/n[i],q[2]={b[0]+t*s[3*i+1],b[1]+t*s[3*i+2]}; int o=1-i; if(s[3*o+1]*q[0]+s[3*o+2]*q[1]>=k[o]){ want[0]=q[0]; want[1]=q[1]; done=1; } }
    if(!done){ double det=s[1]*s[5]-s[2]*s[4]; want[0]=(k[0]*s[5]-s[2]*k[1])/det; want[1]=(s[1]*k[1]-k[0]*s[4])/det; }
    for(int i=0;i<2;i++){ double d=gsl_vector_get(g,i)-want[i]; sx_check_le(d,e,"the closest point that meets both"); sx_check_le(-e,d,"the closest point that meets both"); } double d0=want[0]-b[0],d1=want[1]-b[1]; sx_check_le(0,p,"penalty"); double q=p*p-(d0*d0+d1*d1); sx_check_le(q,1e-6,"penalty is the distance moved"); sx_check_le(-1e-6,q,"penalty is the distance moved"); sx_reach("two constraints"); }
void sx_main(void){ apop_opts.verbose=-1; int k=sx_choice("part",3); if(k==0) orthant(); else if(k==1) single(); else two(); }
