/* Raking: cells, rounds of scaling, margins, interaction kept, convergence. */
#include "hx.h"
#ifdef SX_THOROUGH
#define MAXIT 3
#define FEW(i) (i%2==0)
#else
#define MAXIT 2
#define FEW(i) (i%3==0)
#endif
#define C 27
static int nv,nl[3]; static int ncell; static int cell[C][3]; static double mw[C],iw[C]; static int inm[C],ini[C],zero[C];
static double w[C]; static int in[C];
static void grid(int v,int a,int b,int c){ nv=v; nl[0]=a; nl[1]=b; nl[2]=c; ncell=0; for(int i=0;i<a;i++) for(int j=0;j<(v>1?b:1);j++) for(int k=0;k<(v>2?c:1);k++){ cell[ncell][0]=i; cell[ncell][1]=j; cell[ncell][2]=k; inm[ncell]=ini[ncell]=zero[ncell]=0; mw[ncell]=iw[ncell]=0; ncell++; } }
static int same(int a,int b,int mask){ for(int v=0;v<nv;v++) if(mask>>v&1&&cell[a][v]!=cell[b][v]) return 0; return 1; }
static double val(int v,int i){ static const double k[3][3]={{1,2,3},{-1,.5,7},{10,20,30}}; return k[v][i]; }
static int nct,ct[4]; static char *cn[4];
static int seen(int c,int mask){ for(int i=0;i<ncell;i++) if(inm[i]&&same(i,c,mask)) return 1; return 0; }
/* possible cells: every contrast's combination is observed, every other variable's value is, and no structural zero */
static int possible(int c){ int used=0; for(int k=0;k<nct;k++){ if(!seen(c,ct[k])) return 0; used|=ct[k]; } for(int v=0;v<nv;v++) if(!(used>>v&1)&&!seen(c,1<<v)) return 0; return !zero[c]; }
/* iterative proportional fitting; returns whether it converged */
static int ipf(int maxit,double tol){ double X=0,Y=0; for(int i=0;i<ncell;i++){ if(inm[i]) X+=mw[i]; if(in[i]) Y+=w[i]; } for(int i=0;i<ncell;i++) if(in[i]) w[i]=w[i]*X/Y;
    for(int r=1;r<=maxit;r++){ double dev=0; for(int k=0;k<nct;k++){ int done[C]={0}; for(int c=0;c<ncell;c++) if(!done[c]){ double m=0,f=0; int any=0; for(int i=0;i<ncell;i++) if(same(i,c,ct[k])){ done[i]=1; if(inm[i]) m+=mw[i]; if(in[i]){ any=1; f+=w[i]; } } if(!any||f==0) continue; for(int i=0;i<ncell;i++) if(in[i]&&same(i,c,ct[k])) w[i]=w[i]*m/f; double d=fabs(f-m); if(d>dev) dev=d; } } if(dev<tol) return 1; }
    return 0; }
static const char *vn[]={"a","b","c"};
static void insert(const char*t,int useinit,int ones){ apop_table_exists(t,'d'); apop_query("create table %s (a%s%s, n)",t,nv>1?", b":"",nv>2?", c":""); for(int i=0;i<ncell;i++) if(useinit?ini[i]:inm[i]){ int rep=ones?mw[i]:1; for(int r=0;r<rep;r++){ char q[200]; int l=sprintf(q,"insert into %s values(%g",t,val(0,cell[i][0])); for(int v=1;v<nv;v++) l+=sprintf(q+l,", %g",val(v,cell[i][v])); if(ones) apop_query("%s, NULL)",q); else apop_query("%s, %.17g)",q,useinit?iw[i]:mw[i]); } } }
static void contrasts(int which){ nct=0; if(nv==1){ if(which){ ct[nct++]=1; } } else if(nv==2){ static const int s[5][3]={{2,1,2},{1,3},{1,2},{0},{2,2,1}}; nct=s[which][0]; for(int i=0;i<nct;i++) ct[i]=s[which][1+i]; } else { static const int s[4][4]={{2,3,6},{2,3,4},{3,1,2,4},{2,5,2}}; nct=s[which][0]; for(int i=0;i<nct;i++) ct[i]=s[which][1+i]; }
    for(int k=0;k<nct;k++){ char b[64]=""; for(int v=0;v<nv;v++) if(ct[k]>>v&1){ if(*b) strcat(b,k%2?" | ":"|"); strcat(b,vn[v]); } cn[k]=strdup(b); } }
static void check(apop_data*o,int maxit,double tol){
    int conv=ipf(maxit,tol),rows=0; for(int i=0;i<ncell;i++) rows+=in[i]; sx_check(o!=NULL,"a table"); if(!o) return; sx_check(o->matrix&&(int)o->matrix->size1==rows&&(int)o->matrix->size2==nv&&o->weights&&(int)o->weights->size==rows,"one row per possible cell"); if(!o->matrix||(int)o->matrix->size1!=rows) return; sx_check(o->error==(conv?0:'c'),"marked if and only if it did not converge"); for(int v=0;v<nv;v++) sx_check(v<o->names->colct&&!strcmp(o->names->col[v],vn[v]),"columns are the variables");
    double got[C]; int found[C]={0}; for(int r=0;r<rows;r++){ int at=-1; for(int i=0;i<ncell;i++){ int ok=1; for(int v=0;v<nv;v++) if(gsl_matrix_get(o->matrix,r,v)!=val(v,cell[i][v])) ok=0; if(ok) at=i; } sx_check(at>=0&&in[at]&&!found[at],"the possible cells, each once"); if(at<0) return; found[at]=1; got[at]=gsl_vector_get(o->weights,r); sx_check_eq(got[at],w[at],"weights are those of iterative proportional fitting"); } 
    if(conv&&nct){ int k=nct-1; for(int c=0;c<ncell;c++){ double m=0,f=0; int any=0; for(int i=0;i<ncell;i++) if(same(i,c,ct[k])){ if(inm[i]) m+=mw[i]; if(in[i]&&found[i]){ f+=got[i]; any|=1; } } if(any) sx_check_eq(f,m,"converged: margins match"); } } 
    sx_check(!apop_table_exists("apop_zerocontrasts_0"),"no table is left behind"); }
static void plain(void){
    int v=sx_choice("variables",3); if(v==0) grid(1,2,0,0); else if(v==1) grid(2,2,2,0); else grid(3,2,2,2); contrasts(sx_choice("contrasts",v==0?2:v==1?5:4)); int full=(1<<ncell)-1, mask=v==0?full: v==1?1+sx_choice("observed",full): sx_choice("observed",3); if(v==2){ static const int ms[]={255,0x7e,0xa9}; mask=ms[mask]; } for(int i=0;i<ncell;i++) if(mask>>i&1){ inm[i]=1; mw[i]=v<2&&(nct<2||(ct[0]==1&&mask!=7))||FEW(i)?sx_in("n",1,100):2+i; }
    int sz=v?sx_choice("structural zeros",v==1?3:2):0; if(sz) for(int i=0;i<ncell;i++) zero[i]=sz==1?cell[i][0]==0&&cell[i][1]==1:cell[i][0]==1; if(sz&&nct>1) for(int i=0;i<ncell;i++) if(inm[i]&&!FEW(i)) mw[i]=2+i; int any=0; for(int i=0;i<ncell;i++){ in[i]=possible(i); any|=in[i]; w[i]=1; } if(!any) return; if(v==2&&sz&&nct>1) { if(mask!=0xa9) return; }
    insert("mt",0,0); int it=sx_choice("rounds",3),list=sx_choice("list of variables",2); int maxit=it==0?1:it==1?MAXIT:1000; double tol=it==2?1e9:1e-5; char *z=sz==1?"a=1 and b=0.5":"a=2"; apop_data *o; char *vars[]={"a","b","c"}; if(list&&(it!=1||mask!=full||sz)) return;
#ifndef SX_THOROUGH
    if(v==1&&((it!=1&&mask!=(it?7:full))||(sz==2&&mask!=11&&mask!=full)||(nct>1&&ct[0]!=1&&mask!=9&&mask!=14))) return;
#endif
   
    if(it==2) o=sz?apop_rake(.margin_table="mt",.count_col="n",.contrasts=nct?cn:NULL,.contrast_ct=nct,.structural_zeros=z,.tolerance=tol):apop_rake("mt",.count_col="n",.contrasts=nct?cn:NULL,.contrast_ct=nct,.tolerance=tol);
    else if(list) o=apop_rake("mt",.var_list=vars,.var_ct=nv,.count_col="n",.contrasts=nct?cn:NULL,.contrast_ct=nct,.max_iterations=maxit,.structural_zeros=sz?z:NULL); else o=apop_rake("mt",.count_col="n",.contrasts=nct?cn:NULL,.contrast_ct=nct,.max_iterations=maxit,.structural_zeros=sz?z:NULL);
    check(o,maxit,tol); sx_reach("fully synthetic"); }
/* an initial table: its cells and counts, some zero, some absent from the margins; nudges */
static void init(void){
    grid(2,3,2,0); contrasts(sx_choice("contrasts",3)); static const int ms[]={15,9,7,63}; static const double is[4][6]={{1,2,3,4,0,0},{0,2,3,1,0,0},{5,0,0,2,1,3},{2,-1,-1,3,0,0}}; int m=sx_choice("observed",4),I=sx_choice("initial",5); for(int i=0;i<ncell;i++) if(ms[m]>>i&1){ inm[i]=1; mw[i]=FEW(i)?sx_in("n",1,100):2+i; } int own=I==4; /* I 4: counts in a column of the margin table itself */
    if(own&&m==3) return;
#ifndef SX_THOROUGH
    if(nct==2&&ct[0]==2&&I!=1) return;
#endif
    double nud=sx_choice("nudge",2)*.5; int sz=sx_choice("structural zeros",2); if(sz&&(nud||own)) return; for(int i=0;i<ncell;i++){ if(own){ ini[i]=inm[i]; iw[i]=1+i; } else { ini[i]=(i<4||is[I][i]>0)&&is[I][i]>=0; iw[i]=is[I][i]; } if(sz) zero[i]=i==1; }
    for(int i=0;i<ncell;i++){ in[i]=ini[i]&&!zero[i]; w[i]=iw[i]; if(nud){ if(in[i]&&w[i]==0) w[i]=nud; if(!in[i]&&possible(i)){ in[i]=1; w[i]=nud; } } for(int k=0;k<nct;k++) for(int v=0;v<nv;v++) if(ct[k]>>v&1&&!seen(i,1<<v)) w[i]=0; } double Y=0; for(int i=0;i<ncell;i++) if(in[i]) Y+=w[i]; if(Y==0) return;
    insert("mt",0,0); if(own){ apop_query("alter table mt add column k"); for(int i=0;i<ncell;i++) if(inm[i]) apop_query("update mt set k=%g where a=%g and b=%g",iw[i],val(0,cell[i][0]),val(1,cell[i][1])); } else insert("it",1,0);
    apop_data *o=own?apop_rake("mt",.count_col="n",.contrasts=cn,.contrast_ct=nct,.max_iterations=1,.init_count_col="k",.nudge=nud):apop_rake("mt",.var_list=(char*[]){"a","b"},.var_ct=2,.count_col="n",.contrasts=cn,.contrast_ct=nct,.max_iterations=1,.init_table="it",.init_count_col="n",.nudge=nud,.structural_zeros=sz?"a=1 and b=0.5":NULL); check(o,1,1e-5); sx_reach("initial table"); }
/* observation-level tables, counts of rows */
static void rows(void){ grid(2,2,2,0); contrasts(sx_choice("contrasts",2)*2); for(int i=0;i<ncell;i++){ mw[i]=sx_choice("rows",3); inm[i]=mw[i]>0; } int k=sx_choice("initial",2); for(int i=0;i<ncell;i++){ in[i]=k?inm[i]:possible(i); w[i]=k?mw[i]:1; } int any=0; for(int i=0;i<ncell;i++) any|=in[i]; if(!any) return; insert("mt",0,1); apop_data *o=k?apop_rake("mt",.var_list=(char*[]){"a","b"},.var_ct=2,.contrasts=cn,.contrast_ct=nct,.init_table="mt",.max_iterations=30):apop_rake("mt",.var_list=(char*[]){"a","b"},.var_ct=2,.contrasts=cn,.contrast_ct=nct,.max_iterations=30); check(o,30,1e-5); sx_reach("rows"); }
static void wide(void){ double n[2]={sx_in("n",1,100),sx_in("n",1,100)}; int k=5+sx_choice("variables",4); apop_table_exists("wt",'d'); char q[300]="create table wt(v0"; for(int i=1;i<k;i++) sprintf(q+strlen(q),",v%d",i); apop_query("%s,n)",q); for(int r=0;r<2;r++){ strcpy(q,"insert into wt values("); for(int i=0;i<k;i++) sprintf(q+strlen(q),"%d,",i==k-1?r:i); apop_query("%s %.17g)",q,n[r]); } char last[8]; sprintf(last,"v%d",k-1); apop_data *o=apop_rake("wt",.count_col="n",.contrasts=(char*[]){last},.contrast_ct=1); sx_check(o&&!o->error&&o->matrix&&(int)o->matrix->size2==k&&(int)o->matrix->size1==2,"every column is a variable"); if(o&&o->matrix) for(int r=0;r<2;r++) sx_check_eq(gsl_vector_get(o->weights,r),n[(int)gsl_matrix_get(o->matrix,r,k-1)],"margins"); sx_reach("many variables"); }
static void errs(void){ grid(2,2,2,0); contrasts(0); inm[0]=1; mw[0]=1; insert("mt",0,0); int k=sx_choice("error",5); apop_data *o=k==0?apop_rake(.count_col="n"):k==1?apop_rake("nosuch"):k==2?apop_rake("mt",.count_col="n",.contrasts=cn):k==3?apop_rake("mt",.count_col="n",.contrasts=cn,.contrast_ct=2,.init_table="nosuch"):apop_rake("mt",.count_col="n",.contrasts=(char*[]){"a","zz"},.contrast_ct=2); sx_check(o&&o->error==(k<4?'i':'q'),"wrong input is marked"); sx_reach("errors"); }
void sx_main(void){ apop_opts.verbose=-1; apop_db_open(":memory:"); int k=sx_choice("part",5); if(k==0) plain(); else if(k==1) init(); else if(k==2) rows(); else if(k==3) wide(); else errs(); }
