/* Queries: how the rows and columns of a result are laid out. */
#include "hx.h"
static void ins(const ds *a,int n,int nc){ apop_data *d=hx_build(a); apop_data_print(d,.output_name="src",.output_type='d'); (void)n;(void)nc; }
void sx_main(void){
    apop_opts.verbose=-1; hx_nonzero=1; int op=sx_choice("op",7);
    if(op==0){ /* query to data: the name column anywhere, blanks, the missing-value word */
        int n=1+sx_choice("n",3),nc=sx_choice("nc",4),at=sx_choice("name at",5); /* 4: no names */ if(at<4&&at>nc) return; if(!nc&&at==4) return; int nul=sx_choice("null",4); if(nul&&nc<1) return; if(nul==3&&n<2) return;
        ds a=hx_ds("a",0,n,nc,0); hx_names(&a,"a",at<4?n:0,nc,0,0); a.hasm=nc>0; if(!nc) a.nr=0; 
        apop_query("create table t (rowid_, %s, x0, x1, x2)","row_names"); apop_opts.nan_string= nul==2?"Missing":"NaN";
        for(int i=0;i<n;i++){ apop_query("insert into t values (%i, '%s', %s, %s, %s)",i,at<4?a.r[i]:"zz","NULL","NULL","NULL"); for(int j=0;j<nc;j++){ if(nul&&((i+j)%2==0)){ a.m[i][j]=NAN; if(nul==2) apop_query("update t set x%i = 'MISSING' where rowid_=%i",j,i); if(nul==3&&i==1) apop_query("update t set x%i = 'NULL' where rowid_=%i",j,i); } else apop_query("update t set x%i = %.17g where rowid_=%i",j,a.m[i][j],i); } }
        char q[300]="select "; int first=1; for(int j=0;j<=nc;j++){ if(at==j){ strcat(q,first?"":", "); strcat(q,sx_choice("case",2)?"row_names":"row_names as ROW_NAMES"); first=0; } if(j<nc){ char b[60]; sprintf(b,"%sx%d as ac%d",first?"":", ",j,j); strcat(q,b); first=0; } }
        apop_data *o=apop_query_to_data("%s from t order by rowid_",q); hx_check(o,&a,"query to data",0); sx_reach("data"); 
        if(nc){ double col[3]; for(int i=0;i<n;i++) col[i]=a.m[i][0]; hx_vec(apop_query_to_vector("%s from t order by rowid_",q),col,n,"query to vector"); sx_check_same(apop_query_to_float("%s from t order by rowid_",q),a.m[0][0],"query to float"); } }
    else if(op==1){ /* no rows; errors */
        apop_query("create table t (row_names, a, b)"); int bad=sx_choice("bad",2); const char *q= bad?"select nothing from nowhere":"select * from t"; 
        apop_data *d=apop_query_to_data("%s",q); sx_check(bad?d&&d->error=='q':!d,"data"); d=apop_query_to_text("%s",q); sx_check(bad?d&&d->error=='q':!d,"text"); d=apop_query_to_mixed_data("nmt","%s",q); sx_check(bad?d&&d->error=='q':!d,"mixed"); sx_check(isnan(apop_query_to_float("%s",q)),"float"); sx_check(apop_query_to_vector("%s",q)==NULL,"vector"); sx_check((apop_query("%s",q)!=0)==bad,"query status"); apop_opts.db_name_column=sx_choice("noname",2)?NULL:"row_names"; apop_query("insert into t values ('x', 1, 2)"); sx_check(apop_query_to_vector("select row_names from t where 0")==NULL,"vector of no rows"); gsl_vector *v=apop_query_to_vector("select row_names from t"); if(apop_opts.db_name_column) sx_check(v==NULL,"no columns beside the names"); d=apop_query_to_mixed_data(NULL,"select 1"); sx_check(d&&d->error=='t',"no type list"); sx_reach("none"); }
    else if(op==2){ /* text */
        int n=1+sx_choice("n",3),nc=1+sx_choice("nc",2),at=sx_choice("name at",4); if(at<3&&at>nc) return; ds a; memset(&a,0,sizeof a); hx_text(&a,"a",n,nc,1); if(at<3){ hx_names(&a,"a",n,0,0,0); } int w=sx_choice("nan word",2); apop_opts.nan_string=w?"NaN":"."; apop_query("create table t (k, row_names, x0, x1)"); for(int i=0;i<n;i++){ apop_query("insert into t values (%i, '%s', NULL, NULL)",i,a.r[i]); for(int j=0;j<nc;j++){ if((i+j)%2){ strcpy(a.text[i][j],apop_opts.nan_string); } else { strcpy(a.text[i][j],"50% o'clock \"x\""); apop_query("update t set x%i='50%% o''clock \"x\"' where k=%i",j,i); } } }
        char q[200]="select "; int first=1; for(int j=0;j<=nc;j++){ if(at==j){ strcat(q,first?"":", "); strcat(q,w?"row_names":"row_names as Row_Names"); first=0; } if(j<nc){ char b[40]; sprintf(b,"%sx%d as atn%d",first?"":", ",j,j); strcat(q,b); first=0; } } hx_check(apop_query_to_text("%s from t order by k",q),&a,"query to text",0); sx_reach("text"); }
    else if(op==3){ /* mixed: the letters in any order */
        int n=1+sx_choice("n",2); static const char *pat[]={"nvmtw","wtmvn","mm","tt","v","w","n","tmtm","mvm","wm","nt","NVMTW","vt","tw"}; const char *p=pat[sx_choice("pattern",14)]; int L=strlen(p); ds a; memset(&a,0,sizeof a); double val[2][6]; for(int i=0;i<n;i++) for(int j=0;j<L;j++) val[i][j]=sx_real("x");
        int hole=sx_choice("holes",2); apop_query("create table t (k, x0, x1, x2, x3, x4)"); 
        for(int i=0;i<n;i++){ apop_query("insert into t values (%i, NULL,NULL,NULL,NULL,NULL)",i); int m=0,t=0; for(int j=0;j<L;j++){ int nul=hole&&(i+j)%2==0; char c=p[j]|32; char txt[24]; sprintf(txt,"s%d.%d",i,j); if(nul){ val[i][j]=NAN; strcpy(txt,"NaN"); } if(!nul){ if(c=='n'||c=='t') apop_query("update t set x%i='%s' where k=%i",j,txt,i); else apop_query("update t set x%i=%.17g where k=%i",j,val[i][j],i); }
            if(c=='n'){ a.rn=n; strcpy(a.r[i],txt); } if(c=='v'){ a.hasv=1; a.nv=n; a.v[i]=val[i][j]; a.hasvn=1; sprintf(a.vn,"x%d",j); } if(c=='m'){ a.hasm=1; a.nr=n; a.m[i][m]=val[i][j]; sprintf(a.c[m],"x%d",j); m++; a.nc=a.cn=m; } if(c=='t'){ strcpy(a.text[i][t],txt); a.tr=n; sprintf(a.t[t],"x%d",j); t++; a.tc=a.tn=t; } if(c=='w'){ a.hasw=1; a.nw=n; a.w[i]=val[i][j]; } } }
        char q[100]="select x0"; for(int j=1;j<L;j++){ char b[20]; sprintf(b,", x%d",j); strcat(q,b); } apop_data *o=apop_query_to_mixed_data(p,"%s from t order by k",q); a.hastitle=o&&o->names&&o->names->title; if(a.hastitle) strcpy(a.title,o->names->title); hx_check(o,&a,"mixed",0); sx_check(o&&!o->error,"no error"); sx_reach("mixed"); }
    else if(op==4){ /* counts of columns that disagree */
        int n=2,k=sx_choice("columns",4); ds a=hx_ds("a",0,n,4,0); apop_query("create table t (x0,x1,x2,x3)"); for(int i=0;i<n;i++) apop_query("insert into t values (%.17g,%.17g,%.17g,%.17g)",a.m[i][0],a.m[i][1],a.m[i][2],a.m[i][3]); static const char *q[]={"x0","x0,x1","x0,x1,x2","x0,x1,x2,x3"}; const char *types=sx_choice("types",2)?"vm":"mm"; int v=*types=='v'; apop_data *o=apop_query_to_mixed_data(types,"select %s from t",q[k]); sx_check(o!=NULL,"a result"); if(!o) return; if(k==1) sx_check(!o->error,"counts agree"); else sx_check(o->error=='d',"counts disagree"); 
        if(v){ sx_check(o->vector&&o->vector->size>0,"vector"); sx_check_same(gsl_vector_get(o->vector,0),a.m[0][0],"first column"); } else if(o->matrix) sx_check_same(gsl_matrix_get(o->matrix,0,0),a.m[0][0],"first column"); if(k>=1&&o->matrix) sx_check_same(gsl_matrix_get(o->matrix,0,v?0:1),a.m[0][1],"second column"); if(k==1){ sx_check((int)o->matrix->size1==n,"rows"); sx_check_same(gsl_matrix_get(o->matrix,1,v?0:1),a.m[1][1],"second row"); } sx_reach("disagree"); }
    else if(op==5){ /* a missing row name keeps the names that follow with their rows */
        int hole=sx_choice("hole",3),how=sx_choice("reader",3); ds a=hx_ds("a",0,3,1,0); hx_names(&a,"a",3,1,0,0); apop_query("create table t (row_names, ac0)"); for(int i=0;i<3;i++) if(i==hole) apop_query("insert into t values (NULL, %.17g)",a.m[i][0]); else apop_query("insert into t values ('%s', %.17g)",a.r[i],a.m[i][0]); apop_data *o= how==0?apop_query_to_data("select * from t"):how==1?apop_query_to_text("select * from t"):apop_query_to_mixed_data("nm","select * from t"); sx_check(o!=NULL,"a result"); if(!o) return; sx_check(o->names->rowct==3,"a name slot per row"); if(o->names->rowct==3) for(int i=0;i<3;i++) if(i!=hole) sx_check(!strcmp(o->names->row[i],a.r[i]),"names stay with their rows"); if(how!=1) for(int i=0;i<3;i++) sx_check_same(gsl_matrix_get(o->matrix,i,0),a.m[i][0],"values"); sx_reach("missing name"); }
    else { /* printf-style queries, and statements */
        double x=sx_real("x"),y=sx_real("y"); const char *t="tab"; int n=sx_choice("n",3); sx_check(apop_query("create table %s (id, val, note)",t)==0,"created"); sx_check(apop_query("insert into %s values (%i, %.17g, '%s')",t,1,x,"100%")==0,"inserted"); sx_check(apop_query("insert into %s values (%i, %.17g, '%s')",t,2,y,"a")==0,"inserted"); sx_check_same(apop_query_to_float("select val from %s where id=%i",t,1),x,"first"); sx_check_same(apop_query_to_float("select val from %s where id=%i",t,2),y,"second"); double want[2]={x,y}; gsl_vector *v=apop_query_to_vector("select val from %s where id <= %i order by id",t,n); hx_vec(v,want,n,"rows asked for"); apop_data *s=apop_query_to_text("select note from %s where id=%i",t,1); sx_check(s&&!strcmp(*s->text[0],"100%"),"text with a percent sign"); apop_data *m=apop_query_to_mixed_data("tv","select note, val from %s where id=%i",t,2); sx_check(m&&!strcmp(*m->text[0],"a"),"mixed"); if(m&&m->vector) sx_check_same(gsl_vector_get(m->vector,0),y,"mixed"); apop_data *e=apop_query_to_text("select '100%%' as a"); sx_check(e&&!strcmp(*e->text[0],"100%"),"escaped percent sign"); apop_query("begin; insert into tab values (3, 1, 'z'); insert into tab values (4, 1, 'z'); commit;"); sx_check_same(apop_query_to_float("select count(*) from tab"),4,"several statements"); sx_reach("printf"); }
    (void)ins;
}
