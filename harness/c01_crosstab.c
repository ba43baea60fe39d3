/* Crosstabs from and to the database. */
#include "hx.h"
#ifdef SX_THOROUGH
#define NR 4
#else
#define NR 3
#endif
static const char *rv[]={"x","it's","NULL","X"},*cv[]={"10","9","b"};
static void from(void){
    int n=1+sx_choice("rows",NR),hasnull=0; double v[6]; int r[6],c[6],nul[6]; apop_query("create table t (rr,cc,v)"); for(int i=0;i<n;i++){ r[i]=sx_choice("row value",i==1?4:i?3:2); c[i]=sx_choice("column value",i?3:1); for(int j=0;j<i;j++) if(r[j]==r[i]&&c[j]==c[i]) return; nul[i]=i==1&&sx_choice("missing",2); hasnull|=nul[i]; v[i]=nul[i]?NAN:sx_real("v"); char *rt=r[i]==1?"'it''s'":r[i]==2?"NULL":r[i]==3?"'X'":"'x'",*ctx=c[i]==0?"10":c[i]==1?"9":"'b'"; if(nul[i]) apop_query("insert into t values(%s,%s,NULL)",rt,ctx); else apop_query("insert into t values(%s,%s,%.17g)",rt,ctx,v[i]); }
    int word=n==2?sx_choice("word",2):0; apop_opts.nan_string=word?".":"NaN"; apop_opts.db_name_column="nm"; int form=sx_choice("form",6); apop_data *o;
    if(form==0) o=apop_db_to_crosstab("t","rr","cc","v"); else if(form==1) o=apop_db_to_crosstab("t",.row="rr",.col="cc",.data="sum(v)"); else if(form==2) o=apop_db_to_crosstab("t","rr","cc","max(v)",'y'); else if(form==3) o=apop_db_to_crosstab("t","rr","cc"); else if(form==4) o=apop_db_to_crosstab("t",.row="rr"); else o=apop_db_to_crosstab("t",.col="cc");
    sx_check(!strcmp(apop_opts.db_name_column,"nm"),"options kept"); sx_check(o&&!o->error&&o->matrix,"a table"); if(!o||!o->matrix) return;
    /* distinct values in the database's order: missing, numbers, text */
    static const int ro[]={2,3,1,0},co[]={1,0,2}; int R=0,K=0,ri[4],ki[3]; for(int q=0;q<4;q++){ int at=0; for(int i=0;i<n;i++) at|=r[i]==ro[q]; if(at) ri[R++]=ro[q]; if(q==3) break; at=0; for(int i=0;i<n;i++) at|=c[i]==co[q]; if(at) ki[K++]=co[q]; } int rows=form==5?1:R,cols=form==4?1:K;
    sx_check((int)o->matrix->size1==rows&&(int)o->matrix->size2==cols&&o->names->rowct==rows&&o->names->colct==cols,"one row and column per distinct value"); if((int)o->matrix->size1!=rows||(int)o->matrix->size2!=cols||o->names->rowct!=rows||o->names->colct!=cols) return;
    for(int i=0;i<rows;i++) sx_check(!strcmp(o->names->row[i],form==5?"1":ri[i]==2?apop_opts.nan_string:rv[ri[i]]),"row names"); for(int j=0;j<cols;j++) sx_check(!strcmp(o->names->col[j],form==4?"1":cv[ki[j]]),"column names");
    for(int i=0;i<rows;i++) for(int j=0;j<cols;j++){ double g=gsl_matrix_get(o->matrix,i,j); int hit=-1,ct=0; for(int q=0;q<n;q++) if((form==5||r[q]==ri[i])&&(form==4||c[q]==ki[j])){ hit=q; ct++; } if(form>=3) sx_check(g==ct,"counts"); else if(hit<0) sx_check(g==0,"no observation: zero"); else if(nul[hit]) sx_check(isnan(g),"missing values are NaN"); else sx_check_same(g,v[hit],"cells"); }
    sx_reach("from the database"); }
static int rowat(apop_data*o,const char*r,const char*c){ for(size_t i=0;i<o->textsize[0];i++) if(!strcmp(o->text[i][0],r)&&!strcmp(o->text[i][1],c)) return i; return -1; }
static void to(void){
    int m=sx_choice("matrix rows",4),k=m?1+sx_choice("matrix columns",3):0,tr=sx_choice("text rows",3),tc=tr?1+sx_choice("text columns",2):0; if(m==3) m=12; if(m==12&&(k==2||tr)) return; if(m==12&&k==3){ m=1; k=11; } int rn=sx_choice("row names",3),cn=tr?rn:sx_choice("column names",3); apop_data *d=apop_data_alloc(m,k); double v[12][12]; for(int i=0;i<m;i++) for(int j=0;j<k;j++){ v[i][j]=(i+j)%4==3?NAN:sx_real("v"); if(!isnan(v[i][j])) sx_assume_ne(v[i][j],0); if(m==2&&k==2&&i+j==0&&rn<2) v[i][j]=1234567.0625; if(m<4&&i==0&&j==1&&!rn&&!cn){ int q=sx_choice("infinite",3); if(q) v[i][j]=q==1?INFINITY:-INFINITY; } gsl_matrix_set(d->matrix,i,j,v[i][j]); }
    if(tr) apop_text_alloc(d,tr,tc); for(int i=0;i<tr;i++) for(int j=0;j<tc;j++) apop_text_set(d,i,j,i+j==1?"":i+j==2?"o'clock":"w%d",i); int big=m>tr?m:tr; for(int i=0;i<big&&i<rn;i++) apop_name_add(d->names,i?"it's":"first",'r'); for(int j=0;j<k&&j<cn;j++) apop_name_add(d->names,j?"c'":"one",'c'); for(int j=0;j<tc&&j<cn;j++) apop_name_add(d->names,j?"t'":"txt",'t');
    apop_crosstab_to_db(d,"o","r","c","v"); apop_data *o=apop_query_to_text("select r,c,typeof(v) from o"); int want=m*k+tr*tc; if(!want){ sx_check(!o&&apop_table_exists("o"),"an empty table"); sx_reach("to the database"); return; } sx_check(o&&!o->error&&(int)o->textsize[0]==want,"one row per cell"); if(!o||(int)o->textsize[0]!=want) return; sx_check(!strcmp(o->names->text[0],"r")&&!strcmp(o->names->text[1],"c"),"columns");
    for(int i=0;i<m;i++) for(int j=0;j<k;j++){ char r[24],c[24]; sprintf(r,i<rn&&i<big?(i?"it's":"first"):"r%d",i); sprintf(c,j<cn?(j?"c'":"one"):"c%d",j); int a=rowat(o,r,c); sx_check(a>=0,"names, or r and c with the position"); if(a<0) return; apop_data *x=apop_query_to_data("select v from o where rowid=%d",a+1); sx_check(x&&x->matrix,"a cell"); double g=gsl_matrix_get(x->matrix,0,0); if(isnan(v[i][j])) sx_check(isnan(g),"missing"); else if(isinf(v[i][j])) sx_check(g==v[i][j],"infinite"); else sx_check_same(g,v[i][j],"the value"); }
    for(int i=0;i<tr;i++) for(int j=0;j<tc;j++){ char r[24],c[24],w[24]; sprintf(r,i<rn?(i?"it's":"first"):"r%d",i); sprintf(c,j<cn?(j?"t'":"txt"):"t%d",j); sprintf(w,i+j==1?"":i+j==2?"o'clock":"w%d",i); int a=rowat(o,r,c); sx_check(a>=0,"text cells"); if(a<0) return; apop_data *x=apop_query_to_text("select v from o where rowid=%d",a+1); sx_check(x&&!strcmp(x->text[0][0],w),"the text"); }
    if(m&&!tr&&m*k<5){ int bad=0; for(int i=0;i<m;i++) for(int j=0;j<k;j++) bad|=isnan(v[i][j])||isinf(v[i][j]); apop_data *b=apop_db_to_crosstab("o","r","c","v"); sx_check(b&&b->matrix&&(int)b->matrix->size1==m&&(int)b->matrix->size2==k,"round trip"); if(!bad) for(int i=0;i<m;i++) for(int j=0;j<k;j++){ char r[24],c[24]; sprintf(r,i<rn&&i<big?(i?"it's":"first"):"r%d",i); sprintf(c,j<cn?(j?"c'":"one"):"c%d",j); sx_check_same(apop_data_get(b,.rowname=r,.colname=c),v[i][j],"round trip"); } }
    sx_reach("to the database"); }
static void odd(void){ int k=sx_choice("odd",4); apop_query("create table t (rr,cc,v)"); apop_opts.db_name_column="nm"; apop_data *o; if(k==0){ o=apop_db_to_crosstab("t","rr","cc","v"); sx_check(!o,"no rows: NULL"); } else if(k==1){ o=apop_db_to_crosstab("nosuch","rr","cc","v"); sx_check(o&&o->error=='q',"a failed query is marked"); } else if(k==2) sx_check(!apop_db_to_crosstab(.row="rr"),"no table: NULL"); else { apop_query("insert into t values('a','b',1)"); o=apop_db_to_crosstab("t","rr","zz","v"); sx_check(o&&o->error=='q',"a failed query is marked"); } sx_check(!strcmp(apop_opts.db_name_column,"nm"),"options kept"); sx_reach("odd"); }
void sx_main(void){ apop_opts.verbose=-1; apop_db_open(":memory:"); int k=sx_choice("part",3); if(k==0) from(); else if(k==1) to(); else odd(); }
