/* Data set -> database table -> data set. */
#include "hx.h"
static char types[16];
/* read the table back with one type letter per column */
static apop_data *readback(const ds *d, int rowcol){ int k=0; if(rowcol) types[k++]='n'; if(d->hasv) types[k++]='v'; for(int j=0;j<d->nc;j++) types[k++]='m'; for(int j=0;j<d->tc;j++) types[k++]='t'; if(d->hasw) types[k++]='w'; types[k]=0; return apop_query_to_mixed_data(types,"select * from %s","tab"); }
static void expect_names(ds *e){ /* names the table's columns get */ if(e->hasv){ if(!e->hasvn){ e->hasvn=1; strcpy(e->vn,"vector"); } } else e->hasvn=0; for(int j=e->cn;j<e->nc;j++) snprintf(e->c[j],24,"c%d",j); e->cn=e->nc; for(int j=e->tn;j<e->tc;j++) snprintf(e->t[j],24,"tc%d",j); e->tn=e->tc; }
static void rowname_title(ds *e,int rowcol,const char*nm){ e->hastitle=rowcol; if(rowcol) strcpy(e->title,nm); else e->rn=0; }
static void blanktext(ds *e,const char*s){ for(int i=0;i<e->tr;i++)for(int j=0;j<e->tc;j++) if(!e->text[i][j][0]||!strcasecmp(e->text[i][j],"NaN")) strcpy(e->text[i][j],s); }
static void nl(const apop_data *o,const ds *e){ /* row names column */ (void)o;(void)e; }
void sx_main(void){
    apop_opts.verbose=-1; hx_nonzero=1; int op=sx_choice("op",6); char buf[24];
    if(op==0){ /* everything the same height */
        int n=1+sx_choice("n",2),hv=sx_choice("v",2),nc=sx_choice("nc",3),tc=sx_choice("tc",3),hw=sx_choice("w",2),rn=sx_choice("rn",2),named=sx_choice("named",2); if(!hv&&!nc&&!tc&&!hw) return; if(rn&&!hv&&!nc) return; if(n==1&&!tc) hx_nonzero=0;
        ds a=hx_ds("a",hv?n:0,nc?n:0,nc,hw?n:0); if(named||rn) hx_names(&a,"a",rn?n:0,named?nc:0,named&&hv,0); if(tc) hx_text(&a,"a",n,tc,named); 
        if(hv&&nc&&sx_choice("nan",2)){ a.v[n-1]=NAN; a.m[0][nc-1]=NAN; if(hw) a.w[0]=tc?INFINITY:-INFINITY; if(tc) strcpy(a.text[n-1][tc-1],"nan"); }
        else if(tc&&sx_choice("odd text",2)) strcpy(a.text[0][0],"it's \"5%d\", 3.50");
        apop_data *d=hx_build(&a); apop_data_print(d,.output_name="tab",.output_type='d'); hx_check(d,&a,"input left alone",0);
        sx_check(apop_table_exists("tab")==1,"table exists"); apop_data *o=readback(&a,rn); ds e=a; expect_names(&e); rowname_title(&e,rn,"row_names"); blanktext(&e,"NaN"); hx_check(o,&e,"written and read",0); sx_reach("even");
        /* the same through the other readers */
        if(!tc&&!hw){ apop_data *q=apop_query_to_data("select * from tab"); sx_check(q!=NULL,"query to data"); if(q){ int vn=!!hv; ds f=a; f.hasv=f.hasvn=0; f.hasm=1; f.nr=n; f.nc=nc+vn; f.cn=nc+vn; for(int i=0;i<n;i++){ int k=0; if(hv) f.m[i][k++]=a.v[i]; for(int j=0;j<nc;j++) f.m[i][k++]=a.m[i][j]; } int k=0; if(hv) strcpy(f.c[k++],e.vn); for(int j=0;j<nc;j++) strcpy(f.c[k++],e.c[j]); f.hastitle=0; if(!rn) f.rn=0; hx_check(q,&f,"query to data",0);
            gsl_vector *v=apop_query_to_vector("select * from %s","tab"); double col[4]; for(int i=0;i<n;i++) col[i]=f.m[i][0]; hx_vec(v,col,n,"query to vector"); sx_check_same(apop_query_to_float("select * from tab"),f.m[0][0],"query to float"); } }
        if(tc&&!hv&&!nc&&!hw){ apop_data *q=apop_query_to_text("select * from tab"); ds f=a; f.tn=tc; memcpy(f.t,e.t,sizeof f.t); f.rn=0; blanktext(&f,"NaN"); hx_check(q,&f,"query to text",0); } }
    else if(op==1){ /* writing again: over, or at the end; other tables stay */
        int nc=1+sx_choice("nc",2),hv=sx_choice("v",2),rn=sx_choice("rn",2),n1=1+sx_choice("n1",2),n2=1+sx_choice("n2",2),mode=sx_choice("mode",2); apop_query("create table other (x)"); apop_query("insert into other values (7)");
        ds a=hx_ds("a",hv?n1:0,n1,nc,0),b=hx_ds("b",hv?n2:0,n2,nc,0); hx_names(&a,"a",rn?n1:0,nc,hv,0); hx_names(&b,"b",rn?n2:0,nc,hv,0); apop_data *d=hx_build(&a),*d2=hx_build(&b);
        apop_data_print(d,.output_name="tab",.output_type='d',.output_append='w'); apop_data_print(d2,.output_name="tab",.output_type='d',.output_append=mode?'a':'w');
        ds e; if(mode){ e=a; for(int i=0;i<n2;i++){ e.v[n1+i]=b.v[i]; for(int j=0;j<nc;j++) e.m[n1+i][j]=b.m[i][j]; strcpy(e.r[n1+i],b.r[i]); } if(hv) e.nv+=n2; e.nr+=n2; if(rn) e.rn+=n2; } else e=b; rowname_title(&e,rn,"row_names");
        hx_check(readback(&e,rn),&e,mode?"appended":"written over",0); sx_check_same(apop_query_to_float("select count(*) from other"),1,"other tables stay"); sx_check_same(apop_query_to_float("select x from other"),7,"other tables stay"); sx_reach("append"); }
    else if(op==2){ /* parts of differing heights: what is not there is missing, what is there stays in its row and column */
        int nv=sx_choice("nv",4),nr=sx_choice("nr",4),nc=nr?1+sx_choice("nc",2):0,tr=sx_choice("tr",4),nw=sx_choice("nw",4); int k=(nv>0)+(nr>0)+(tr>0)+(nw>0); if(k<2) return;
        ds a=hx_ds("a",nv,nr,nc,nw); if(tr) hx_text(&a,"a",tr,2,0); int n=nv>nr?nv:nr; if(tr>n) n=tr; if(nw>n) n=nw; apop_data *d=hx_build(&a); apop_data_print(d,.output_name="tab",.output_type='d');
        ds e=a; expect_names(&e); if(nv) e.nv=n; if(nr) e.nr=n; if(nw) e.nw=n; if(tr) e.tr=n; for(int i=0;i<n;i++){ if(i>=nv) e.v[i]=NAN; if(i>=nw) e.w[i]=NAN; for(int j=0;j<nc;j++) if(i>=nr) e.m[i][j]=NAN; if(tr&&i>=tr) for(int j=0;j<2;j++) e.text[i][j][0]=0; } blanktext(&e,"NaN"); hx_check(readback(&e,0),&e,"uneven parts",0); sx_reach("uneven"); }
    else if(op==3){ /* where row names go */
        int kind=sx_choice("name column",3),part=sx_choice("parts",4); int n=2; ds a=hx_ds("a",part==0?n:0,part==1||part==3?n:0,part==1||part==3?2:0,part==3?n:0); hx_names(&a,"a",n,part==1||part==3?2:0,part==0,0); if(part>=2) hx_text(&a,"a",n,2,1); int some=sx_choice("row names",3); if(some==1) a.rn=1; if(some==2) a.r[0][0]=0;
        if(kind==1) apop_opts.db_name_column="rid"; else if(kind==2) apop_opts.db_name_column=sx_choice("blank",2)?"":NULL;
        apop_data *d=hx_build(&a); apop_data_print(d,.output_name="tab",.output_type='d'); int rowcol= kind<2&&some!=1; 
        if(some==1&&kind<2){ /* partly named: the names may or may not be written; the rest must be */ apop_data *q=apop_query_to_text("select * from tab"); sx_check(q!=NULL,"a table"); if(!q) return; int w=(part==0)+2*(part==1||part==3)+2*(part>=2)+(part==3); char *s[8]; int m=0; if(part==0) s[m++]=a.vn; if(part==1||part==3){ s[m++]=a.c[0]; s[m++]=a.c[1]; } if(part>=2){ s[m++]=a.t[0]; s[m++]=a.t[1]; } if(part==3) s[m++]="weights"; int have=0; for(int i=0;i<m;i++) for(int j=0;j<q->names->textct;j++) if(!strcmp(q->names->text[j],s[i])) have++; sx_check(have==w,"columns"); 
            if(part==1||part==3){ apop_data *z=apop_query_to_data("select ac0, ac1 from tab"); ds e=a; e.hasw=0; e.rn=0; e.tr=e.tc=e.tn=0; hx_check(z,&e,"matrix beside partial names",0); } sx_reach("partly named"); return; }
        ds e=a; expect_names(&e); rowname_title(&e,rowcol,kind==1?"rid":"row_names"); blanktext(&e,"NaN"); if(rowcol&&some==2) strcpy(e.r[0],"NaN"); hx_check(readback(&a,rowcol),&e,"row names",0); sx_reach("row names"); }
    else if(op==4){ /* unusual column names survive */
        ds a=hx_ds("a",2,2,2,0); hx_names(&a,"a",0,2,1,0); hx_text(&a,"a",2,2,1); int k=sx_choice("name",5); static const char *odd[]={"two words","5th","select","a-b","a.b"}; int at=sx_choice("where",3); strcpy(at==0?a.vn:at==1?a.c[1]:a.t[1],odd[k]); apop_data *d=hx_build(&a); apop_data_print(d,.output_name="tab",.output_type='d'); ds e=a; blanktext(&e,"NaN"); hx_check(readback(&a,0),&e,"unusual column names",0); sx_reach("odd names"); }
    else { /* existence and removal */
        int k=sx_choice("kind",4),rm=sx_choice("remove",3); if(k==3){ sx_check(apop_table_exists("t",'d')==0,"no database, no table"); sx_check(apop_table_exists(NULL)==-1,"NULL name"); return; } apop_query("create table tt (a)"); apop_query("insert into tt values (5)"); apop_query("create table keep (a)"); if(k==1) apop_query("create view t as select * from tt"); else if(k==2) apop_query("create table t (b)");
        int is=k>0; sx_check((rm==0?apop_table_exists("t"):rm==1?apop_table_exists("t",'n'):apop_table_exists("t",.remove='d'))==is,"found"); sx_check(apop_table_exists("t")==(is&&rm<2),"removed if asked"); sx_check(apop_table_exists("keep")==1&&apop_table_exists("tt")==1&&apop_query_to_float("select a from tt")==5,"others stay"); sx_check(apop_table_exists("T t")==0,"no such table");
        /* reopening a database on disk */ 
        sx_check(apop_db_close()==0,"closed"); char f[]="/tmp/sxdbXXXXXX"; int fd=mkstemp(f); if(fd<0) return; ds a=hx_ds("a",0,2,2,0); hx_names(&a,"a",2,2,0,0); apop_data *d=hx_build(&a); sx_check(apop_db_open(f)==0,"opened"); sx_check(apop_table_exists("keep")==0,"a fresh database"); apop_data_print(d,.output_name="tab",.output_type='d'); sx_check((rm?apop_db_close('v'):apop_db_close())==0,"closed"); sx_check(apop_table_exists("tab")==0,"closed databases have no tables"); apop_db_open(f); hx_check(apop_query_to_data("select * from tab"),&a,"kept on disk",0); apop_db_close(); remove(f); sx_reach("existence"); }
    (void)buf; (void)nl;
}
