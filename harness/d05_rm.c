/* Removing rows and columns keeps exactly the others, in order, each still with its own names, text, weight. */
#include "hx.h"
static void cpy(char *a, const char *b){ snprintf(a,24,"%s",b); }
static int fn(apop_data *row, void *p){ int *k=p; (*k)++; return !strcmp(row->names->row[0],"ar1"); }
static void keeprows(ds *e, const ds *a, const int *keep, int r){ int n=0; for(int i=0;i<r;i++) if(keep[i]){ e->v[n]=a->v[i]; e->w[n]=a->w[i]; cpy(e->r[n],a->r[i]); for(int j=0;j<a->nc;j++) e->m[n][j]=a->m[i][j]; for(int j=0;j<a->tc;j++) cpy(e->text[n][j],a->text[i][j]); n++; }
    if(a->hasv) e->nv=n; if(a->hasm) e->nr=n; if(a->hasw) e->nw=n; if(a->rn) e->rn=n; if(a->tr) e->tr=n;
    if(!n){ e->hasv=e->hasm=e->hasw=0; e->nc=0; e->tr=e->tc=0; } }
void sx_main(void){
    apop_opts.verbose=-1;
    int op=sx_choice("op",4);
    int r=3,c=2,parts=sx_choice("parts",5),named=sx_choice("named",2),txt=sx_choice("text",2);
    int v=parts!=0&&parts!=4, m=parts!=1, w=parts>=3;
    if (op<2){
        ds a=hx_ds("a",v?r:0,m?r:0,m?c:0,w?r:0); if(named||op) hx_names(&a,"a",r,m?c:0,v,0); if(txt) hx_text(&a,"a",r,2,1);
        apop_data *x=hx_build(&a); int drop[3],keep[3]; for(int i=0;i<r;i++){ drop[i]=sx_choice("drop",2)*(i+1); keep[i]=!drop[i]; }
        int calls=0; apop_data *o;
        if (op==0) o=apop_data_rm_rows(x,.drop=drop); else { for(int i=0;i<r;i++) if(i==1) keep[i]=0; o=apop_data_rm_rows(x,.drop=drop,.do_drop=fn,.drop_parameter=&calls); sx_reach("function"); }
        ds e=a; keeprows(&e,&a,keep,r); sx_check(o==x,"returns its input"); hx_check(o,&e,"rows kept",0);
        if(!keep[0]&&!keep[1]&&!keep[2]) sx_reach("all dropped"); if (named||op) for(int i=0;i<e.rn;i++) sx_check(apop_name_find(o->names,e.r[i],'r')==i,"row name still found");
        sx_reach("rows");
    } else if (op==2){ c=3; if(txt||parts!=2) return;
        ds a=hx_ds("a",r,r,c,r); if(named) hx_names(&a,"a",r,c,1,0); int bl=named?sx_choice("blank name",4):3; if(bl<3) a.c[bl][0]=0; hx_text(&a,"a",r,2,1); apop_data *x=hx_build(&a); int drop[3],n=0; ds e=a;
        for(int j=0;j<c;j++){ drop[j]=sx_choice("drop",2)*(j+1); if(!drop[j]){ for(int i=0;i<r;i++) e.m[i][n]=a.m[i][j]; cpy(e.c[n],a.c[j]); n++; } }
        e.nc=n; if(named) e.cn=n; if(!n){ e.hasm=0; e.nr=0; }
        apop_data_rm_columns(x,drop); hx_check(x,&e,"columns kept",0); for(int i=0;i<e.cn;i++) if(e.c[i][0]) sx_check(apop_name_find(x->names,e.c[i],'c')==i,"column name still found"); sx_reach("cols");
    } else { c=3; if(txt||parts!=2||!named) return;
        ds a=hx_ds("a",r,r,c,0); hx_names(&a,"a",r,c,1,0); int dup=sx_choice("dup",2); if(dup) cpy(a.c[2],"AC0"); apop_data *x=hx_build(&a); char *list[6]; int n=0; int keep[3];
        for(int j=0;j<2;j++){ keep[j]=sx_choice("want",2); if(keep[j]) list[n++]=j?"Ac1":"aC0"; } keep[2]=dup?0:sx_choice("want",2); if(keep[2]) list[n++]="aC2"; if(sx_choice("typo",2)) list[n++]="zz"; list[n]=NULL;
        /* order of the request does not matter */
        if (n>1&&sx_choice("swap",2)){ char *t=list[0]; list[0]=list[n-1]; list[n-1]=t; }
        ds e=a; int k=0; for(int j=0;j<c;j++) if(keep[j]){ for(int i=0;i<r;i++) e.m[i][k]=a.m[i][j]; cpy(e.c[k],a.c[j]); k++; } e.nc=e.cn=k; if(!k){ e.hasm=0; e.nr=0; }
        apop_data *o=apop_data_prune_columns_base(x,list); sx_check(o==x,"returns its input"); hx_check(o,&e,"named columns kept",0); sx_reach("prune"); }
}
