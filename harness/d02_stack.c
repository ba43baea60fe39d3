/* Stacking: every row/column of both inputs appears once, in order, with its name; inputs untouched unless in place. */
#include "hx.h"
static void cpy(char *a, const char *b){ snprintf(a,24,"%s",b); }
void sx_main(void){
    apop_opts.verbose=-1;
    int col=sx_choice("posn",2), inplace=sx_choice("inplace",2), parts=sx_choice("parts",6), nstyle=sx_choice("names",5), txt=sx_choice("text",3);
    if (parts==0 && nstyle<2 && sx_choice("with itself, or text that does not match",2)){
        int c2=1+sx_choice("c1",2), bad=txt?sx_choice("text off by",2):0; if (txt&&inplace) return; ds a=hx_ds("a",0,2,c2,0); if (nstyle) hx_names(&a,"a",2,c2,0,0); if (txt) hx_text(&a,"a",2,2,0); apop_data *x=hx_build(&a), *pg=apop_data_alloc(1);
        if (txt){ ds b=a; hx_text(&b,"b",col?(bad?1:3):2,col?2:(bad?1:3),0); apop_data *y=hx_build(&b), *o=apop_data_stack(x,y,.posn=col?'c':'r'); sx_check(o&&o->error=='d',"text of another shape is refused"); hx_check(x,&a,"first input",0); hx_check(y,&b,"second input",0); sx_reach("refused"); return; }
        if (inplace) return; apop_data_add_page(x,pg,"page"); apop_data *o=apop_data_stack(x,x,.posn=col?'c':'r'); sx_check(x->more==pg&&!pg->more,"pages are kept"); hx_check(x,&a,"stacked with itself: input",0); sx_check(!o->more,"pages are not stacked"); ds e=a; int n=col?c2:2; for(int i=0;i<2;i++) for(int j=0;j<c2;j++) e.m[col?i:n+i][col?n+j:j]=a.m[i][j]; if(col){ e.nc=2*c2; if(nstyle){ e.cn=2*c2; for(int j=0;j<c2;j++) cpy(e.c[n+j],a.c[j]); } } else { e.nr=4; if(nstyle){ e.rn=4; for(int j=0;j<2;j++) cpy(e.r[n+j],a.r[j]); } } hx_check(o,&e,"stacked with itself",0); sx_reach("with itself"); return; }
    int r1=1+sx_choice("r1",2), r2=col?r1:1+sx_choice("r2",2), c1=1+sx_choice("c1",2), c2=col?1+sx_choice("c2",2):c1;
    /* parts: 0 matrix only; 1 vectors only; 2 both; 3 vector+matrix+weights; 4 m2 lacks vector; 5 m1 lacks vector */
    int m=parts!=1, v1=(parts>=1&&parts<=4), v2=(parts>=1&&parts!=4), w=parts==3;
    if (!col && parts>=4) return;
    ds a=hx_ds("a",v1?r1:0,m?r1:0,m?c1:0,w?r1:0), b=hx_ds("b",v2?r2:0,m?r2:0,m?c2:0,w?r2:0);
    /* names: 0 none; 1 both full; 2 only m2; 3 only m1; 4 m1 full, m2's names pointer NULL */
    int n1=nstyle==1||nstyle==3||nstyle==4, n2=nstyle==1||nstyle==2;
    if (n1) hx_names(&a,"a",r1,m?c1:0,v1,1); if (n2) hx_names(&b,"b",r2,m?c2:0,v2,1);
    if (txt){ hx_text(&a,"a",r1,2,1); hx_text(&b,"b",r2,col?1:2,txt==2); }
    apop_data *x=hx_build(&a), *y=hx_build(&b);
    if (nstyle==4){ apop_name_free(y->names); y->names=NULL; b.tn=0; }
    apop_data *o=apop_data_stack(x,y,.posn=col?'c':'r',.inplace=inplace?'y':'n');
    ds e=a;
    if (!col){
        e.nr=m?r1+r2:0; if (m) for(int i=0;i<r2;i++) for(int j=0;j<c1;j++) e.m[r1+i][j]=b.m[i][j];
        if (v1){ e.nv=r1+r2; for(int i=0;i<r2;i++) e.v[r1+i]=b.v[i]; }
        if (w){ e.nw=r1+r2; for(int i=0;i<r2;i++) e.w[r1+i]=b.w[i]; }
        if (b.rn){ for(int i=a.rn;i<r1;i++) e.r[i][0]=0; for(int i=0;i<r2;i++) cpy(e.r[r1+i],b.r[i]); e.rn=r1+r2; }
        if (txt){ e.tr=r1+r2; for(int i=0;i<r2;i++) for(int j=0;j<2;j++) cpy(e.text[r1+i][j],b.text[i][j]); }
    } else {
        int k=m?c1:0; 
        if (v1&&v2){ for(int i=0;i<r1;i++) e.m[i][k]=b.v[i]; k++; }
        if (!v1&&v2){ e.hasv=1; e.nv=r1; for(int i=0;i<r1;i++) e.v[i]=b.v[i]; if (b.hasvn){ e.hasvn=1; cpy(e.vn,b.vn);} }
        if (m) for(int j=0;j<c2;j++,k++) for(int i=0;i<r1;i++) e.m[i][k]=b.m[i][j];
        e.nc=k; e.hasm=k>0; e.nr=k?r1:0;
        if (n2&&(m||(v1&&v2))){ int q=m?c1:0; for(int i=a.cn;i<q;i++) e.c[i][0]=0; if (v1&&v2) cpy(e.c[q++],b.vn); if(m) for(int j=0;j<c2;j++) cpy(e.c[q++],b.c[j]); e.cn=q; }
        if (txt){ for(int i=0;i<r1;i++) cpy(e.text[i][2],b.text[i][0]); e.tc=3; if (b.tn){ cpy(e.t[2],b.t[0]); e.tn=3; } }
    }
    hx_check(o,&e,"stacked",0);
    sx_check(!o->error,"no error");
    sx_check((o==x)==inplace,"in place iff asked");
    if (!inplace) hx_check(x,&a,"first input",0);
    hx_check(y,&b,"second input",0);
    hx_scribble(y); if (!inplace) hx_scribble(x);
    hx_check(o,&e,"stacked, after the inputs changed",0);
    /* NULL handling */
    if (!inplace){ apop_data *q=apop_data_stack(NULL,o,.posn=col?'c':'r'); sx_check(q!=o,"NULL first: a copy"); hx_check(q,&e,"NULL first",0); }
    apop_data *q=apop_data_stack(o,NULL,.posn=col?'c':'r',.inplace=inplace?'y':'n'); sx_check((q==o)==inplace,"NULL second: a copy unless in place"); hx_check(q,&e,"NULL second",0);
    sx_check(!apop_data_stack(NULL,NULL),"NULL both");
    if (inplace) sx_reach("inplace"); else sx_reach("copied"); if (col) sx_reach("cols"); else sx_reach("rows");
}
