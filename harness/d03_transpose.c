#include "hx.h"
static void cpy(char *a, const char *b){ snprintf(a,24,"%s",b); }
void sx_main(void){
    apop_opts.verbose=-1;
    int r=sx_choice("r",4), c=r?1+sx_choice("c",3):0, tr=sx_choice("tr",4), tc=tr?1+sx_choice("tc",3):0, named=sx_choice("named",3), inplace=sx_choice("inplace",2), ttext=sx_choice("ttext",2), vw=sx_choice("vw",2), tn=tr?sx_choice("text names",2):0;
    if (!r && !tr) return; if (r && tr && tr!=r) return; if (vw && tr>1) return;
    ds a=hx_ds("a",vw?2:0,r,c,vw?2:0);
    int rn=named>=1?(r?r:tr):0, cn=named==1?c:0; hx_names(&a,"a",rn,cn,vw,0); if (tr){ hx_text(&a,"a",tr,tc,tn); cpy(a.text[0][0],"100%s %d%n"); }
    apop_data *x=hx_build(&a);
    apop_data *o=apop_data_transpose(x,.transpose_text=ttext?'y':'n',.inplace=inplace?'y':'n');
    ds e=a; if (r){ e.nr=c; e.nc=r; for(int i=0;i<r;i++) for(int j=0;j<c;j++) e.m[j][i]=a.m[i][j]; }
    int nm= inplace||r;
    e.rn=nm?a.cn:0; e.cn=nm?a.rn:0; for(int i=0;i<e.rn;i++) cpy(e.r[i],a.c[i]); for(int i=0;i<e.cn;i++) cpy(e.c[i],a.r[i]);
    char R[HM][24], T[HM][24]; memcpy(R,a.r,sizeof R); memcpy(T,a.t,sizeof T);
    if (tr && ttext){ if (!a.cn){ e.rn=a.tn; memcpy(e.r,T,sizeof T); } e.tn=a.rn; memcpy(e.t,R,sizeof R); }
    if (!inplace && !ttext) e.tn=0;
    if (tr && ttext){ e.tr=tc; e.tc=tr; for(int i=0;i<tr;i++) for(int j=0;j<tc;j++) cpy(e.text[j][i],a.text[i][j]); }
    if (!inplace && !ttext) e.tr=e.tc=0;
    if (!inplace){ e.hasv=e.nv=e.hasw=e.nw=e.hasvn=0; }
    hx_check(o,&e,"transposed",0); sx_check((o==x)==inplace,"in place iff asked");
    /* names remain searchable */
    for(int i=0;i<e.rn;i++) sx_check(apop_name_find(o->names,e.r[i],'r')==i,"row name found"); for(int i=0;i<e.cn;i++) sx_check(apop_name_find(o->names,e.c[i],'c')==i,"column name found");
    if (!inplace) hx_check(x,&a,"source",0);
    if (ttext){ apop_data *b=apop_data_transpose(o,.inplace='y'); ds f=a; if(!inplace){ f.hasv=f.nv=f.hasw=f.nw=f.hasvn=0; } hx_check(b,&f,"transposed twice",HX_NONAMES); int nrow=b->names->rowct; if(r&&(a.cn||!tr)){ hx_strs(b->names->row,nrow,a.r,a.rn,"transposed twice: row names"); hx_strs(b->names->col,b->names->colct,a.c,a.cn,"transposed twice: column names"); } if(!r){ hx_strs(b->names->row,nrow,a.r,a.rn,"transposed twice: row names"); hx_strs(b->names->text,b->names->textct,a.t,a.tn,"transposed twice: text names"); } sx_reach("twice"); }
    apop_data_free(o);
    sx_reach("end"); if (tr>tc) sx_reach("tall text"); if (tr&&tr<tc) sx_reach("wide text");
}
