/* Addressing: number, name, page; reads see exactly the last write at that address and nothing else moves. */
#include "hx.h"
void sx_main(void){
    apop_opts.verbose=-1;
    int parts=sx_choice("parts",3);  /* vector, matrix, both */
    int r=2,c=2, v=parts!=1, m=parts>=1;
    ds a=hx_ds("a",v?r:0,m?r:0,m?c:0,0), b=hx_ds("b",r,r,c,0); hx_names(&a,"A",r,m?c:0,v,1); hx_names(&b,"b",r,c,1,1);
    apop_data *x=hx_build(&a), *y=hx_build(&b); apop_data_add_page(x,y,"Second Page");
    strcpy(b.title,"Second Page");
    int pg=sx_choice("page",2), i=sx_choice("i",3), j=sx_choice("j",4)-1, byrow=sx_choice("byrow",2), bycol=sx_choice("bycol",2), op=sx_choice("op",3);
    ds *d=pg?&b:&a; const char *page=pg?(sx_choice("case",2)?"sECOND pAGE":"Second Page"):NULL;
    char rn[24],cn[24]; snprintf(rn,24,"%s%d",pg?"BR":"aR",i); snprintf(cn,24,j<0?(pg?"BVEC":"avec"):(pg?"bC%d":"Ac%d"),j);
    int toV = j==-1 || (j==0 && !d->hasm && !bycol);
    int exists = i<2 && (toV? d->hasv : (d->hasm && j<2));
    if (bycol && j>=0 && !d->hasm) exists=0;
    double nv=sx_real("new");
    const char *prow=byrow?rn:NULL, *pcol=bycol?cn:NULL;
    double old= exists ? (toV?d->v[i]:d->m[i][j]) : 0;
    if (op==0){ double g=apop_data_get(x,.row=byrow?0:i,.col=bycol?0:j,.rowname=prow,.colname=pcol,.page=page);
        if (exists) sx_check_same(g,old,"get"); else sx_check(isnan(g),"get out of bounds is NaN"); sx_reach("get");
    } else if (op==1){ int q=apop_data_set(x,.row=byrow?0:i,.col=bycol?0:j,.val=nv,.rowname=prow,.colname=pcol,.page=page);
        sx_check(q==(exists?0:-1),"set return value"); if (exists){ if(toV) d->v[i]=nv; else d->m[i][j]=nv; } sx_reach("set");
        if (!exists){ int q2=apop_data_set(x,.row=1,.col=-1,.val=nv,.page="Second Page"); sx_check(q2==0,"a failed set does not spoil later ones"); b.v[1]=nv; }
    } else { double *p=apop_data_ptr(x,.row=byrow?0:i,.col=bycol?0:j,.rowname=prow,.colname=pcol,.page=page);
        sx_check((p!=NULL)==exists,"ptr is NULL iff out of bounds"); if (p&&exists){ sx_check_same(*p,old,"ptr reads"); *p=nv; if(toV) d->v[i]=nv; else d->m[i][j]=nv; } sx_reach("ptr"); }
    sx_check(apop_data_set(x,0,-2,.val=1)==-1&&apop_data_set(x,.row=0,.col=-7,.val=1,.page="second page")==-1,"no negative places"); sx_check(apop_data_set(x,0,7,.val=1)==-1&&apop_data_set(x,7,-1,.val=1)==-1,"out of bounds"); apop_data *p2=x->more; x->more=NULL; hx_check(x,&a,"first page",0); hx_check(p2,&b,"second page",0); x->more=p2;
    sx_check(isnan(apop_data_get(x,.page="no such page")),"missing page"); sx_check(isnan(apop_data_get(x,.rowname="nope")),"missing row name"); sx_check(apop_data_set(x,.colname="nope",.val=1)==-1,"missing column name");
    if (exists) sx_reach("exists"); else sx_reach("absent");
}
