/* Splitting, and stacking the pieces back together. */
#include "hx.h"
static void cpy(char *a, const char *b){ snprintf(a,24,"%s",b); }
void sx_main(void){
    apop_opts.verbose=-1;
    int kind=sx_choice("how",4), col=kind>=2; char how="rRcC"[kind];
    int parts=sx_choice("parts",4), named=sx_choice("named",2), txt=sx_choice("text",2);
    /* parts: 0 matrix; 1 vector+matrix; 2 vector+matrix+weights; 3 vector only */
    int r=1+sx_choice("r",3), c=1+sx_choice("c",3), v=parts>=1, m=parts!=3, w=parts==2;
    int sp=sx_choice("split",6)-1;
    ds a=hx_ds("a",v?r:0,m?r:0,m?c:0,w?r:0); if (named) hx_names(&a,"a",r,m?c:0,v,0); if (txt) hx_text(&a,"a",r,2,named);
    if (parts==3 && col && sp!=0) return;
    apop_data *x=hx_build(&a); x->more=apop_data_alloc(2);
    apop_data **o=apop_data_split(x,sp,how);
    apop_data_free(x->more);
    hx_check(x,&a,"source",0);
    int size=col?(m?c:0):r;
    if (!col){
        if (sp<=0){ sx_check(!o[0],"first part empty"); hx_check(o[1],&a,"second part is everything",0); sx_reach("low"); }
        else if (sp>=size){ sx_check(!o[1],"second part empty"); hx_check(o[0],&a,"first part is everything",0); sx_reach("high"); }
        else {
            for (int k=0;k<2;k++){ int lo=k?sp:0, n=k?r-sp:sp; ds e=a; if(v) e.nv=n; if(m) e.nr=n; if(w) e.nw=n; if(named) e.rn=n; if(txt) e.tr=n;
                for(int i=0;i<n;i++){ e.v[i]=a.v[lo+i]; e.w[i]=a.w[lo+i]; cpy(e.r[i],a.r[lo+i]); for(int j=0;j<c;j++) e.m[i][j]=a.m[lo+i][j]; for(int j=0;j<2;j++) cpy(e.text[i][j],a.text[lo+i][j]); }
                hx_check(o[k],&e,k?"bottom":"top",0); }
            apop_data *back=apop_data_stack(o[0],o[1],'r'); hx_check(back,&a,"stacked back",0); sx_reach("rows");
        }
    } else {
        if (sp<=-1){ sx_check(!o[0],"first part empty"); hx_check(o[1],&a,"second part is everything",0); }
        else if (m && sp>=size){ sx_check(!o[1],"second part empty"); hx_check(o[0],&a,"first part is everything",0); }
        else {
            ds L=a, R=a; L.tr=L.tc=L.tn=R.tr=R.tc=R.tn=0; R.hasv=0; R.nv=0; R.hasvn=0;
            L.nc=sp; if(!sp){ L.hasm=0; L.nr=L.nc=0; } if(named&&m) L.cn=sp;
            R.nc=c-sp; if(named&&m) R.cn=c-sp; for(int j=0;j<c-sp;j++){ for(int i=0;i<r;i++) R.m[i][j]=a.m[i][sp+j]; cpy(R.c[j],a.c[sp+j]); }
            if (!m){ R.hasm=0; R.nr=R.nc=0; R.cn=0; L.cn=0; }
            hx_check(o[0],&L,"left",0); hx_check(o[1],&R,"right",0);
            if (m){ apop_data *back=apop_data_stack(o[0],o[1],'c'); ds e=a; e.tr=e.tc=e.tn=0; hx_check(back,&e,"stacked back",0); }
            sx_reach("cols");
        }
    }
    for (int k=0;k<2;k++) if (o[k]) hx_scribble(o[k]); hx_check(x,&a,"source after the parts changed",0);
}
