/* Listwise deletion keeps exactly the complete rows. */
#include "hx.h"
void sx_main(void){
    apop_opts.verbose=-1;
    int r=3,parts=sx_choice("parts",5),in=sx_choice("in",3),named=sx_choice("named",2);
    int v=parts!=1&&parts!=4,m=parts==1||parts==2,w=parts==2,t=parts>=3; if(parts==2) r=2;
    ds a; memset(&a,0,sizeof a); a.hasv=v; a.hasm=m; a.hasw=w; if(v){ a.nv=r; for(int i=0;i<r;i++) a.v[i]=sx_real_or_nan("v"); } if(m){ a.nr=r; a.nc=2; for(int i=0;i<r;i++) for(int j=0;j<2;j++) a.m[i][j]= (parts==2&&j==0)?sx_real("m"):sx_real_or_nan("m"); } if(w){ a.nw=r; for(int i=0;i<r;i++) a.w[i]=sx_real_or_nan("w"); }
    if(named) hx_names(&a,"a",r,m?2:0,v,1);
    apop_opts.nan_string = sx_choice("nanstr",2)?"x.":"NaN"; 
    if(t){ hx_text(&a,"a",r,2,1); for(int i=0;i<r;i++){ int c=sx_choice("cell",4); if(c==1) strcpy(a.text[i][1],"nAn"); if(c==2) strcpy(a.text[i][0],"X."); } }
    int keep[3],n=0; for(int i=0;i<r;i++){ int bad=0; if(v&&isnan(a.v[i])) bad=1; if(m) for(int j=0;j<2;j++) if(isnan(a.m[i][j])) bad=1; if(w&&isnan(a.w[i])) bad=1; if(t) for(int j=0;j<2;j++) if(!strcasecmp(a.text[i][j],apop_opts.nan_string)) bad=1; keep[i]=!bad; n+=!bad; }
    ds e=a; int k=0; for(int i=0;i<r;i++) if(keep[i]){ e.v[k]=a.v[i]; e.w[k]=a.w[i]; strcpy(e.r[k],a.r[i]); for(int j=0;j<2;j++){ e.m[k][j]=a.m[i][j]; strcpy(e.text[k][j],a.text[i][j]); } k++; }
    if(v) e.nv=n; if(m) e.nr=n; if(w) e.nw=n; if(t) e.tr=n; if(named) e.rn=n;
    apop_data *x=hx_build(&a); apop_data *o= in==2? apop_data_listwise_delete(x) : apop_data_listwise_delete(x,.inplace="yn"[in]);
    if(in) hx_check(x,&a,"original left alone",0);
    if(!n){ sx_check(o==NULL,"nothing left gives NULL"); if(!in) sx_check(!x->vector&&!x->matrix&&!x->weights&&!x->textsize[0],"in place, nothing left empties the set"); sx_reach("none left"); return; }
    if(!in) sx_check(o==x,"in place"); else sx_check(o!=x,"a new set");
    hx_check(o,&e,"complete rows kept",0); for(int i=0;i<e.rn;i++) sx_check(apop_name_find(o->names,e.r[i],'r')==i,"row still found by name");
    if(in&&o){ hx_scribble(x); hx_check(o,&e,"result is its own",0); }
    sx_reach("some left");
}
