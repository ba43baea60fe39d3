/* Copying into a preallocated data set: contents transferred; mismatched parts and sizes are refused. */
#include "hx.h"
void sx_main(void){
    apop_opts.verbose=-1;
    int nv=sx_choice("nv",3), nr=sx_choice("nr",3), nc=nr?1+sx_choice("nc",2):0, nw=sx_choice("nw",2)*2, tx=sx_choice("text",3);
    ds d=hx_ds("a",nv,nr,nc,nw); hx_text(&d,"a",tx?2:0,tx?tx:0,tx==2); hx_names(&d,"a",2,nc,nv>0,1);
    int mis=sx_choice("mismatch",10);
    int nv2=nv,nr2=nr,nc2=nc,nw2=nw,tx2=tx;  char want=0;
    if (mis==1){ if(!nv) return; nv2=0; want='p'; } if (mis==2){ if(!nv) return; nv2=nv+1; want='d'; }
    if (mis==3){ if(!nr) return; nr2=0; want='p'; } if (mis==4){ if(!nr) return; nr2=nr+1; want='d'; } if (mis==5){ if(!nr) return; nc2=nc+1; want='d'; }
    if (mis==6){ if(!nw) return; nw2=0; want='p'; } if (mis==7){ if(!nw) return; nw2=3; want='d'; } if (mis==8){ if(!tx) return; tx2=tx-1; want='d'; }
    if (mis==9){ if(nr!=1||nc!=2) return; nr2=2; nc2=1; want='d'; } ds e=hx_ds("b",nv2,nr2,nc2,nw2); hx_text(&e,"b",tx2?2:0,tx2,tx2==2); for(int i=0;i<e.tr;i++) for(int j=0;j<e.tc;j++) snprintf(e.text[i][j],24,"old%d",i+j); int on=sx_choice("outnames",2), pages=mis?0:sx_choice("pages",2); if (on) hx_names(&e,"b",1,nc2?1:0,nv2>0,1);
    apop_data *o=hx_build(&d), *c=hx_build(&e);
    ds p1=hx_ds("p",2,1,2,0),p2=hx_ds("q",2,1,2,0); if(pages){ o->more=hx_build(&p1); c->more=hx_build(&p2); }
    apop_data_memcpy(c,o); if(pages){ hx_check(c->more,&p1,"second page",0); hx_check(o->more,&p1,"second page of the source",0); }
    if (want){ sx_check(c->error==want,"mismatch is flagged"); hx_check(o,&d,"source after refusal",0); sx_reach("refused"); return; }
    sx_check(!c->error,"no error");
    hx_check(c,&d,"target",0); hx_check(o,&d,"source",0);
    hx_scribble(o); hx_check(c,&d,"target after the source changed",0);
    for(int i=0;i<d.rn;i++) sx_check(apop_name_find(c->names,d.r[i],'r')==i,"row names can be found"); for(int j=0;j<d.cn;j++) sx_check(apop_name_find(c->names,d.c[j],'c')==j,"column names can be found"); sx_reach("copied");
}
