/* Copying a data set: every part and page is duplicated, nothing is shared. */
#include "hx.h"
void sx_main(void){
    apop_opts.verbose=-1;
    int nv=sx_choice("nv",3), nr=sx_choice("nr",3), nc=nr?1+sx_choice("nc",2):0, nw=sx_choice("nw",2)*2;
    int style=sx_choice("style",4);
    ds d=hx_ds("a",nv,nr,nc,nw);
    if (style&1){ hx_names(&d,"a",nr>nv?nr:nv,nc,nv>0,style==3); }
    if (style>=2) hx_text(&d,"a",2,2,style&1);
    int more=sx_choice("pages",3);
    apop_data *o=hx_build(&d); ds p1=hx_ds("p",2,1,2,0), p2=hx_ds("q",0,2,1,0); hx_names(&p1,"p",1,2,1,1); hx_names(&p2,"q",0,0,0,1); hx_text(&p2,"q",1,1,0);
    if (more) o->more=hx_build(&p1); if (more==2) o->more->more=hx_build(&p2);
    apop_data *c=apop_data_copy(o);
    sx_check(c && !c->error,"copy succeeds");
    hx_check(c,&d,"copy",0); hx_check(o,&d,"source after copy",0);
    sx_check((c->more!=NULL)==(more>0),"second page present"); if (more){ hx_check(c->more,&p1,"page 2",0); sx_check((c->more->more!=NULL)==(more==2),"third page present"); }
    if (more==2){ hx_check(c->more->more,&p2,"page 3",0); sx_check(!c->more->more->more,"ends"); }
    for (apop_data *x=o;x;x=x->more) hx_scribble(x);
    hx_check(c,&d,"copy after the source changed",0); if (more) hx_check(c->more,&p1,"page 2 after the source changed",0); if (more==2) hx_check(c->more->more,&p2,"page 3 after the source changed",0);
    apop_data_free(o);
    hx_check(c,&d,"copy after the source is freed",0);
    apop_data_free(c); sx_check(c==NULL,"free clears the pointer");
    sx_reach("end"); if (more==2) sx_reach("pages");
}
