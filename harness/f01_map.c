/* Mapping functions over data: every form, part, place. */
#include "hx.h"
static double A,B; static int seen[64],nseen;
static double F(double x){ return A*x+B; }
static double acc; static double fda(double x){ double y=F(x); acc+=y; return y; } static double fdpa(double x,void*p){ double y=F(x)*(*(double*)p); acc+=y; return y; }
static double fd(double x){ return F(x); } static double fdp(double x,void*p){ return F(x)*(*(double*)p); } static double fdi(double x,int i){ return F(x)+i*B; } static double fdpi(double x,void*p,int i){ return F(x)*(*(double*)p)+i*B; }
static double V(const gsl_vector*v){ double s=0; for(size_t i=0;i<v->size;i++) s+=(i+1)*gsl_vector_get(v,i); return A*s; }
static double fv(gsl_vector*v){ return V(v); } static double fvp(gsl_vector*v,void*p){ return V(v)*(*(double*)p); } static double fvi(gsl_vector*v,int i){ return V(v)+i*B; } static double fvpi(gsl_vector*v,void*p,int i){ return V(v)*(*(double*)p)+i*B; }
static double Rr(apop_data*r){ double s=0; if(r->vector){ s+=3*gsl_vector_get(r->vector,0); if(r->vector->size!=1) s+=1000; } if(r->matrix){ for(size_t j=0;j<r->matrix->size2;j++) s+=(j+5)*gsl_matrix_get(r->matrix,0,j); if(r->matrix->size1!=1) s+=1000; } if(r->weights) s+=7*gsl_vector_get(r->weights,0); if(r->names&&r->names->rowct) s+=r->names->row[0][2]; if(r->textsize[0]) s+=r->text[0][0][0]+strlen(r->text[0][0]); return A*s; }
static double fr(apop_data*v){ return Rr(v); } static double frp(apop_data*v,void*p){ return Rr(v)*(*(double*)p); } static double fri(apop_data*v,int i){ return Rr(v)+i*B; } static double frpi(apop_data*v,void*p,int i){ return Rr(v)*(*(double*)p)+i*B; }
static void dv(double*x){ *x=F(*x); } static void vv(gsl_vector*v){ double s=V(v); gsl_vector_set(v,0,s); }
static double Rds(const ds*a,int i){ double s=0; if(a->hasv) s+=3*a->v[i]; if(a->hasm) for(int j=0;j<a->nc;j++) s+=(j+5)*a->m[i][j]; if(a->hasw) s+=7*a->w[i]; if(a->rn) s+=a->r[i][2]; if(a->tr) s+=a->text[i][0][0]+strlen(a->text[i][0]); return A*s; }
void sx_main(void){
    apop_opts.verbose=-1; A=sx_real("A"); B=sx_real("B"); double P=sx_real("P"); int op=sx_choice("op",4);
    int sh=sx_choice("shape",4); int nr= sh==3?0:sh==0?2:sh==1?3:2, nc= sh==3?0:sh==0?2:sh==1?2:3; int hv= sh==3||sx_choice("vector",2), nv= hv?(nr?nr:3):0; int nm=sx_choice("named",2);
    if(op==0){ /* scalar functions */ int form=sx_choice("form",4),part=sx_choice("part",4),place=sx_choice("place",3); ds a=hx_ds("a",nv,nr,nc,0); if(nm) hx_names(&a,"a",nv?nv:nr,nc,hv,1); apop_data *d=hx_build(&a); ds e=a; char pt="vmaa"[part]; char pl="nyv"[place];
        if(pt=='v'&&!hv) return; if(pt=='m'&&!nr) return;
        int dov=hv&&pt!='m',dom=nr&&pt!='v',smalld=nr<=nc; /* index runs along the longer side */
        if(dov) for(int i=0;i<nv;i++){ double x=F(a.v[i]); if(form==1||form==3) x*=P; if(form>=2) x+=i*B; e.v[i]=x; } 
        if(dom) for(int i=0;i<nr;i++)for(int j=0;j<nc;j++){ double x=F(a.m[i][j]); if(form==1||form==3) x*=P; if(form>=2) x+=(smalld?j:i)*B; e.m[i][j]=x; }
        apop_data *o; if(form==0) o= part==3? (place==0&&sx_choice("dflt",2)?apop_map(d,fd):apop_map(d,fd,.inplace=pl)) : apop_map(d,.fn_d=fd,.part=pt,.inplace=pl); else if(form==1) o=apop_map(d,.fn_dp=fdp,.param=&P,.part=pt,.inplace=pl); else if(form==2) o=apop_map(d,.fn_di=fdi,.part=pt,.inplace=pl); else o=apop_map(d,.fn_dpi=fdpi,.param=&P,.part=pt,.inplace=pl);
        if(place==0){ hx_check(d,&a,"input left alone",0); if(!dov){ e.hasv=e.nv=0; e.hasvn=0; } if(!dom){ e.hasm=e.nr=e.nc=0; e.cn=0; } e.hastitle=nm&&o&&o->names&&o->names->title; /* whether the title comes along is left open */ hx_check(o,&e,"mapped",dov&&!dom?HX_NONAMES:0); if(nm&&dov&&!dom) hx_strs(o->names->row,o->names->rowct,a.r,a.rn,"row names"), sx_check(a.hasvn?o->names->vector&&!strcmp(o->names->vector,a.vn):!o->names->vector,"vector name"); if(nm&&o->names) { int id=apop_name_find(o->names,a.r[0],'r'); sx_check(id==0,"names found"); } }
        else if(place==1){ sx_check(o==d,"in place"); hx_check(d,&e,"mapped in place",0); } else { sx_check(o==NULL,"void"); hx_check(d,&a,"input left alone",0); }
        /* sums */ apop_data *d2=hx_build(&a); double w=0; if(dov) for(int i=0;i<nv;i++) w+=e.v[i]; if(dom) for(int i=0;i<nr;i++)for(int j=0;j<nc;j++) w+=e.m[i][j]; if(!dov&&!dom) w=0; double s= form==0?(part==3?apop_map_sum(d2,fd):apop_map_sum(d2,fd,.part=pt)):form==1?apop_map_sum(d2,.fn_dp=fdp,.param=&P,.part=pt):form==2?apop_map_sum(d2,.fn_di=fdi,.part=pt):apop_map_sum(d2,.fn_dpi=fdpi,.param=&P,.part=pt); sx_check_eq(s,w,"sum of mapped"); hx_check(d2,&a,"input left alone",0); sx_reach("scalar"); }
    else if(op==1){ /* vector functions */ int form=sx_choice("form",4),col=sx_choice("by column",2),place=sx_choice("place",3),dflt=!col&&sx_choice("dflt",2); if(sh==3){ ds a=hx_ds("a",nv,0,0,0); apop_data *d=hx_build(&a); apop_data *o=apop_map(d,.fn_v=fv,.part=col?'c':'r'); sx_check(o&&o->error=='p',"no matrix"); hx_check(d,&a,"input left alone",0); o=apop_map(d,.fn_d=fd,.part=col?'c':'r'); sx_check(o&&o->error=='p',"scalar function for vectors"); sx_reach("mismatch"); return; }
        ds a=hx_ds("a",nv,nr,nc,0); if(nm) hx_names(&a,"a",nr,nc,hv,1); apop_data *d=hx_build(&a); int n=col?nc:nr; double want[4]; for(int i=0;i<n;i++){ double s=0; for(int j=0;j<(col?nr:nc);j++) s+=(j+1)*(col?a.m[j][i]:a.m[i][j]); want[i]=A*s; if(form==1||form==3) want[i]*=P; if(form>=2) want[i]+=i*B; }
        char pl="nyv"[place],pt="rc"[col]; apop_data *o; if(dflt) o= form==0?apop_map(d,.fn_v=fv,.inplace=pl):form==1?apop_map(d,.fn_vp=fvp,.param=&P,.inplace=pl):form==2?apop_map(d,.fn_vi=fvi,.inplace=pl):apop_map(d,.fn_vpi=fvpi,.param=&P,.inplace=pl); else o= form==0?apop_map(d,.fn_v=fv,.part=pt,.inplace=pl):form==1?apop_map(d,.fn_vp=fvp,.param=&P,.part=pt,.inplace=pl):form==2?apop_map(d,.fn_vi=fvi,.part=pt,.inplace=pl):apop_map(d,.fn_vpi=fvpi,.param=&P,.part=pt,.inplace=pl);
        if(place==1){ sx_check(o==d,"in place"); ds e=a; e.hasv=1; e.nv=n; memcpy(e.v,want,sizeof want); hx_check(d,&e,"vectors mapped in place",0); }
        else { hx_check(d,&a,"input left alone",0); if(place==2) sx_check(o==NULL,"void"); else { sx_check(o!=NULL,"mapped"); if(!o) return; hx_vec(o->vector,want,n,"vectors mapped"); sx_check(!o->matrix,"only a vector"); if(nm) hx_strs(o->names->row,o->names->rowct,col?a.c:a.r,n,"names of what was mapped"); } }
        apop_data *d2=hx_build(&a); double w=0; for(int i=0;i<n;i++) w+=want[i]; sx_check_eq(form==0?apop_map_sum(d2,.fn_v=fv,.part=pt):form==1?apop_map_sum(d2,.fn_vp=fvp,.param=&P,.part=pt):form==2?apop_map_sum(d2,.fn_vi=fvi,.part=pt):apop_map_sum(d2,.fn_vpi=fvpi,.param=&P,.part=pt),w,"sum of mapped vectors"); sx_reach("vector"); }
    else if(op==2){ /* row functions */ int form=sx_choice("form",4),place=sx_choice("place",2),txt=sx_choice("text",2),w=sx_choice("weights",2); int n=nr?nr:nv; ds a=hx_ds("a",nv,nr,nc,w?n:0); if(nm) hx_names(&a,"a",n,nc,hv,1); if(txt) hx_text(&a,"a",n,2,0); apop_data *d=hx_build(&a); double want[4],tot=0; for(int i=0;i<n;i++){ want[i]=Rds(&a,i); if(form==1||form==3) want[i]*=P; if(form>=2) want[i]+=i*B; tot+=want[i]; }
        char pl="nv"[place]; apop_data *o= form==0?apop_map(d,.fn_r=fr,.inplace=pl):form==1?apop_map(d,.fn_rp=frp,.param=&P,.inplace=pl):form==2?apop_map(d,.fn_ri=fri,.inplace=pl):apop_map(d,.fn_rpi=frpi,.param=&P,.inplace=pl); hx_check(d,&a,"input left alone",0); if(place) sx_check(!o,"void"); else { sx_check(o!=NULL,"mapped"); if(!o) return; hx_vec(o->vector,want,n,"rows mapped"); if(nm) hx_strs(o->names->row,o->names->rowct,a.r,n,"row names"); }
        sx_check_eq(form==0?apop_map_sum(d,.fn_r=fr):form==1?apop_map_sum(d,.fn_rp=frp,.param=&P):form==2?apop_map_sum(d,.fn_ri=fri):apop_map_sum(d,.fn_rpi=frpi,.param=&P),tot,"sum over rows"); sx_reach("rows"); }
    else { /* older functions, pages, NULL */ if(sh==3||nm) return; ds a=hx_ds("a",nv,nr,nc,0),b=hx_ds("b",0,2,2,0); apop_data *d=hx_build(&a); 
        gsl_vector *r=apop_matrix_map(d->matrix,fv); double w[4],ms=0,vs=0,rs=0; for(int i=0;i<nr;i++){ w[i]=0; for(int j=0;j<nc;j++){ w[i]+=A*(j+1)*a.m[i][j]; ms+=F(a.m[i][j]); } rs+=w[i]; } hx_vec(r,w,nr,"apop_matrix_map"); gsl_matrix *q=apop_matrix_map_all(d->matrix,fd); ds e=a; for(int i=0;i<nr;i++)for(int j=0;j<nc;j++){ e.m[i][j]=F(a.m[i][j]); sx_check_eq(gsl_matrix_get(q,i,j),e.m[i][j],"apop_matrix_map_all"); } sx_check_eq(apop_matrix_map_all_sum(d->matrix,fd),ms,"apop_matrix_map_all_sum"); sx_check_eq(apop_matrix_map_sum(d->matrix,fv),rs,"apop_matrix_map_sum");
        if(hv){ gsl_vector *o=apop_vector_map(d->vector,fd); for(int i=0;i<nv;i++){ e.v[i]=F(a.v[i]); vs+=e.v[i]; } hx_vec(o,e.v,nv,"apop_vector_map"); sx_check_eq(apop_vector_map_sum(d->vector,fd),vs,"apop_vector_map_sum"); } hx_check(d,&a,"input left alone",0);
        if(hv) apop_vector_apply(d->vector,dv); apop_matrix_apply_all(d->matrix,dv); hx_check(d,&e,"applied",0); apop_data *d3=hx_build(&a); apop_matrix_apply(d3->matrix,vv); ds g=a; for(int i=0;i<nr;i++) g.m[i][0]=w[i]; hx_check(d3,&g,"applied to rows",0);
        sx_check(!apop_map(NULL,fd)&&!apop_matrix_map(NULL,fv)&&!apop_vector_map(NULL,fd)&&!apop_matrix_map_all(NULL,fd),"NULL maps to NULL"); sx_check_eq(apop_map_sum(NULL,fd)+apop_vector_map_sum(NULL,fd)+apop_matrix_map_sum(NULL,fv)+apop_matrix_map_all_sum(NULL,fd),0,"sums of nothing"); apop_matrix_apply(NULL,vv); apop_matrix_apply_all(NULL,dv); apop_vector_apply(NULL,dv);
        /* three pages; the last has a vector too */ ds c3=hx_ds("c",1,1,1,0); ds *pg[3]={&a,&b,&c3}; ds ee[3]={e,b,c3}; double ps[3]={ms+vs,0,F(c3.v[0])+F(c3.m[0][0])}; for(int i=0;i<2;i++)for(int j=0;j<2;j++){ ee[1].m[i][j]=F(b.m[i][j]); ps[1]+=ee[1].m[i][j]; } ee[2].v[0]=F(c3.v[0]); ee[2].m[0][0]=F(c3.m[0][0]);
        apop_data *d2=hx_build(&a); d2->more=hx_build(&b); d2->more->more=hx_build(&c3); int pl=sx_choice("place",3),ap=sx_choice("all pages",3); acc=0; int prm=sx_choice("with parameter",2); double one=1; apop_data *o=prm?apop_map(d2,.fn_dp=fdpa,.param=&one,.inplace="nyv"[pl],.all_pages="nyY"[ap]):apop_map(d2,fda,.inplace="nyv"[pl],.all_pages="nyY"[ap]); sx_check_eq(acc,ap?ps[0]+ps[1]+ps[2]:ps[0],"every element visited once, on every page asked for"); if(pl==2) sx_check(!o,"void"); else sx_check(o!=NULL,"mapped");
        apop_data *g1=o,*g2=d2; for(int k=0;k<3;k++){ int done=k==0||ap; if(pl!=2&&(pl==1||done)){ sx_check(g1!=NULL,"page there"); if(!g1) return; hx_check(g1,done?&ee[k]:pg[k],"mapped page",0); g1=g1->more; } if(pl!=1){ hx_check(g2,pg[k],"input page left alone",0); g2=g2->more; } } if(pl==0) sx_check(!g1,"no further pages");
        { /* a page that can't be done marks the whole */ ds nv1=hx_ds("n",2,0,0,0); int bad=sx_choice("bad page",3); if(bad){ apop_data *d5=hx_build(&a); d5->more=bad==1?hx_build(&nv1):hx_build(&b); if(bad==2) d5->more->more=hx_build(&nv1); apop_data *o5=pl==1?apop_map(d5,.fn_v=fv,.part='r',.inplace='y',.all_pages="nyY"[ap]):apop_map(d5,.fn_v=fv,.part='r',.all_pages="nyY"[ap]); sx_check(o5&&(o5->error=='p')==(ap!=0),"error on a page is passed on"); if(o5) hx_vec(o5->vector,w,nr,"first page done"); return; } }
        apop_data *d4=hx_build(&a); d4->more=hx_build(&b); d4->more->more=hx_build(&c3); sx_check_eq(prm?apop_map_sum(d4,.fn_dp=fdpa,.param=&one,.all_pages="nyY"[ap]):apop_map_sum(d4,fd,.all_pages="nyY"[ap]),ap?ps[0]+ps[1]+ps[2]:ps[0],"sum over pages"); sx_reach("pages"); }
}
