/* Lists of names: adding, finding, copying, stacking. */
#include "hx.h"
static const char *P[]={"a","A","ab","","b%s","bA"};
static int ref_find(char l[][24],int n,const char*s,const char*vec){ for(int i=0;i<n;i++) if(!strcmp(l[i],s)) return i; for(int i=0;i<n;i++) if(!strcasecmp(l[i],s)) return i; return vec&&!strcasecmp(vec,s)?-1:-2; }
static void ckn(apop_name *o,ds *d,const char*l){ hx_strs(o->row,o->rowct,d->r,d->rn,hxl(l,"rows")); hx_strs(o->col,o->colct,d->c,d->cn,hxl(l,"columns")); hx_strs(o->text,o->textct,d->t,d->tn,hxl(l,"text")); sx_check((o->vector!=NULL)==d->hasvn&&(!d->hasvn||!strcmp(o->vector,d->vn)),hxl(l,"vector")); sx_check((o->title!=NULL)==d->hastitle&&(!d->hastitle||!strcmp(o->title,d->title)),hxl(l,"title")); }
static apop_name *mk(ds *d){ apop_name *n=apop_name_alloc(); for(int i=0;i<d->rn;i++) sx_check(apop_name_add(n,d->r[i],'r')==i+1,"add returns the count"); for(int i=0;i<d->cn;i++) sx_check(apop_name_add(n,d->c[i],'c')==i+1,"add returns the count"); for(int i=0;i<d->tn;i++) sx_check(apop_name_add(n,d->t[i],'t')==i+1,"add returns the count"); if(d->hasvn) sx_check(apop_name_add(n,d->vn,'v')==1,"add returns the count"); if(d->hastitle) sx_check(apop_name_add(n,d->title,'h')==1,"add returns the count"); return n; }
static void rnd(ds *d,int rn,int cn,int tn,int v,int h){ memset(d,0,sizeof *d); d->rn=rn; d->cn=cn; d->tn=tn; d->hasvn=v; d->hastitle=h; for(int i=0;i<rn;i++) snprintf(d->r[i],24,"r%d",i); for(int i=0;i<cn;i++) snprintf(d->c[i],24,"c%%d%d",i); for(int i=0;i<tn;i++) snprintf(d->t[i],24,"t%d",i); strcpy(d->vn,"v%n"); strcpy(d->title,"h%s"); }
void sx_main(void){
    apop_opts.verbose=-1;
    switch(sx_choice("op",3)){
    case 0: { ds d; memset(&d,0,sizeof d); int n=1+sx_choice("n",3), ty=sx_choice("type",3); char (*l)[24]= ty==0?d.r:ty==1?d.c:d.t; for(int i=0;i<n;i++) strcpy(l[i],P[sx_choice("name",6)]); if(ty==0) d.rn=n; else if(ty==1) d.cn=n; else d.tn=n; int v=sx_choice("vec",2); if(v){ d.hasvn=1; strcpy(d.vn,"AB"); }
        apop_name *q=mk(&d); ckn(q,&d,"added"); const char *s[]={"a","A","AB","aB","","B%S","zz","bA","ba","ab","c "}; for(int i=0;i<11;i++){ int want=ref_find(l,n,s[i],ty==1&&v?d.vn:NULL); sx_check(apop_name_find(q,s[i],"rct"[ty])==want,"find"); } 
        sx_check(apop_name_find(q,NULL,'c')==-2,"finding NULL"); sx_check(apop_name_add(q,NULL,"rct"[ty])==-1,"adding NULL"); ckn(q,&d,"still");
        apop_name_add(q,"second",'v'); sx_check(!strcmp(q->vector,"second"),"the vector name is overwritten"); apop_name_add(q,"second",'h'); sx_check(!strcmp(q->title,"second"),"the title is overwritten"); sx_reach("find"); break; }
    case 1: { ds d; rnd(&d,sx_choice("r",3),sx_choice("c",3),sx_choice("t",3),sx_choice("v",2),sx_choice("h",2)); apop_name *q=mk(&d),*c=apop_name_copy(q); ckn(c,&d,"copy"); for(int i=0;i<q->rowct;i++) q->row[i][0]='#'; for(int i=0;i<q->colct;i++) q->col[i][0]='#'; for(int i=0;i<q->textct;i++) q->text[i][0]='#'; if(q->vector) q->vector[0]='#'; if(q->title) q->title[0]='#'; ckn(c,&d,"copy is its own"); 
        for(int i=0;i<d.cn;i++) sx_check(apop_name_find(c,d.c[i],'c')==i,"copy finds"); for(int i=0;i<d.rn;i++) sx_check(apop_name_find(c,d.r[i],'r')==i,"copy finds"); apop_name_free(q); ckn(c,&d,"copy survives"); apop_name_free(c); sx_reach("copy"); break; }
    case 2: { ds a,b; rnd(&a,sx_choice("r",2),sx_choice("c",2),sx_choice("t",2),1,1); rnd(&b,2,1,2,1,1); for(int i=0;i<2;i++){ strcat(b.r[i],"b"); strcat(b.c[i],"b"); strcat(b.t[i],"b"); } strcpy(b.vn,"vb"); strcpy(b.title,"hb"); int self=sx_choice("self",2);
        apop_name *p=mk(&a),*q=self?p:mk(&b); ds *s=self?&a:&b; ds src=*s; int t1=sx_choice("t1",4),t2=sx_choice("t2",5); char c1="rctv"[t1],c2="rctv"[t2%4]; if(self&&(t1==3||t2==3)) return;
        if(t2==4) { if(t1==0&&sx_choice("def",2)) apop_name_stack(p,q); else apop_name_stack(p,q,c1); c2=c1; } else apop_name_stack(p,q,c1,c2);
        if(c1=='v'||c2=='v') strcpy(a.vn,src.vn); else { int n=c2=='r'?src.rn:c2=='c'?src.cn:src.tn; for(int i=0;i<n;i++){ char *z= c2=='r'?src.r[i]:c2=='c'?src.c[i]:src.t[i]; if(c1=='r') strcpy(a.r[a.rn++],z); else if(c1=='c') strcpy(a.c[a.cn++],z); else strcpy(a.t[a.tn++],z); } }
        ckn(p,&a,"stacked"); if(!self) ckn(q,&b,"source left alone"); apop_name_stack(p,NULL); ckn(p,&a,"stacking NULL does nothing");
        if(!self){ for(int i=0;i<q->rowct;i++) q->row[i][0]='#'; for(int i=0;i<q->colct;i++) q->col[i][0]='#'; ckn(p,&a,"stacked are copies"); } sx_reach("stack"); break; }
    }
}
