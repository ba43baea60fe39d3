/* Models and their settings groups: copies are independent, groups behave as a map from name to group whose
   members are set up, copied and freed exactly once, and the generic entry points dispatch as documented. */
#include "hx.h"
static int ninit[3],ncopy[3],nfree[3];
typedef struct { double x; int n; double *own; } ga_settings; typedef struct { double y; char c; } gb_settings; typedef struct { int z; } ga_long_name_settings;
Apop_settings_declarations(ga) Apop_settings_declarations(gb) Apop_settings_declarations(ga_long_name)
Apop_settings_init(ga, ninit[0]++; Apop_varad_set(n,7); out->own=malloc(sizeof(double)); *out->own=out->x)
Apop_settings_copy(ga, ncopy[0]++; out->own=malloc(sizeof(double)); *out->own=*in->own)
Apop_settings_free(ga, nfree[0]++; *in->own=-99; in->x=-99; free(in->own))
Apop_settings_init(gb, ninit[1]++; Apop_varad_set(c,'q')) Apop_settings_copy(gb, ncopy[1]++) Apop_settings_free(gb, nfree[1]++; in->y=-98)
Apop_settings_init(ga_long_name, ninit[2]++; Apop_varad_set(z,3)) Apop_settings_copy(ga_long_name, ncopy[2]++) Apop_settings_free(ga_long_name, nfree[2]++; in->z=-97)
static double PV=0; static int calls[6]; static apop_data *seen_d; static apop_model *seen_m;
static long double f_p(apop_data*d,apop_model*m){ calls[0]++; seen_d=d; seen_m=m; return PV; } static long double f_ll(apop_data*d,apop_model*m){ calls[1]++; seen_d=d; seen_m=m; return PV; }
static void f_est(apop_data*d,apop_model*m){ calls[2]++; seen_d=d; seen_m=m; sx_check(calls[3]==1,"prepared before estimation"); if(m->parameters) gsl_vector_set_all(m->parameters->vector,PV); } static void f_prep(apop_data*d,apop_model*m){ calls[3]++; apop_model_clear(d,m); }
static int f_draw(double*o,gsl_rng*r,apop_model*m){ calls[4]++; seen_m=m; o[0]=PV; return 0; } static long double f_cdf(apop_data*d,apop_model*m){ calls[5]++; seen_d=d; return PV; }
static int have[3]; static double hx0; static int hn; static double hy; static int hc,hz;
static void verify(apop_model*m,const char*lab){ ga_settings*a=apop_settings_get_group(m,ga); gb_settings*b=apop_settings_get_group(m,gb); ga_long_name_settings*c=apop_settings_get_group(m,ga_long_name);
    sx_check((a!=NULL)==have[0]&&(b!=NULL)==have[1]&&(c!=NULL)==have[2],hxl(lab,"groups attached")); if(a&&have[0]){ sx_check_same(a->x,hx0,hxl(lab,"element")); sx_check(a->n==hn,hxl(lab,"element")); } if(b&&have[1]){ sx_check_same(b->y,hy,hxl(lab,"element")); sx_check(b->c==hc,hxl(lab,"element")); sx_check_same(Apop_settings_get(m,gb,y),hy,hxl(lab,"get")); } if(c&&have[2]) sx_check(c->z==hz,hxl(lab,"element"));
    for(int i=0;i<3;i++) sx_check(ninit[i]+ncopy[i]-nfree[i]==have[i],hxl(lab,"every group freed exactly once")); }
static void groups(void){ apop_model *m=apop_model_copy(apop_normal); int steps=3;
#ifdef SX_THOROUGH
    steps=4;
#endif
    for(int s=0;s<steps;s++){ int op=sx_choice("op",9); switch(op){
        case 0: { double x=sx_real("x"); ga_settings*g=Apop_settings_add_group(m,ga,.x=x); sx_check(g!=NULL&&g==apop_settings_get_group(m,ga),"adding returns the group"); have[0]=1; hx0=x; hn=7; break; }
        case 1: { double y=sx_real("y"); Apop_settings_add_group(m,gb,.y=y,.c='k'); have[1]=1; hy=y; hc='k'; break; }
        case 2: Apop_settings_add_group(m,ga_long_name,.z=5); have[2]=1; hz=5; break;
        case 3: case 4: case 5: { if(op==3) Apop_settings_rm_group(m,ga); else if(op==4) Apop_settings_rm_group(m,gb); else Apop_settings_rm_group(m,ga_long_name); have[op-3]=0; break; }
        case 6: { double x=sx_real("nx"); Apop_settings_set(m,ga,x,x); if(have[0]) hx0=x; else { sx_check(m->error=='s',"setting in a missing group is an error"); m->error=0; } break; }
        case 7: { Apop_settings_set(m,gb,c,'w'); if(have[1]) hc='w'; else { sx_check(m->error=='s',"setting in a missing group is an error"); m->error=0; } break; }
        case 8: { int before[3]; for(int i=0;i<3;i++) before[i]=ncopy[i]; apop_model *c=apop_model_copy(m); for(int i=0;i<3;i++) sx_check(ncopy[i]-before[i]==have[i],"each group copied once"); ga_settings*a=apop_settings_get_group(m,ga),*ac=apop_settings_get_group(c,ga); sx_check((a==NULL)==(ac==NULL)&&(!a||(a!=ac&&a->own!=ac->own)),"copied group is separate");
            if(sx_choice("keep copy",2)){ if(a) a->x=-5; gb_settings*b=apop_settings_get_group(m,gb); if(b) b->y=-5; apop_model_free(m); m=c; } else { if(ac) ac->x=-5; gb_settings*b=apop_settings_get_group(c,gb); if(b) b->y=-5; apop_model_free(c); } break; } }
        sx_check(!m->error,"no error"); verify(m,"after"); }
    /* moving one group between models */
    if(have[0]){ apop_model *o=apop_model_copy(apop_beta); apop_settings_copy_group(o,m,"ga"); ga_settings*g=apop_settings_get_group(o,ga); sx_check(g&&g!=apop_settings_get_group(m,ga)&&!apop_settings_get_group(o,gb),"one group copied"); if(g) sx_check_same(g->x,hx0,"element of the copied group"); apop_model_free(o); verify(m,"after copying a group"); }
    apop_model *k=apop_model_copy_set(m,gb,.y=4,.c='z'); gb_settings*kb=apop_settings_get_group(k,gb); sx_check(kb&&kb->y==4&&kb->c=='z'&&k!=m,"copy and set"); apop_model_free(k); verify(m,"after copy and set");
    apop_model_free(m); for(int i=0;i<3;i++) have[i]=0; for(int i=0;i<3;i++) sx_check(ninit[i]+ncopy[i]==nfree[i],"freeing the model frees its groups once"); sx_reach("groups"); }
static void copies(void){ ds a=hx_ds("p",2,2,2,0),b=hx_ds("i",2,0,0,0),e=hx_ds("d",0,2,2,0); hx_names(&a,"p",2,2,1,1); apop_model m={.name="mine",.vsize=2,.msize1=2,.msize2=2,.dsize=3,.p=f_p,.draw=f_draw,.cdf=f_cdf}; m.parameters=hx_build(&a); m.info=hx_build(&b); m.data=hx_build(&e); int mo=sx_choice("more",2); double more[2]={sx_real("more"),2}; double m0=more[0]; if(mo){ m.more=more; m.more_size=sizeof more; }
    apop_data *pg=apop_data_add_page(m.parameters,hx_build(&b),"page"); (void)pg;
    apop_model *c=apop_model_copy(&m); sx_check(c&&c!=&m&&!strcmp(c->name,"mine")&&c->vsize==2&&c->msize1==2&&c->msize2==2&&c->dsize==3&&c->p==f_p&&c->draw==f_draw&&c->cdf==f_cdf&&!c->estimate&&!c->error,"fields copied"); sx_check(c->data==m.data,"data is shared"); sx_check(c->parameters!=m.parameters&&c->info!=m.info,"parameters and info are separate"); if(mo) sx_check(c->more&&c->more!=m.more&&((double*)c->more)[1]==2,"more copied");
    if(sx_choice("free original",2)){ hx_scribble(m.parameters); hx_scribble(m.info); apop_data_free(m.parameters); apop_data_free(m.info); if(mo) more[0]=-7; if(mo) sx_check_same(((double*)c->more)[0],m0,"more copied by value"); hx_check(c->parameters,&a,"copied parameters",0); apop_data *q=apop_data_get_page(c->parameters,"page"); sx_check(q!=NULL,"pages copied"); if(q) hx_vec(q->vector,b.v,2,"copied page"); }
    else { hx_scribble(c->parameters); hx_scribble(c->info); apop_model_free(c); hx_check(m.parameters,&a,"original parameters",0); if(mo) sx_check(more[1]==2,"original more"); }
    hx_check(m.data,&e,"data left alone",0); sx_check(apop_model_copy(NULL)==NULL,"copy of NULL"); sx_reach("copy"); }
static void setp(void){ int v=sx_choice("vector",3),r=sx_choice("rows",3),c=r?1+sx_choice("cols",2):0; double x[6]; int n=v+r*c; if(!n) return; for(int i=0;i<6;i++) x[i]=sx_real("x"); apop_model m={.name="m",.vsize=v,.msize1=r,.msize2=c,.dsize=1,.p=f_p}; int neg=sx_choice("negative",2); if(neg) m.vsize=-1;
    apop_model *o=n<=2?apop_model_set_parameters(&m,x[0],x[1]):apop_model_set_parameters(&m,x[0],x[1],x[2],x[3],x[4],x[5]); sx_check(!m.parameters,"original untouched"); if(neg){ sx_check(o&&o->error=='d',"size depends on the data"); return; } sx_check(o&&!o->error&&o->parameters,"parameters set"); apop_data*p=o->parameters; sx_check((p->vector?(int)p->vector->size:0)==v&&(p->matrix?(int)p->matrix->size1:0)==r&&(p->matrix?(int)p->matrix->size2:0)==c,"size of the parameters");
    gsl_vector *k=apop_data_pack(p); (void)k; int q=0; if(v&&r){ /* apop_data_fill order: row by row, vector first */ for(int i=0;i<(v>r?v:r);i++){ } }
    else { for(int i=0;i<v;i++) sx_check_same(gsl_vector_get(p->vector,i),x[q++],"parameters"); for(int i=0;i<r;i++)for(int j=0;j<c;j++) sx_check_same(gsl_matrix_get(p->matrix,i,j),x[q++],"parameters"); } sx_reach("set parameters"); }
static void clear(void){ int shp=sx_choice("shape",4); ds e=shp==0?hx_ds("d",3,0,0,0):shp==1?hx_ds("d",0,2,3,0):shp==2?hx_ds("d",2,2,3,0):hx_ds("d",0,0,0,0); apop_data *d=shp==3?NULL:hx_build(&e); int w=shp==0?1:3; /* width: the matrix, or one for a vector alone */ apop_model m={.name="m",.vsize=sx_choice("v",3)-1,.msize1=sx_choice("m1",3)-1,.dsize=sx_choice("dsize",2)?-1:2}; m.msize2=m.msize1>0?2:m.msize1; int bad=(m.vsize<0||m.msize1<0||m.dsize<0)&&shp==3; apop_model o=m;
    apop_prep(d,&m); if(bad){ sx_check(m.error=='d',"size from data without data is an error"); return; } sx_check(!m.error,"no error"); sx_check(m.dsize==(o.dsize<0?w:o.dsize),"size of a draw"); int v=o.vsize<0?w:o.vsize,r=o.msize1<0?w:o.msize1,c=o.msize2<0?w:o.msize2; if(v||r*c){ sx_check(m.parameters!=NULL,"parameters allocated"); if(m.parameters){ sx_check((m.parameters->vector?(int)m.parameters->vector->size:0)==v&&(m.parameters->matrix?(int)m.parameters->matrix->size1:0)==r&&(m.parameters->matrix?(int)m.parameters->matrix->size2:0)==c,"size of the parameters"); } } else sx_check(!m.parameters,"no parameters"); sx_check(m.info!=NULL&&m.data==d,"info and data"); apop_data*p=m.parameters,*i=m.info; apop_prep(d,&m); sx_check(m.parameters==p&&m.info==i&&m.data==d&&!m.error,"preparing twice changes nothing"); sx_reach("clear"); }
/* without a closed form, the CDF is the share of the draws at or below the point, and draws are made only once */
static double DR[8]; static int nd; static int f_draws(double*o,gsl_rng*r,apop_model*m){ sx_check(nd<4,"as many draws as asked for"); for(int j=0;j<m->dsize;j++) o[j]=DR[2*nd+j]; nd++; return 0; }
static void simcdf(void){ int k=1+sx_choice("size",2); for(int i=0;i<8;i++) DR[i]=i%2&&k==1?0:sx_real("draw"); apop_model m={.name="m",.dsize=k,.draw=f_draws}; int n=2+sx_choice("draws",2); Apop_settings_add_group(&m,apop_cdf,.draws=n); ds e=sx_choice("shape",2)||k==2?hx_ds("d",0,2,k,0):hx_ds("d",1,0,0,0); apop_data *d=hx_build(&e);
    for(int t=0;t<2;t++){ int c=0; for(int i=0;i<n;i++){ int in=1; for(int j=0;j<k;j++) if(DR[2*i+j]>(e.hasm?e.m[0][j]:e.v[0])) in=0; c+=in; } sx_check_eq(apop_cdf(d,&m),c/(double)n,"share of draws at or below the point"); sx_check(nd==n,"draws are made once"); hx_check(d,&e,"data left alone",0);
        if(!t){ double x=sx_real("other"); if(e.hasm){ e.m[0][0]=x; gsl_matrix_set(d->matrix,0,0,x); } else { e.v[0]=x; gsl_vector_set(d->vector,0,x); } } } sx_reach("simulated cdf"); }
static void generic(void){ PV=sx_open("value",0,1); ds e=hx_ds("d",2,0,0,0); apop_data *d=hx_build(&e); int kind=sx_choice("kind",5); apop_model m={.name="m",.vsize=2,.dsize=1}; apop_opts.verbose=-1;
    if(kind==0){ m.p=f_p; sx_check_same(apop_p(d,&m),PV,"p"); sx_check(calls[0]==1&&seen_d==d&&seen_m==&m,"called with the data and the model"); sx_check_eq(apop_log_likelihood(d,&m),log(PV),"log likelihood is the log of p"); sx_check(calls[0]==2,"once"); }
    else if(kind==1){ m.log_likelihood=f_ll; sx_check_same(apop_log_likelihood(d,&m),PV,"log likelihood"); sx_check(calls[1]==1&&seen_d==d&&seen_m==&m,"called with the data and the model"); sx_check_eq(apop_p(d,&m),exp(PV),"p is exp of the log likelihood"); }
    else if(kind==2){ sx_check(isnan(apop_p(d,&m))&&isnan(apop_log_likelihood(d,&m)),"no density, no answer"); sx_check(isnan(apop_p(d,NULL))&&isnan(apop_log_likelihood(d,NULL)),"no model, no answer"); }
    else if(kind==3){ m.estimate=f_est; m.prep=f_prep; apop_model *o=apop_estimate(d,&m); sx_check(calls[2]==1&&calls[3]==1&&seen_d==d&&seen_m==o&&o!=&m,"estimation runs once, on a copy"); sx_check(!m.parameters&&!m.info&&!m.data,"original untouched"); sx_check(o->parameters&&o->parameters->vector->size==2,"parameters"); sx_check_same(gsl_vector_get(o->parameters->vector,0),PV,"estimated parameter"); sx_check(o->data==d,"data attached"); }
    else { m.draw=f_draw; m.cdf=f_cdf; m.parameters=apop_data_alloc(1); double o=0; sx_check(apop_draw(&o,NULL,&m)==0,"draw"); sx_check_same(o,PV,"draw"); sx_check(calls[4]==1&&seen_m==&m,"drawn once"); sx_check_same(apop_cdf(d,&m),PV,"cdf"); sx_check(calls[5]==1,"cdf called"); }
    hx_check(d,&e,"data left alone",0); sx_reach("generic"); }
void sx_main(void){ apop_opts.verbose=-1; switch(sx_choice("part",6)){ case 5: simcdf(); break; case 0: groups(); break; case 1: copies(); break; case 2: setp(); break; case 3: clear(); break; case 4: generic(); break; } }
