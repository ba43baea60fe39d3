/* Packing lists vector, matrix rows, weights, page by page, skipping <info> pages; unpacking is its inverse. */
#include "hx.h"
static int n; static double want[64];
static void lay(const ds *d){ for(int i=0;i<d->nv;i++) want[n++]=d->v[i]; for(int i=0;i<d->nr;i++) for(int j=0;j<d->nc;j++) want[n++]=d->m[i][j]; for(int i=0;i<d->nw;i++) want[n++]=d->w[i]; }
static void unlay(ds *d, const double *z, int *k){ for(int i=0;i<d->nv;i++) d->v[i]=z[(*k)++]; for(int i=0;i<d->nr;i++) for(int j=0;j<d->nc;j++) d->m[i][j]=z[(*k)++]; for(int i=0;i<d->nw;i++) d->w[i]=z[(*k)++]; }
void sx_main(void){
    apop_opts.verbose=-1;
    int shape=sx_choice("shape",6), pages=1+sx_choice("pages",shape==0||shape==5?4:3), more=sx_choice("more",3), info=sx_choice("info",3), own=sx_choice("own",2);
    if(pages==4&&(own||more==2)) return; ds d[4]; apop_data *p[4]; int isinfo[4]={0};
    for(int k=0;k<pages;k++){
        char pf[3]={'a'+k,0};
        int s = pages==4&&k? (k==3?sx_choice("last",2)*5:sx_choice("info page",2)) : k? sx_choice("sub",4) : shape;
        switch(s){ case 0: d[k]=hx_ds(pf,2,0,0,0); break; case 1: d[k]=hx_ds(pf,0,2,2,0); break; case 2: d[k]=hx_ds(pf,2,2,3,2); break; case 3: d[k]=hx_ds(pf,0,0,0,0); hx_text(&d[k],pf,2,1,0); break; case 4: d[k]=hx_ds(pf,3,2,2,0); break; case 5: d[k]=hx_ds(pf,0,0,0,2); break; }
        hx_names(&d[k],pf,d[k].nr,d[k].nc,d[k].hasv,1);
        if(k){ isinfo[k]=pages==4?k<3:sx_choice("kind",2); snprintf(d[k].title,24,isinfo[k]?"<Inf %d>":"p<%d>",k); }
        p[k]=hx_build(&d[k]); if(k) p[k-1]->more=p[k];
    }
    int useinfo=info>0, allp=more<2; char mc="yYn"[more], ic="nyY"[info];
    n=0; for(int k=0;k<pages;k++) if((!k||allp)&&(useinfo||!isinfo[k])) lay(&d[k]);
    gsl_vector *out; 
    if(own){ if(n==0) return; gsl_vector *o=gsl_vector_calloc(n); out=apop_data_pack(p[0],.out=o,.more_pages=mc,.use_info_pages=ic); sx_check(out==o,"packing into a given vector returns it");
        gsl_vector *bad=gsl_vector_calloc(n+1); sx_check(apop_data_pack(p[0],.out=bad,.more_pages=mc,.use_info_pages=ic)==NULL,"wrong size refused"); }
    else if(more==0&&info==0) out=apop_data_pack(p[0]); else out=apop_data_pack(p[0],.more_pages=mc,.use_info_pages=ic);
    hx_vec(out,want,n,"packed");
    for(int k=0;k<pages;k++) hx_check(p[k],&d[k],"packing leaves the input alone",0);
    if(!out) return;
    sx_reach("packed");
    double z[64]; for(int i=0;i<n;i++) z[i]=sx_real("z");
    gsl_vector *in=hx_v(z,n);
    if(more==2&&pages>1) p[0]->more=NULL;     /* only the first page was packed */
    if(info==0) apop_data_unpack(in,p[0]); else apop_data_unpack(in,p[0],.use_info_pages=ic);
    int k2=0; for(int k=0;k<pages;k++) if((!k||allp)&&(useinfo||!isinfo[k])) unlay(&d[k],z,&k2);
    for(int k=0;k<pages;k++) hx_check(p[k],&d[k],"unpacked",0);
    hx_vec(in,z,n,"unpacking leaves its input alone");
    sx_reach("unpacked");
}
