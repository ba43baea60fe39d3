/* Rank compression counts each value; expansion lists each value as often as counted. */
#include "hx.h"
void sx_main(void){
    apop_opts.verbose=-1;
    if(sx_choice("op",2)==0){
        int nv=sx_choice("nv",3),nm=sx_choice("nm",2),mb=sx_choice("minbins",5); if(!nv&&!nm) return; apop_data *d=apop_data_alloc(nv,nm,nm?2:0); int ct[8]={0},mx=0;
        for(int i=0;i<nv;i++){ double q=sx_in("v",0,3.9); int k=q; apop_data_set(d,i,-1,q); ct[k]++; if(k>mx) mx=k; } for(int i=0;i<nm;i++) for(int j=0;j<2;j++){ double q=sx_in("m",0,2.9); int k=q; apop_data_set(d,i,j,q); ct[k]++; if(k>mx) mx=k; }
        int req=mb?mb-1:0; if(req>mx) mx=req; apop_data *o= mb? apop_data_rank_compress(d,.min_bins=req):apop_data_rank_compress(d);
        sx_check(o&&o->matrix&&o->matrix->size1==1&&(int)o->matrix->size2==mx+1,"one bin per value up to the largest"); if(!o||!o->matrix||(int)o->matrix->size2!=mx+1) return; for(int k=0;k<=mx;k++) sx_check_eq(apop_data_get(o,0,k),ct[k],"bin holds its count");
        apop_data *b=apop_data_rank_expand(o); int n=nv+2*nm; sx_check(b&&b->vector&&(int)b->vector->size==n,"expansion has every observation"); if(b&&b->vector&&(int)b->vector->size==n){ int c2[8]={0}; for(int i=0;i<n;i++) c2[(int)apop_data_get(b,i,-1)]++; for(int k=0;k<=mx;k++) sx_check(c2[k]==ct[k],"expansion restores each count"); }
        sx_reach("compress");
    } else {
        int r=1+sx_choice("r",2); apop_data *d=apop_data_alloc(r,3); int ct[3]={0},n=0; for(int i=0;i<r;i++) for(int j=0;j<3;j++){ int k=sx_choice("c",3); apop_data_set(d,i,j,k); ct[j]+=k; n+=k; }
        apop_data *b=apop_data_rank_expand(d); if(!n){ sx_check(!b,"no counts gives NULL"); return; } sx_check(b&&b->vector&&(int)b->vector->size==n,"expansion length is the total count"); int c2[3]={0}; for(int i=0;i<n;i++) c2[(int)apop_data_get(b,i,-1)]++; for(int k=0;k<3;k++) sx_check(c2[k]==ct[k],"each value listed as often as counted");
        int mx=0; for(int k=0;k<3;k++) if(ct[k]) mx=k; apop_data *o=apop_data_rank_compress(b,.min_bins=2); sx_check(o&&(int)o->matrix->size2==3,"min_bins keeps empty bins"); for(int k=0;k<3;k++) sx_check_eq(apop_data_get(o,0,k),ct[k],"round trip"); (void)mx; sx_reach("expand"); }
}
