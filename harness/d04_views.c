/* Row, column and submatrix views are windows on the data: same cells, same names, writes go through. */
#include "hx.h"
static void cpy(char *a, const char *b){ snprintf(a,24,"%s",b); }
void sx_main(void){
    apop_opts.verbose=-1;
    int r=3,c=3, v=sx_choice("v",2), txt=sx_choice("text",2), named=sx_choice("named",2), kind=sx_choice("kind",3);
    ds a=hx_ds("a",v?r:0,r,c,v?r:0); if(named) hx_names(&a,"a",r,c,v,1); if(txt) hx_text(&a,"a",r,2,named);
    apop_data *x=hx_build(&a); int s=sx_choice("start",3), n=1+sx_choice("len",3);
    if (kind==0){ if (s+n>r) return;
        apop_data *w=Apop_rs(x,s,n); ds e=a; e.nr=n; if(v){e.nv=e.nw=n;} if(named) e.rn=n; if(txt) e.tr=n;
        for(int i=0;i<n;i++){ e.v[i]=a.v[s+i]; e.w[i]=a.w[s+i]; cpy(e.r[i],a.r[s+i]); for(int j=0;j<c;j++) e.m[i][j]=a.m[s+i][j]; for(int j=0;j<2;j++) cpy(e.text[i][j],a.text[s+i][j]); }
        hx_check(w,&e,"row view",0);
        apop_data *k=apop_data_copy(w); hx_check(k,&e,"copy of a row view",0);
        double z=sx_real("z"); apop_data_set(w,n-1,c-1,z); a.m[s+n-1][c-1]=z; if(v){ apop_data_set(w,0,-1,z); a.v[s]=z; gsl_vector_set(w->weights,n-1,z); a.w[s+n-1]=z; }
        hx_check(x,&a,"write through a row view",0); hx_check(k,&e,"the copy is separate",0); 
        if (named) sx_check(apop_name_find(w->names,a.r[s+n-1],'r')==n-1,"row name found in view");
        sx_reach("rows");
    } else if (kind==1){ apop_data *w=Apop_cs(x,s,n); if (s+n>c){ sx_check(!w,"column view out of bounds is NULL"); return; }
        ds e=a; e.nc=n; e.hasv=e.nv=e.hasvn=0; e.tr=e.tc=0; e.tn=0; if(named) e.cn=n; for(int i=0;i<r;i++) for(int j=0;j<n;j++){ e.m[i][j]=a.m[i][s+j]; cpy(e.c[j],a.c[s+j]); }
        if (w->names) w->names->textct=0;
        hx_check(w,&e,"column view",0); double z=sx_real("z"); apop_data_set(w,1,n-1,z); a.m[1][s+n-1]=z; hx_check(x,&a,"write through a column view",0);
        gsl_matrix *sm=Apop_subm(x->matrix,1,s,2,n); for(int i=0;i<2;i++) for(int j=0;j<n;j++) sx_check_same(gsl_matrix_get(sm,i,j),a.m[1+i][s+j],"submatrix");
        sx_reach("cols");
    } else {
        gsl_vector *rv=Apop_rv(x,s); hx_vec(rv,a.m[s],c,"row vector"); double col[3]; for(int i=0;i<r;i++) col[i]=a.m[i][s]; gsl_vector *cv=Apop_cv(x,s); hx_vec(cv,col,r,"column vector");
        gsl_vector *vv=Apop_cv(x,-1); hx_vec(vv,a.v,v?r:0,"vector as column -1"); sx_check(!Apop_rv(x,r),"row past the end"); sx_check(!Apop_cv(x,c),"column past the end");
        hx_vec(Apop_mrv(x->matrix,s),a.m[s],c,"matrix row"); hx_vec(Apop_mcv(x->matrix,s),col,r,"matrix column");
        if (named){ Apop_col_tv(x,a.c[s],ctv); hx_vec(ctv,col,r,"column by name"); Apop_row_tv(x,a.r[s],rtv); hx_vec(rtv,a.m[s],c,"row by name"); Apop_row_t(x,a.r[s],rt); hx_vec(Apop_rv(rt,0),a.m[s],c,"row set by name"); Apop_col_t(x,a.c[s],ct); hx_vec(Apop_cv(ct,0),col,r,"column set by name"); }
        /* copying one row over another */
        int t=sx_choice("to",3); if (t!=s){ apop_data_memcpy(Apop_r(x,t),Apop_r(x,s)); for(int j=0;j<c;j++) a.m[t][j]=a.m[s][j]; a.v[t]=a.v[s]; a.w[t]=a.w[s]; cpy(a.r[t],a.r[s]); for(int j=0;j<2;j++) cpy(a.text[t][j],a.text[s][j]); hx_check(x,&a,"row copied over a row",0); sx_reach("row over row"); }
    }
}
