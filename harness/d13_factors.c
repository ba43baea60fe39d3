/* Unique elements, factors, dummies. */
#include "hx.h"
static const char *W[]={"b%s","a","B","c"};
static void ins(double *u,int *n,double x){ int i=0; while(i<*n&&u[i]<x) i++; if(i<*n&&u[i]==x) return; for(int k=(*n)++;k>i;k--) u[k]=u[k-1]; u[i]=x; }
static void ckp(apop_data *d,const char *nm,int n,double *u,const char **s,apop_data *ret){ apop_data *p=apop_data_get_page(d,nm,.match='e'); sx_check(p!=NULL,"category page"); if(!p) return; if(ret) sx_check(ret==p,"returns the category page"); sx_check((int)p->textsize[0]==n&&(int)p->textsize[1]==1,"categories listed once"); if((int)p->textsize[0]!=n) return; for(int i=0;i<n;i++){ if(s) sx_check(!strcmp(p->text[i][0],s[i]),"category name"); sx_check(p->vector&&(int)p->vector->size==n,"category values"); if(!s) sx_check_same(gsl_vector_get(p->vector,i),u[i],"category value"); } }
/* a list of categories that is already there is used, and extended (once per category) by those it lacks */
static void later(void){ int num=sx_choice("number",2),dum=sx_choice("dummies",2),kf=dum?sx_choice("keep",2):1,ne=1+sx_choice("existing",2),nm=sx_choice("named",2),r=3; double ex[2],val[3],lst[5]; const char *es[2],*ls[5],*tv[3]; int n=0,at[3]; static const char *T[]={"m","c","x","M"};
    ds b=hx_ds("b",0,ne,1,0),a=hx_ds("a",0,r,1,0); if(num){ for(int i=0;i<ne;i++) ex[i]=b.m[i][0]; for(int i=0;i<r;i++) val[i]=a.m[i][0]; if(ne==2) sx_assume_lt(ex[0],ex[1]); }
    else { hx_text(&b,"b",ne,1,0); hx_text(&a,"a",r,1,0); static const char *E[]={"c","m"}; for(int i=0;i<ne;i++) strcpy(b.text[i][0],es[i]=E[i]); for(int i=0;i<r;i++) strcpy(a.text[i][0],tv[i]=T[sx_choice("t",4)]); }
    if(nm){ strcpy(b.c[0],"Kind"); strcpy(b.t[0],"Kind"); strcpy(a.c[0],"Kind"); strcpy(a.t[0],"Kind"); b.cn=a.cn=1; if(!num) b.tn=a.tn=1; }
    apop_data *y=hx_build(&b),*x=hx_build(&a); apop_data *f=apop_data_to_factors(y,.intype=num?'d':'t',.outcol=-1); if(!f) return; apop_data_add_page(x,apop_data_copy(f),f->names->title); if(nm&&sx_choice("another",2)) apop_data_add_page(x,apop_data_alloc(),"<categories for kind>");
    for(;n<ne;n++){ if(num) lst[n]=ex[n]; else ls[n]=es[n]; } for(int i=0;i<r;i++){ int k=0; for(;k<n;k++) if(num?lst[k]==val[i]:!strcmp(ls[k],tv[i])) break; at[i]=k; if(k==n){ if(num) lst[n]=val[i]; else ls[n]=tv[i]; n++; } }
    if(!kf&&ne<2) return;
    apop_data *o=dum?apop_data_to_dummies(x,.col=0,.type=num?'d':'t',.keep_first=kf?'y':'n'):apop_data_to_factors(x,.intype=num?'d':'t',.outcol=-1); apop_data *p=apop_data_get_page(x,f->names->title,.match='e'); sx_check(p!=NULL&&(dum||p==o),"list of categories used"); if(!p) return; sx_check((int)p->textsize[0]==n&&p->vector&&(int)p->vector->size==n,"each category listed once"); if((int)p->textsize[0]!=n||!p->vector||(int)p->vector->size!=n) return;
    for(int i=0;i<n;i++) if(num) sx_check_same(gsl_vector_get(p->vector,i),lst[i],"category value"); else { sx_check(!strcmp(p->text[i][0],ls[i]),"category name"); sx_check(gsl_vector_get(p->vector,i)==i,"category number"); }
    if(dum){ int nd=kf?n:n-1; sx_check(o&&o->matrix&&(int)o->matrix->size2==nd&&(int)o->matrix->size1==r,"a dummy per category"); if(!o||!o->matrix||(int)o->matrix->size2!=nd) return; for(int i=0;i<r;i++) for(int j=0;j<nd;j++) sx_check_eq(gsl_matrix_get(o->matrix,i,j),at[i]==j+!kf,"dummy marks its category"); sx_check(o->names->colct==nd,"dummies named"); if(!num) for(int j=0;j<nd&&j<o->names->colct;j++) sx_check(!strcmp(o->names->col[j],ls[j+!kf]),"dummy named for its category"); }
    else for(int i=0;i<r;i++) sx_check_eq(gsl_vector_get(x->vector,i),at[i],"factor is the category's place");
    sx_check(x->matrix&&(int)x->matrix->size2==1,"data left alone"); for(int i=0;i<r;i++) sx_check_same(gsl_matrix_get(x->matrix,i,0),a.m[i][0],"data left alone"); sx_reach("later categories"); }
void sx_main(void){
    apop_opts.verbose=-1; int op=sx_choice("op",6); if(op==5){ later(); return; }
    if(op==0){ int n=1+sx_choice("n",4),nn=0,nu=0; double x[5],u[5]; for(int i=0;i<n;i++){ if(i<2&&sx_choice("nan",2)){ x[i]=NAN; nn=1; } else { x[i]=sx_real("x"); ins(u,&nu,x[i]); } } gsl_vector *v=hx_v(x,n),*o=apop_vector_unique_elements(v); sx_check(o&&(int)o->size==nu+nn,"each value once"); if(!o||(int)o->size!=nu+nn) return; for(int i=0;i<nu;i++) sx_check_same(gsl_vector_get(o,i),u[i],"sorted"); if(nn) sx_check(isnan(gsl_vector_get(o,nu)),"missing goes last"); hx_vec(v,x,n,"input left alone"); sx_reach("unique"); return; }
    int r=3; static const char *sorted[]={"B","a","b%s","c"}; int idx[3],used[4]={0},pos[4],nu=0; const char *us[4];
    if(op==1||op==2){ for(int i=0;i<r;i++){ idx[i]=sx_choice("w",4); for(int k=0;k<4;k++) if(!strcmp(sorted[k],W[idx[i]])){ idx[i]=k; used[k]=1; break; } } for(int k=0;k<4;k++) if(used[k]){ pos[k]=nu; us[nu++]=sorted[k]; } }
    int nm=sx_choice("named",2);
    if(op==1){ /* text to factors */ int oc=sx_choice("out",3)-1,have=sx_choice("have",2); ds a=hx_ds("a",have?r:0,have?r:0,have?2:0,0); hx_names(&a,"a",0,0,0,1); hx_text(&a,"a",r,2,nm); for(int i=0;i<r;i++) strcpy(a.text[i][1],sorted[idx[i]]); apop_data *x=hx_build(&a);
        apop_data *u=apop_text_unique_elements(x,1); sx_check((int)u->textsize[0]==nu&&(int)u->textsize[1]==1,"each text once"); if((int)u->textsize[0]==nu) for(int i=0;i<nu;i++) sx_check(!strcmp(u->text[i][0],us[i]),"sorted text");
        apop_data *o=apop_data_to_factors(x,.incol=1,.outcol=oc); ckp(x,nm?"<categories for atn1>":"<categories for text column 1>",nu,NULL,us,o); 
        for(int i=0;i<r;i++) sx_check_eq(apop_data_get(x,i,oc),pos[idx[i]],"factor is the category's place"); if(have) for(int i=0;i<r;i++) for(int j=-1;j<2;j++) if(j!=oc) sx_check_same(apop_data_get(x,i,j),j==-1?a.v[i]:a.m[i][j],"other columns left alone"); sx_check(apop_data_get_factor_names(x,.col=1,.type='t')==o,"factor names found"); sx_reach("text factors"); return; }
    if(op==2){ /* text dummies */ int kf=sx_choice("keep",2),ap=sx_choice("append",4); if(!kf&&nu<2) return; ds a=hx_ds("a",r,ap==3?0:r,ap==3?0:2,0); hx_names(&a,"a",0,ap==3?0:2,1,1); hx_text(&a,"a",r,2,nm); for(int i=0;i<r;i++) strcpy(a.text[i][0],sorted[idx[i]]); apop_data *x=hx_build(&a);
        apop_data *o= ap==0? apop_data_to_dummies(x,.keep_first=kf?'y':'n') : apop_data_to_dummies(x,.col=0,.type='t',.keep_first=kf?'y':'n',.append="neiy"[ap]); int base=ap&&ap!=3?2:0; int nd=kf?nu:nu-1; ckp(x,nm?"<categories for atn0>":"<categories for text column 0>",nu,NULL,us,NULL); sx_check(ap?o==x:o!=x,"result set"); sx_check(o->matrix&&(int)o->matrix->size1==r&&(int)o->matrix->size2==base+nd,"dummy columns"); if(!o->matrix||(int)o->matrix->size2!=base+nd) return;
        for(int i=0;i<r;i++){ for(int j=0;j<base;j++) sx_check_same(gsl_matrix_get(o->matrix,i,j),a.m[i][j],"data left alone"); for(int j=0;j<nd;j++) sx_check_eq(gsl_matrix_get(o->matrix,i,base+j), pos[idx[i]]==j+!kf,"dummy marks its category"); } sx_check(o->names->colct==base+nd,"dummy names"); for(int j=0;j<nd&&base+j<o->names->colct;j++) sx_check(!strcmp(o->names->col[base+j],us[j+!kf]),"dummy named for its category"); sx_reach("text dummies"); return; }
    /* numeric */
    int col=sx_choice("col",3)-1; ds a=hx_ds("a",r,r,2,0); int part=nm?sx_choice("partly named",2):0; if(nm) hx_names(&a,"a",0,part?1:2,1,0); double *src[3]; double u[4]; nu=0; int p[3]; for(int i=0;i<r;i++) src[i]= col==-1?&a.v[i]:&a.m[i][col]; for(int i=0;i<r;i++) ins(u,&nu,*src[i]); for(int i=0;i<r;i++) for(int k=0;k<nu;k++) if(u[k]==*src[i]){ p[i]=k; break; }
    apop_data *x=hx_build(&a); const char *pg= col==-1?(nm?"<categories for avec>":"<categories for vector>"):nm?hxl(hxn("<categories for ac",col),"")+0:hxl(hxn("<categories for column ",col),""); char pgb[60]; snprintf(pgb,60,"%s",pg); if(part&&col==1) strcpy(pgb,"<categories for column 1>"); else if(col>=0){ snprintf(pgb,60,nm?"<categories for ac%d>":"<categories for column %d>",col); }
    if(op==3){ if(part) return; int oc=sx_choice("out",3)-1; apop_data *o=apop_data_to_factors(x,.intype='d',.incol=col,.outcol=oc); ckp(x,pgb,nu,u,NULL,o); for(int i=0;i<r;i++) for(int j=-1;j<2;j++) if(j==oc) sx_check_eq(apop_data_get(x,i,j),p[i],"factor is the category's place"); else sx_check_same(apop_data_get(x,i,j),j==-1?a.v[i]:a.m[i][j],"other columns left alone"); sx_reach("number factors"); return; }
    int kf=sx_choice("keep",2),ap=sx_choice("append",3),rm=sx_choice("remove",2); if(!kf&&nu<2) return; if(part&&(rm||ap!=2||col!=1)) return; apop_data *o=apop_data_to_dummies(x,.col=col,.type='d',.keep_first=kf?'y':'n',.append="nei"[ap],.remove=rm?'y':'n'); int nd=kf?nu:nu-1;
    int lay[12],k=0; /* column plan of the main set: >=0 original column, 100+j dummy j */
    for(int j=-1;j<2;j++){ if(j>=0&&!(rm&&col==j)) lay[k++]=j; if(ap==2&&j==col) for(int q=0;q<nd;q++) lay[k++]=100+q; } if(ap==1) for(int q=0;q<nd;q++) lay[k++]=100+q;
    ckp(x,pgb,nu,u,NULL,NULL); sx_check((x->vector!=NULL)==!(rm&&col==-1),"vector removed only on request"); if(x->vector) hx_vec(x->vector,a.v,r,"vector left alone");
    sx_check(x->matrix&&(int)x->matrix->size2==k&&(int)x->matrix->size1==r,"columns of the main set"); if(!x->matrix||(int)x->matrix->size2!=k) return;
    for(int i=0;i<r;i++) for(int j=0;j<k;j++) if(lay[j]<100) sx_check_same(gsl_matrix_get(x->matrix,i,j),a.m[i][lay[j]],"data left alone"); else sx_check_eq(gsl_matrix_get(x->matrix,i,j),p[i]==lay[j]-100+!kf,"dummy marks its category");
    if(part) { sx_check(x->names->colct==k&&!strcmp(x->names->col[0],"ac0"),"every column named"); for(int j=2;j<k&&j<x->names->colct;j++) sx_check(strstr(x->names->col[j]," dummy ")!=NULL,"dummies named"); }
    else if(nm){ sx_check(x->names->vector&&!strcmp(x->names->vector,"avec")||rm&&col==-1&&!x->names->vector,"name of the vector goes with it"); sx_check(x->names->colct==k,"every column named"); for(int j=0;j<k&&j<x->names->colct;j++) if(lay[j]<100) sx_check(!strcmp(x->names->col[j],a.c[lay[j]]),"column keeps its name"); }
    if(!ap){ sx_check(o!=x&&o->matrix&&(int)o->matrix->size2==nd,"dummy set"); if(o->matrix&&(int)o->matrix->size2==nd) for(int i=0;i<r;i++)for(int j=0;j<nd;j++) sx_check_eq(gsl_matrix_get(o->matrix,i,j),p[i]==j+!kf,"dummy marks its category"); sx_check(o->names->colct==nd,"dummies named"); } else sx_check(o==x,"appending returns the main set");
    sx_reach("number dummies");
}
