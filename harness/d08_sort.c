/* Sorting reorders whole rows into lexicographic order by the ranked columns. */
#include "hx.h"
static apop_data *x; static ds a; 
static const char *T[]={"b","B","a","C"};
/* ranks: 0 vector, 1 matrix col 0, 2 text, 3 weights, 4 row names (tag = matrix col 1, concrete) */
static int R; 
static double key(apop_data *o,int i,int k){ return k==0?gsl_vector_get(o->vector,i):k==1?gsl_matrix_get(o->matrix,i,0):gsl_vector_get(o->weights,i); }
void sx_main(void){
    apop_opts.verbose=-1;
    int kind=sx_choice("kind",8); R= kind<2?3:(kind<5?3:2); int d=sx_choice("desc",3); char asc="aDd"[d]; int inpl=sx_choice("in",2);
    if(kind>2&&d==1) return;
    if(kind>2&&inpl&&d==2) return;
    a=hx_ds("a",R,R,2,R); hx_names(&a,"a",R,2,1,1); hx_text(&a,"a",R,2,1);
    for(int i=0;i<R;i++) a.m[i][1]=i;
    for(int i=0;i<R;i++){ strcpy(a.text[i][0], T[kind==2||kind==3||kind==4? sx_choice("t",kind==2?4:3):0]); snprintf(a.text[i][1],24,"T%d",i); }
    for(int i=0;i<R;i++) snprintf(a.r[i],24,"%s%d",i%2?"n":"M",(i*2+1)%3);
    int ord[5],no=0;
    apop_data *so=NULL; x=hx_build(&a);
    ds s=hx_ds("s",0,0,0,0); s.hasm=1;s.nr=1;s.nc=2; s.hasv=s.hasw=1; s.nv=s.nw=1; s.v[0]=s.w[0]=s.m[0][0]=s.m[0][1]=NAN; s.tr=1;s.tc=2; 
    switch(kind){
    case 0: s.v[0]=-3; s.m[0][0]=2.5; ord[no++]=0; ord[no++]=1; break;
    case 1: s.w[0]=1; s.v[0]=7; ord[no++]=3; ord[no++]=0; break;
    case 2: strcpy(s.text[0][0],"4"); ord[no++]=2; s.v[0]=5; ord[no++]=0; break;
    case 3: strcpy(s.text[0][0],"1"); s.rn=1; strcpy(s.r[0],"2"); ord[no++]=2; ord[no++]=4; break;
    case 4: s.m[0][0]=0; strcpy(s.text[0][0],"8"); strcpy(s.text[0][1],"NaN"); ord[no++]=1; ord[no++]=2; break;
    case 5: s.v[0]=s.m[0][0]=s.w[0]=1; ord[no++]=0; ord[no++]=1; ord[no++]=3; break;   /* equal ranks: default order */
    case 6: s.rn=1; strcpy(s.r[0],"-2"); ord[no++]=4; break;
    case 7: ord[no++]=0; ord[no++]=1; break; /* default order: vector, matrix columns, ... (tags in column 1 settle the rest) */
    }
    if(kind<7) so=hx_build(&s);
    apop_data *o;
    if(d==0&&inpl==0) o=apop_data_sort(x,so); else o=apop_data_sort(x,so,.asc=asc,.inplace=inpl?'n':'y');
    if(inpl){ sx_check(o!=x,"not in place"); hx_check(x,&a,"original left alone",0); hx_scribble(x); } else sx_check(o==x,"in place");
    if(so) hx_check(so,&s,"sort order left alone",0);
    int seen[4]={0}; ds e=a; 
    for(int i=0;i<R;i++){ double tg=gsl_matrix_get(o->matrix,i,1); int k= tg==0?0:tg==1?1:tg==2?2:3; sx_check(k<R&&!seen[k],"each row appears once"); if(k>=R||seen[k]) return; seen[k]=1;
        e.v[i]=a.v[k]; e.w[i]=a.w[k]; for(int j=0;j<2;j++){ e.m[i][j]=a.m[k][j]; strcpy(e.text[i][j],a.text[k][j]); } strcpy(e.r[i],a.r[k]); }
    hx_check(o,&e,"rows move whole",0);
    for(int i=0;i<R;i++){ int at=apop_name_find(o->names,e.r[i],'r'); sx_check(at>=0&&!strcasecmp(e.r[at],e.r[i]),"row still found by name"); }
    for(int i=0;i+1<R;i++) for(int q=0;q<no;q++){ int k=ord[q]; 
        if(k==2||k==4){ int c= k==2?strcasecmp(e.text[i][0],e.text[i+1][0]):strcasecmp(e.r[i],e.r[i+1]); if(d) c=-c; sx_check(c<=0,"rows are in order (text)"); if(c<0) break; }
        else { double p=key(o,i,k),r=key(o,i+1,k); if(d) sx_check_le(r,p,"rows are in order"); else sx_check_le(p,r,"rows are in order"); if(p!=r) break; } }
    sx_reach("sorted");
}
