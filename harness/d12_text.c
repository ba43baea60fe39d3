/* The text grid: resizing keeps what fits, writing copies, pasting joins, matching extracts. */
#include "hx.h"
static int pr_c; static int pr_out(apop_data *d,int i,int j,void *m){ return *(int*)m>>((i*pr_c+j)%6)&1; }
static void ckt(apop_data *o,int r,int c,char g[6][6][24],const char*l){ int ok=(int)o->textsize[0]==r&&(int)o->textsize[1]==c; sx_check(ok||(r*c==0&&o->textsize[0]*o->textsize[1]==0),hxl(l,"size")); if(ok) for(int i=0;i<r;i++)for(int j=0;j<c;j++) sx_check(o->text[i][j]&&!strcmp(o->text[i][j],g[i][j]),l); }
void sx_main(void){
    apop_opts.verbose=-1; char g[6][6][24]; memset(g,0,sizeof g);
    switch(sx_choice("op",5)){
    case 0: { int r=1+sx_choice("r",3),c=1+sx_choice("c",3); apop_data *d=sx_choice("fresh",2)?apop_data_alloc():NULL,*o=apop_text_alloc(d,r,c); sx_check(o&&(!d||o==d),"returns its input"); ckt(o,r,c,g,"new grid is blank");
        for(int i=0;i<r;i++)for(int j=0;j<c;j++) if((i+j)%3!=2){ snprintf(g[i][j],24,"%%s%d,%d",i,j); sx_check(!apop_text_set(o,i,j,"%s",g[i][j]),"set succeeds"); } ckt(o,r,c,g,"set"); sx_check(apop_text_set(o,r,0,"x")&&apop_text_set(o,0,c,"x"),"no writing outside the grid"); ckt(o,r,c,g,"refusal changes nothing");
        for(int k=0;k<2;k++){ int R=1+sx_choice("R",4),C=1+sx_choice("C",4); if(k&&(R==4||C==4)) return; sx_check(apop_text_alloc(o,R,C)==o,"resize returns its input"); for(int i=0;i<6;i++)for(int j=0;j<6;j++) if(i>=R||j>=C) g[i][j][0]=0; ckt(o,R,C,g,"resize keeps what fits, blanks the rest"); strcpy(g[R-1][C-1],"last"); apop_text_set(o,R-1,C-1,"%s","last"); ckt(o,R,C,g,"resized grid is writable"); r=R;c=C; }
        sx_check(apop_text_alloc(o,0,3)==o&&apop_text_alloc(o,2,0)==o,"a one-sided zero does nothing"); ckt(o,r,c,g,"one-sided zero leaves the grid"); apop_text_alloc(o,0,0); sx_check(!o->textsize[0]&&!o->textsize[1],"zero by zero clears"); apop_data_free(o); sx_reach("resize"); break; }
    case 1: { int r=1+sx_choice("r",2),c=1+sx_choice("c",2); apop_data *o=apop_text_alloc(NULL,r,c); char *l[5]; int n=0; for(int i=0;i<r;i++)for(int j=0;j<c;j++){ snprintf(g[i][j],24,"s%d,%d",i,j); l[n++]=g[i][j]; } l[n]=NULL; sx_check(apop_text_fill_base(o,l)==o,"fill returns its input"); ckt(o,r,c,g,"filled by rows");
        char buf[24]="abc"; apop_text_set(o,r-1,c-1,"%s",buf); buf[0]='X'; strcpy(g[r-1][c-1],"abc"); ckt(o,r,c,g,"set copies"); apop_text_set(o,0,0,"%d-%s",7,"q"); strcpy(g[0][0],"7-q"); ckt(o,r,c,g,"set formats"); apop_text_set(o,0,0,NULL); sx_check(!strcmp(o->text[0][0],apop_opts.nan_string),"NULL writes the missing marker"); sx_check(apop_text_set(NULL,0,0,"x")==-1,"no data set"); sx_reach("fill"); break; }
    case 2: { int r=sx_choice("r",4),c=1+sx_choice("c",3),pruned=r?sx_choice("pruned",2):0; apop_data *o=r?apop_text_alloc(NULL,r,c):sx_choice("nul",2)?NULL:apop_data_alloc(); for(int i=0;i<r;i++)for(int j=0;j<c;j++) if(pruned?(i+j)%3!=2:!sx_choice("blank",2)) { snprintf(g[i][j],24,"<%d%%s%d>",i,j); apop_text_set(o,i,j,"%s",g[i][j]); } if(r*c>4) for(int k=0;k<0;k++);
        int bt=sx_choice("between",2),bf=sx_choice("before",2),af=pruned?bf:sx_choice("after",2),bc=sx_choice("cols",2); char want[400]=""; if(bf) strcat(want,"(b4:"); const char *B=bt?"; ":" ", *C=bc?"|":B; for(int i=0;i<r;i++){ for(int j=0;j<c;j++){ strcat(want,g[i][j]); if(j<c-1) strcat(want,C); } if(i<r-1) strcat(want,B); } if(af) strcat(want,"!after");
        char *s; if(pruned){ int mask=sx_choice("keep",1<<(r*c>6?6:r*c)); want[0]=0; if(bf) strcat(want,"(b4:"); int rows=0; pr_c=c; for(int i=0;i<r;i++){ int cols=0; for(int j=0;j<c;j++){ if(pr_out(NULL,i,j,&mask)) continue; strcat(want,cols++?C:rows++?B:""); strcat(want,g[i][j]); } } if(af) strcat(want,"!after"); pr_c=c; s=apop_text_paste(o,.between=bt?"; ":NULL,.before=bf?"(b4:":NULL,.after=af?"!after":NULL,.between_cols=bc?"|":NULL,.prune=pr_out,.prune_parameter=&mask); if(!*want) sx_check(!s||!*s,"nothing left"); else sx_check(s&&!strcmp(s,want),"pasted what was not pruned"); sx_reach("prune"); return; }
        if(!bt&&!bf&&!af&&!bc) s=apop_text_paste(o); else s=apop_text_paste(o,.between=bt?"; ":NULL,.before=bf?"(b4:":NULL,.after=af?"!after":NULL,.between_cols=bc?"|":NULL); if(!*want&&!s) return; sx_check(s&&!strcmp(s,want),"pasted"); sx_reach("paste"); break; }
    case 3: { static const struct { const char *re,*s; int cs; int n,c; const char *m[6]; } T[]={ {"([a-z])([0-9])","a1 B2,c3",0,3,2,{"a","1","B","2","c","3"}}, {"([a-z])([0-9])","a1 B2,c3",1,2,2,{"a","1","c","3"}}, {"(x*)","axb",0,3,1,{"","x",""}}, {"(q)","none",0,0,1,{0}}, {"a(b)?c","acabc",0,2,1,{"","b"}}, {"^(a)","aaa",0,1,1,{"a"}}, {"(.*),(.*)","k,v",0,1,2,{"k","v"}}, {"\\((.)\\)","(p)(q)",0,2,1,{"p","q"}}, {"(a)|(b)","ab",0,2,2,{"a","","","b"}} };
        int k=sx_choice("case",9); apop_data *sub=(void*)1; int n=T[k].cs?apop_regex(T[k].s,T[k].re,.substrings=&sub,.use_case='y'):apop_regex(T[k].s,T[k].re,.substrings=&sub); sx_check(n==T[k].n,"number of matches"); sx_check(sub&&(int)sub->textsize[0]==T[k].n,"one row per match"); if(sub&&(int)sub->textsize[0]==T[k].n&&T[k].n){ sx_check((int)sub->textsize[1]==T[k].c,"one column per group"); for(int i=0;i<T[k].n;i++)for(int j=0;j<T[k].c;j++) sx_check(!strcmp(sub->text[i][j],T[k].m[i*T[k].c+j]),"matched group"); }
        sx_check(apop_regex(T[k].s,T[k].re,.use_case=T[k].cs?'y':'n')==(T[k].n>0),"plain match"); sx_reach("regex"); break; }
    case 4: { apop_data *sub=(void*)1; sx_check(apop_regex(NULL,"a",&sub)==0&&sub==NULL,"no string"); sx_check(apop_regex("a",NULL)==-1,"no pattern"); sx_check(apop_regex("a","(")==-1,"bad pattern"); sx_check(apop_regex("P value","p.val")==1&&apop_regex("P value","p.val",.use_case='y')==0,"case"); sx_reach("edge"); break; }
    }
}
