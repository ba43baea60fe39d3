/* Pages: adding appends, retrieval by title finds the first match, removal unlinks exactly that page. */
#include "hx.h"
void sx_main(void){
    apop_opts.verbose=-1;
    ds d[4]; apop_data *p[4]; const char *titles[4]={"main","Alpha","beta",NULL};
    int dup=sx_choice("dup",2); if(dup) titles[2]="ALPHA";
    int untitled=sx_choice("untitled",2);
    for(int i=0;i<4;i++){ char pf[2]={'a'+i,0}; d[i]=hx_ds(pf,1,0,0,0); d[i].hastitle=0; p[i]=hx_build(&d[i]); }
    apop_name_add(p[0]->names,"main",'h');
    int n=1; 
    if (untitled){ sx_check(apop_data_add_page(p[0],p[3],NULL)==p[3],"returns the page"); }
    sx_check(apop_data_add_page(p[0],p[1],titles[1])==p[1],"returns the page"); sx_check(apop_data_add_page(p[0],p[2],titles[2])==p[2],"returns the page");
    apop_data *q=p[0]; if (untitled){ sx_check(q->more==p[3],"order"); q=q->more; sx_check(!q->names->title,"untitled"); } sx_check(q->more==p[1]&&p[1]->more==p[2]&&!p[2]->more,"appended in order");
    sx_check(!strcmp(p[1]->names->title,titles[1])&&!strcmp(p[2]->names->title,titles[2]),"titles");
    int mode=sx_choice("match",3); const char *want=((const char*[]){"alpha","Alpha","ALPHA","beta","BET","main","nil","Alph","bet"})[sx_choice("want",9)]; char mc="cer"[mode];
    apop_data *expect=NULL, *all[3]={p[0],p[1],p[2]}; 
    for(int i=0;i<3&&!expect;i++){ const char *t=titles[i]; int ok= mode==0?!strcasecmp(t,want): mode==1?!strcmp(t,want): strcasestr(t,want)!=NULL; if(ok) expect=all[i]; }
    sx_check(apop_data_get_page(p[0],want,.match=mc)==expect,"get page");
    if(expect) sx_reach("found"); else sx_reach("missing");
    sx_check(!apop_data_get_page(p[0]),"default title is <Info>"); 
    if (mode==0){ int fr=sx_choice("free",2); apop_data *gone=(expect&&expect!=p[0])?expect:NULL; apop_data *ret=apop_data_rm_page(p[0],want,.free_p=fr?'y':'n');
        sx_check(ret==(fr?NULL:gone),"removed page returned unless freed"); if(ret){ sx_check(!ret->more,"removed page is unlinked"); }
        int k=0; for(apop_data *z=p[0];z;z=z->more){ sx_check(z!=gone,"removed page no longer linked"); k++; } sx_check(k==3+untitled-(gone!=NULL),"exactly one page removed");
        for(int i=0;i<3;i++) if(all[i]!=gone||!fr) sx_check_same(gsl_vector_get(all[i]->vector,0),d[i].v[0],"contents untouched");
        if(gone) sx_reach("removed"); else sx_reach("not removed");
    }
    (void)n;
}
