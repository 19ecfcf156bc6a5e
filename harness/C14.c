#include "vh.h"
#include <regex.h>
#include <signal.h>
#include <errno.h>
#include <unistd.h>
#include <sys/wait.h>
const char *vh_rule = "Random strings and random extended regular expressions (nested and empty groups, alternation, anchors, brackets, empty matches, bad patterns) against regexec; random text grids, separators and prune functions against a plain join; random columns with ties, NaNs and awkward text against a set model. Distinct by inputs.";
static void rx(char *o,int depth){ // append a random ERE
    static const char *atoms[]={"a","b","c","A","x","0","1",".","[ab]","[^a]","[a-c0-9]","[)]","[(]","\\(","\\)","\\.","[[:alpha:]]","[[:digit:]]"," ","-"};
    int n=vi(1,3); for (int i=0;i<n;i++){
        if (depth>0&&vflip(.35)){ strcat(o,"("); rx(o,depth-1); if (vflip(.3)){ strcat(o,"|"); rx(o,depth-1); } strcat(o,")"); } else strcat(o,vpick(atoms));
        if (vflip(.35)) strcat(o,vpick(((char*[]){"*","+","?","{1,2}"}))); }
}
static void f_regex(void){
    char re[3000]="", s[200]; if (vflip(.1)) strcat(re,"^"); rx(re,2); if (vflip(.1)) strcat(re,"$"); if (vflip(.03)) strcpy(re,vpick(((char*[]){"(","[a","a{2,1}","*a(","(a|b","a**","","()","(|a)","x?"}))); if (strlen(re)>300) re[300]=0;
    int n=vflip(.05)?0:vi(1,vflip(.1)?150:25); for (int i=0;i<n;i++) s[i]="aabbccAxB01().- \n%["[vi(0,18)]; s[n]=0;
    char uc="yn"[vi(0,1)]; int def=vflip(.3); if (def) uc='n'; v_sigs(re); v_sigs(s); v_sig(&uc,1); v_desc("/%s/%c on [%s]",re,uc,s);
    regex_t r; int ok=!regcomp(&r,re,REG_EXTENDED|(uc=='y'?0:REG_ICASE)); 
    apop_data *subs=NULL; 
    if (!ok){ V_CHECK(apop_regex(s,re)==-1,"bad","a bad pattern gave no -1"); V_CHECK(apop_regex(s,re,&subs)==-1,"bad","a bad pattern gave no -1"); apop_data_free(subs); v_ev("bad_patterns"); return; }
    int g=r.re_nsub; regmatch_t m[g+1];
    if ((strstr(re,")*")||strstr(re,")+")||strstr(re,"){"))){ // the C library's regexec can go on forever placing the groups; that is not Apophenia's
        fflush(NULL); pid_t c=fork(); if (!c){ signal(SIGALRM,SIG_DFL); alarm(2); const char *p=s; int row=0; while (!regexec(&r,p,g+1,m,row?REG_NOTBOL:0)){ row++; p+=m[0].rm_eo; if (m[0].rm_so==m[0].rm_eo&&*p) p++; if (!*p) break; } _exit(0); }
        int st=0; while (c>0&&waitpid(c,&st,0)<0&&errno==EINTR); if (c>0&&!WIFEXITED(st)){ regfree(&r); v_trivial(); v_ev("slow_patterns"); return; } }
    int hit=!regexec(&r,s,0,NULL,0); int got=def? apop_regex(s,re) : apop_regex(s,re,.use_case=uc); V_CHECK(got==hit,"match","%d, want %d",got,hit); if (hit) v_ev("matches"); else v_ev("non_matches");
    got=def? apop_regex(s,re,&subs) : apop_regex(s,re,&subs,uc); int row=0; const char *p=s; char *c0=strdup(s);
    if (V_CHECK(subs!=NULL,"subs","no substring table")){
        for (;;){ if (regexec(&r,p,g+1,m,row?REG_NOTBOL:0)) break;
            if (!V_CHECK(row<(g?(int)subs->textsize[0]:1<<30),"rows","only %zu rows of matches",subs->textsize[0])) break;
            for (int k=0;k<g;k++){ char w[400]=""; if (m[k+1].rm_so>=0){ memcpy(w,p+m[k+1].rm_so,m[k+1].rm_eo-m[k+1].rm_so); w[m[k+1].rm_eo-m[k+1].rm_so]=0; }
                if (V_CHECK(k<(int)subs->textsize[1],"cols","%zu columns, want %d",subs->textsize[1],g)) V_STR(subs->text[row][k],w,"capture","match %d, group %d",row,k+1); v_ev("captures"); }
            row++; p+=m[0].rm_eo; if (m[0].rm_so==m[0].rm_eo&&*p) p++; if (!*p) break; }
        V_CHECK(got==row,"count","%d matches, want %d",got,row); if (g) V_CHECK((int)subs->textsize[0]==row&&(!row||(int)subs->textsize[1]==g),"shape","%zux%zu, want %dx%d",subs->textsize[0],subs->textsize[1],row,g); if (row>1) v_ev("multi_matches"); if (!row) V_CHECK(!subs->textsize[0],"none","rows without a match");
    }
    V_STR(s,c0,"string","input string"); free(c0); regfree(&r); apop_data_free(subs);
    if (vflip(.02)){ apop_data *q=(void*)1; V_CHECK(apop_regex(NULL,"a")==0&&apop_regex(NULL,"a",&q)==0&&!q,"null","NULL string"); V_CHECK(apop_regex("a",NULL)==-1,"nullre","NULL pattern"); }
}
static char keep[50][10]; static int pcalls;
static int pr(apop_data *d,int r,int c,void *p){ pcalls++; if (p!=keep) v_fail("prunearg","wrong parameter"); (void)d; return !keep[r][c]; }
static void f_paste(void){
    int R=vflip(.1)?0:vi(1,vflip(.1)?40:8), C=R?vi(1,6):0; apop_data *d=R?apop_text_alloc(NULL,R,C):vflip(.5)?NULL:apop_data_alloc(); char b[40];
    for (int i=0;i<R;i++) for (int j=0;j<C;j++){ apop_text_set(d,i,j,"%s",vflip(.15)?"":vstr_any(b,12)); keep[i][j]=vflip(.6); } if (vflip(.2)&&R) memset(keep[vi(0,R-1)],0,10);
    char be[30],bc[30],bf[30],af[30]; vstr_any(be,8); vstr_any(bc,8); vstr_any(bf,8); vstr_any(af,8); if (vflip(.1)) *be=0; if (vflip(.1)) *bc=0;
    int hb=vflip(.7),hc=vflip(.5),hf=vflip(.5),ha=vflip(.5),hp=vflip(.5); if (!hp) memset(keep,1,sizeof keep);
    const char *B=hb?be:" ", *BC=hc?bc:B; char *w=calloc(1,200000); char *e=w; if (hf) e+=sprintf(e,"%s",bf); int any=0;
    for (int i=0;i<R;i++){ int inrow=0; for (int j=0;j<C;j++) if (keep[i][j]){ if (!inrow&&any) e+=sprintf(e,"%s",B); if (inrow) e+=sprintf(e,"%s",BC); e+=sprintf(e,"%s",d->text[i][j]); inrow=any=1; } } if (ha) e+=sprintf(e,"%s",af);
    char *before=d?vh_dump(d,true):NULL; pcalls=0;
    char *o; 
    if (hb&&hc) o=apop_text_paste(d,be,hf?bf:NULL,ha?af:NULL,bc,hp?pr:NULL,keep); else if (hb) o=apop_text_paste(d,.between=be,.before=hf?bf:NULL,.after=ha?af:NULL,.prune=hp?pr:NULL,.prune_parameter=keep); else if (hc) o=apop_text_paste(d,.between_cols=bc,.before=hf?bf:NULL,.after=ha?af:NULL,.prune=hp?pr:NULL,.prune_parameter=keep); else o=apop_text_paste(d,.before=hf?bf:NULL,.after=ha?af:NULL,.prune=hp?pr:NULL,.prune_parameter=keep);
    v_desc("%dx%d between%d cols%d before%d after%d prune%d",R,C,hb,hc,hf,ha,hp); v_sigs(w); if (d) vh_sig_data(d);
    if (!*w) V_CHECK(!o||!*o,"paste","[%s], want nothing",o); else V_STR(o,w,"paste","pasted text"); if (hp) V_CHECK(pcalls==R*C,"prunecalls","prune called %d times for %d cells",pcalls,R*C); v_evn("cells",R*C);
    if (d){ char *after=vh_dump(d,true); V_STR(after,before,"input","input of paste"); free(after); free(before); } free(o); free(w); apop_data_free(d);
}
static int cmps(const void *a,const void *b){ return strcmp(*(char**)a,*(char**)b); }
static int cmpd(const void *a,const void *b){ double x=*(double*)a,y=*(double*)b; if (isnan(x)) return !isnan(y); if (isnan(y)) return -1; return (x>y)-(x<y); }
static void f_unique(void){
    int n=vi(1,vflip(.1)?300:30), kinds=vi(1,n<12?n+2:vflip(.3)?n:12);
    if (vflip(.5)){ double pool[400]; for (int i=0;i<kinds;i++) pool[i]=vflip(.5)?vi(-20,20):vval(); if (vflip(.3)) pool[0]=NAN; if (vflip(.1)) pool[kinds-1]=INFINITY;
        int stride=vi(1,3); gsl_vector *big=gsl_vector_calloc(n*stride); gsl_vector_view vw=gsl_vector_subvector_with_stride(big,0,stride,n); double *a=malloc(n*sizeof *a); for (int i=0;i<n;i++){ a[i]=pool[vi(0,kinds-1)]; if (a[i]==0) a[i]=0; gsl_vector_set(&vw.vector,i,a[i]); v_sigd(a[i]); }
        gsl_vector *u=apop_vector_unique_elements(&vw.vector); for (int i=0;i<n;i++) V_EQ(gsl_vector_get(&vw.vector,i),a[i],"vinput","%d",i); qsort(a,n,sizeof(double),cmpd); int k=0; for (int i=0;i<n;i++) if (!i||cmpd(a+i,a+k-1)) a[k++]=a[i];
        v_desc("vector of %d, %d distinct",n,k); if (V_CHECK(u&&(int)u->size==k,"vcount","%zu, want %d",u?u->size:0,k)) for (int i=0;i<k;i++) V_EQ(gsl_vector_get(u,i),a[i],"velement","%d",i); v_evn("distinct",k);
        gsl_vector_free(u); gsl_vector_free(big); free(a); }
    else { char pool[400][30]; for (int i=0;i<kinds;i++) { if (vflip(.1)) pool[i][0]=0; else vstr_any(pool[i],vflip(.3)?2:15); if (vflip(.1)) strcat(pool[i],"%s%n"); } int C=vi(1,4),c=vi(0,C-1); apop_data *d=apop_text_alloc(NULL,n,C); char *a[n]; for (int i=0;i<n;i++) for (int j=0;j<C;j++){ char *t=pool[vi(0,kinds-1)]; apop_text_set(d,i,j,"%s",t); if (j==c) a[i]=t; v_sigs(t); }
        char *before=vh_dump(d,true); apop_data *u=apop_text_unique_elements(d,c); char *after=vh_dump(d,true); V_STR(after,before,"tinput","input"); free(after); free(before); qsort(a,n,sizeof(char*),cmps); int k=0; for (int i=0;i<n;i++) if (!i||strcmp(a[i],a[k-1])) a[k++]=a[i];
        v_desc("text column of %d, %d distinct",n,k); if (V_CHECK(u&&(int)u->textsize[0]==k&&u->textsize[1]==1,"tcount","%zu, want %d",u?u->textsize[0]:0,k)) for (int i=0;i<k;i++) V_STR(u->text[i][0],a[i],"telement","%d",i); v_evn("distinct",k); apop_data_free(u); apop_data_free(d); }
}
vh_family vh_families[]={{"regex",f_regex,6000,300000},{"paste",f_paste,2000,60000},{"unique",f_unique,1500,60000},{NULL}};
