#include "vh.h"
#include <omp.h>
#include <sys/wait.h>
const char *vh_rule = "Random seeds and random histories of draws, with several generators interleaved; streams compared value by value with a lone generator of the same seed, and whole programs (draws, bootstrap, Metropolis, update, SQL ran) run twice in forked processes from the same rng_seed and compared; per-thread generators requested in random order and from parallel regions. Distinct by seeds and history.";
static unsigned long gv(gsl_rng *r){ return gsl_rng_get(r); }
static void f_streams(void){
    int n=vi(2,5), len=vi(5,60); gsl_rng *r[5]; int seed[5]; unsigned long *s[5];
    for (int k=0;k<n;k++){ again: seed[k]= vflip(.3)? vi(0,3) : vflip(.2)? -vi(1,1000) : vflip(.5)? vi(0,100000) : (int)vr_u64(); for (int l=0;l<k;l++) if (seed[l]==seed[k]&&vflip(.7)) goto again; if (seed[k]==(-2147483647-1)) seed[k]=7; v_sig(seed+k,sizeof(int)); v_desc("%d ",seed[k]);
        r[k]=apop_rng_alloc(seed[k]); s[k]=malloc(len*sizeof(long)); for (int i=0;i<len;i++) s[k][i]=gv(r[k]); gsl_rng_free(r[k]); v_evn("stream_values",len); }
    int pos[5]={0}; for (int k=0;k<n;k++) r[k]=apop_rng_alloc(seed[k]);
    for (int t=0;t<n*len;t++){ int k=vi(0,n-1); if (pos[k]>=len) continue; unsigned long g=gv(r[k]); V_CHECK(g==s[k][pos[k]],"repro","stream of seed %d at %d: %lu, want %lu",seed[k],pos[k],g,s[k][pos[k]]); pos[k]++;
        if (vflip(.05)){ apop_opts.rng_seed=vi(0,1000000); } if (vflip(.03)) gsl_rng_get(apop_rng_get_thread(vi(0,3))); if (vflip(.02)) { gsl_rng *x=apop_rng_alloc(vi(0,99)); gv(x); gsl_rng_free(x); } }
    for (int k=0;k<n;k++) for (int l=0;l<k;l++) if (seed[k]!=seed[l]){ int same=0; for (int i=0;i<len;i++) same+=s[k][i]==s[l][i]; V_CHECK(same<len/3+1,"distinct","seeds %d and %d agree at %d of %d",seed[k],seed[l],same,len); int sh=0; for (int d=1;d<4;d++){ int m=0; for (int i=d;i<len;i++) m+=s[k][i]==s[l][i-d]; if (m>len/2) sh=d; } V_CHECK(!sh,"shifted","seeds %d and %d are the same stream, shifted %d",seed[k],seed[l],sh); v_ev("pairs_of_seeds"); }
    for (int k=0;k<n;k++){ gsl_rng_free(r[k]); free(s[k]); }
}
/* the draws of explicit generators: a function of the generator alone */
static int drawprog(int prog,gsl_rng *r,double *out){ // returns how many values
    int n=0; apop_model *m=NULL; double x[30];
    switch(prog){
    case 0: m=apop_model_set_parameters(apop_normal,1,2); break; case 1: m=apop_model_set_parameters(apop_gamma,2,1.5); break; case 2: m=apop_model_set_parameters(apop_poisson,4); break; case 3: m=apop_model_set_parameters(apop_beta,2,3); break; case 4: m=apop_model_set_parameters(apop_zipf,2.5); break; case 5: m=apop_model_set_parameters(apop_yule,2.5); break; case 6: m=apop_model_set_parameters(apop_binomial,9,.3); break; case 7: m=apop_model_set_parameters(apop_uniform,-1,4); break; case 8: m=apop_model_set_parameters(apop_exponential,2); break; case 9: m=apop_model_set_parameters(apop_lognormal,0,1); break; case 10: m=apop_model_set_parameters(apop_t_distribution,0,1,5); break; case 11: m=apop_model_set_parameters(apop_bernoulli,.3); break;
    case 12: { apop_data *d=apop_data_falloc((6,0,1),0,1,2,3,4,5,9,8,7,6,5,4); m=apop_estimate(d,apop_pmf); apop_model *o=m; for (int i=0;i<20;i++){ apop_draw(x,r,o); out[n++]=x[0]; } apop_model_free(o); apop_data_free(d); return n; }
    case 13: { apop_data *d=apop_data_falloc((8),1,2,3,4,5,6,7,9); m=apop_estimate(d,apop_normal); apop_data *c=apop_bootstrap_cov(d,apop_normal,r,40); for (size_t i=0;i<c->matrix->size1;i++) for (size_t j=0;j<c->matrix->size2;j++) out[n++]=apop_data_get(c,i,j); apop_data_free(c); apop_model_free(m); apop_data_free(d); return n; }
    case 14: { for (int i=0;i<20;i++){ double a[3]={3,2,1.5}; out[n++]=apop_rng_GHgB3(r,a); } return n; } }
    for (int i=0;i<20;i++){ apop_draw(x,r,m); out[n++]=x[0]; } apop_model_free(m); return n;
}
static void f_explicit(void){
    int prog=vi(0,14), seed=vi(1,1000000); double a[600],b[600]; v_sig(&prog,sizeof prog); v_sig(&seed,sizeof seed); v_desc("program %d, seed %d",prog,seed);
    gsl_rng *r=apop_rng_alloc(seed); int n=drawprog(prog,r,a); gsl_rng_free(r);
    // disturb everything else, then repeat
    apop_opts.rng_seed=vi(0,1000); for (int k=0;k<4;k++) gsl_rng_get(apop_rng_get_thread(k)); gsl_rng *o=apop_rng_alloc(vi(0,99)); double junk[600]; drawprog(vi(0,14),o,junk);
    r=apop_rng_alloc(seed); int n2=drawprog(prog,r,b); gsl_rng_free(r); gsl_rng_free(o); V_CHECK(n==n2&&n>0,"count","%d and %d values",n,n2);
    for (int i=0;i<n;i++) V_EQ(b[i],a[i],"explicit","value %d of program %d differs for the same seed",i,prog); v_evn("drawn_values",n);
    r=apop_rng_alloc(seed+1); drawprog(prog,r,b); gsl_rng_free(r); if (prog!=11){ int same=0; for (int i=0;i<n;i++) same+=v_eq(a[i],b[i]); V_CHECK(same<n,"seedmatters","another seed gave the same %d draws",n); }
}
/* whole programs from apop_opts.rng_seed, in fresh processes */
static void program(int prog,int seed,FILE *f){
    apop_opts.rng_seed=seed;
    if (prog&1){ apop_model *m=apop_model_set_parameters(apop_normal,0,1); apop_data *d=apop_model_draws(m,12); for (int i=0;i<12;i++) fprintf(f,"%a ",apop_data_get(d,i,0)); }
    if (prog&2){ apop_data *d=apop_query_to_data("select ran(), ran() union all select ran(), ran()"); for (int i=0;i<2;i++) for (int j=0;j<2;j++) fprintf(f,"%a ",apop_data_get(d,i,j)); }
    if (prog&4){ apop_model *m=apop_model_set_parameters(apop_gamma,2,1); double x; for (int i=0;i<5;i++){ apop_draw(&x,NULL,m); fprintf(f,"%a ",x); } }
    if (prog&8){ apop_data *d=apop_data_falloc((6),1,2,3,4,5,6); apop_data *c=apop_bootstrap_cov(d,apop_normal,.iterations=30); fprintf(f,"%a ",apop_data_get(c,0,0)); }
    if (prog&16){ apop_data *d=apop_data_falloc((6),.1,.2,.3,.4,.5,.6); apop_model *p=apop_model_set_parameters(apop_normal,.2,.5), *l=apop_model_fix_params(apop_model_set_parameters(apop_normal,NAN,1)); apop_model *u=apop_model_metropolis(d,NULL,l); (void)p; if (u&&u->data) for (int i=0;i<5;i++) fprintf(f,"%a ",apop_data_get(u->data,i,0)); }
    for (int k=0;k<3;k++) fprintf(f,"%lu ",gsl_rng_get(apop_rng_get_thread(k)));
    fprintf(f,"%d ",(int)(apop_opts.rng_seed-seed));
}
static char *forked(int prog,int seed){
    char *buf=calloc(1,20000); int p[2]; if (pipe(p)) return buf; fflush(NULL); pid_t c=fork();
    if (!c){ close(p[0]); FILE *f=fdopen(p[1],"w"); program(prog,seed,f); fclose(f); _exit(0); }
    close(p[1]); int n=0,k; while ((k=read(p[0],buf+n,19999-n))>0) n+=k; close(p[0]); int st; waitpid(c,&st,0); if (st) v_fail("child","the program ended with status %x",st); return buf;
}
static void f_program(void){
    int prog=vi(1,31), seed=vi(1,10000000); v_sig(&prog,sizeof prog); v_sig(&seed,sizeof seed); v_desc("program %d from rng_seed %d",prog,seed);
    char *a=forked(prog,seed),*b=forked(prog,seed),*c=forked(prog,seed+1000); V_CHECK(*a,"nothing","no output"); V_STR(b,a,"program","a second run from the same rng_seed"); V_CHECK(strcmp(a,c),"seedignored","another rng_seed gave the same run"); v_ev("programs_repeated"); free(a); free(b); free(c);
}
static void f_threads(void){ // in a child, as the thread generators live as long as the program
    int seed=vi(1,1000000), n=vi(2,12); int ord[40],no=vi(3,40); for (int i=0;i<no;i++) ord[i]=vi(0,n); v_sig(&seed,sizeof seed); v_sig(ord,no*sizeof(int)); v_desc("rng_seed %d, %d requests up to thread %d",seed,no,n);
    int p[2]; if (pipe(p)) return; fflush(NULL); pid_t c=fork();
    if (!c){ close(p[0]); FILE *f=fdopen(p[1],"w"); apop_opts.rng_seed=seed; gsl_rng *have[50]={0}; unsigned long ct=0;
        for (int i=0;i<no;i++){ gsl_rng *g=apop_rng_get_thread(ord[i]); ct++; if (have[ord[i]]&&have[ord[i]]!=g) fprintf(f,"moved:generator %d moved;",ord[i]); for (int k=0;k<=n;k++) if (k!=ord[i]&&have[k]==g) fprintf(f,"shared:generators %d and %d are one;",k,ord[i]);
            if (!have[ord[i]]){ gsl_rng *e=apop_rng_alloc(seed+1+ord[i]); for (int k=0;k<4;k++) if (gsl_rng_get(e)!=gsl_rng_get(g)) { fprintf(f,"seed:generator %d is not seeded with rng_seed+%d;",ord[i],1+ord[i]); break; } gsl_rng_free(e); }
            have[ord[i]]=g; }
        if (apop_rng_get_thread(-1)!=apop_rng_get_thread(0)||apop_rng_get_thread()!=apop_rng_get_thread(0)) fprintf(f,"self:outside a parallel region, -1 is not thread zero;");
        fclose(f); _exit(0); }
    close(p[1]); char buf[4000]={0}; int k=0,r; while ((r=read(p[0],buf+k,3999-k))>0) k+=r; close(p[0]); int st; waitpid(c,&st,0); if (st) v_fail("child","status %x",st);
    char *save; for (char *t=strtok_r(buf,";",&save);t;t=strtok_r(NULL,";",&save)){ char *colon=strchr(t,':'); if (colon){ *colon=0; v_fail(t,"%s",colon+1);} } v_evn("thread_requests",no);
}
static void f_omp(void){
    int T=vi(2,8), per=vi(1,30); v_sig(&T,sizeof T); v_sig(&per,sizeof per); gsl_rng *g[8]={0}; int bad=0, movd=0; unsigned long first[8][30];
    #pragma omp parallel num_threads(T)
    { int me=omp_get_thread_num(); gsl_rng *mine=apop_rng_get_thread(-1); g[me]=mine; for (int i=0;i<per;i++){ if (apop_rng_get_thread(-1)!=mine) movd++; if (apop_rng_get_thread(me)!=mine) bad++; first[me][i]=gsl_rng_get(mine); } }
    V_CHECK(!bad,"mine","apop_rng_get_thread(-1) is not the thread's own generator"); V_CHECK(!movd,"moved","a thread's generator moved");
    for (int k=0;k<T;k++) for (int l=0;l<k;l++) if (g[k]&&g[l]) { V_CHECK(g[k]!=g[l],"shared","threads %d and %d share a generator",k,l); if (per>5){ int same=0; for (int i=0;i<per;i++) same+=first[k][i]==first[l][i]; V_CHECK(same<per/2,"samestream","threads %d and %d have one stream",k,l); } }
    v_evn("threads",T);
}
vh_family vh_families[]={{"streams",f_streams,1500,60000},{"explicit",f_explicit,400,12000},{"program",f_program,40,1500},{"threads",f_threads,60,2500},{"omp",f_omp,100,3000,8},{NULL}};
