/* Memory: a sequence of library calls with everything freed as documented, run again and again from the same seeds, must not grow. */
#include "vh.h"
#include "vmodels.h"
#include <omp.h>
const char *vh_rule = "Each case takes one operation (ops, more) or a sequence of two to five (mix) from about ninety that cover the public functions: data sets and their pages, text, factors, sorting, missing data, matrices, files, the database, rake, tests, every model's estimation, printing, copies, likelihood, score, draws and CDF, transforms, updating, MCMC, maximum likelihood, bootstrap, settings, loess, and input that is refused. The operation frees what the documentation says is the caller's. It is run six times from the same seeds, and the bytes held by the allocator (counted by AddressSanitizer's allocator) must not grow in every one of the last three. Double frees and uses after a free are stopped by AddressSanitizer itself.";
#include "vops.h"
#include "C34x.h"
int __lsan_do_recoverable_leak_check(void);

static void once(op *o,uint64_t seed){ v_ev(o->name); char *b=NULL; size_t n=0; FILE *f=open_memstream(&b,&n); vr_reseed(seed); o->fn(f); fclose(f); free(b); }
static void cycles(op **o,uint64_t *s,int n){
    int ver=apop_opts.verbose; size_t was=0; int rs=apop_opts.rng_seed;
    for (int c=0;c<3;c++){ apop_opts.rng_seed=rs; for (int i=0;i<n;i++) once(o[i],s[i]); }
    size_t a=vh_allocated(),b,g[3]; for (int k=0;k<3;k++){ apop_opts.rng_seed=rs; for (int i=0;i<n;i++) once(o[i],s[i]); b=vh_allocated(); g[k]=b-a; a=b; }
    bool grow=(long)g[0]>0&&(long)g[1]>0&&(long)g[2]>0; (void)was; (void)ver;
    if (getenv("VH_LSAN")) __lsan_do_recoverable_leak_check();
    V_CHECK(!grow,n>1?"sequence":o[0]->name,"allocated bytes grew by %ld, %ld and %ld in repetitions 4 to 6",(long)g[0],(long)g[1],(long)g[2]);
}
static void f_ops(void){ op *o=ops+vh_case%NOPS; uint64_t s=vr_u64(); v_desc("%s",o->name); v_sigs(o->name); v_sig(&s,8); cycles(&o,&s,1); }
static void f_more(void){ op *o=more+vh_case%NMORE; uint64_t s=vr_u64(); v_desc("%s",o->name); v_sigs(o->name); v_sig(&s,8); cycles(&o,&s,1); }
static void f_mix(void){ op *o[5]; uint64_t s[5]; int n=vi(2,5); char t[300]=""; for (int i=0;i<n;i++){ int w=vi(0,NOPS+NMORE-1); o[i]=w<NOPS?ops+w:more+w-NOPS; s[i]=vr_u64(); snprintf(t+strlen(t),sizeof t-strlen(t),"%s ",o[i]->name); v_sigs(o[i]->name); v_sig(s+i,8); } v_desc("%s",t); cycles(o,s,n); }
vh_family vh_families[]={{"ops",f_ops,NOPS*20,NOPS*200},{"more",f_more,NMORE*30,NMORE*400},{"mix",f_mix,400,8000},{0}};
