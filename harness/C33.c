/* Concurrent use, watched by ThreadSanitizer. The OpenMP runtime is lib/minigomp.c, whose every lock is a pthread lock. */
#include "vh.h"
#include "vmodels.h"
#include <omp.h>
const char *vh_rule = "Families ops and cold: a team of 2 to 8 threads, where each runs its own sequence of operations drawn from the whole library (data, text, linear algebra, statistics, tests, every model's estimation, likelihood, score, CDF and draws, maximum likelihood, updating, settings, the database) on data of its own with a generator of its own; each operation's outcome is compared with what the same operation gives alone on one thread. cold runs the team first, in a new process, so that every first use in the library is contested. Family shared: threads evaluate and draw from the same model over the same data. Family own: the library's own parallel regions (mapping, likelihoods, draws, KL divergence, kernel density, mixtures), with several threads against one. ThreadSanitizer watches all. Distinct by operations, seeds and team size.";
extern long minigomp_regions, minigomp_criticals, minigomp_threads, minigomp_contended; void minigomp_seed(unsigned);
#include "vops.h"
static op dbop=O(db);

typedef struct { op *o; uint64_t seed; char *got, *want; } job;
static char *run1(job *j){ char *b=NULL; size_t n=0; FILE *f=open_memstream(&b,&n); vr_reseed(j->seed); j->o->fn(f); fclose(f); return b; }
static void team(job *jobs,int T,int per){
    omp_set_num_threads(T);
    #pragma omp parallel for
    for (int t=0;t<T;t++) for (int k=0;k<per;k++) jobs[t*per+k].got=run1(&jobs[t*per+k]);
}
static void alone(job *jobs,int n){ omp_set_num_threads(1); for (int i=0;i<n;i++) jobs[i].want=run1(&jobs[i]); }
static void compare(job *jobs,int n){ for (int i=0;i<n;i++){ if (jobs[i].got&&jobs[i].want&&!jobs[i].o->nocmp) V_STR(jobs[i].got,jobs[i].want,jobs[i].o->name,"the outcome of %s beside other threads, against alone",jobs[i].o->name); free(jobs[i].got); free(jobs[i].want); } V_CHECK(vh_gsl_handler_intact(),"handler","the GSL's error handler was replaced for good"); }
static void go(int cold,op *only,int samekind){
    int T=vi(2,8),per=vi(1,samekind?3:4); job jobs[T*per]; op *kind=only?only:samekind?ops+vh_case%NOPS:NULL; uint64_t same=vr_u64(); v_desc("%d threads, %d operations each:",T,per);
    for (int i=0;i<T*per;i++){ jobs[i]=(job){kind?kind:ops+vi(0,NOPS-1),samekind&&vflip(.3)?same:vr_u64()}; v_sigs(jobs[i].o->name); v_sig(&jobs[i].seed,8); if (i<10) v_desc(" %s",jobs[i].o->name); }
    minigomp_seed(vr_u64()); long c=minigomp_contended,k=minigomp_criticals,th=minigomp_threads;
    if (cold){ team(jobs,T,per); alone(jobs,T*per); } else { alone(jobs,T*per); team(jobs,T,per); }
    v_evn("contended_locks",minigomp_contended-c); v_evn("locks_taken",minigomp_criticals-k); v_evn("threads_started",minigomp_threads-th); v_evn("operations",T*per); for (int i=0;i<T*per;i++){ char n[60]; sprintf(n,"op_%s",jobs[i].o->name); v_ev(n); }
    compare(jobs,T*per);
}
static void f_ops(void){ go(0,NULL,0); }
static void f_same(void){ go(0,NULL,1); }
static void f_cold(void){ if (vh_child()){ go(1,NULL,0); vh_child_done(); } }
static void f_coldsame(void){ if (vh_child()){ go(1,NULL,1); vh_child_done(); } }
static void f_db(void){ if (vh_child()){ go(1,&dbop,1); vh_child_done(); } }

/* one model and one data set, used by all threads at once */
typedef struct { apop_model *m; apop_data *d; int draws, cdf, ll, score, sz; } sh;
static sh mkshared(void){ sh s={.draws=1,.ll=1,.sz=1}; int w=vi(0,12); double p[3]={0}; if (w<5){ vdist *D=rdist(p); s.m=vmodel(D,p); s.d=vscalars(D,p,8); s.cdf=D->hascdf; s.score=0; return s; } switch(w){
    case 5: s.m=apop_model_set_parameters(apop_binomial,vi(2,20),vd(.1,.9)); s.d=apop_data_falloc((0,2,2),1,2,3,1); s.sz=1; break;
    case 6: s.m=apop_model_copy(apop_multinomial); s.m->dsize=3; s.m->parameters=apop_data_falloc((3),6,.2,.3); s.d=apop_data_falloc((0,3,3),1,2,3,2,2,2,6,0,0); s.sz=3; break;
    case 7: s.m=apop_model_copy(apop_multivariate_normal); s.m->dsize=2; s.m->parameters=apop_data_falloc((2,2,2),0,2,.3,1,.3,1); s.d=ad(4,2); s.sz=2; break;
    case 8: s.m=apop_model_copy(apop_dirichlet); s.m->dsize=3; s.m->parameters=apop_data_falloc((3),1.5,2,3); s.d=apop_data_falloc((0,2,3),.2,.3,.5,.1,.6,.3); s.sz=3; break;
    case 9: { apop_data *d=ad(8,1); d->weights=gsl_vector_alloc(8); for (int i=0;i<8;i++) gsl_vector_set(d->weights,i,vpos()); s.m=apop_estimate(d,apop_pmf); s.d=apop_data_copy(Apop_rs(d,0,3)); s.cdf=1; } break;
    case 10: { apop_data *d=ad(6,1); s.m=apop_model_copy(apop_kernel_density); s.m->dsize=1; Apop_settings_add_group(s.m,apop_kernel_density,.base_data=d,.kernel=apop_model_set_parameters(apop_normal,0,1)); s.d=ad(4,1); } break;
    case 11: s.m=apop_model_mixture(apop_model_set_parameters(apop_normal,0,1),apop_model_set_parameters(apop_normal,3,2)); s.d=ad(5,1); break;
    default: { apop_data *r=regdata(12,2); s.m=apop_estimate(r,apop_ols); s.d=apop_data_copy(r); s.draws=0; } }
    return s; }
static void usemodel(sh *s,FILE *f,uint64_t seed){ vr_reseed(seed); double x[6]; int n=vi(1,4); for (int i=0;i<n;i++) switch(vi(0,4)){ case 0: case 1: pr(f,apop_log_likelihood(s->d,s->m)); break; case 2: if (s->draws){ gsl_rng *r=newrng(); for (int k=0;k<3;k++){ apop_draw(x,r,s->m); for (int j=0;j<s->sz;j++) pr(f,x[j]); } gsl_rng_free(r); } break; case 3: if (s->cdf){ apop_data *o=apop_data_copy(s->d); pr(f,apop_cdf(s->d,s->m)); apop_data_free(o); } else pr(f,apop_p(s->d,s->m)); break; default: if (s->score){ gsl_vector *g=gsl_vector_calloc(s->score); apop_score(s->d,g,s->m); pv(f,g); gsl_vector_free(g); } else { apop_data *dd=apop_data_copy(s->d); pd(f,dd); apop_data_free(dd); } } }
static void shared(void){
    int T=vi(2,8); sh s=mkshared(); char *got[T],*want[T]; uint64_t seed[T]; for (int i=0;i<T;i++) seed[i]=vr_u64(); v_desc("%d threads use one %s",T,s.m->name); v_sigs(s.m->name); v_sig(seed,sizeof seed); if (s.d) vh_sig_data(s.d); minigomp_seed(vr_u64()); int first=vflip(.5); long c=minigomp_contended,k=minigomp_criticals;
    for (int pass=0;pass<2;pass++) if (pass==first){ omp_set_num_threads(1); for (int t=0;t<T;t++){ size_t n; FILE *f=open_memstream(want+t,&n); usemodel(&s,f,seed[t]); fclose(f); } } else { omp_set_num_threads(T);
        #pragma omp parallel for
        for (int t=0;t<T;t++){ size_t n; FILE *f=open_memstream(got+t,&n); usemodel(&s,f,seed[t]); fclose(f); } }
    for (int t=0;t<T;t++){ V_STR(got[t],want[t],"shared","%s used by %d threads, against one",s.m->name,T); free(got[t]); free(want[t]); } v_evn("contended_locks",minigomp_contended-c); v_evn("locks_taken",minigomp_criticals-k); v_ev(s.m->name); }
static void f_shared(void){ if (vh_case%3==0){ if (vh_child()){ shared(); vh_child_done(); } } else shared(); }

/* the library's own parallel regions */
static double di(double x,int i){ return x*2+i; } static double vp(gsl_vector *v,void *p){ return gsl_vector_get(v,0)**(double*)p; } static double vpi(gsl_vector *v,void *p,int i){ return gsl_vector_get(v,0)**(double*)p+i; } static double ri(apop_data *r,int i){ return apop_data_get(r,0,0)*i; } static double rr(apop_data *r){ return apop_data_get(r,0,0)-1; } static double rpi(apop_data *r,void *p,int i){ return apop_data_get(r,0,0)+i**(double*)p; } static void inc(double *x){ *x+=1; } static void vinc(gsl_vector *v){ gsl_vector_add_constant(v,2); }
static void own(FILE *f,int w,uint64_t seed){ vr_reseed(seed); int n=vi(1,60); double par=vnorm(); apop_data *d=ad(n,2); switch(w){
    case 0: { apop_data *o=NULL; switch(vi(0,8)){ case 0: o=apop_map(d,.fn_d=sq); break; case 1: o=apop_map(d,.fn_di=di); break; case 2: o=apop_map(d,.fn_v=vs,.part='c'); break; case 3: o=apop_map(d,.fn_vp=vp,.param=&par); break; case 4: o=apop_map(d,.fn_vpi=vpi,.param=&par); break; case 5: o=apop_map(d,.fn_ri=ri); break; case 6: o=apop_map(d,.fn_r=rr); break; case 7: o=apop_map(d,.fn_rpi=rpi,.param=&par); break; default: o=apop_map(d,.fn_d=sq,.inplace='y'); } pd(f,o); if (o!=d) apop_data_free(o); } break;
    case 1: pr(f,apop_map_sum(d,.fn_d=sq)); pr(f,apop_map_sum(d,.fn_rp=rowf,.param=&par)); pr(f,apop_map_sum(d,.fn_v=vs)); break;
    case 2: apop_matrix_apply_all(d->matrix,inc); apop_matrix_apply(d->matrix,vinc); apop_vector_apply(Apop_cv(d,0),inc); pd(f,d); gsl_vector *v=apop_matrix_map(d->matrix,vs); pv(f,v); gsl_vector_free(v); gsl_matrix *m=apop_matrix_map_all(d->matrix,sq); pr(f,apop_matrix_sum(m)); gsl_matrix_free(m); pr(f,apop_matrix_map_all_sum(d->matrix,sq)); pr(f,apop_vector_map_sum(Apop_cv(d,1),sq)); break;
    case 3: { double p[3]={0}; vdist *D=rdist(p); apop_model *mm=vmodel(D,p); apop_data *x=vscalars(D,p,30); pr(f,apop_log_likelihood(x,mm)); gsl_vector *g=gsl_vector_calloc(D->np); apop_score(x,g,mm); pv(f,g); gsl_vector_free(g); apop_model *e=apop_estimate(x,*D->m); if (*D->m!=apop_poisson) pd(f,e->parameters); else pv(f,e->parameters->vector); apop_model_free(e); apop_model_free(mm); apop_data_free(x); } break;
    case 4: { apop_data *b=ad(vi(2,20),1); apop_model *k=apop_model_copy(apop_kernel_density); k->dsize=1; Apop_settings_add_group(k,apop_kernel_density,.base_data=b,.kernel=apop_model_set_parameters(apop_normal,0,1)); apop_data *x=ad(vi(1,20),1); fprintf(f,"%.9Lg ",apop_log_likelihood(x,k)); apop_data *o=ad(1,1); fprintf(f,"%.9Lg ",apop_cdf(o,k)); apop_data_free(o); apop_data_free(x); apop_model_free(k); } break;
    case 5: { apop_data *b=apop_data_alloc(0,n,1),*c=apop_data_alloc(0,n,1); b->weights=gsl_vector_alloc(n); c->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++){ apop_data_set(b,i,0,i); apop_data_set(c,i,0,i); gsl_vector_set(b->weights,i,vpos()); gsl_vector_set(c->weights,i,vpos()); } apop_model *x=apop_estimate(b,apop_pmf),*y=apop_estimate(c,apop_pmf); fprintf(f,"%.9Lg ",apop_kl_divergence(x,y)); apop_model_free(x); apop_model_free(y); } break;
    case 6: { apop_model *mx=apop_model_mixture(apop_model_set_parameters(apop_normal,0,1),apop_model_set_parameters(apop_normal,3,2)); pr(f,apop_log_likelihood(Apop_c(d,0),mx)); } break;
    case 7: { apop_data *r=regdata(20,2); apop_model *e=apop_estimate(r,apop_ols); pr(f,apop_log_likelihood(r,e)); pm(f,e); } break;
    case 8: { apop_data *x=apop_data_alloc(0,20,2); for (int i=0;i<20;i++) for (int j=0;j<2;j++) apop_data_set(x,i,j,vi(0,9)); apop_model *mm=apop_model_set_parameters(apop_binomial,10,.3); pr(f,apop_log_likelihood(x,mm)); apop_model_free(mm); apop_data_free(x); } break;
    } apop_data_free(d); }
static void f_own(void){ int w=vh_case%9,T=vi(2,8); uint64_t seed=vr_u64(); v_sig(&seed,8); v_sig(&w,4); v_desc("library parallel region %d with %d threads",w,T); minigomp_seed(vr_u64()); char *a,*b; size_t n; long c=minigomp_regions,t=minigomp_threads; omp_set_num_threads(T); FILE *f=open_memstream(&a,&n); own(f,w,seed); fclose(f); v_evn("parallel_regions",minigomp_regions-c); v_evn("threads_started",minigomp_threads-t); omp_set_num_threads(1); f=open_memstream(&b,&n); own(f,w,seed); fclose(f); V_STR(a,b,"own","with %d threads, against one",T); free(a); free(b); V_CHECK(vh_gsl_handler_intact(),"handler","the GSL's error handler was replaced for good"); }
/* regions that draw: no set outcome, but the draws are draws */
static int keep3(double *x){ return *x<3; }
static void draws(void){ int T=vi(2,8),n=vi(1,200); double p[3]={0}; vdist *D=rdist(p); apop_model *m=vmodel(D,p); int w=vi(0,4); v_desc("%d threads, draws %d",T,w); v_sigs(D->name); v_sigd(p[0]); v_sigd(w); minigomp_seed(vr_u64()); omp_set_num_threads(T); apop_data *d=NULL; gsl_rng *r=newrng(); (void)keep3; switch(w){
    case 0: d=apop_model_draws(m,n); break;
    case 1: { apop_model *a=apop_model_copy(m); a->draw=NULL; if (a->dsize==1&&D->par==normal_par) d=apop_model_draws(a,n); else d=apop_model_draws(m,n); } break;
    case 2: { apop_model *mx=apop_model_mixture(apop_model_copy(m),apop_model_copy(m)); d=apop_model_draws(mx,n); } break;
    case 3: { apop_data *b=ad(8,1); apop_model *k=apop_estimate(b,apop_pmf); d=apop_model_draws(k,n); V_CHECK(d&&d->matrix&&d->matrix->size1==n,"size","draws of a PMF"); if (d) for (int i=0;i<n;i++){ int ok=0; for (int j=0;j<8;j++) ok|=apop_data_get(b,j,0)==apop_data_get(d,i,0); V_CHECK(ok,"pmf","a draw of a PMF is none of its values"); } } goto done;
    default: { apop_model *other=vmodel(D,p); long double k=apop_kl_divergence(m,other,.draw_ct=n,.rng=vflip(.5)?r:NULL); V_CHECK(fabsl(k)<1e-9,"kl","the divergence of %s from itself is %Lg",D->name,k); apop_model_entropy(m,n); goto done; } }
    V_CHECK(d&&d->matrix&&d->matrix->size1==n,"size","the draws are not %d rows",n); if (d&&d->matrix){ for (int i=0;i<n;i++){ double x=apop_data_get(d,i,0); L q[3]={p[0],p[1],p[2]}; V_CHECK(isfinite(x)&&(D->out==none||w==1||!isnan((double)D->lpdf(x,q))),"draw","draw %d of %s is %g",i,D->name,x); } int dup=0; if (!D->discrete) for (int i=0;i<n;i++) for (int j=0;j<i;j++) dup+=apop_data_get(d,i,0)==apop_data_get(d,j,0)&&apop_data_get(d,i,0)>1e-9&&apop_data_get(d,i,0)!=1; V_CHECK(!dup,"same","%d pairs of the draws of %s from several threads are equal",dup,D->name); }
    done: gsl_rng_free(r); }
static void f_draws(void){ if (vh_case%2){ if (vh_child()){ draws(); vh_child_done(); } } else draws(); }
vh_family vh_families[]={{"ops",f_ops,60,4000},{"same",f_same,2*NOPS,80*NOPS},{"cold",f_cold,40,3000},{"coldsame",f_coldsame,2*NOPS,60*NOPS},{"db",f_db,20,800},{"shared",f_shared,80,4000},{"own",f_own,150,6000},{"draws",f_draws,60,3000},{NULL}};
