#include "vh.h"
#include "vmodels.h"
const char *vh_rule = "Random priors and data for every tabulated conjugate pair, chained or not, with data in any shape or none: the posterior density over prior times likelihood must be constant. Pairs that are not tabulated, priors in one or two dimensions, PMF priors and priors that can only be drawn from: moments against numeric integration over a grid, and exact weights where there are any. MCMC over models that record every evaluation: a checker replays the recorded trace against the Metropolis rule (certain acceptance of better proposals, a martingale test of the others, repeats after rejections, one block per step, counts, burn-in, constraint, continuation by metropolis_draw). Bootstraps and jackknives of a model that records every data set it is asked to estimate. The distribution of the parameters of models, against the bootstrap with the same generator, the t distribution of regression coefficients, and models that draw their own parameters. Distinct by configuration, data and seed.";
#define GUARD -987654321.125
static int quiet(void){ int v=apop_opts.verbose; apop_opts.verbose=-1; return v; }
/* ---- conjugates ---- */
typedef struct { const char *name; vdist *prior; apop_model **like; int which; } conj;
static vdist *byname(const char *n){ for (int i=0;i<NDIST;i++) if (!strcmp(vdists[i].name,n)) return vdists+i; abort(); }
static void suff(apop_data *d,double *n,L *s,L *ss){ double *e[400]; int k=veach(d,e); *n=k; *s=*ss=0; for (int i=0;i<k;i++) *s+=*e[i],*ss+=(L)*e[i]**e[i]; }
static L conj_like(int w,apop_data *d,double *th_like,L th){ double n=0; L s=0,ss=0; if (d) suff(d,&n,&s,&ss);
    switch (w){ case 0: { L hits=0,miss=0; if (d) for (size_t i=0;i<d->matrix->size1;i++) hits+=apop_data_get(d,i,1),miss+=apop_data_get(d,i,0); else hits=th_like[0]*th_like[1],miss=th_like[0]*(1-th_like[1]); return hits*logl(th)+miss*log1pl(-th); }
    case 1: { L h=0; double *e[400]; int k=veach(d,e); for (int i=0;i<k;i++) h+=*e[i]!=0; return h*logl(th)+(k-h)*log1pl(-th); }
    case 2: return n*logl(th)-s*th; case 3: return s*logl(th)-n*th;
    default: { L mu,var; if (d){ mu=s/n; var=ss/n-mu*mu; L q=0; double *e[400]; int k=veach(d,e); for (int i=0;i<k;i++) q+=(*e[i]-mu)*(*e[i]-mu); var=q/n; } else mu=th_like[0],var=(L)th_like[1]*th_like[1],n=1; return -n*(th-mu)*(th-mu)/(2*var); } } }
static apop_data *conj_data(int w,bool again){ (void)again; if (w==0){ int n=vi(1,6); apop_data *d=apop_data_alloc(0,n,2); for (int i=0;i<n;i++) for (int j=0;j<2;j++) apop_data_set(d,i,j,vi(0,9)); if (vflip(.3)){ apop_data_add_names(d,'c',"misses","hits"); } return d; } const char *nm[]={"","bernoulli","exponential","poisson","normal"}; vdist *D=byname(nm[w]); double p[3]; D->par(p); apop_data *d; do { d=vscalars(D,p,8); double *e[400]; if (w!=4||veach(d,e)>2) break; apop_data_free(d); } while (1); if (w==1&&vflip(.2)){ double *e[400]; int k=veach(d,e); *e[vi(0,k-1)]=2.5; } if (vflip(.2)) apop_data_add_page(d,apop_data_fill(apop_data_alloc(2),5,6),"notes"); return d; }
static void f_conj(void){
    int w=vi(0,4); const char *pn[]={"beta","beta","gamma","gamma","normal"}; apop_model **ln[]={&apop_binomial,&apop_bernoulli,&apop_exponential,&apop_poisson,&apop_normal}; vdist *P=byname(pn[w]); double p0[3]={0},pl[3]={0}; P->par(p0); apop_model *prior=vmodel(P,p0); bool nodata=(w==0||w==4)&&vflip(.3); apop_model *like; if (nodata){ if (w==0) pl[0]=vi(1,50),pl[1]=vd(.02,.98); else byname("normal")->par(pl); like=apop_model_set_parameters(*ln[w],pl[0],pl[1]); } else if (vflip(.3)) { byname("normal")->par(pl); like=w==0?apop_model_set_parameters(*ln[w],9.,.5):w==4?apop_model_set_parameters(*ln[w],pl[0],pl[1]):w==1?apop_model_set_parameters(*ln[w],.3):apop_model_set_parameters(*ln[w],2.); } else like=vflip(.5)?*ln[w]:apop_model_copy(*ln[w]);
    int rounds=nodata?vi(1,2):vi(1,4); v_sigs(P->name); v_sigd(w); v_sigd(p0[0]); v_sigd(p0[1]); v_desc("%s(%.5g,%.5g) updated %d times with %s %s",P->name,p0[0],p0[1],rounds,(*ln[w])->name,nodata?"without data":"data"); char *ldump=like==*ln[w]?NULL:vmodel_dump(like); bool lpar=like->parameters!=NULL; apop_data *all[4]={0}; apop_model *cur=prior; L base[4]; double th[4]; for (int i=0;i<4;i++) th[i]=w<2?vd(.05,.95):w<4?vpos():vnorm()*2; L acc[4]={0};
    for (int r=0;r<rounds;r++){ apop_data *d=nodata?NULL:conj_data(w,r); all[r]=d; if (d) vh_sig_data(d); char *dd=d?vh_dump(d,true):NULL,*pd=vmodel_dump(cur); apop_model *post=nodata&&vflip(.5)?apop_update(.prior=cur,.likelihood=like):apop_update(d,cur,like); char *pn2=vmodel_dump(cur); V_STR(pn2,pd,"prior","the prior changed"); free(pd); free(pn2); if (dd){ char *dn=vh_dump(d,true); V_STR(dn,dd,"data","the data changed"); free(dn); free(dd); }
        if (!V_CHECK(post&&post!=cur&&!post->error&&post->parameters&&post->parameters->vector&&post->parameters->vector->size==2&&post->log_likelihood==(*P->m)->log_likelihood&&post->draw==(*P->m)->draw,"closed-form","no closed-form posterior")) break; L q[3]={apop_data_get(post->parameters,0,-1),apop_data_get(post->parameters,1,-1)},q0[3]={p0[0],p0[1]}; bool degenerate=!(isfinite((double)q[0])&&isfinite((double)q[1])); V_CHECK(!degenerate,"finite","posterior parameters %g, %g",(double)q[0],(double)q[1]);
        L ref=0,scale=0; for (int i=0;i<4;i++){ L lt=conj_like(w,d,pl,th[i]); acc[i]+=lt; base[i]=P->lpdf(th[i],q)-P->lpdf(th[i],q0)-acc[i]; scale=fmaxl(scale,fabsl(P->lpdf(th[i],q))+fabsl(acc[i])); if (i==0) ref=base[0]; else V_CHECK(fabsl(base[i]-ref)<=1e-9L*(1+scale),"posterior","after update %d the posterior over prior times likelihood is not constant: its log differs by %Lg between %g and %g; parameters %.10g %.10g",r+1,base[i]-ref,th[i],th[0],(double)q[0],(double)q[1]); } v_ev("posteriors_checked");
        apop_model *old=cur; cur=post; if (r==0) V_CHECK(prior==old,"x","x"); else apop_model_free(old); }
    if (ldump){ char *ln2=vmodel_dump(like); V_STR(ln2,ldump,"likelihood","the likelihood changed"); free(ln2); free(ldump); } V_CHECK(lpar==(like->parameters!=NULL),"likelihood","the likelihood was given parameters"); if (like!=*ln[w]) apop_model_free(like); if (cur!=prior) apop_model_free(cur); apop_model_free(prior); for (int i=0;i<4;i++) apop_data_free(all[i]);
}
/* ---- the MCMC trace checker ---- */
typedef struct { double x[12]; double ll; } ev_t; static ev_t *trace; static int ntrace,ctrace; static long nconstraint,nconfail,nbad; static apop_data *want_d; static int wrong_d;
static int T_dim; static double T_mu[12],T_sd[12]; static int T_kind; static double T_bound; static bool T_con,T_nan;
static L target(const double *x){ L s=0; for (int i=0;i<T_dim;i++){ L z=(x[i]-T_mu[i])/T_sd[i]; switch (T_kind){ case 0: s-=z*z/2; break; case 1: s-=fabsl(z); break; case 2: s-=2*log1pl(z*z/3); break; default: s+=-z*z/2+fabsl(z)+log1pl(expl(-2*fabsl(z))); } } return s; }
static long double t_ll(apop_data *d,apop_model *m){ if (d!=want_d) wrong_d++; gsl_vector *v=apop_data_pack(m->parameters); if (T_nan&&v->data[0]>T_mu[0]+1.5*T_sd[0]){ nbad++; gsl_vector_free(v); return vflip(.5)?NAN:-INFINITY; } if (ntrace==ctrace) trace=realloc(trace,(ctrace=ctrace?2*ctrace:4096)*sizeof(ev_t)); ev_t *e=trace+ntrace++; for (int i=0;i<T_dim;i++) e->x[i]=v->data[i]; gsl_vector_free(v); e->ll=target(e->x); return e->ll; }
static long double t_p(apop_data *d,apop_model *m){ int was=ntrace; long double p=expl(t_ll(d,m)); if (ntrace>was) trace[ntrace-1].ll=log(p); return p; }
static long double t_con(apop_data *d,apop_model *m){ (void)d; nconstraint++; gsl_vector *v=apop_data_pack(m->parameters); double x=v->data[0]; gsl_vector_free(v); if (x<T_bound){ nconfail++; return T_bound-x; } return 0; }
static long steps,adapts; static void my_step(double const *d,apop_mcmc_proposal_s *ps,apop_mcmc_settings *ms){ (void)ms; steps++; memcpy(ps->proposal->parameters->vector->data,d,sizeof(double)*ps->proposal->parameters->vector->size); } static void no_step(double const *d,apop_mcmc_proposal_s *ps,apop_mcmc_settings *ms){ (void)d; (void)ps; (void)ms; steps++; } static int no_adapt(apop_mcmc_proposal_s *ps,apop_mcmc_settings *ms){ (void)ps; (void)ms; adapts++; return 0; }
static void reset(void){ ntrace=0; nconstraint=nconfail=nbad=0; wrong_d=0; steps=adapts=0; }
typedef struct { double x[12],ll; bool any; double z,var; long acc,rej,up,n; int bs[14],nb,at; } chain;
/* one step: the proposal at trace[k], the row reported after it */
static void step1(chain *c,int k,const double *row,const char *key){ ev_t *e=trace+k; int lo=c->bs[c->at],hi=c->bs[c->at+1]; c->at=(c->at+1)%c->nb; if (c->any) for (int i=0;i<T_dim;i++){ if (i<lo||i>=hi) V_CHECK(e->x[i]==c->x[i],key,"proposal %d for block %d..%d changed element %d from %.17g to %.17g",k,lo,hi-1,i,c->x[i],e->x[i]); else { c->n++; c->up+=e->x[i]>c->x[i]; } }
    bool isprop=true,isold=c->any; for (int i=0;i<T_dim;i++){ isprop&=row[i]==e->x[i]; isold&=c->any&&row[i]==c->x[i]; } if (!V_CHECK(isprop||isold,key,"row %d is neither the proposal nor the last accepted: element 0 is %.17g, proposed %.17g, last %.17g",k,row[0],e->x[0],c->any?c->x[0]:NAN)) return; if (isprop&&isold) return; /* cannot tell */
    if (!c->any){ V_CHECK(isprop,key,"the first proposal was rejected"); c->any=true; } else if (e->ll>=c->ll) V_CHECK(isprop,key,"step %d: a proposal with log likelihood %.17g was rejected in favor of one with %.17g",k,e->ll,c->ll); else { double p=exp(e->ll-c->ll); c->z+=isprop-p; c->var+=p*(1-p); } if (isprop){ c->acc++; memcpy(c->x,e->x,sizeof c->x); c->ll=e->ll; } else c->rej++; v_ev("mcmc_steps_checked"); }
static void chain_end(chain *c,const char *key){ V_CHECK(fabs(c->z)<=6.5*sqrt(c->var)+3,key,"worse proposals were accepted %g times more often than their likelihood ratios say; the standard deviation of that is %g",c->z,sqrt(c->var)); }
/* parameters of random layout with T_dim elements */
static apop_model *t_model(char gibbs,chain *c){ apop_model *m=apop_model_copy(&(apop_model){"target",.log_likelihood=t_ll}); strcpy(m->name,"target"); int lay=vi(0,4); apop_data *p; int v=vi(1,3),r=vi(1,2),cc=vi(1,2),cuts[6],nc=0; switch (lay){ case 0: p=apop_data_alloc(v); T_dim=v; cuts[nc++]=v; break; case 1: p=apop_data_alloc(0,r,cc); T_dim=r*cc; cuts[nc++]=r*cc; break; case 2: p=apop_data_alloc(r,r,cc); T_dim=r+r*cc; cuts[nc++]=r; cuts[nc++]=r+r*cc; break; case 3: p=apop_data_alloc(v); p->weights=gsl_vector_alloc(v); T_dim=2*v; cuts[nc++]=v; cuts[nc++]=2*v; break; default: p=apop_data_alloc(v); apop_data_add_page(p,apop_data_alloc(r,r,cc),"second"); T_dim=v+r+r*cc; cuts[nc++]=v; cuts[nc++]=v+r; cuts[nc++]=T_dim; }
    for (apop_data *q=p;q;q=q->more){ if (q->vector) for (size_t i=0;i<q->vector->size;i++) gsl_vector_set(q->vector,i,vnorm()); if (q->matrix) gsl_matrix_set_all(q->matrix,vnorm()); if (q->weights) gsl_vector_set_all(q->weights,vnorm()); } m->parameters=p; m->dsize=1; memset(c,0,sizeof *c); if (gibbs=='a'){ c->nb=1; c->bs[1]=T_dim; } else if (gibbs=='b'){ c->nb=nc; for (int i=0;i<nc;i++) c->bs[i+1]=cuts[i]; } else { c->nb=T_dim; for (int i=0;i<=T_dim;i++) c->bs[i]=i; } return m; }
static void f_mcmc(void){
    int ver=quiet(); char gibbs=vpick("ab1i"); if (!gibbs) gibbs='b'; bool defaultgibbs=gibbs=='b'&&vflip(.3); chain c; apop_model *m=t_model(gibbs,&c); T_kind=vi(0,3); for (int i=0;i<T_dim;i++) T_mu[i]=1+vnorm()*2,T_sd[i]=vflip(.2)?vpos()*20:vpos(); T_con=vflip(.25); T_bound=fmin(1.,T_mu[0])-T_sd[0]*vd(-.2,2); if (T_bound>.5) T_bound=.5; T_nan=!T_con&&T_mu[0]+1.5*T_sd[0]>0&&vflip(.15); if (T_con) m->constraint=t_con; bool useP=vflip(.2); if (useP) T_kind=2; if (useP){ m->log_likelihood=NULL; m->p=t_p; } long periods=vflip(.3)?vi(1,40):vi(100,2500); if (vh_thorough&&vflip(.1)) periods=20000; char start=vflip(.3)?'p':'1'; double target_rate=vflip(.3)?vd(.1,.8):.35; int seed=vi(1,1<<30); apop_data *d=vflip(.5)?NULL:apop_data_fill(apop_data_alloc(3),1,2,3); want_d=d; v_sigd(seed); v_sigd(periods); v_sigd(T_dim); v_sigd(gibbs); v_desc("MCMC over %d elements in %d blocks (%c), target type %d, %ld periods%s%s%s, start at %c, seed %d",T_dim,c.nb,gibbs,T_kind,periods,T_con?", constrained":"",T_nan?", not finite in places":"",useP?", by p":"",start,seed);
    double start_v[12]; { gsl_vector *v=apop_data_pack(m->parameters); memcpy(start_v,v->data,T_dim*sizeof(double)); gsl_vector_free(v); } if (start=='p'&&vflip(.5)){ for (int i=0;i<T_dim;i++) start_v[i]=100+i; gsl_vector_view vv=gsl_vector_view_array(start_v,T_dim); apop_data_unpack(&vv.vector,m->parameters); }
    int userprops=vflip(.3)?vi(1,2):0; if (T_con&&start=='p'&&start_v[0]<T_bound+1) start='1'; if (T_nan&&start=='p') start='1'; apop_mcmc_proposal_s *props=NULL; Apop_model_add_group(m,apop_mcmc,.periods=periods,.burnin=0,.gibbs_chunks=defaultgibbs?0:gibbs,.start_at=start,.target_accept_rate=target_rate); apop_mcmc_settings *s=apop_settings_get_group(m,apop_mcmc); s->burnin=0;
    if (userprops){ props=calloc(c.nb,sizeof *props); for (int i=0;i<c.nb;i++){ int n=c.bs[i+1]-c.bs[i]; props[i].proposal=apop_model_copy(apop_multivariate_normal); props[i].proposal->parameters=apop_data_alloc(n,n,n); gsl_vector_set_all(props[i].proposal->parameters->vector,1); for (int j=0;j<n;j++){ for (int k=0;k<n;k++) apop_data_set(props[i].proposal->parameters,j,k,0); apop_data_set(props[i].proposal->parameters,j,j,1.5); apop_data_set(props[i].proposal->parameters,j,-1,fmax(1,T_con?T_bound+1:1)); } props[i].step_fn=userprops==1?my_step:no_step; props[i].adapt_fn=no_adapt; } s->proposals=props; v_ev("custom_proposals"); }
    apop_data *pd=m->parameters; reset(); gsl_rng *r=apop_rng_alloc(seed); apop_model *o=apop_model_metropolis(d,r,m); int evals=ntrace; V_EQ(wrong_d,0,"data","evaluations on some other data set"); if (!V_CHECK(o&&o->data&&o->data->matrix&&o->data->matrix->size1==(size_t)periods&&o->data->matrix->size2==(size_t)T_dim,"rows","the set of draws is not %ld x %d",periods,T_dim)) goto done; V_EQ(evals,periods,"evaluations","evaluations of the likelihood"); V_CHECK(o->data->weights&&o->data->weights->size==(size_t)periods,"weights","%zu weights",o->data->weights?o->data->weights->size:0); for (long i=0;i<periods;i++) V_EQ(gsl_vector_get(o->data->weights,i),1,"weights","weight %ld",i); if (evals!=periods) goto done;
    for (int k=0;k<periods&&!v_nfails();k++) step1(&c,k,gsl_matrix_ptr(o->data->matrix,k,0),"metropolis-rule"); chain_end(&c,"acceptance"); s=apop_settings_get_group(m,apop_mcmc); V_EQ(s->accept_count,c.acc,"counts","accepted"); V_EQ(s->reject_count,c.rej+nconfail+nbad,"counts","rejected"); V_CLOSE(s->last_ll,c.ll,useP?1e-10:0,0,"last-ll","last log likelihood"); V_CHECK(s->pmf==o&&s->base_model==m,"settings","the links to the models"); long pa=0,pr=0; for (int i=0;i<s->block_count;i++) pa+=s->proposals[i].accept_count,pr+=s->proposals[i].reject_count; V_EQ(s->block_count,c.nb,"counts","blocks"); V_EQ(pa,c.acc,"counts","accepted, by block"); V_EQ(pr,c.rej+nconfail+nbad,"counts","rejected, by block"); V_CHECK(m->parameters==pd,"parameters","the model's parameter set was replaced"); { gsl_vector *v=apop_data_pack(m->parameters); for (int i=0;i<T_dim;i++) V_EQ(v->data[i],c.x[i],"last","element %d of the model's parameters",i); gsl_vector_free(v); }
    if (!T_con&&!T_nan&&userprops!=2) V_CHECK(fabs(c.up-c.n/2.)<=3.5*sqrt(c.n)+3,"symmetric","%ld of %ld proposed changes were upward",c.up,c.n); if (userprops) V_EQ(steps,c.acc,"step-fn","calls to the step function"); if (!userprops) for (int i=0;i<c.bs[1];i++){ double x0=start=='p'?start_v[i]:1; V_CHECK(fabs(trace[0].x[i]-x0)<=(T_con||T_nan?1e9:7),"start","the first proposal's element %d is %g; it starts at %g",i,trace[0].x[i],x0); }
    V_EQ(o->error,nconfail?'c':0,"error","the error element, with %ld proposals outside the constraint",nconfail); if (T_con){ V_EQ(nconstraint-nconfail,evals,"constraint","proposals that met the constraint"); for (long i=0;i<periods;i++) V_CHECK(gsl_matrix_get(o->data->matrix,i,0)>=T_bound,"constraint","row %ld is outside of the constraint",i); }
    if (!userprops&&gibbs=='a'&&periods>=1500&&T_kind<2&&!T_con&&!T_nan&&T_dim<4&&start=='1'){ bool easy=true; for (int i=0;i<T_dim;i++) easy&=T_sd[i]<5&&T_sd[i]>.2; if (easy) { double ar=c.acc/(double)periods; V_CHECK(ar>target_rate/2-.05&&ar<target_rate*1.5+.2,"adapts","an accept rate of %g with a target of %g",ar,target_rate); v_ev("adaptations_checked"); } }
    /* the same seed, with burn-in: the tail */
    if (!userprops&&vflip(.4)&&!T_nan){ double b=vflip(.3)?vpick(((double[]){.05,.1,.2,.5,.333,.7,.9})):vd(0,.95); apop_model *m2=apop_model_copy(m); if (start=='p'){ gsl_vector_view vv=gsl_vector_view_array(start_v,T_dim); apop_data_unpack(&vv.vector,m2->parameters); } Apop_model_add_group(m2,apop_mcmc,.periods=periods,.burnin=b,.gibbs_chunks=gibbs,.start_at=start,.target_accept_rate=target_rate); if (b==0){ apop_mcmc_settings *s2=apop_settings_get_group(m2,apop_mcmc); s2->burnin=0; } reset(); gsl_rng *r2=apop_rng_alloc(seed); apop_model *o2=apop_model_metropolis(d,r2,m2); long burn=(long)(periods*b),keep=periods-burn; size_t got=o2&&o2->data&&o2->data->matrix?o2->data->matrix->size1:0; V_EQ(got,keep,"burn-in","rows after a burn-in of %g of %ld periods",b,periods); if ((long)got==keep){ V_CHECK(o2->data->weights&&o2->data->weights->size==got,"burn-in","count of weights"); for (long i=0;i<keep;i++) for (int j=0;j<T_dim;j++) V_EQ(gsl_matrix_get(o2->data->matrix,i,j),gsl_matrix_get(o->data->matrix,i+burn,j),"burn-in","element %d of row %ld",j,i); } V_EQ(ntrace,periods,"burn-in","evaluations"); if (o2){ apop_data_free(o2->data); apop_model_free(o2); } apop_model_free(m2); gsl_rng_free(r2); v_ev("burnins_checked"); }
    /* more steps of the same chain */
    if (vflip(.5)){ int n=vi(1,30); reset(); chain before=c; c.at=0; size_t rows=periods; for (int t=0;t<n&&!v_nfails();t++){ double out[16]; for (int i=0;i<16;i++) out[i]=GUARD; int was=ntrace; long cf=nconfail; int ret=vflip(.5)?apop_draw(out+1,r,o):apop_model_metropolis_draw(out+1,r,o); V_EQ(ret,nconfail>cf,"draw-status","status of a draw with %ld proposals outside the constraint",nconfail-cf); V_EQ(ntrace-was,c.nb,"draw","evaluations for one more draw"); if (!V_CHECK(o->data->matrix->size1==rows+c.nb,"draw","the data has %zu rows after %d more steps from %zu",o->data->matrix->size1,c.nb,rows)) break; if (ntrace-was==c.nb) for (int b=0;b<c.nb;b++) step1(&c,was+b,gsl_matrix_ptr(o->data->matrix,rows+b,0),"continued"); rows+=c.nb; V_CHECK(o->data->weights->size==rows,"draw-weights","%zu weights for %zu rows",o->data->weights->size,rows); if (o->data->weights->size==rows) V_EQ(gsl_vector_get(o->data->weights,rows-1),1,"draw-weights","the weight of a new row"); for (int i=0;i<T_dim;i++) V_EQ(out[i+1],gsl_matrix_get(o->data->matrix,rows-1,i),"draw","element %d of the draw",i); V_CHECK(out[0]==GUARD&&out[T_dim+1]==GUARD,"guard","cells outside were written"); } V_EQ(wrong_d,0,"data","evaluations on some other data set"); chain_end(&c,"acceptance"); (void)before; v_ev("continued_chains"); }
    done: if (o){ apop_data_free(o->data); apop_model_free(o); } if (props) for (int i=0;i<c.nb;i++) apop_model_free(props[i].proposal); free(props); apop_model_free(m); apop_data_free(d); gsl_rng_free(r); apop_opts.verbose=ver;
}
/* ---- posteriors without a closed form ---- */
static double wmean(apop_data *d,int c,double *var){ L s=0,ss=0,w=0; for (size_t i=0;i<d->matrix->size1;i++){ double x=gsl_matrix_get(d->matrix,i,c),k=d->weights?gsl_vector_get(d->weights,i):1; s+=k*x; w+=k; } L m=s/w; for (size_t i=0;i<d->matrix->size1;i++){ double x=gsl_matrix_get(d->matrix,i,c)-m,k=d->weights?gsl_vector_get(d->weights,i):1; ss+=k*x*x; } *var=ss/w; return m; }
static vdist *G_like; static double G_p[3]; static int G_free; static apop_data *G_d;
static long double w_ll(apop_data *d,apop_model *m){ double p[3]; for (int i=0;i<3;i++) p[i]=i<G_like->np?apop_data_get(m->parameters,i,-1):0; return vll(G_like,p,d); } static long double w_pos(apop_data *d,apop_model *m){ (void)d; double x=apop_data_get(m->parameters,0,-1); return x>1e-6?0:1e-6-x+1e-9; }
static void grid1(vdist *P,double *pp,double lo,double hi,double *mean,double *var){ int N=20000; L mx=-INFINITY,*l=malloc(N*sizeof(L)); for (int i=0;i<N;i++){ double th=lo+(hi-lo)*(i+.5)/N,q[3]; memcpy(q,G_p,sizeof q); q[G_free]=th; L a[3]={pp[0],pp[1],pp[2]}; l[i]=(P->par==gamma_par&&th<=0)||(P->par==beta_par&&(th<=0||th>=1))?-INFINITY:P->lpdf(th,a)+vll(G_like,q,G_d); if (isnan(l[i])) l[i]=-INFINITY; if (l[i]>mx) mx=l[i]; } L w=0,s=0,ss=0; for (int i=0;i<N;i++){ double th=lo+(hi-lo)*(i+.5)/N; L k=expl(l[i]-mx); w+=k; s+=k*th; ss+=k*th*th; } *mean=s/w; *var=ss/w-(s/w)*(s/w); free(l); }
static void f_post(void){
    int ver=quiet(); int w=vi(0,3); apop_model *prior,*like; vdist *P; double pp[3]={0}; int n=vi(8,20); double truth; apop_data *d=vflip(.5)?apop_data_alloc(n):apop_data_alloc(0,n,1); int col=d->vector?-1:0; double lo,hi; apop_model *tofree=NULL; long periods=vh_thorough?40000:12000; double tol=vh_thorough?.25:.4,vt=vh_thorough?1.7:2.3;
    switch (w){ case 0: P=byname("normal"); pp[0]=vnorm(); pp[1]=.5+vpos(); prior=vmodel(P,pp); truth=pp[0]+pp[1]*vnorm(); G_like=byname("normal"); G_free=0; G_p[1]=.5+vpos(); for (int i=0;i<n;i++) apop_data_set(d,i,col,truth+G_p[1]*vnorm()); tofree=apop_model_set_parameters(apop_normal,NAN,G_p[1]); like=apop_model_fix_params(tofree); lo=-15; hi=15; break;
    case 1: P=byname("gamma"); pp[0]=2+vpos(); pp[1]=vpos(); prior=vmodel(P,pp); truth=2+vpos()*3; G_like=byname("poisson"); G_free=0; for (int i=0;i<n;i++) apop_data_set(d,i,col,floor(fmax(0,truth+sqrt(truth)*vnorm()+.5))); like=apop_model_copy(apop_poisson); like->log_likelihood=w_ll; like->constraint=w_pos; lo=0; hi=40; break;
    case 2: P=byname("beta"); pp[0]=1+vpos(); pp[1]=1+vpos(); prior=vmodel(P,pp); truth=vd(.25,.75); G_like=byname("bernoulli"); G_free=0; for (int i=0;i<n;i++) apop_data_set(d,i,col,vd(0,1)<truth); apop_data_set(d,0,col,0); apop_data_set(d,1,col,1); apop_data_set(d,2,col,0); apop_data_set(d,3,col,1); like=apop_model_copy(apop_bernoulli); like->log_likelihood=w_ll; lo=0; hi=1; break;
    default: P=byname("normal"); pp[0]=vnorm(); pp[1]=.5+vpos(); prior=vmodel(P,pp); truth=pp[0]; G_like=byname("t"); G_free=0; G_p[1]=vpos(); G_p[2]=vi(3,9); for (int i=0;i<n;i++) apop_data_set(d,i,col,truth+G_p[1]*vnorm()); tofree=apop_model_set_parameters(apop_t_distribution,NAN,G_p[1],G_p[2]); like=apop_model_fix_params(tofree); lo=-15; hi=15; }
    G_d=d; vh_sig_data(d); v_sigd(w); Apop_model_add_group(prior,apop_mcmc,.periods=periods,.burnin=.2); bool chain2=vflip(.3); bool rngless=vflip(.3); v_desc("a %s prior (%.4g,%.4g) with a %s likelihood and %d data points, by MCMC%s",P->name,pp[0],pp[1],G_like->name,n,chain2?", then again":""); char *pd=vmodel_dump(prior),*ld=vmodel_dump(like),*dd=vh_dump(d,true); bool lp=like->parameters!=NULL; gsl_rng *r=apop_rng_alloc(vi(1,1<<30)); apop_model *o=rngless?apop_update(d,prior,like):apop_update(d,prior,like,r); char *pn=vmodel_dump(prior),*ln=vmodel_dump(like),*dn=vh_dump(d,true); V_STR(pn,pd,"prior","the prior changed"); V_STR(ln,ld,"likelihood","the likelihood changed"); V_STR(dn,dd,"data","the data changed"); V_EQ(like->parameters!=NULL,lp,"likelihood","the likelihood's parameters"); free(pd); free(pn); free(ld); free(ln); free(dn); free(dd);
    if (V_CHECK(o&&o->data&&o->data->matrix&&o->data->matrix->size2==1,"posterior","no posterior")){ V_EQ(o->data->matrix->size1,periods-(long)(periods*.2),"rows","draws in the posterior"); double gm,gv,v,m; grid1(P,pp,lo,hi,&gm,&gv); m=wmean(o->data,0,&v); V_CHECK(fabs(m-gm)<=tol*sqrt(gv)&&v<gv*vt&&v>gv/vt,"moments","the draws have mean %g and variance %g; the posterior's are %g and %g",m,v,gm,gv); v_ev("posteriors_checked");
        if (chain2&&!v_nfails()){ /* the output as the next prior: every row reweighted */ apop_data *d2=apop_data_copy(d); for (int i=0;i<n;i++) if (vflip(.5)) apop_data_set(d2,i,col,apop_data_get(d,vi(0,n-1),col)); char *od=vh_dump(o->data,true); apop_model *o2=apop_update(d2,o,like,r); char *on=vh_dump(o->data,true); V_STR(on,od,"prior","the data of the PMF used as a prior changed"); free(od); free(on); if (V_CHECK(o2&&o2->data&&o2->data->matrix&&o2->data->matrix->size1>0,"chained","no second posterior")){ double q[3],wt=0; long nr=o->data->matrix->size1; if (V_CHECK((long)o2->data->matrix->size1==nr&&o2->data->weights,"chained","%zu rows from %ld",o2->data->matrix->size1,nr)){ L *l=malloc(nr*sizeof(L)),mx=-INFINITY,tot=0; for (long i=0;i<nr;i++){ memcpy(q,G_p,sizeof q); q[G_free]=gsl_matrix_get(o->data->matrix,i,0); l[i]=vll(G_like,q,d2); if (l[i]>mx) mx=l[i]; } for (long i=0;i<nr;i++) tot+=expl(l[i]-mx),wt+=gsl_vector_get(o2->data->weights,i); for (long i=0;i<nr;i++){ V_CLOSE(gsl_vector_get(o2->data->weights,i)/wt,(double)(expl(l[i]-mx)/tot),1e-7,1e-14,"chained","weight of row %ld",i); V_EQ(gsl_matrix_get(o2->data->matrix,i,0),gsl_matrix_get(o->data->matrix,i,0),"chained","row %ld",i); } free(l); } apop_data_free(o2->data); apop_model_free(o2); } apop_data_free(d2); v_ev("chained_updates"); } }
    if (o){ apop_data_free(o->data); apop_model_free(o); } apop_model_free(prior); apop_model_free(like); if (tofree) apop_model_free(tofree); apop_data_free(d); gsl_rng_free(r); apop_opts.verbose=ver;
}
/* two parameters: a multivariate normal prior over mu and sigma */
static void f_post2(void){
    int ver=quiet(); double mu0=vnorm(),s0=1.5+vd(0,1),v1=.3+vd(0,1),v2=.1+vd(0,.3),cov=vd(-.5,.5)*sqrt(v1*v2); int n=vi(15,30); apop_model *prior=apop_model_copy(apop_multivariate_normal); prior->parameters=apop_data_alloc(2,2,2); apop_data_fill(prior->parameters,mu0,v1,cov,s0,cov,v2); prior->dsize=2; apop_data *d=apop_data_alloc(0,n,1); for (int i=0;i<n;i++) apop_data_set(d,i,0,mu0+s0*vnorm()); vh_sig_data(d); v_sigd(mu0); v_desc("a multivariate normal prior over a Normal's two parameters, %d data points",n); Apop_model_add_group(prior,apop_mcmc,.periods=vh_thorough?40000:12000,.burnin=.2,.gibbs_chunks=vflip(.5)?'a':'1'); apop_model *like=vflip(.5)?apop_normal:apop_model_copy(apop_normal); bool lp=like->parameters!=NULL; char *pd=vmodel_dump(prior),*dd=vh_dump(d,true); gsl_rng *r=apop_rng_alloc(vi(1,1<<30)); apop_model *o=apop_update(d,prior,like,r); char *pn=vmodel_dump(prior),*dn=vh_dump(d,true); V_STR(pn,pd,"prior","the prior changed"); V_STR(dn,dd,"data","the data changed"); V_EQ(like->parameters!=NULL,lp,"likelihood","the likelihood's parameters"); free(pd); free(pn); free(dd); free(dn);
    if (V_CHECK(o&&o->data&&o->data->matrix&&o->data->matrix->size2==2,"posterior","no posterior")){ int N=300; L *l=malloc(N*N*sizeof(L)),mx=-INFINITY,det=v1*v2-cov*cov; vdist *D=byname("normal"); for (int i=0;i<N;i++) for (int j=0;j<N;j++){ double p[3]={mu0-6*sqrt(v1)+12*sqrt(v1)*(i+.5)/N,5*(j+.5)/N}; L a=p[0]-mu0,b=p[1]-s0; l[i*N+j]=vll(D,p,d)-(v2*a*a-2*cov*a*b+v1*b*b)/det/2; if (l[i*N+j]>mx) mx=l[i*N+j]; } L W=0,s[2]={0},ss[2]={0}; for (int i=0;i<N;i++) for (int j=0;j<N;j++){ double p[2]={mu0-6*sqrt(v1)+12*sqrt(v1)*(i+.5)/N,5*(j+.5)/N}; L k=expl(l[i*N+j]-mx); W+=k; for (int z=0;z<2;z++) s[z]+=k*p[z],ss[z]+=k*p[z]*p[z]; } free(l); for (int z=0;z<2;z++){ double gm=s[z]/W,gv=ss[z]/W-(double)(s[z]/W)*(s[z]/W),v,m=wmean(o->data,z,&v); V_CHECK(fabs(m-gm)<=.5*sqrt(gv)&&v<gv*2.5&&v>gv/2.5,"moments","parameter %d: the draws have mean %g and variance %g; the posterior's are %g and %g",z,m,v,gm,gv); } v_ev("posteriors_checked"); apop_data_free(o->data); apop_model_free(o); } apop_model_free(prior); if (like!=apop_normal) apop_model_free(like); apop_data_free(d); gsl_rng_free(r); apop_opts.verbose=ver;
}
/* ---- priors that are lists, or that can only be drawn from ---- */
static int pd_n,pd_dim; static double (*pd_rows)[2]; static int pd_cap; static bool pd_nan;
static int rec_draw(double *out,gsl_rng *r,apop_model *m){ (void)m; if (pd_n==pd_cap) pd_rows=realloc(pd_rows,(pd_cap=pd_cap?2*pd_cap:1024)*sizeof *pd_rows); for (int i=0;i<pd_dim;i++) pd_rows[pd_n][i]=out[i]=i==0?4*gsl_rng_uniform(r)-2:.3+2*gsl_rng_uniform(r); pd_n++; return 0; }
static void f_list(void){
    int ver=quiet(); int dim=vi(1,2),n=vi(1,12); vdist *D=byname("normal"); double sd=.5+vpos(); apop_model *base=NULL,*like; if (dim==1){ base=apop_model_set_parameters(apop_normal,NAN,sd); like=apop_model_fix_params(base); } else like=vflip(.5)?apop_normal:apop_model_copy(apop_normal); bool lp=like->parameters!=NULL; apop_data *d=vflip(.5)?apop_data_alloc(n):apop_data_alloc(0,n,1); for (int i=0;i<n;i++) apop_data_set(d,i,d->vector?-1:0,vnorm()); vh_sig_data(d); bool pmf=vflip(.5); v_desc("a %d-dimensional prior that is %s, %d data points",dim,pmf?"a PMF":"only a draw method",n); v_sigd(dim+10*pmf); char *dd=vh_dump(d,true); apop_model *o;
    if (pmf){ int rows=vi(1,60); bool hasw=vflip(.6),asvec=vflip(.3)&&dim==1,mixed=dim==2&&vflip(.3); apop_data *pr=asvec?apop_data_alloc(rows):mixed?apop_data_alloc(rows,rows,1):apop_data_alloc(0,rows,dim); double (*pt)[2]=calloc(rows,sizeof *pt),*pw=calloc(rows,sizeof(double)); for (int i=0;i<rows;i++){ pt[i][0]=vnorm()*(vflip(.1)?50:1); pt[i][1]=dim==1?sd:.3+vpos(); if (dim==2&&vflip(.1)) pt[i][1]=-1; if (asvec||mixed) gsl_vector_set(pr->vector,i,pt[i][0]); else apop_data_set(pr,i,0,pt[i][0]); if (dim==2) apop_data_set(pr,i,mixed?0:1,pt[i][1]); } if (dim==2) { pt[0][1]=1; apop_data_set(pr,0,mixed?0:1,1); } if (hasw){ pr->weights=gsl_vector_alloc(rows); for (int i=0;i<rows;i++) gsl_vector_set(pr->weights,i,i==0?1:vflip(.2)?0:vpos()); } for (int i=0;i<rows;i++) pw[i]=hasw?gsl_vector_get(pr->weights,i):1; apop_model *prior=apop_estimate(pr,apop_pmf); char *pd=vh_dump(pr,true); o=apop_update(d,prior,like); char *pn=vh_dump(pr,true); V_STR(pn,pd,"prior","the prior's list changed"); free(pd); free(pn); if (V_CHECK(o&&o!=prior&&o->data&&o->data!=pr&&o->data->weights&&vh_rows(o->data)==rows,"list","the posterior is not a list of %d rows",rows)){ L l[60],mx=-INFINITY,tot=0,wt=0; for (int i=0;i<rows;i++){ l[i]=pt[i][1]<0?-INFINITY:vll(D,pt[i],d); if (l[i]>mx) mx=l[i]; } for (int i=0;i<rows;i++){ l[i]=pw[i]*expl(l[i]-mx); tot+=l[i]; wt+=gsl_vector_get(o->data->weights,i); } if (tot>0) for (int i=0;i<rows;i++){ V_CLOSE((double)(gsl_vector_get(o->data->weights,i)/wt),(double)(l[i]/tot),1e-8,1e-13,"list","weight of row %d",i); apop_data *a=Apop_r(o->data,i),*b=Apop_r(pr,i); if (a->vector) V_EQ(gsl_vector_get(a->vector,0),gsl_vector_get(b->vector,0),"list","row %d",i); if (a->matrix) for (size_t j=0;j<a->matrix->size2;j++) V_EQ(gsl_matrix_get(a->matrix,0,j),gsl_matrix_get(b->matrix,0,j),"list","row %d",i); } v_ev("lists_checked"); } apop_model_free(prior); apop_data_free(pr); free(pt); free(pw); }
    else { pd_dim=dim; pd_n=0; bool sett=vflip(.7); long periods=sett?vi(1,400):6000; apop_model *prior=apop_model_copy(&(apop_model){"draws",.draw=rec_draw,.dsize=dim}); prior->dsize=dim; if (sett) Apop_model_add_group(prior,apop_mcmc,.periods=periods,.burnin=vd(.1,.9)); char *pd=vmodel_dump(prior); gsl_rng *r=apop_rng_alloc(vi(1,1<<30)); o=vflip(.5)?apop_update(d,prior,like,r):apop_update(d,prior,like); char *pn=vmodel_dump(prior); /* an info page may be allocated */ V_STR(pn,pd,"prior","the prior changed"); free(pd); free(pn); if (V_CHECK(o&&o->data&&o->data->matrix&&(long)o->data->matrix->size1==periods&&(int)o->data->matrix->size2==dim&&o->data->weights&&(long)o->data->weights->size==periods,"draws","the posterior is not a list of %ld rows",periods)){ V_CHECK(pd_n>=periods,"draws","%d draws from the prior",pd_n); int off=pd_n-periods; for (long i=0;i<periods&&off>=0;i++){ double p[3]={pd_rows[i+off][0],dim==2?pd_rows[i+off][1]:sd}; for (int j=0;j<dim;j++) V_EQ(gsl_matrix_get(o->data->matrix,i,j),pd_rows[i+off][j],"draws","element %d of row %ld",j,i); V_CLOSE(gsl_vector_get(o->data->weights,i),(double)expl(vll(D,p,d)),1e-8,0,"draws","weight of row %ld",i); } v_ev("lists_checked"); } apop_model_free(prior); gsl_rng_free(r); }
    V_EQ(like->parameters!=NULL,lp,"likelihood","the likelihood's parameters"); char *dn=vh_dump(d,true); V_STR(dn,dd,"data","the data changed"); free(dn); free(dd); if (o){ apop_data_free(o->data); apop_model_free(o); }
    if (vflip(.3)){ /* dimensions that do not match */ apop_model *p3=apop_model_copy(&(apop_model){"draws",.draw=rec_draw}); p3->dsize=dim+1; pd_dim=1; apop_model *e=apop_update(d,p3,like); V_CHECK(e&&e->error=='d',"sizes","a prior of the wrong size was not reported"); if (e) apop_model_free(e); apop_model_free(p3); }
    if (base) apop_model_free(base); if (like!=apop_normal) apop_model_free(like); apop_data_free(d); apop_opts.verbose=ver;
}
/* ---- bootstrap and jackknife ---- */
static apop_data *B_in; static int B_rows; static int (*B_sets)[40],B_n,B_cap; static int B_kind,B_bad,B_names; static double B_nanprob; static double (*B_par)[4]; static bool B_isnan[100000]; static int B_width;
/* which row of the input is this one? rows are made distinct */
static int which_row(apop_data *s,int i){ for (int j=0;j<B_rows;j++){ bool same=true; if (B_in->vector) same&=s->vector&&gsl_vector_get(s->vector,i)==gsl_vector_get(B_in->vector,j); if (B_in->matrix) for (size_t k=0;k<B_in->matrix->size2&&same;k++) same&=gsl_matrix_get(s->matrix,i,k)==gsl_matrix_get(B_in->matrix,j,k); if (B_in->weights) same&=s->weights&&gsl_vector_get(s->weights,i)==gsl_vector_get(B_in->weights,j); for (size_t k=0;k<B_in->textsize[1]&&same;k++) same&=!strcmp(s->text[i][k],B_in->text[j][k]); if (same) return j; } return -1; }
static void b_est(apop_data *d,apop_model *m){ if (B_n==B_cap){ B_cap=B_cap?2*B_cap:1024; B_sets=realloc(B_sets,B_cap*sizeof *B_sets); B_par=realloc(B_par,B_cap*sizeof *B_par); } int n=d?vh_rows(d):0; double v[4]={0}; for (int i=0;i<40;i++) B_sets[B_n][i]=0; B_sets[B_n][39]=n; for (int i=0;i<n;i++){ int j=which_row(d,i); if (j<0) B_bad++; else { B_sets[B_n][j]++; } }
    /* statistics of the set */ for (int i=0;i<n;i++){ double x=d->vector?gsl_vector_get(d->vector,i):d->matrix?gsl_matrix_get(d->matrix,i,0):atof(d->text[i][0]); v[0]+=x/n; v[1]+=x*x/n; v[2]+=d->matrix?gsl_matrix_get(d->matrix,i,d->matrix->size2-1)/n:x/n; v[3]=fmax(v[3],x); } if (!d) for (int i=0;i<4;i++) v[i]=vnorm(); if (B_kind==1) v[0]=v[1]-v[0]*v[0]; B_isnan[B_n]=vd(0,1)<B_nanprob; if (B_isnan[B_n]) v[vi(0,B_width-1)]=NAN; memcpy(B_par[B_n],v,sizeof v); B_n++; for (int i=0;i<B_width;i++) gsl_vector_set(m->parameters->vector,i,v[i]); }
static apop_data *bdata(int lo,int hi){ vh_shape s=vh_random_shape(hi,3); int r=vi(lo,hi); bool v=vflip(.5),mx=!v||vflip(.5),w=vflip(.3),t=vflip(.3); if (vflip(.12)) v=mx=false,t=true; s=(vh_shape){.vsize=v?r:0,.m1=mx?r:0,.m2=mx?vi(1,3):0,.wsize=w?r:0,.t1=t?r:0,.t2=t?vi(1,2):0,.rownames=vflip(.5),.colnames=vflip(.5),.vecname=v&&vflip(.5),.title=vflip(.3),.plainstr=true}; apop_data *d=vh_data(s); if (d->vector) for (int i=0;i<r;i++) gsl_vector_set(d->vector,i,i*.37+vnorm()); if (d->matrix) for (int i=0;i<r;i++) for (size_t j=0;j<d->matrix->size2;j++) gsl_matrix_set(d->matrix,i,j,vnorm()*3+i); if (d->weights) for (int i=0;i<r;i++) gsl_vector_set(d->weights,i,1+i*.01); if (!v&&!mx) for (int i=0;i<r;i++) apop_text_set(d,i,0,"%.17g",i*.37+vnorm()); return d; }
static apop_model *bmodel(void){ B_width=vi(1,4); B_kind=vi(0,1); apop_model *m=apop_model_copy(&(apop_model){"observer",.estimate=b_est}); m->vsize=B_width; return m; }
static L covof(double (*p)[4],int n,int a,int b){ L ma=0,mb=0,s=0; for (int i=0;i<n;i++) ma+=p[i][a],mb+=p[i][b]; ma/=n; mb/=n; for (int i=0;i<n;i++) s+=(p[i][a]-ma)*(p[i][b]-mb); return s/(n-1); }
static void f_boot(void){
    int ver=quiet(); bool nodata=vflip(.1); apop_data *d=nodata?NULL:bdata(1,20); B_in=d; B_rows=d?vh_rows(d):0; B_n=B_bad=0; B_nanprob=vflip(.6)?0:vflip(.2)?.5:vd(0,.3); apop_model *m=bmodel(); int iters=vi(2,200); if (vflip(.1)) iters=1000; int it=iters; char ign=vpick("yn"); if (!ign) ign='n'; bool defign=ign=='n'&&vflip(.4); if (d) vh_sig_data(d); v_sigd(iters); v_sigd(B_width); v_desc("a bootstrap of %d rows, %d iterations, %d parameters, %s, NaN probability %g, ignore_nans %c",B_rows,iters,B_width,nodata?"no data":"data",B_nanprob,ign); apop_data *boots=(void*)-1; bool keep=vflip(.7); gsl_rng *r=apop_rng_alloc(vi(1,1<<30)); char *dd=d?vh_dump(d,true):NULL,*md=vmodel_dump(m); apop_name *nm=d?d->names:NULL;
    apop_data *cov= defign?(keep?apop_bootstrap_cov(d,m,r,iters,.boot_store=&boots):apop_bootstrap_cov(d,m,.iterations=iters)):keep?apop_bootstrap_cov(d,m,r,iters,.boot_store=&boots,.ignore_nans=ign):apop_bootstrap_cov(d,m,r,.iterations=iters,.ignore_nans=ign); if (dd){ char *dn=vh_dump(d,true); V_STR(dn,dd,"data","the data changed"); free(dn); V_CHECK(d->names==nm,"data","the names were replaced"); free(dd); } char *mn=vmodel_dump(m); V_STR(mn,md,"model","the model changed"); free(md); free(mn);
    V_EQ(B_bad,0,"rows","rows of the resampled sets that are not rows of the data"); long cnt[40]={0},tot=0; for (int i=0;i<B_n;i++){ V_EQ(B_sets[i][39],B_rows,"size","rows in resample %d",i); for (int j=0;j<B_rows;j++) cnt[j]+=B_sets[i][j],tot+=B_sets[i][j]; } if (B_rows&&tot>2000) for (int j=0;j<B_rows;j++){ double e=tot/(double)B_rows; V_CHECK(fabs(cnt[j]-e)<=6.5*sqrt(e),"uniform","row %d was drawn %ld times; %g expected",j,cnt[j],e); } if (B_rows>3&&B_n>60){ long full=0; for (int i=0;i<B_n;i++){ bool distinct=true; for (int j=0;j<B_rows;j++) distinct&=B_sets[i][j]==1; full+=distinct; } V_CHECK(full<B_n/2,"replacement","%ld of %d resamples were without repetition",full,B_n); }
    int used=0,nans=0; double (*p)[4]=malloc((B_n+1)*sizeof *p); bool anynan=false; for (int i=0;i<B_n;i++){ if (B_isnan[i]&&ign=='y'){ nans++; continue; } anynan|=B_isnan[i]; memcpy(p[used++],B_par[i],sizeof *p); } v_evn("resamples_observed",B_n); if (ign=='n') V_EQ(B_n,it,"iterations","estimations"); else V_CHECK((used==it&&nans<=it)||nans==it,"iterations","%d estimations used and %d thrown out, of %d",used,nans,it); if (V_CHECK(cov,"covariance","nothing returned")){ if (ign=='y'&&nans==it&&used<it) V_EQ(cov->error,'N',"error","the error element after %d NaNs",nans); else V_EQ(cov->error,0,"error","the error element"); if (used>=2&&V_CHECK(cov->matrix&&(int)cov->matrix->size1==B_width&&(int)cov->matrix->size2==B_width,"covariance","its size")&&!anynan) for (int i=0;i<B_width;i++) for (int j=0;j<B_width;j++){ double w=covof(p,used,i,j); V_CLOSE(gsl_matrix_get(cov->matrix,i,j),w,1e-7,1e-10*(1+fabs(w)),"covariance","element %d, %d",i,j); } if (keep&&used){ if (V_CHECK(boots!=(void*)-1&&boots&&boots->matrix&&(int)boots->matrix->size1==used&&(int)boots->matrix->size2==B_width,"store","the list of draws is not %d x %d",used,B_width)) for (int i=0;i<used;i++) for (int j=0;j<B_width;j++) V_EQ(gsl_matrix_get(boots->matrix,i,j),p[i][j],"store","element %d of draw %d",j,i); } }
    if (keep&&boots!=(void*)-1) apop_data_free(boots); apop_data_free(cov); free(p); apop_model_free(m); gsl_rng_free(r); apop_data_free(d); apop_opts.verbose=ver;
}
static void f_jack(void){
    int ver=quiet(); apop_data *d=bdata(2,25); B_in=d; B_rows=vh_rows(d); B_n=B_bad=0; B_nanprob=0; apop_model *m=bmodel(); vh_sig_data(d); v_sigd(B_width); bool pre=vflip(.3); double th[4]; int n=B_rows; if (pre){ m->parameters=apop_data_alloc(B_width); for (int i=0;i<B_width;i++) apop_data_set(m->parameters,i,-1,th[i]=vnorm()); } v_desc("a jackknife of %d rows, %d parameters%s",n,B_width,pre?", already estimated":""); char *dd=vh_dump(d,true),*md=vmodel_dump(m); apop_name *nm=d->names; apop_data *cov=apop_jackknife_cov(d,m); char *dn=vh_dump(d,true),*mn=vmodel_dump(m); V_STR(dn,dd,"data","the data changed"); V_STR(mn,md,"model","the model changed"); V_CHECK(d->names==nm,"data","the names were replaced"); free(dd); free(dn); free(md); free(mn); V_EQ(B_bad,0,"rows","rows of the subsets that are not rows of the data"); int loo[40]={0},full=0; double (*p)[4]=malloc((B_n+1)*sizeof *p); int k=0; for (int i=0;i<B_n;i++){ if (B_sets[i][39]==n){ full++; continue; } V_EQ(B_sets[i][39],n-1,"size","rows of subset %d",i); int miss=-1; bool ok=true; for (int j=0;j<n;j++) if (B_sets[i][j]==0){ ok&=miss<0; miss=j; } else ok&=B_sets[i][j]==1; if (V_CHECK(ok&&miss>=0,"leave-one-out","subset %d does not leave out exactly one row",i)) loo[miss]++; memcpy(p[k++],B_par[i],sizeof *p); } for (int j=0;j<n;j++) V_EQ(loo[j],1,"leave-one-out","times row %d was left out",j); V_EQ(full,!pre,"full","estimations with all of the data"); v_evn("subsets_observed",B_n);
    if (V_CHECK(cov&&!cov->error&&cov->matrix&&(int)cov->matrix->size1==B_width&&(int)cov->matrix->size2==B_width,"covariance","its size")&&k==n) for (int i=0;i<B_width;i++) for (int j=0;j<B_width;j++){ L w=covof(p,n,i,j)*(n-1)*(L)(n-1)/n,sc=sqrtl(covof(p,n,i,i)*covof(p,n,j,j))*(n-1)*(L)(n-1)/n; V_CLOSE(gsl_matrix_get(cov->matrix,i,j),(double)w,1e-6,1e-7*(double)sc+1e-9,"covariance","element %d, %d of %d rows",i,j,n); } apop_data_free(cov); free(p); apop_model_free(m); apop_data_free(d); apop_opts.verbose=ver;
}
/* drawing from a model in several dimensions that has no draw method */
static void f_fallback(void){
    int ver=quiet(); int dim=vi(2,3); apop_model *m=apop_model_copy(apop_multivariate_normal); m->draw=NULL; m->dsize=dim; m->parameters=apop_data_alloc(dim,dim,dim); gsl_matrix_set_zero(m->parameters->matrix); double mu[3],var[3]; for (int i=0;i<dim;i++){ apop_data_set(m->parameters,i,-1,mu[i]=vnorm()*2); apop_data_set(m->parameters,i,i,var[i]=.3+vpos()); } int N=vh_thorough?30000:6000,seed=vi(1,1<<30); v_sigd(mu[0]); v_sigd(seed); v_desc("draws from a density in %d dimensions",dim); char *pd=vh_dump(m->parameters,true); gsl_rng *r=apop_rng_alloc(seed); L s[3]={0},ss[3]={0}; for (int i=0;i<N;i++){ double c[5]={GUARD,GUARD,GUARD,GUARD,GUARD}; V_EQ(apop_draw(c+1,r,m),0,"status","draw"); if (!V_CHECK(c[0]==GUARD&&c[dim+1]==GUARD,"guard","cells outside were written")) break; for (int j=0;j<dim;j++) s[j]+=c[j+1],ss[j]+=c[j+1]*c[j+1]; } for (int j=0;j<dim;j++){ double mm=s[j]/N,v=ss[j]/N-mm*mm; V_CHECK(fabs(mm-mu[j])<=.6*sqrt(var[j])&&v<2.5*var[j]&&v>var[j]/2.5,"moments","coordinate %d: mean %g and variance %g of the draws; %g and %g of the density",j,mm,v,mu[j],var[j]); } char *pn=vh_dump(m->parameters,true); V_STR(pn,pd,"parameters","the parameters changed"); free(pd); free(pn); v_evn("draws_examined",N); apop_model_free(m); gsl_rng_free(r); apop_opts.verbose=ver;
}
/* ---- models of parameters ---- */
static int pm_calls; static void pm_seq(apop_data *d,apop_model *m){ pm_calls++; for (int i=0;i<m->vsize;i++) apop_data_set(m->parameters,i,-1,pm_calls*(i+1)+.25); }
static void pm_means(apop_data *d,apop_model *m){ for (int i=0;i<m->vsize;i++) apop_data_set(m->parameters,i,-1,apop_vector_mean(Apop_cv(d,i))); }
static L pm_ll(apop_data *d,apop_model *m){ return 0; }
static void f_pmodel(void){
    int kind=vi(0,3),n=vi(6,30),draws=vi(5,40),k=vi(2,3),seed=vi(1,1<<30); v_sigd(kind); v_sigd(seed); static apop_model seqm={"a sequence",.dsize=1,.estimate=pm_seq,.log_likelihood=pm_ll},meansm={"means",.dsize=1,.estimate=pm_means}; const char *nm[]={"OLS","means","normal","no data"}; v_desc("the distribution of the parameters of %s, %d draws",nm[kind],draws);
    apop_data *d=NULL; apop_model *m=NULL; int v=quiet(); pm_calls=0; switch (kind){ case 0: case 1: d=apop_data_alloc(n,k+(kind==0)); for (int i=0;i<n;i++) for (size_t j=0;j<d->matrix->size2;j++) apop_data_set(d,i,j,vnorm()); if (kind==0){ if (vflip(.5)) for (int i=0;i<n;i++) apop_data_set(d,i,k,i*.1); m=apop_estimate(d,apop_ols); } else { meansm.vsize=k; m=apop_estimate(d,&meansm); } break;
        case 2: d=apop_data_alloc(n,1); for (int i=0;i<n;i++) apop_data_set(d,i,0,vnorm()); m=apop_estimate(d,apop_normal); break; default: seqm.vsize=k; m=apop_model_copy(&seqm); m->parameters=apop_data_alloc(k); pm_seq(NULL,m); pm_calls=0; }
    apop_opts.verbose=v; if (d) vh_sig_data(d); int np=m->parameters->vector->size; apop_data *d0=d?apop_data_copy(d):NULL,*par=apop_data_copy(m->parameters); gsl_rng *r=apop_rng_alloc(seed); int rounds=vi(1,3);
    for (int q=0;q<rounds;q++){ int ix=vi(-1,np-1); if (apop_settings_get_group(m,apop_pm)) Apop_settings_rm_group(m,apop_pm); int plain=kind==0&&vflip(.2); if (plain) ix=0; else Apop_settings_add_group(m,apop_pm,.index=ix,.rng=r,.draws=draws); apop_data *cov=NULL; if (kind==1||kind==2||(kind==0&&ix==-1)){ gsl_rng *r2=apop_rng_alloc(1); gsl_rng_memcpy(r2,r); apop_opts.verbose=-1; cov=apop_bootstrap_cov(d,m,r2,draws); apop_opts.verbose=v; gsl_rng_free(r2); }
        pm_calls=0; apop_opts.verbose=-1; apop_model *o=apop_parameter_model(d,m); apop_opts.verbose=v; if (!V_CHECK(o&&!o->error,"pm-none","no model, or an error, for parameter %d",ix)) { apop_data_free(cov); break; }
        if (kind==0&&ix>=0){ V_CHECK(o->log_likelihood==apop_t_distribution->log_likelihood,"pm-kind","the distribution of an OLS coefficient is %s",o->name); if (o->parameters&&o->parameters->vector&&o->parameters->vector->size==3){ V_EQ(apop_data_get(o->parameters,0,-1),apop_data_get(m->parameters,ix,-1),"pm-mean","mean for coefficient %d",ix); V_CLOSE(apop_data_get(o->parameters,1,-1),sqrt(apop_data_get(m->parameters,ix,ix,.page="<Covariance>")),1e-14,0,"pm-sigma","sigma for coefficient %d",ix); V_EQ(apop_data_get(o->parameters,2,-1),n-np,"pm-df","degrees of freedom"); } else v_fail("pm-size","parameters of the t distribution"); }
        else if (kind<3&&ix>=0){ V_CHECK(o->log_likelihood==apop_normal->log_likelihood,"pm-kind","the distribution of a parameter is %s",o->name); V_EQ(apop_data_get(o->parameters,0,-1),apop_data_get(par,ix,-1),"pm-mean","mean for parameter %d",ix); V_CLOSE(apop_data_get(o->parameters,1,-1),sqrt(apop_data_get(cov,ix,ix)),1e-14,0,"pm-sigma","sigma for parameter %d",ix); }
        else if (kind<3){ V_CHECK(o->log_likelihood==apop_multivariate_normal->log_likelihood,"pm-kind","the distribution of all the parameters is %s",o->name); if (V_CHECK(o->parameters->vector&&o->parameters->matrix&&(int)o->parameters->vector->size==np&&(int)o->parameters->matrix->size1==np&&(int)o->parameters->matrix->size2==np&&o->dsize==np,"pm-size","size of the distribution of all the parameters")) for (int i=0;i<np;i++){ V_EQ(apop_data_get(o->parameters,i,-1),apop_data_get(par,i,-1),"pm-mean","mean %d",i); for (int j=0;j<np;j++) V_CLOSE(apop_data_get(o->parameters,i,j),apop_data_get(cov,i,j),1e-14,0,"pm-cov","covariance %d,%d",i,j); } }
        else { V_EQ(pm_calls,draws,"pm-draws","estimations"); V_CHECK(o->log_likelihood==apop_pmf->log_likelihood,"pm-kind","the draws make %s",o->name); apop_data *x=o->data; if (V_CHECK(x&&(ix<0?x->matrix&&(int)x->matrix->size1==draws&&(int)x->matrix->size2==np:x->vector&&(int)x->vector->size==draws),"pm-size","size of the draws")) for (int i=0;i<draws;i++) for (int j=ix<0?0:ix;j<=(ix<0?np-1:ix);j++) V_EQ(apop_data_get(x,i,ix<0?j:-1),(i+1)*(j+1)+.25,"pm-draw","draw %d of parameter %d",i,j); }
        apop_data *x=kind==3?o->data:NULL; apop_model_free(o); apop_data_free(x); apop_data_free(cov); vh_same(m->parameters,par,true,"pm-model","parameters of the model"); if (d) vh_same(d,d0,true,"pm-data","data"); v_ev(nm[kind]); if (v_nfails()) break; }
    apop_model_free(m); gsl_rng_free(r); apop_data_free(d); apop_data_free(d0); apop_data_free(par);
}
vh_family vh_families[]={{"conj",f_conj,4000,60000},{"mcmc",f_mcmc,700,5000},{"post",f_post,80,400},{"post2",f_post2,16,100},{"list",f_list,800,10000},{"boot",f_boot,400,6000},{"jack",f_jack,1500,20000},{"fallback",f_fallback,6,60},{"pmodel",f_pmodel,600,10000},{0}};
