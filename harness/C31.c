#include "vh.h"
#include "vmodels.h"
#include <gsl/gsl_randist.h>
const char *vh_rule = "Compositions of random base distributions: mixtures of two to four components with random weights, models with a random pattern of fixed parameters (including parameter sets of several pages), truncations to random regions, changes of coordinates, cross products over matrices of draws and over split pages, and random trees of all of these. Each is compared, value by value, with the density, CDF and draws the harness derives in long double from the base distributions; estimates with closed forms or with the harness's own likelihood; inputs and base models are compared with dumps taken beforehand; copies and the original are freed in every order. Distinct by composition, parameters and data.";
static int cmpd(const void*a,const void*b){ double x=*(double*)a,y=*(double*)b; return (x>y)-(x<y); }
typedef double (*cdf_fn)(double x,void *p);
static void ks(double *s,int n,bool discrete,cdf_fn F,void *p,const char *key,const char *what){ double *t=malloc(n*sizeof(double)); memcpy(t,s,n*sizeof(double)); qsort(t,n,sizeof(double),cmpd); double D=0,at=0; for (int i=0;i<n;){ int j=i; while (j<n&&t[j]==t[i]) j++; double f=F(t[i],p),a=fabs((double)j/n-f),b=fabs((double)i/n-(discrete?F(t[i]-1,p):f)); if (a>D) D=a,at=t[i]; if (b>D) D=b,at=t[i]; i=j; } free(t); V_CHECK(D<=3.3/sqrt(n)+1e-9,key,"%s: the distribution of %d draws is %g from the CDF at %g; %g would be a one-in-a-billion event",what,n,D,at,3.3/sqrt(n)); v_evn("draws_examined",n); }
#define GUARD -987654321.125
static bool in_support(vdist *D,double x,const double *p){ if (D->par==beta_par) return x>0&&x<1; if (D->par==expo_par||D->par==gamma_par) return x>=0; if (D->par==logn_par) return x>0; if (D->par==unif_par) return x>=p[0]&&x<=p[1]; if (D->par==bern_par) return x==0||x==1; if (D->par==pois_par) return x>=0&&x==floor(x); if (D->par==yule_par||D->par==zipf_par) return x>=1; return true; }
static L LL(vdist *D,double x,const double *p){ L q[3]={p[0],p[1],p[2]}; return in_support(D,x,p)?D->lpdf(x,q):-INFINITY; }
/* a group of distributions on the same kind of data: 0 continuous, 1 counts, 2 binary */
static vdist *pick(int group){ for (;;){ vdist *D=vdists+vi(0,NDIST-1); int g=!D->discrete?0:D->par==bern_par?2:1; if (g==group) return D; } }
static void goodpar(vdist *D,double *p){ p[0]=p[1]=p[2]=0; do D->par(p); while (D->par==t_par&&p[2]<1); }
static double mixtol(L v){ return 1e-9+fabsl(v)*1e-9; }
/* rows of scalars */
static apop_data *rows(int n,int c,int kind){ return kind==0?apop_data_alloc(n):kind==1?apop_data_alloc(0,n,c):apop_data_alloc(n,n,c); }
typedef struct { int k; vdist *D[4]; double p[4][3],w[4],W; apop_model *m[4]; } mixt;
static mixt mixmake(int maxk,bool weights){ mixt x={.k=vi(2,maxk)}; int g=vflip(.75)?0:vflip(.8)?1:2; for (int i=0;i<x.k;i++){ x.D[i]=pick(g); goodpar(x.D[i],x.p[i]); v_sigs(x.D[i]->name); v_sigd(x.p[i][0]); x.m[i]=vmodel(x.D[i],x.p[i]); x.W+=x.w[i]=weights?(vflip(.1)?vi(1,100):vpos()):1./x.k; } if (weights&&vflip(.5)){ for (int i=0;i<x.k;i++) x.w[i]/=x.W; x.W=0; for (int i=0;i<x.k;i++) x.W+=x.w[i]; } return x; }
static apop_model *mixmodel(mixt *x){ switch (x->k){ case 2: return apop_model_mixture(x->m[0],x->m[1]); case 3: return apop_model_mixture(x->m[0],x->m[1],x->m[2]); default: return apop_model_mixture(x->m[0],x->m[1],x->m[2],x->m[3]); } }
static L mixrow(mixt *x,double *v,int n,L *each){ L best=-INFINITY; for (int j=0;j<x->k;j++){ L s=logl((L)x->w[j]/x->W); for (int i=0;i<n;i++) s+=LL(x->D[j],v[i],x->p[j]); if (each) each[j]=s; if (s>best) best=s; } return best; }
static L mixll(mixt *x,apop_data *d){ L t=0; for (int i=0;i<vh_rows(d);i++){ double v[8]; int n=0; if (d->vector) v[n++]=gsl_vector_get(d->vector,i); if (d->matrix) for (size_t j=0;j<d->matrix->size2;j++) v[n++]=gsl_matrix_get(d->matrix,i,j); t+=mixrow(x,v,n,NULL); } return t; }
static double mixF(double v,void *p){ mixt *x=p; L s=0; for (int i=0;i<x->k;i++) s+=x->w[i]*x->D[i]->cdf(v,x->p[i]); return s/x->W; }
static double mixpoint(mixt *x){ int j=vi(0,x->k-1); return x->D[j]->x(x->p[j]); }
static void mixcheck(mixt *x,apop_model *m,apop_data *d,const char *key){ L want=mixll(x,d); double got=apop_log_likelihood(d,m); V_CHECK((isinf((double)want)&&got==want)||fabsl(got-want)<=mixtol(want)*vh_rows(d),key,"the log likelihood of a mixture of %d is %.17g; from its components, %.17Lg",x->k,got,want); if (want>-600){ double p=apop_p(d,m); V_CLOSE(p,(double)expl(want),1e-7,0,key,"p"); } }
static int sample_size(void){ return vh_thorough&&vflip(.1)?20000:1500; }
static void f_mixture(void){
    bool wts=vflip(.7); mixt x=mixmake(4,wts); char *base[4]; for (int i=0;i<x.k;i++) base[i]=vmodel_dump(x.m[i]); apop_model *m=mixmodel(&x); gsl_vector *w=NULL; char desc[300]="",*c=desc; for (int i=0;i<x.k;i++) c+=snprintf(c,70,"%s%s(%.4g,%.4g)*%.4g",i?", ":"",x.D[i]->name,x.p[i][0],x.p[i][1],x.w[i]); v_desc("a mixture: %s",desc);
    V_EQ(m->error,0,"error","error"); if (wts){ w=gsl_vector_alloc(x.k); for (int i=0;i<x.k;i++) gsl_vector_set(w,i,x.w[i]); if (vflip(.5)){ Apop_settings_set(m,apop_mixture,weights,w); } else { Apop_settings_add(m,apop_mixture,weights,w); } } V_EQ(m->dsize,1,"dsize","dsize");
    int n=vi(1,12),cols=vi(1,3); apop_data *d=rows(n,cols,vi(0,2)); double *e[100]; int ne=veach(d,e); for (int i=0;i<ne;i++) *e[i]=mixpoint(&x); if (vflip(.1)&&x.D[0]->out) { double o=x.D[0]->out(x.p[0]); if (!isnan(o)&&o!=0&&(!x.D[0]->discrete||o==floor(o))&&x.D[0]->par!=bern_par) *e[vi(0,ne-1)]=o; } char *dwas=vh_dump(d,true); vh_sig_data(d);
    bool prepped=vflip(.5); if (prepped){ apop_prep(d,m); if (V_CHECK(m->parameters&&m->parameters->vector,"parameters","no parameters after preparation")){ int at=x.k; for (int i=0;i<x.k;i++) V_EQ(apop_data_get(m->parameters,i,-1),x.w[i],"layout","weight %d in the parameters",i); for (int i=0;i<x.k;i++) for (int j=0;j<x.D[i]->np;j++) V_EQ(apop_data_get(m->parameters,at++,-1),x.p[i][j],"layout","parameter %d of component %d",j,i); V_EQ(m->parameters->vector->size,at,"layout","count of parameters"); } }
    mixcheck(&x,m,d,"likelihood"); if (vflip(.3)) mixcheck(&x,m,d,"again"); bool hascdf=true; for (int i=0;i<x.k;i++) hascdf&=x.D[i]->hascdf; if (hascdf&&prepped) for (int t=0;t<3;t++){ double v=t?mixpoint(&x):vnorm()*5; apop_data *pt=vflip(.5)?apop_data_alloc(1):apop_data_alloc(0,1,1); apop_data_set(pt,0,pt->vector?-1:0,v); V_CLOSE(apop_cdf(pt,m),mixF(v,&x),1e-7,1e-9,"cdf","the CDF at %.17g",v); apop_data_free(pt); }
    if (vflip(.3)){ FILE *f=tmpfile(); apop_model_print(m,f); long len=ftell(f); V_CHECK(len>10,"print","nothing printed"); fclose(f); mixcheck(&x,m,d,"after-print"); }
    /* copies, changes to one of them, frees in either order */
    apop_model *cp=NULL; if (vflip(.5)){ cp=apop_model_copy(m); V_EQ(cp->error,0,"copy","error of the copy"); mixcheck(&x,cp,d,"copy"); }
    if (prepped&&vflip(.6)){ mixt y=x; int j=vi(0,x.k-1); goodpar(y.D[j],y.p[j]); apop_model *chg=cp&&vflip(.5)?cp:m; int at=x.k; for (int i=0;i<j;i++) at+=x.D[i]->np; for (int i=0;i<x.D[j]->np;i++) apop_data_set(chg->parameters,at+i,-1,y.p[j][i]); if (vflip(.5)){ mixcheck(&y,chg,d,"changed"); } if (cp) mixcheck(&x,chg==cp?m:cp,d,"independent"); mixcheck(&y,chg,d,"changed"); if (chg==m){ x=y; if (cp){ apop_model_free(cp); cp=NULL; } } else { apop_model_free(cp); cp=NULL; if (vflip(.5)) mixcheck(&x,m,d,"after-copy-freed"); } v_ev("parameter_changes"); }
    if (cp){ if (vflip(.5)){ apop_model *t=m; m=cp; cp=t; } apop_model_free(cp); mixcheck(&x,m,d,"survivor"); }
    /* draws */
    if (vflip(.3)){ int N=sample_size(),seed=vi(1,1<<30); double *s=malloc(N*sizeof(double)); gsl_rng *r=apop_rng_alloc(seed); int ok=1; if (vflip(.5)&&prepped){ apop_opts.rng_seed=seed; apop_data *o=apop_model_draws(m,N); if (V_CHECK(o&&!o->error&&o->matrix&&o->matrix->size1==(size_t)N&&o->matrix->size2==1,"draws","the set of draws")) for (int i=0;i<N;i++) s[i]=apop_data_get(o,i,0); else ok=0; apop_data_free(o); } else for (int i=0;i<N&&ok;i++){ double cell[3]={GUARD,GUARD,GUARD}; V_EQ(apop_draw(cell+1,r,m),0,"status","draw"); ok=cell[0]==GUARD&&cell[2]==GUARD; V_CHECK(ok,"guard","cells outside were written"); s[i]=cell[1]; } bool big=false; for (int i=0;i<x.k;i++) big|=x.D[i]->par==yule_par||x.D[i]->par==zipf_par; if (ok) ks(s,N,x.D[0]->discrete,mixF,&x,"distribution",big?"a mixture with heavy tails":"a mixture"); free(s); gsl_rng_free(r); mixcheck(&x,m,d,"after-draws"); }
    char *dnow=vh_dump(d,true); V_STR(dnow,dwas,"data","the data changed"); free(dnow); free(dwas); if (w) for (int i=0;i<x.k;i++) V_EQ(gsl_vector_get(w,i),x.w[i],"weights","the given weights changed"); (void)base; if (!prepped||1) for (int i=0;i<x.k;i++) free(base[i]); apop_model_free(m); for (int i=0;i<x.k;i++) apop_model_free(x.m[i]); gsl_vector_free(w); apop_data_free(d);
}
/* estimating well-separated mixtures */
static void f_mixest(void){
    int k=vi(2,3),n=vi(20,40); bool fw=vflip(.6); double mu[3],sd[3],sum[3]={0},sq[3]={0}; int cnt[3]={0}; apop_data *d=vflip(.5)?apop_data_alloc(n):apop_data_alloc(0,n,1); mixt x={.k=k}; for (int i=0;i<k;i++){ mu[i]=i*40+vnorm()*3; sd[i]=.7+vd(0,1); x.D[i]=vdists; x.m[i]=apop_model_copy(apop_normal); } for (int i=0;i<n;i++){ int g=i<3*k?i%k:vi(0,k-1); double v=mu[g]+sd[g]*vnorm(); apop_data_set(d,i,d->vector?-1:0,v); sum[g]+=v; sq[g]+=v*v; cnt[g]++; } vh_sig_data(d); v_sigd(fw); v_desc("estimating a mixture of %d Normals from %d rows, weights %s",k,n,fw?"to be found":"fixed");
    apop_model *m=mixmodel(&x); if (fw) Apop_settings_set(m,apop_mixture,find_weights,'y'); double start[9]; for (int i=0;i<k;i++){ start[i]=1./k; start[k+2*i]=mu[i]+vd(-.4,.4); start[k+2*i+1]=sd[i]*vd(.8,1.3); } Apop_model_add_group(m,apop_mle,.starting_pt=start,.step_size=.3,.tolerance=1e-8,.method="NM simplex",.max_iterations=4000); char *dwas=vh_dump(d,true); gsl_vector *w0=apop_vector_copy(Apop_settings_get(m,apop_mixture,weights)); int v=apop_opts.verbose; apop_opts.verbose=-1; apop_model *e=apop_estimate(d,m); apop_opts.verbose=v;
    V_CHECK(!m->parameters,"input","the input mixture was given parameters"); for (int i=0;i<k;i++) V_CHECK(!x.m[i]->parameters,"input","component %d of the input mixture was given parameters",i); gsl_vector *wn=Apop_settings_get(m,apop_mixture,weights); for (int i=0;i<k;i++) V_EQ(gsl_vector_get(wn,i),gsl_vector_get(w0,i),"input","weight %d of the input",i); char *dnow=vh_dump(d,true); V_STR(dnow,dwas,"data","the data changed"); free(dnow); free(dwas);
    apop_mixture_settings *ms=apop_settings_get_group(e,apop_mixture); if (V_CHECK(ms&&e->parameters&&e->parameters->vector&&e->parameters->vector->size==(size_t)3*k,"parameters","an estimate without its parameters")){ double tot=0; L best=0,got=0; for (int i=0;i<k;i++){ double w=gsl_vector_get(ms->weights,i); V_CHECK(w>=0&&w<=1+1e-6,"weights","weight %d is %g",i,w); tot+=w; if (!fw) V_EQ(w,1./k,"weights","a fixed weight"); double mh=sum[i]/cnt[i],vh=sq[i]/cnt[i]-mh*mh; L q[2]={mh,sqrtl(vh)}; for (int z=0;z<2;z++) V_EQ(apop_data_get(ms->model_list[i]->parameters,z,-1),apop_data_get(e->parameters,k+2*i+z,-1),"components","parameter %d of component %d",z,i); best+=cnt[i]*(logl(fw?(L)cnt[i]/n:(L)1/k)-LLOG2PI/2-logl(q[1])-.5L); } V_CLOSE(tot,1,1e-6,0,"weights","sum of the weights"); mixt y=x; y.W=tot; for (int i=0;i<k;i++){ y.w[i]=gsl_vector_get(ms->weights,i); y.p[i][0]=apop_data_get(e->parameters,k+2*i,-1); y.p[i][1]=apop_data_get(e->parameters,k+2*i+1,-1); } got=mixll(&y,d); if (!fw){ V_CHECK(got<=best+1e-6,"optimum","a log likelihood of %Lg over the maximum, %Lg",got,best); V_CHECK(got>=best-.1*k,"optimum","the estimate's log likelihood is %Lg; %Lg is attainable",got,best); } else V_CHECK(got>=best-1.5*k,"optimum","the estimate's log likelihood is %Lg; %Lg is attainable",got,best); mixcheck(&y,e,d,"likelihood"); }
    apop_model_free(e); apop_model_free(m); gsl_vector_free(w0); for (int i=0;i<k;i++) apop_model_free(x.m[i]); apop_data_free(d);
}
/* fixed parameters: one page */
static void f_fix(void){
    vdist *D=vdists+vi(0,NDIST-1); double p[3],fill[3]; goodpar(D,p); goodpar(D,fill); bool freep[3]={0}; int nf=0; for (int i=0;i<D->np;i++) nf+=freep[i]=vflip(.5); if (D->par==unif_par) for (int i=0;i<2;i++) fill[i]=p[i]+(i?1:-1)*vd(0,1); double q[3]; for (int i=0;i<3;i++) q[i]=freep[i]?NAN:p[i]; apop_model *b=vmodel(D,q); v_sigs(D->name); for (int i=0;i<3;i++) v_sigd(q[i]),v_sigd(fill[i]); v_desc("%s(%.5g,%.5g,%.5g), NaN is free",D->name,q[0],q[1],q[2]); char *was=vmodel_dump(b); apop_model *f=apop_model_fix_params(b); char *now=vmodel_dump(b); V_STR(now,was,"base","fixing changed the base model"); free(now); free(was); V_EQ(f->error,0,"error","error");
    if (!nf){ V_CHECK(f!=b&&f->parameters!=b->parameters,"copy","with nothing free, the value is not a copy"); for (int i=0;i<D->np;i++) V_EQ(apop_data_get(f->parameters,i,-1),p[i],"copy","parameter %d of the copy",i); double x=D->x(p); apop_data *d=apop_data_fill(apop_data_alloc(1),x); V_CLOSE(apop_log_likelihood(d,f),(double)LL(D,x,p),1e-9,1e-9,"likelihood","log likelihood"); apop_data_free(d); apop_model_free(f); apop_model_free(b); return; }
    V_EQ(f->vsize,nf,"vsize","count of free parameters"); V_EQ(f->dsize,b->dsize,"dsize","dsize"); apop_prep(NULL,f); if (!V_CHECK(f->parameters&&f->parameters->vector&&f->parameters->vector->size==(size_t)nf,"vsize","the parameter set")){ apop_model_free(f); apop_model_free(b); return; }
    apop_model *cp=NULL; int rounds=vi(1,4); for (int t=0;t<rounds;t++){ double full[3]; do { goodpar(D,fill); for (int i=0;i<3;i++) full[i]=freep[i]?fill[i]:p[i]; } while (D->par==unif_par&&full[1]<=full[0]); int at=0; for (int i=0;i<D->np;i++) if (freep[i]) apop_data_set(f->parameters,at++,-1,full[i]); apop_data *d=vscalars(D,full,8); double *e[40]; int ne=veach(d,e); (void)ne; L want=vll(D,full,d); V_CLOSE(apop_log_likelihood(d,f),(double)want,1e-9,1e-8,"likelihood","log likelihood with %g, %g, %g",full[0],full[1],full[2]); if (want>-600&&vflip(.5)) V_CLOSE(apop_p(d,f),(double)expl(want),1e-7,0,"p","p"); at=0; for (int i=0;i<D->np;i++) if (freep[i]) V_EQ(apop_data_get(f->parameters,at++,-1),full[i],"parameters","free parameter %d after evaluation",i);
        if (vflip(.5)){ apop_model *g=vmodel(D,full); int seed=vi(1,1<<30); gsl_rng *r=apop_rng_alloc(seed),*r2=apop_rng_alloc(seed); for (int i=0;i<5;i++){ double c[3]={GUARD,GUARD,GUARD},c2[3]; V_EQ(apop_draw(c+1,r,f),0,"status","draw"); apop_draw(c2,r2,g); V_EQ(c[1],c2[0],"draw","draw %d",i); V_CHECK(c[0]==GUARD&&c[2]==GUARD,"guard","cells outside were written"); } gsl_rng_free(r); gsl_rng_free(r2); apop_model_free(g); }
        apop_model *gb=apop_model_fix_params_get_base(f); V_CHECK(gb==b,"base","not the base model"); for (int i=0;i<D->np;i++) V_EQ(apop_data_get(gb->parameters,i,-1),full[i],"get-base","parameter %d of the base",i); if (vflip(.4)){ apop_model *c=apop_model_copy(f); V_CLOSE(apop_log_likelihood(d,c),(double)want,1e-9,1e-8,"copy","log likelihood of a copy"); if (vflip(.5)) apop_model_free(c); else { if (cp) apop_model_free(cp); cp=f; f=c; } V_CLOSE(apop_log_likelihood(d,f),(double)want,1e-9,1e-8,"copy","log likelihood after freeing"); } apop_data_free(d); }
    if (cp) apop_model_free(cp); apop_model_free(f); apop_model_free(b);
}
/* a model with parameters on any pages, whose likelihood has its peak at t */
static double tgt[100]; static int tn;
static L peak(gsl_vector *v){ L s=0; for (size_t i=0;i<v->size;i++) s-=(1+i%3)*powl(gsl_vector_get(v,i)-tgt[i],2); return s; }
static long double peak_ll(apop_data *d,apop_model *m){ gsl_vector *v=apop_data_pack(m->parameters); L s=peak(v); gsl_vector_free(v); return s; }
static void f_fixpages(void){
    int pages=vi(1,3); apop_data *par=NULL; for (int i=0;i<pages;i++){ int kind=vi(0,2); apop_data *q=kind==0?apop_data_alloc(vi(1,4)):kind==1?apop_data_alloc(0,vi(1,3),vi(1,3)):apop_data_alloc(vi(1,3),vi(1,3),vi(1,3)); if (par) apop_data_add_page(par,q,"more parameters"); else par=q; } gsl_vector *full=apop_data_pack(par); tn=full->size; if (tn>100){ apop_data_free(par); gsl_vector_free(full); v_trivial(); return; } bool fr[100]; int nf=0; double fixed=vd(0,1); for (int i=0;i<tn;i++){ tgt[i]=vnorm()*2; fr[i]=vflip(fixed); nf+=fr[i]; gsl_vector_set(full,i,fr[i]?NAN:vnorm()*5); } apop_data_unpack(full,par); vh_sig_data(par); v_desc("%d parameters over %d pages, %d free",tn,pages,nf);
    apop_model *b=apop_model_copy(&(apop_model){"peak",.log_likelihood=peak_ll,.dsize=1}); b->parameters=par; double start[100]; int st=nf&&vflip(.5); if (st){ for (int i=0;i<tn;i++) start[i]=tgt[i]+vnorm(); Apop_model_add_group(b,apop_mle,.method="BFGS cg",.tolerance=1e-7,.step_size=.1,.starting_pt=start); } else if (vflip(.8)) Apop_model_add_group(b,apop_mle,.method=vflip(.5)?"BFGS cg":"PR cg",.tolerance=1e-6,.step_size=.1); else st=2; apop_model *f=apop_model_fix_params(b); if (!nf){ V_CHECK(f!=b,"copy","not a copy"); vh_same(f->parameters,par,true,"copy","parameters of the copy"); apop_model_free(f); apop_model_free(b); gsl_vector_free(full); return; }
    V_EQ(f->vsize,nf,"vsize","count of free parameters"); apop_data *d=apop_data_alloc(1); gsl_vector_set_all(d->vector,1); if (st==1){ double *sp=Apop_settings_get(f,apop_mle,starting_pt); int at=0; if (V_CHECK(sp!=NULL,"start","the starting point was lost")) for (int i=0;i<tn;i++) if (fr[i]) V_EQ(sp[at++],start[i],"start","starting point of free parameter %d",i); }
    apop_prep(d,f); for (int t=0;t<3;t++){ int at=0; for (int i=0;i<tn;i++) if (fr[i]){ double v=vflip(.2)?0:vnorm(); gsl_vector_set(full,i,v); apop_data_set(f->parameters,at++,-1,v); } L want=peak(full); V_CLOSE(apop_log_likelihood(d,f),(double)want,1e-11,1e-11,"likelihood","log likelihood"); apop_data *gp=apop_model_fix_params_get_base(f)->parameters; gsl_vector *now=apop_data_pack(gp); for (int i=0;i<tn;i++) V_EQ(gsl_vector_get(now,i),gsl_vector_get(full,i),"get-base","%s parameter %d",fr[i]?"free":"fixed",i); gsl_vector_free(now); }
    int v=apop_opts.verbose; apop_opts.verbose=-1; apop_data *fp=f->parameters; f->parameters=NULL; apop_model *e=apop_estimate(d,f); apop_data_free(fp); apop_opts.verbose=v; gsl_vector *now=apop_data_pack(apop_model_fix_params_get_base(e)->parameters); bool loose=false; bool converged=e->info&&apop_data_get(e->info,.rowname="status")==0; char *meth=Apop_settings_get(f,apop_mle,method); if (!strcasecmp(meth,"PR cg")&&Apop_settings_get(f,apop_mle,tolerance)>.1) loose=true; if (V_CHECK(e->parameters&&e->parameters->vector&&e->parameters->vector->size==(size_t)nf,"estimate","size of the estimate")){ int at=0; for (int i=0;i<tn;i++){ if (fr[i]) { V_EQ(gsl_vector_get(now,i),apop_data_get(e->parameters,at,-1),"estimate","the base's parameter %d",i); if (converged) V_CLOSE(apop_data_get(e->parameters,at,-1),tgt[i],0,loose?.4:2e-2,"optimum","free parameter %d",i); at++; } else V_EQ(gsl_vector_get(now,i),gsl_vector_get(full,i),"fixed","fixed parameter %d after estimation",i); } } v_ev(converged?"estimates":"searches_unfinished");
    gsl_vector_free(now); gsl_vector_free(full); apop_model_free(e); apop_model_free(f); apop_model_free(b); apop_data_free(d);
}
/* closed forms for what is left after fixing some */
static void f_fixest(void){
    int kind=vi(0,6),n=vi(5,40); apop_data *d=vflip(.5)?apop_data_alloc(n):apop_data_alloc(0,n,1); L sx=0,sxx=0,sl=0,sll=0,mx=-INFINITY; double a=vpos()+.5,b=.5+vpos(); for (int i=0;i<n;i++){ double x=kind<2?vnorm()*b+a:.05+vpos()*a; apop_data_set(d,i,d->vector?-1:0,x); sx+=x; sxx+=(L)x*x; if (kind>=2){ sl+=logl(x); sll+=powl(logl(x),2); } if (x>mx) mx=x; } vh_sig_data(d); v_sigd(kind); apop_model *bm; double want,fix=kind<2||kind==4?vd(.5,3):vd(.5,4); L m=sx/n,lm=sl/n; int fi; switch (kind){ case 0: bm=apop_model_set_parameters(apop_normal,NAN,fix); want=m; fi=0; break; case 1: bm=apop_model_set_parameters(apop_normal,fix=a+vnorm()*.3,NAN); want=sqrtl(sxx/n-2*fix*m+(L)fix*fix); fi=1; break; case 2: bm=apop_model_set_parameters(apop_lognormal,NAN,fix); want=lm; fi=0; break; case 3: bm=apop_model_set_parameters(apop_lognormal,fix=(double)lm+vnorm()*.3,NAN); want=sqrtl(sll/n-2*fix*lm+(L)fix*fix); fi=1; break; case 4: case 5: bm=apop_model_set_parameters(apop_gamma,fix,NAN); want=m/fix; fi=1; break; default: bm=apop_model_set_parameters(apop_multivariate_normal,NAN,NAN); apop_model_free(bm); bm=apop_model_set_parameters(apop_normal,NAN,NAN); want=m; fi=-1; }
    v_desc("%s with %s, %d rows",bm->name,fi<0?"both parameters free":fi?"the first parameter fixed":"the second parameter fixed",n); double st[2]={fi==1?fix:want*vd(.8,1.2)+.1,fi==0?fix:fi==1?want*vd(.7,1.4):1.5}; if (fi<0) st[1]=sqrt(sxx/n-m*m); Apop_model_add_group(bm,apop_mle,.method="NM simplex",.tolerance=1e-9,.step_size=.1,.starting_pt=st,.max_iterations=5000); char *dwas=vh_dump(d,true); int v=apop_opts.verbose; apop_opts.verbose=-1; apop_model *f=apop_model_fix_params(bm),*e=apop_estimate(d,f); apop_opts.verbose=v; V_CHECK(!f->parameters,"input","the input model was given parameters"); apop_model *g=apop_model_fix_params_get_base(e); if (fi>=0){ V_EQ(apop_data_get(g->parameters,1-fi,-1),fix,"fixed","the fixed parameter after estimation"); V_CLOSE(apop_data_get(g->parameters,fi,-1),want,1e-3,1e-3,"optimum","the free parameter"); } else { V_CLOSE(apop_data_get(g->parameters,0,-1),want,1e-3,2e-3,"optimum","mean"); V_CLOSE(apop_data_get(g->parameters,1,-1),sqrt(sxx/n-m*m),1e-3,2e-3,"optimum","standard deviation"); } char *dnow=vh_dump(d,true); V_STR(dnow,dwas,"data","the data changed"); free(dnow); free(dwas); v_ev("estimates"); apop_model_free(e); apop_model_free(f); apop_model_free(bm); apop_data_free(d);
}
/* truncation */
static L C(vdist *D,double x,const double *p){ return x==-INFINITY?0:x==INFINITY?1:D->cdf(x,p); }
static double lo,hi; static int scale_calls;
static double first_el(apop_data *d){ return d->vector?gsl_vector_get(d->vector,0):gsl_matrix_get(d->matrix,0,0); }
static double region(apop_data *d,apop_model *m){ double x=first_el(d); return x>=lo&&x<=hi; }
static vdist *scaleD; static double scaleP(apop_model *m){ double p[3]={0}; for (int i=0;i<scaleD->np;i++) p[i]=apop_data_get(m->parameters,i,-1); double u=C(scaleD,hi,p),l=C(scaleD,scaleD->discrete?lo-1:lo,p); scale_calls++; return u-l; }
static double truF(double x,void *v){ void **a=v; vdist *D=a[0]; double l=C(D,D->discrete?lo-1:lo,a[1]),h=C(D,hi,a[1]); if (x<lo) return 0; if (x>=hi) return 1; return (C(D,x,a[1])-l)/(h-l); }
static double mass(vdist *D,const double *p){ return C(D,hi,p)-C(D,D->discrete?lo-1:lo,p); }
static void f_dc(void){
    vdist *D; double p[3]; do { D=vdists+vi(0,NDIST-1); goodpar(D,p); double c[40]; for (int i=0;i<40;i++) c[i]=D->x(p); qsort(c,40,sizeof(double),cmpd); int i=vi(0,30),j=vi(i+5,39); lo=vflip(.2)?-INFINITY:c[i]; hi=vflip(.2)?INFINITY:c[j]; } while (D->par==bern_par||!(mass(D,p)>.05)||(isinf(lo)&&isinf(hi)&&vflip(.8))); double M=mass(D,p); bool own=vflip(.6),fromset=vflip(.8); scaleD=D; apop_model *b=vmodel(D,p); char *was=vmodel_dump(b); gsl_rng *rs=vflip(.5)?apop_rng_alloc(vi(1,1<<30)):NULL; int ct=own?0:vpick(((int[]){0,500,3000})); v_sigs(D->name); v_sigd(p[0]); v_sigd(lo); v_sigd(hi); v_desc("%s(%.5g,%.5g) truncated to [%.5g,%.5g], %s",D->name,p[0],p[1],lo,hi,own?"scaling given":"default scaling");
    apop_model *m=own?apop_model_dconstrain(.base_model=b,.constraint=region,.scaling=scaleP):apop_model_dconstrain(.base_model=b,.constraint=region,.draw_ct=ct,.rng=rs); V_EQ(m->error,0,"error","error"); (void)fromset; bool prep=vflip(.5); int n=vi(1,10); apop_data *d=rows(n,1,vi(0,1)); double *e[40]; int ne=veach(d,e); for (int i=0;i<ne;i++){ int t=0; do *e[i]=D->x(p); while (!(*e[i]>=lo&&*e[i]<=hi)&&t++<3000); if (!(*e[i]>=lo&&*e[i]<=hi)) *e[i]=isinf(lo)?hi:lo; } vh_sig_data(d); if (prep) apop_prep(d,m); if (prep){ V_EQ(m->dsize,1,"dsize","dsize"); if (V_CHECK(m->parameters&&m->parameters->vector,"parameters","no parameters after preparation")) for (int i=0;i<D->np;i++) V_EQ(apop_data_get(m->parameters,i,-1),p[i],"parameters","parameter %d",i); }
    double N=ct?ct:1e4; for (int round=0;round<3;round++){ L want=vll(D,p,d)-n*logl(M); double tol=own?1e-8+1e-9*fabsl(want):n*7.5*sqrt((1-M)/M/N)*(M<.2?1.5:1.1)+1e-8+1e-9*fabsl(want)+n*25/N+(M*N<100?n*.3:0); double got=apop_log_likelihood(d,m); V_CHECK(fabsl(got-want)<=tol,round?"rescale":"likelihood","log likelihood %.17g; %.17Lg is expected, within %g",got,want,tol); double again=apop_log_likelihood(d,m); V_EQ(again,got,"again","a second evaluation"); if (own&&want>-600) V_CLOSE(apop_p(d,m),(double)expl(want),1e-7,0,"p","p");
        if (vflip(.5)){ double x=isinf(lo)?isinf(hi)?NAN:hi+vpos():lo-vpos(); if (D->discrete&&!isnan(x)) x=isinf(lo)?hi+vi(1,5):lo-vi(1,5); if (!isnan(x)){ double old=*e[0]; int at=vi(0,ne-1); old=*e[at]; *e[at]=x; V_EQ(apop_log_likelihood(d,m),-INFINITY,"outside","log likelihood with %g outside of [%g,%g]",x,lo,hi); *e[at]=old; } }
        if (vflip(.3)){ apop_model *c=apop_model_copy(m); double cl=apop_log_likelihood(d,c); if (own||ct) V_CHECK(fabs(cl-got)<=(own?1e-12*fabs(got)+1e-12:2*tol),"copy","log likelihood of a copy %.17g, of the original %.17g",cl,got); if (vflip(.5)) apop_model_free(c); else { apop_model_free(m); m=c; } }
        if (prep){ double q[3]; int t=0; do { goodpar(D,q); for (int i=0;i<3;i++) if (vflip(.5)) q[i]=p[i]; if (D->par==unif_par&&(q[0]>lo||q[1]<hi||q[1]<=q[0])) continue; } while ((D->par==unif_par&&(q[1]<=q[0]))||(!(mass(D,q)>.05)&&t++<50)); bool fine=mass(D,q)>.05; for (int i=0;i<ne;i++) fine&=in_support(D,*e[i],q)&&LL(D,*e[i],q)>-1e6; if (!fine) break; for (int i=0;i<D->np;i++) apop_data_set(m->parameters,i,-1,p[i]=q[i]); M=mass(D,p); v_ev("parameter_changes"); } else break; }
    int K=sample_size(); if (M>.05&&vflip(.4)){ gsl_rng *r=apop_rng_alloc(vi(1,1<<30)); double *s=malloc(K*sizeof(double)); int ok=1; for (int i=0;i<K&&ok;i++){ double c[3]={GUARD,GUARD,GUARD}; V_EQ(apop_draw(c+1,r,m),0,"status","draw"); ok=c[0]==GUARD&&c[2]==GUARD; V_CHECK(ok,"guard","cells outside were written"); s[i]=c[1]; ok&=s[i]>=lo&&s[i]<=hi; V_CHECK(ok,"support","draw %g outside of [%g,%g]",s[i],lo,hi); } void *a[2]={D,p}; if (ok) ks(s,K,D->discrete,truF,a,"distribution",D->name); free(s); gsl_rng_free(r); }
    char *now=vmodel_dump(b); V_STR(now,was,"base","the base model changed"); free(now); free(was); apop_model_free(m); apop_model_free(b); apop_data_free(d); if (rs) gsl_rng_free(rs);
}
static double xscale(apop_model *m){ return exp(-lo/apop_data_get(m->parameters,0,-1)); }
static void f_dcest(void){ /* the exponential over a bound: the mean less the bound */
    int n=vi(10,60); lo=vpos(); hi=INFINITY; double mu=vpos(),sum=0; apop_data *d=vflip(.5)?apop_data_alloc(n):apop_data_alloc(0,n,1); for (int i=0;i<n;i++){ double x=lo-log(vd(1e-6,1))*mu; apop_data_set(d,i,d->vector?-1:0,x); sum+=x; } vh_sig_data(d); bool fresh=vflip(.5); v_sigd(fresh); v_desc("estimating an exponential truncated below at %g from %d rows",lo,n); apop_model *b=fresh?apop_model_copy(apop_exponential):apop_model_set_parameters(apop_exponential,mu*vd(.5,2)),*m=apop_model_dconstrain(.base_model=b,.constraint=region,.scaling=xscale); char *was=vmodel_dump(b),*ew=vmodel_dump(apop_exponential); double st[1]={mu*vd(.7,1.5)}; Apop_model_add_group(m,apop_mle,.starting_pt=st,.tolerance=1e-9,.step_size=.1,.method="NM simplex"); int v=apop_opts.verbose; apop_opts.verbose=-1; apop_model *e=apop_estimate(d,m); apop_opts.verbose=v; V_CLOSE(apop_data_get(e->parameters,0,-1),sum/n-lo,1e-3,1e-4,"optimum","the estimate"); L want=-(sum-n*lo)/apop_data_get(e->parameters,0,-1)-n*logl(apop_data_get(e->parameters,0,-1)); V_CLOSE(apop_log_likelihood(d,e),(double)want,1e-9,1e-9,"likelihood","log likelihood of the estimate"); char *now=vmodel_dump(b),*en=vmodel_dump(apop_exponential); V_STR(now,was,"base","the base model changed"); V_STR(en,ew,"builtin","apop_exponential changed"); free(now); free(was); free(en); free(ew); apop_model *c=apop_model_copy(e); if (vflip(.5)) { apop_model_free(e); e=NULL; } V_CLOSE(apop_log_likelihood(d,c),(double)want,1e-9,1e-9,"copy","log likelihood of a copy of the estimate"); apop_model_free(c); if (e) apop_model_free(e); apop_model_free(m); apop_model_free(b); apop_data_free(d); v_ev("estimates"); }
/* coordinates */
static double ca,cb; static int ck; /* 0 y=exp x, 1 y=a x+b, 2 y=x^a, 3 y=1/x, 4 y=logistic(x) */
static double tobase(double y){ return ck==0?log(y):ck==1?(y-cb)/ca:ck==2?pow(y,1/ca):ck==3?1/y:log(y/(1-y)); }
static double frombase(double x){ return ck==0?exp(x):ck==1?ca*x+cb:ck==2?pow(x,ca):ck==3?1/x:1/(1+exp(-x)); }
static L logj(double y){ L a=ca; return ck==0?-logl(y):ck==1?-logl(fabsl(a)):ck==2?(1/a-1)*logl(y)-logl(fabsl(a)):ck==3?-2*logl(y):-logl(y)-log1pl(-(L)y); }
static apop_data *ct_base(apop_data *d){ apop_data *o=apop_data_copy(d); double *e[100]; int n=veach(o,e); for (int i=0;i<n;i++) *e[i]=tobase(*e[i]); return o; }
static double ct_j(apop_data *d){ double *e[100]; int n=veach(d,e); L s=0; for (int i=0;i<n;i++) s+=logj(*e[i]); return exp(s); }
static void f_ct(void){
    ck=vi(0,4); vdist *D; double p[3]; do D=pick(0); while (((ck==2||ck==3)&&!(D->par==logn_par||D->par==expo_par||D->par==gamma_par||D->par==beta_par))||((ck==0||ck==4)&&D->par!=normal_par&&D->par!=t_par&&D->par!=unif_par)); do goodpar(D,p); while (ck!=1&&fabs(p[0])>4); if (ck==0||ck==4) { if (D->par!=unif_par) p[1]=.2+vd(0,1); else p[1]=p[0]+vd(.5,3); } ca=ck==1?(vflip(.5)?1:-1)*(.3+vpos()):.4+vd(0,2); cb=vnorm()*3; apop_model *b=vmodel(D,p); v_sigs(D->name); v_sigd(p[0]); v_sigd(ck); v_sigd(ca); static char *tn[]={"exp(x)","a x+b","x^a","1/x","the logistic of x"}; v_desc("%s of a %s(%.5g,%.5g), a=%.5g, b=%.5g",tn[ck],D->name,p[0],p[1],ca,cb); char *was=vmodel_dump(b); apop_model *m=apop_model_coordinate_transform(.transformed_to_base=ct_base,.jacobian_to_base=ct_j,.base_model=b); bool prep=vflip(.5); apop_model *gone=NULL;
    for (int round=0;round<3;round++){ int n=vi(1,6); apop_data *d=rows(n,vi(1,2),vi(0,2)); double *e[40]; int ne=veach(d,e); for (int i=0;i<ne;i++){ double x; do x=D->x(p); while (fabs(x)>30&&ck!=1); *e[i]=frombase(x); } apop_data *rev=ct_base(d); L want=vll(D,p,rev),J=0; for (int i=0;i<ne;i++) J+=logj(*e[i]); want+=J; bool sane=isfinite((double)want)&&J>-600&&J<600&&want>-1e5; if (D->par==unif_par||D->par==beta_par||D->par==logn_par||D->par==expo_par||D->par==gamma_par){ double *f[40]; int nf=veach(rev,f); for (int i=0;i<nf;i++) sane&=in_support(D,*f[i],p)&&*f[i]>0-1e9*(D->par==unif_par); } apop_data_free(rev); vh_sig_data(d); if (!sane){ apop_data_free(d); continue; } if (prep) apop_prep(d,m); char *dw=vh_dump(d,true); V_CLOSE(apop_log_likelihood(d,m),(double)want,1e-8,1e-7,round?"changed":"likelihood","log likelihood, log Jacobian %Lg",J); if (want>-600) V_CLOSE(apop_p(d,m),(double)expl(want),1e-6,0,"p","p"); char *dn=vh_dump(d,true); V_STR(dn,dw,"data","the data changed"); free(dn); free(dw);
        if (vflip(.4)){ apop_model *c=apop_model_copy(m); V_CLOSE(apop_log_likelihood(d,c),(double)want,1e-8,1e-7,"copy","log likelihood of a copy"); if (vflip(.5)) apop_model_free(c); else if (!gone){ gone=m; m=c; } else apop_model_free(c); V_CLOSE(apop_log_likelihood(d,m),(double)want,1e-8,1e-7,"copy","log likelihood after freeing"); } apop_data_free(d); if (!prep) break; if (ck==0||ck==4||D->par==unif_par) p[0]+=vd(-.3,.05),p[1]+=vd(0.01,.2); else goodpar(D,p); if (m->parameters) for (int i=0;i<D->np;i++) apop_data_set(m->parameters,i,-1,p[i]); v_ev("parameter_changes"); }
    char *now=vmodel_dump(b); V_STR(now,was,"base","the base model changed"); free(now); free(was); if (gone) apop_model_free(gone); apop_model_free(m); apop_model_free(b);
}
static void f_ctest(void){ ck=vi(0,1); ca=(vflip(.5)?1:-1)*(.5+vpos()); cb=vnorm(); int n=vi(8,30); apop_data *d=vflip(.5)?apop_data_alloc(n):apop_data_alloc(0,n,1); L s=0,ss=0; double mu=vnorm(),sd=.5+vd(0,1); for (int i=0;i<n;i++){ double x=mu+sd*vnorm(); s+=x; ss+=x*x; apop_data_set(d,i,d->vector?-1:0,frombase(x)); } vh_sig_data(d); bool fresh=vflip(.5); v_desc("estimating %s of a Normal from %d rows",ck?"a multiple":"the exponential",n); apop_model *b=fresh?apop_normal:apop_model_copy(apop_normal),*m=apop_model_coordinate_transform(.transformed_to_base=ct_base,.jacobian_to_base=ct_j,.base_model=b); double st[2]={mu+.2,sd*1.2}; Apop_model_add_group(m,apop_mle,.starting_pt=st,.tolerance=1e-9,.step_size=.1,.method="NM simplex"); char *was=vmodel_dump(apop_normal); int v=apop_opts.verbose; apop_opts.verbose=-1; apop_model *e=apop_estimate(d,m); apop_opts.verbose=v; V_CHECK(!b->parameters,"base","the base model was given parameters"); V_CLOSE(apop_data_get(e->parameters,0,-1),(double)(s/n),2e-3,2e-3,"optimum","mean"); V_CLOSE(fabs(apop_data_get(e->parameters,1,-1)),sqrt(ss/n-s/n*s/n),2e-3,2e-3,"optimum","standard deviation"); char *now=vmodel_dump(apop_normal); V_STR(now,was,"builtin","apop_normal changed"); free(now); free(was); apop_model_free(e); apop_model_free(m); if (!fresh) apop_model_free(b); apop_data_free(d); v_ev("estimates"); }
/* cross products */
static void f_cross(void){
    int k=vi(2,4),mode=vi(0,2); /* 0: the same data to each; 1: two models, split page; 2: rows of draws */ if (mode==1) k=2; vdist *D[4]; double p[4][3]; apop_model *m[4],*x; char *was[4]; int g=mode==0?(vflip(.7)?0:1):-1; for (int i=0;i<k;i++){ D[i]=g>=0?pick(g):vdists+vi(0,NDIST-1); goodpar(D[i],p[i]); m[i]=vmodel(D[i],p[i]); was[i]=vmodel_dump(m[i]); v_sigs(D[i]->name); v_sigd(p[i][0]); } v_sigd(mode); v_desc("the cross product of %d models, first %s and %s; %s",k,D[0]->name,D[1]->name,mode==0?"the same data":mode==1?"split pages":"rows of draws"); if (mode==2&&k>2){ /* the inner product is split in the same way */ x=NULL; for (int i=k-2;i>=0;i--){ apop_model *nx=apop_model_cross(m[i],x?x:m[k-1]); Apop_settings_set(nx,apop_cross,splitpage,"second"); if (x&&vflip(.0)) apop_model_free(x); x=nx; } } else x=k==2?apop_model_cross(m[0],m[1]):k==3?apop_model_cross(m[0],m[1],m[2]):apop_model_cross(m[0],m[1],m[2],m[3]); if (k==2&&mode) Apop_settings_set(x,apop_cross,splitpage,"second"); V_EQ(x->dsize,k,"dsize","dsize"); V_EQ(x->error,0,"error","error");
    apop_data *d; L want=0; if (mode==0){ d=rows(vi(1,6),vi(1,2),vi(0,2)); double *e[40]; int ne=veach(d,e); for (int i=0;i<ne;i++){ int j=vi(0,k-1),t=0; bool ok; do { *e[i]=D[j]->x(p[j]); ok=true; for (int z=0;z<k;z++) ok&=in_support(D[z],*e[i],p[z]); } while (!ok&&t++<20); } for (int i=0;i<ne;i++) for (int j=0;j<k;j++) want+=LL(D[j],*e[i],p[j]); } else if (mode==1){ d=vscalars(D[0],p[0],6); apop_data *q=vscalars(D[1],p[1],6); want=vll(D[0],p[0],d)+vll(D[1],p[1],q); if (vflip(.4)){ apop_data_add_page(d,apop_data_fill(apop_data_alloc(1),1),"other"); } apop_data_add_page(d,q,vflip(.5)?"second":"SECOND"); if (vflip(.3)) apop_data_add_page(d,apop_data_fill(apop_data_alloc(1),1),"after"); } else { d=apop_data_alloc(0,vi(1,6),k); for (size_t i=0;i<d->matrix->size1;i++) for (int j=0;j<k;j++){ double v=D[j]->x(p[j]); apop_data_set(d,i,j,v); want+=LL(D[j],v,p[j]); } } vh_sig_data(d); char *dw=vh_dump(d,true); apop_data *pg[5]; int np=0; for (apop_data *q=d;q;q=q->more) pg[np++]=q;
    for (int t=0;t<2;t++){ double got=apop_log_likelihood(d,x); V_CHECK((isinf((double)want)&&got==want)||v_close(got,want,1e-9,1e-8),"likelihood","log likelihood of the product %.17g; the sum of its elements' %.17Lg",got,want); if (want>-600) V_CLOSE(apop_p(d,x),(double)expl(want),1e-7,0,"p","p"); int z=0; for (apop_data *q=d;q;q=q->more) V_CHECK(z<np&&pg[z++]==q,"pages","the pages of the data were not restored"); V_EQ(z,np,"pages","count of pages"); if (t==0&&vflip(.5)){ apop_model *c=apop_model_copy(x); if (vflip(.5)){ apop_model_free(x); x=c; } else { V_CHECK((isinf((double)want)&&apop_log_likelihood(d,c)==want)||v_close(apop_log_likelihood(d,c),want,1e-9,1e-8),"copy","log likelihood of a copy"); apop_model_free(c); } } }
    if (vflip(.6)){ int seed=vi(1,1<<30); gsl_rng *r=apop_rng_alloc(seed),*r2=apop_rng_alloc(seed); for (int i=0;i<6;i++){ double c[7]; for (int j=0;j<7;j++) c[j]=GUARD; V_EQ(apop_draw(c+1,r,x),0,"status","draw"); for (int j=0;j<k;j++){ double one[3]; apop_draw(one,r2,m[j]); V_EQ(c[j+1],one[0],"draw","element %d of draw %d",j,i); } V_CHECK(c[0]==GUARD&&c[k+1]==GUARD,"guard","cells outside were written"); } gsl_rng_free(r); gsl_rng_free(r2); }
    char *dn=vh_dump(d,true); V_STR(dn,dw,"data","the data changed"); free(dn); free(dw); for (int i=0;i<k;i++){ char *now=vmodel_dump(m[i]); V_STR(now,was[i],"base","model %d of the product changed",i); free(now); free(was[i]); } apop_model_free(x); for (int i=0;i<k;i++) apop_model_free(m[i]); apop_data_free(d);
}
static void f_crossest(void){
    apop_model *pool[]={apop_normal,apop_poisson,apop_exponential,apop_lognormal}; int a=vi(0,3),b=vi(0,3),mode=vi(0,1); apop_data *d,*d1,*d2; int n=vi(4,20),n2=mode?vi(4,20):n; v_sigd(a*4+b); d1=apop_data_alloc(0,n,1); d2=apop_data_alloc(0,n2,1); for (int i=0;i<n;i++) apop_data_set(d1,i,0,a==1?vi(0,9):a==0?vnorm():vpos()); for (int i=0;i<n2;i++) apop_data_set(d2,i,0,b==1?vi(0,9):b==0?vnorm():vpos()); if (mode){ d=apop_data_copy(d1); apop_data_add_page(d,apop_data_copy(d2),"half"); } else { d=apop_data_alloc(0,n,2); for (int i=0;i<n;i++){ apop_data_set(d,i,0,apop_data_get(d1,i,0)); apop_data_set(d,i,1,apop_data_get(d2,i,0)); } } bool w=!mode&&vflip(.0); (void)w; vh_sig_data(d); v_desc("estimating %s crossed with %s, %s",pool[a]->name,pool[b]->name,mode?"split pages":"columns");
    apop_model *m1=apop_model_copy(pool[a]),*m2=apop_model_copy(pool[b]),*x=apop_model_cross(m1,m2); Apop_settings_set(x,apop_cross,splitpage,"half"); char *w1=vmodel_dump(m1),*w2=vmodel_dump(m2),*dw=vh_dump(d,true); apop_model *e=apop_estimate(d,x),*e1=apop_estimate(d1,pool[a]),*e2=apop_estimate(d2,pool[b]); apop_model *s1=Apop_settings_get(e,apop_cross,model1),*s2=Apop_settings_get(e,apop_cross,model2); for (size_t i=0;i<e1->parameters->vector->size;i++) V_EQ(apop_data_get(s1->parameters,i,-1),apop_data_get(e1->parameters,i,-1),"estimate","parameter %zu of the first",i); for (size_t i=0;i<e2->parameters->vector->size;i++) V_EQ(apop_data_get(s2->parameters,i,-1),apop_data_get(e2->parameters,i,-1),"estimate","parameter %zu of the second",i); V_CLOSE(apop_log_likelihood(d,e),apop_log_likelihood(d1,e1)+apop_log_likelihood(d2,e2),1e-10,1e-10,"likelihood","log likelihood of the estimate"); V_CHECK(Apop_settings_get(x,apop_cross,model1)==m1&&Apop_settings_get(x,apop_cross,model2)==m2,"input","the models of the input changed"); char *n1=vmodel_dump(m1),*n2_=vmodel_dump(m2),*dn=vh_dump(d,true); V_STR(n1,w1,"input","the first model changed"); V_STR(n2_,w2,"input","the second model changed"); V_STR(dn,dw,"data","the data changed"); free(n1); free(n2_); free(w1); free(w2); free(dn); free(dw); apop_model *c=apop_model_copy(e); if (vflip(.5)) { apop_model_free(e); e=c; c=NULL; } V_CLOSE(apop_log_likelihood(d,e),apop_log_likelihood(d1,e1)+apop_log_likelihood(d2,e2),1e-10,1e-10,"copy","log likelihood after a copy or the original was freed"); apop_model_free(e); if (c) apop_model_free(c); apop_model_free(x); apop_model_free(m1); apop_model_free(m2); apop_model_free(e1); apop_model_free(e2); apop_data_free(d); apop_data_free(d1); apop_data_free(d2); v_ev("estimates");
}
/* trees */
typedef struct node { int type,k; vdist *D; double p[3],w[3],W; struct node *c[3]; apop_model *m,*extra; gsl_vector *wv; } node; enum {LEAF,MIX,DC,CT,FIX};
static double tlo,thi; static double treg(apop_data *d,apop_model *m){ double x=first_el(d); return x>=tlo&&x<=thi; }
static L ncdf(node *n,double x); static bool anyct(node *n){ if (n->type==CT||n->type==DC) return true; for (int i=0;i<n->k;i++) if (anyct(n->c[i])) return true; return false; }
static double tscale(apop_model *m){ double s[2]; for (int i=0;i<2;i++){ double v=i?thi:tlo; apop_data *pt=apop_data_alloc(0,1,1); apop_data_set(pt,0,0,v); s[i]=apop_cdf(pt,m); apop_data_free(pt); } return s[1]-s[0]; }
static L nll(node *n,double x){ switch (n->type){ case LEAF: case FIX: return LL(n->D,x,n->p); case MIX: { L b=-INFINITY; for (int i=0;i<n->k;i++){ L v=nll(n->c[i],x)+logl((L)n->w[i]/n->W); if (v>b) b=v; } return b; } case DC: return x<tlo||x>thi?-INFINITY:nll(n->c[0],x)-logl(ncdf(n->c[0],thi)-ncdf(n->c[0],tlo)); default: return nll(n->c[0],tobase(x))+logj(x); } }
static L ncdf(node *n,double x){ switch (n->type){ case LEAF: case FIX: return n->D->cdf(x,n->p); case MIX: { L s=0; for (int i=0;i<n->k;i++) s+=n->w[i]*ncdf(n->c[i],x); return s/n->W; } case DC: { L l=ncdf(n->c[0],tlo),h=ncdf(n->c[0],thi); return x<tlo?0:x>thi?1:(ncdf(n->c[0],x)-l)/(h-l); } default: { L f=ncdf(n->c[0],tobase(x)); return ca<0?1-f:f; } } }
static double ncdfd(double x,void *n){ return ncdf(n,x); }
static double npoint(node *n){ switch (n->type){ case LEAF: case FIX: return n->D->x(n->p); case MIX: return npoint(n->c[vi(0,n->k-1)]); case DC: for (int t=0;t<200;t++){ double x=npoint(n->c[0]); if (x>=tlo&&x<=thi) return x; } return (tlo+thi)/2; default: return frombase(npoint(n->c[0])); } }
static void nfree(node *n){ for (int i=0;i<n->k;i++) nfree(n->c[i]); apop_model_free(n->m); if (n->extra) apop_model_free(n->extra); gsl_vector_free(n->wv); free(n); }
static void nname(node *n,char *s){ switch (n->type){ case LEAF: sprintf(s+strlen(s),"%s",n->D->name); break; case FIX: sprintf(s+strlen(s),"fixed %s",n->D->name); break; default: strcat(s,n->type==MIX?"mixture(":n->type==DC?"truncated(":"transformed("); for (int i=0;i<n->k;i++){ if (i) strcat(s,", "); nname(n->c[i],s); } strcat(s,")"); } }
/* inside a truncation there are only types with a CDF of their own */
static node *build(int depth,bool dc,bool ct,bool inmix){ node *n=calloc(1,sizeof(node)); int ty=depth==0?(vflip(.7)?LEAF:FIX):vi(0,3); if (ty==DC&&!dc) ty=LEAF; if (ty==CT&&!ct) ty=MIX; n->type=ty; switch (ty){ case LEAF: case FIX: if (!inmix||ty==LEAF){ n->type=ty; } n->D=pick(0); goodpar(n->D,n->p); n->m=vmodel(n->D,n->p); if (n->type==FIX){ double q[3]; int nf=0; for (int i=0;i<3;i++){ q[i]=vflip(.5)?NAN:n->p[i]; if (i<n->D->np&&isnan(q[i])) nf++; } if (!nf) q[0]=NAN; n->extra=vmodel(n->D,q); apop_model_free(n->m); n->m=apop_model_fix_params(n->extra); apop_prep(NULL,n->m); int at=0; for (int i=0;i<n->D->np;i++) if (isnan(q[i])) apop_data_set(n->m->parameters,at++,-1,n->p[i]); } break;
    case MIX: n->k=vi(2,3); for (int i=0;i<n->k;i++){ n->c[i]=build(depth-1,dc,ct,true); dc&=!anyct(n->c[i]); ct&=!anyct(n->c[i]); n->W+=n->w[i]=vpos(); } n->m=n->k==2?apop_model_mixture(n->c[0]->m,n->c[1]->m):apop_model_mixture(n->c[0]->m,n->c[1]->m,n->c[2]->m); n->wv=gsl_vector_alloc(n->k); for (int i=0;i<n->k;i++) gsl_vector_set(n->wv,i,n->w[i]); Apop_settings_set(n->m,apop_mixture,weights,n->wv); break;
    case DC: n->k=1; n->c[0]=build(depth-1,false,false,inmix); while (n->c[0]->type==FIX||(n->c[0]->type==MIX)) { bool hasfix=n->c[0]->type==FIX; for (int i=0;i<n->c[0]->k;i++) hasfix|=n->c[0]->c[i]->type==FIX||n->c[0]->c[i]->type==MIX; if (!hasfix) break; nfree(n->c[0]); n->c[0]=build(depth-1,false,false,inmix); } { double a[30]; do { for (int i=0;i<30;i++) a[i]=npoint(n->c[0]); qsort(a,30,sizeof(double),cmpd); tlo=a[vi(0,10)]; thi=a[vi(18,29)]; } while (!(ncdf(n->c[0],thi)-ncdf(n->c[0],tlo)>.1)); } n->m=apop_model_dconstrain(.base_model=n->c[0]->m,.constraint=treg,.scaling=tscale); break;
    default: n->k=1; ck=1; ca=(vflip(.5)?1:-1)*(.3+vpos()); cb=vnorm(); n->c[0]=build(depth-1,dc,false,inmix); n->m=apop_model_coordinate_transform(.transformed_to_base=ct_base,.jacobian_to_base=ct_j,.base_model=n->c[0]->m); } return n; }
static bool hastype(node *n,int t){ if (n->type==t) return true; for (int i=0;i<n->k;i++) if (hastype(n->c[i],t)) return true; return false; }
static void f_tree(void){
    node *n=build(vi(1,3),true,true,false); char name[600]=""; nname(n,name); v_sigs(name); v_desc("%s",name); if (vflip(.4)&&!hastype(n,CT)) apop_prep(NULL,n->m); int N=vi(1,5); apop_data *d=apop_data_alloc(0,N,1); L want=0; for (int i=0;i<N;i++){ double x=npoint(n); apop_data_set(d,i,0,x); want+=nll(n,x); } vh_sig_data(d); apop_model *m=n->m,*cp=NULL; bool skip=false; for (int i=0;i<N;i++) if (isnan((double)nll(n,apop_data_get(d,i,0)))) skip=true; if (isnan((double)want)||skip) v_trivial(); else for (int t=0;t<3;t++){ double got=apop_log_likelihood(d,m); V_CHECK((isinf((double)want)&&got==want)||v_close(got,want,1e-7,1e-6),t?"copy":"likelihood","log likelihood %.17g; by the definition %.17Lg",got,want); if (t==0&&vflip(.6)){ cp=apop_model_copy(m); m=cp; } else if (t==1&&cp&&vflip(.5)){ m=apop_model_copy(cp); apop_model_free(cp); cp=m; } }
    if (!hastype(n,CT)&&vflip(.4)){ int K=sample_size(); double *s=malloc(K*sizeof(double)); gsl_rng *r=apop_rng_alloc(vi(1,1<<30)); int ok=1; for (int i=0;i<K&&ok;i++){ double c[3]={GUARD,GUARD,GUARD}; V_EQ(apop_draw(c+1,r,m),0,"status","draw"); ok=c[0]==GUARD&&c[2]==GUARD; V_CHECK(ok,"guard","cells outside were written"); s[i]=c[1]; } if (ok) ks(s,K,false,ncdfd,n,"distribution",name); free(s); gsl_rng_free(r); double again=apop_log_likelihood(d,m); if (!skip&&!isnan((double)want)) V_CHECK((isinf((double)want)&&again==want)||v_close(again,want,1e-7,1e-6),"after-draws","log likelihood %.17g; by the definition %.17Lg",again,want); v_ev("trees_drawn"); } if (cp) apop_model_free(cp); nfree(n); apop_data_free(d);
}
vh_family vh_families[]={{"mixture",f_mixture,500,20000},{"mixture_threads",f_mixture,400,4000,4},{"mixest",f_mixest,10,400},{"fix",f_fix,3000,20000},{"fixpages",f_fixpages,300,12000},{"fixest",f_fixest,400,5000},{"dc",f_dc,2000,10000},{"dcest",f_dcest,400,2500},{"ct",f_ct,3000,15000},{"ctest",f_ctest,300,2500},{"cross",f_cross,4000,20000},{"crossest",f_crossest,300,10000},{"tree",f_tree,4000,20000},{NULL}};
