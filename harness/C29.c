#include "vh.h"
#include "vmodels.h"
#include <gsl/gsl_sf_psi.h>
const char *vh_rule = "Closed-form estimates of every distribution from data in the vector, matrix or both, and searches by every documented method over distributions and over concave models the harness writes (vector and matrix parameters, with and without constraints, random starting points, cycling over dimensions, restarts): the estimate against the optimum, where it is known, and against nearby and true parameters through the harness's own log density; the reported log likelihood, criteria, status, covariance and path; the input model, the built-in model and the data are unchanged. Distinct by model, method and data.";
static double info(apop_model *e,char *n){ return e->info?apop_data_get(e->info,.rowname=n):NAN; }
/* No nearby parameters inside the domain do better. */
typedef bool (*dom_fn)(vdist *D,const L *q);
static bool in_dom(vdist *D,const L *q){ if (D->par==normal_par||D->par==logn_par||D->par==t_par) return q[1]>1e-4; if (D->par==yule_par||D->par==zipf_par) return q[0]>1+2e-4; if (D->par==bern_par) return q[0]>1e-3&&q[0]<1-1e-3; for (int i=0;i<D->np;i++) if (q[i]<=2e-3) return 0; return 1; }
static void nearby(vdist *D,apop_data *d,apop_model *e,double tol,const char *key,const char *what){ L p[3],best; for (int i=0;i<D->np;i++) p[i]=apop_data_get(e->parameters,i,-1); best=vllL(D,p,d); for (int t=0;t<40;t++){ L q[3]; double s=pow(10,-vi(1,4)); for (int i=0;i<D->np;i++) q[i]=p[i]+s*vnorm()*(fabsl(p[i])+.1); if (!in_dom(D,q)) continue; L l=vllL(D,q,d); V_CHECK(l<=best+tol,key,"%s: the log likelihood at the estimate (%.10Lg, %.10Lg) is %.10Lg, but %.10Lg at (%.10Lg, %.10Lg)",what,p[0],D->np>1?p[1]:0,best,l,q[0],D->np>1?q[1]:0); v_ev("nearby_points"); } }
static apop_data *sample(vdist *D,const double *p,int n){ gsl_rng *r=apop_rng_alloc(vi(1,1<<30)); apop_model *m=vmodel(D,p); int kind=vi(0,2); apop_data *o=kind==0?apop_data_alloc(n):kind==1?apop_data_alloc(0,n,1):apop_data_alloc(n,n,vi(1,3)); double *e[400]; int t=veach(o,e); for (int i=0;i<t;i++) apop_draw(e[i],r,m); gsl_rng_free(r); apop_model_free(m); return o; }
static char *builtin(apop_model *m){ char *d=vmodel_dump(m),*o; if (asprintf(&o,"%s|%p %p %p %p %p %p %p|%s",d,(void*)m->estimate,(void*)m->p,(void*)m->log_likelihood,(void*)m->cdf,(void*)m->constraint,(void*)m->draw,(void*)m->prep,m->name)<0) abort(); free(d); return o; }
static void f_closed(void){
    vdist *D; do D=vdists+vi(0,NDIST-1); while (!(*D->m)->estimate); double p[3]={0}; D->par(p); apop_data *d=vflip(.5)?sample(D,p,vi(5,40)):vscalars(D,p,30); double *el[400]; int n=veach(d,el); if (n<4||n>390) { apop_data_free(d); v_trivial(); return; } apop_data *orig=apop_data_copy(d); v_sigs(D->name); vh_sig_data(d); v_desc("estimate of %s from %d elements%s",D->name,n,d->vector&&d->matrix?" in vector and matrix":""); char *was=builtin(*D->m); apop_model *in=*D->m; int cov=vflip(.7); apop_model *mine=NULL; if (!cov){ in=mine=apop_model_copy(*D->m); Apop_model_add_group(mine,apop_parts_wanted); } char *inwas=builtin(in); apop_model *e=apop_estimate(d,in); V_EQ(e->error,0,"error","error"); L m=0,v=0,lm=0,lv=0,lo=INFINITY,hi=-INFINITY; for (int i=0;i<n;i++){ m+=*el[i]/n; lm+=logl(*el[i])/n; lo=fminl(lo,*el[i]); hi=fmaxl(hi,*el[i]); } for (int i=0;i<n;i++){ v+=(*el[i]-m)*(*el[i]-m); lv+=(logl(*el[i])-lm)*(logl(*el[i])-lm); }
    double a=apop_data_get(e->parameters,0,-1),b=D->np>1?apop_data_get(e->parameters,1,-1):0; double mag=fabsl(m)+sqrtl(v);
#define EITHER(got,ss,key) V_CHECK(fabsl((got)*(got)-(ss)/n)<=1e-8*(ss)+1e-14*mag*mag||fabsl((got)*(got)-(ss)/(n-1))<=1e-8*(ss)+1e-14*mag*mag,key,"%s: the deviation is %.12g; %.12Lg or %.12Lg (n or n-1) were expected",D->name,(got),sqrtl((ss)/n),sqrtl((ss)/(n-1)))
    if (D->par==normal_par){ V_CLOSE(a,m,1e-9,1e-12*mag,"mean","mean"); EITHER(b,v,"sd"); apop_data *c=apop_data_get_page(e->parameters,"<Covariance>"); if (V_CHECK(c!=NULL,"cov","no covariance page")){ V_CLOSE(apop_data_get(c,0,0),b*b/n,1e-9,0,"cov","variance of the mean"); V_CLOSE(apop_data_get(c,1,1),b*b/2/n,1.5/(n-1.)+1e-9,0,"cov","variance of the standard deviation"); V_EQ(apop_data_get(c,0,1),0,"cov","covariance"); } }
    else if (D->par==logn_par){ V_CLOSE(a,lm,1e-9,1e-10,"mean","mean of logs"); V_CHECK(fabsl(b*b-lv/n)<=1e-7*lv+1e-12||fabsl(b*b-lv/(n-1))<=1e-7*lv+1e-12,"sd","lognormal deviation %g",b); }
    else if (D->par==gamma_par){ V_CLOSE(a*b,m,1e-8,0,"moments","mean of the Gamma"); L g=a*b*b; V_CHECK(fabsl(g-v/n)<=1e-8*g||fabsl(g-v/(n-1))<=1e-8*g,"moments","the Gamma's variance is %Lg, of the data %Lg",g,v/n); }
    else if (D->par==beta_par){ V_CLOSE(a/(a+b),m,1e-8,0,"moments","mean of the Beta"); L g=(L)a*b/(a+b)/(a+b)/(a+b+1); V_CHECK(fabsl(g-v/n)<=1e-8*fabsl(g)||fabsl(g-v/(n-1))<=1e-8*fabsl(g),"moments","the Beta's variance is %Lg, of the data %Lg",g,v/n); }
    else if (D->par==t_par){ V_CLOSE(a,m,1e-9,1e-12*mag,"mean","mean"); V_EQ(apop_data_get(e->parameters,2,-1),n-1,"df","degrees of freedom"); V_CLOSE(b*b,v/(n-1)*(n-3)/(n-1),1e-8,0,"sd","variance"); }
    else if (D->par==unif_par){ V_EQ(a,(double)lo,"bounds","minimum"); V_EQ(b,(double)hi,"bounds","maximum"); }
    else { L want=D->par==bern_par?m:m; V_CLOSE(a,want,1e-9,0,"mean","estimate"); if (D->par!=bern_par||(a>1e-3&&a<1-1e-3)) if (m>0.003) nearby(D,d,e,1e-9*(1+fabsl(m)*n),"nearby",D->name); }
    if (D->par!=gamma_par){ double q[3]={a,b,D->np>2?apop_data_get(e->parameters,2,-1):0}; if (!(D->par==bern_par&&(a==0||a==1))&&!(D->par==pois_par&&a==0)&&isfinite(a+b)&&b>=0&&(D->np<2||D->par==unif_par||b>1e-9)) if (!(D->par==unif_par&&a==b)&&!(D->par==beta_par&&(a<=0||b<=0))){ L l=vll(D,q,d); V_CLOSE(info(e,"log likelihood"),(double)l,1e-8,1e-7*n,"reported","reported log likelihood"); } }
    if (D->par==logn_par||D->par==normal_par){ apop_data *pr=apop_predict(NULL,e); if (V_CHECK(pr&&pr->matrix&&pr->matrix->size1==1,"predict","no prediction")){ double want=D->par==normal_par?a:exp(a+b*b/2); V_CLOSE(apop_data_get(pr,0,0),want,1e-9,0,"predict","expected value"); apop_data_free(pr); } }
    V_CHECK(e!=in,"same","the input model is the one returned"); char *now=builtin(*D->m),*innow=builtin(in); V_STR(now,was,"builtin","the built-in model"); V_STR(innow,inwas,"input","the input model"); vh_same(d,orig,true,"data","the data"); free(now); free(innow); free(was); free(inwas); apop_model_free(e); if (mine) apop_model_free(mine); apop_data_free(d); apop_data_free(orig);
}
static void f_multi(void){
    int mvn=vflip(.5),n=vi(4,30),k=vi(2,4); apop_data *d=apop_data_alloc(0,n,k); int N=vi(1,12); double pr[4],P=0; for (int j=0;j<k;j++) P+=pr[j]=vpos(); for (int i=0;i<n;i++){ if (mvn) for (int j=0;j<k;j++) apop_data_set(d,i,j,vnorm()*3+(j?apop_data_get(d,i,0)*.5:0)); else { for (int j=0;j<k;j++) apop_data_set(d,i,j,0); for (int b=0;b<N;b++){ double u=vd(0,P); int j=0; while (j<k-1&&u>pr[j]) u-=pr[j++]; *apop_data_ptr(d,i,j)+=1; } } } apop_model **built=mvn?&apop_multivariate_normal:k==2&&vflip(.5)?&apop_binomial:&apop_multinomial; vh_sig_data(d); v_desc("estimate of %s, %d rows, %d options or dimensions",(*built)->name,n,k); apop_data *orig=apop_data_copy(d); char *was=builtin(*built); apop_model *e=apop_estimate(d,*built); V_EQ(e->error,0,"error","error");
    for (int j=0;j<k;j++){ L m=0; for (int i=0;i<n;i++) m+=apop_data_get(d,i,j)/n; if (mvn){ V_CLOSE(apop_data_get(e->parameters,j,-1),(double)m,1e-9,1e-9,"mvn-mean","mean %d",j); for (int z=0;z<k;z++){ L mz=0,c=0; for (int i=0;i<n;i++) mz+=apop_data_get(d,i,z)/n; for (int i=0;i<n;i++) c+=(apop_data_get(d,i,z)-mz)*(apop_data_get(d,i,j)-m); double g=apop_data_get(e->parameters,j,z); V_CHECK(fabsl(g-c/n)<1e-9*(1+fabsl(c))||fabsl(g-c/(n-1))<1e-9*(1+fabsl(c)),"mvn-cov","(%d,%d): %g; the covariance is %Lg",j,z,g,c/(n-1)); } } else if (j==0) V_EQ(apop_data_get(e->parameters,0,-1),N,"n","number of balls"); else V_CLOSE(apop_data_get(e->parameters,j,-1),(double)(m/N),1e-9,1e-12,"p","option %d",j); }
    if (!mvn){ V_EQ(e->dsize,k,"dsize","size of a draw"); L l=0; for (int i=0;i<n;i++){ l+=lgammal(N+1); for (int j=0;j<k;j++){ double x=apop_data_get(d,i,j),m=0; for (int z=0;z<n;z++) m+=apop_data_get(d,z,j); l-=lgammal(x+1); if (x) l+=x*logl(m/n/N); } } V_CLOSE(info(e,"log likelihood"),(double)l,1e-8,1e-7,"reported","reported log likelihood"); V_EQ(e->parameters->vector->size,k,"size","parameters"); V_CHECK(!e->constraint||e->constraint(d,e)>=0,"constraint","the constraint"); gsl_rng *r=apop_rng_alloc(3); double c[6]; apop_draw(c,r,e); double s=0; for (int j=0;j<k;j++) s+=c[j]; V_EQ(s,N,"draw","sum of a draw"); gsl_rng_free(r); } else V_CLOSE(info(e,"log likelihood"),apop_log_likelihood(d,e),1e-9,1e-9,"reported","reported log likelihood");
    char *now=builtin(*built); V_STR(now,was,"builtin","the built-in model"); vh_same(d,orig,true,"data","the data"); free(was); free(now); apop_model_free(e); apop_data_free(d); apop_data_free(orig);
}
static char *methods[]={"NM simplex","FR cg","BFGS cg","PR cg","Newton","Newton hybrid","Newton hybrid no scale","Annealing",NULL};
static void criteria(apop_model *e,apop_data *d,int k,double ll){ V_CLOSE(info(e,"log likelihood"),ll,1e-7,1e-6,"reported","reported log likelihood"); V_CLOSE(info(e,"AIC"),2*k-2*ll,1e-7,1e-6,"criteria","AIC"); if (d){ int n=d->matrix?d->matrix->size1:d->vector->size; V_CLOSE(info(e,"BIC"),k*log(n)-2*ll,1e-7,1e-6,"criteria","BIC"); if (n>k+1) V_CLOSE(info(e,"AIC_c"),2*k-2*ll+2*k*(k+1.)/(n-k-1.),1e-7,1e-6,"criteria","AIC_c"); } }
/* estimating leaves the settings of the search as they were */
static void settings(apop_model *m,apop_model *e){ apop_mle_settings *a=apop_settings_get_grp(m,"apop_mle",'c'),*b=apop_settings_get_grp(e,"apop_mle",'c'); if (!a) return; if (!V_CHECK(b!=NULL,"settings","the estimate has no settings for the search")) return;
    V_EQ(b->dim_cycle_tolerance,a->dim_cycle_tolerance,"settings","dim_cycle_tolerance after estimating"); V_CHECK(b->starting_pt==a->starting_pt,"settings","starting_pt changed"); if (a->method&&*a->method) V_STR(b->method,a->method,"settings","method"); V_EQ(b->tolerance,a->tolerance,"settings","tolerance"); V_EQ(b->max_iterations,a->max_iterations,"settings","max_iterations"); V_EQ(b->step_size,a->step_size,"settings","step_size"); V_EQ(b->delta,a->delta,"settings","delta"); V_EQ(b->verbose,a->verbose,"settings","verbose"); V_EQ(b->n_tries,a->n_tries,"settings","n_tries"); V_EQ(b->iters_fixed_T,a->iters_fixed_T,"settings","iters_fixed_T"); V_EQ(b->k,a->k,"settings","k"); V_EQ(b->t_initial,a->t_initial,"settings","t_initial"); V_EQ(b->mu_t,a->mu_t,"settings","mu_t"); V_EQ(b->t_min,a->t_min,"settings","t_min"); V_CHECK(b->path==a->path&&b->rng==a->rng,"settings","path or generator"); v_ev("settings_compared"); }
static void f_search(void){ /* distributions, by search */
    vdist *D; do D=vdists+vi(0,NDIST-1); while (D->par==unif_par||D->par==t_par); double p[3]={0}; D->par(p); if (D->par==normal_par) p[0]=vnorm()*2,p[1]=vpos(); if (D->par==expo_par||D->par==gamma_par) p[0]=vpos(); if (D->par==pois_par) p[0]=.5+vpos()*3; apop_data *d=sample(D,p,vi(8,40)); double *el[400]; int n=veach(d,el); for (int i=0;i<n;i++) if (D->par==beta_par||D->par==gamma_par||D->par==expo_par||D->par==logn_par){ if (*el[i]<1e-4) *el[i]=1e-4; if (D->par==beta_par&&*el[i]>1-1e-4) *el[i]=1-1e-4; } apop_data *orig=apop_data_copy(d); int mi=vflip(.4)?-1:vi(0,6); apop_model *m=apop_model_copy(*D->m); m->estimate=NULL; double start[3]; int st=vflip(.5)||D->par==yule_par||D->par==zipf_par||D->par==bern_par; for (int i=0;i<3;i++) start[i]=p[i]*(1+vnorm()*.1); if (D->par==bern_par) start[0]=vd(.2,.8); if (D->par==yule_par||D->par==zipf_par) start[0]=1.5+vpos(); apop_data *path=NULL; int wantpath=vflip(.15); if (mi>=0||st||wantpath) Apop_model_add_group(m,apop_mle,.method=mi<0?"":methods[mi],.starting_pt=st?start:NULL,.path=wantpath?&path:NULL); int wantcov=vflip(.4); if (wantcov) Apop_model_add_group(m,apop_parts_wanted,.covariance='y',.info='y'); vh_sig_data(d); v_sigd(mi); v_sigs(D->name); v_desc("search for %s, %d elements, method %s, %s start%s",D->name,n,mi<0?"default":methods[mi],st?"given":"default",wantpath?", path":""); char *was=builtin(m); apop_model *e=apop_estimate(d,m); settings(m,e); char *now=builtin(m); V_STR(now,was,"input","the input model"); vh_same(d,orig,true,"data","the data"); free(was); free(now);
    double status=info(e,"status"); L q[3],t[3]; int ok=e->parameters!=NULL,deg=0; for (int i=0;i<D->np;i++){ q[i]=apop_data_get(e->parameters,i,-1); t[i]=p[i]; if (!isfinite(q[i])) ok=0; } for (int i=0;i<n;i++) if (i&&*el[i]!=*el[0]) break; else if (i==n-1) deg=1; int alls=1; if (D->par==yule_par||D->par==zipf_par) for (int i=0;i<n;i++) if (*el[i]>1) alls=0; if (D->par!=yule_par&&D->par!=zipf_par) alls=0; char key[60]; 
    if (status==0) v_evn("status_ok",1); else v_evn("status_trouble",1);
    if (status==0&&!deg&&!alls){ snprintf(key,sizeof key,"domain"); V_CHECK(ok&&in_dom(D,q),key,"status zero at (%Lg, %Lg)",q[0],D->np>1?q[1]:0); if (ok&&in_dom(D,q)){ L best=vllL(D,q,d); double tol=1e-3*(1+n*.02); if (mi>=4){ for (int i=0;i<D->np;i++){ L a[3],b[3],h=1e-4L*(fabsl(q[i])+1e-3L); memcpy(a,q,sizeof a); memcpy(b,q,sizeof b); a[i]-=h; b[i]+=h; if (!in_dom(D,a)||!in_dom(D,b)) continue; L g=(vllL(D,b,d)-vllL(D,a,d))/2/h; V_CHECK(fabsl(g)<=1e-3*(1+fabsl(best)/fmaxl(fabsl(q[i]),1e-3L)),"root","%s: element %d of the score is %Lg at the root (%Lg, %Lg)",D->name,i,g,q[0],D->np>1?q[1]:0); } criteria(e,d,D->np,best); goto path; } snprintf(key,sizeof key,"nearby-%s",mi<0?"default":methods[mi]); nearby(D,d,e,tol,key,D->name); L tr=vllL(D,t,d); V_CHECK(tr<=best+tol,key,"%s: ll %.10Lg at the estimate (%Lg, %Lg), %.10Lg at the true parameters (%Lg, %Lg)",D->name,best,q[0],D->np>1?q[1]:0,tr,t[0],D->np>1?t[1]:0); criteria(e,d,D->np,best); } }
path:
    if (wantpath&&V_CHECK(path!=NULL&&path->matrix&&path->vector,"path","no path")){ int bad=0; for (size_t i=0;i<path->matrix->size1&&!bad;i++){ L r[3]; for (int j=0;j<D->np;j++) r[j]=apop_data_get(path,i,j); if (in_dom(D,r)){ L l=vllL(D,r,d); double g=apop_data_get(path,i,-1); bad=!(g<=l+1e-6*(1+fabsl(l))); V_CHECK(!bad,"path","row %zu of the path has %g at (%Lg, %Lg), where the log likelihood is %Lg",i,g,r[0],D->np>1?r[1]:0,l); } } v_evn("path_rows",path->matrix->size1); } if (path) apop_data_free(path);
    apop_model_free(e); apop_model_free(m); apop_data_free(d); apop_data_free(orig);
}
/* concave models of the harness: -s/2 (x-c)'Q(x-c) */
static int qn,qcon; static double qc[9],qQ[9][9],qs,qlin[10];
static L q_ll(const double *x){ L s=0; for (int i=0;i<qn;i++) for (int j=0;j<qn;j++) s-=(L)(x[i]-qc[i])*qQ[i][j]*(x[j]-qc[j]); return s*qs/2; }
static long double quad_ll(apop_data *d,apop_model *m){ gsl_vector *v=apop_data_pack(m->parameters); L l=q_ll(v->data); gsl_vector_free(v); return l; }
static long double quad_con(apop_data *d,apop_model *m){ /* qlin'x >= qlin[9] */ gsl_vector *v=apop_data_pack(m->parameters); L s=-qlin[9],nn=0; for (int i=0;i<qn;i++) s+=qlin[i]*v->data[i],nn+=qlin[i]*qlin[i]; L pen=0; if (s<0){ pen=-s/sqrtl(nn); for (int i=0;i<qn;i++) v->data[i]+=qlin[i]*(-s/nn)*(1+1e-9); apop_data_unpack(v,m->parameters); } gsl_vector_free(v); return pen; }
static void qsetup(int vs,int r,int c){ qn=vs+r*c; double B[9][9]; for (int i=0;i<qn;i++) for (int j=0;j<qn;j++) B[i][j]=vnorm()*.4; for (int i=0;i<qn;i++){ qc[i]=vnorm()*2; for (int j=0;j<qn;j++){ double t=i==j; for (int z=0;z<qn;z++) t+=B[i][z]*B[j][z]; qQ[i][j]=t; } } qs=.5+vpos(); }
static void f_quad(void){
    int vs=vi(0,3),r=vi(0,2),c=r?vi(1,2):0; if (!vs&&!r) vs=1; qsetup(vs,r,c); qcon=vflip(.35); int binds=0; if (qcon){ double at=0; for (int i=0;i<qn;i++) qlin[i]=vnorm(),at+=qlin[i]*qc[i]; binds=qn<=3&&vflip(.6); qlin[9]=at+(binds?.2+vpos():-.5-vpos()); } int mi=vflip(.2)?-1:vi(0,qn<=4?7:6); if (binds) mi=vflip(.3)?-1:0; double start[9],far=vflip(.3)?20:3; int st=vflip(.5); for (int i=0;i<9;i++) start[i]=vnorm()*far; int cyc=!qcon&&vflip(.1),restart=vflip(.1); apop_model base={"quad",.log_likelihood=quad_ll,.constraint=qcon?quad_con:NULL,.vsize=vs,.msize1=r,.msize2=c,.dsize=1}; apop_model *m=apop_model_copy(&base); gsl_rng *rng=apop_rng_alloc(vi(1,1<<30)); apop_data *path=NULL; int wantpath=vflip(.15)&&mi<7,wantcov=vflip(.3)&&!binds; if (cyc&&mi==7) mi=0; Apop_model_add_group(m,apop_mle,.method=mi<0?"":methods[mi],.starting_pt=st?start:NULL,.dim_cycle_tolerance=cyc?1e-6:0,.rng=rng,.path=wantpath?&path:NULL,.max_iterations=3000,.mu_t=1.05,.t_min=1e-3); if (wantcov) Apop_model_add_group(m,apop_parts_wanted,.covariance='y',.info='y'); apop_data *d=vflip(.5)?apop_data_calloc(vi(4,9)):NULL; v_sigd(qc[0]); v_sigd(mi); v_sigd(qn); v_desc("search over a concave model, parameters %d and %dx%d, method %s, %s%s%s%s",vs,r,c,mi<0?"default":methods[mi],qcon?binds?"binding constraint":"constraint":"no constraint",cyc?", cycling over dimensions":"",restart?", restarted":"",wantpath?", path":""); char *was=builtin(m); apop_model *e=apop_estimate(d,m); settings(m,e); char *now=builtin(m); V_STR(now,was,"input","the input model"); free(was); free(now); V_EQ(e->error,0,"error","error");
    double llbefore=info(e,"log likelihood"); if (restart){ e=apop_estimate_restart(e); V_CHECK(e!=NULL,"restart","no model from the restart"); double l=info(e,"log likelihood"); V_CHECK(!(l<llbefore-1e-9),"restart","the restart returned a log likelihood of %g, having had %g",l,llbefore); }
    gsl_vector *x=apop_data_pack(e->parameters); double status=info(e,"status"); char *nm=cyc?"cycle":mi<0?"default":methods[mi],key[60]; L ll=q_ll(x->data); double opt=0; if (binds){ /* the best point on the boundary */ double at=-qlin[9],den=0; gsl_matrix *Q=gsl_matrix_alloc(qn,qn); for (int i=0;i<qn;i++) for (int j=0;j<qn;j++) gsl_matrix_set(Q,i,j,qQ[i][j]); gsl_matrix *inv=apop_matrix_inverse(Q); for (int i=0;i<qn;i++){ at+=qlin[i]*qc[i]; for (int j=0;j<qn;j++) den+=qlin[i]*qlin[j]*gsl_matrix_get(inv,i,j); } opt=-at*at/den*qs/2; gsl_matrix_free(Q); gsl_matrix_free(inv); }
    snprintf(key,sizeof key,"status-%s",nm); V_CHECK(!isnan(status),key,"no status is reported"); if (status==0){ v_ev("quad_ok"); snprintf(key,sizeof key,"optimum-%s%s",nm,binds?"-binding":""); L lst=q_ll(st?start:(double[]){1,1,1,1,1,1,1,1,1}); double tol=mi==7?(qcon?INFINITY:1e-6+opt-(double)lst):binds?.02*(1+fabs(opt)):2e-4*(1+qs*qn); V_CHECK(ll>=opt-tol,key,"status is zero with a log likelihood of %Lg; the optimum is %g",ll,opt); if (qcon){ L s=-qlin[9],nn=0; for (int i=0;i<qn;i++) s+=qlin[i]*x->data[i],nn+=fabs(qlin[i]*x->data[i]); V_CHECK(s>=-1e-3*(1+nn),"constraint","the estimate is outside the constraint by %Lg",-s); } } else v_ev("quad_trouble"); criteria(e,d,qn,ll);
    if (wantcov&&status==0&&mi!=7&&V_CHECK(apop_data_get_page(e->parameters,"<Covariance>")!=NULL,"covariance","no covariance page")){ apop_data *cv=apop_data_get_page(e->parameters,"<Covariance>"); V_EQ(cv->matrix->size1,qn,"covariance","size"); for (int i=0;i<qn;i++) for (int j=0;j<qn;j++){ L s=0; for (int z=0;z<qn;z++) s+=apop_data_get(cv,i,z)*qQ[z][j]*qs; V_CLOSE((double)s,i==j,1e-2,1e-2,"covariance","element (%d,%d) of the covariance times the information",i,j); } }
    if (wantpath&&!cyc&&V_CHECK(path!=NULL&&path->matrix&&path->vector,"path","no path")){ V_EQ(path->matrix->size2,qn,"path","columns of the path"); if (path->matrix->size2==(size_t)qn) for (size_t i=0;i<path->matrix->size1;i++){ gsl_vector *row=Apop_rv(path,i); double y[9]; for (int j=0;j<qn;j++) y[j]=gsl_vector_get(row,j); L l=q_ll(y); double g=apop_data_get(path,i,-1); if (qcon){ L in=-qlin[9]; for (int j=0;j<qn;j++) in+=qlin[j]*y[j]; if (in<1e-6*(1+fabsl(qlin[9]))) continue; } if (!V_CHECK(fabsl(g-l)<=1e-7*(1+fabsl(l)),"path","row %zu of the path has %g, where the log likelihood is %Lg",i,g,l)) break; } v_evn("path_rows",path->matrix->size1); } if (path) apop_data_free(path);
    if (status!=0&&mi<=0&&!qcon&&!cyc&&!restart) V_CHECK(0,"default-failed","the simplex failed on a concave function: status %g",status);
    gsl_vector_free(x); apop_model_free(e); apop_model_free(m); gsl_rng_free(rng); if (d) apop_data_free(d);
}
static void f_limits(void){ /* too few iterations must be reported */ qsetup(vi(2,4),0,0); int mi=vi(0,6); for (int i=0;i<qn;i++) qc[i]=50+vpos()*50; apop_model base={"quad",.log_likelihood=quad_ll,.vsize=qn,.dsize=1}; apop_model *m=apop_model_copy(&base); int it=vi(1,4); Apop_model_add_group(m,apop_mle,.method=methods[mi],.max_iterations=it); v_sigd(mi); v_sigd(qc[0]); v_desc("%d iterations of %s",it,methods[mi]); apop_model *e=apop_estimate(NULL,m); gsl_vector *x=apop_data_pack(e->parameters); L l=q_ll(x->data); double status=info(e,"status"); char key[40]; snprintf(key,sizeof key,"limit-%s",methods[mi]); V_CHECK(status!=0||l>-1e-2*(1+qs*qn),key,"status is zero at a log likelihood of %Lg, where the optimum is 0, after %d iterations",l,it); gsl_vector_free(x); apop_model_free(e); apop_model_free(m); }
static int nan_at; static long double nan_ll(apop_data *d,apop_model *m){ double x=apop_data_get(m->parameters,0,-1); return x>nan_at?NAN:-(x-.3)*(x-.3); }
static int first_n; static double first_x[9]; static long double spy_ll(apop_data *d,apop_model *m){ gsl_vector *v=apop_data_pack(m->parameters); if (!first_n){ first_n=v->size; memcpy(first_x,v->data,v->size*sizeof(double)); } L l=q_ll(v->data); gsl_vector_free(v); return l; }
static void my_int(int s){}
#include <signal.h>
static void f_restart(void){ /* restarts from each documented point; failures at the start; the handler of interrupts */
    int mi=vi(0,6),kind=vi(0,4); v_sigd(mi); v_sigd(kind); signal(SIGINT,my_int); if (kind==4){ nan_at=vflip(.5)?-5:20; double st[1]={vflip(.5)?nan_at+2:nan_at-.5}; v_sigd(st[0]); v_desc("a log likelihood that is NaN above %d from %g by %s",nan_at,st[0],methods[mi]); apop_model base={"nan above",.log_likelihood=nan_ll,.vsize=1,.dsize=1}; apop_model *m=apop_model_copy(&base); apop_data *path=NULL; Apop_model_add_group(m,apop_mle,.method=methods[mi],.starting_pt=st,.path=vflip(.3)?&path:NULL); int v=apop_opts.verbose; apop_opts.verbose=-1; apop_model *e=apop_estimate(NULL,m); apop_opts.verbose=v; double status=info(e,"status"); V_CHECK(!isnan(status),"nan-status","no status"); if (st[0]>nan_at) V_CHECK(status!=0,"nan-status","status zero, where the likelihood was NaN at the start"); else if (status==0&&nan_at>0) V_CLOSE(apop_data_get(e->parameters,0,-1),.3,0,1e-2,"nan-optimum","optimum"); else if (nan_at<0) V_CHECK(status!=0,"nan-status","status zero, where the optimum cannot be evaluated"); V_CHECK(signal(SIGINT,SIG_DFL)==my_int,"sigint","the handler of interrupts was changed by %s",methods[mi]); if (path) apop_data_free(path); apop_model_free(e); apop_model_free(m); return; }
    int vs=vi(0,3),r=vi(0,2),c=r?vi(1,2):0; if (!vs&&!r) vs=1; qsetup(vs,r,c); double a[9],b[9],p[9]; for (int i=0;i<9;i++) a[i]=vnorm()*2,b[i]=vnorm()*2,p[i]=vnorm()*2; int hasa=vflip(.7),hasb=vflip(.7),second=kind==3||vflip(.4); apop_model base={"spy",.log_likelihood=spy_ll,.vsize=vs,.msize1=r,.msize2=c,.dsize=1}; apop_model *m=apop_model_copy(&base); Apop_model_add_group(m,apop_mle,.method=methods[mi],.starting_pt=hasa?a:NULL,.max_iterations=vflip(.5)?vi(3,8):1000); int v=apop_opts.verbose; apop_opts.verbose=-1; first_n=0; apop_model *e=apop_estimate(NULL,m); V_EQ(first_n,qn,"size","parameters"); for (int i=0;i<qn;i++) V_CLOSE(first_x[i],hasa?a[i]:1,0,mi>=4?1.1e-3:0,"start","element %d of the first point tried",i); apop_model *copy=NULL; gsl_vector *ep=apop_data_pack(e->parameters); double before=info(e,"log likelihood"); if (second){ copy=apop_model_copy(&base); apop_prep(NULL,copy); gsl_vector_view pv=gsl_vector_view_array(p,qn); apop_data_unpack(&pv.vector,copy->parameters); if (hasb||vflip(.5)) Apop_model_add_group(copy,apop_mle,.method=methods[mi],.starting_pt=hasb?b:NULL); }
    char *how=(char*[]){"ep","es","ns","np"}[kind]; int dflt=kind==0&&vflip(.5); v_desc("restart from %s%s, %s, parameters %d and %dx%d",how,second?" with a second model":"",methods[mi],vs,r,c); first_n=0; double bound=vflip(.2)?.01:1e8; apop_model *n=dflt?apop_estimate_restart(e,copy,.boundary=bound):apop_estimate_restart(e,copy,how,.boundary=bound); apop_opts.verbose=v; double *want; double ones[9]={1,1,1,1,1,1,1,1,1}; switch (kind){ case 0: want=ep->data; break; case 1: want=hasa?a:ones; break; case 2: want=second?(hasb?b:ones):(hasa?a:ones); break; default: want=p; } int div=0; if (kind==0||kind==3) for (int i=0;i<qn;i++) if (fabs(want[i])>bound) div=1; V_CHECK(n!=NULL,"restart","no model"); if (div){ V_CHECK(n==e,"diverged","the first model was not returned"); V_EQ(first_n,0,"diverged","evaluations"); if (copy) apop_model_free(copy); } else { V_EQ(first_n,qn,"size","parameters"); for (int i=0;i<qn;i++) V_CLOSE(first_x[i],want[i],0,mi>=4?1.1e-3:0,"restart-start","element %d of the first point the restart tried",i); } double after=info(n,"log likelihood"); V_CHECK(!(after<before-1e-12),"restart","the log likelihood went from %g to %g",before,after); gsl_vector *x=apop_data_pack(n->parameters); V_CLOSE((double)q_ll(x->data),after,1e-9,1e-9,"restart","log likelihood of the parameters returned"); V_CHECK(signal(SIGINT,SIG_DFL)==my_int,"sigint","the handler of interrupts was changed by %s",methods[mi]); gsl_vector_free(x); gsl_vector_free(ep); apop_model_free(n); apop_model_free(m);
}
vh_family vh_families[]={{"closed",f_closed,1500,50000},{"multi",f_multi,600,20000},{"search",f_search,800,30000},{"quad",f_quad,800,30000},{"limits",f_limits,150,5000},{"restart",f_restart,600,20000},{NULL}};
