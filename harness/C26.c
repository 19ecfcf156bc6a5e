#include "vh.h"
#include "vmodels.h"
const char *vh_rule = "Every distribution with random parameters of its domain, data sets of scalars held in the vector, the matrix or both (rows for the multivariate ones), points inside, at the edge of and outside the support; the log likelihood, probability and CDF are compared with densities and distribution functions written out in long double in the harness, and the sets and models are compared with what they were. Distinct by model, parameters and data.";
static void same_state(apop_model *m,char *was,apop_data *d,apop_data *keep){ char *now=vmodel_dump(m); V_STR(now,was,"model","the model changed"); free(now); vh_same(d,keep,0,"input","data"); }
static void f_uni(void){
    vdist *D=vdists+vi(0,NDIST-1); double p[3]; D->par(p); apop_model *m=vmodel(D,p); apop_data *d=vscalars(D,p,vflip(.2)?30:6); v_sigs(D->name); for (int i=0;i<D->np;i++) v_sigd(p[i]); vh_sig_data(d); v_desc("%s(%.17g,%.17g,%.17g), %d vector elements, %d by %d matrix",D->name,p[0],D->np>1?p[1]:NAN,D->np>2?p[2]:NAN,d->vector?(int)d->vector->size:0,d->matrix?(int)d->matrix->size1:0,d->matrix?(int)d->matrix->size2:0);
    apop_data *keep=apop_data_copy(d); char *was=vmodel_dump(m); L want=vll(D,p,d); double *e[400]; int n=veach(d,e); L scale=0,q[3]; for (int i=0;i<D->np;i++) q[i]=p[i]; for (int i=0;i<n;i++) scale+=fabsl(D->lpdf(*e[i],q))+1;
    double got=apop_log_likelihood(d,m); V_CLOSE(got,(double)want,1e-8,1e-9*(double)scale,"ll","log likelihood of %s",D->name); V_CLOSE(apop_p(d,m),exp(got),isfinite(got)?1e-9*(fabs(got)+1):0,1e-300,"p","probability of %s against its log likelihood",D->name); v_ev("log_likelihoods");
    /* additivity over rows, through views */
    if (!d->matrix||!d->vector){ L s=0; int rows=d->vector?(int)d->vector->size:(int)d->matrix->size1; for (int i=0;i<rows;i++) s+=apop_log_likelihood(Apop_r(d,i),m); V_CLOSE((double)s,got,1e-9,1e-9*(double)scale,"rows","sum over rows"); }
    same_state(m,was,d,keep); free(was);
    /* one point outside the support */
    double o=D->out(p); if (!isnan(o)){ int at=vi(0,n-1); double *z[400]; veach(d,z); *z[at]=o; v_ev("outside_points"); V_EQ(apop_log_likelihood(d,m),-INFINITY,"outside-ll","%s: log likelihood with %g in the data",D->name,o); V_EQ(apop_p(d,m),0,"outside-p","%s: probability with %g in the data",D->name,o); }
    apop_model_free(m); apop_data_free(d); apop_data_free(keep);
}
static void f_edge(void){ /* where the density's formula has a limit */
    int k=vi(0,5); double p[3]={0},x,want; vdist *D=NULL; for (int i=0;i<NDIST;i++) if (!strcmp(vdists[i].name,k<2?"beta":k<4?"gamma":k==4?"exponential":"uniform")) D=vdists+i; D->par(p); switch(k){ case 0: p[0]=1; x=0; want=log(p[1]); break; case 1: p[1]=1; x=1; want=log(p[0]); break; case 2: p[0]=1; x=0; want=-log(p[1]); break; case 3: p[0]=1+vpos(); x=0; want=-INFINITY; break; case 4: x=0; want=-log(p[0]); break; default: x=p[vi(0,1)]; want=-log(p[1]-p[0]); } apop_model *m=vmodel(D,p); apop_data *d=vflip(.5)?apop_data_falloc((1),x):apop_data_falloc((0,1,1),x); v_sigd(k); v_sigd(p[0]); v_desc("%s(%g,%g) at %g",D->name,p[0],p[1],x); V_CLOSE(apop_log_likelihood(d,m),want,1e-8,1e-9,"ll","log likelihood at the edge of %s",D->name); v_ev("edge_points"); apop_model_free(m); apop_data_free(d);
}
static apop_data *pt(double x,int rows){ int k=vi(0,rows?2:1); if (k==0) return apop_data_falloc((1),x); if (k==1) return apop_data_falloc((0,1,1),x); apop_data *d=vflip(.5)?apop_data_alloc(3):apop_data_alloc(0,3,1); apop_data_set(d,0,d->vector?-1:0,x); apop_data_set(d,1,d->vector?-1:0,x+1); apop_data_set(d,2,d->vector?-1:0,x-1); return d; }
static void f_cdf(void){
    vdist *D; do D=vdists+vi(0,NDIST-1); while (!D->hascdf); double p[3]; D->par(p); apop_model *m=vmodel(D,p); v_sigs(D->name); for (int i=0;i<D->np;i++) v_sigd(p[i]); v_desc("cdf of %s(%.17g,%.17g,%.17g)",D->name,p[0],D->np>1?p[1]:NAN,D->np>2?p[2]:NAN); char *was=vmodel_dump(m); double last=-1,lastx=0; double xs[12]; int n=vi(2,12); for (int i=0;i<n;i++){ xs[i]=D->x(p); if (vflip(.1)){ double o=D->out(p); if (!isnan(o)) xs[i]=o; } if (vflip(.05)) xs[i]+=vnorm()*.3; if (vflip(.03)) xs[i]=vpick(((double[]){1e8,-1e8})); } for (int i=1;i<n;i++){ double x=xs[i]; int j=i; while (j&&xs[j-1]>x){ xs[j]=xs[j-1]; j--; } xs[j]=x; }
    for (int i=0;i<n;i++){ apop_data *d=pt(xs[i],1),*keep=apop_data_copy(d); double got=apop_cdf(d,m); v_sigd(xs[i]); V_CLOSE(got,(double)D->cdf(xs[i],p),1e-7,1e-10,"cdf","%s CDF at %g",D->name,xs[i]); V_CHECK(got>=last-1e-12,"monotone","CDF falls from %g at %g to %g at %g",last,lastx,got,xs[i]); V_CHECK(got>=0&&got<=1+1e-12,"range","CDF is %g",got); last=got; lastx=xs[i]; vh_same(d,keep,0,"input","data"); v_ev("cdf_values"); apop_data_free(d); apop_data_free(keep); } char *now=vmodel_dump(m); V_STR(now,was,"model","the model changed"); free(now); free(was); apop_model_free(m);
}
/* apop_cdf's default: the share of draws at or below the point */
static void f_empcdf(void){
    vdist *D=vdists+vi(0,NDIST-1); double p[3]; D->par(p); apop_model *m=vmodel(D,p); m->cdf=NULL; int own=vflip(.5); gsl_rng *r=apop_rng_alloc(vi(1,1<<30)); int N=vi(200,2000); if (own) Apop_model_add_group(m,apop_cdf,.draws=N,.rng=r); else N=10000; v_sigs(D->name); v_sigd(p[0]); v_desc("default cdf of %s(%.17g,%.17g), %d draws",D->name,p[0],D->np>1?p[1]:NAN,N); double last=-1; double xs[5]; for (int i=0;i<5;i++) xs[i]=D->x(p); for (int i=1;i<5;i++){ double x=xs[i]; int j=i; while (j&&xs[j-1]>x){ xs[j]=xs[j-1]; j--; } xs[j]=x; } for (int i=0;i<5;i++){ apop_data *d=pt(xs[i],1); double got=apop_cdf(d,m),want=D->cdf(xs[i],p); V_CHECK(fabs(got-want)<=6*sqrt(want*(1-want)/N)+8./N,"cdf","%s at %g: %g of the draws are below, the CDF is %g",D->name,xs[i],got,want); V_CHECK(got>=last,"monotone","CDF falls"); last=got; V_EQ(apop_cdf(d,m),got,"repeat","second evaluation at the same point"); v_ev("cdf_from_draws"); apop_data_free(d); } apop_model_free(m); gsl_rng_free(r);
}
static L detinv(int k,L A[4][4],L out[4][4]){ L a[4][8],det=1; for (int i=0;i<k;i++) for (int j=0;j<k;j++){ a[i][j]=A[i][j]; a[i][k+j]=i==j; } for (int c=0;c<k;c++){ int p=c; for (int r=c;r<k;r++) if (fabsl(a[r][c])>fabsl(a[p][c])) p=r; if (p!=c) det=-det; for (int j=0;j<2*k;j++){ L t=a[c][j]; a[c][j]=a[p][j]; a[p][j]=t; } L d=a[c][c]; det*=d; for (int j=0;j<2*k;j++) a[c][j]/=d; for (int r=0;r<k;r++) if (r!=c){ L f=a[r][c]; for (int j=0;j<2*k;j++) a[r][j]-=f*a[c][j]; } } for (int i=0;i<k;i++) for (int j=0;j<k;j++) out[i][j]=a[i][k+j]; return det; }
static void f_multi(void){
    int which=vi(0,3),k=vi(which==3?1:2,4),n=vi(1,6); if (which==2) k=2; apop_data *d=apop_data_alloc(0,n,k); apop_model *m=apop_model_copy(which==0?apop_dirichlet:which==1?apop_multinomial:which==2?apop_binomial:apop_multivariate_normal); apop_prep(d,m); if (which==3&&!m->parameters) m->parameters=apop_data_alloc(k,k,k); L want=0; v_sigd(which);
    if (which==0){ L a[4],A=0; for (int j=0;j<k;j++){ a[j]=.2+vpos(); apop_data_set(m->parameters,j,-1,a[j]); a[j]=(double)a[j]; A+=a[j]; } for (int i=0;i<n;i++){ double x[4],s=0; for (int j=0;j<k;j++) s+=x[j]=vpos(); L t=lgammal(A); for (int j=0;j<k;j++){ apop_data_set(d,i,j,x[j]/s); t+=(a[j]-1)*logl(apop_data_get(d,i,j))-lgammal(a[j]); } want+=t; } }
    else if (which<3){ int N=vflip(.3)?2:vflip(.1)?vi(1000,20000):vi(1,30); double q[4],s=0; for (int j=0;j<k;j++) s+=q[j]=vpos(); L rest=1; for (int j=1;j<k;j++){ apop_data_set(m->parameters,j,-1,q[j]/s); rest-=q[j]/s; } apop_data_set(m->parameters,0,-1,N); for (int i=0;i<n;i++){ int c[4]={0}; for (int b=0;b<N;b++) c[vi(0,k-1)]++; L t=lgammal(N+1); for (int j=0;j<k;j++){ apop_data_set(d,i,j,c[j]); t+=c[j]*(j?logl(q[j]/s):logl(rest))-lgammal(c[j]+1); } want+=t; } }
    else { L C[4][4],I[4][4],B[4][4]; for (int i=0;i<k;i++) for (int j=0;j<k;j++) B[i][j]=vnorm(); for (int i=0;i<k;i++) for (int j=0;j<k;j++){ L t=i==j?.3:0; for (int z=0;z<k;z++) t+=B[i][z]*B[j][z]; C[i][j]=t; } for (int i=0;i<k;i++) for (int j=0;j<=i;j++){ double t=C[i][j]; apop_data_set(m->parameters,i,j,t); apop_data_set(m->parameters,j,i,t); C[i][j]=C[j][i]=t; } L det=detinv(k,C,I); L mu[4]; for (int j=0;j<k;j++){ mu[j]=(double)(vnorm()*3); apop_data_set(m->parameters,j,-1,mu[j]); } for (int i=0;i<n;i++){ L x[4],t=0; for (int j=0;j<k;j++){ x[j]=(double)(mu[j]+vnorm()*2); apop_data_set(d,i,j,x[j]); } for (int a=0;a<k;a++) for (int b=0;b<k;b++) t+=(x[a]-mu[a])*I[a][b]*(x[b]-mu[b]); want+=-t/2-logl(det)/2-k*LLOG2PI/2; } }
    vh_sig_data(d); vh_sig_data(m->parameters); v_desc("%s, %d dimensions, %d rows",m->name,k,n); apop_data *keep=apop_data_copy(d); char *was=vmodel_dump(m); double got=apop_log_likelihood(d,m); V_CLOSE(got,(double)want,1e-8,1e-8,"ll","log likelihood"); V_CLOSE(apop_p(d,m),exp(got),isfinite(got)?1e-9*(fabs(got)+1):0,1e-300,"p","probability"); L s=0; for (int i=0;i<n;i++) s+=apop_log_likelihood(Apop_r(d,i),m); V_CLOSE((double)s,got,1e-9,1e-8,"rows","sum over rows"); v_ev("log_likelihoods"); same_state(m,was,d,keep); free(was);
    if (which==2){ double N=apop_data_get(m->parameters,0,-1),p1=apop_data_get(m->parameters,1,-1); int h=vi(-1,N+1); L c=0; for (int i=0;i<=h&&i<=N;i++) c+=expl(lgammal(N+1)-lgammal(i+1)-lgammal(N-i+1)+i*logl(p1)+(N-i)*logl(1-(L)p1)); if (h>=N) c=1; if (h>=0){ apop_data *x=pt(h,0); V_CLOSE(apop_cdf(x,m),(double)c,1e-8,1e-10,"cdf","binomial CDF at %d of %g, p=%g",h,N,p1); v_ev("cdf_values"); apop_data_free(x); } }
    apop_model_free(m); apop_data_free(d); apop_data_free(keep);
}
static void shift_both(apop_data *in,apop_model *m){ double x=apop_data_get(in,.col=in->vector?-1:0); apop_data_set(m->parameters,0,-1,x-.5); apop_data_set(m->parameters,1,-1,x+.5); }
static void f_kernel(void){
    int k=vi(1,8),w=vflip(.5),unif=vflip(.3),n=vi(1,5),viapmf=vflip(.4); apop_data *base=apop_data_alloc(0,k,1); L W=0; double ww[8]; if (w) base->weights=gsl_vector_alloc(k); for (int i=0;i<k;i++){ apop_data_set(base,i,0,vnorm()*3); ww[i]=w?vpos():1; if (w&&vflip(.1)&&i) ww[i]=0; if (w) gsl_vector_set(base->weights,i,ww[i]); W+=ww[i]; } double sd=.1+vpos(); apop_model *pmf=viapmf?apop_estimate(base,apop_pmf):NULL,*m; apop_model *kern=unif?apop_model_set_parameters(apop_uniform,0,1):apop_model_set_parameters(apop_normal,0,sd); int simple=!unif&&!viapmf&&vflip(.4); if (simple){ sd=1; m=apop_estimate(base,apop_kernel_density); } else m=viapmf?(unif?apop_model_set_settings(apop_kernel_density,.base_pmf=pmf,.kernel=kern,.set_fn=shift_both):apop_model_set_settings(apop_kernel_density,.base_pmf=pmf,.kernel=kern)):(unif?apop_model_set_settings(apop_kernel_density,.base_data=base,.kernel=kern,.set_fn=shift_both):apop_model_set_settings(apop_kernel_density,.base_data=base,.kernel=kern));
    apop_data *d=apop_data_alloc(0,n,1); for (int i=0;i<n;i++) apop_data_set(d,i,0,vnorm()*3); vh_sig_data(base); vh_sig_data(d); v_desc("%s kernel over %d%s points, %s",unif?"uniform":"normal",k,w?" weighted":"",viapmf?"base_pmf":simple?"apop_estimate":"base_data"); L want=0; for (int i=0;i<n;i++){ L s=0; for (int j=0;j<k;j++){ double x=apop_data_get(d,i,0),c=apop_data_get(base,j,0); L q[2]={c,sd}; s+=ww[j]*(unif?fabs(x-c)<=.5:expl(normal_l(x,q))); } want+=logl(s/W); } apop_data *keep=apop_data_copy(d),*kb=apop_data_copy(base); double got=apop_log_likelihood(d,m); V_CLOSE(got,(double)want,1e-8,1e-8,"ll","log likelihood"); V_CLOSE(apop_p(d,m),exp(got),isfinite(got)?1e-9*(fabs(got)+1):0,1e-300,"p","probability"); v_ev("log_likelihoods");
    for (int i=0;i<3;i++){ double x=vnorm()*4; apop_data *t=apop_data_falloc((0,1,1),x); L s=0; for (int j=0;j<k;j++){ double c=apop_data_get(base,j,0),q[2]={c,sd},u[2]={c-.5,c+.5}; s+=ww[j]*(unif?unif_c(x,u):normal_c(x,q)); } V_CLOSE(apop_cdf(t,m),(double)(s/W),1e-8,1e-10,"cdf","CDF at %g",x); v_ev("cdf_values"); apop_data_free(t); } vh_same(d,keep,0,"input","data"); vh_same(base,kb,0,"base","base data"); apop_data_free(keep); apop_data_free(kb); apop_model_free(m); apop_model_free(kern); if (pmf) apop_model_free(pmf); apop_data_free(d); apop_data_free(base);
}
static long double tri_p(apop_data *d,apop_model *m){ L out=1; double a=apop_data_get(m->parameters,0,-1); double *e[400]; int n=veach(d,e); for (int i=0;i<n;i++) out*=fabs(*e[i])<a?(a-fabs(*e[i]))/(a*a):0; return out; }
static long double tri_ll(apop_data *d,apop_model *m){ return logl(tri_p(d,m)); }
static void f_user(void){ /* a model that gives only one of p and log_likelihood, and the improper uniform */
    int k=vi(0,2); apop_model tri={"Triangle",1,.dsize=1}; if (k==0) tri.p=tri_p; else tri.log_likelihood=tri_ll; double a=.5+vpos(); int n=vi(1,5); apop_data *d=apop_data_alloc(0,n,1); for (int i=0;i<n;i++) apop_data_set(d,i,0,a*vd(-1,1)*(vflip(.1)?1.5:1)); v_sigd(k); v_sigd(a); vh_sig_data(d); if (k==2){ v_desc("improper uniform"); V_EQ(apop_p(d,apop_improper_uniform),1,"improper","p"); V_EQ(apop_log_likelihood(d,apop_improper_uniform),0,"improper","log likelihood"); V_EQ(apop_cdf(d,apop_improper_uniform),.5,"improper","CDF"); } else { apop_model *m=apop_model_set_parameters(&tri,a); L want=tri_p(d,m); v_desc("a user's model with only %s",k?"log_likelihood":"p"); V_CLOSE(apop_p(d,m),(double)want,1e-9,0,"p","probability"); V_CLOSE(apop_log_likelihood(d,m),log((double)want),1e-9,1e-12,"ll","log likelihood"); apop_model_free(m); } v_ev("user_models"); apop_data_free(d);
}
static long double px_p(apop_data *d,apop_model *m){ (void)m; L s=1; if (d->vector) return 1e-7; for (size_t i=0;i<d->matrix->size1;i++) for (size_t j=0;j<d->matrix->size2;j++) s*=1/(1+fabs(gsl_matrix_get(d->matrix,i,j))); return s; }
static void f_lm(void){ /* the likelihood of a linear model, at its estimate and elsewhere, for its own data and for other data */
    int k=vi(1,3),n=vi(k+3,25),w=vflip(.4),inp=vflip(.3),iv=vflip(.2),want=vflip(.8); apop_model px={"Input",.p=px_p,.dsize=-1}; apop_data *d=apop_data_alloc(0,n,k+1); for (int i=0;i<n;i++){ double y=vnorm(); for (int j=1;j<=k;j++){ double x=vnorm()*2; apop_data_set(d,i,j,x); y+=x; } apop_data_set(d,i,0,y); } if (w){ d->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(d->weights,i,vflip(.1)?0:vpos()); } v_sigd(inp); v_sigd(iv); v_sigd(want); vh_sig_data(d);
    apop_model *base=apop_model_copy(iv?apop_iv:apop_ols); apop_data *inst=NULL; if (iv){ inst=apop_data_alloc(n,1); for (int i=0;i<n;i++) apop_data_set(inst,i,0,apop_data_get(d,i,1)+vnorm()*.3); inst->vector=gsl_vector_alloc(1); gsl_vector_set(inst->vector,0,1); }
    if (inp&&iv) Apop_model_add_group(base,apop_lm,.input_distribution=apop_model_copy(&px),.instruments=inst); else if (inp) Apop_model_add_group(base,apop_lm,.input_distribution=apop_model_copy(&px)); else if (iv) Apop_model_add_group(base,apop_lm,.instruments=inst); if (!want) Apop_model_add_group(base,apop_parts_wanted);
    apop_model *e=apop_estimate(d,base); if (e->error){ v_ev("estimate_failed"); goto out; }
    { double scale=vflip(.3)?0:vflip(.3)?1000:1; for (int j=0;j<=k;j++) apop_data_set(e->parameters,j,-1,apop_data_get(e->parameters,j,-1)+vnorm()*scale); int which=vi(0,2); apop_data *on=which==0?e->data:which==1?apop_data_copy(e->data):apop_data_alloc(vi(1,8),k+1); if (which==2){ on->vector=gsl_vector_alloc(on->matrix->size1); for (size_t i=0;i<on->matrix->size1;i++){ gsl_vector_set(on->vector,i,vnorm()*3); for (int j=0;j<=k;j++) apop_data_set(on,i,j,j?vnorm():1); } }
    v_desc("log likelihood of %s, %d rows, %d regressors%s%s, coefficients moved by %g, %s",iv?"IV":"OLS",n,k,w?", weighted":"",inp?", with an input distribution":"",scale,which==0?"its own data":which==1?"a copy of its data":"new data"); apop_data *evp=apop_data_get_page(e->parameters,"<Error variance>"); L s2=0,ll=0,mag=0; if (evp) s2=apop_data_get(evp); size_t N=on->matrix->size1; L err[N]; for (size_t i=0;i<N;i++){ L t=-apop_data_get(on,i,-1); for (int j=0;j<=k;j++) t+=(L)apop_data_get(on,i,j)*apop_data_get(e->parameters,j,-1); err[i]=t; } 
    for (size_t i=0;i<N&&evp;i++){ L wt=on->weights?gsl_vector_get(on->weights,i):1; if (!wt) continue; L t=-wt*err[i]*err[i]/2/s2-logl(2*M_PIl*s2)/2+logl(wt)/2; if (inp) for (int j=0;j<=k;j++) t-=logl(1+fabs(apop_data_get(on,i,j))); ll+=t; mag+=fabsl(t); for (int j=0;j<=k;j++) mag+=wt*fabsl(err[i]*(L)apop_data_get(on,i,j)*apop_data_get(e->parameters,j,-1))/s2; }
    apop_data *was=apop_data_copy(on); if (evp){ V_CLOSE(apop_log_likelihood(on,e),(double)ll,1e-9,1e-11*(double)mag,"lm","log likelihood"); } vh_same(on,was,true,"data","the data"); v_ev("linear_models"); apop_data_free(was); if (which) apop_data_free(on); }
out: apop_model_free(e); apop_model_free(base); apop_data_free(inst); apop_data_free(d);
}
vh_family vh_families[]={{"uni",f_uni,10000,300000,2},{"edge",f_edge,1000,20000},{"cdf",f_cdf,6000,200000},{"empcdf",f_empcdf,120,4000},{"multi",f_multi,4000,120000},{"kernel",f_kernel,2000,60000},{"user",f_user,1000,30000},{"lm",f_lm,1000,30000},{NULL}};
