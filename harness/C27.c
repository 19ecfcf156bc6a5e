#include "vh.h"
#include "vmodels.h"
#include <gsl/gsl_randist.h>
const char *vh_rule = "Every distribution with random parameters of its domain and a fresh generator: samples of fixed size from apop_draw, apop_model_draws and adaptive rejection sampling, drawn into cells with guards on either side, are compared with the harness's own CDF (Kolmogorov distance at a one-in-a-billion level), for support, for independence of successive draws and for repeatability from the same seed; multivariate draws through their marginals, projections and sums. Distinct by model, parameters and seed.";
static int cmpd(const void*a,const void*b){ double x=*(double*)a,y=*(double*)b; return (x>y)-(x<y); }
static int sample_size(void){ return vh_thorough?vpick(((int[]){2000,2000,30000})):vflip(.1)?20000:2000; }
typedef double (*cdf_fn)(double x,void *p);
/* The distance of a sample from a CDF; limit is for a two-sided probability under 1e-9. */
static void ks(double *s,int n,bool discrete,cdf_fn F,void *p,double slack,const char *key,const char *what){ double *t=malloc(n*sizeof(double)); memcpy(t,s,n*sizeof(double)); qsort(t,n,sizeof(double),cmpd); double D=0,at=0; for (int i=0;i<n;){ int j=i; while (j<n&&t[j]==t[i]) j++; double f=F(t[i],p),a=fabs((double)j/n-f),b=fabs((double)i/n-(discrete?F(t[i]-1,p):f)); if (a>D) D=a,at=t[i]; if (b>D) D=b,at=t[i]; i=j; } free(t); V_CHECK(D<=3.3*slack/sqrt(n)+1e-9,key,"%s: the distribution of %d draws is %g from the CDF at %g; %g would be a one-in-a-billion event",what,n,D,at,3.3*slack/sqrt(n)); v_evn("draws_examined",n); }
static double Fd(double x,void *v){ void **a=v; vdist *D=a[0]; return D->cdf(x,a[1]); }
static void serial(double *s,int n,cdf_fn F,void *p,const char *what){ double a=0,b=0,m=0; double *u=malloc(n*sizeof(double)); for (int i=0;i<n;i++){ u[i]=F(s[i],p); m+=u[i]/n; } for (int i=0;i<n;i++){ b+=(u[i]-m)*(u[i]-m); if (i) a+=(u[i]-m)*(u[i-1]-m); } free(u); V_CHECK(fabs(a/b)<6.5/sqrt(n),"serial","%s: the correlation of successive draws is %g over %d",what,a/b,n); }
#define GUARD -987654321.125
static bool in_support(vdist *D,double x,const double *p){ L q[3]={p[0],p[1],p[2]}; if (!isfinite(x)) return 0; if (D->discrete&&x!=floor(x)) return 0; if (D->par==beta_par) return x>=0&&x<=1; if (D->par==expo_par||D->par==gamma_par) return x>=0; if (D->par==logn_par) return x>0||p[0]-8*p[1]<-700; if (D->par==unif_par) return x>=p[0]&&x<=p[1]; if (D->par==bern_par) return x==0||x==1; if (D->par==pois_par) return x>=0; if (D->par==yule_par||D->par==zipf_par) return x>=1; return isfinite((double)D->lpdf(x,q)); }
static void f_uni(void){
    vdist *D=vdists+vi(0,NDIST-1); double p[3]={0}; D->par(p); if (D->par==t_par&&p[2]<.9) p[2]=.9; apop_model *m=vmodel(D,p); int seed=vi(1,1<<30),n=sample_size(),viaapop=vflip(.5); gsl_rng *r=apop_rng_alloc(seed),*r2=gsl_rng_clone(r); v_sigs(D->name); for (int i=0;i<D->np;i++) v_sigd(p[i]); v_sigd(seed); v_desc("%d draws from %s(%.17g,%.17g,%.17g)",n,D->name,p[0],D->np>1?p[1]:NAN,D->np>2?p[2]:NAN); char *was=vmodel_dump(m); V_EQ(m->dsize,1,"dsize","dsize of %s",D->name); double *s=malloc(n*sizeof(double)),cell[3]; void *a[2]={D,p};
    for (int i=0;i<n;i++){ cell[0]=cell[1]=cell[2]=GUARD; int e=viaapop?apop_draw(cell+1,r,m):m->draw(cell+1,r,m); if (e||cell[0]!=GUARD||cell[2]!=GUARD||!in_support(D,cell[1],p)){ V_EQ(e,0,"status","draw %d of %s",i,D->name); V_CHECK(cell[0]==GUARD&&cell[2]==GUARD,"guard","%s wrote outside its one element",D->name); V_CHECK(in_support(D,cell[1],p),"support","draw %d from %s(%g,%g) is %g",i,D->name,p[0],p[1],cell[1]); break; } s[i]=cell[1]; if (i<20){ double c2[3]; apop_draw(c2,r2,m); V_EQ(c2[0],s[i],"repeat","draw %d from the same seed",i); } if (i==n-1){ ks(s,n,D->discrete,Fd,a,1,"distribution",D->name); if (!D->discrete) serial(s,n,Fd,a,D->name); } }
    char *now=vmodel_dump(m); V_STR(now,was,"model","the model changed"); free(now); free(was); free(s); gsl_rng_free(r); gsl_rng_free(r2); apop_model_free(m);
}
static void f_draws(void){ /* apop_model_draws, in parallel */
    vdist *D=vdists+vi(0,NDIST-1); double p[3]={0}; D->par(p); apop_model *m=vmodel(D,p); int n=vflip(.1)?vi(1,20):sample_size(),given=vi(0,2),extra=given==2?vi(1,3):0; apop_opts.rng_seed=vi(1,1<<30); v_sigs(D->name); v_sigd(p[0]); v_sigd(n); v_sigd(given); v_desc("apop_model_draws of %d from %s(%.17g,%.17g), %s",n,D->name,p[0],D->np>1?p[1]:NAN,given?extra?"a wider set given":"a set given":"no set given"); apop_data *g=given?apop_data_alloc(0,n,1+extra):NULL; if (g) gsl_matrix_set_all(g->matrix,GUARD); apop_data *o=g?apop_model_draws(m,.draws=g):n==1000?apop_model_draws(m):apop_model_draws(m,n); if (V_CHECK(o&&!o->error&&o->matrix,"error","no draws")){ if (g) V_CHECK(o==g,"same","the set given is not the one returned"); V_EQ(o->matrix->size1,n,"shape","rows"); V_EQ(o->matrix->size2,1+extra,"shape","columns"); double *s=malloc(n*sizeof(double)); int bad=0,dup=0; for (int i=0;i<n;i++){ s[i]=apop_data_get(o,i,0); if (!in_support(D,s[i],p)&&!bad++) v_fail("support","draw %d is %g",i,s[i]); for (int j=1;j<=extra;j++) V_EQ(apop_data_get(o,i,j),GUARD,"guard","the other columns"); } void *a[2]={D,p}; if (!bad) ks(s,n,D->discrete,Fd,a,1,"distribution",D->name); if (!D->discrete&&n>10){ qsort(s,n,sizeof(double),cmpd); for (int i=1;i<n;i++) dup+=s[i]==s[i-1]; V_CHECK(dup<=n/200,"duplicates","%d of %d draws repeat another",dup,n); } free(s); } apop_data_free(o); apop_model_free(m);
}
static double Fbeta(double x,void *p){ return beta_c(x,p); }
static double Fbin(double x,void *v){ double *q=v; int N=q[0]; L s=0,p=q[1]; for (int i=0;i<=x&&i<=N;i++) s+=expl(lgammal(N+1)-lgammal(i+1)-lgammal(N-i+1)+i*logl(p)+(N-i)*log1pl(-p)); return s; }
static double Fnorm(double x,void *p){ return normal_c(x,p); }
static void f_multi(void){
    int which=vi(0,2),k=vi(which==2?1:2,4),n=sample_size(),seed=vi(1,1<<30); gsl_rng *r=apop_rng_alloc(seed); apop_model *m=apop_model_copy(which==0?apop_dirichlet:which==1?apop_multinomial:apop_multivariate_normal); apop_data *shape=apop_data_calloc(0,2,k); apop_prep(shape,m); double a[4],A=0,C[4][4],N=vi(1,20); v_sigd(which); v_sigd(seed);
    if (which==0) for (int j=0;j<k;j++){ A+=a[j]=.2+vpos(); apop_data_set(m->parameters,j,-1,a[j]); } else if (which==1){ for (int j=0;j<k;j++) A+=a[j]=vpos(); for (int j=0;j<k;j++){ a[j]/=A; if (j) apop_data_set(m->parameters,j,-1,a[j]); } apop_data_set(m->parameters,0,-1,N); } else { double B[4][4]; for (int i=0;i<k;i++) for (int j=0;j<k;j++) B[i][j]=vnorm(); for (int i=0;i<k;i++){ a[i]=vnorm()*3; apop_data_set(m->parameters,i,-1,a[i]); for (int j=0;j<k;j++){ double t=i==j?.1:0; for (int z=0;z<k;z++) t+=B[i][z]*B[j][z]; C[i][j]=t; } } for (int i=0;i<k;i++) for (int j=0;j<k;j++) apop_data_set(m->parameters,i,j,(C[i][j]+C[j][i])/2); }
    vh_sig_data(m->parameters); v_desc("%d draws from %s of %d dimensions",n,m->name,k); V_EQ(m->dsize,k,"dsize","dsize"); char *was=vmodel_dump(m); double *s[4],cell[6]; for (int j=0;j<4;j++) s[j]=malloc(n*sizeof(double)); int ok=1; for (int i=0;i<n&&ok;i++){ for (int j=0;j<6;j++) cell[j]=GUARD; V_EQ(apop_draw(cell+1,r,m),0,"status","draw"); ok=cell[0]==GUARD&&cell[k+1]==GUARD; V_CHECK(ok,"guard","%s wrote outside its %d elements",m->name,k); double sum=0; for (int j=0;j<k;j++){ s[j][i]=cell[j+1]; sum+=cell[j+1]; if (which<2&&!(cell[j+1]>=0)) { ok=0; v_fail("support","element %d is %g",j,cell[j+1]); } } if (which==0&&fabs(sum-1)>1e-9) { ok=0; v_fail("support","a Dirichlet draw sums to %g",sum); } if (which==1&&sum!=N) { ok=0; v_fail("support","a Multinomial draw sums to %g, not %g",sum,N); } }
    if (ok){ for (int j=0;j<k;j++){ char what[60]; snprintf(what,sizeof what,"%s, element %d",m->name,j); if (which==0){ double q[2]={a[j],A-a[j]}; ks(s[j],n,0,Fbeta,q,1,"marginal",what); } else if (which==1){ double q[2]={N,a[j]}; ks(s[j],n,1,Fbin,q,1,"marginal",what); } else { double q[2]={a[j],sqrt(C[j][j])}; ks(s[j],n,0,Fnorm,q,1,"marginal",what); } }
        for (int t=0;t<2;t++){ double c[4],*z=malloc(n*sizeof(double)); if (which==2){ double mu=0,v=0; for (int j=0;j<k;j++){ c[j]=vnorm(); mu+=c[j]*a[j]; } for (int i=0;i<k;i++) for (int j=0;j<k;j++) v+=c[i]*c[j]*C[i][j]; for (int i=0;i<n;i++){ z[i]=0; for (int j=0;j<k;j++) z[i]+=c[j]*s[j][i]; } double q[2]={mu,sqrt(v)}; if (v>1e-6) ks(z,n,0,Fnorm,q,1,"projection","a projection"); } else if (k>2){ int x=vi(0,k-2),y=vi(x+1,k-1); for (int i=0;i<n;i++) z[i]=s[x][i]+s[y][i]; if (which==0){ double q[2]={a[x]+a[y],A-a[x]-a[y]}; ks(z,n,0,Fbeta,q,1,"sum","sum of two elements"); } else { double q[2]={N,a[x]+a[y]}; ks(z,n,1,Fbin,q,1,"sum","sum of two elements"); } } free(z); } }
    char *now=vmodel_dump(m); V_STR(now,was,"model","the model changed"); free(now); free(was); for (int j=0;j<4;j++) free(s[j]); gsl_rng_free(r); apop_model_free(m); apop_data_free(shape);
}
static void kf_binomial(void){ double N=vi(3,20),p=vd(.1,.3); apop_model *m=apop_model_set_parameters(apop_binomial,N,p); gsl_rng *r=apop_rng_alloc(vi(1,1000)); double cell[3]={GUARD,GUARD,GUARD},sum=0; v_desc("apop_binomial, n=%g, p=%g",N,p); V_EQ(m->dsize,1,"dsize","dsize"); for (int i=0;i<2000;i++){ double c[3]={GUARD,GUARD,GUARD}; apop_draw(c,r,m); sum+=c[0]/2000; cell[1]=c[1]; } V_EQ(cell[1],GUARD,"guard","the cell after the single element of a draw"); V_CHECK(fabs(sum-N*p)<6*sqrt(N/4/2000),"successes","the mean of the draws is %g; %g successes are expected of n=%g, p=%g",sum,N*p,N,p); gsl_rng_free(r); apop_model_free(m); }
static void f_binomial(void){ int n=sample_size(); double N=vi(1,20),p=vd(.05,.95); apop_model *m=apop_model_set_parameters(apop_binomial,N,p); gsl_rng *r=apop_rng_alloc(vi(1,1<<30)); double *s=malloc(n*sizeof(double)); v_sigd(N); v_sigd(p); v_desc("two-element binomial draws n=%g p=%g",N,p); int ok=1; for (int i=0;i<n&&ok;i++){ double c[4]={GUARD,GUARD,GUARD,GUARD}; apop_draw(c+1,r,m); s[i]=c[2]; ok=c[0]==GUARD&&c[3]==GUARD&&c[1]+c[2]==N&&c[1]>=0&&c[2]>=0; V_CHECK(ok,"pair","draw (%g, %g) of n=%g",c[1],c[2],N); } double q[2]={N,p}; if (ok) ks(s,n,1,Fbin,q,1,"distribution","successes"); V_EQ(apop_data_get(m->parameters,0,-1),N,"model","n"); free(s); gsl_rng_free(r); apop_model_free(m); }
static void f_pmf(void){
    int k=vi(1,12),kind=vi(0,2),w=vi(0,2),n=sample_size(),cols=kind==0?0:vi(1,3); apop_data *d=kind==0?apop_data_alloc(k):kind==1?apop_data_alloc(0,k,cols):apop_data_alloc(k,k,cols); int width=cols+(kind!=1); for (int i=0;i<k;i++) for (int j=0;j<width;j++) apop_data_set(d,i,j-(kind!=1),i*10+j); L pr[12],W=0; if (w){ d->weights=gsl_vector_alloc(k); for (int i=0;i<k;i++){ double x=w==2?vpos():vi(i?0:1,5); gsl_vector_set(d->weights,i,x); pr[i]=x; W+=x; } } else for (int i=0;i<k;i++){ pr[i]=1; W+=1; } apop_model *m=apop_estimate(d,apop_pmf); int index=vflip(.25); if (index) Apop_settings_set(m,apop_pmf,draw_index,'y'); vh_sig_data(d); v_sigd(index); v_desc("PMF of %d rows, %d elements%s%s",k,width,w?", weighted":"",index?", draw_index":""); if (!index) V_EQ(m->dsize,width,"dsize","dsize"); gsl_rng *r=apop_rng_alloc(vi(1,1<<30)); int count[12]={0}; for (int i=0;i<n;i++){ double c[7]; for (int j=0;j<7;j++) c[j]=GUARD; V_EQ(apop_draw(c+1,r,m),0,"status","draw"); int row=index?c[1]:floor(c[1]/10),ok=row>=0&&row<k&&c[0]==GUARD&&c[(index?1:width)+1]==GUARD; if (!index) for (int j=0;j<width&&ok;j++) ok=c[j+1]==row*10+j; if (!V_CHECK(ok,"row","the draw (%g, %g) is no row of the data, or cells outside were written",c[1],c[2])) goto out; count[row]++; } for (int i=0;i<k;i++){ double q=pr[i]/W; V_CHECK(fabs(count[i]-n*q)<=6.3*sqrt(n*q*(1-q))+3*(q>0),"share","row %d was drawn %d times of %d; its probability is %g",i,count[i],n,q); } v_evn("draws_examined",n); out: gsl_rng_free(r); apop_model_free(m); apop_data_free(d);
}
static double Fmix(double x,void *v){ void **a=v; apop_data *b=a[0]; double sd=*(double*)a[1]; L s=0,W=0; for (size_t i=0;i<b->matrix->size1;i++){ double w=b->weights?gsl_vector_get(b->weights,i):1,q[2]={apop_data_get(b,i,0),sd}; s+=w*normal_c(x,q); W+=w; } return s/W; }
static void f_kernel(void){
    int k=vi(1,8),n=2000,w=vflip(.5); double sd=.2+vpos(); apop_data *b=apop_data_alloc(0,k,1); if (w) b->weights=gsl_vector_alloc(k); for (int i=0;i<k;i++){ apop_data_set(b,i,0,vnorm()*4); if (w) gsl_vector_set(b->weights,i,vpos()); } apop_model *kern=apop_model_set_parameters(apop_normal,0,sd),*m=apop_model_set_settings(apop_kernel_density,.base_data=b,.kernel=kern); gsl_rng *r=apop_rng_alloc(vi(1,1<<30)); vh_sig_data(b); v_desc("kernel density over %d points",k); double *s=malloc(n*sizeof(double)); int ok=1; for (int i=0;i<n&&ok;i++){ double c[3]={GUARD,GUARD,GUARD}; V_EQ(apop_draw(c+1,r,m),0,"status","draw"); ok=c[0]==GUARD&&c[2]==GUARD; V_CHECK(ok,"guard","cells outside were written"); s[i]=c[1]; } void *a[2]={b,&sd}; if (ok){ ks(s,n,0,Fmix,a,1,"distribution","kernel density"); serial(s,n,Fmix,a,"kernel density"); } free(s); gsl_rng_free(r); apop_model_free(m); apop_model_free(kern); apop_data_free(b);
}
static double Ftr(double x,void *v){ void **a=v; vdist *D=a[0]; double *b=a[2]; L lo=D->cdf(b[0],a[1]),hi=D->cdf(b[1],a[1]); return x<=b[0]?0:x>=b[1]?1:(D->cdf(x,a[1])-lo)/(hi-lo); }
static void f_arms(void){
    int k=vi(0,5),n=vflip(.1)?6000:1500; vdist *D=NULL; static char *nm[]={"normal","gamma","beta","exponential","t","uniform"}; for (int i=0;i<NDIST;i++) if (!strcmp(vdists[i].name,nm[k])) D=vdists+i; double p[3]={0},b[2]; D->par(p); switch(k){ case 0: p[0]=vnorm()*3; p[1]=.3+vpos()*.5; b[0]=p[0]-p[1]*vd(2,9); b[1]=p[0]+p[1]*vd(2,9); break; case 1: p[0]=1.1+vpos(); p[1]=vpos(); b[0]=0; b[1]=p[0]*p[1]*vd(2,8); break; case 2: p[0]=1.1+vpos(); p[1]=1.1+vpos(); b[0]=0; b[1]=1; break; case 3: b[0]=0; b[1]=p[0]*vd(2,8); break; case 4: p[2]=vi(3,20); b[0]=p[0]-p[1]*vd(2,6); b[1]=p[0]+p[1]*vd(2,6); break; default: b[0]=p[0]; b[1]=p[1]; } apop_model *m=vmodel(D,p); m->draw=NULL; int dflt=k==0&&vflip(.3),metro=k==4||vflip(.6),lin=!metro&&(k==3||k==5)/*rounding may make a straight line convex*/; if (dflt){ apop_model_free(m); p[0]=vnorm(); p[1]=.5+vd(0,1); m=vmodel(D,p); m->draw=NULL; b[0]=-10.1; b[1]=10.1; } else Apop_model_add_group(m,apop_arms,.model=m,.xl=b[0],.xr=b[1],.xinit=(double[]){b[0]+(b[1]-b[0])*.2,b[0]+(b[1]-b[0])*.5,b[0]+(b[1]-b[0])*.8},.do_metro=metro?'y':'n'); gsl_rng *r=apop_rng_alloc(vi(1,1<<30)); v_sigs(D->name); v_sigd(p[0]); v_sigd(b[0]); v_desc("adaptive rejection sampling of %s(%.17g,%.17g,%.17g) on [%.17g,%.17g]%s%s",D->name,p[0],p[1],p[2],b[0],b[1],metro?"":", no Metropolis step",dflt?", default settings":"");
    double *s=malloc(n*sizeof(double)); int ok=!lin||apop_settings_get_group(m,apop_arms),cp=vflip(.3); apop_model *copy=NULL; for (int i=0;i<n&&ok;i++){ if (cp&&i==n/4){ copy=apop_model_copy(m); double x; ok&=!apop_draw(&x,r,copy); } if (cp&&i==n/2) { if (vflip(.5)){ apop_model_free(copy); copy=NULL; } else { apop_model *t=m; m=copy; copy=NULL; apop_model_free(t); } } double c[3]={GUARD,GUARD,GUARD}; int e=apop_draw(c+1,r,m); if (e&&lin){ ok=0; v_ev("arms_refusals"); break; } V_EQ(e,0,"status","draw"); ok=c[0]==GUARD&&c[2]==GUARD&&c[1]>=b[0]&&c[1]<=b[1]; V_CHECK(ok,"support","draw %g, or cells outside were written",c[1]); s[i]=c[1]; } void *a[3]={D,p,b}; if (ok) ks(s,n,0,Ftr,a,k==4?2:1.1,"distribution",D->name); free(s); if (copy) apop_model_free(copy); gsl_rng_free(r); apop_model_free(m);
}
static void f_ols(void){
    int n=200,k=vi(1,3),N=1500; apop_data *d=apop_data_alloc(0,n,k+1); double sd=vpos(); for (int i=0;i<n;i++){ double y=vnorm()*sd+1; for (int j=1;j<=k;j++){ double x=vnorm()*2; apop_data_set(d,i,j,x); y+=x*(j-.5); } apop_data_set(d,i,0,y); } vh_sig_data(d); v_desc("OLS draws, %d regressors",k); apop_model *e=apop_estimate(d,apop_ols); apop_data *x=apop_data_alloc(0,n,k+1); gsl_matrix_memcpy(x->matrix,d->matrix); apop_model *in=apop_estimate(x,apop_pmf); apop_model_free(apop_settings_get(e,apop_lm,input_distribution)); Apop_settings_set(e,apop_lm,input_distribution,in); int dsize=e->dsize; V_EQ(dsize,k+2,"dsize","a draw has the outcome, the constant and %d regressors",k); gsl_rng *r=apop_rng_alloc(vi(1,1<<30)); L sse=0; for (int i=0;i<n;i++){ L t=apop_data_get(d,i,-1); for (int j=0;j<=k;j++) t-=apop_data_get(d,i,j)*apop_data_get(e->parameters,j,-1); sse+=t*t; } double *s=malloc(N*sizeof(double)); int ok=1; for (int i=0;i<N&&ok;i++){ double c[8]; for (int j=0;j<8;j++) c[j]=GUARD; V_EQ(apop_draw(c+1,r,e),0,"status","draw"); ok=c[0]==GUARD&&c[k+3]==GUARD&&c[2]==1; int found=0; for (int z=0;z<n&&!found;z++){ found=1; for (int j=0;j<=k;j++) if (apop_data_get(x,z,j)!=c[2+j]) found=0; } V_CHECK(ok&&found,"row","the regressors drawn are not from the input distribution, or cells outside were written"); L t=c[1]; for (int j=0;j<=k;j++) t-=c[2+j]*apop_data_get(e->parameters,j,-1); s[i]=t; ok&=found; } double q[2]={0,sqrtl(sse/n)}; if (ok) ks(s,N,0,Fnorm,q,1.3,"distribution","OLS errors"); free(s); gsl_rng_free(r); apop_model_free(e); apop_data_free(x); apop_data_free(d);
}
static void f_logit(void){
    int n=60,cats=vi(2,3),N=3000,own=vflip(.5); apop_data *d=apop_data_alloc(0,n,2); for (int i=0;i<n;i++){ apop_data_set(d,i,0,i<cats?i:vi(0,cats-1)); apop_data_set(d,i,1,vi(0,1)); } vh_sig_data(d); v_desc("logit draws, %d options, %s",cats,own?"given input distribution":"default input distribution"); apop_model *m=apop_model_copy(apop_logit); apop_prep(d,m); for (int j=0;j<2;j++) for (int c=0;c<cats-1;c++) apop_data_set(m->parameters,j,c,vnorm()); vh_sig_data(m->parameters); apop_data *x=NULL; if (own){ x=apop_data_alloc(0,n,2); gsl_matrix_memcpy(x->matrix,d->matrix); Apop_model_add_group(m,apop_lm,.input_distribution=apop_estimate(x,apop_pmf)); } V_EQ(m->dsize,3,"dsize","a draw has the outcome, the constant and one regressor"); gsl_rng *r=apop_rng_alloc(vi(1,1<<30)); int count[2][3]={{0}},tot[2]={0},ok=1,ones=0; for (int i=0;i<n;i++) ones+=apop_data_get(d,i,1)==1; for (int i=0;i<N&&ok;i++){ double c[6]; for (int j=0;j<6;j++) c[j]=GUARD; V_EQ(apop_draw(c+1,r,m),0,"status","draw"); ok=c[0]==GUARD&&c[4]==GUARD&&c[2]==1&&(c[3]==0||c[3]==1)&&c[1]>=0&&c[1]<cats&&c[1]==floor(c[1]); V_CHECK(ok,"row","the draw is (%g, %g, %g)",c[1],c[2],c[3]); if (ok){ count[(int)c[3]][(int)c[1]]++; tot[(int)c[3]]++; } }
    if (ok){ double q1=ones/(double)n; V_CHECK(fabs(tot[1]-N*q1)<=6.3*sqrt(N*q1*(1-q1))+3,"input","the regressor was one %d times in %d, its probability is %g",tot[1],N,q1); for (int v=0;v<2;v++){ double o[3]={1,0,0},t=1; for (int c=1;c<cats;c++) t+=o[c]=exp(apop_data_get(m->parameters,0,c-1)+v*apop_data_get(m->parameters,1,c-1)); for (int c=0;c<cats;c++){ double q=o[c]/t; V_CHECK(fabs(count[v][c]-tot[v]*q)<=6.3*sqrt(tot[v]*q*(1-q))+3,"share","with x=%d, option %d was drawn %d times of %d; its probability is %g",v,c,count[v][c],tot[v],q); } } v_evn("draws_examined",N); } gsl_rng_free(r); apop_model_free(m); apop_data_free(d); if (x) apop_data_free(x);
}
/* a model whose draws now and then fail, after writing some of the row */
static double fail_p; static int fail_how; static int fail_draw(double *out,gsl_rng *r,apop_model *m){ double u=gsl_rng_uniform(r); int bad=gsl_rng_uniform(r)<fail_p; for (int j=0;j<m->dsize;j++){ if (bad&&(fail_how==0||(fail_how==1&&j))) break; out[j]=u+j; } return bad; }
static void f_failing(void){ int n=vi(1,60),k=vi(1,4),given=vflip(.6),extra=given?vi(0,2):0; fail_p=vpick(((double[]){0,.03,.2,1})); fail_how=vi(0,2); apop_model m={"fails now and then",.dsize=k,.draw=fail_draw}; apop_opts.rng_seed=vi(1,1<<30); v_sigd(n*100+k); v_sigd(fail_p); v_sigd(apop_opts.rng_seed); v_desc("%d draws of %d numbers, of which %g fail, %s",n,k,fail_p,given?"a set given":"no set given"); apop_data *d=given?apop_data_alloc(0,n,k+extra):NULL; if (d){ for (int i=0;i<n;i++) for (int j=0;j<k+extra;j++) apop_data_set(d,i,j,17); }
    int v=apop_opts.verbose; apop_opts.verbose=-1; apop_data *o=apop_model_draws(&m,n,d); apop_opts.verbose=v; if (!V_CHECK(o&&(!d||o==d)&&o->matrix&&(int)o->matrix->size1==n&&(int)o->matrix->size2==k+extra,"shape","the draws' shape")) return; int bad=0; for (int i=0;i<n;i++){ int nans=0; for (int j=0;j<k;j++) nans+=isnan(apop_data_get(o,i,j)); if (nans==k){ bad++; continue; } if (!V_CHECK(!nans,"failed-row","row %d is partly NaN",i)) continue; double u=apop_data_get(o,i,0); V_CHECK(u>=0&&u<1,"failed-row","row %d is %g, which was not drawn",i,u); for (int j=1;j<k;j++) V_CHECK(fabs(apop_data_get(o,i,j)-u-j)<1e-12,"failed-row","element %d of row %d is %g, beside %g",j,i,apop_data_get(o,i,j),u); for (int j=k;j<k+extra;j++) V_EQ(apop_data_get(o,i,j),17,"extra","a column beyond the draws"); }
    V_EQ((int)o->error,bad?'d':0,"failed-error","error after %d failed draws",bad); if (fail_p==0) V_EQ(bad,0,"failed-row","failed rows"); if (fail_p==1) V_EQ(bad,n,"failed-row","failed rows"); v_evn("failed_draws",bad); v_evn("good_draws",n-bad); apop_data_free(o); }
/* models with only a likelihood: the chain belongs to the model drawn from, not to the model it was copied from */
static long double far_ll(apop_data *d,apop_model *m){ long double o=0; for (size_t i=0;i<d->matrix->size1;i++) for (size_t j=0;j<d->matrix->size2;j++) o-=gsl_pow_2(gsl_matrix_get(d->matrix,i,j)-gsl_vector_get(m->parameters->vector,j))/2; return o; }
static void far_check(apop_model *m,gsl_rng *r,const char *key){
    int n=m->dsize; double x[4],s[4]={0}; int N=700; for (int i=-200;i<N;i++){ int e=apop_draw(x,r,m); V_EQ(e,0,key,"draw status"); if (i>=0) for (int j=0;j<n;j++) s[j]+=x[j]; }
    v_ev("chain"); for (int j=0;j<n;j++){ double mu=apop_data_get(m->parameters,j,-1); V_CHECK(fabs(s[j]/N-mu)<1.5,key,"coordinate %d: mean %g of %d MCMC draws from a N(%g,1)",j,s[j]/N,N,mu); }
}
static void f_mcmc(void){
    int n=vi(2,3); apop_model *m=apop_model_copy(&(apop_model){"far",.dsize=n,.vsize=n,.log_likelihood=far_ll}); m->parameters=apop_data_alloc(n); for (int j=0;j<n;j++) apop_data_set(m->parameters,j,-1,vd(-3,5));
    gsl_rng *r=apop_rng_alloc(vi(1,100000)); vh_sig_data(m->parameters); v_desc("dim %d",n); far_check(m,r,"mcmc");
    apop_model *c=apop_model_copy(m); int sgn=vflip(.5)?1:-1; for (int j=0;j<n;j++) *gsl_vector_ptr(c->parameters->vector,j)+=sgn*vd(4,6); bool first=vflip(.5); if (first){ apop_data_free(m->parameters); apop_model_free(m); }
    far_check(c,r,"mcmc-copy"); if (vflip(.5)){ apop_data *p=apop_data_copy(c->parameters); apop_data_free(c->parameters); c->parameters=p; for (int j=0;j<n;j++) *gsl_vector_ptr(p->vector,j)+=sgn*4; far_check(c,r,"mcmc-newparams"); }
    if (!first){ far_check(m,r,"mcmc-original"); apop_model_free(m); } apop_model_free(c); gsl_rng_free(r);
}
vh_family vh_families[]={{"failing",f_failing,300,10000},{"uni",f_uni,700,20000},{"draws",f_draws,200,5000,4},{"multi",f_multi,250,8000},{"kf_binomial",kf_binomial,1,1},{"binomial",f_binomial,80,2000},{"pmf",f_pmf,300,8000},{"kernel",f_kernel,40,1000},{"arms",f_arms,200,6000},{"mcmc",f_mcmc,60,1500},{"ols",f_ols,40,1000},{"logit",f_logit,40,1000},{NULL}};
