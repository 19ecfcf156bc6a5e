/* The library's distributions, each beside independent formulas in long double. Used by C26..C29. */
#ifndef VMODELS_H
#define VMODELS_H
#include <gsl/gsl_sf_zeta.h>
typedef long double L;
typedef struct {
    const char *name; apop_model **m; int np; bool discrete, score, hascdf;
    void (*par)(double *p);                  /* random parameters */
    double (*x)(const double *p);            /* a random point in the support */
    double (*out)(const double *p);          /* a point outside the support, or NaN if there is none */
    L (*lpdf)(double x, const L *p);
    L (*cdf)(double x, const double *p);
} vdist;
static double vpos(void){ return exp(vnorm()*.8); }
#define LLOG2PI 1.837877066409345483560659472811235L
static double none(const double *p){ (void)p; return NAN; }
static double neg(const double *p){ (void)p; return -vpos(); }
/* normal */
static void normal_par(double *p){ p[0]=vnorm()*(vflip(.3)?100:2); p[1]=vpos()*(vflip(.2)?50:1); }
static double normal_x(const double *p){ return p[0]+p[1]*vnorm()*2; }
static L normal_l(double x,const L *p){ L z=(x-p[0])/p[1]; return -z*z/2-LLOG2PI/2-logl(p[1]); }
static L normal_c(double x,const double *p){ return erfcl(-((L)x-p[0])/p[1]/sqrtl(2))/2; }
/* lognormal */
static void logn_par(double *p){ p[0]=vnorm(); p[1]=.1+vpos()*.6; }
static double logn_x(const double *p){ return exp(p[0]+p[1]*vnorm()*2); }
static double logn_out(const double *p){ (void)p; return vflip(.3)?0:-vpos(); }
static L logn_l(double x,const L *p){ L z=(logl(x)-p[0])/p[1]; return -z*z/2-LLOG2PI/2-logl(p[1])-logl(x); }
static L logn_c(double x,const double *p){ return x<=0?0:erfcl(-(logl(x)-p[0])/p[1]/sqrtl(2))/2; }
/* exponential */
static void expo_par(double *p){ p[0]=vpos()*(vflip(.2)?100:1); }
static double expo_x(const double *p){ return -log(vd(1e-9,1))*p[0]; }
static L expo_l(double x,const L *p){ return -x/p[0]-logl(p[0]); }
static L expo_c(double x,const double *p){ return x<=0?0:-expm1l(-(L)x/p[0]); }
/* gamma */
static void gamma_par(double *p){ p[0]=vpos()*(vflip(.3)?5:1); p[1]=vpos(); }
static double gamma_x(const double *p){ return p[0]*p[1]*vpos()+1e-6; }
static L gamma_l(double x,const L *p){ return (p[0]-1)*logl(x)-x/p[1]-lgammal(p[0])-p[0]*logl(p[1]); }
static L gamma_c(double x,const double *p){ if (x<=0) return 0; L a=p[0],t=(L)x/p[1]; L s=0,term=1/a; int k=0; if (t>a+60+10*sqrtl(a)) return 1; do { s+=term; k++; term*=t/(a+k); } while (term>1e-22L*s&&k<100000); return expl(-t+a*logl(t)-lgammal(a))*s; }
/* beta */
static void beta_par(double *p){ p[0]=.2+vpos()*(vflip(.3)?5:1); p[1]=.2+vpos(); }
static double beta_x(const double *p){ (void)p; return vd(.001,.999); }
static double beta_out(const double *p){ (void)p; return vflip(.5)?-vpos():1+vpos(); }
static L beta_l(double x,const L *p){ return (p[0]-1)*logl(x)+(p[1]-1)*log1pl(-(L)x)+lgammal(p[0]+p[1])-lgammal(p[0])-lgammal(p[1]); }
static L beta_c(double x,const double *p){ if (x<=0) return 0; if (x>=1) return 1; /* power series of the incomplete beta, at the end where it is quick */
    L a=p[0],b=p[1],t=x; int swap=t>a/(a+b); if (swap){ L c=a; a=b; b=c; t=1-t; } L s=0,term=1; for (int n=0;n<100000;n++){ s+=term/(a+n); term*=(n+1-b)/(n+1)*t; if (fabsl(term)<1e-22L*fabsl(s)) break; } L r=expl(a*logl(t)+lgammal(a+b)-lgammal(a)-lgammal(b))*s; return swap?1-r:r; }
/* uniform */
static void unif_par(double *p){ p[0]=vnorm()*3; p[1]=p[0]+vpos()*(vflip(.2)?100:1); }
static double unif_x(const double *p){ return vflip(.1)?p[vi(0,1)]:vd(p[0],p[1]); }
static double unif_out(const double *p){ return vflip(.5)?p[0]-vpos():p[1]+vpos(); }
static L unif_l(double x,const L *p){ (void)x; return -logl(p[1]-p[0]); }
static L unif_c(double x,const double *p){ return x<=p[0]?0:x>=p[1]?1:((L)x-p[0])/((L)p[1]-p[0]); }
/* t */
static void t_par(double *p){ p[0]=vnorm()*2; p[1]=vpos(); p[2]=vflip(.5)?vi(1,30):.9+vpos()*5; }
static double t_x(const double *p){ return p[0]+p[1]*vnorm()*3; }
static L t_l(double x,const L *p){ L z=(x-p[0])/p[1],n=p[2]; return lgammal((n+1)/2)-lgammal(n/2)-logl(n*M_PIl)/2-(n+1)/2*log1pl(z*z/n)-logl(p[1]); }
static L t_c(double x,const double *p){ double q[2]={p[2]/2,.5}; L z=((L)x-p[0])/p[1]; if (z==0) return .5; L i=beta_c((double)(p[2]/(p[2]+z*z)),q); return z>0?1-i/2:i/2; }
/* bernoulli */
static void bern_par(double *p){ p[0]=vd(.02,.98); }
static double bern_x(const double *p){ return vd(0,1)<p[0]; }
static L bern_l(double x,const L *p){ return x?logl(p[0]):logl(1-p[0]); }
static L bern_c(double x,const double *p){ return x<0?0:x<1?1-(L)p[0]:1; }
/* poisson */
static void pois_par(double *p){ p[0]=vpos()*(vflip(.3)?20:2); }
static double pois_x(const double *p){ return floor(p[0]*vpos()*1.3); }
static double pois_out(const double *p){ (void)p; return vflip(.5)?-vi(1,5):vi(0,9)+vd(.01,.99); }
static L pois_l(double x,const L *p){ return x*logl(p[0])-p[0]-lgammal(x+1); }
static L pois_c(double x,const double *p){ if (x<0) return 0; L q=p[0],s=0,top=q+60*sqrtl(q)+200; if (x>top) return 1; for (int k=0;k<=x;k++) s+=expl(pois_l(k,&q)); return s; }
/* yule */
static void yule_par(double *p){ p[0]=(vflip(.2)?1.06:1.3)+vpos()*2; }
static double heavy_x(const double *p){ (void)p; return vi(1,vflip(.2)?1000:8); }
static double heavy_out(const double *p){ (void)p; return -vi(0,4); }
static L yule_l(double x,const L *p){ return logl(p[0]-1)+lgammal(p[0])+lgammal(x)-lgammal(x+p[0]); }
static L yule_c(double x,const double *p){ if (x<1) return 0; L b=p[0],k=floorl(x); if (k>1e7L) return 1-(b-1)*expl(lgammal(b-1)-(b-1)*logl(k)); return 1-expl(logl(b-1)+lgammal(k+1)+lgammal(b-1)-lgammal(k+b)); }
/* zipf */
static void zipf_par(double *p){ p[0]=(vflip(.2)?1.06:1.3)+vpos()*1.5; }
static L lzeta(L a){ L s=0; int N=200; for (int k=1;k<N;k++) s+=powl(k,-a); L n=N; s+=powl(n,1-a)/(a-1)+powl(n,-a)/2+a*powl(n,-a-1)/12-a*(a+1)*(a+2)*powl(n,-a-3)/720; return s; }
static L zipf_l(double x,const L *p){ return -p[0]*logl(x)-logl(lzeta(p[0])); }
static L zipf_c(double x,const double *p){ if (x<1) return 0; L s=0; if (x>20000) { L n=floorl(x)+1; return 1-(powl(n,1-(L)p[0])/(p[0]-1)+powl(n,-(L)p[0])/2)/lzeta(p[0]); } for (int k=1;k<=x;k++) s+=powl(k,-(L)p[0]); return s/lzeta(p[0]); }

static vdist vdists[]={
 {"normal",&apop_normal,2,0,1,1,normal_par,normal_x,none,normal_l,normal_c},
 {"lognormal",&apop_lognormal,2,0,1,1,logn_par,logn_x,logn_out,logn_l,logn_c},
 {"exponential",&apop_exponential,1,0,1,1,expo_par,expo_x,neg,expo_l,expo_c},
 {"gamma",&apop_gamma,2,0,1,1,gamma_par,gamma_x,neg,gamma_l,gamma_c},
 {"beta",&apop_beta,2,0,1,1,beta_par,beta_x,beta_out,beta_l,beta_c},
 {"uniform",&apop_uniform,2,0,0,1,unif_par,unif_x,unif_out,unif_l,unif_c},
 {"t",&apop_t_distribution,3,0,0,1,t_par,t_x,none,t_l,t_c},
 {"bernoulli",&apop_bernoulli,1,1,0,1,bern_par,bern_x,none,bern_l,bern_c},
 {"poisson",&apop_poisson,1,1,1,0,pois_par,pois_x,pois_out,pois_l,pois_c},
 {"yule",&apop_yule,1,1,1,0,yule_par,heavy_x,heavy_out,yule_l,yule_c},
 {"zipf",&apop_zipf,1,1,0,0,zipf_par,heavy_x,heavy_out,zipf_l,zipf_c},
};
#define NDIST ((int)(sizeof(vdists)/sizeof(*vdists)))
static apop_model *vmodel(vdist *d,const double *p){ apop_model *m; switch(d->np){ case 1: m=apop_model_set_parameters(*d->m,p[0]); break; case 2: m=apop_model_set_parameters(*d->m,p[0],p[1]); break; default: m=apop_model_set_parameters(*d->m,p[0],p[1],p[2]); } return m; }
/* a set of scalars: in the vector, in the matrix, or in both */
static apop_data *vscalars(vdist *d,const double *p,int maxn){ int kind=vi(0,3),r=vi(1,maxn),c=vi(1,3); apop_data *o=kind==0?apop_data_alloc(r):kind==1?apop_data_alloc(0,r,1):kind==2?apop_data_alloc(0,r,c):apop_data_alloc(r,r,c); if (o->vector) for (int i=0;i<r;i++) gsl_vector_set(o->vector,i,d->x(p)); if (o->matrix) for (size_t i=0;i<o->matrix->size1;i++) for (size_t j=0;j<o->matrix->size2;j++) gsl_matrix_set(o->matrix,i,j,d->x(p)); return o; }
static int veach(apop_data *d,double **out){ int n=0; if (d->vector) for (size_t i=0;i<d->vector->size;i++) out[n++]=gsl_vector_ptr(d->vector,i); if (d->matrix) for (size_t i=0;i<d->matrix->size1;i++) for (size_t j=0;j<d->matrix->size2;j++) out[n++]=gsl_matrix_ptr(d->matrix,i,j); return n; }
static L vll(vdist *d,const double *p,apop_data *data){ L q[3]={0}; for (int i=0;i<d->np;i++) q[i]=p[i]; double *e[400]; int n=veach(data,e); L s=0; for (int i=0;i<n;i++) s+=d->lpdf(*e[i],q); return s; }
static L vllL(vdist *d,const L *q,apop_data *data){ double *e[400]; int n=veach(data,e); L s=0; for (int i=0;i<n;i++) s+=d->lpdf(*e[i],q); return s; }
/* The state of a model that evaluation must leave alone. */
static char *vmodel_dump(apop_model *m){ char *a=vh_dump(m->parameters,true),*b=m->info?vh_dump(m->info,true):strdup("none"),*o; int n=0; if (m->settings) while (m->settings[n].name[0]) n++; if (asprintf(&o,"%s|%s|%d %d %d %d|%p|%d|%d",a,b,m->vsize,m->msize1,m->msize2,m->dsize,(void*)m->data,m->error,n)<0) abort(); free(a); free(b); return o; }
#endif
