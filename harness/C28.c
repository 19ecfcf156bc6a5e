#include "vh.h"
#include "vmodels.h"
#include <gsl/gsl_cdf.h>
#include <gsl/gsl_randist.h>
const char *vh_rule = "Every distribution with random interior parameters and data in the vector, matrix or both, OLS with and without weights, binary and multi-option Probit and Logit, Dirichlet and multivariate Normal, and models the harness writes with vector and matrix parameters: apop_score, apop_numerical_gradient, apop_model_hessian and apop_model_numerical_covariance against central differences in long double of the harness's own log density; data, parameters and model are unchanged. Distinct by model, parameters and data.";
/* d ll/d p_k by a five-point rule in long double */
typedef L (*fnL)(const L *p,void *env);
static L diff1(fnL f,const L *p,int np,int k,void *env){ L q[32],h=1e-4L*(fabsl(p[k])+1e-3L),v[4]; memcpy(q,p,np*sizeof(L)); int s[]={-2,-1,1,2}; for (int i=0;i<4;i++){ q[k]=p[k]+s[i]*h; v[i]=f(q,env); } return (v[0]-8*v[1]+8*v[2]-v[3])/(12*h); }
static L diff2(fnL f,const L *p,int np,int a,int b,void *env){ L q[32],ha=1e-3L*(fabsl(p[a])+1e-2L),v[4]; memcpy(q,p,np*sizeof(L)); int s[]={-2,-1,1,2}; for (int i=0;i<4;i++){ q[a]=p[a]+s[i]*ha; v[i]=diff1(f,q,np,b,env); } return (v[0]-8*v[1]+8*v[2]-v[3])/(12*ha); }
static void check_vec(gsl_vector *g,fnL f,const L *p,int np,void *env,double rel,double mag,const char *key,const char *what){ for (int k=0;k<np;k++){ L e=diff1(f,p,np,k,env); double tol=rel*(fabsl(e)+mag); V_CHECK(fabsl(gsl_vector_get(g,k)-e)<=tol,key,"%s: element %d is %.12g; the derivative of the log density is %.12Lg (tolerance %g)",what,k,gsl_vector_get(g,k),e,tol); } }
typedef struct { vdist *D; apop_data *d; } uenv;
static L uni_ll(const L *p,void *v){ uenv *e=v; return vllL(e->D,p,e->d); }
static void f_uni(void){
    vdist *D; do D=vdists+vi(0,NDIST-1); while (D->par==unif_par); double p[3]={0}; D->par(p); apop_model *m=vmodel(D,p); apop_data *d=vscalars(D,p,12),*orig=apop_data_copy(d); L q[3]={p[0],p[1],p[2]}; uenv env={D,d}; double *e[400]; int n=veach(d,e); v_sigs(D->name); vh_sig_data(d); v_sigd(p[0]); v_desc("score of %s(%.17g,%.17g,%.17g) at %d data points",D->name,p[0],D->np>1?p[1]:NAN,D->np>2?p[2]:NAN,n);
    if (vflip(.7)){ apop_model *prepped=apop_model_copy(*D->m); apop_prep(d,prepped); apop_model_free(prepped); }
    int analytic=apop_score_vtable_get(m)!=NULL; v_ev(analytic?"closed_form_scores":"numeric_scores"); char *was=vmodel_dump(m); gsl_vector *g=gsl_vector_alloc(D->np); gsl_vector_set_all(g,NAN); double mag=0; /* the size of the terms that cancel in the score */ for (int i=0;i<n;i++){ apop_data one={0}; gsl_vector_view vv=gsl_vector_view_array(e[i],1); one.vector=&vv.vector; uenv o={D,&one}; for (int k=0;k<D->np;k++) mag+=fabsl(diff1(uni_ll,q,D->np,k,&o)); }
    double minp=1e9; for (int k=0;k<D->np;k++) minp=fmin(minp,fabs(p[k])); double numtol=1e-5; bool smooth=minp>.06&&(D->par!=bern_par||p[0]<.94)&&(D->par!=yule_par&&D->par!=zipf_par||p[0]>1.2); /* far enough from the edge of the domain for a step of 1e-3 */
    apop_score(d,g,m); if (analytic||smooth) check_vec(g,uni_ll,q,D->np,&env,analytic?1e-8:numtol,mag+n*1e-2,analytic?"score":"numeric-score",D->name);
    if (smooth&&vflip(.5)){ apop_model_free(m); m=vmodel(D,p); free(was); was=vmodel_dump(m); gsl_vector *ng=vflip(.5)?apop_numerical_gradient(d,m):apop_numerical_gradient(d,m,.delta=vd(1e-4,2e-3)); V_CHECK(ng&&ng->size==D->np,"size","no numeric gradient"); if (ng){ check_vec(ng,uni_ll,q,D->np,&env,numtol,mag+n*1e-2,"numeric",D->name); gsl_vector_free(ng); } }
    char *now=vmodel_dump(m); V_STR(now,was,"model","the model changed"); vh_same(d,orig,true,"data","the data"); free(now); free(was); gsl_vector_free(g); apop_model_free(m); apop_data_free(d); apop_data_free(orig);
}
static void f_hessian(void){
    vdist *D; do D=vdists+vi(0,NDIST-1); while (D->par==unif_par||D->par==t_par); double p[3]={0}; do D->par(p); while (p[0]<.15&&D->par!=normal_par&&D->par!=logn_par); if (D->np>1) p[1]=.2+fabs(p[1]); if (D->par==bern_par) p[0]=vd(.2,.8); if (D->par==yule_par||D->par==zipf_par) p[0]+=.2; apop_model *m=vmodel(D,p); apop_data *d=vscalars(D,p,12); double *e[400]; int n=veach(d,e); L q[3]={p[0],p[1],p[2]}; uenv env={D,d}; v_sigs(D->name); vh_sig_data(d); v_sigd(p[0]); v_desc("Hessian of %s(%.17g,%.17g) at %d data points",D->name,p[0],D->np>1?p[1]:NAN,n); if (vflip(.7)){ apop_model *prepped=apop_model_copy(*D->m); apop_prep(d,prepped); apop_model_free(prepped); } char *was=vmodel_dump(m); apop_data *h=apop_model_hessian(d,m); L H[2][2],scale=0; if (V_CHECK(h&&h->matrix&&h->matrix->size1==D->np&&h->matrix->size2==D->np,"shape","the Hessian is missing or not %d square",D->np)){ for (int a=0;a<D->np;a++) for (int b=0;b<D->np;b++){ H[a][b]=diff2(uni_ll,q,D->np,a,b,&env); for (int i=0;i<n;i++){ apop_data one={0}; gsl_vector_view vv=gsl_vector_view_array(e[i],1); one.vector=&vv.vector; uenv o={D,&one}; scale+=fabsl(diff2(uni_ll,q,D->np,a,b,&o)); } } for (int a=0;a<D->np;a++) for (int b=0;b<D->np;b++) V_CHECK(fabsl(apop_data_get(h,a,b)-H[a][b])<=3e-3*(scale+n*.01),"hessian","%s: element (%d,%d) is %g; the second derivative is %Lg",D->name,a,b,apop_data_get(h,a,b),H[a][b]); }
    char *now=vmodel_dump(m); V_STR(now,was,"model","the model changed by the Hessian"); free(now); free(was); if (h) apop_data_free(h);
    L det=D->np==1?H[0][0]:H[0][0]*H[1][1]-H[0][1]*H[1][0]; if (scale>1e-6L&&fabsl(det)>.05L*(D->np==1?scale:scale*scale)){ apop_data *c=apop_model_numerical_covariance(d,m); if (V_CHECK(c&&c->matrix,"cov","no covariance")){ V_CHECK(apop_data_get_page(m->parameters,"<Covariance>")==c,"page","the covariance is not on the parameters' page"); for (int a=0;a<D->np;a++) for (int b=0;b<D->np;b++){ L want=D->np==1?-1/det:(a==b?-H[1-a][1-b]:H[a][b])/det; V_CHECK(fabsl(apop_data_get(c,a,b)-want)<=.15*(fabsl(want)+1/scale),"covariance","%s: element (%d,%d) is %g; the inverse of the negative Hessian has %Lg",D->name,a,b,apop_data_get(c,a,b),want); } } v_ev("covariances"); }
    apop_model_free(m); apop_data_free(d);
}
/* OLS */
typedef struct { apop_data *d; L s2; int k,opts; } renv;
static L ols_ll(const L *b,void *v){ renv *e=v; L s=0; for (size_t i=0;i<e->d->matrix->size1;i++){ L t=-apop_data_get(e->d,i,-1); for (int j=0;j<e->k;j++) t+=b[j]*apop_data_get(e->d,i,j); s-=t*t*(e->d->weights?gsl_vector_get(e->d->weights,i):1); } return s/2/e->s2; }
static void f_ols(void){
    int n=vi(6,25),k=vi(1,3),w=vflip(.4); apop_data *d=apop_data_alloc(0,n,k+1); for (int i=0;i<n;i++){ double y=vnorm(); for (int j=1;j<=k;j++){ double x=vnorm()*2; apop_data_set(d,i,j,x); y+=x; } apop_data_set(d,i,0,y); } if (w){ d->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(d->weights,i,vpos()); } vh_sig_data(d); v_desc("OLS score, %d rows, %d regressors%s",n,k,w?", weighted":""); apop_data *raw=apop_data_copy(d),*raw0=apop_data_copy(d); apop_model *e=apop_estimate(d,apop_ols); apop_data *other=apop_data_copy(d),*orig=apop_data_copy(d); renv env={d,apop_data_get(apop_data_get_page(e->parameters,"<Error variance>")),k+1}; L b[5]; int moved=vflip(.8); for (int j=0;j<=k;j++){ if (moved) apop_data_set(e->parameters,j,-1,apop_data_get(e->parameters,j,-1)+vnorm()*.3); b[j]=apop_data_get(e->parameters,j,-1); } double mag=0; for (int i=0;i<n;i++) for (int j=0;j<=k;j++) mag+=fabs(apop_data_get(d,i,j))/env.s2; gsl_vector *g=gsl_vector_alloc(k+1); char *was=vmodel_dump(e); apop_score(other,g,e); check_vec(g,ols_ll,b,k+1,&env,1e-9,mag,"ols","OLS"); char *now=vmodel_dump(e); V_STR(now,was,"model","the model changed"); vh_same(other,orig,true,"data","the data"); apop_score(raw,g,e); check_vec(g,ols_ll,b,k+1,&env,1e-9,mag,"ols-raw","OLS, data not yet shuffled"); V_CLOSE(apop_log_likelihood(raw,e),apop_log_likelihood(other,e),1e-9,1e-9*(1+mag),"ols-raw-ll","log likelihood of data not yet shuffled"); if (raw->vector==NULL) vh_same(raw,raw0,true,"data","the data, not yet shuffled"); apop_data_free(raw); apop_data_free(raw0); 
    gsl_vector *ng=apop_numerical_gradient(other,e); check_vec(ng,ols_ll,b,k+1,&env,1e-5,mag,"ols-numeric","OLS"); gsl_vector_free(ng); free(was); free(now); gsl_vector_free(g); apop_model_free(e); apop_data_free(d); apop_data_free(other); apop_data_free(orig);
}
static L lPhi(L u){ if (u<=-50){ L w=1/(u*u); return -u*u/2-logl(2*M_PIl)/2-logl(-u)+log1pl(-w+3*w*w-15*w*w*w+105*w*w*w*w); } L x=u; return logl(erfcl(-x/sqrtl(2))/2); }
static L probit_ll(const L *b,void *v){ renv *e=v; L s=0; for (size_t i=0;i<e->d->matrix->size1;i++) for (int o=0;o<e->opts-1;o++){ L t=0; for (int j=0;j<e->k;j++) t+=b[j*(e->opts-1)+o]*apop_data_get(e->d,i,j); s+=apop_data_get(e->d,i,-1)==o+1?lPhi(t):lPhi(-t); } return s; }
static L logit_ll(const L *b,void *v){ renv *e=v; L s=0; for (size_t i=0;i<e->d->matrix->size1;i++){ L tot=1,own=0; for (int o=0;o<e->opts-1;o++){ L t=0; for (int j=0;j<e->k;j++) t+=b[j*(e->opts-1)+o]*apop_data_get(e->d,i,j); tot+=expl(t); if (apop_data_get(e->d,i,-1)==o+1) own=t; } s+=own-logl(tot); } return s; }
static void f_choice(void){
    int logit=vflip(.5),n=vi(6,25),k=vi(1,3),opts=vi(2,4); apop_data *d=apop_data_alloc(0,n,k+1); for (int i=0;i<n;i++){ apop_data_set(d,i,0,i<opts?i:vi(0,opts-1)); for (int j=1;j<=k;j++) apop_data_set(d,i,j,vnorm()); } vh_sig_data(d); v_desc("%s score, %d rows, %d regressors, %d options",logit?"logit":"probit",n,k,opts); apop_model *m=apop_model_copy(logit?apop_logit:apop_probit); apop_prep(d,m); double scale=vflip(.3)?logit?3:8:.6; L b[16]; for (int j=0;j<=k;j++) for (int o=0;o<opts-1;o++){ double x=vnorm()*scale; apop_data_set(m->parameters,j,o,x); b[j*(opts-1)+o]=x; } vh_sig_data(m->parameters); renv env={d,1,k+1,opts}; apop_data *orig=apop_data_copy(d); int np=(k+1)*(opts-1); gsl_vector *g=gsl_vector_alloc(np); double mag=0; for (int i=0;i<n;i++) for (int j=0;j<=k;j++) mag+=fabs(apop_data_get(d,i,j)); char *was=vmodel_dump(m); apop_score(d,g,m); check_vec(g,logit?logit_ll:probit_ll,b,np,&env,!logit&&opts==2?1e-8:1e-5,mag,logit?"logit":"probit",m->name); char *now=vmodel_dump(m); V_STR(now,was,"model","the model changed"); vh_same(d,orig,true,"data","the data"); free(was); free(now); gsl_vector_free(g); apop_model_free(m); apop_data_free(d); apop_data_free(orig);
}
static L dir_ll(const L *a,void *v){ apop_data *d=v; L s=0; for (size_t i=0;i<d->matrix->size1;i++){ L A=0; for (size_t j=0;j<d->matrix->size2;j++){ A+=a[j]; s+=(a[j]-1)*logl(apop_data_get(d,i,j))-lgammal(a[j]); } s+=lgammal(A); } return s; }
static L mvn_ll(const L *p,void *v){ apop_data *d=v; int k=d->matrix->size2; L s=0; for (size_t i=0;i<d->matrix->size1;i++){ L x=apop_data_get(d,i,0)-p[0]; if (k==1){ s+=-x*x/p[1]/2-logl(p[1])/2; continue; } L y=apop_data_get(d,i,1)-p[1],det=p[2]*p[5]-p[3]*p[4]; s+=-(x*x*p[5]-x*y*(p[3]+p[4])+y*y*p[2])/det/2-logl(det)/2; } return s; }
static void f_multi(void){
    int dir=vflip(.5),n=vi(1,10),k=dir?vi(2,4):vi(1,2); apop_data *d=apop_data_alloc(0,n,k); for (int i=0;i<n;i++){ double t=0; for (int j=0;j<k;j++){ double x=dir?vpos():vnorm()*2; apop_data_set(d,i,j,x); t+=x; } if (dir) for (int j=0;j<k;j++) apop_data_set(d,i,j,apop_data_get(d,i,j)/t); } apop_model *m=apop_model_copy(dir?apop_dirichlet:apop_multivariate_normal); apop_prep(d,m); L p[8]; int np=0; for (int j=0;j<k;j++){ double x=dir?.2+vpos():vnorm(); apop_data_set(m->parameters,j,-1,x); p[np++]=x; } if (!dir){ double a=.5+vpos(),c=.5+vpos(),b=k==1?0:vd(-.6,.6)*sqrt(a*c); apop_data_set(m->parameters,0,0,a); p[np++]=a; if (k==2){ apop_data_set(m->parameters,0,1,b); apop_data_set(m->parameters,1,0,b); apop_data_set(m->parameters,1,1,c); p[np++]=b; p[np++]=b; p[np++]=c; } } vh_sig_data(d); vh_sig_data(m->parameters); v_desc("%s score, %d rows, %d dimensions",m->name,n,k); apop_data *orig=apop_data_copy(d); char *was=vmodel_dump(m); gsl_vector *g=gsl_vector_alloc(np); double mag=0; for (int t=0;t<np;t++) for (int i=0;i<n;i++){ apop_data *one=Apop_r(d,i); mag+=fabsl(diff1(dir?dir_ll:mvn_ll,p,np,t,one)); } apop_score(d,g,m); if (!dir&&k==2){ /* the model reads a symmetric matrix, so only the total for the two off-diagonals is given */ L t=diff1(mvn_ll,p,np,3,d); double tot=gsl_vector_get(g,3)+gsl_vector_get(g,4); V_CHECK(fabsl(tot-2*t)<=1e-5*(fabsl(2*t)+2*mag+n*.2),"mvn","the off-diagonal elements come to %g; the derivative is %Lg",tot,2*t); gsl_vector_set(g,3,t); gsl_vector_set(g,4,t); } check_vec(g,dir?dir_ll:mvn_ll,p,np,d,dir?1e-8:1e-5,mag+n*.1,dir?"dirichlet":"mvn",m->name); char *now=vmodel_dump(m); V_STR(now,was,"model","the model changed"); vh_same(d,orig,true,"data","the data"); free(was); free(now); gsl_vector_free(g); apop_model_free(m); apop_data_free(d); apop_data_free(orig);
}
/* a model of the harness: a smooth function of vector and matrix parameters, scaled by the data's sum */
static L own_f(const L *p,void *v){ double *c=v; int n=c[0]; L s=0; for (int i=0;i<n;i++) s+=sinl(p[i]*c[1]+i)+p[i]*p[i]*(i+1)/10-(i?p[i]*p[i-1]*.3:0); return s*c[2]; }
static int own_np; static double own_c[3];
static long double own_ll(apop_data *d,apop_model *m){ gsl_vector *v=apop_data_pack(m->parameters); L p[32]; for (size_t i=0;i<v->size;i++) p[i]=gsl_vector_get(v,i); own_c[0]=v->size; own_c[2]=d?apop_data_get(d,0,-1):1; gsl_vector_free(v); return own_f(p,own_c); }
static long double own_p(apop_data *d,apop_model *m){ return own_ll(d,m)+0; }
static void f_own(void){
    int vs=vi(0,4),r=vi(0,3),c=r?vi(1,3):0,usep=vflip(.3); if (!vs&&!r) vs=1; own_np=vs+r*c; own_c[1]=vd(.3,1.5); apop_model *m=apop_model_copy(&(apop_model){"own",.log_likelihood=usep?NULL:own_ll,.p=usep?own_p:NULL,.vsize=vs,.msize1=r,.msize2=c,.dsize=1}); m->parameters=apop_data_alloc(vs,r,c); L p[32]; int t=0; for (int i=0;i<vs;i++){ double x=vnorm(); apop_data_set(m->parameters,i,-1,x); p[t++]=x; } for (int i=0;i<r;i++) for (int j=0;j<c;j++){ double x=vnorm(); apop_data_set(m->parameters,i,j,x); p[t++]=x; } apop_data *d=vflip(.7)?apop_data_falloc((1),.5+vpos()):NULL; double env[3]={own_np,own_c[1],d?apop_data_get(d,0,-1):1}; vh_sig_data(m->parameters); v_sigd(env[2]); v_desc("a model of the harness with a %s, parameters %d and %dx%d",usep?"p":"log likelihood",vs,r,c); char *was=vmodel_dump(m); gsl_vector *g=gsl_vector_alloc(own_np),*ng=vflip(.5)?apop_numerical_gradient(d,m):apop_numerical_gradient(.data=d,.model=m,.delta=vd(1e-4,1e-2)); apop_score(d,g,m); check_vec(g,own_f,p,own_np,env,1e-7,env[2]*own_np,"own-score","score"); check_vec(ng,own_f,p,own_np,env,1e-7,env[2]*own_np,"own-numeric","apop_numerical_gradient"); gsl_vector_free(g); gsl_vector_free(ng);
    apop_data *h=apop_model_hessian(d,m); if (V_CHECK(h&&h->matrix&&h->matrix->size1==own_np,"own-hessian-size","Hessian size")) for (int a=0;a<own_np;a++) for (int b=0;b<own_np;b++){ L e=diff2(own_f,p,own_np,a,b,env); V_CHECK(fabsl(e-apop_data_get(h,a,b))<=1e-4*env[2]*(1+own_np),"own-hessian","(%d,%d): %g; the second derivative is %Lg",a,b,apop_data_get(h,a,b),e); } if (h) apop_data_free(h); char *now=vmodel_dump(m); V_STR(now,was,"model","the model changed"); free(was); free(now); if (d) apop_data_free(d); apop_model_free(m);
}
/* Near a constraint: the model's ll is the same everywhere, and the constraint's penalty grows beyond it, so the gradient must not point out. */
static long double edge_con(apop_data *d,apop_model *m){ double *x=m->parameters->vector->data; if (*x>=1) return 0; double pen=1-*x; *x=1; return 100*pen; }
static long double edge_ll(apop_data *d,apop_model *m){ double x=apop_data_get(m->parameters,0,-1); return x*apop_data_get(d,0,-1); }
static void f_edge(void){ double slope=vd(-2,2); apop_data *d=apop_data_falloc((1),slope); apop_model *m=apop_model_copy(&(apop_model){"edge",.log_likelihood=edge_ll,.constraint=edge_con,.vsize=1,.dsize=1}); m->parameters=apop_data_falloc((1),1+vd(0,5e-4)); v_sigd(slope); v_desc("numeric gradient beside a constraint, slope %g",slope); gsl_vector *g=apop_numerical_gradient(d,m); V_CHECK(gsl_vector_get(g,0)>=fmin(slope,slope*.45)-1e-6,"edge","the derivative beside the constraint is %g, with a slope of %g inside and a penalty rising outside",gsl_vector_get(g,0),slope); gsl_vector_free(g); apop_data_free(d); apop_model_free(m); }
vh_family vh_families[]={{"uni",f_uni,4000,150000},{"hessian",f_hessian,800,30000},{"ols",f_ols,400,15000},{"choice",f_choice,400,15000},{"multi",f_multi,600,20000},{"own",f_own,600,20000},{"edge",f_edge,60,500},{NULL}};
