#include "vh.h"
const char *vh_rule = "Loess over random data of one or two predictors (degree 1 and 2, spans below and above one, prior weights, gaussian and symmetric families, direct and interpolated surfaces, normalized or not, dependent variable in the vector or in column zero) against a plain local regression (and, in one dimension, a plain k-d tree with cubic blending) written in the harness, with the operator matrix computed row by row for the exact statistics; Kullback-Leibler divergences and entropies against closed forms or sums; harmonic numbers in long double in random call histories; multivariate gamma, beta from moments, R squared and parameter tests against textbook formulas. Distinct by data and settings.";
typedef long double L;
static int cmpd(const void*a,const void*b){ double x=*(double*)a,y=*(double*)b; return (x>y)-(x<y); }
/* ---- plain local regression ---- */
#define MN 80
static int N,D,degree,par[2],drop[2]; static double X[MN][2],Y[MN],W[MN],dv[2],span;
static int basis(double *dx,double *b){ int k=0; b[k++]=1; for (int j=0;j<D;j++) b[k++]=dx[j]; if (degree==2){ for (int j=0;j<D;j++) if (!drop[j]) b[k++]=dx[j]*dx[j]; if (D==2) b[k++]=dx[0]*dx[1]; } return k; }
/* out: value and slopes at q (in units of the normalized predictors); op, if not NULL, gets the operator row. Returns the worst pivot ratio. */
static double local(double *q,double *rw,double *out,double *op){
    static double di[MN],so[MN]; int nf=floor(N*span+1e-5); if (nf>N) nf=N; for (int i=0;i<N;i++){ di[i]=0; for (int j=0;j<D;j++) if (!par[j]) di[i]+=pow(X[i][j]/dv[j]-q[j],2); so[i]=di[i]; }
    qsort(so,N,sizeof(double),cmpd); double rho=so[nf-1]*fmax(1,span); L A[6][12]={{0}}; static L B[MN][6]; static double w[MN]; int k=0; double sc[6]={0};
    for (int i=0;i<N;i++){ double b[6],dx[2]; for (int j=0;j<D;j++) dx[j]=X[i][j]/dv[j]-q[j]; k=basis(dx,b); w[i]=di[i]<rho?rw[i]*pow(1-pow(sqrt(di[i]/rho),3),3):0; for (int a=0;a<k;a++){ B[i][a]=b[a]; sc[a]+=w[i]*b[a]*b[a]; } }
    for (int a=0;a<k;a++) sc[a]=sqrt(sc[a]); for (int a=0;a<k;a++) if (sc[a]==0) return 1e99; for (int i=0;i<N;i++) for (int a=0;a<k;a++) B[i][a]/=sc[a];
    for (int i=0;i<N;i++) for (int a=0;a<k;a++) for (int b=0;b<k;b++) A[a][b]+=w[i]*B[i][a]*B[i][b]; for (int a=0;a<k;a++) A[a][k+a]=1; L mn=1e99,mx=0;
    for (int c=0;c<k;c++){ int p=c; for (int r=c;r<k;r++) if (fabsl(A[r][c])>fabsl(A[p][c])) p=r; L piv=fabsl(A[p][c]); if (piv<mn) mn=piv; if (piv>mx) mx=piv; if (piv<1e-14) return 1e99; for (int j=0;j<2*k;j++){ L t=A[c][j]; A[c][j]=A[p][j]; A[p][j]=t; } L dd=A[c][c]; for (int j=0;j<2*k;j++) A[c][j]/=dd; for (int r=0;r<k;r++) if (r!=c){ L f=A[r][c]; for (int j=0;j<2*k;j++) A[r][j]-=f*A[c][j]; } }
    int edge=0; L s[3]={0}; for (int i=0;i<N;i++) for (int z=0;z<=D;z++){ L c=0; for (int a=0;a<k;a++) c+=A[z][k+a]*B[i][a]; c*=w[i]/sc[z]; if (z==0&&di[i]>.998*rho&&fabsl(c)>1e-7) edge=1; s[z]+=c*Y[i]; if (z==0&&op) op[i]=c; } for (int z=0;z<=D;z++) out[z]=s[z]; return edge?1e99:mx/mn; /* a fit hanging on a point at the very edge of the window is left out */
}
/* ---- plain one-dimensional k-d tree ---- */
static double vx[200],vv[200],vs[200]; static int nv;
static void addv(double x){ for (int i=0;i<nv;i++) if (vx[i]==x) return; vx[nv++]=x; }
static double sx[MN]; static int fc;
static void cut(int l,int u,double lo,double hi){ if (u-l+1<=fc) return; int m=(l+u)/2; double t=sx[m]; if (t==lo||t==hi) return; addv(t); cut(l,m,lo,t); cut(m+1,u,t,hi); }
static double tree(double *rw){ nv=0; double worst=0; for (int i=0;i<N;i++) sx[i]=X[i][0]/dv[0]; qsort(sx,N,sizeof(double),cmpd); double t=sx[N-1]-sx[0],mu=fmax(fabs(sx[0]),fabs(sx[N-1])),mg=fmax(t,mu*1e-10+1e-30)*.005; double lo=sx[0]-mg*1,hi=sx[N-1]+mg; addv(lo); addv(hi); fc=floor(N*span*.2); cut(0,N-1,lo,hi); qsort(vx,nv,sizeof(double),cmpd); for (int i=0;i<nv;i++){ double o[3]; worst=fmax(worst,local(&vx[i],rw,o,NULL)); vv[i]=o[0]; vs[i]=o[1]; } return worst; }
static double blend(double x){ int i=0; while (i<nv-2&&x>vx[i+1]) i++; double h=vx[i+1]-vx[i],u=(x-vx[i])/h; double p0=(1-u)*(1-u)*(1+2*u),p1=u*u*(3-2*u),q0=u*(1-u)*(1-u),q1=-u*u*(1-u); return p0*vv[i]+p1*vv[i+1]+(q0*vs[i]+q1*vs[i+1])*h; }
static double med(double *r,int n){ static double t[MN]; for (int i=0;i<n;i++) t[i]=fabs(r[i]); qsort(t,n,sizeof(double),cmpd); return n%2?t[n/2]:(t[n/2]+t[n/2-1])/2; }
static void f_loess(void){
    D=vflip(.6)?1:2; N=D==1?vi(12,vflip(.2)?MN-1:30):vi(25,60); degree=vi(1,2); int smooth=vi(0,3),weighted=vflip(.3),invec=vflip(.5),sym=vflip(.35),direct=D==2||vflip(.5),norm=vflip(.7),exact=direct&&vflip(.5),grid=0; span=vflip(.3)?.75:vflip(.15)?vd(1.01,2):vd(D==1?.5:.6,1); if (floor(N*span+1e-5)<(D==1?degree+4:9)) span=.75;
    if (fabs(N*span-round(N*span))<1e-3) span=vpick(((double[]){.75,.75,1})); /* the count of neighbors is not left to rounding */ memset(par,0,sizeof par); memset(drop,0,sizeof drop); if (D==2&&vflip(.2)) par[vi(0,1)]=1; if (D==2&&degree==2&&vflip(.2)) drop[vi(0,1)]=1; double off=vpick(((double[]){0,0,100})),sc[2]={vpick(((double[]){1,1,50,.01})),vpick(((double[]){1,1,20}))},noise=vpick(((double[]){0,.3,1}));
    for (int i=0;i<N;i++){ for (int j=0;j<D;j++) X[i][j]=(grid?i:vd(0,10))*sc[j]+off*(j==0); double x=(X[i][0]-off)/sc[0],z=D==2?X[i][1]/sc[1]:0; Y[i]=smooth==0?2-3*x+z*(D==2?1.5:0):smooth==1?1+x*x/5-x+(D==2?z*z/8-x*z/10:0):smooth==2?sin(x)*3+z:x>5?4:0; if (smooth>1||vflip(.5)) Y[i]+=vnorm()*noise*(smooth>1); if (sym&&vflip(.08)) Y[i]+=vnorm()*20; W[i]=weighted?vpick(((double[]){1,2,.5,3})):1; }
    apop_data *d=invec?apop_data_alloc(N,N,D):apop_data_alloc(0,N,D+1); if (weighted) d->weights=gsl_vector_alloc(N); for (int i=0;i<N;i++){ apop_data_set(d,i,invec?-1:0,Y[i]); for (int j=0;j<D;j++) apop_data_set(d,i,j+!invec,X[i][j]); if (weighted) d->weights->data[i]=W[i]; } vh_sig_data(d); v_sigd(degree); v_sigd(span); v_sigd(sym*8+direct*4+norm*2+exact);
    v_desc("loess n=%d, %d predictors, degree %d, span %g%s%s%s%s%s%s%s, shape %d",N,D,degree,span,weighted?", weighted":"",invec?", y in vector":"",sym?", symmetric":"",direct?", direct":"",norm?"":", not normalized",par[0]||par[1]?", parametric":"",drop[0]||drop[1]?", dropped square":"",smooth);
    /* divisors */
    for (int j=0;j<D;j++){ dv[j]=1; if (norm&&D>1){ double t[MN]; for (int i=0;i<N;i++) t[i]=X[i][j]; qsort(t,N,sizeof(double),cmpd); int c=ceil(.1*N); L m=0,s=0; for (int i=c;i<=N-c-1;i++) m+=t[i]; m/=N-2*c; for (int i=c;i<=N-c-1;i++) s+=(t[i]-m)*(t[i]-m); dv[j]=sqrtl(s/(N-2*c-1)); } }
    apop_data *keep=apop_data_copy(d); double level=vpick(((double[]){.95,.5,.9,.99})); apop_model *m=apop_model_copy(apop_loess);
    Apop_model_add_group(m,apop_loess,.data=d,.lo_s.model.span=span,.lo_s.model.degree=degree,.lo_s.model.normalize=norm?'y':'n',.lo_s.model.family=sym?"symmetric":NULL,.lo_s.control.surface=direct?"direct":NULL,.lo_s.control.statistics=exact?"exact":NULL,.ci_level=level,.lo_s.model.parametric={par[0],par[1]},.lo_s.model.drop_square={drop[0],drop[1]});
    apop_model *e=apop_estimate(d,m); vh_same(d,keep,1,"input","data of the estimation"); apop_data *p=e->info?apop_data_get_page(e->info,"<Predicted>"):NULL; double *fit=NULL,*res=NULL,rw[MN],o[3],ref[MN]; if (!V_CHECK(p&&p->matrix&&p->matrix->size1==N&&p->matrix->size2>=3,"page","no <Predicted> page")) goto done;
    double ysc=0; for (int i=0;i<N;i++) ysc=fmax(ysc,fabs(Y[i])); fit=malloc(N*8); res=malloc(N*8); for (int i=0;i<N;i++){ V_EQ(apop_data_get(p,i,0),Y[i],"page","actual %d",i); fit[i]=apop_data_get(p,i,1); V_CLOSE(apop_data_get(p,i,2),Y[i]-fit[i],1e-9,1e-12*ysc,"page","residual %d",i); } v_ev("loess_fits");
    /* reference */
    double worst=0; static double S[MN][MN]; for (int i=0;i<N;i++) rw[i]=W[i]; int iters=sym?4:0,tie=0; double rr[MN],pw[MN]; for (int it=0;it<=iters;it++){ if (!direct) worst=fmax(worst,tree(rw)); for (int i=0;i<N;i++){ double q[2]={X[i][0]/dv[0],D==2?X[i][1]/dv[1]:0}; if (direct){ worst=fmax(worst,local(q,rw,o,it==0?S[i]:NULL)); ref[i]=o[0]; } else ref[i]=blend(q[0]); rr[i]=Y[i]-ref[i]; } for (int i=0;i<N;i++) pw[i]=rw[i]/W[i]; if (it<iters){ double c=6*med(rr,N); if (c<1e-8*ysc) tie=1; for (int i=0;i<N;i++){ double u=fabs(rr[i]); if (fabs(u-c*.999)<1e-6*c||fabs(u-c*.001)<1e-6*c) tie=1; rw[i]=W[i]*(u>c*.999?0:u>c*.001?pow(1-pow(u/c,2),2):1); } } }
    if (worst>1e9||tie){ v_trivial(); goto done; } v_ev(direct?"direct_surfaces":"interpolated_surfaces"); double tol=1e-6*ysc*(sym?10:1); int bad=0; for (int i=0;i<N&&!bad;i++){ int nb=v_nfails(); V_CLOSE(fit[i],ref[i],1e-6,tol,direct?"fit":"fit-tree","fitted value %d of %d",i,N); bad=v_nfails()>nb; }
    if (smooth<degree&&!drop[0]&&!drop[1]&&!(noise&&0)&&!sym&&(D==1||direct)) for (int i=0;i<N&&!bad;i++) V_CLOSE(fit[i],Y[i],1e-7,1e-6*ysc,"exact","fit of data on a polynomial of degree %d",smooth+1);
    struct loess_struct *lo=&Apop_settings_get(e,apop_loess,lo_s); /* scale */
    L ss=0; for (int i=0;i<N;i++) ss+=W[i]*(Y[i]-fit[i])*(Y[i]-fit[i]); if (!sym) V_CLOSE(lo->out.s,sqrt((double)ss/lo->out.one_delta),1e-9,1e-12*ysc,"scale","residual scale from the sum of squares and delta 1"); V_CHECK(lo->out.one_delta>0&&lo->out.one_delta<N,"delta","delta 1 %g of %d observations",lo->out.one_delta,N);
    if (direct&&!sym){ L tr=0,d1=0,d2=0; static L M[MN][MN]; for (int i=0;i<N;i++){ tr+=S[i][i]; for (int j=0;j<N;j++){ M[i][j]=0; for (int k=0;k<N;k++) M[i][j]+=((L)S[k][i]-(k==i))*((L)S[k][j]-(k==j)); } } for (int i=0;i<N;i++){ d1+=M[i][i]; for (int j=0;j<N;j++) d2+=M[i][j]*M[i][j]; } V_CLOSE(lo->out.trace_hat,(double)tr,1e-6,1e-6,"trace","trace of the operator"); if (exact){ V_CLOSE(lo->out.one_delta,(double)d1,1e-6,1e-6,"delta1","delta 1"); V_CLOSE(lo->out.two_delta,(double)d2,1e-6,1e-6,"delta2","delta 2"); v_ev("exact_statistics"); } else if (span<=1&&N>=20){ V_CLOSE(lo->out.one_delta,(double)d1,.5,0,"delta1-approx","delta 1, approximately"); } V_CLOSE(lo->out.enp,(double)(lo->out.one_delta+2*tr-N),1e-6,1e-5,"enp","equivalent number of parameters"); }
    /* predictions at the training points, and elsewhere */
    int M=vi(1,8); apop_data *np=invec?apop_data_calloc(M,M,D):apop_data_calloc(0,M,D+1); int at[8]; for (int i=0;i<M;i++){ at[i]=vflip(.5)?vi(0,N-1):-1; int a=vi(0,N-1),b=vi(0,N-1); double t=vd(0,1); for (int j=0;j<D;j++) apop_data_set(np,i,j+!invec,at[i]>=0?X[at[i]][j]:t*X[a][j]+(1-t)*X[b][j]); } apop_data *nk=apop_data_copy(np),*q=apop_predict(np,e); if (V_CHECK(q&&!q->error,"predict","no prediction")){ apop_data *ci=apop_data_get_page(q,"<Confidence>"); double df=lo->out.one_delta*lo->out.one_delta/lo->out.two_delta; V_CHECK(ci&&ci->matrix->size1==M,"ci","no confidence page");
        for (int i=0;i<M;i++){ double pr=apop_data_get(q,i,invec?-1:0),xx[2],op[MN]; for (int j=0;j<D;j++){ V_EQ(apop_data_get(q,i,j+!invec),apop_data_get(nk,i,j+!invec),"predict-input","predictor changed"); xx[j]=apop_data_get(nk,i,j+!invec)/dv[j]; } if (at[i]>=0) V_CLOSE(pr,fit[at[i]],1e-7,1e-8*ysc,"predict","prediction at training point"); double wr=local(xx,direct?rw:rw,o,op); if (direct&&wr<1e9) V_CLOSE(pr,o[0],1e-6,tol,"predict","prediction at a new point"); else if (!direct) V_CLOSE(pr,blend(xx[0]),1e-6,tol,"predict","prediction at a new point"); v_ev("predictions");
            if (ci&&!(sym&&med(rr,N)<1e-9*ysc)){ /* no scale to speak of if most residuals are zero */ double se=apop_data_get(ci,i,0),lw=apop_data_get(ci,i,1),up=apop_data_get(ci,i,2),t=gsl_cdf_tdist_Pinv(1-(1-level)/2,df); V_CHECK(se>=0&&lw<=pr&&pr<=up,"ci","interval %g, %g about %g, se %g",lw,up,pr,se); V_CLOSE(up-pr,t*se,1e-4,1e-9*ysc,"quantile","half interval at level %g with df %g, se %g",level,df,se); V_CLOSE(pr-lw,up-pr,1e-6,1e-9*ysc,"ci","symmetry"); if (direct){ local(xx,W,o,op); L v=0; for (int k=0;k<N;k++) v+=(L)op[k]*op[k]/W[k]; V_CLOSE(se,lo->out.s*sqrt((double)v),1e-5,1e-8*ysc,weighted?"se-weighted":"se","standard error of the fit"); v_ev("standard_errors"); } } }
        if (vflip(.5)){ apop_data *n2=apop_data_copy(nk); apop_data *q2=apop_predict(n2,e); for (int i=0;i<M;i++) V_CLOSE(apop_data_get(q2,i,invec?-1:0),apop_data_get(q,i,invec?-1:0),1e-9,1e-10*ysc,"repeat","the same prediction asked again"); apop_data_free(n2); } }
    if (vflip(.5)){ L m1=0,s2=0,ll=0; for (int i=0;i<N;i++) m1+=Y[i]-fit[i]; m1/=N; for (int i=0;i<N;i++) s2+=powl(Y[i]-fit[i]-m1,2); s2/=N-1; if (s2>1e-12){ for (int i=0;i<N;i++) ll+=-.5L*logl(2*M_PIl*s2)-powl(Y[i]-fit[i],2)/(2*s2); V_CLOSE(apop_log_likelihood(d,e),(double)ll,1e-6,1e-5,"ll","log likelihood"); } }
    if (vflip(.4)){ apop_model *c=apop_model_copy(e); apop_data *n2=apop_data_copy(nk),*q2=apop_predict(n2,c); for (int i=0;i<M&&q2;i++) V_CLOSE(apop_data_get(q2,i,invec?-1:0),apop_data_get(q,i,invec?-1:0),1e-9,1e-10*ysc,"copy","prediction of a copy"); apop_data_free(n2); apop_model_free(c); }
    apop_data_free(np); apop_data_free(nk);
    done: free(fit); free(res); apop_model_free(e); apop_model_free(m); apop_data_free(keep); apop_data_free(d);
}
/* ---- divergences ---- */
static apop_model *mkpmf(int n,double *x,double *w,int invec){ apop_data *d=invec?apop_data_alloc(n):apop_data_alloc(0,n,1); for (int i=0;i<n;i++) apop_data_set(d,i,invec?-1:0,x[i]); if (w){ d->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++) d->weights->data[i]=w[i]; } return apop_estimate(d,apop_pmf); }
static void f_kl(void){
    int n=vi(1,12),kind=vi(0,2); double x[12],w[12],u[12],y[12],z[12]; L tw=0,tu=0; int weighted=vflip(.7); for (int i=0;i<n;i++){ x[i]=i*1.5-4; w[i]=weighted?(vflip(.15)?0:vd(.1,5)):1; u[i]=vd(.1,4); } if (weighted) w[0]+=.5; int miss=kind==0&&vflip(.25)?vi(0,n-1):-1; int k=0; for (int i=n-1;i>=0;i--){ if (i==miss) continue; y[k]=x[i]; z[k]=u[i]; k++; } if (!k){ miss=-1; y[0]=x[0]; z[0]=u[0]; k=1; } for (int i=0;i<n;i++){ tw+=w[i]; v_sigd(w[i]); v_sigd(u[i]); } for (int i=0;i<k;i++) tu+=z[i]; v_sigd(kind); v_sigd(miss);
    int invec=vflip(.5); if (kind==2){ double m1=vnorm(),s1=vd(.5,2),m2=m1+vnorm()*.7,s2=vd(.8,2.5); v_sigd(m1); v_sigd(s1); v_sigd(m2); v_sigd(s2); apop_model *a=apop_model_set_parameters(apop_normal,m1,s1),*b=apop_model_set_parameters(apop_normal,m2,s2); v_desc("divergence of normals (%g,%g) and (%g,%g)",m1,s1,m2,s2); int dr=vi(2000,6000); double v=apop_kl_divergence(a,b,dr),t=log(s2/s1)+(s1*s1+pow(m1-m2,2))/(2*s2*s2)-.5; /* variance of ln p/q */ double A=.5/(s2*s2)-.5/(s1*s1),B=(m1-m2)/(s2*s2),var=2*A*A*pow(s1,4)+B*B*s1*s1; V_CLOSE(v,t,0,6*sqrt(var/dr)+1e-9,"kl-normal","divergence by draws"); V_CLOSE(apop_kl_divergence(a,a,500),0,0,1e-12,"kl-self","divergence from itself"); v_ev("normal_divergences"); apop_model_free(a); apop_model_free(b); return; }
    apop_model *p=mkpmf(n,x,weighted?w:NULL,invec),*q; L t=0; if (kind==0){ q=mkpmf(k,y,z,invec); for (int i=0;i<n;i++){ L pi=w[i]/tw; if (pi>0) t+=i==miss?-INFINITY:pi*logl(pi/(u[i]/tu)); } } else { double mu=vnorm(),s=vd(1,4); q=apop_model_set_parameters(apop_normal,mu,s); for (int i=0;i<n;i++){ L pi=w[i]/tw; if (pi>0) t+=pi*(logl(pi)+.5L*logl(2*M_PIl*s*s)+powl(x[i]-mu,2)/(2*s*s)); } }
    v_desc("divergence of a PMF of %d points%s from %s%s",n,weighted?", weighted":"",kind?"a normal":"a PMF",miss>=0?" lacking a point":""); apop_data *kp=apop_data_copy(p->data); double v=apop_kl_divergence(p,q); if (t==-INFINITY) V_CHECK(v==-INFINITY,"kl-unsynced","%g where -inf is documented",v); else V_CLOSE(v,(double)t,1e-9,1e-12,"kl","divergence"); V_CLOSE(apop_kl_divergence(p,p),0,0,1e-12,"kl-self","divergence from itself"); vh_same(p->data,kp,0,"input","data of the PMF"); v_ev("pmf_divergences");
    apop_data *pd=p->data,*qd=kind==0?q->data:NULL; apop_data_free(kp); apop_model_free(p); apop_model_free(q); apop_data_free(pd); if (qd) apop_data_free(qd);
}
static void f_entropy(void){
    int k=vi(0,5); double a=vd(.5,4),b=vd(.5,4),t=0,sd=0; int dr=vi(1500,4000); v_sigd(k); v_sigd(a); v_sigd(b); v_sigd(dr); apop_model *m=NULL; switch(k){ case 0: m=apop_model_set_parameters(apop_normal,a,b); t=.5*log(2*M_PI*M_E*b*b); sd=0; break; case 1: m=apop_model_set_parameters(apop_exponential,a); t=1+log(a); sd=1; break; case 2: m=apop_model_set_parameters(apop_uniform,-a,b); t=log(a+b); sd=0; break; case 3: m=apop_model_set_parameters(apop_lognormal,a,b); t=a+.5*log(2*M_PI*M_E*b*b); sd=sqrt(.5+b*b); break; case 4: m=apop_model_set_parameters(apop_poisson,a); { L h=0,h2=0; for (int i=0;i<200;i++){ L lp=-a+i*logl(a)-lgammal(i+1); L p=expl(lp); h-=p*lp; h2+=p*lp*lp; } t=h; sd=sqrt((double)(h2-h*h)); } break; case 5: { int n=vi(1,10); double x[12],w[12]; L tw=0,h=0,h2=0; for (int i=0;i<n;i++){ x[i]=i; w[i]=vd(.1,4); tw+=w[i]; v_sigd(w[i]); } for (int i=0;i<n;i++){ L p=w[i]/tw; h-=p*logl(p); h2+=p*logl(p)*logl(p); } t=h; sd=sqrt(fmax(0,(double)(h2-h*h))); m=mkpmf(n,x,w,0); } break; }
    v_desc("entropy of %s(%g, %g), %d draws",m->name,a,b,dr); apop_data *keep=m->parameters?apop_data_copy(m->parameters):NULL; double h=apop_model_entropy(m,dr); V_CLOSE(h,t,1e-10,6*sd/sqrt(dr)+1e-9,"entropy","entropy"); if (keep){ vh_same(m->parameters,keep,0,"input","parameters"); apop_data_free(keep); } v_ev("entropies"); apop_data *pd=k==5?m->data:NULL; apop_model_free(m); if (pd) apop_data_free(pd);
}
static void f_special(void){
    int calls=vi(1,8); double es[3]={vd(-1,3),vpick(((double[]){1,2,0})),vd(0,1)}; for (int c=0;c<calls;c++){ int n=vflip(.2)?vi(1,3):vi(1,3000); double s=vpick(es); v_sigd(n); v_sigd(s); L t=0; for (int i=n;i>=1;i--) t+=powl(i,-(L)s); V_CLOSE((double)apop_generalized_harmonic(n,s),(double)t,1e-10,0,"harmonic","H(%d, %g)",n,s); v_ev("harmonic_numbers"); }
    V_CHECK(isnan((double)apop_generalized_harmonic(-vi(0,3),es[0])),"harmonic-nan","not NaN for N<=0");
    int p=vi(1,5); double a=vflip(.2)?vi(0,8)/2.:(p-1)/2.+vd(.05,6); v_sigd(p); v_sigd(a); L g=powl(M_PIl,p*(p-1)/4.L); int bad=0,neg=0; L lg=logl(g); for (int j=1;j<=p;j++){ L z=(L)a+(1-j)/2.L; if (z<=0&&floorl(z)==z) bad=1; if (z<0) neg=1; if (!bad){ g*=tgammal(z); lg+=lgammal(z); } } if (bad){ V_CHECK(isnan((double)apop_multivariate_gamma(a,p)),"mgamma-nan","not NaN at a pole"); V_CHECK(isnan((double)apop_multivariate_lngamma(a,p)),"mgamma-nan","log not NaN at a pole"); } else { V_CLOSE((double)apop_multivariate_gamma(a,p),(double)g,1e-9,0,"mgamma","Gamma_%d(%g)",p,a); if (!neg) V_CLOSE((double)apop_multivariate_lngamma(a,p),(double)lg,1e-10,1e-10,"mlngamma","ln Gamma_%d(%g)",p,a); } v_ev("multivariate_gammas");
    double mu=vd(.05,.95),v=mu*(1-mu)*vd(.02,.9); v_sigd(mu); v_sigd(v); v_desc("harmonics, multivariate gamma(%g, %d), beta of mean %g variance %g",a,p,mu,v); apop_model *b=apop_beta_from_mean_var(mu,v); double al=apop_data_get(b->parameters,0,-1),be=apop_data_get(b->parameters,1,-1); V_CLOSE(al/(al+be),mu,1e-10,0,"beta","mean"); V_CLOSE(al*be/(pow(al+be,2)*(al+be+1)),v,1e-9,0,"beta","variance"); V_CHECK(!strcmp(b->name,apop_beta->name)&&!apop_beta->parameters,"beta","not a copy of apop_beta"); apop_model_free(b); double om=vpick(((double[]){0,1,-.5,1.5})); b=apop_beta_from_mean_var(om,.01); V_CHECK(b&&b->error=='r',"beta-range","no error for mean %g",om); apop_model_free(b);
}
static void f_rsq(void){
    int wls=vflip(.4),k=vi(2,4),n=k+vi(3,30),sep=vflip(.5); apop_data *d=sep?apop_data_alloc(n,n,k):apop_data_alloc(0,n,k); double y[60],w[60]; for (int i=0;i<n;i++){ double t=vnorm()*vpick(((double[]){.1,1,5})); if (sep) apop_data_set(d,i,0,1); for (int j=1;j<k;j++){ double x=vnorm(); apop_data_set(d,i,j,x); t+=x*j; } y[i]=t+2; apop_data_set(d,i,sep?-1:0,y[i]); w[i]=1; } if (wls){ d->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++) d->weights->data[i]=w[i]=vd(.2,3); } vh_sig_data(d); v_desc("R squared n=%d k=%d%s",n,k,wls?" weighted":"");
    apop_model *e=apop_estimate(d,apop_ols); apop_data *p=apop_data_get_page(e->info,"<Predicted>"); apop_data *o=apop_estimate_coefficient_of_determination(e); if (!V_CHECK(p&&o,"null","no output")) goto done; L sw=0,m=0,sse=0,sst=0; for (int i=0;i<n;i++){ sw+=w[i]; m+=w[i]*y[i]; } m/=sw; for (int i=0;i<n;i++){ L r=y[i]-apop_data_get(p,i,1); sse+=w[i]*r*r; sst+=w[i]*(y[i]-m)*(y[i]-m); } double r2=1-sse/sst; int ind=d->matrix->size2-1;
    V_CLOSE(apop_data_get(o,.rowname="SSE",.col=-1),(double)sse,1e-8,1e-9,"sse","SSE"); V_CLOSE(apop_data_get(o,.rowname="SST",.col=-1),(double)sst,1e-9,1e-9,"sst","SST"); V_CLOSE(apop_data_get(o,.rowname="SSR",.col=-1),(double)(sst-sse),1e-8,1e-8,"ssr","SSR"); V_CLOSE(apop_data_get(o,.rowname="R squared",.col=-1),r2,1e-8,1e-9,"r2","R squared"); if (n-ind-1>0) V_CLOSE(apop_data_get(o,.rowname="R squared adj",.col=-1),1-(n-1.)/(n-ind-1.)*(1-r2),1e-8,1e-9,"r2adj","adjusted R squared"); v_ev("r_squared"); apop_data *in=e->info; V_CLOSE(apop_data_get(in,.rowname="R squared",.col=-1),r2,1e-8,1e-9,"r2","R squared of the info page");
    apop_data *ti=apop_data_get_page(e->parameters,"<test info>"); if (!ti) ti=apop_data_get_page(e->info,"<test info>"); apop_data *cv=apop_data_get_page(e->parameters,"<Covariance>"); if (V_CHECK(ti&&cv,"tests","no test page")) for (int i=0;i<k;i++){ double b=apop_data_get(e->parameters,i,-1),s=sqrt(apop_data_get(cv,i,i)),pv=apop_data_get(ti,i,.colname="p value"),c=apop_data_get(ti,i,.colname="confidence"); V_CLOSE(pv+c,1,1e-12,1e-12,"tests","p plus confidence"); V_CLOSE(pv,2*gsl_cdf_tdist_Q(fabs(b/s),n-k),1e-6,1e-9,"tests","p value of parameter %d",i); v_ev("parameter_tests"); }
    done: if (o) apop_data_free(o); apop_model_free(e); apop_data_free(d);
}
vh_family vh_families[] = { {"loess",f_loess,400,20000,1}, {"kl",f_kl,300,10000,1}, {"entropy",f_entropy,120,5000,1}, {"special",f_special,300,10000,1}, {"rsq",f_rsq,300,10000,1}, {0} };
