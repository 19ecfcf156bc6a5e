#include "vh.h"
const char *vh_rule = "Sequences of calls in one process over feasible systems of linear constraints of changing dimension: positivity defaults, boxes, orthogonal systems at any scale and rotation, single rows and pairs of rows in general position, and larger general systems; each result compared with the exact nearest point (or, for general systems of three rows or more, checked for the return value's meaning); and the constraints of the stock distributions, called in turn with parameters inside, partly outside and outside of their domains, with changing dimension. Distinct by constraints and starting point.";
#define MX 8
static double norm(const double *a,int n){ double s=0; for (int i=0;i<n;i++) s+=a[i]*a[i]; return sqrt(s); }
static double dot(const double *a,const double *b,int n){ long double s=0; for (int i=0;i<n;i++) s+=(long double)a[i]*b[i]; return s; }
static void orth(double Q[MX][MX],int n){ for (int i=0;i<n;i++){ double l; do { for (int j=0;j<n;j++) Q[i][j]=vnorm(); for (int r=0;r<2;r++) for (int k=0;k<i;k++){ double d=dot(Q[i],Q[k],n); for (int j=0;j<n;j++) Q[i][j]-=d*Q[k][j]; } l=norm(Q[i],n); } while (l<.1); for (int j=0;j<n;j++) Q[i][j]/=l; } }
/* one call; kind 0: NULL constraint, 1: orthogonal rows, 2: box, 3: one row, 4: a pair, 5: general */
static void one(int kind){
    int n=vi(kind==4||kind==5?2:1,6), m=0; double C[2*MX][MX],K[2*MX],F[MX]; double margin=vflip(.7)?0:vpick(((double[]){1e-3,DBL_EPSILON,.05}));
    for (int i=0;i<n;i++) F[i]=vflip(.3)?vi(-5,5):vnorm()*3; // a feasible point, well inside
    if (kind==0){ m=n; for (int i=0;i<n;i++){ for (int j=0;j<n;j++) C[i][j]=i==j; K[i]=0; F[i]=fabs(F[i])+1; } }
    else if (kind==1){ double Q[MX][MX]; m=vi(1,n); orth(Q,n); int unit=vflip(.4); for (int i=0;i<m;i++){ double s=unit?1:exp(vnorm()); for (int j=0;j<n;j++) C[i][j]=Q[i][j]*s; } }
    else if (kind==2){ m=0; for (int i=0;i<n;i++) for (int s=-1;s<=1;s+=2) if (vflip(.7)||(i==n-1&&s==1&&!m)){ double sc=vflip(.5)?1:exp(vnorm()); for (int j=0;j<n;j++) C[m][j]=i==j?s*sc:0; m++; } }
    else { m=kind==3?1:kind==4?2:vi(3,5); for (int i=0;i<m;i++){ retry: for (int j=0;j<n;j++) C[i][j]=vflip(.3)?vi(-3,3):vnorm()*2; double l=norm(C[i],n); if (l<.2) goto retry; for (int k=0;k<i;k++) if (fabs(dot(C[i],C[k],n)/l/norm(C[k],n))>.98) goto retry; } }
    if (kind) for (int i=0;i<m;i++) K[i]=dot(C[i],F,n)-norm(C[i],n)*(vflip(.5)?vd(.3,4):vi(1,3))-(margin>0)*.5;
    gsl_vector *own=gsl_vector_alloc(2*n+1); gsl_vector_set_all(own,-3e300); int st=vi(1,2); gsl_vector bv=gsl_vector_subvector_with_stride(own,0,st,n).vector; double b0[MX]; double sp=vflip(.8)?6:60;
    for (int i=0;i<n;i++){ b0[i]=vflip(.15)?F[i]:F[i]+vnorm()*sp; if (vflip(.2)) b0[i]=vi(-6,6); gsl_vector_set(&bv,i,b0[i]); }
    apop_data *con=NULL; if (kind){ con=apop_data_alloc(m,m,n); for (int i=0;i<m;i++){ apop_data_set(con,i,-1,K[i]); for (int j=0;j<n;j++) apop_data_set(con,i,j,C[i][j]); } }
    for (int i=0;i<n;i++) v_sigd(b0[i]); for (int i=0;i<m;i++){ v_sigd(K[i]); for (int j=0;j<n;j++) v_sigd(C[i][j]); }
    char *cb=con?vh_dump(con,true):NULL; double got= con?(margin>0||vflip(.5)?apop_linear_constraint(&bv,con,margin):apop_linear_constraint(&bv,.constraint=con)):margin>0?apop_linear_constraint(&bv,.margin=margin):apop_linear_constraint(&bv);
    if (con){ char *ca=vh_dump(con,true); V_STR(ca,cb,"constraint","the constraint set was changed"); free(ca); free(cb); }
    double x[MX]; for (int i=0;i<n;i++) x[i]=gsl_vector_get(&bv,i); for (int i=0;i<2*n+1;i++) if (i%st||i/st>=n) V_EQ(gsl_vector_get(own,i),-3e300,"guard","outside the vector");
    int nb=0,bind[2*MX],edge=0; for (int i=0;i<m;i++){ double d=dot(C[i],b0,n); bind[i]=d<K[i]+margin; nb+=bind[i]; if (fabs(d-K[i]-margin)<1e-12*(fabs(K[i])+1)) edge=1; }
    v_desc("kind %d, %d rows in %d dimensions, margin %g, %d bind",kind,m,n,margin,nb);
    if (edge) { v_ev("on_the_edge"); goto done; }
    if (!nb){ V_EQ(got,0,"met","all constraints hold, but the penalty"); for (int i=0;i<n;i++) V_EQ(x[i],b0[i],"unmoved","element %d",i); v_ev("met"); goto done; }
    v_ev("binding"); double mv[MX],scale=1; for (int i=0;i<n;i++){ mv[i]=x[i]-b0[i]; scale=fmax(scale,fabs(b0[i])); }
    V_CLOSE(got,norm(mv,n),1e-9,1e-12*scale,"distance","returned distance against distance moved"); if (margin<1e-10) V_CHECK(got>0||nb==0,"positive","%i constraints bind, but the penalty is %g",nb,got);
    if (kind==5){ int f=1; for (int i=0;i<m;i++) if (dot(C[i],x,n)<K[i]-1e-9*scale*norm(C[i],n)*n) f=0; v_ev(f?"general_feasible":"general_infeasible"); goto done; }
    for (int i=0;i<m;i++) V_CHECK(dot(C[i],x,n)>=K[i]-1e-9*scale*norm(C[i],n)*n,"feasible","constraint %d is not met: %.12g < %.12g",i,dot(C[i],x,n),K[i]);
    if (kind<4) for (int i=0;i<m;i++) if (bind[i]) V_CLOSE(dot(C[i],x,n),K[i]+margin*norm(C[i],n),0,1e-9*scale*norm(C[i],n)*n,"border","constraint %d is binding, so the point is %g inside its border",i,margin);
    // the exact nearest point: for orthogonal kinds each binding row projects on its own; for a pair, try every active set
    double best[MX],bd=INFINITY; if (kind<4){ memcpy(best,b0,sizeof best); for (int i=0;i<m;i++) if (bind[i]){ double q=(K[i]+margin*norm(C[i],n)-dot(C[i],b0,n))/dot(C[i],C[i],n); for (int j=0;j<n;j++) best[j]+=q*C[i][j]; } }
    else if (margin>0) goto done;
    else for (int a=1;a<4;a++){ double y[MX]; memcpy(y,b0,sizeof y); if (a<3){ int i=a-1; double q=(K[i]-dot(C[i],b0,n))/dot(C[i],C[i],n); for (int j=0;j<n;j++) y[j]+=q*C[i][j]; }
        else { double a11=dot(C[0],C[0],n),a12=dot(C[0],C[1],n),a22=dot(C[1],C[1],n),r1=K[0]-dot(C[0],b0,n),r2=K[1]-dot(C[1],b0,n),de=a11*a22-a12*a12,l1=(r1*a22-r2*a12)/de,l2=(a11*r2-a12*r1)/de; for (int j=0;j<n;j++) y[j]+=l1*C[0][j]+l2*C[1][j]; }
        int ok=1; for (int i=0;i<2;i++) if (dot(C[i],y,n)<K[i]-1e-10*scale*norm(C[i],n)) ok=0; double d[MX]; for (int j=0;j<n;j++) d[j]=y[j]-b0[j]; if (ok&&norm(d,n)<bd-1e-9){ bd=norm(d,n); memcpy(best,y,sizeof y); } }
    for (int j=0;j<n;j++) V_CLOSE(x[j],best[j],0,1e-7*scale,"nearest","coordinate %d of the nearest point",j); v_ev("nearest_points");
    done: apop_data_free(con); gsl_vector_free(own);
}
static void f_null(void){ int n=vi(1,6); for (int i=0;i<n;i++) one(0); }
static void f_orth(void){ int n=vi(1,6); for (int i=0;i<n;i++) one(1); }
static void f_box(void){ int n=vi(1,6); for (int i=0;i<n;i++) one(2); }
static void f_few(void){ int n=vi(1,6); for (int i=0;i<n;i++) one(vi(3,4)); }
static void f_any(void){ int n=vi(2,8); for (int i=0;i<n;i++) one(vi(0,5)); }
static void f_kf(void){ apop_data *c=apop_data_falloc((3,3,2), -2,1,2, 0,1,0, -1,0,2); gsl_vector *b=gsl_vector_alloc(2); gsl_vector_set_all(b,-1); v_desc("(-1,-1) with -2<x+2y, 0<x, -1<2y"); apop_linear_constraint(b,c); V_CHECK(gsl_vector_get(b,0)>=-1e-9&&gsl_vector_get(b,1)>=-.5-1e-9,"infeasible","moved to (%g,%g), the nearest point is (0,-.5)",gsl_vector_get(b,0),gsl_vector_get(b,1)); gsl_vector_free(b); apop_data_free(c); }
static double vpos(void){ return .01+fabs(vnorm()); }
typedef long double L2;
/* the constraints of the stock distributions */
typedef struct { const char *n; apop_model **m; int np; int kind; } cmod; /* kind 0: all >0; 1: the last >0; 2: all in (0,1); 3: all >1; 4: (free, >0, >.9); 5: all >=0, all but the first <=1 */
static void f_models(void){
    cmod t[]={{"normal",&apop_normal,2,1},{"lognormal",&apop_lognormal,2,1},{"exponential",&apop_exponential,1,0},{"gamma",&apop_gamma,2,0},{"beta",&apop_beta,2,0},{"dirichlet",&apop_dirichlet,0,0},{"bernoulli",&apop_bernoulli,1,2},{"poisson",&apop_poisson,1,0},{"yule",&apop_yule,1,3},{"zipf",&apop_zipf,1,3},{"t",&apop_t_distribution,3,4},{"multinomial",&apop_multinomial,0,5},{"multinomial",&apop_multinomial,0,5},{"binomial",&apop_binomial,2,5}};
    int rounds=vi(1,4); cmod c=vpick(t); for (int r=0;r<rounds;r++){ if (vflip(.4)) c=vpick(t); int n=c.np?c.np:vi(2,7); apop_model *m=apop_model_copy(*c.m); apop_data_free(m->parameters); m->parameters=apop_data_alloc(n); double b[8],lo[8],hi[8]; int near=0,out=0; int mode=vi(0,2);
        for (int i=0;i<n;i++){ lo[i]=-INFINITY; hi[i]=INFINITY; switch(c.kind){ case 0: lo[i]=0; break; case 1: if (i==n-1) lo[i]=0; break; case 2: lo[i]=0; hi[i]=1; break; case 3: lo[i]=1; break; case 4: if (i) lo[i]=i==1?0:.9; break; case 5: lo[i]=0; if (i) hi[i]=1; }
            int bad=mode==0?0:mode==1?vflip(.4):1; if (isinf(lo[i])) b[i]=vnorm()*10; else if (isinf(hi[i])) b[i]=bad?lo[i]-vpos()*(vflip(.2)?50:1):lo[i]+vpos()*(vflip(.2)?50:1); else b[i]=bad?(vflip(.5)?lo[i]-vpos():hi[i]+vpos()):vd(.01,.99);
            if (fabs(b[i]-lo[i])<2.5e-3||fabs(b[i]-hi[i])<2.5e-3) near=1; if (b[i]<lo[i]||b[i]>hi[i]) out++; gsl_vector_set(m->parameters->vector,i,b[i]); v_sigd(b[i]); }
        v_sigs(c.n); v_desc("%s of %d, %d of them outside;",c.n,n,out); double got=m->constraint(NULL,m); L2 d=0; 
        for (int i=0;i<n;i++){ double x=gsl_vector_get(m->parameters->vector,i); d+=(x-b[i])*(L2)(x-b[i]); V_CHECK(x>=lo[i]-1e-9&&x<=hi[i]+1e-9,"domain","%s: element %d is %.12g after the constraint",c.n,i,x); if (!near){ if (b[i]<lo[i]) V_CHECK(fabs(x-lo[i])<2.1e-3,"border","%s: element %d goes from %g to %g",c.n,i,b[i],x); else if (b[i]>hi[i]) V_CHECK(fabs(x-hi[i])<2.1e-3,"border","%s: element %d goes from %g to %g",c.n,i,b[i],x); else if (!out) V_EQ(x,b[i],"unmoved","%s: element %d",c.n,i); else V_CLOSE(x,b[i],1e-9,1e-9,"unmoved","%s: element %d",c.n,i); } }
        V_CLOSE(got,(double)sqrtl(d),1e-9,1e-9,"distance","%s: returned distance against distance moved",c.n); if (!near){ if (!out) V_EQ(got,0,"met","%s within its domain",c.n); else V_CHECK(got>0,"positive","%s out of its domain, but the penalty is %g",c.n,got); v_ev(out?"models_outside":"models_inside"); }
        V_CHECK(m->constraint(NULL,m)<1e-8,"again","%s: not inside after having been moved",c.n); apop_model_free(m); }
}
vh_family vh_families[]={{"models",f_models,6000,200000},{"positive",f_null,1500,50000},{"orthogonal",f_orth,2000,80000},{"box",f_box,2000,80000},{"few",f_few,3000,120000},{"mixed",f_any,3000,120000},{"kf_three",f_kf,1,1},{NULL}};
