#include "vh.h"
const char *vh_rule = "Random regressions: with and without a separate dependent variable, names, weights and every parts-wanted setting, estimated by OLS/WLS and IV and checked against normal equations solved in long double by the harness (parameters, covariance, predictions, residuals, sums of squares, p values, information criteria, likelihood); logits and probits of two to five outcomes with arbitrary outcome values checked against their likelihoods written out. Distinct by data and settings.";
typedef long double L;
static int solve(int k,L A[8][8],L inv[8][8]){ L a[8][16]; for (int i=0;i<k;i++) for (int j=0;j<k;j++){ a[i][j]=A[i][j]; a[i][k+j]=i==j; } for (int c=0;c<k;c++){ int p=c; for (int r=c;r<k;r++) if (fabsl(a[r][c])>fabsl(a[p][c])) p=r; if (fabsl(a[p][c])<1e-9) return 1; for (int j=0;j<2*k;j++){ L t=a[c][j]; a[c][j]=a[p][j]; a[p][j]=t; } L d=a[c][c]; for (int j=0;j<2*k;j++) a[c][j]/=d; for (int r=0;r<k;r++) if (r!=c){ L f=a[r][c]; for (int j=0;j<2*k;j++) a[r][j]-=f*a[c][j]; } } for (int i=0;i<k;i++) for (int j=0;j<k;j++) inv[i][j]=a[i][k+j]; return 0; }
typedef struct { int n,k; double y[400],x[400][8],z[400][8],w[400]; int weighted; L b[8],cov[8][8],s2,sse,sst,r2; double pred[400]; } ref_t;
static ref_t R;
static int fit(int iv){ int k=R.k,n=R.n; L zx[8][8]={{0}},zy[8]={0},zz[8][8]={{0}},inv[8][8]; for (int i=0;i<n;i++) for (int a=0;a<k;a++){ L z=iv?R.z[i][a]:R.x[i][a]; zy[a]+=R.w[i]*z*R.y[i]; for (int b=0;b<k;b++){ zx[a][b]+=R.w[i]*z*R.x[i][b]; zz[a][b]+=R.w[i]*z*(iv?R.z[i][b]:R.x[i][b]); } } if (solve(k,zx,inv)) return 1;
    L mx=0; for (int a=0;a<k;a++) for (int b=0;b<k;b++) mx=fmaxl(mx,fabsl(inv[a][b])*fabsl(zx[a][b])); if (mx>1e6) return 1;
    for (int a=0;a<k;a++){ R.b[a]=0; for (int b=0;b<k;b++) R.b[a]+=inv[a][b]*zy[b]; } R.sse=0; L W=0,m=0; for (int i=0;i<n;i++){ L p=0; for (int a=0;a<k;a++) p+=R.b[a]*R.x[i][a]; R.pred[i]=p; R.sse+=R.w[i]*(R.y[i]-p)*(R.y[i]-p); W+=R.w[i]; m+=R.w[i]*R.y[i]; } m/=W; R.sst=0; for (int i=0;i<n;i++) R.sst+=R.w[i]*(R.y[i]-m)*(R.y[i]-m); R.s2=R.sse/(n-k); R.r2=1-R.sse/R.sst;
    for (int a=0;a<k;a++) for (int b=0;b<k;b++){ L s=0; for (int c=0;c<k;c++) for (int d=0;d<k;d++) s+=inv[a][c]*zz[c][d]*inv[b][d]; R.cov[a][b]=R.s2*s; } return 0; }
static apop_data *gen(int sep,int named,int iv,apop_data **inst,int instcols){
    int k=R.k; double sc=vpick(((double[]){1,1,1,100,.01})); for (int i=0;i<R.n;i++){ L p=0; for (int a=0;a<k;a++){ R.x[i][a]=(!sep&&a==0)?1:(sep&&a==0&&vflip(.5))?1:vnorm()*sc; if (sep&&a==0&&i) R.x[i][a]=R.x[0][0]==1?1:R.x[i][a]; R.z[i][a]=R.x[i][a]; p+=R.x[i][a]*(a%3+.5); } R.y[i]=p+vnorm()*2; R.w[i]=R.weighted?(vflip(.1)?0:R.weighted==1?vi(1,5):vd(.1,3)):1; }
    if (R.weighted){ int nz=0; for (int i=0;i<R.n;i++) nz+=R.w[i]>0; if (nz<k+3) for (int i=0;i<R.n;i++) R.w[i]=1+i%3; }
    if (iv) for (int c=0;c<instcols;c++) for (int i=0;i<R.n;i++) R.z[i][k-1-c]=R.x[i][k-1-c]+vnorm()*sc*.5;
    apop_data *d= sep?apop_data_alloc(R.n,R.n,k):apop_data_alloc(0,R.n,k); for (int i=0;i<R.n;i++){ apop_data_set(d,i,sep?-1:0,R.y[i]); for (int a=!sep;a<k;a++) apop_data_set(d,i,a,R.x[i][a]); } if (R.weighted){ d->weights=gsl_vector_alloc(R.n); for (int i=0;i<R.n;i++) gsl_vector_set(d->weights,i,R.w[i]); }
    if (named){ if (sep) apop_name_add(d->names,"y",'v'); for (int a=0;a<k;a++){ char b[20]; sprintf(b,"x%d",a); apop_name_add(d->names,!sep&&a==0?(named==2?"":"y"):b,'c'); } }
    if (iv){ int byname=named&&vflip(.5); apop_data *z=apop_data_alloc(byname?0:instcols,R.n,instcols); for (int c=0;c<instcols;c++){ if (byname) apop_name_add(z->names,d->names->col[k-1-c],'c'); else apop_data_set(z,c,-1,k-1-c); for (int i=0;i<R.n;i++) apop_data_set(z,i,c,R.z[i][k-1-c]); } if (!byname&&R.n!=instcols) ; *inst=z; }
    return d;
}
static double tcdf2(double t,int df){ return 2*gsl_cdf_tdist_Q(fabs(t),df); }
static void f_ols(int iv){
    R.k=vi(1,4); R.n=R.k+vi(3,vflip(.1)?150:25); R.weighted=vflip(.4)?vi(1,2):0; int sep=vflip(.5),named=vflip(.5)?vi(1,2):0; if (!sep&&R.k<2) R.k=2; int mode=vi(0,3),wc=vflip(.5),wp=vflip(.5),wt=vflip(.5),wi=vflip(.5); apop_data *inst=NULL; int ic=iv?vi(1,sep?R.k:R.k-1):0; apop_data *d=gen(sep,named,iv,&inst,ic); vh_sig_data(d); v_sigd(mode*16+wc*8+wp*4+wt*2+wi); if (inst) vh_sig_data(inst);
    v_desc("%s n=%d k=%d %s%s%s, parts mode %d cov %d pred %d tests %d info %d",iv?"IV":"OLS",R.n,R.k,sep?"separate y":"y in column 0",named?", named":"",R.weighted?", weights":"",mode,wc,wp,wt,wi); if (fit(iv)){ v_trivial(); apop_data_free(d); if (inst) apop_data_free(inst); return; }
    apop_model *m=apop_model_copy(iv?apop_iv:apop_ols); int cov=1,pred=1,tests=1,info=1;
    if (mode==1){ Apop_model_add_group(m,apop_parts_wanted,.covariance=wc?'y':'n',.predicted=wp?'y':'n',.tests=wt?'y':'n',.info=wi?'y':'n'); cov=wc||wt; pred=wp; tests=wt; info=wi; }
    if (mode==2){ Apop_model_add_group(m,apop_lm,.want_cov=wc?'y':'n',.want_expected_value=wp?'y':'n'); cov=wc; tests=wc; pred=wp; } if (mode==3&&!iv) Apop_model_add_group(m,apop_lm,.destroy_data='y'); if (iv){ if (mode!=2) Apop_model_add_group(m,apop_lm,.instruments=inst); else Apop_settings_set(m,apop_lm,instruments,inst); }
    apop_model *e=apop_estimate(d,m); if (!V_CHECK(e&&!e->error,"estimate","no estimate")) goto done; apop_data *P=e->parameters; if (!V_CHECK(P&&P->vector&&(int)P->vector->size==R.k,"params","parameter shape")) goto done; double tol=1e-7;
    for (int a=0;a<R.k;a++) V_CLOSE(apop_data_get(P,a,-1),(double)R.b[a],tol,tol*sqrt(fabs((double)R.cov[a][a]))+1e-11,"params","beta %d",a); v_evn("coefficients",R.k);
    if (mode!=3){ if (d->weights) for (int i=0;i<R.n;i++) V_EQ(gsl_vector_get(d->weights,i),R.w[i],"data","weight %d changed",i); for (int i=0;i<R.n;i++){ V_EQ(apop_data_get(d,i,-1),R.y[i],"data","y %d",i); for (int a=0;a<R.k;a++) V_EQ(apop_data_get(d,i,a),R.x[i][a],"data","x %d,%d",i,a); } }
    if (named){ V_STR(d->names->vector,sep?"y":named==2?"":"y","names","dependent variable"); if (!sep) V_STR(d->names->col[0],"1","names","constant column"); V_EQ(P->names->rowct,R.k,"names","row names"); for (int a=0;a<P->names->rowct&&a<R.k;a++) V_STR(P->names->row[a],d->names->col[a],"names","parameter %d",a); }
    apop_data *C=apop_data_get_page(P,"<Covariance>"); V_CHECK(!!C==!!cov,"parts","covariance page %s",C?"not wanted":"missing"); if (C){ if (V_CHECK(C->matrix&&(int)C->matrix->size1==R.k&&(int)C->matrix->size2==R.k,"cov","shape")) for (int a=0;a<R.k;a++) for (int b=0;b<R.k;b++) V_CLOSE(apop_data_get(C,a,b),(double)R.cov[a][b],1e-6,1e-7*sqrt((double)(R.cov[a][a]*R.cov[b][b])),"cov","%d,%d",a,b); if (named&&V_CHECK(C->names->rowct==R.k&&C->names->colct==R.k,"names","covariance names")) for (int a=0;a<R.k;a++){ V_STR(C->names->row[a],d->names->col[a],"names","cov row"); V_STR(C->names->col[a],d->names->col[a],"names","cov col"); } }
    if (cov||pred) V_CLOSE(apop_data_get(P,.page="<Error variance>"),(double)R.s2,1e-6,1e-12,"s2","error variance");
    apop_data *Q=apop_data_get_page(e->info,"<Predicted>"); V_CHECK(!!Q==!!pred,"parts","predicted page %s",Q?"not wanted":"missing"); if (Q) for (int i=0;i<R.n;i++){ double ys=fabs(R.y[i])+fabs(R.pred[i]); V_EQ(apop_data_get(Q,i,.colname="observed"),R.y[i],"observed","%d",i); V_CLOSE(apop_data_get(Q,i,.colname="predicted"),R.pred[i],1e-7,1e-9*ys+1e-9,"predicted","%d",i); V_CLOSE(apop_data_get(Q,i,.colname="residual"),R.y[i]-R.pred[i],1e-6,1e-8*ys+1e-9,"residual","%d",i); V_EQ(apop_data_get(Q,i,0),R.y[i],"observed","col 0, %d",i); }
    if (!iv){ apop_data *T=apop_data_get_page(e->info,"<test info>"); V_CHECK(!!T==!!tests,"parts","tests %s",T?"not wanted":"missing"); if (T) for (int a=0;a<R.k;a++){ double se=sqrt((double)R.cov[a][a]),p=tcdf2((double)R.b[a]/se,R.n-R.k); V_CLOSE(apop_data_get(T,a,.colname="p value"),p,1e-6,1e-9,"pval","%d",a); V_CLOSE(apop_data_get(T,a,.colname="confidence"),1-p,1e-6,1e-9,"pval","confidence %d",a); } if (tests) V_EQ(apop_data_get(e->info,.rowname="df"),R.n-R.k,"df","degrees of freedom");
        L s2=(cov||pred)?R.s2:0,ll=0; if (!(cov||pred)){ L me=0,v=0; for (int i=0;i<R.n;i++) me+=sqrtl(R.w[i])*(R.y[i]-R.pred[i]); me/=R.n; for (int i=0;i<R.n;i++) v+=powl(sqrtl(R.w[i])*(R.y[i]-R.pred[i])-me,2); s2=v/(R.n-1); } for (int i=0;i<R.n;i++) if (R.w[i]) ll+=-.5*logl(2*M_PI*s2/R.w[i])-.5*R.w[i]*powl(R.y[i]-R.pred[i],2)/s2; V_CLOSE(apop_log_likelihood(d,e),(double)ll,1e-7,1e-7,"ll","log likelihood");
        if (info){ double n=R.n,k=R.k; V_CLOSE(apop_data_get(e->info,.rowname="log likelihood"),(double)ll,1e-7,1e-7,"ll","log likelihood in the info page"); V_CLOSE(apop_data_get(e->info,.rowname="AIC"),2*k-2*(double)ll,1e-7,1e-7,"ic","AIC"); V_CLOSE(apop_data_get(e->info,.rowname="BIC"),k*log(n)-2*(double)ll,1e-7,1e-7,"ic","BIC"); if (n>k+1) V_CLOSE(apop_data_get(e->info,.rowname="AIC_c"),2*k-2*(double)ll+2*k*(k+1)/(n-k-1),1e-7,1e-6,"ic","AICc"); if (pred){ V_CLOSE(apop_data_get(e->info,.rowname="SSE"),(double)R.sse,1e-6,1e-9,"ss","SSE"); V_CLOSE(apop_data_get(e->info,.rowname="SST"),(double)R.sst,1e-7,1e-9,"ss","SST"); V_CLOSE(apop_data_get(e->info,.rowname="SSR"),(double)(R.sst-R.sse),1e-6,1e-7*(double)R.sst,"ss","SSR"); V_CLOSE(apop_data_get(e->info,.rowname="R squared"),(double)R.r2,1e-7,1e-8,"r2","R squared"); V_CLOSE(apop_data_get(e->info,.rowname="R squared adj"),(double)(1-(1-R.r2)*(n-1)/(n-k)),1e-6,1e-7,"r2adj","adjusted R squared"); } } else V_CHECK(isnan(apop_data_get(e->info,.rowname="AIC")),"parts","information criteria not wanted"); }
    { apop_data *nd=apop_data_alloc(3,3,R.k); for (int i=0;i<3;i++) for (int a=0;a<R.k;a++) apop_data_set(nd,i,a,vnorm()); if (!iv){ apop_data *o=apop_predict(nd,e); if (V_CHECK(o&&o->vector,"predict","no prediction")) for (int i=0;i<3;i++){ L p=0; for (int a=0;a<R.k;a++) p+=R.b[a]*apop_data_get(nd,i,a); V_CLOSE(apop_data_get(o,i,-1),(double)p,1e-6,1e-7,"predict","%d",i); } if (o&&o!=nd) apop_data_free(o); } apop_data_free(nd); }
    v_ev(iv?"iv":"ols"); if (R.weighted) v_ev("weighted_regressions");
    done: apop_model_free(e); apop_model_free(m); if (inst) apop_data_free(inst); apop_data_free(d);
}
static void f_o(void){ f_ols(0); } static void f_iv(void){ f_ols(1); }
static int cmpd(const void*a,const void*b){ double x=*(double*)a,y=*(double*)b; return (x>y)-(x<y); }
static L log_Phi(L u){ if (u>-50) return logl(erfcl(-u/sqrtl(2))/2); L w=1/(u*u); return -u*u/2-logl(2*M_PIl)/2-logl(-u)+log1pl(-w+3*w*w-15*w*w*w+105*w*w*w*w); }
static void choice(int probit){
    int n=vi(5,40),k=vi(1,3),c=vi(2,5),sep=vflip(.5),named=vflip(.5),text=vflip(.3); if (!sep) k++; double vals[5]; int mode=vi(0,2); for (int j=0;j<c;j++) vals[j]=mode==0?j:mode==1?j+1:(j*2-3)*1.5; apop_data *d=apop_data_alloc(sep?n:0,n,k); static int y[50]; static char *labels[]={"ash","birch","cedar","elm","fir"}; if (text) apop_text_alloc(d,n,1); for (int i=0;i<n;i++){ y[i]=i<c?i:vi(0,c-1); apop_data_set(d,i,sep?-1:0,vals[y[i]]); if (text) apop_text_set(d,i,0,"%s",labels[y[i]]); for (int a=!sep;a<k;a++) apop_data_set(d,i,a,vnorm()*vpick(((double[]){1,1,3}))); }
    if (named){ if (sep) apop_name_add(d->names,"y",'v'); for (int a=0;a<k;a++){ char b[20]; sprintf(b,"x%d",a); apop_name_add(d->names,!sep&&a==0?"y":b,'c'); } } if (text){ apop_name_add(d->names,named?"y":sep?"vector":"column 0",'t'); apop_data_to_factors(d,.intype='t',.incol=0,.outcol=sep?-1:0); }
    vh_sig_data(d); v_sigd(probit); v_desc("%s n=%d k=%d %d outcomes mode %d %s%s%s",probit?"probit":"logit",n,k,c,mode,sep?"y in vector":"y in column 0",named?", named":"",text?", from text":""); apop_model *m=apop_model_copy(probit?apop_probit:apop_logit); apop_prep(d,m); if (!V_CHECK(!m->error&&m->parameters&&m->parameters->matrix&&(int)m->parameters->matrix->size1==k&&(int)m->parameters->matrix->size2==c-1,"shape","parameter shape")) goto done;
    for (int i=0;i<n;i++) V_EQ(apop_data_get(d,i,-1),y[i],"factor","outcome %d",i); double sc=vpick(((double[]){1,1,.1,30})); for (int a=0;a<k;a++) for (int j=0;j<c-1;j++) apop_data_set(m->parameters,a,j,vnorm()*sc);
    if (named) for (int a=0;a<k;a++) V_STR(m->parameters->names->row[a],sep||a?d->names->col[a]:"1","names","row %d",a); if (named||sep||text){ char b[30]; for (int j=1;j<c;j++){ if (text) strcpy(b,labels[j]); else sprintf(b,"%g",vals[j]); if (!(!named&&!sep)) V_STR(m->parameters->names->col[j-1],b,"names","column %d",j-1); } }
    L ll=0; for (int i=0;i<n;i++){ L e[5]={0},mx=0; for (int j=1;j<c;j++){ for (int a=0;a<k;a++) e[j]+=(L)apop_data_get(m->parameters,a,j-1)*apop_data_get(d,i,a); mx=fmaxl(mx,e[j]); } if (!probit){ L s=0; for (int j=0;j<c;j++) s+=expl(e[j]-mx); ll+=e[y[i]]-mx-logl(s); } else for (int j=1;j<c;j++){ int is=y[i]==j; L u=is?e[j]:-e[j]; ll+=log_Phi(u); } }
    V_CLOSE(apop_log_likelihood(d,m),(double)ll,1e-9,1e-9,"ll","log likelihood"); v_ev("likelihoods");
    if (!probit&&sc<30){ apop_data *p=apop_predict(d,m); if (V_CHECK(p&&p->matrix&&(int)p->matrix->size2==c,"predict","no prediction")) for (int i=0;i<n;i++){ L e[5]={0},s=0; int best=0; for (int j=0;j<c;j++){ if (j) for (int a=0;a<k;a++) e[j]+=(L)apop_data_get(m->parameters,a,j-1)*apop_data_get(d,i,a); s+=expl(e[j]); if (e[j]>e[best]) best=j; } for (int j=0;j<c;j++) V_CLOSE(apop_data_get(p,i,j),(double)(expl(e[j])/s),1e-9,1e-12,"predict","%d,%d",i,j); V_EQ(apop_data_get(p,i,-1),best,"best","row %d",i); } if (p&&p!=d) apop_data_free(p); }
    done: apop_model_free(m); apop_data_free(d);
}
static void f_logit(void){ choice(0); } static void f_probit(void){ choice(1); }
static void f_choice_est(void){
    int probit=vflip(.4),n=vi(150,300),k=2,c=vi(2,3); if (probit) c=2; apop_data *d=apop_data_alloc(0,n,k+1); double b[3][2]; for (int a=0;a<=k;a++) for (int j=0;j<c-1;j++) b[a][j]=vnorm()*.7; int seen[3]={0}; for (int i=0;i<n;i++){ double e[3]={0},u[3]; for (int a=1;a<=k;a++) apop_data_set(d,i,a,vnorm()); for (int j=1;j<c;j++) for (int a=0;a<=k;a++) e[j]+=b[a][j-1]*(a?apop_data_get(d,i,a):1); int best=0; for (int j=0;j<c;j++){ u[j]=probit?(j?e[j]+vnorm():0):e[j]-log(-log(vd(1e-12,1))); if (u[j]>u[best]) best=j; } apop_data_set(d,i,0,best+5); seen[best]++; }
    vh_sig_data(d); v_desc("%s estimate n=%d %d outcomes",probit?"probit":"logit",n,c); for (int j=0;j<c;j++) if (seen[j]<15){ v_trivial(); apop_data_free(d); return; }
    apop_model *e=apop_estimate(d,probit?apop_probit:apop_logit); if (V_CHECK(e&&!e->error,"estimate","no estimate")){ double lle=apop_log_likelihood(d,e); V_CLOSE(apop_data_get(e->info,.rowname="log likelihood"),lle,1e-6,1e-6,"infoll","log likelihood in info"); apop_data *keep=apop_data_copy(e->parameters); for (int a=0;a<=k;a++) for (int j=0;j<c-1;j++) apop_data_set(e->parameters,a,j,b[a][j]); double llt=apop_log_likelihood(d,e); V_CHECK(lle>=llt-.2,"optimum","log likelihood %.6g at the estimate, %.6g at the parameters the data were made with",lle,llt); apop_data_memcpy(e->parameters,keep); apop_data_free(keep); v_ev("choice_estimates"); } apop_model_free(e); apop_data_free(d);
}
vh_family vh_families[]={{"ols",f_o,1500,50000},{"iv",f_iv,500,15000},{"logit",f_logit,800,25000},{"probit",f_probit,800,25000},{"choice",f_choice_est,24,600},{NULL}};
