#include "vh.h"
const char *vh_rule = "Random vectors, strided views, matrices and weighted data sets, at offsets and scales up to 1e6, with no, uniform, normalised and replicate weights; every moment compared with a long double two-pass reference. Distinct by data and weights.";
typedef long double L;
static gsl_vector *mkv(int n,double off,double sc,gsl_vector **own){ int st=vi(1,3); *own=gsl_vector_alloc(n*st+1); gsl_vector_set_all(*own,-44e9); gsl_vector *v=malloc(sizeof *v); *v=gsl_vector_subvector_with_stride(*own,0,st,n).vector; int k=vi(0,3); for (int i=0;i<n;i++){ double x=k==0?vnorm():k==1?vi(-4,4):k==2?-log(vd(1e-9,1)):vval(); if (k!=3) x=x*sc+off; gsl_vector_set(v,i,x); v_sigd(x); } return v; }
static gsl_vector *mkw(int n,int kind,gsl_vector **own){ // kind 1: uniform replicate; 2: uniform, sums to one; 3: replicate; 4: normalised
    int st=vi(1,2); *own=gsl_vector_alloc(n*st+1); gsl_vector_set_all(*own,-1e9); gsl_vector *v=malloc(sizeof *v); *v=gsl_vector_subvector_with_stride(*own,0,st,n).vector; double s=0,x[600],u=kind==1?1:0; for (int i=0;i<n;i++){ x[i]=kind<=2?1:vflip(.5)?vi(0,5):vd(.01,4); s+=x[i]; } if (s<2&&kind>=3){ x[0]+=2; s+=2; } if (kind==2||kind==4) for (int i=0;i<n;i++) x[i]/=s; (void)u; for (int i=0;i<n;i++){ gsl_vector_set(v,i,x[i]); v_sigd(x[i]); } return v; }
static void vfree(gsl_vector *v,gsl_vector *own){ free(v); gsl_vector_free(own); }
static L wsum(const gsl_vector *w,int n){ if (!w) return n; L s=0; for (int i=0;i<n;i++) s+=gsl_vector_get(w,i); return s; }
static L G(const gsl_vector *v,int i){ return gsl_vector_get(v,i); }
static L mean(const gsl_vector *v,const gsl_vector *w){ L s=0; for (size_t i=0;i<v->size;i++) s+=(w?G(w,i):1)*G(v,i); return s/wsum(w,v->size); }
static L cmom(const gsl_vector *v,const gsl_vector *w,int p,L *absm){ L m=mean(v,w),s=0,a=0; for (size_t i=0;i<v->size;i++){ L t=(w?G(w,i):1)*powl(G(v,i)-m,p); s+=t; a+=fabsl(t); } L W=wsum(w,v->size); if (absm) *absm=a/W; return s/W; }
static L ccov(const gsl_vector *a,const gsl_vector *b,const gsl_vector *w,L *absm){ L ma=mean(a,w),mb=mean(b,w),s=0,t=0; for (size_t i=0;i<a->size;i++){ L q=(w?G(w,i):1)*(G(a,i)-ma)*(G(b,i)-mb); s+=q; t+=fabsl(q); } L W=wsum(w,a->size), len=W<1.1?a->size:W; if (absm) *absm=t/W*len/(len-1); return s/W*len/(len-1); }
static double amax(const gsl_vector *v){ double m=0; for (size_t i=0;i<v->size;i++) m=fmax(m,fabs(gsl_vector_get(v,i))); return m; }
static void same(const gsl_vector *own,const gsl_vector *c,const char *what){ for (size_t i=0;i<own->size;i++) V_EQ(gsl_vector_get(own,i),gsl_vector_get(c,i),"input","%s %zu changed",what,i); }
static void f_vec(void){
    int n=vflip(.1)?vi(100,500):vflip(.1)?2:vi(2,25); double off=vflip(.4)?0:vflip(.5)?vd(-20,20):vpick(((double[]){1e3,-1e4,1e6})), sc=vflip(.5)?1:exp(vnorm()*3); gsl_vector *o1,*o2,*ow=NULL,*v=mkv(n,off,sc,&o1),*u=mkv(n,vflip(.5)?0:off,sc,&o2),*w=NULL; int wk=vi(0,4); if (wk) w=mkw(n,wk,&ow); if (vflip(.05)) gsl_vector_memcpy(u,v);
    v_desc("%d values, offset %g, scale %g, weights %d",n,off,sc,wk); gsl_vector *c1=apop_vector_copy(o1),*c2=apop_vector_copy(o2),*c3=ow?apop_vector_copy(ow):NULL; double M=amax(v),U=amax(u),eps=n*2e-15;
    L a,S=0,SA=0; for (int i=0;i<n;i++){ S+=G(v,i); SA+=fabsl(G(v,i)); } V_CLOSE(apop_vector_sum(v),S,0,1e-17*n*SA,"sum","sum"); V_CLOSE(apop_sum(v),S,0,1e-17*n*SA,"sum","sum alias");
    double W=wsum(w,n); L m=mean(v,w); V_CLOSE(w?apop_vector_mean(v,w):apop_vector_mean(v),m,0,eps*M,"mean","mean, weights %d",wk); if (!w) V_CLOSE(apop_mean(v),m,0,eps*M,"mean","mean alias");
    double len=W<1.1?n:W; if (len-1<.5) { v_trivial(); goto done; }
    L var=ccov(v,v,w,NULL); double sd=sqrtl(fabsl(var))+1e-300, sdu=sqrtl(fabsl(ccov(u,u,w,NULL)))+1e-300; double vtol=eps*sd*(sd+M*1e-2)+eps*eps*M*M*10; // error in the mean is second order
    V_CLOSE(w?apop_vector_var(v,w):apop_vector_var(v),var,1e-12,vtol,"var","variance, weights %d",wk); if (!w) { V_CLOSE(apop_var(v),var,1e-12,vtol,"var","variance alias"); V_CLOSE(apop_vector_var_m(v,(double)m),var,1e-12,vtol,"var_m","variance, given the mean"); }
    L cov=ccov(v,u,w,&a); double ctol=eps*(a+M*sdu*1e-2+U*sd*1e-2)+eps*eps*M*U*10; V_CLOSE(w?apop_vector_cov(v,u,w):apop_vector_cov(v,u),cov,0,ctol,"cov","covariance, weights %d",wk); V_CLOSE(apop_vector_cov(u,v,w),cov,0,ctol,"cov","covariance the other way");
    if (sd>1e-9*M&&sdu>1e-9*U&&sd>1e-200&&sdu>1e-200){ double r=w?apop_vector_correlation(v,u,w):apop_vector_correlation(v,u); V_CLOSE(r,(double)(cov/sd/sdu),1e-11,ctol/sd/sdu+eps*(M/sd+U/sdu)*.1,"corr","correlation"); V_CHECK(fabs(r)<=1+1e-6,"corr1","correlation %g",r); }
    L s3=cmom(v,w,3,&a); double t3=eps*3*(a+M*sd*sd*.1)+1e-14*M*M*M*eps*1e3; V_CLOSE(w?apop_vector_skew_pop(v,w):apop_vector_skew_pop(v),s3,0,t3,"skew","population skew, weights %d",wk); L s4=cmom(v,w,4,&a); double t4=eps*4*(a+M*sd*sd*sd*.1)+1e-14*M*M*M*M*eps*1e3; V_CLOSE(w?apop_vector_kurtosis_pop(v,w):apop_vector_kurtosis_pop(v),s4,0,t4,"kurtosis","population kurtosis, weights %d",wk);
    if (!w&&n>3){ V_CLOSE(apop_vector_skew(v),s3*n*n/((n-1.L)*(n-2)),0,t3*3,"sskew","sample skew"); L m2=cmom(v,NULL,2,NULL),N=n; L k=(N*(N*N-2*N+3)*s4-3*N*(2*N-3)*m2*m2)/((N-1)*(N-2)*(N-3)); V_CLOSE(apop_vector_kurtosis(v),k,0,t4*20+1e-12*m2*m2*20,"skurt","sample kurtosis"); }
    if (wk==2){ V_CLOSE(apop_vector_var(v,w),apop_vector_var(v),1e-9,vtol*2,"uniform","uniform weights' variance"); V_CLOSE(apop_vector_skew_pop(v,w),apop_vector_skew_pop(v),0,t3*2,"uniform","uniform weights' skew"); V_CLOSE(apop_vector_kurtosis_pop(v,w),apop_vector_kurtosis_pop(v),0,t4*2,"uniform","uniform weights' kurtosis"); }
    v_ev("moment_sets");
    done: same(o1,c1,"vector"); same(o2,c2,"second vector"); if (ow) same(ow,c3,"weights"); gsl_vector_free(c1); gsl_vector_free(c2); gsl_vector_free(c3); vfree(v,o1); vfree(u,o2); if (w) vfree(w,ow);
    if (vflip(.02)){ gsl_vector *a1=gsl_vector_alloc(3),*b1=gsl_vector_alloc(4); gsl_vector_set_all(a1,1); gsl_vector_set_all(b1,2); V_CHECK(isnan(apop_vector_mean(NULL))&&isnan(apop_vector_var(NULL))&&isnan(apop_vector_mean(a1,b1))&&isnan(apop_vector_var(a1,b1))&&isnan(apop_vector_cov(a1,b1))&&isnan(apop_vector_cov(a1,NULL))&&isnan(apop_vector_skew_pop(a1,b1))&&isnan(apop_vector_kurtosis_pop(a1,b1))&&apop_vector_sum(NULL)==0,"bad","mismatched or missing vectors were not reported as NaN"); gsl_vector_free(a1); gsl_vector_free(b1); v_ev("bad_inputs"); }
}
static void f_matrix(void){
    int r=vi(1,vflip(.1)?60:8),c=vi(1,8); gsl_matrix *own=gsl_matrix_alloc(r+1,c+2); gsl_matrix_set_all(own,1e200); gsl_matrix m=gsl_matrix_submatrix(own,1,1,r,c).matrix; double off=vflip(.5)?0:vd(-1e4,1e4); L s=0,sa=0,ss=0; for (int i=0;i<r;i++) for (int j=0;j<c;j++){ double x=vflip(.3)?vi(-5,5):vnorm()*3+off; gsl_matrix_set(&m,i,j,x); v_sigd(x); s+=x; sa+=fabs(x); } L mu=s/(r*c); for (int i=0;i<r;i++) for (int j=0;j<c;j++) ss+=powl(gsl_matrix_get(&m,i,j)-mu,2); ss/=r*c; v_desc("%dx%d, offset %g",r,c,off);
    V_CLOSE(apop_matrix_sum(&m),s,0,1e-17*r*c*sa,"msum","sum"); V_CLOSE(apop_matrix_mean(&m),mu,0,1e-15*sa,"mmean","mean"); double a,b; apop_matrix_mean_and_var(&m,&a,&b); V_CLOSE(a,mu,0,1e-15*sa,"mmean","mean with the variance"); V_CLOSE(b,ss,1e-12,1e-15*(ss+mu*mu),"mvar","population variance"); v_ev("matrices");
    V_EQ(apop_matrix_sum(NULL),0,"null","NULL"); apop_matrix_mean_and_var(NULL,&a,&b); V_EQ(a,0,"null","mean of NULL"); V_CHECK(isnan(b),"null","variance of NULL"); gsl_matrix_free(own);
}
static void f_data(void){
    vh_shape s={.m1=vi(2,vflip(.1)?60:12),.m2=vi(1,6),.vsize=vflip(.3)?-1:0,.colnames=vflip(.6),.rownames=vflip(.4),.title=vflip(.4),.plainstr=1}; if (s.vsize) s.vsize=s.m1; apop_data *d=vh_data(s); double off=vflip(.5)?0:vd(-1e3,1e3); for (int i=0;i<s.m1;i++) for (int j=0;j<s.m2;j++) apop_data_set(d,i,j,vnorm()*vd(.5,2)+off); int wk=vi(0,4); gsl_vector *ow,*w; if (wk){ w=mkw(s.m1,wk,&ow); d->weights=apop_vector_copy(w); vfree(w,ow); }
    vh_sig_data(d); v_desc("%dx%d, offset %g, weights %d",s.m1,s.m2,off,wk); char *b=vh_dump(d,true); double len=wsum(d->weights,s.m1); if (len<1.1) len=s.m1; if (len<1.5) { v_trivial(); free(b); apop_data_free(d); return; }
    apop_data *cv=apop_data_covariance(d),*co=apop_data_correlation(d),*su=apop_data_summarize(d); char *af=vh_dump(d,true); V_STR(af,b,"input","the input was changed"); free(af); free(b);
    if (V_CHECK(cv&&co&&su&&(int)cv->matrix->size1==s.m2&&(int)cv->matrix->size2==s.m2&&(int)co->matrix->size1==s.m2&&(int)su->matrix->size1==s.m2&&su->matrix->size2==6,"shape","output shapes"))
    for (int i=0;i<s.m2;i++){ gsl_vector vi_=gsl_matrix_column(d->matrix,i).vector; L vv=ccov(&vi_,&vi_,d->weights,NULL);
        for (int j=0;j<s.m2;j++){ gsl_vector vj=gsl_matrix_column(d->matrix,j).vector; L c=ccov(&vi_,&vj,d->weights,NULL),v2=ccov(&vj,&vj,d->weights,NULL); V_CLOSE(apop_data_get(cv,i,j),c,1e-9,1e-10,"dcov","covariance %d,%d",i,j); V_CLOSE(apop_data_get(co,i,j),c/sqrtl(vv*v2),1e-8,1e-9,"dcorr","correlation %d,%d",i,j); v_ev("covariances"); }
        double mx=-INFINITY,mn=INFINITY; double srt[60]; for (int k=0;k<s.m1;k++){ srt[k]=apop_data_get(d,k,i); mx=fmax(mx,srt[k]); mn=fmin(mn,srt[k]); for (int q=k;q&&srt[q]<srt[q-1];q--){ double t=srt[q]; srt[q]=srt[q-1]; srt[q-1]=t; } }
        double want[]={mean(&vi_,d->weights),sqrtl(vv),vv,mn,srt[(50*(s.m1-1))/100],mx}; for (int k=0;k<6;k++) V_CLOSE(apop_data_get(su,i,k),want[k],1e-9,1e-10,"summary","summary of column %d, item %d",i,k); }
    static const char *nm[]={"mean","std dev","variance","min","median","max"}; for (int k=0;k<6&&k<su->names->colct;k++) V_STR(su->names->col[k],nm[k],"sumnames","%d",k);
    if (s.colnames) for (int i=0;i<s.m2;i++){ V_STR(cv->names->col[i],d->names->col[i],"names","covariance columns %d",i); V_STR(cv->names->row[i],d->names->col[i],"names","covariance rows %d",i); V_STR(co->names->row[i],d->names->col[i],"names","correlation rows %d",i); V_STR(su->names->row[i],d->names->col[i],"names","summary rows %d",i); }
    if (s.title&&d->names->title&&*d->names->title){ char *t; if (asprintf(&t,"summary for %s",d->names->title)>0) V_STR(su->names->title,t,"title","title"); free(t); }
    apop_data_free(cv); apop_data_free(co); apop_data_free(su); apop_data_free(d);
    if (vflip(.02)) V_CHECK(!apop_data_covariance(NULL)&&!apop_data_correlation(NULL)&&!apop_data_summarize(NULL),"null","NULL input");
}
vh_family vh_families[]={{"vectors",f_vec,6000,250000},{"matrices",f_matrix,1500,50000},{"data",f_data,1500,60000},{NULL}};
