#include "vh.h"
#include <gsl/gsl_sf_gamma.h>
const char *vh_rule = "Random vectors, strided views and symmetric matrices (definite, semidefinite, indefinite, zero) with every rounding rule, normalisation and metric; results compared with references computed here. Distinct by data and options.";
typedef long double L;
static gsl_vector *mkv(int n,gsl_vector **own,int kind){ int st=vi(1,3); *own=gsl_vector_alloc(n*st+1); gsl_vector_set_all(*own,-44e9); gsl_vector *v=malloc(sizeof *v); *v=gsl_vector_subvector_with_stride(*own,0,st,n).vector; for (int i=0;i<n;i++){ double x=kind==0?vnorm():kind==1?vi(-4,4):kind==2?fabs(vnorm())*10:vval(); gsl_vector_set(v,i,x); v_sigd(x); } return v; }
static void same(const gsl_vector *own,const gsl_vector *c,const char *what){ for (size_t i=0;i<own->size;i++) V_EQ(gsl_vector_get(own,i),gsl_vector_get(c,i),"input","%s %zu changed",what,i); }
static int cmp(const void *a,const void *b){ double x=*(double*)a,y=*(double*)b; return (x>y)-(x<y); }
static double g(const gsl_vector *v,int i){ return gsl_vector_get(v,i); }
static void f_pct(void){
    int n=vflip(.2)?vpick(((int[]){1,2,100,101,102,201,50,51,26})):vi(1,300); gsl_vector *own,*v=mkv(n,&own,vi(0,3)),*c=apop_vector_copy(own); char r=vpick("dua0"); if (!r) r='0'; v_sig(&r,1); v_desc("%d values, rounding %c",n,r);
    double *p= r=='0'?apop_vector_percentiles(v):apop_vector_percentiles(v,r), s[300]; for (int i=0;i<n;i++) s[i]=g(v,i); qsort(s,n,sizeof(double),cmp);
    for (int i=0;i<101;i++){ int num=i*(n-1), lo=num/100, hi=lo+(num%100!=0); V_EQ(p[i],r=='u'?s[hi]:r=='a'?(s[lo]+s[hi])/2.:s[lo],"percentile","percentile %d",i); if (i) V_CHECK(p[i]>=p[i-1],"order","percentile %d below its predecessor",i); }
    V_EQ(p[0],s[0],"min","minimum"); V_EQ(p[100],s[n-1],"max","maximum"); same(own,c,"input"); free(p); gsl_vector_free(c); free(v); gsl_vector_free(own); v_evn("percentiles",101); if (vflip(.02)) V_CHECK(!apop_vector_percentiles(NULL),"null","NULL"); }
static void f_norm(void){
    int n=vi(2,30); gsl_vector *own,*v=mkv(n,&own,vi(0,2)),*c=apop_vector_copy(own),*out=NULL; char t=vpick("prsmx"); if (t=='x'||!t) t=0; int inplace=vflip(.5); v_sig(&t,1); v_desc("%d values, type %c, %s",n,t?t:'0',inplace?"in place":"copy"); double x[30],mn=INFINITY,mx=-INFINITY; L S=0,SA=0; for (int i=0;i<n;i++){ x[i]=g(v,i); S+=x[i]; SA+=fabs(x[i]); mn=fmin(mn,x[i]); mx=fmax(mx,x[i]); }
    L mu=S/n,var=0; for (int i=0;i<n;i++) var+=(x[i]-mu)*(x[i]-mu); var/=n-1; if (mn==mx&&(t=='r'||t=='s')) { v_trivial(); goto done; } if ((!t||t=='p')&&fabsl(S)<1e-3*SA&&S!=0) { v_trivial(); goto done; }
    if (inplace) { if (!t) apop_vector_normalize(v); else apop_vector_normalize(v,NULL,t); } else { if (!t) apop_vector_normalize(v,&out); else apop_vector_normalize(v,&out,t); same(own,c,"input"); }
    gsl_vector *o=inplace?v:out; if (V_CHECK(o&&(int)o->size==n,"shape","no output")) for (int i=0;i<n;i++){ L e=t=='r'?(x[i]-mn)/((L)mx-mn):t=='s'?(x[i]-mu)/sqrtl(var):t=='m'?x[i]-mu:S?x[i]/S:x[i]; V_CLOSE(g(o,i),e,1e-11,t=='m'||t=='s'?1e-14*(SA/(t=='s'?sqrtl(var):1)):t=='r'?1e-13:1e-14,"value","type %c, element %d",t?t:'p',i); v_ev("elements"); }
    if (inplace) for (size_t i=0;i<own->size;i++) if (i%v->stride||i/v->stride>=(size_t)n) V_EQ(g(own,i),-44e9,"guard","outside the view");
    done: gsl_vector_free(out); gsl_vector_free(c); free(v); gsl_vector_free(own); apop_vector_normalize(NULL); }
static void f_dist(void){
    int ncalls=vi(1,4); for (int q=0;q<ncalls;q++){ int n=vi(1,30),k=vi(0,2); gsl_vector *o1,*o2,*a=mkv(n,&o1,k),*b=mkv(n,&o2,k),*c1=apop_vector_copy(o1),*c2=apop_vector_copy(o2); if (vflip(.1)) gsl_vector_memcpy(b,a),gsl_vector_memcpy(c2,o2); int zero=vflip(.25); char m=vpick("eEmMdDsSlL"); if (!m) m='e'; double p=vflip(.5)?vi(1,5):vd(.3,6); L s=0,mx=0; int diff=0,P=m=='l'||m=='L'; double pp=vflip(.3)?2:p;
        v_sig(&m,1); v_sigd(pp); for (int i=0;i<n;i++){ L d=fabsl((L)g(a,i)-(zero?0:g(b,i))); if (d) diff=1; mx=fmaxl(mx,d); s+=m=='e'||m=='E'?d*d:P?powl(d,pp):d; } double e= m=='e'||m=='E'?sqrtl(s):P?powl(s,1/(L)pp):m=='m'||m=='M'?s:m=='s'||m=='S'?mx:diff; v_desc("%d values, metric %c %g%s; ",n,m,pp,zero?", to zero":"");
        double got= zero? (P?apop_vector_distance(a,.metric=m,.norm=pp):m=='e'?apop_vector_distance(a):apop_vector_distance(a,.metric=m)) : P?(pp==2?apop_vector_distance(a,b,m):apop_vector_distance(a,b,m,pp)):m=='e'?apop_vector_distance(a,b):apop_vector_distance(a,b,m); V_CLOSE(got,e,1e-12,1e-300,"distance","metric %c",m); v_ev("distances"); same(o1,c1,"first"); same(o2,c2,"second");
        if (vflip(.05)){ gsl_vector *w=gsl_vector_calloc(n+1); V_CHECK(isnan(apop_vector_distance(a,w))&&isnan(apop_vector_distance(NULL,w))&&isnan(apop_vector_distance(a,a,'q')),"bad","bad input gave a distance"); gsl_vector_free(w); }
        gsl_vector_free(c1); gsl_vector_free(c2); free(a); free(b); gsl_vector_free(o1); gsl_vector_free(o2); } }
static void f_misc(void){
    int n=vi(1,30); gsl_vector *own,*v=mkv(n,&own,2); for (int i=0;i<n;i++) if (vflip(.2)) gsl_vector_set(v,i,0); int neg=vflip(.1); if (neg) gsl_vector_set(v,vi(0,n-1),-.01); gsl_vector *c=apop_vector_copy(own); L S=0,H=0; for (int i=0;i<n;i++) S+=g(v,i); for (int i=0;i<n;i++) if (g(v,i)>0) H-=g(v,i)/S*logl(g(v,i)/S); v_desc("%d values%s",n,neg?", one negative":"");
    L e=apop_vector_entropy(v); if (neg&&S!=0) V_CHECK(isnan((double)e),"negative","entropy %Lg with a negative element",e); else V_CLOSE((double)e,S?(double)H:0,1e-12,1e-13,"entropy","entropy"); same(own,c,"input"); V_EQ(apop_vector_entropy(NULL),0,"null","entropy of NULL");
    // bounded
    gsl_vector *b=apop_vector_copy(v); double M=0; for (int i=0;i<n;i++){ gsl_vector_set(b,i,vnorm()*10); M=fmax(M,fabs(g(b,i))); } int bad=vflip(.3); if (bad) gsl_vector_set(b,vi(0,n-1),vpick(((double[]){NAN,INFINITY,-INFINITY}))); V_EQ(apop_vector_bounded(b),!bad,"bounded","no bound given"); V_EQ(apop_vector_bounded(b,(long double)(M*1.01)),!bad,"bounded","wide bound"); V_EQ(apop_vector_bounded(b,(long double)(M*.99)),0,"bounded","tight bound"); V_EQ(apop_vector_bounded(NULL),1,"bounded","NULL"); gsl_vector_free(b); v_ev("bounds");
    // moving average
    int bw=vi(1,9), h=bw/2; gsl_vector *ma=apop_vector_moving_average(v,bw); if (n<=h*2) V_CHECK(!ma,"wide","a bandwidth of %d over %d elements gave an average",bw,n); else if (V_CHECK(ma&&(int)ma->size==n-h*2,"masize","size of the moving average")) for (int i=0;i<n-h*2;i++){ L s=0; for (int j=0;j<2*h+1;j++) s+=g(v,i+j); int ok=v_close(g(ma,i),s/(2*h+1),1e-12,1e-14); if (bw%2==0&&!ok) for (int o=0;o<2;o++){ L s2=0; for (int j=0;j<bw;j++) s2+=g(v,i+j+o); ok|=v_close(g(ma,i),s2/bw,1e-12,1e-14); } V_CHECK(ok,"moving","element %d is %g",i,g(ma,i)); v_ev("averages"); } gsl_vector_free(ma); if (vflip(.1)) V_CHECK(!apop_vector_moving_average(NULL,3),"null","NULL"); same(own,c,"input");
    // multivariate gamma
    int p=vi(1,6); double a=vflip(.3)?vi(-4,12)/2.:vd((p-1)/2.+.05,12); int pole=0,negarg=0; L lg=0; for (int j=1;j<=p;j++){ double x=a+(1-j)/2.; if (x<=0&&x==floor(x)) pole=1; if (x<0) negarg=1; if (x>0||x!=floor(x)) lg+=lgamma(x); } L want=p*(p-1)/4.*logl(M_PI)+lg; if (pole) V_CHECK(isnan((double)apop_multivariate_gamma(a,p))&&isnan((double)apop_multivariate_lngamma(a,p)),"pole","a=%g p=%d is a pole",a,p); else { V_CLOSE((double)apop_multivariate_lngamma(a,p),(double)want,1e-11,1e-11,"mvlngamma","a=%g, p=%d",a,p); if (!negarg&&want<600) V_CLOSE((double)apop_multivariate_gamma(a,p),(double)expl(want),1e-9,0,"mvgamma","a=%g, p=%d",a,p); } v_ev("gammas");
    // entropy of a normal
    double sg=exp(vnorm()); apop_model *m=apop_model_set_parameters(apop_normal,vnorm()*5,sg); V_CLOSE((double)apop_model_entropy(m),log(sg)+.5*log(2*M_PI*M_E),1e-12,1e-12,"normentropy","sigma %g",sg); apop_model_free(m);
    gsl_vector_free(c); free(v); gsl_vector_free(own);
}
static void jacobi(int n,double *A,double *w){ for (int sw=0;sw<60;sw++){ double off=0; for (int i=0;i<n;i++) for (int j=0;j<i;j++) off+=A[i*n+j]*A[i*n+j]; if (off<1e-300) break; for (int p=0;p<n;p++) for (int q=p+1;q<n;q++) if (A[p*n+q]){ double th=(A[q*n+q]-A[p*n+p])/(2*A[p*n+q]),t=(th>=0?1:-1)/(fabs(th)+sqrt(th*th+1)),c=1/sqrt(t*t+1),s=t*c; for (int k=0;k<n;k++){ double x=A[k*n+p],y=A[k*n+q]; A[k*n+p]=c*x-s*y; A[k*n+q]=s*x+c*y; } for (int k=0;k<n;k++){ double x=A[p*n+k],y=A[q*n+k]; A[p*n+k]=c*x-s*y; A[q*n+k]=s*x+c*y; } } } for (int i=0;i<n;i++) w[i]=A[i*n+i]; }
static double mineig(const gsl_matrix *m,double *mx){ int n=m->size1; double A[64],w[8],lo=INFINITY; *mx=0; for (int i=0;i<n;i++) for (int j=0;j<n;j++) A[i*n+j]=gsl_matrix_get(m,i,j); jacobi(n,A,w); for (int i=0;i<n;i++){ lo=fmin(lo,w[i]); *mx=fmax(*mx,fabs(w[i])); } return lo; }
static void f_psd(void){
    int n=vi(1,6),kind=vi(0,5); gsl_matrix *own=gsl_matrix_alloc(n+1,n+1); gsl_matrix_set_all(own,7e7); gsl_matrix m=gsl_matrix_submatrix(own,1,1,n,n).matrix; double B[8][8]; int rank=kind==1?vi(0,n-1):n; double sc=vflip(.7)?1:pow(10,vi(-4,4)); for (int i=0;i<n;i++) for (int j=0;j<rank;j++) B[i][j]=kind==1?vi(-3,3):vnorm();
    for (int i=0;i<n;i++) for (int j=0;j<=i;j++){ double x; if (kind<=1){ x=0; for (int k=0;k<rank;k++) x+=B[i][k]*B[j][k]; } else if (kind==2) x=vnorm()*(i==j?2:1); else if (kind==3) x=vi(-2,2); else if (kind==4) x=i==j?vi(-1,3):0; else x=i==j?1:vd(-1,1); x*=sc; gsl_matrix_set(&m,i,j,x); gsl_matrix_set(&m,j,i,x); v_sigd(x); }
    double mx,lo=mineig(&m,&mx); v_desc("%dx%d, kind %d, eigenvalues from %g, largest %g",n,n,kind,lo,mx); gsl_matrix *c=apop_matrix_copy(&m);
    int clear=fabs(lo)>1e-6*mx, pd=clear&&lo>0, psd=lo>-1e-14*mx; if (clear){ V_EQ(apop_matrix_is_positive_semidefinite(&m),psd,"is_psd","is it PSD, with least eigenvalue %g",lo); V_EQ(apop_matrix_is_positive_semidefinite(&m,'d'),pd,"is_pd","is it PD, with least eigenvalue %g",lo); v_ev("definiteness"); }
    else if (kind==1) { V_EQ(apop_matrix_is_positive_semidefinite(&m),1,"gram","a Gram matrix of low rank, with least eigenvalue %g",lo); v_ev("singular_grams"); }
    else if (psd&&kind==4) { V_EQ(apop_matrix_is_positive_semidefinite(&m),1,"singular","a diagonal matrix with zeros"); V_EQ(apop_matrix_is_positive_semidefinite(&m,'d'),0,"singular_d","a diagonal matrix with zeros"); }
    for (int i=0;i<n;i++) for (int j=0;j<n;j++) V_EQ(gsl_matrix_get(&m,i,j),gsl_matrix_get(c,i,j),"input","the test changed its input");
    if (clear||kind==4||kind==1){ double d=apop_matrix_to_positive_semidefinite(&m); V_CHECK(vh_gsl_handler_intact(),"handler","the GSL error handler was left changed"); double mx2,lo2=mineig(&m,&mx2),dm=0,om=0; for (int i=0;i<n;i++) for (int j=0;j<n;j++){ dm=fmax(dm,fabs(gsl_matrix_get(&m,i,j)-gsl_matrix_get(c,i,j))); om=fmax(om,fabs(gsl_matrix_get(c,i,j))); V_CLOSE(gsl_matrix_get(&m,i,j),gsl_matrix_get(&m,j,i),1e-9,1e-9*mx2,"symmetric","%d,%d",i,j); }
        V_CHECK(lo2>=-1e-9*mx2,"psd","least eigenvalue of the result is %g of %g",lo2,mx2); if (pd){ V_EQ(d,0,"already","distance for a positive definite matrix"); V_EQ(dm,0,"already","change in a positive definite matrix"); } else if (clear) { V_CHECK(d>0,"moved","not positive definite, but the distance is %g",d); V_CLOSE(d,om?dm/om:dm,1e-9,1e-12,"distance","distance moved"); } v_ev("made_definite"); }
    for (int i=0;i<=n;i++) V_EQ(gsl_matrix_get(own,0,i),7e7,"guard","outside the view"); V_EQ(apop_matrix_is_positive_semidefinite(NULL),0,"null","NULL"); V_CHECK(isnan(apop_matrix_to_positive_semidefinite(NULL)),"null","NULL"); gsl_matrix_free(c); gsl_matrix_free(own);
}
vh_family vh_families[]={{"percentiles",f_pct,3000,100000},{"normalize",f_norm,3000,100000},{"distance",f_dist,3000,100000},{"misc",f_misc,3000,100000},{"psd",f_psd,2500,80000},{NULL}};
