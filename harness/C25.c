#include "vh.h"
const char *vh_rule = "Random samples and tables within each test's domain: t tests, paired t tests, F tests of random linear contrasts after OLS, one- and two-way ANOVA of balanced and unbalanced tables in the database, chi-squared and Fisher exact tests of contingency tables, goodness of fit, one- and two-sample Kolmogorov-Smirnov and apop_test over every distribution and tail, checked against textbook formulas, exact enumeration (Fisher) and exact recursions (Kolmogorov) written in the harness. Distinct by data and settings.";
typedef long double L;
static double G(apop_data *o,const char *n){ for (int i=0;i<o->names->rowct;i++) if (!strcasecmp(o->names->row[i],n)) return gsl_vector_get(o->vector,i); v_fail("names","no element named %s",n); return NAN; }
static gsl_vector *vec(int n,double mu,double sc){ gsl_vector *v=gsl_vector_alloc(n); int q=vflip(.3); for (int i=0;i<n;i++){ double x=mu+vnorm()*sc; gsl_vector_set(v,i,q?floor(x*2)/2:x); } return v; }
static void mv(gsl_vector *v,L *m,L *s2){ L a=0,b=0; for (size_t i=0;i<v->size;i++) a+=v->data[i]; a/=v->size; for (size_t i=0;i<v->size;i++) b+=(v->data[i]-a)*(v->data[i]-a); *m=a; *s2=v->size>1?b/(v->size-1):0; }
static void tout(apop_data *o,double diff,double stat,int df,double sc){ if (!V_CHECK(o&&o->vector,"null","no output")) return; V_CLOSE(G(o,"mean left - right"),diff,1e-9,1e-12*sc,"diff","difference in means"); V_CLOSE(G(o,"t statistic"),stat,1e-7,1e-9,"t","t statistic"); V_EQ(G(o,"df"),df,"df","df"); double q=gsl_cdf_tdist_Q(fabs(stat),df); V_CLOSE(G(o,"p value, 1 tail"),q,1e-6,1e-9,"p1","one-tailed p"); V_CLOSE(G(o,"p value, 2 tail"),2*q,1e-6,1e-9,"p2","two-tailed p"); V_CLOSE(G(o,"confidence, 1 tail"),1-q,1e-6,1e-9,"c1","one-tailed confidence"); V_CLOSE(G(o,"confidence, 2 tail"),1-2*q,1e-6,1e-9,"c2","two-tailed confidence"); v_ev("t_tests"); }
static void f_t(void){
    int paired=vflip(.5),n1=vi(2,vflip(.2)?60:12),n2=paired?n1:vi(2,20); double sc=vpick(((double[]){1,1,1e-4,1e4})),mu=vnorm()*3*sc; gsl_vector *a=vec(n1,mu,sc),*b=vec(n2,vflip(.5)?mu:mu+sc*vnorm()*2,sc*vd(.3,3)); gsl_vector *a2=apop_vector_copy(a),*b2=apop_vector_copy(b); v_sigd(paired); for (int i=0;i<n1;i++) v_sigd(a->data[i]); for (int i=0;i<n2;i++) v_sigd(b->data[i]); v_desc("%st test, n=%d, %d",paired?"paired ":"",n1,n2);
    L ma,sa,mb,sb; mv(a,&ma,&sa); mv(b,&mb,&sb); double stat; int df; if (!paired){ stat=(ma-mb)/sqrtl(sa/n1+sb/n2); df=n1+n2-2; } else { gsl_vector *d=apop_vector_copy(a); gsl_vector_sub(d,b); L md,sd; mv(d,&md,&sd); stat=md/sqrtl(sd/n1); df=n1-1; gsl_vector_free(d); }
    if (!isfinite(stat)||fabs(stat)>1e5){ v_trivial(); goto done; } apop_data *o=paired?apop_paired_t_test(a,b):apop_t_test(a,b); tout(o,ma-mb,stat,df,sc+fabs(mu)); apop_data *r=paired?apop_paired_t_test(b,a):apop_t_test(b,a); if (o&&r){ V_CLOSE(G(r,"t statistic"),-G(o,"t statistic"),1e-9,1e-12,"sym","t of the swapped samples"); V_CLOSE(G(r,"p value, 2 tail"),G(o,"p value, 2 tail"),1e-9,1e-12,"sym","p of the swapped samples"); }
    for (int i=0;i<n1;i++) V_EQ(a->data[i],a2->data[i],"input","left %d changed",i); for (int i=0;i<n2;i++) V_EQ(b->data[i],b2->data[i],"input","right %d changed",i); apop_data_free(o); apop_data_free(r); done: gsl_vector_free(a); gsl_vector_free(b); gsl_vector_free(a2); gsl_vector_free(b2);
}
static int inv(int k,L A[8][8],L out[8][8]){ L a[8][16]; for (int i=0;i<k;i++) for (int j=0;j<k;j++){ a[i][j]=A[i][j]; a[i][k+j]=i==j; } for (int c=0;c<k;c++){ int p=c; for (int r=c;r<k;r++) if (fabsl(a[r][c])>fabsl(a[p][c])) p=r; if (fabsl(a[p][c])<1e-9) return 1; for (int j=0;j<2*k;j++){ L t=a[c][j]; a[c][j]=a[p][j]; a[p][j]=t; } L d=a[c][c]; for (int j=0;j<2*k;j++) a[c][j]/=d; for (int r=0;r<k;r++) if (r!=c){ L f=a[r][c]; for (int j=0;j<2*k;j++) a[r][j]-=f*a[c][j]; } } for (int i=0;i<k;i++) for (int j=0;j<k;j++) out[i][j]=a[i][k+j]; return 0; }
static void f_f(void){
    int sep=vflip(.5),k=vi(2,4),n=k+vi(4,40),q,mode=vi(0,3); apop_data *d=sep?apop_data_alloc(n,n,k):apop_data_alloc(0,n,k); L X[60][4],Y[60]; double sl=vpick(((double[]){0,.2,1})),off=vpick(((double[]){0,0,5})); int constant=!sep||vflip(.5); for (int i=0;i<n;i++){ L p=0; for (int a=0;a<k;a++){ X[i][a]=a==0&&constant?1:vnorm()+off; p+=X[i][a]*sl*(a-1); } Y[i]=p+vnorm(); apop_data_set(d,i,sep?-1:0,Y[i]); Y[i]=(double)Y[i]; for (int a=!sep;a<k;a++){ X[i][a]=(double)X[i][a]; apop_data_set(d,i,a,X[i][a]); } }
    vh_sig_data(d); q=mode==0?k-1:vi(1,mode==1?1:k); double Q[4][4],c[4]; for (int r=0;r<q;r++){ for (int a=0;a<k;a++) Q[r][a]=mode==0?(a==r+1):mode==2?vi(-1,2):vnorm(); c[r]=mode==0?0:vflip(.5)?0:vnorm(); for (int a=0;a<k;a++) v_sigd(Q[r][a]); v_sigd(c[r]); } v_desc("F test n=%d k=%d, %d contrasts mode %d %s%s",n,k,q,mode,sep?"separate y":"y in column 0",constant?"":", no constant");
    apop_model *e=apop_estimate(d,apop_ols); apop_data *con=NULL; if (mode){ con=apop_data_alloc(mode==3&&vflip(.3)?0:q,q,k); for (int r=0;r<q;r++){ for (int a=0;a<k;a++) apop_data_set(con,r,a,Q[r][a]); if (con->vector) apop_data_set(con,r,-1,c[r]); else c[r]=0; } }
    L XX[8][8]={{0}},I[8][8],M[8][8]={{0}},MI[8][8],b[8],g[8],F=0,sse=0; for (int i=0;i<n;i++) for (int a=0;a<k;a++) for (int z=0;z<k;z++) XX[a][z]+=X[i][a]*X[i][z]; if (inv(k,XX,I)){ v_trivial(); goto done; } for (int a=0;a<k;a++){ b[a]=0; for (int z=0;z<k;z++){ L xy=0; for (int i=0;i<n;i++) xy+=X[i][z]*Y[i]; b[a]+=I[a][z]*xy; } } for (int i=0;i<n;i++){ L p=Y[i]; for (int a=0;a<k;a++) p-=b[a]*X[i][a]; sse+=p*p; }
    for (int r=0;r<q;r++){ g[r]=-c[r]; for (int a=0;a<k;a++) g[r]+=Q[r][a]*b[a]; for (int s=0;s<q;s++) for (int a=0;a<k;a++) for (int z=0;z<k;z++) M[r][s]+=Q[r][a]*I[a][z]*Q[s][z]; } if (inv(q,M,MI)){ v_trivial(); goto done; } L worst=0; for (int r=0;r<q;r++) for (int s=0;s<q;s++){ F+=g[r]*MI[r][s]*g[s]; worst=fmaxl(worst,fabsl(MI[r][s]*M[s][r])); } if (worst>1e4){ v_trivial(); goto done; } apop_data *keep=con?apop_data_copy(con):NULL; apop_data *o=apop_f_test(e,con); if (!V_CHECK(o&&!o->error,"null","no F test")) goto done;
    double df2=G(o,"df2"); V_EQ(G(o,"df1"),q,"df1","df1"); V_CHECK(df2>0&&df2<=n,"df2","df2 %g",df2); double f=F*df2/(sse*q),p=gsl_cdf_fdist_Q(f,q,df2); V_CLOSE(G(o,"F statistic"),f,1e-6,1e-8,"F","F statistic"); V_CLOSE(G(o,"p value"),p,1e-5,1e-8,"p","p value"); V_CLOSE(G(o,"confidence"),1-p,1e-5,1e-8,"conf","confidence"); v_ev("f_tests"); if (con){ vh_same(con,keep,0,"input","contrasts"); apop_data_free(keep); } apop_data_free(o);
    done: if (con) apop_data_free(con); apop_model_free(e); apop_data_free(d);
}
static void kf_f(void){ apop_data *d=apop_data_alloc(0,12,3); for (int i=0;i<12;i++) for (int j=0;j<3;j++) apop_data_set(d,i,j,vnorm()); v_desc("default contrasts, 12 observations and 3 parameters"); apop_model *e=apop_estimate(d,apop_ols); apop_data *o=apop_f_test(e); V_EQ(G(o,"df2"),9,"df2-contrasts","denominator degrees of freedom (n less the number of parameters)"); apop_data_free(o); apop_model_free(e); apop_data_free(d); }
static double cell(apop_data *o,int r,const char *c){ for (int j=0;j<o->names->colct;j++) if (!strcasecmp(o->names->col[j],c)) return apop_data_get(o,r,j); v_fail("names","no column %s",c); return NAN; }
static void line(apop_data *o,int r,double ss,double df,double msr,double dfr,const char *what,double tot){ V_CLOSE(cell(o,r,"sum of squares"),ss,1e-7,1e-8*tot+1e-10,"ss","%s: sum of squares",what); V_EQ(cell(o,r,"df"),df,"df","%s: df",what); if (df>0&&msr!=-1) V_CLOSE(cell(o,r,"mean squares"),ss/df,1e-7,1e-8*tot+1e-10,"ms","%s: mean square",what); if (msr>1e-6*tot){ double F=ss/df/msr,p=gsl_cdf_fdist_Q(F,df,dfr); V_CLOSE(cell(o,r,"F ratio"),F,1e-6,1e-7,"F","%s: F",what); V_CLOSE(cell(o,r,"p value"),p,1e-5,1e-8,"p","%s: p",what); V_CLOSE(cell(o,r,"confidence"),1-p,1e-5,1e-8,"conf","%s: confidence",what); } }
static void f_anova(void){
    int two=vflip(.5),A=vi(2,4),B=two?vi(2,3):1,text=vflip(.5),n=0; static double y[200]; static int ga[200],gb[200]; double eff=vpick(((double[]){0,1,5})); if (two){ int r=vi(2,5); for (int a=0;a<A;a++) for (int b=0;b<B;b++) for (int i=0;i<r;i++){ ga[n]=a; gb[n]=b; n++; } } else for (int a=0;a<A;a++){ int r=vi(1,8); if (a==0) r++; for (int i=0;i<r;i++){ ga[n]=a; gb[n]=0; n++; } }
    double base=vpick(((double[]){0,0,50})); for (int i=0;i<n;i++) y[i]=base+eff*ga[i]-eff*gb[i]*.5+(vflip(.5)?floor(vnorm()*4):vnorm()*2); for (int i=0;i<n;i++){ int j=vi(0,n-1); double t=y[i]; int u=ga[i],w=gb[i]; y[i]=y[j]; ga[i]=ga[j]; gb[i]=gb[j]; y[j]=t; ga[j]=u; gb[j]=w; } for (int i=0;i<n;i++){ v_sigd(y[i]); v_sigd(ga[i]); v_sigd(gb[i]); } v_desc("%s-way ANOVA n=%d, %d by %d groups",two?"two":"one",n,A,B);
    apop_query("drop table if exists av; create table av (val, ga, gb)"); apop_query("begin;"); for (int i=0;i<n;i++) if (text) apop_query("insert into av values (%.17g, 'g%d', 'h%d')",y[i],ga[i],gb[i]); else apop_query("insert into av values (%.17g, %d, %d)",y[i],ga[i]*10,gb[i]); apop_query("commit;"); apop_data *o=two?apop_anova("av","val","ga","gb"):vflip(.5)?apop_anova("av","val","ga"):apop_anova("(select * from av)","val","ga"); if (!V_CHECK(o&&!o->error&&o->matrix,"null","no table")) return;
    L m=0,tss=0,ma[4]={0},mb[4]={0},mab[4][4]={{0}},na[4]={0},nb[4]={0},nab[4][4]={{0}},sa=0,sb=0,sab=0; for (int i=0;i<n;i++) m+=y[i]; m/=n; for (int i=0;i<n;i++){ tss+=(y[i]-m)*(y[i]-m); ma[ga[i]]+=y[i]; na[ga[i]]++; mb[gb[i]]+=y[i]; nb[gb[i]]++; mab[ga[i]][gb[i]]+=y[i]; nab[ga[i]][gb[i]]++; } for (int a=0;a<A;a++) sa+=na[a]*powl(ma[a]/na[a]-m,2); for (int b=0;b<B;b++) sb+=nb[b]*powl(mb[b]/nb[b]-m,2); for (int a=0;a<A;a++) for (int b=0;b<B;b++) sab+=nab[a][b]*powl(mab[a][b]/nab[a][b]-m,2); double t=tss+fabs((double)m)*1e-3;
    if (!two){ double res=tss-sa,dr=n-A; V_EQ(o->matrix->size1,3,"shape","rows"); line(o,0,sa,A-1,dr>0?res/dr:-1,dr,"groups",t); line(o,1,res,dr,0,0,"residual",t); line(o,2,tss,n-1,-1,0,"total",t); V_STR(o->names->row[0],"ga","names","first row"); }
    else { double si=sab-sa-sb,res=tss-sab,dr=n-A*B; V_EQ(o->matrix->size1,5,"shape","rows"); line(o,0,sa,A-1,res/dr,dr,"first grouping",t); line(o,1,sb,B-1,res/dr,dr,"second grouping",t); line(o,2,si,(A-1)*(B-1),res/dr,dr,"interaction",t); line(o,3,res,dr,0,0,"residual",t); line(o,4,tss,n-1,-1,0,"total",t); V_STR(o->names->row[0],"ga","names","first row"); V_STR(o->names->row[1],"gb","names","second row"); } v_ev("anovas"); apop_data_free(o);
}
static void f_chi(void){
    int r=vi(1,5),c=r==1?vi(2,5):vi(1,5),frac=vi(0,2); apop_data *d=apop_data_alloc(0,r,c); L t=0,rs[5]={0},cs[5]={0}; for (int i=0;i<r;i++) for (int j=0;j<c;j++){ double x=frac?vd(.01,10):vi(1,30); apop_data_set(d,i,j,x); t+=x; } if (frac==2){ for (int i=0;i<r;i++) for (int j=0;j<c;j++) apop_data_set(d,i,j,apop_data_get(d,i,j)/(double)t); } t=0; for (int i=0;i<r;i++) for (int j=0;j<c;j++){ double x=apop_data_get(d,i,j); rs[i]+=x; cs[j]+=x; t+=x; } vh_sig_data(d); v_desc("chi-squared test of a %dx%d table",r,c);
    L s=0; for (int i=0;i<r;i++) for (int j=0;j<c;j++){ L e=(r==1||c==1)?t/(r*c):rs[i]*cs[j]/t; s+=powl(apop_data_get(d,i,j)-e,2)/e; } int df=r==1?c-1:c==1?r-1:(r-1)*(c-1); apop_data *keep=apop_data_copy(d); apop_data *o=apop_test_anova_independence(d); if (V_CHECK(o&&!o->error,"null","no output")){ V_CLOSE(G(o,"chi squared statistic"),(double)s,1e-9,1e-12,"stat","statistic"); V_EQ(G(o,"df"),df,"df","df"); V_CLOSE(G(o,"p value"),gsl_cdf_chisq_Q((double)s,df),1e-7,1e-12,"p","p value"); apop_data_free(o); v_ev("chi_squared_tests"); } vh_same(d,keep,0,"input","table"); apop_data_free(keep); apop_data_free(d);
}
static int fr,fc,fm[5],fn[5]; static L fobs,fp,fconst; static int ft[5][5]; static long fcount;
static void fenum(int i,int j,L lp){ if (j==fc-1){ int rest=fm[i]; for (int b=0;b<fc-1;b++) rest-=ft[i][b]; if (rest<0) return; if (i==fr-1){ for (int b=0;b<fc;b++){ int left=fn[b]; for (int a=0;a<fr-1;a++) left-=ft[a][b]; if (b==fc-1?left!=rest:0) return; } } int left=fn[fc-1]; for (int a=0;a<i;a++) left-=ft[a][fc-1]; if (rest>left) return; ft[i][fc-1]=rest; lp-=lgammal(rest+1); if (i==fr-1){ if (rest!=left) return; fcount++; L p=expl(fconst+lp); if (p<=fobs*(1+1e-7)) fp+=p; return; } fenum(i+1,0,lp); return; }
    int used=0; for (int b=0;b<j;b++) used+=ft[i][b]; int left=fn[j]; for (int a=0;a<i;a++) left-=ft[a][j]; int lo=0,hi=fm[i]-used<left?fm[i]-used:left; if (i==fr-1) lo=left; for (int x=lo;x<=hi;x++){ ft[i][j]=x; fenum(i,j+1,lp-lgammal(x+1)); } }
static void f_fisher(void){
    fr=vi(2,4); fc=vi(2,fr==4?3:4); int mx=fr*fc<=4?15:fr*fc<=6?8:fr*fc<=9?4:2; apop_data *d=apop_data_alloc(0,fr,fc); int n=0,t[5][5]; memset(fm,0,sizeof fm); memset(fn,0,sizeof fn); for (int i=0;i<fr;i++) for (int j=0;j<fc;j++) t[i][j]=vflip(.15)?0:vi(0,mx); for (int i=0;i<fr;i++){ int s=0; for (int j=0;j<fc;j++) s+=t[i][j]; if (!s) t[i][vi(0,fc-1)]=1; } for (int j=0;j<fc;j++){ int s=0; for (int i=0;i<fr;i++) s+=t[i][j]; if (!s) t[vi(0,fr-1)][j]=1; } L lp=0; fconst=0; for (int i=0;i<fr;i++) for (int j=0;j<fc;j++){ apop_data_set(d,i,j,t[i][j]); n+=t[i][j]; fm[i]+=t[i][j]; fn[j]+=t[i][j]; lp-=lgammal(t[i][j]+1); } for (int i=0;i<fr;i++) fconst+=lgammal(fm[i]+1); for (int j=0;j<fc;j++) fconst+=lgammal(fn[j]+1); fconst-=lgammal(n+1); fobs=expl(fconst+lp); fp=0; fcount=0; vh_sig_data(d); v_desc("Fisher exact test of a %dx%d table, n=%d",fr,fc,n); fenum(0,0,0); v_evn("tables_enumerated",fcount);
    apop_data *keep=apop_data_copy(d); apop_data *o=apop_test_fisher_exact(d); if (V_CHECK(o&&!o->error,"error","error %c",o?o->error:'0')){ V_CLOSE(G(o,"probability of table"),(double)fobs,1e-6,1e-12,"prt","probability of the table"); V_CLOSE(G(o,"p value"),(double)fp,1e-5,1e-9,"p","p value"); v_ev("fisher_tests"); } apop_data_free(o); vh_same(d,keep,0,"input","table"); apop_data_free(keep); apop_data_free(d);
}
static int cmpd(const void*a,const void*b){ double x=*(double*)a,y=*(double*)b; return (x>y)-(x<y); }
static L noe(int n,L d){ /* P(D_n<d) for n uniform draws */ L t[300]; int m=0; static L a[101],b[101]; t[m++]=0; t[m++]=1; for (int i=1;i<=n;i++){ a[i]=(L)i/n-d; b[i]=(L)(i-1)/n+d; if (a[i]<0) a[i]=0; if (b[i]>1) b[i]=1; t[m++]=a[i]; t[m++]=b[i]; } for (int i=1;i<m;i++){ L x=t[i]; int j=i; while (j&&t[j-1]>x){ t[j]=t[j-1]; j--; } t[j]=x; } static L q[101],z[101]; for (int j=0;j<=n;j++) q[j]=j==0; for (int k=1;k<m;k++){ L w=t[k]-t[k-1]; int lo=0,hi=n; for (int i=1;i<=n;i++){ if (b[i]<=t[k]) lo=i>lo?i:lo; if (a[i]>=t[k]&&i-1<hi) hi=i-1; } for (int j=0;j<=n;j++){ z[j]=0; if (j<lo||j>hi) continue; L c=1; for (int i=j;i>=0;i--){ if (i<j) c=c*w*(i+1)/(j-i); z[j]+=c*q[i]; } } memcpy(q,z,sizeof q); } return q[n]; }
static apop_model *pmf(double *x,int n,double *w,int invec,apop_data **keep){ apop_data *d=invec?apop_data_alloc(n):apop_data_alloc(0,n,1); for (int i=0;i<n;i++) apop_data_set(d,i,invec?-1:0,x[i]); if (w){ d->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++) d->weights->data[i]=w[i]; } apop_model *m=apop_estimate(d,apop_pmf); *keep=d; return m; }
static double ecdf(double *x,double *w,int n,double at,int strict){ L s=0,t=0; for (int i=0;i<n;i++){ L ww=w?w[i]:1; t+=ww; if (strict?x[i]<at:x[i]<=at) s+=ww; } return s/t; }
static void f_ks(void){
    int two=vflip(.5),n1=vi(1,vflip(.2)?60:15),n2=vi(1,20),ties=two&&vflip(.3),invec=vflip(.5),weighted=vflip(.25); static double x[100],y[100],w1[100],w2[100]; double sh=vpick(((double[]){0,.5,2})); for (int i=0;i<n1;i++){ x[i]=vnorm(); if (ties) x[i]=floor(x[i]*3); w1[i]=vpick(((double[]){1,2,.5,3})); } for (int i=0;i<n2;i++){ y[i]=ties?floor((vnorm()+sh)*3):vflip(.1)&&i<n1&&two?x[i]:vnorm()+sh; w2[i]=vpick(((double[]){1,2,.5,3})); } qsort(x,n1,sizeof(double),cmpd); qsort(y,n2,sizeof(double),cmpd); int dup=0; for (int i=1;i<n1;i++) dup|=x[i]==x[i-1]; for (int i=1;i<n2;i++) dup|=y[i]==y[i-1]; for (int i=0;i<n1;i++) for (int j=0;j<n2;j++) dup|=x[i]==y[j]; for (int i=0;i<n1;i++){ v_sigd(x[i]); if (weighted) v_sigd(w1[i]); } if (two) for (int i=0;i<n2;i++) v_sigd(y[i]); v_sigd(sh); v_desc("%s-sample KS n=%d,%d%s%s",two?"two":"one",n1,n2,ties?" with ties":"",weighted?" weighted":""); apop_data *d1,*d2=NULL; apop_model *m1=pmf(x,n1,weighted?w1:NULL,invec,&d1),*m2; if (two) m2=pmf(y,n2,weighted?w2:NULL,invec,&d2); else m2=apop_model_set_parameters(apop_normal,sh,1.2); apop_data *o=apop_test_kolmogorov(m1,m2); double D=0,P;
    if (two){ for (int i=0;i<n1;i++) D=fmax(D,fabs(ecdf(x,weighted?w1:NULL,n1,x[i],0)-ecdf(y,weighted?w2:NULL,n2,x[i],0))); for (int i=0;i<n2;i++) D=fmax(D,fabs(ecdf(x,weighted?w1:NULL,n1,y[i],0)-ecdf(y,weighted?w2:NULL,n2,y[i],0))); } else for (int i=0;i<n1;i++){ double F=gsl_cdf_gaussian_P(x[i]-sh,1.2); D=fmax(D,fmax(fabs(ecdf(x,weighted?w1:NULL,n1,x[i],0)-F),fabs(ecdf(x,weighted?w1:NULL,n1,x[i],1)-F))); }
    if (V_CHECK(o&&!o->error,"null","no test")){ V_CLOSE(G(o,"max distance"),D,1e-9,1e-12,"D","distance"); if (!weighted&&!dup){ if (two){ /* lattice paths */ long Dn=lround(D*n1*n2); static L u[101][101]; for (int i=0;i<=n1;i++) for (int j=0;j<=n2;j++){ L v=i==0&&j==0?1:0; if (i) v+=u[i-1][j]*i/(i+j); if (j) v+=u[i][j-1]*j/(i+j); u[i][j]=labs((long)i*n2-(long)j*n1)>=Dn?0:v; } P=1-u[n1][n2]; } else P=1-noe(n1,D); V_CLOSE(G(o,"p value, 2 tail"),P,1e-5,1e-7,"p","p value"); V_CLOSE(G(o,"confidence, 2 tail"),1-P,1e-5,1e-7,"conf","confidence"); v_ev(two?"ks_two_sample":"ks_one_sample"); } double p=G(o,"p value, 2 tail"); V_CHECK(p>=-1e-12&&p<=1+1e-12,"range","p=%g",p); if (two){ apop_data *r=apop_test_kolmogorov(m2,m1); if (r) V_CLOSE(G(r,"max distance"),D,1e-9,1e-12,"sym","distance of the swapped samples"); apop_data_free(r); apop_model *mc=apop_model_copy(m1); r=apop_test_kolmogorov(m1,mc); if (r) V_CLOSE(G(r,"max distance"),0,0,1e-12,"self","distance from itself"); apop_data_free(r); apop_model_free(mc); } }
    for (int i=0;i<n1;i++) V_EQ(apop_data_get(d1,i,invec?-1:0),x[i],"input","changed"); apop_data_free(o); apop_model_free(m1); apop_model_free(m2); apop_data_free(d1); if (d2) apop_data_free(d2);
}
static void f_gof(void){
    int n=vi(2,10),mode=vi(0,2),zero=vflip(.2)?vi(0,n-1):-1,missing=vflip(.1)?vi(0,n-1):-1,vtx=vflip(.5); static double x[20],o[20],e[20]; L to=0,te=0; for (int i=0;i<n;i++){ x[i]=i*2-3; o[i]=mode==2?1:i==zero?0:mode?vd(.1,5):vi(1,30); e[i]=vd(.2,4); to+=o[i]; te+=e[i]; } if (mode==2) zero=-1; int ne=n; static double ex[20]; ne=0; double ew[20]; for (int i=0;i<n;i++) if (i!=missing){ ex[ne]=x[i]; ew[ne]=e[i]; ne++; } else te-=e[i]; if (!ne||missing==zero) missing=-1; if (missing==-1&&ne<n){ v_trivial(); return; }
    for (int i=0;i<n;i++){ v_sigd(o[i]); v_sigd(e[i]); } v_sigd(missing); v_desc("goodness of fit over %d bins mode %d%s%s",n,mode,zero>=0?", a zero":"",missing>=0?", one not expected":""); apop_data *d1,*d2; apop_model *m1=pmf(x,n,mode==2?NULL:o,vtx,&d1),*m2=pmf(ex,ne,ew,vtx,&d2); L s=0; int df=n-1; for (int i=0;i<n;i++){ if (i==zero){ df--; continue; } L E=e[i]/te*to; s+=(o[i]-E)*(o[i]-E)/E; } if (df<1){ v_trivial(); goto done; } apop_data *r=apop_histograms_test_goodness_of_fit(m1,m2); if (V_CHECK(r&&!r->error,"null","no test")){ if (missing>=0) V_CHECK(G(r,"Chi squared statistic")==INFINITY,"impossible","statistic %g, infinite is documented",G(r,"Chi squared statistic")); else { V_CLOSE(G(r,"Chi squared statistic"),(double)s,1e-8,1e-10,"stat","statistic"); V_EQ(G(r,"df"),df,"df","df"); double p=gsl_cdf_chisq_Q(s,df); V_CLOSE(G(r,"p value"),p,1e-6,1e-10,"p","p value"); V_CLOSE(G(r,"confidence"),1-p,1e-6,1e-10,"conf","confidence"); } v_ev("goodness_of_fit_tests"); } apop_data_free(r); done: apop_model_free(m1); apop_model_free(m2); apop_data_free(d1); apop_data_free(d2);
}
static void f_test(void){
    static char *names[]={"normal","Gaussian","lognormal","uniform","t","chi squared","chi","chisq","f","T","F",NULL}; int k=vi(0,11); char *dn=names[k]; int kind=!dn||k<2?0:k==2?1:k==3?2:k==4||k==9?3:k==8||k==10?5:4; int tail=vi(0,2),defaults=vflip(.2)&&(kind<=2); double p1=kind==0||kind==1||kind==2?vnorm()*2:vi(1,30),p2=kind==2?p1+vd(.5,4):kind==5?vi(1,30):vd(.3,3),s=kind==1||kind>=4?exp(vnorm()):kind==2?p1+(p2-p1)*vd(0,1):vnorm()*3; if (defaults){ p1=0; p2=1; if (kind==2) s=vd(0,1); } if ((kind==1||kind==5)&&tail==2) tail=vi(0,1); v_sigd(k); v_sigd(tail); v_sigd(p1); v_sigd(s); v_desc("apop_test(%.17g, %s, %.17g, %.17g, %s)",s,dn?dn:"(default)",p1,p2,tail==0?"'u'":tail==1?"'l'":"default tail"); double u,l,t; switch(kind){ case 0: u=gsl_cdf_gaussian_Q(s-p1,p2); l=gsl_cdf_gaussian_P(s-p1,p2); t=2*fmin(u,l); break; case 1: u=gsl_cdf_lognormal_Q(s,p1,p2); l=gsl_cdf_lognormal_P(s,p1,p2); t=NAN; break; case 2: u=(p2-s)/(p2-p1); l=(s-p1)/(p2-p1); t=2*fmin(u,l); break; case 3: u=gsl_cdf_tdist_Q(s,p1); l=gsl_cdf_tdist_P(s,p1); t=2*fmin(u,l); break; case 4: u=gsl_cdf_chisq_Q(s,p1); l=gsl_cdf_chisq_P(s,p1); t=u; break; default: u=gsl_cdf_fdist_Q(s,p1,p2); l=gsl_cdf_fdist_P(s,p1,p2); t=NAN; }
    double got,want=tail==0?u:tail==1?l:t; char tc=tail==0?'u':'l'; if (defaults) got=kind==0&&!dn?(tail==2?apop_test(s):apop_test(s,.tail=tc)):(tail==2?apop_test(s,dn):apop_test(s,dn,.tail=tc)); else if (!dn) got=tail==2?apop_test(s,.p1=p1,.p2=p2):apop_test(s,.p1=p1,.p2=p2,.tail=tc); else got=tail==2?apop_test(s,dn,p1,p2):apop_test(s,dn,p1,p2,tc); V_CLOSE(got,want,1e-9,1e-13,"p","p value"); v_ev("apop_tests");
}
vh_family vh_families[]={{"t",f_t,3000,100000},{"f",f_f,2000,60000},{"kf_f",kf_f,1,1},{"anova",f_anova,400,12000},{"chi",f_chi,2000,60000},{"fisher",f_fisher,400,12000},{"ks",f_ks,2000,60000},{"gof",f_gof,2000,60000},{"test",f_test,8000,200000},{NULL}};
