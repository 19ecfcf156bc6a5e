#include "vh.h"
#include <sqlite3.h>
const char *vh_rule = "Random columns (integers, decimals, constants, large offsets, NULLs, empty groups, one-element groups) split into random groups; each SQL aggregate's value per group is compared with a long double two-pass computation over the non-NULL values, and each scalar function with the C library. Distinct by the data.";
extern sqlite3 *db;
static double *val; static int *grp, *isnull, N, G;
static void q1(const char *q){ char *e=NULL; sqlite3_exec(db,q,NULL,NULL,&e); if (e){ v_fail("harness","%s: %s",q,e); sqlite3_free(e);} }
typedef struct { int n; long double m, c2, c3, c4, mx; } mom; // central sums
static mom moments(int g, int filter){ // g<0: all
    mom o={0}; 
    for (int i=0;i<N;i++) if ((g<0||grp[i]==g)&&!isnull[i]&&(!filter||val[i]>0)){ o.n++; o.m+=val[i]; if (fabs(val[i])>o.mx) o.mx=fabs(val[i]); }
    if (o.n) o.m/=o.n;
    for (int i=0;i<N;i++) if ((g<0||grp[i]==g)&&!isnull[i]&&(!filter||val[i]>0)){ long double d=val[i]-o.m; o.c2+=d*d; o.c3+=d*d*d; o.c4+=d*d*d*d; }
    return o;
}
static struct {const char *fn; int kind;} F[]={{"stddev",0},{"stddev_samp",0},{"std",1},{"stddev_pop",1},{"var",2},{"var_samp",2},{"variance",3},{"var_pop",3},{"skew",4},{"kurt",5},{"kurtosis",5}};
static void checkval(const char *fn,int kind,int isn,double got,mom o,const char *where){
    long double n=o.n, want=0; double tol=1e-11; int undefined=0;
    if (!o.n){ V_CHECK(isn||got==0||isnan(got),"empty","%s of no values in %s gave %g",fn,where,got); v_ev("empty_groups"); return; }
    if (o.n==1){ V_CHECK(!isn&&got==0,"single","%s of a single value in %s gave %s%g",fn,where,isn?"NULL ":"",got); v_ev("single_groups"); return; }
    switch(kind){
    case 0: want=o.c2/(n-1); tol*=o.mx*o.mx; break; case 1: want=o.c2/n; tol*=o.mx*o.mx; break;
    case 2: want=o.c2/(n-1); tol*=o.mx*o.mx; break; case 3: want=o.c2/n; tol*=o.mx*o.mx; break;
    case 4: if (n<3) undefined=1; want=o.c3*n/((n-1)*(n-2)); tol*=10*powl(o.mx,3); break;
    case 5: if (n<4) undefined=1; else want=(n*(n*n-2*n+3)*(o.c4/n)-3*n*(2*n-3)*(o.c2/n)*(o.c2/n))/((n-1)*(n-2)*(n-3)); tol*=30*powl(o.mx,4)*n*n*n/((n-1)*(n-2)*(n-3)); break; }
    if (undefined){ v_ev("undefined_by_size"); return; }
    if (!V_CHECK(!isn,"null","%s of %d values in %s is NULL",fn,o.n,where)) return;
    if (kind<=1){ if (!V_CHECK(got>=0,"neg","%s is %g",fn,got)) return; got=got*got; }
    char key[40]; sprintf(key,"%s",fn); V_CLOSE(got,(double)want,1e-9,tol+1e-300,key,"%d values in %s",o.n,where);
}
static void f_agg(void){
    apop_db_close(); apop_db_open(NULL); q1("create table t (g integer, x numeric)");
    N=vflip(.1)?vi(0,1):vi(2,vflip(.1)?400:40); G=vi(1,6); val=malloc((N+1)*sizeof *val); grp=malloc((N+1)*sizeof(int)); isnull=malloc((N+1)*sizeof(int));
    int mode=vi(0,5); double off=vi(-20,20), sc=vd(.1,5); double nullp=vflip(.3)?.5:vflip(.5)?.1:0;
    sqlite3_stmt *s; sqlite3_prepare_v2(db,"insert into t values(?,?)",-1,&s,NULL);
    for (int i=0;i<N;i++){ grp[i]=vi(0,G-1); isnull[i]=vflip(nullp);
        val[i]= mode==0? vi(-9,9) : mode==1? off+sc*vnorm() : mode==2? off : mode==3? exp(vnorm()) : mode==4 ? vi(0,1)*1e3 : vd(-1e-3,1e-3);
        if (mode==5 && vflip(.1)) val[i]=vi(-3,3);
        sqlite3_bind_int(s,1,grp[i]); if (isnull[i]) sqlite3_bind_null(s,2); else sqlite3_bind_double(s,2,val[i]); sqlite3_step(s); sqlite3_reset(s); v_sigd(isnull[i]?-1e9:val[i]); v_sig(grp+i,sizeof(int)); }
    sqlite3_finalize(s); v_desc("%d rows, %d groups, mode %d, nulls %g",N,G,mode,nullp); if (N<2) v_trivial();
    for (int k=0;k<Vlen(F);k++){ char q[300];
        // whole table
        sprintf(q,"select %s(x) from t",F[k].fn); sqlite3_prepare_v2(db,q,-1,&s,NULL);
        if (V_CHECK(s&&sqlite3_step(s)==SQLITE_ROW,"query","%s: %s",q,sqlite3_errmsg(db))) checkval(F[k].fn,F[k].kind,sqlite3_column_type(s,0)==SQLITE_NULL,sqlite3_column_double(s,0),moments(-1,0),"all"); sqlite3_finalize(s);
        double lib=apop_query_to_float("%s",q); mom o=moments(-1,0); if (o.n>1&&!(o.n<3&&F[k].kind==4)&&!(o.n<4&&F[k].kind==5)) checkval(F[k].fn,F[k].kind,0,lib,o,"query_to_float");
        // grouped, with another aggregate beside it
        sprintf(q,"select g, %s(x), count(x), %s(x) from t group by g order by g",F[k].fn,F[(k+3)%Vlen(F)].fn); sqlite3_prepare_v2(db,q,-1,&s,NULL); int seen=0;
        while (s&&sqlite3_step(s)==SQLITE_ROW){ int g=sqlite3_column_int(s,0); char w[30]; sprintf(w,"group %d",g); mom o=moments(g,0); V_CHECK(o.n==sqlite3_column_int(s,2),"harness","count"); checkval(F[k].fn,F[k].kind,sqlite3_column_type(s,1)==SQLITE_NULL,sqlite3_column_double(s,1),o,w); int k2=(k+3)%Vlen(F); checkval(F[k2].fn,F[k2].kind,sqlite3_column_type(s,3)==SQLITE_NULL,sqlite3_column_double(s,3),o,w); seen++; v_ev("groups"); }
        sqlite3_finalize(s); int want=0; for (int g=0;g<G;g++){ int any=0; for (int i=0;i<N;i++) any|=grp[i]==g; want+=any; } V_CHECK(seen==want,"ngroups","%d groups, want %d",seen,want);
        sprintf(q,"select %s(x) from t where x>0",F[k].fn); sqlite3_prepare_v2(db,q,-1,&s,NULL); if (s&&sqlite3_step(s)==SQLITE_ROW) checkval(F[k].fn,F[k].kind,sqlite3_column_type(s,0)==SQLITE_NULL,sqlite3_column_double(s,0),moments(-1,1),"where x>0"); sqlite3_finalize(s);
    }
    free(val); free(grp); free(isnull); apop_db_close();
}
static double lnl(double x){return log(x);}
static struct {const char *n; double (*f)(double);} S[]={{"sqrt",sqrt},{"exp",exp},{"ln",lnl},{"log",log},{"log10",log10},{"sin",sin},{"cos",cos},{"tan",tan},{"asin",asin},{"acos",acos},{"atan",atan}};
static void f_fn(void){
    apop_db_close(); apop_db_open(NULL);
    for (int r=0;r<12;r++){ int k=vi(0,Vlen(S)-1); double x=vflip(.4)?vd(-1,1):vflip(.5)?vd(0,50):vflip(.5)?vi(-5,5):vval(); if (fabs(x)>1e100||(x&&fabs(x)<1e-100)) x=1.5;
        sqlite3_stmt *s; char q[200]; sprintf(q,"select %s(?), %s(null), typeof(%s(1))",S[k].n,S[k].n,S[k].n); v_sigd(x); v_sigs(S[k].n);
        if (!V_CHECK(sqlite3_prepare_v2(db,q,-1,&s,NULL)==SQLITE_OK,"prepare","%s: %s",q,sqlite3_errmsg(db))) continue;
        sqlite3_bind_double(s,1,x); sqlite3_step(s); double w=S[k].f(x);
        if (isnan(w)) V_CHECK(sqlite3_column_type(s,0)==SQLITE_NULL||isnan(sqlite3_column_double(s,0)),"nan","%s(%g) is %g",S[k].n,x,sqlite3_column_double(s,0));
        else V_CLOSE(sqlite3_column_double(s,0),w,1e-13,0,S[k].n,"%s(%.17g)",S[k].n,x);
        V_CHECK(sqlite3_column_type(s,1)==SQLITE_NULL,"fnnull","%s(NULL) is not NULL",S[k].n); v_ev("function_values"); sqlite3_finalize(s);
        double a=vflip(.5)?vd(0,9):vi(-4,6), b=vflip(.5)?vi(-4,6):vd(-3,3); sqlite3_prepare_v2(db,"select pow(?,?), pow(?1,null), pow(null,?2)",-1,&s,NULL); sqlite3_bind_double(s,1,a); sqlite3_bind_double(s,2,b); sqlite3_step(s); w=pow(a,b); v_sigd(a); v_sigd(b);
        if (isnan(w)) V_CHECK(sqlite3_column_type(s,0)==SQLITE_NULL||isnan(sqlite3_column_double(s,0)),"pownan","pow(%g,%g)",a,b); else V_CLOSE(sqlite3_column_double(s,0),w,1e-13,0,"pow","pow(%.17g,%.17g)",a,b);
        V_CHECK(sqlite3_column_type(s,1)==SQLITE_NULL&&sqlite3_column_type(s,2)==SQLITE_NULL,"pownull","pow with NULL"); sqlite3_finalize(s);
    }
    // over a column, through the library
    int n=vi(1,20); double x[20]; apop_query("create table c(x)"); for (int i=0;i<n;i++){ x[i]=vi(1,1000)/8.; apop_query("insert into c values(%.17g)",x[i]); }
    int k=vi(0,7); apop_data *d=apop_query_to_data("select %s(x), x, pow(x,2) from c order by rowid",S[k].n);
    if (V_CHECK(d&&d->matrix&&(int)d->matrix->size1==n,"col","rows")) for (int i=0;i<n;i++){ V_CLOSE(apop_data_get(d,i,0),S[k].f(x[i]),1e-12,1e-13,"colfn","%s(%g)",S[k].n,x[i]); V_CLOSE(apop_data_get(d,i,2),x[i]*x[i],1e-12,0,"colpow","%g",x[i]); }
    apop_data_free(d);
    // ran(): uniform on [0,1), a new value per row
    apop_data *u=apop_query_to_data("select ran(), ran() from c"); int same=0; double prev=-1;
    if (V_CHECK(u&&u->matrix,"ran","no values")) for (int i=0;i<n;i++) for (int j=0;j<2;j++){ double g=apop_data_get(u,i,j); V_CHECK(g>=0&&g<1,"ranrange","%g",g); same+=(g==prev); prev=g; v_ev("ran_values"); } V_CHECK(!same,"ransame","ran() repeats"); apop_data_free(u);
    apop_db_close();
}
static void f_ran(void){ // the distribution of ran()
    apop_db_close(); apop_db_open(NULL); int n=2000; apop_opts.rng_seed=vi(1,1000000);
    apop_data *d=apop_query_to_data("with recursive c(i) as (select 1 union all select i+1 from c where i<%d) select ran() from c",n); double s=0,s2=0; int b[10]={0};
    if (V_CHECK(d&&d->matrix&&(int)d->matrix->size1==n,"ranrows","rows")){ for (int i=0;i<n;i++){ double g=apop_data_get(d,i,0); s+=g; s2+=g*g; b[(int)(g*10)%10]++; if (i<3) v_sigd(g); }
        double chi=0; for (int i=0;i<10;i++) chi+=(b[i]-n/10.)*(b[i]-n/10.)/(n/10.); V_CHECK(chi<60,"randist","chi-squared of %g over ten cells",chi); V_CHECK(fabs(s/n-.5)<.05,"ranmean","%g",s/n); }
    apop_data_free(d); apop_db_close();
}
vh_family vh_families[]={{"agg",f_agg,700,30000},{"fn",f_fn,500,20000},{"ran",f_ran,20,300},{NULL}};
