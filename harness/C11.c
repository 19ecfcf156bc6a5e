#include "vh.h"
#include <sqlite3.h>
const char *vh_rule = "Random tables (integers, reals, text, NULLs, awkward strings) and random queries; every query function's result is compared with stepping the same query through the SQLite C API. Includes bad queries, blank results, name columns, type lists, files closed and reopened. Distinct by query and table content.";
extern sqlite3 *db;
static int C; static char cn[8][20]; static const char *decl[]={"","integer","numeric","text","real","varchar(20)"};
static void q1(char *q){ char *e=NULL; sqlite3_exec(db,q,NULL,NULL,&e); if (e) v_fail("harness","%s: %s",q,e); }
static void mktable(void){
    C=vi(1,6); char q[3000]="create table t ("; int named=vflip(.4)?vi(0,C-1):-1;
    for (int j=0;j<C;j++){ if (j==named) strcpy(cn[j],vpick(((char*[]){"row_names","Row_Names"}))); else sprintf(cn[j],"%c%d",'a'+vi(0,25),j); sprintf(q+strlen(q),"%s%s %s",j?", ":"",cn[j],vpick(decl)); }
    strcat(q,")"); q1(q); v_desc("%s; ",q);
    int R=vflip(.1)?0:vi(1,vflip(.1)?120:12);
    for (int i=0;i<R;i++){ char *s=sqlite3_mprintf("insert into t values(");
        for (int j=0;j<C;j++){ char b[100],*v;
            switch(vi(0,8)){ case 0: v=sqlite3_mprintf("NULL"); break; case 1: case 2: v=sqlite3_mprintf("%d",vi(-99,99)); break; case 3: case 4: v=sqlite3_mprintf("%.15g",vval()); break;
                case 5: v=sqlite3_mprintf("%Q",vpick(((char*[]){"NaN","nan","NULL","","12.5","-3e2"," 7 ","1e5x","inf","-inf","NA","na","Na","Missing","missing","%s%d%n","it's"}))); break;
                case 6: v=sqlite3_mprintf("%Q",vstr_plain(b,8)); break; default: v=sqlite3_mprintf("%Q",vstr_any(b,15)); }
            char *n=sqlite3_mprintf("%s%s%s",s,j?",":"",v); v_sigs(v); sqlite3_free(s); sqlite3_free(v); s=n; }
        char *n=sqlite3_mprintf("%s)",s); q1(n); sqlite3_free(n); sqlite3_free(s); }
}
/* the reference result */
static struct { int r,c; char *name[30]; char *v[400][10]; int isnull[400][10]; } R;
static void refree(void){ for (int i=0;i<R.r;i++) for (int j=0;j<R.c;j++) free(R.v[i][j]); for (int j=0;j<R.c;j++) free(R.name[j]); R.r=R.c=0; }
static int ref(const char *q){
    refree(); sqlite3_stmt *s; if (sqlite3_prepare_v2(db,q,-1,&s,NULL)!=SQLITE_OK) return 0;
    R.c=sqlite3_column_count(s); for (int j=0;j<R.c;j++) R.name[j]=strdup(sqlite3_column_name(s,j));
    while (sqlite3_step(s)==SQLITE_ROW&&R.r<400){ for (int j=0;j<R.c;j++){ const char *t=(char*)sqlite3_column_text(s,j); R.isnull[R.r][j]=!t; R.v[R.r][j]=strdup(t?t:""); } R.r++; }
    sqlite3_finalize(s); return 1;
}
static void mkquery(char *q){
    if (vflip(.25)) strcpy(q,"select * from t");
    else { strcpy(q,"select "); int n=vi(1,5); for (int k=0;k<n;k++){ int j=vi(0,C-1),l=vi(0,C-1); if (k) strcat(q,", ");
        switch(vi(0,6)){ case 0: sprintf(q+strlen(q),"%s+%s as s%d",cn[j],cn[l],k); break; case 1: sprintf(q+strlen(q),"%d as k%d",vi(0,9),k); break; case 2: sprintf(q+strlen(q),"%s as x%d",cn[j],k); break; case 3: sprintf(q+strlen(q),"%s || '%%' as y%d",cn[j],k); break; default: strcat(q,cn[j]); } }
        strcat(q," from t"); }
    if (vflip(.3)) sprintf(q+strlen(q)," where %s %s %d",cn[vi(0,C-1)],vpick(((char*[]){">","<","<>","="})),vi(-20,20));
    sprintf(q+strlen(q)," order by %s, rowid",cn[vi(0,C-1)]);
    if (vflip(.1)) sprintf(q+strlen(q)," limit %d",vi(0,4));
    if (vflip(.15)) sprintf(q,"select %s, count(*) as ct, avg(%s) from t group by %s order by %s",cn[vi(0,C-1)],cn[vi(0,C-1)],cn[0],cn[0]);
}
static double wantnum(int i,int j){ const char *t=R.v[i][j]; if (R.isnull[i][j]||!strcmp(t,"NULL")||(apop_opts.nan_string&&!strcasecmp(t,apop_opts.nan_string))) return NAN; return atof(t); }
static double wantmix(int i,int j){ const char *t=R.v[i][j]; if (R.isnull[i][j]||(apop_opts.nan_string&&!strcasecmp(t,apop_opts.nan_string))) return NAN; return atof(t); }
static const char *wt(int i,int j){ return R.isnull[i][j]?(apop_opts.nan_string?apop_opts.nan_string:""):R.v[i][j]; }
static int namecol(void){ if (apop_opts.db_name_column) for (int j=0;j<R.c;j++) if (!strcasecmp(R.name[j],apop_opts.db_name_column)) return j; return -1; }
static void check_data(apop_data *d,const char *q){
    int nc=namecol(), dc=R.c-(nc>=0);
    if (!R.r){ V_CHECK(!d,"blank-data","a blank result is not NULL"); return; }
    if (!V_CHECK(d&&!d->error,"data","no data from a good query")) return;
    if (!dc) { V_CHECK(!d->matrix,"nodata","a matrix from a name column"); }
    else { if (!V_CHECK(d->matrix&&(int)d->matrix->size1==R.r&&(int)d->matrix->size2==dc,"datashape","%zux%zu, want %dx%d",d->matrix?d->matrix->size1:0,d->matrix?d->matrix->size2:0,R.r,dc)) return;
        V_CHECK(d->names->colct==dc,"colct","%d column names",d->names->colct);
        for (int j=0,k=0;j<R.c;j++) if (j!=nc){ V_STR(k<d->names->colct?d->names->col[k]:NULL,R.name[j],"colname","%d",k); for (int i=0;i<R.r;i++) V_EQ(gsl_matrix_get(d->matrix,i,k),wantnum(i,j),"cell","%d,%d [%s]",i,k,R.v[i][j]); k++; } }
    V_CHECK(d->names->rowct==(nc>=0?R.r:0),"rowct","%d row names",d->names->rowct);
    if (nc>=0) for (int i=0;i<R.r&&i<d->names->rowct;i++) V_STR(d->names->row[i],wt(i,nc),"rowname","%d",i);
}
static void check_text(apop_data *d){
    int nc=namecol(), dc=R.c-(nc>=0); if (!dc) return;
    if (!R.r){ V_CHECK(!d,"blank-text","a blank result is not NULL"); return; }
    if (!V_CHECK(d&&!d->error&&(int)d->textsize[0]==R.r&&(int)d->textsize[1]==dc,"textshape","%zux%zu, want %dx%d",d?d->textsize[0]:0,d?d->textsize[1]:0,R.r,dc)) return;
    V_CHECK(d->names->textct==dc,"textct","%d text names",d->names->textct);
    for (int j=0,k=0;j<R.c;j++) if (j!=nc){ V_STR(k<d->names->textct?d->names->text[k]:NULL,R.name[j],"textname","%d",k); for (int i=0;i<R.r;i++) V_STR(d->text[i][k],wt(i,j),"textcell","%d,%d",i,k); k++; }
    if (nc>=0) for (int i=0;i<R.r&&V_CHECK(i<d->names->rowct,"trowct","row names");i++) V_STR(d->names->row[i],wt(i,nc),"trowname","%d",i);
}
static void check_mixed(const char *q){
    char ty[12]; int n=0,v=0,w=0,m=0,t=0;
    for (int j=0;j<R.c;j++) for (;;){ char c="nvmtwNVMTWmmtt"[vi(0,13)], l=tolower(c); if ((l=='n'&&n)||(l=='v'&&v)||(l=='w'&&w)) continue; if (l=='n') n++; if (l=='v') v++; if (l=='w') w++; if (l=='m') m++; if (l=='t') t++; ty[j]=c; break; }
    ty[R.c]=0; int miss=vflip(.1); if (miss){ if (R.c>1&&vflip(.5)) ty[R.c-1]=0; else strcat(ty,"m"); }
    v_desc(" [%s]",ty);
    apop_data *d=apop_query_to_mixed_data(ty,"%s",q);
    if (!R.r){ V_CHECK(!d,"blank-mixed","a blank result is not NULL"); }
    else if (miss){ V_CHECK(d&&d->error=='d',"mixmismatch","type list %s for %d columns: error %d",ty,R.c,d?d->error:-1); v_ev("mismatched_type_lists"); }
    else if (V_CHECK(d&&!d->error,"mixed","no result or error")){
        int ok=V_CHECK(!!d->vector==v&&(!v||(int)d->vector->size==R.r)&&!!d->matrix==!!m&&(!m||((int)d->matrix->size1==R.r&&(int)d->matrix->size2==m))&&(int)d->textsize[1]==t&&(!t||(int)d->textsize[0]==R.r)&&!!d->weights==w&&(!w||(int)d->weights->size==R.r)&&d->names->rowct==(n?R.r:0),"mixshape","parts or sizes differ for %s",ty);
        if (ok) for (int i=0;i<R.r;i++) for (int j=0,mm=0,tt=0;j<R.c;j++) switch(tolower(ty[j])){
            case 'n': V_STR(d->names->row[i],wt(i,j),"mixn","%d",i); break;
            case 'v': V_EQ(gsl_vector_get(d->vector,i),wantmix(i,j),"mixv","%d",i); if (!i) V_STR(d->names->vector,R.name[j],"mixvn","vector name"); break;
            case 'w': V_EQ(gsl_vector_get(d->weights,i),wantmix(i,j),"mixw","%d",i); break;
            case 'm': V_EQ(gsl_matrix_get(d->matrix,i,mm),wantmix(i,j),"mixm","%d,%d",i,mm); if (!i) V_STR(mm<d->names->colct?d->names->col[mm]:NULL,R.name[j],"mixcn","%d",mm); mm++; break;
            case 't': V_STR(d->text[i][tt],wt(i,j),"mixt","%d,%d",i,tt); if (!i) V_STR(tt<d->names->textct?d->names->text[tt]:NULL,R.name[j],"mixtn","%d",tt); tt++; break; }
    }
    apop_data_free(d);
}
static void one(const char *q){
    if (!ref(q)) { v_fail("harness","reference query failed: %s",q); return; }
    if (R.r) v_ev("queries_with_rows"); else v_ev("blank_queries");
    int nc=namecol(), dc=R.c-(nc>=0), fc=nc==0?1:0;
    apop_data *d=apop_query_to_data("%s",q); check_data(d,q); apop_data_free(d);
    d=apop_query_to_text("%s",q); check_text(d); apop_data_free(d);
    gsl_vector *v=apop_query_to_vector("%s",q);
    if (!R.r||!dc) V_CHECK(!v,"blank-vector","a blank result is not NULL");
    else if (V_CHECK(v&&(int)v->size==R.r,"vecsize","%zu, want %d",v?v->size:0,R.r)) for (int i=0;i<R.r;i++) V_EQ(gsl_vector_get(v,i),wantnum(i,fc),"vec","%d",i);
    gsl_vector_free(v);
    V_EQ(apop_query_to_float("%s",q),R.r&&dc?wantnum(0,fc):NAN,"float","first element");
    check_mixed(q);
}
static void bad(void){
    const char *q=vpick(((char*[]){"selekt * from t","select * from no_such_table","select nope from t","select * from t where","select ' from t","select (1, from t","%%","insert into no_such values(1)","select count(* from t"}));
    apop_data *d; int v=apop_opts.verbose;
    switch(vi(0,5)){
    case 0: d=apop_query_to_data(q); V_CHECK(d&&d->error=='q',"bad-data","[%s]: error %d",q,d?d->error:-1); apop_data_free(d); break;
    case 1: d=apop_query_to_text(q); V_CHECK(d&&d->error=='q',"bad-text","[%s]: error %d",q,d?d->error:-1); apop_data_free(d); break;
    case 2: d=apop_query_to_mixed_data("mm",q); V_CHECK(d&&d->error=='q',"bad-mixed","[%s]: error %d",q,d?d->error:-1); apop_data_free(d); break;
    case 3: V_CHECK(!apop_query_to_vector(q),"bad-vector","[%s] gave a vector",q); break;
    case 4: V_CHECK(isnan(apop_query_to_float(q)),"bad-float","[%s] gave a number",q); break;
    case 5: V_CHECK(apop_query(q)!=0,"bad-query","[%s] reported no error",q); break; }
    V_CHECK(apop_opts.verbose==v,"verbose","the verbosity was left changed at %d, was %d",apop_opts.verbose,v);
    v_ev("bad_queries");
}
static void f_query(void){
    apop_db_close(); apop_db_open(NULL);
    char *dnc=apop_opts.db_name_column; if (vflip(.2)) apop_opts.db_name_column=vpick(((char*[]){NULL,"","x0","ROW_NAMES"}));
    if (vflip(.25)) apop_opts.nan_string=vpick(((char*[]){NULL,"NA","-99","inf","MISSING","na"}));
    mktable(); int n=vi(1,3);
    for (int k=0;k<n;k++){ char q[1000]; mkquery(q); v_desc(" | %s",q); v_sigs(q); one(q); if (vflip(.2)) bad(); }
    if (n>0&&vflip(.3)){ char q[100]; sprintf(q,"select * from t order by rowid"); one(q); } // the connection still works
    refree(); apop_opts.db_name_column=dnc; apop_opts.nan_string="NaN"; apop_db_close();
}
static void f_exists(void){ // table existence and removal, against a model
    apop_db_close(); int have[6]={0}; char nm[6][20]; for (int i=0;i<6;i++) sprintf(nm[i],"%s%d",i<3?"tab":"view",i);
    apop_query("create table base(a)"); v_desc("exists:");
    for (int s=vi(3,25);s>0;s--){ int i=vi(0,5); char n[20]; strcpy(n,nm[i]); if (vflip(.2)) n[0]=toupper(n[0]); v_desc(" %d%s",i,have[i]?"+":"-"); v_sig(&i,sizeof i);
        switch(vi(0,2)){
        case 0: if (!have[i]){ int rc=apop_query(i<3?"create table %s(a,b)":"create view %s as select * from base",nm[i]); V_CHECK(!rc,"create","%s",nm[i]); have[i]=1; } else V_CHECK(apop_query("create table %s(z)",nm[i])!=0,"create2","creating a second %s",nm[i]); break;
        case 1: { int rc=vflip(.5)?apop_table_exists(n):apop_table_exists(n,'n'); V_CHECK(rc==have[i],"exists","%s: %d, want %d",n,rc,have[i]); break; }
        case 2: { int rc=apop_table_exists(n,'d'); V_CHECK(rc==have[i],"removed","%s: %d, want %d",n,rc,have[i]); have[i]=0; break; } }
        for (int k=0;k<6;k++) { double ct=apop_query_to_float("select count(*) from sqlite_master where name='%s'",nm[k]); V_EQ(ct,have[k],"present","%s",nm[k]); }
    }
    V_CHECK(apop_table_exists("bas")==0&&apop_table_exists("base2")==0&&apop_table_exists("base")==1,"prefix","names are matched in part");
    V_CHECK(apop_table_exists(NULL)==-1,"nullname","NULL name"); apop_db_close();
}
static void f_file(void){ // what is written to a file is there when it is opened again
    apop_db_close(); unlink("f.db"); V_CHECK(apop_db_open("f.db")==0,"open","f.db"); mktable();
    double n=apop_query_to_float("select count(*) from t"); int vac=vflip(.5);
    if (vflip(.3)){ apop_query("begin;"); apop_query("delete from t"); apop_query("rollback;"); }
    if (vac) apop_db_close('v'); else apop_db_close('q');
    sqlite3 *o; if (V_CHECK(sqlite3_open("f.db",&o)==SQLITE_OK,"side","file")){ sqlite3_stmt *s; if (V_CHECK(sqlite3_prepare_v2(o,"select count(*) from t",-1,&s,NULL)==SQLITE_OK&&sqlite3_step(s)==SQLITE_ROW,"side","table not in the file")) V_EQ(sqlite3_column_double(s,0),n,"side","rows in the file"); sqlite3_finalize(s); sqlite3_close(o); }
    V_CHECK(apop_db_open("f.db")==0,"reopen","f.db"); char q[1000]; for (int k=0;k<2;k++){ mkquery(q); v_desc(" | %s",q); one(q); }
    refree(); apop_db_close(); V_CHECK(apop_query_to_float("select count(*) from sqlite_master")==0,"fresh","a new in-memory database is not empty"); apop_db_close();
    V_CHECK(apop_db_open("no/such/dir/f.db")!=0,"badopen","opening an impossible file"); V_CHECK(apop_query_to_float("select 3")==3,"badopen-after","queries after a failed open"); apop_db_close();
}
vh_family vh_families[]={{"query",f_query,1200,40000},{"exists",f_exists,150,4000},{"file",f_file,100,2500},{NULL}};
