#include "vh.h"
#include <sqlite3.h>
const char *vh_rule = "A random data set (every combination of parts, uneven lengths, awkward names and text, NaN and infinities, up to 1100 columns) is written to a table, appended or overwritten, and the table is read through the SQLite C API and through the library's query functions. Distinct by content.";
extern sqlite3 *db;
static double num(void){ switch(vi(0,12)){ case 0: return NAN; case 1: return vflip(.5)?INFINITY:-INFINITY; case 2: return -0.0; case 3: return 9007199254740993.0*vi(1,5); case 4: return vd(-1e300,1e300); default: return vval(); } }
static char *text(char *b){ switch(vi(0,9)){ case 0: return strcpy(b,""); case 1: return strcpy(b,vpick(((char*[]){"NaN","nan","NAN","null","NULL","12","-3.5e2","'","\"","''","%s%n","a'b\"c","x'; drop table canary; --","(null)"}))); default: vstr_any(b,20); return b; } }
typedef struct { int vs,m1,m2,t1,t2,ws,rn,cn,vn,tn; } sh;
static apop_data *mk(sh s,int plain){
    apop_data *d = s.m1||s.vs ? apop_data_alloc(s.vs,s.m1,s.m2) : apop_data_alloc(); char b[200],c[100];
    for (int i=0;i<s.vs;i++) gsl_vector_set(d->vector,i,num());
    for (int i=0;i<s.m1;i++) for (int j=0;j<s.m2;j++) gsl_matrix_set(d->matrix,i,j,num());
    if (s.t1) { apop_text_alloc(d,s.t1,s.t2); for (int i=0;i<s.t1;i++) for (int j=0;j<s.t2;j++) apop_text_set(d,i,j,"%s",text(b)); }
    if (s.ws) { d->weights=gsl_vector_alloc(s.ws); for (int i=0;i<s.ws;i++) gsl_vector_set(d->weights,i,num()); }
    if (s.rn) for (int i=0;i<s.rn;i++) apop_name_add(d->names,vflip(.1)?"":vstr_any(b,12),'r');
#define NM(ct,ch,pre) for (int i=0;i<ct;i++){ if (plain||vflip(.6)) vstr_plain(c,8); else vstr_any(c,8); snprintf(b,200,"%s%s_%d",pre,c,i); apop_name_add(d->names,b,ch); }
    if (s.cn) NM(s.m2,'c',"m") if (s.vn&&s.vs) NM(1,'v',"v") if (s.tn) NM(s.t2,'t',"t")
    vh_sig_data(d); v_desc(" v%d m%dx%d t%dx%d w%d names r%d c%d v%d t%d;",s.vs,s.m1,s.m2,s.t1,s.t2,s.ws,s.rn,s.cn,s.vn,s.tn);
    return d;
}
static sh shape(int wide){
    sh s={0}; int n=vi(1,9);
    if (vflip(.5)) s.vs=n; if (vflip(.6)){ s.m1=n; s.m2=vi(1,6);} if (vflip(.5)){ s.t1=n; s.t2=vi(1,4);} if (vflip(.4)) s.ws=n;
    if (wide){ s.m1=n=vi(1,3); s.m2=vi(950,1040); if (s.t1){ s.t1=n; s.t2=vi(1,60);} if (s.vs) s.vs=n; if (s.ws) s.ws=n; }
    if (!s.vs&&!s.m1&&!s.t1&&!s.ws){ s.m1=n; s.m2=2; }
    if (vflip(.1)){ if (s.vs) s.vs=vi(1,9); if (s.m1) s.m1=vi(1,9); if (s.t1) s.t1=vi(1,9); if (s.ws) s.ws=vi(1,9); v_ev("uneven_sets"); }
    if (vflip(.4)) s.rn= s.m1?s.m1:s.vs?s.vs:s.t1; s.cn=vflip(.5)&&s.m2; s.vn=vflip(.5)&&s.vs; s.tn=vflip(.5)&&s.t2; return s;
}
static int rowsof(const apop_data *d){ int r=0; if (d->vector) r=d->vector->size; if (d->matrix&&(int)d->matrix->size1>r) r=d->matrix->size1; if (d->textsize[1]&&(int)d->textsize[0]>r) r=d->textsize[0]; if (d->weights&&(int)d->weights->size>r) r=d->weights->size; return r; }
static void cmpnum(sqlite3_stmt *s,int c,int have,double x,int wide,const char *key,int i,int j){
    if (!have||isnan(x)) V_CHECK(sqlite3_column_type(s,c)==SQLITE_NULL,key,"%d,%d should be NULL, is [%s]",i,j,sqlite3_column_text(s,c));
    else if (isinf(x)) { const char *t=(char*)sqlite3_column_text(s,c); V_CHECK(t&&atof(t)==x,key,"%d,%d is [%s], want %g",i,j,t,x); }
    else { V_CHECK(sqlite3_column_type(s,c)==SQLITE_FLOAT||sqlite3_column_type(s,c)==SQLITE_INTEGER,key,"%d,%d: not stored as a number",i,j); V_CLOSE(sqlite3_column_double(s,c),x,wide?1e-15:0,0,key,"%d,%d",i,j); }
}
static void cmptext(const char *t,const apop_data *d,int i,int j){
    const char *w = i<(int)d->textsize[0]?d->text[i][j]:"";
    if (!*w||(apop_opts.nan_string&&!strcasecmp(apop_opts.nan_string,w))) V_CHECK(!t,"text","text %d,%d is [%s], want NULL",i,j,t);
    else V_STR(t,w,"text","%d,%d",i,j);
}
static void check(const char *tab,apop_data **ds,int nd,int named){
    sqlite3_stmt *s; char q[200]; snprintf(q,200,"select * from %s order by rowid",tab);
    if (!V_CHECK(sqlite3_prepare_v2(db,q,-1,&s,NULL)==SQLITE_OK,"notable","no table %s: %s",tab,sqlite3_errmsg(db))) return;
    apop_data *d=*ds; int m2=d->matrix?(int)d->matrix->size2:0,t2=d->textsize[0]?(int)d->textsize[1]:0,rn=named, tot=rn+!!d->vector+m2+t2+!!d->weights;
    if (V_CHECK(sqlite3_column_count(s)==tot,"ncol","%d columns, want %d",sqlite3_column_count(s),tot)){
        int c=0; char b[30];
        if (rn) V_STR(sqlite3_column_name(s,c++),apop_opts.db_name_column,"rncol","row name column");
        if (d->vector) V_STR(sqlite3_column_name(s,c++),d->names->vector?d->names->vector:"vector","vcol","vector column");
        for (int j=0;j<m2;j++){ sprintf(b,"c%d",j); V_STR(sqlite3_column_name(s,c++),j<d->names->colct?d->names->col[j]:b,"mcol","matrix column"); }
        for (int j=0;j<t2;j++){ sprintf(b,"tc%d",j); V_STR(sqlite3_column_name(s,c++),j<d->names->textct?d->names->text[j]:b,"tcol","text column"); }
        if (d->weights) V_STR(sqlite3_column_name(s,c),"weights","wcol","weights column");
        int row=0;
        for (int k=0;k<nd;k++){ d=ds[k]; int R=rowsof(d);
            for (int i=0;i<R;i++,row++){
                if (!V_CHECK(sqlite3_step(s)==SQLITE_ROW,"nrow","the table ends after %d rows",row)) goto out;
                c=0;
                if (rn){ const char *w=i<d->names->rowct?d->names->row[i]:""; const char *t=(char*)sqlite3_column_text(s,c++); if (!*w) V_CHECK(!t||!*t,"rowname","row %d named [%s], want none",i,t); else V_STR(t,w,"rowname","%d",i); }
                if (d->vector) { cmpnum(s,c++,i<(int)d->vector->size,i<(int)d->vector->size?gsl_vector_get(d->vector,i):0,tot>999,"vector",i,-1); }
                for (int j=0;j<m2;j++) cmpnum(s,c++,i<(int)d->matrix->size1,i<(int)d->matrix->size1?gsl_matrix_get(d->matrix,i,j):0,tot>999,"matrix",i,j);
                for (int j=0;j<t2;j++) cmptext((char*)sqlite3_column_text(s,c++),d,i,j);
                if (d->weights) cmpnum(s,c++,i<(int)d->weights->size,i<(int)d->weights->size?gsl_vector_get(d->weights,i):0,tot>999,"weights",i,0);
            } }
        V_CHECK(sqlite3_step(s)==SQLITE_DONE,"nrow","the table has more than the %d rows written",row);
    }
out: sqlite3_finalize(s);
}
static void canary(void){
    V_CHECK(apop_query_to_float("select count(*) from sqlite_master")==2,"others","%g objects in the database, want the table and the canary",apop_query_to_float("select count(*) from sqlite_master"));
    V_CHECK(apop_query_to_float("select sum(a) from canary")==6,"canary","the other table changed");
}
static void run(int wide){
    apop_db_close(); apop_query("create table canary(a); "); apop_query("insert into canary values(1),(2),(3)");
    char *dnc=apop_opts.db_name_column; if (vflip(.2)) apop_opts.db_name_column=vpick(((char*[]){"names",NULL,""}));
    if (vflip(.2)) apop_opts.nan_string=vpick(((char*[]){NULL,"NA","."}));
    sh s=shape(wide); apop_data *d=mk(s,0); char *before=vh_dump(d,true);
    int named=s.rn&&apop_opts.db_name_column&&*apop_opts.db_name_column;
    if (vflip(.15)){ apop_query(vflip(.5)?"create view tab as select a as x, a+1 as y from canary":"create table tab as select a as x from canary"); v_ev("overwritten"); }
    apop_data_print(d,"tab",.output_type='d',.output_append='w');
    check("tab",&d,1,named); canary();
    if (!v_nfails()){
        // append a second set of the same columns
        sh s2=s; if (!s2.rn||vflip(.5)){ int n=vi(1,6); if (s2.vs) s2.vs=n; if (s2.m1) s2.m1=n; if (s2.t1) s2.t1=n; if (s2.ws) s2.ws=n; if (s2.rn) s2.rn=n; }
        apop_data *e=mk(s2,0);
        apop_data_print(e,vflip(.3)?"TAB":"tab",.output_type='d',.output_append='a'); apop_data *both[]={d,e};
        check("tab",both,2,named); canary();
        if (!wide){ apop_data_print(e,"tab",.output_type='d',.output_append='w');
            sqlite3_stmt *st; V_CHECK(sqlite3_prepare_v2(db,"select count(*) from tab",-1,&st,NULL)==SQLITE_OK&&sqlite3_step(st)==SQLITE_ROW&&sqlite3_column_int(st,0)==rowsof(e),"overwrite","overwriting left %d rows, want %d",sqlite3_column_int(st,0),rowsof(e)); sqlite3_finalize(st); check("tab",&e,1,named); canary(); }
        apop_data_free(e);
    }
    char *after=vh_dump(d,true); V_STR(after,before,"input","writing changed the data set"); free(before); free(after);
    apop_data_free(d); apop_opts.db_name_column=dnc; apop_opts.nan_string="NaN"; apop_db_close();
}
static void f_write(void){ run(0); }
static void f_wide(void){ run(1); }
static void f_back(void){ // and the whole way round by the library's own query
    apop_db_close();
    sh s=shape(0); int n=vi(1,9); if (s.vs) s.vs=n; if (s.m1) s.m1=n; if (s.t1) s.t1=n; if (s.ws) s.ws=n; s.rn=vflip(.4)&&(s.m1||s.vs||s.t1)?n:0;
    apop_data *d=mk(s,1); char ty[60]; int k=0;
    if (s.rn) ty[k++]='n'; if (s.vs) ty[k++]='v'; for (int j=0;j<s.m2;j++) ty[k++]='m'; for (int j=0;j<s.t2;j++) ty[k++]='t'; if (s.ws) ty[k++]='w'; ty[k]=0;
    v_desc(" types %s",ty);
    apop_data_print(d,"tab",.output_type='d',.output_append='w');
    apop_data *r=apop_query_to_mixed_data(ty,"select * from tab order by rowid");
    if (!V_CHECK(r&&!r->error,"mixed","no result")) goto out;
    int ok=V_CHECK(!!r->vector==!!s.vs&&(!s.vs||(int)r->vector->size==n)&&!!r->matrix==!!s.m1&&(!s.m1||((int)r->matrix->size1==n&&(int)r->matrix->size2==s.m2))&&(int)r->textsize[0]==s.t1&&(int)r->textsize[1]==s.t2&&!!r->weights==!!s.ws&&(!s.ws||(int)r->weights->size==n),"mixshape","parts or sizes differ");
    if (ok) for (int i=0;i<n;i++){
        if (s.vs) V_CLOSE(gsl_vector_get(r->vector,i),gsl_vector_get(d->vector,i),1e-14,0,"mixv","%d",i);
        for (int j=0;j<s.m2;j++) V_CLOSE(gsl_matrix_get(r->matrix,i,j),gsl_matrix_get(d->matrix,i,j),1e-14,0,"mixm","%d,%d",i,j);
        for (int j=0;j<s.t2;j++){ const char *w=d->text[i][j]; if (!*w||!strcasecmp(w,"nan")) w="NaN"; V_STR(r->text[i][j],w,"mixt","%d,%d",i,j); }
        if (s.ws) V_CLOSE(gsl_vector_get(r->weights,i),gsl_vector_get(d->weights,i),1e-14,0,"mixw","%d",i);
        if (s.rn) V_STR(r->names->row[i],*d->names->row[i]?d->names->row[i]:"NaN","mixn","%d",i);
    }
    if (s.cn) for (int j=0;j<s.m2;j++) V_STR(r->names->col[j],d->names->col[j],"mixcn","%d",j);
    if (s.tn) for (int j=0;j<s.t2;j++) V_STR(r->names->text[j],d->names->text[j],"mixtn","%d",j);
    if (s.vn) V_STR(r->names->vector,d->names->vector,"mixvn","vector");
out: apop_data_free(r);
    if (!s.t1&&(s.m1||s.vs||s.ws)){ r=apop_query_to_data("select * from tab order by rowid"); int cols=!!s.vs+s.m2+!!s.ws;
        if (V_CHECK(r&&r->matrix&&(int)r->matrix->size1==n&&(int)r->matrix->size2==cols,"qshape","shape")) for (int i=0;i<n;i++){ int c=0;
            if (s.vs) V_CLOSE(gsl_matrix_get(r->matrix,i,c++),gsl_vector_get(d->vector,i),1e-14,0,"qv","%d",i);
            for (int j=0;j<s.m2;j++) V_CLOSE(gsl_matrix_get(r->matrix,i,c++),gsl_matrix_get(d->matrix,i,j),1e-14,0,"qm","%d,%d",i,j);
            if (s.ws) V_CLOSE(gsl_matrix_get(r->matrix,i,c++),gsl_vector_get(d->weights,i),1e-14,0,"qw","%d",i);
            if (s.rn) V_STR(r->names->row[i],*d->names->row[i]?d->names->row[i]:"NaN","qn","%d",i); }
        apop_data_free(r); }
    apop_data_free(d); apop_db_close();
}
vh_family vh_families[]={{"write",f_write,800,20000},{"back",f_back,500,12000},{"wide",f_wide,8,150},{NULL}};
