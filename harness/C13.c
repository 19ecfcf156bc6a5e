#include "vh.h"
#include <sqlite3.h>
const char *vh_rule = "Random (row, column, value) tables with awkward labels, missing cells and NULLs through apop_db_to_crosstab, compared cell by cell with a model; random named or unnamed grids of numbers and text through apop_crosstab_to_db, compared with the table read through the SQLite C API and with the round trip; random rank data compressed and expanded. Distinct by content.";
extern sqlite3 *db;
static void q1(const char *q){ char *e=NULL; sqlite3_exec(db,q,NULL,NULL,&e); if (e){ v_fail("harness","%s: %s",q,e); sqlite3_free(e);} }
static char *labels(int n,int i,int kind,char *buf){ // distinct labels
    (void)n; if (kind==0) sprintf(buf,"%d",i*3-2); else if (kind==1){ char b[20]; sprintf(buf,"%s%d",vstr_plain(b,6),i); } else if (kind==2){ char b[30]; sprintf(buf,"%s|%d",vstr_any(b,12),i); } else if (kind==3) sprintf(buf,"%c%c",'a'+i%26,'A'+i/26); else { sprintf(buf,"category"); for (int k=0;k<8;k++) if (i>>k&1) buf[7-k]-=32; } return buf; }
static int cmpkind; 
static void f_db2ct(void){
    apop_db_close(); apop_db_open(NULL); char *dnc=apop_opts.db_name_column; if (vflip(.2)) apop_opts.db_name_column=vpick(((char*[]){NULL,"","r"})); char *was=apop_opts.db_name_column;
    int R=vi(1,vflip(.1)?25:7), C=vi(1,7), rk=vi(0,4), ck=vi(0,4); char rl[25][60], cl[25][60]; for (int i=0;i<R;i++) labels(R,i,rk,rl[i]); for (int j=0;j<C;j++) labels(C,j,ck,cl[j]); (void)cmpkind;
    q1(rk==0&&vflip(.5)?"create table t(r integer,c,v numeric,w numeric)":"create table t(r,c,v numeric,w numeric)");
    double v[25][25]; int ct[25][25]; double sum[25][25]; int maxper=vflip(.5)?1:3; memset(ct,0,sizeof ct); double miss=vflip(.5)?0:.3; int ord[25*25*3], no=0;
    for (int i=0;i<R;i++) for (int j=0;j<C;j++) { v[i][j]=sum[i][j]=0; int k=vflip(miss)?0:vi(1,maxper); if (maxper==1&&k>1) k=1; for (;k>0;k--) ord[no++]=i*C+j; }
    if (!no){ ord[no++]=0; } vshuffle(ord,no);
    sqlite3_stmt *s; sqlite3_prepare_v2(db,"insert into t values(?,?,?,?)",-1,&s,NULL); double nullp=vflip(.2)?.2:0;
    for (int k=0;k<no;k++){ int i=ord[k]/C,j=ord[k]%C; double x=vflip(.5)?vi(-50,50):vd(-5,5); if (vflip(.05)) x=vnorm()*1e6; ct[i][j]++; char b[40]; sprintf(b,"%.15g",x); x=atof(b);
        if (vflip(nullp)){ sqlite3_bind_null(s,3); v[i][j]=NAN; } else { sqlite3_bind_double(s,3,x); v[i][j]=x; sum[i][j]+=x; } sqlite3_bind_double(s,4,1+k%4);
        sqlite3_bind_text(s,1,rl[i],-1,SQLITE_TRANSIENT); sqlite3_bind_text(s,2,cl[j],-1,SQLITE_TRANSIENT); sqlite3_step(s); sqlite3_reset(s); sqlite3_clear_bindings(s); v_sigs(rl[i]); v_sigs(cl[j]); v_sigd(x); }
    sqlite3_finalize(s); int mode= maxper==1 ? vi(0,5) : vi(1,5); v_desc("%dx%d, kinds %d %d, %d rows, mode %d",R,C,rk,ck,no,mode); if (no<2) v_trivial();
    apop_data *d = mode==0? apop_db_to_crosstab("t","r","c","v") : mode==1? apop_db_to_crosstab("t","r","c") : mode==2 ? apop_db_to_crosstab("t","r","c","sum(v)") : mode==3? apop_db_to_crosstab("t","r") : mode==4 ? apop_db_to_crosstab(.tabname="t",.col="c",.data="count(*)") : apop_db_to_crosstab("(select * from t where w>=1)","r","c","count(v)",'y');
    V_CHECK(apop_opts.db_name_column==was,"dnc","db_name_column was left changed"); 
    if (V_CHECK(d&&!d->error&&d->matrix,"ct","no crosstab or error %d",d?d->error:-1)){
        int usedr=0, usedc=0; for (int i=0;i<R;i++){ int u=0; for (int j=0;j<C;j++) u|=ct[i][j]; usedr+=!!u; } for (int j=0;j<C;j++){ int u=0; for (int i=0;i<R;i++) u|=ct[i][j]; usedc+=!!u; }
        int wr=mode==4?1:usedr, wc=mode==3?1:usedc;
        if (V_CHECK((int)d->matrix->size1==wr&&(int)d->matrix->size2==wc,"ctdim","%zux%zu, want %dx%d",d->matrix->size1,d->matrix->size2,wr,wc)&V_CHECK(d->names->rowct==wr&&d->names->colct==wc,"ctnames","%d, %d names",d->names->rowct,d->names->colct)){
            int hit=0; for (int i=0;i<(mode==4?1:R);i++) for (int j=0;j<(mode==3?1:C);j++){ int ri=mode==4?0:-1,cj=mode==3?0:-1; for (int k=0;ri<0&&k<wr;k++) if (!strcmp(d->names->row[k],rl[i])) ri=k; for (int k=0;cj<0&&k<wc;k++) if (!strcmp(d->names->col[k],cl[j])) cj=k;
                int any=0; for (int k=0;k<C;k++) any|=ct[i][k]; if (mode==4) any=1; int any2=0; for (int k=0;k<R;k++) any2|=ct[k][j]; if (mode==3) any2=1;
                if (mode!=4) V_CHECK((ri>=0)==!!any,"rowlabel","row label [%s] %s",rl[i],any?"is missing":"is there"); if (mode!=3) V_CHECK((cj>=0)==!!any2,"collabel","column label [%s] %s",cl[j],any2?"is missing":"is there");
                if (ri<0||cj<0) continue; double want; if (mode==0) want=ct[i][j]?v[i][j]:0; else if (mode==1) want=ct[i][j]; else if (mode==2) want=sum[i][j]; else if (mode==3){ want=0; for (int k=0;k<C;k++) want+=ct[i][k]; } else if (mode==4){ want=0; for (int k=0;k<R;k++) want+=ct[k][j]; } else { if (nullp) continue; want=ct[i][j]; }
                if (mode==2&&nullp) continue; hit++;
                V_CLOSE(gsl_matrix_get(d->matrix,ri,cj),want,1e-13,mode==2?1e-9:0,"ctcell","[%s],[%s], mode %d",rl[i],cl[j],mode); v_ev("cells"); }
            for (int k=1;k<wr&&mode!=4&&rk!=0;k++) V_CHECK(strcmp(d->names->row[k-1],d->names->row[k])<0,"sortedrow","row names %d",k); for (int k=1;k<wc&&mode!=3&&ck!=0;k++) V_CHECK(strcmp(d->names->col[k-1],d->names->col[k])<0,"sortedcol","column names %d",k);
        }
    }
    apop_data_free(d);
    if (vflip(.2)){ apop_query("create table empty(a,b,v)"); d=apop_db_to_crosstab("empty","a","b","v"); V_CHECK(!d,"blank","a crosstab of an empty table"); V_CHECK(apop_opts.db_name_column==was,"dnc2","db_name_column was lost after an empty table"); apop_data_free(d); }
    if (vflip(.2)){ d=apop_db_to_crosstab("nosuch","a","b","v"); V_CHECK(!d||d->error,"badtab","a crosstab of no table"); V_CHECK(apop_opts.db_name_column==was,"dnc3","db_name_column was lost after a bad query"); apop_data_free(d); }
    if (vflip(.1)) { d=apop_db_to_crosstab(.row="r",.col="c"); V_CHECK(!d,"notab","no table name"); }
    if (vflip(.3)){ d=apop_db_to_crosstab("t"); if (V_CHECK(d&&d->matrix,"grand","no grand tally")) V_EQ(apop_data_get(d,0,0),no,"grand","grand tally"); apop_data_free(d); }
    apop_opts.db_name_column=dnc; apop_db_close();
}
static void f_ct2db(void){
    apop_db_close(); apop_db_open(NULL); int R=vi(1,vflip(.1)?110:8), C=vi(0,6), T=vflip(.4)?vi(1,4):0; if (!C&&!T) C=1; int text_affinity=0; (void)text_affinity;
    apop_data *d=apop_data_alloc(0,C?R:0,C); int tr=vflip(.8)?R:vi(1,R); if (T) apop_text_alloc(d,tr,T);
    int rk=vi(0,4), ck=vi(0,4), tk=vi(0,4); char b[60]; int rn=vflip(.2)?vi(0,R):R, cn=vflip(.2)?vi(0,C):C; if (!C&&rn>tr) rn=tr;
    if (rk<4) for (int i=0;i<rn;i++) apop_name_add(d->names,labels(R,i,rk,b),'r'); if (ck<4) for (int j=0;j<cn;j++) apop_name_add(d->names,labels(C,j,ck,b),'c'); if (tk<4) for (int j=0;j<T;j++){ labels(T,j,tk,b); char b2[70]; sprintf(b2,"T%s",b); apop_name_add(d->names,b2,'t'); }
    for (int i=0;i<R;i++) for (int j=0;j<C;j++){ double x=vval(); if (vflip(.1)) x=NAN; if (vflip(.03)) x=vflip(.5)?INFINITY:-INFINITY; if (x==0) x=0; apop_data_set(d,i,j,x); }
    for (int i=0;i<(T?tr:0);i++) for (int j=0;j<T;j++){ char t[40]; do vstr_any(t,20); while (isdigit(t[0])||strchr("+-. \t",t[0])||!strcasecmp(t,"nan")||!strncasecmp(t,"inf",3)); apop_text_set(d,i,j,"%s",t); }
    vh_sig_data(d); v_desc("%dx%d + %dx%d text, names %d %d %d",R,C,T?tr:0,T,rk,ck,tk); char *before=vh_dump(d,true); apop_crosstab_to_db(d,"ct","rowcol","colcol","val"); char *after=vh_dump(d,true); V_STR(after,before,"inputchanged","input of crosstab_to_db"); free(before); free(after);
    sqlite3_stmt *s; if (!V_CHECK(sqlite3_prepare_v2(db,"select rowcol, colcol, val from ct order by rowid",-1,&s,NULL)==SQLITE_OK,"table","%s",sqlite3_errmsg(db))) { apop_data_free(d); return; }
    int n=0; 
    for (int t=0;t<2;t++) for (int i=0;i<(t?(T?tr:0):(C?R:0));i++) for (int j=0;j<(t?T:C);j++){ if (!V_CHECK(sqlite3_step(s)==SQLITE_ROW,"rows","only %d rows",n)) goto done; n++;
        char want[80]; if (i<d->names->rowct) strcpy(want,d->names->row[i]); else sprintf(want,"r%d",i); V_STR((char*)sqlite3_column_text(s,0),want,"rowname","row %d",n);
        if (t?j<d->names->textct:j<d->names->colct) strcpy(want,t?d->names->text[j]:d->names->col[j]); else sprintf(want,"%c%d",t?'t':'c',j); V_STR((char*)sqlite3_column_text(s,1),want,"colname","row %d",n);
        if (t) V_STR((char*)sqlite3_column_text(s,2),d->text[i][j],"text","row %d",n); else { double x=apop_data_get(d,i,j); if (isnan(x)) V_CHECK(sqlite3_column_type(s,2)==SQLITE_NULL,"nan","NaN written as %s",sqlite3_column_text(s,2)); else V_CLOSE(sqlite3_column_double(s,2),x,3e-16,0,"cell","%d,%d",i,j); } v_ev("rows"); }
    V_CHECK(sqlite3_step(s)==SQLITE_DONE,"extra","extra rows after %d",n);
    done: sqlite3_finalize(s);
    if (C&&!T&&rk<3){ apop_data *r=apop_db_to_crosstab("ct","rowcol","colcol","val"); // round trip
        if (V_CHECK(r&&!r->error&&r->matrix&&(int)r->matrix->size1==R&&(int)r->matrix->size2==C,"rtshape","round trip %zux%zu, want %dx%d",r&&r->matrix?r->matrix->size1:0,r&&r->matrix?r->matrix->size2:0,R,C))
            for (int i=0;i<R;i++) for (int j=0;j<C;j++){ char rw[80],cw[80]; if (i<d->names->rowct) strcpy(rw,d->names->row[i]); else sprintf(rw,"r%d",i); if (j<d->names->colct) strcpy(cw,d->names->col[j]); else sprintf(cw,"c%d",j); int a=-1,c=-1; for (int k=0;k<R;k++) if (!strcmp(r->names->row[k],rw)) a=k; for (int k=0;k<C;k++) if (!strcmp(r->names->col[k],cw)) c=k;
                if (V_CHECK(a>=0&&c>=0,"rtname","[%s] or [%s] was lost",rw,cw)) V_CLOSE(gsl_matrix_get(r->matrix,a,c),apop_data_get(d,i,j),1e-14,0,"rtcell","%d,%d",i,j); }
        apop_data_free(r); v_ev("round_trips"); }
    apop_data_free(d); apop_db_close();
}
static int cmpd(const void *a,const void *b){ double x=*(double*)a,y=*(double*)b; return (x>y)-(x<y); }
static void f_rank(void){
    int vs=vflip(.7)?vi(1,60):0, r=vs&&vflip(.6)?0:vi(1,8), c=r?vi(1,8):0, top=vi(0,12); apop_data *d=apop_data_alloc(vs,r,c); int tot=vs+r*c; double *all=malloc(tot*sizeof *all); int n=0, mx=0, ct[100]={0};
    for (int i=0;i<vs;i++){ int x=vi(0,top); if (vflip(.5)) x=x*vi(0,top)/(top+1); gsl_vector_set(d->vector,i,x); all[n++]=x; ct[x]++; if (x>mx) mx=x; }
    for (int i=0;i<r;i++) for (int j=0;j<c;j++){ int x=vi(0,top); apop_data_set(d,i,j,x); all[n++]=x; ct[x]++; if (x>mx) mx=x; }
    int mb=vflip(.5)?vi(1,20):0, cols=(mb>mx?mb:mx)+1; vh_sig_data(d); v_sig(&mb,sizeof mb); v_desc("vector %d, matrix %dx%d, max %d, min_bins %d",vs,r,c,mx,mb);
    char *before=vh_dump(d,true); apop_data *k= mb? apop_data_rank_compress(d,mb) : apop_data_rank_compress(d); char *after=vh_dump(d,true); V_STR(after,before,"inputchanged","input"); free(before); free(after);
    if (V_CHECK(k&&k->matrix&&k->matrix->size1==1&&(int)k->matrix->size2==cols,"rankshape","%zu columns, want %d",k&&k->matrix?k->matrix->size2:0,cols)){
        for (int j=0;j<cols;j++) V_EQ(apop_data_get(k,0,j),ct[j],"rankcount","rank %d",j);
        if (vflip(.3)){ // several rows of counts
            apop_data *k2=apop_data_alloc(2,cols); for (int j=0;j<cols;j++){ int a=vi(0,ct[j]); apop_data_set(k2,0,j,a); apop_data_set(k2,1,j,ct[j]-a); } apop_data_free(k); k=k2; }
        apop_data *e=apop_data_rank_expand(k); if (V_CHECK(e&&e->vector&&(int)e->vector->size==tot,"expandsize","%zu, want %d",e&&e->vector?e->vector->size:0,tot)){ double *got=malloc(tot*sizeof *got); for (int i=0;i<tot;i++) got[i]=gsl_vector_get(e->vector,i); qsort(got,tot,sizeof(double),cmpd); qsort(all,tot,sizeof(double),cmpd); for (int i=0;i<tot;i++) V_EQ(got[i],all[i],"expand","sorted element %d",i); }
        apop_data_free(e); v_ev("rank_round_trips"); }
    apop_data *z=apop_data_calloc(1,3); apop_data *ze=apop_data_rank_expand(z); V_CHECK(!ze,"expandzero","an expansion of zero counts"); apop_data_free(z); V_CHECK(!apop_data_rank_compress(NULL),"compressnull","NULL");
    apop_data_free(k); apop_data_free(d); free(all);
}
vh_family vh_families[]={{"db2ct",f_db2ct,900,30000},{"ct2db",f_ct2db,700,20000},{"rank",f_rank,1500,60000},{NULL}};
