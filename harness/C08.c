#include "vh.h"
#include <sqlite3.h>
const char *vh_rule = "A random table of numbers and awkward text is written to a file in a random one of the documented ways (delimiters, quotes, escapes, comments, blank lines, padding, row and column names, last newline or none, LF or CRLF, fixed width), read by the library, and compared cell by cell with the table; plus random bytes, for crashes and loops. Distinct by file content.";

typedef struct { int rows, cols; char ***cell; char **rn, **cn; int hasrn, hascn; } tab_t;
static char *sdup(const char *s){ return strdup(s); }
static void tab_free(tab_t *t){
    for (int i=0;i<t->rows;i++){ for (int j=0;j<t->cols;j++) free(t->cell[i][j]); free(t->cell[i]); free(t->rn[i]); }
    for (int j=0;j<t->cols;j++) free(t->cn[j]);
    free(t->cell); free(t->rn); free(t->cn);
}
static char *numstr(char *b){
    switch (vi(0,7)){
    case 0: sprintf(b,"%d",vi(-9999,9999)); break;
    case 1: sprintf(b,"%.3f",vd(-100,100)); break;
    case 2: sprintf(b,"%.14g",vval()); break;
    case 3: sprintf(b,".%d",vi(0,999)); break;
    case 4: sprintf(b,"%de%d",vi(1,9),vi(-20,20)); break;
    case 5: sprintf(b,"%s",vflip(.5)?"inf":"-inf"); break;
    case 6: sprintf(b,"+%d",vi(0,99)); break;
    default: sprintf(b,"%.10g",vnorm()); }
    return b;
}
static int isnumstr(const char *s){ char *t; if (!*s) return 0; strtod(s,&t); return !*t; }
static char *textstr(char *b, int max){  // never reads as a number or begins like one, no surrounding white space
    int n=vi(1,vflip(.03)?max:12); if (n>max) n=max;
    static const char a[]="abcdefghijklmnopqrstuvwxyz_%'ABC-+.:;!?()[]{}/<>=&*@$^~`|,\t\"#\\ 0123456789";
    do {
        static const char st[]="bcdeghjklmopqrstuvwxyzZ_%'(\"#\\|,;:"; b[0]=st[vi(0,(int)sizeof(st)-2)];
        for (int i=1;i<n;i++) b[i]=a[vi(0,(int)sizeof(a)-2)];
        b[n]=0;
        while (n>1 && (b[n-1]==' '||b[n-1]=='\t')) b[--n]=0;
        if (vflip(.05)) { strcat(b,"\xc3\xa9"); }  // UTF-8
    } while (!strcasecmp(b,"nan"));
    return b;
}
static tab_t mktab(int maxr,int maxc,double ptext,double pempty,const char *nanstr,int wdelim){
    tab_t t={.rows=vflip(.1)?1:vi(1,maxr),.cols=vi(1,maxc)}; static char b[8000];
    t.cell=calloc(t.rows,sizeof(char**)); t.rn=calloc(t.rows,sizeof(char*)); t.cn=calloc(t.cols,sizeof(char*));
    for (int i=0;i<t.rows;i++){
        t.cell[i]=calloc(t.cols,sizeof(char*)); int any=0;
        for (int j=0;j<t.cols;j++){
            if (vflip(pempty)) b[0]=0;
            else if (nanstr && vflip(.06)) strcpy(b,nanstr);
            else if (vflip(ptext)) textstr(b,4000);
            else numstr(b);
            if (*b) any=1;
            t.cell[i][j]=sdup(b);
        }
        if (!any){ free(t.cell[i][0]); t.cell[i][0]=sdup("7"); }
        textstr(b,60); t.rn[i]=sdup(b);
    }
    for (int j=0;j<t.cols;j++){ char c[200]; textstr(c,40); sprintf(b,"%s_%d",c,j); t.cn[j]=sdup(b); }
    return t;
}
static FILE *F; static const char *delims; static int spdelim, tabdelim;
static void pad(void){ if (vflip(.75)) return; for (int k=vi(1,3);k>0;k--){ char c=" \t"[vi(0,1)]; if ((c==' '&&spdelim)||(c=='\t'&&tabdelim)) continue; fputc(vflip(.05)?0:c,F);} }
static void putfield(const char *s,int first){
    int special = !*s? 0 : (strpbrk(s,"#\"\\")||strpbrk(s,delims)||isspace((unsigned char)*s)||isspace((unsigned char)s[strlen(s)-1]));
    if (spdelim||tabdelim) if (!*s) special=1;     // an empty field must be shown
    if (first && !*s) special=1;                    // so the line is not blank
    if (spdelim && strchr(s,' ')) special=1;
    pad();
    int how = special ? vi(1,2) : (vflip(.2)?vi(1,2):0);
    if (!*s && special) how=1;
    if (how==0) fputs(s,F);
    else if (how==1){
        fputc('"',F); for (;*s;s++){ if (*s=='"'||*s=='\\') fputc('\\',F); fputc(*s,F);} fputc('"',F);
    } else for (;*s;s++){ if (strchr("#\"\\ \t",*s)||strchr(delims,*s)||vflip(.05)) fputc('\\',F); fputc(*s,F); }
    pad();
}
static void delim(void){
    char c=delims[vi(0,(int)strlen(delims)-1)]; fputc(c,F);
    if (c==' '||c=='\t') while (vflip(.3)) { char e=spdelim&&tabdelim?" \t"[vi(0,1)]:c; fputc(e,F);} // one white delimiter or several
}
static int crlf;
static void eol(void){ if (vflip(.1)){ if (!(spdelim)) fputc(' ',F); fputs("# a comment, with \"quotes\" | and\tdelimiters",F);} if (crlf) fputc('\r',F); fputc('\n',F);
    while (vflip(.08)) fputs(vpick(((const char*[]){"\n","   \n","# only a comment\n","\t\n","#\n"})),F); }
static long filelen;
static void writefile(const char *path, tab_t *t){
    F=fopen(path,"w"); crlf=vflip(.1); spdelim=!!strchr(delims,' '); tabdelim=!!strchr(delims,'\t');
    if (crlf) v_ev("crlf_files");
    if (vflip(.1)) fputs("# leading comment\n\n",F);
    if (t->hascn){ for (int j=0;j<t->cols;j++){ if (j) delim(); putfield(t->cn[j],!j);} eol(); }
    for (int i=0;i<t->rows;i++){
        if (t->hasrn){ putfield(t->rn[i],1); delim(); }
        for (int j=0;j<t->cols;j++){ if (j) delim(); putfield(t->cell[i][j],!t->hasrn&&!j);
            if (j==t->cols-1 && !t->cell[i][j][0] && (spdelim||tabdelim)) ; }
        if (i==t->rows-1 && vflip(.3)) v_ev("no_final_newline"); else eol();
    }
    filelen=ftell(F); fclose(F);
    v_evn("bytes_written",filelen);
    FILE *f=fopen(path,"r"); char buf[4096]; size_t n=fread(buf,1,sizeof buf,f); v_sig(buf,n); fclose(f);
    for (size_t i=0;i<n&&i<240;i++) { unsigned char c=buf[i]; if (c>=32&&c<127) v_desc("%c",c); else v_desc("\\x%02x",c); }
    v_desc(" [%s] rn=%d cn=%d; ",delims,t->hasrn,t->hascn);
}
static const char *dl[]={"|,\t","|",",","\t"," \t",";"," ","|,;"};
static double want_num(const char *s,const char *nan){ if (!*s||(nan&&!strcasecmp(s,nan))||!isnumstr(s)) return NAN; return strtod(s,NULL); }

static void f_data(void){
    const char *ns=vpick(((const char*[]){"NaN","NaN","Missing",".","-99","NA"})); apop_opts.nan_string=(char*)ns;
    delims=vpick(dl); int dflt=!strcmp(delims,"|,\t")&&vflip(.5);
    tab_t t=mktab(vflip(.05)?300:12,vflip(.05)?60:8,vflip(.5)?0:.1,vflip(.5)?0:.1,ns,0);
    t.hasrn=vflip(.4); t.hascn=vflip(.6);
    writefile("in.txt",&t);
    int usestdin=vflip(.1);
    if (usestdin && !freopen("in.txt","r",stdin)) usestdin=0;
    char *fn=usestdin?"-":"in.txt";
    int y=vpick(((int[]){'y','Y',1})), n=vpick(((int[]){'n','N'}));
    apop_data *d = dflt ? apop_text_to_data(fn,t.hasrn?y:n,t.hascn?y:n) : apop_text_to_data(fn,t.hasrn?y:n,t.hascn?y:n,.delimiters=delims);
    if (!V_CHECK(d&&!d->error,"read","error %c reading a well-formed file",d?d->error:'0')) goto out;
    if (!V_CHECK(d->matrix&&(int)d->matrix->size1==t.rows&&(int)d->matrix->size2==t.cols,"shape","%zux%zu, the file has %dx%d",d->matrix?d->matrix->size1:0,d->matrix?d->matrix->size2:0,t.rows,t.cols)) goto out;
    for (int i=0;i<t.rows;i++) for (int j=0;j<t.cols;j++)
        V_EQ(gsl_matrix_get(d->matrix,i,j),want_num(t.cell[i][j],ns),"cell","row %d col %d, text [%s]",i,j,t.cell[i][j]);
    V_CHECK(d->names->colct==(t.hascn?t.cols:0),"colct","%d column names",d->names->colct);
    if (t.hascn) for (int j=0;j<t.cols&&j<d->names->colct;j++) V_STR(d->names->col[j],t.cn[j],"colname","%d",j);
    V_CHECK(d->names->rowct==(t.hasrn?t.rows:0),"rowct","%d row names",d->names->rowct);
    if (t.hasrn) for (int j=0;j<t.rows&&j<d->names->rowct;j++) V_STR(d->names->row[j],t.rn[j],"rowname","%d",j);
    V_CHECK(!d->vector&&!d->weights&&!d->textsize[0],"extra","parts that are not in the file");
out: apop_data_free(d); tab_free(&t); apop_opts.nan_string="NaN";
}

static sqlite3 *side;
static void check_table(const char *name,tab_t *t,const char *ns,int texttype,int copies){
    sqlite3_stmt *s; char q[300]; snprintf(q,300,"select * from %s order by rowid",name);
    extern sqlite3 *db;
    if (!V_CHECK(sqlite3_prepare_v2(db,q,-1,&s,NULL)==SQLITE_OK,"table","no table %s: %s",name,sqlite3_errmsg(db))) return;
    int nc=sqlite3_column_count(s), off=t->hasrn;
    if (V_CHECK(nc==t->cols+off,"ncol","%d columns, want %d",nc,t->cols+off)){
        if (off) V_STR(sqlite3_column_name(s,0),"row_names","rncol","row name column");
        for (int j=0;j<t->cols;j++){ char w[30]; sprintf(w,"col_%d",j); V_STR(sqlite3_column_name(s,j+off),t->hascn?t->cn[j]:w,"dbcolname","%d",j); }
        int i=0;
        for (;sqlite3_step(s)==SQLITE_ROW;i++){
            int r=i%t->rows; if (i>=copies*t->rows) continue;
            if (off) V_STR((char*)sqlite3_column_text(s,0),t->rn[r],"dbrowname","row %d",i);
            for (int j=0;j<t->cols;j++){
                const char *c=t->cell[r][j]; int ty=sqlite3_column_type(s,j+off);
                if (!*c||(ns&&!strcasecmp(c,ns))) V_CHECK(ty==SQLITE_NULL,"null","row %d col %d is type %d value [%s], text was [%s]",i,j,ty,sqlite3_column_text(s,j+off),c);
                else if (isnumstr(c)) { double got=sqlite3_column_double(s,j+off), want=strtod(c,NULL); V_CLOSE(got,want,texttype?1e-14:4e-16,0,"dbnum","row %d col %d text [%s]",i,j,c); if (texttype&&c[0]!='.'&&!isinf(want)) V_STR((char*)sqlite3_column_text(s,j+off),c,"dbnumtext","number in a text column, row %d col %d",i,j); if (!texttype) V_CHECK(ty!=SQLITE_TEXT,"dbtype","number [%s] stored as type %d",c,ty); }
                else V_STR((char*)sqlite3_column_text(s,j+off),c,"dbtext","row %d col %d",i,j);
            }
        }
        V_CHECK(i==copies*t->rows,"nrow","%d rows in the table, want %d",i,copies*t->rows);
    }
    sqlite3_finalize(s);
}
static void db_common(int maxr,int maxc,double pt,double pe){
    const char *ns=vpick(((const char*[]){"NaN","NaN","Missing",".","-99"})); apop_opts.nan_string=(char*)ns;
    delims=vpick(dl);
    tab_t t=mktab(maxr,maxc,pt,pe,ns,0);
    t.hasrn=vflip(.4); t.hascn=vflip(.6);
    // The row name column and the header can not be in the same place; two names alike are refused by SQLite.
    apop_db_close(); 
    writefile("in.txt",&t);
    char mode="noadODA"[vi(0,3)]; int texttype=vflip(.2), usenames=!t.hascn&&vflip(.3), usestdin=vflip(.08);
    char *fnames[t.cols]; 
    if (usenames){ t.hascn=0; for (int j=0;j<t.cols;j++) fnames[j]=t.cn[j]; }
    apop_data *fp=NULL;
    if (texttype){ fp=apop_text_alloc(NULL,1,2); apop_text_set(fp,0,0,".*"); apop_text_set(fp,0,1,"text"); }
    int deftab=vflip(.2)&&!usestdin; if (usestdin&&!freopen("in.txt","r",stdin)) usestdin=0;
    char *fn=usestdin?"-":vflip(.3)?"./in.txt":"in.txt", *tn=deftab?"in2":"thetab";
    if (deftab){ rename("in.txt","in2.more.txt"); fn="in2.more.txt"; }
    int y=vpick(((int[]){'y','Y',1}));
#define GO(m) apop_text_to_db(.text_file=fn,.tabname=deftab?NULL:"thetab",.has_row_names=t.hasrn?y:'n',.has_col_names=t.hascn?y:'n',.field_names=usenames?fnames:NULL,.field_params=fp,.delimiters=delims,.if_table_exists=m)
    int rc;
    if (deftab) rc=apop_text_to_db(fn,.has_row_names=t.hasrn?y:'n',.has_col_names=t.hascn?y:'n',.field_names=usenames?fnames:NULL,.field_params=fp,.delimiters=delims);
    else rc=GO('n');
    V_CHECK(rc==t.rows,"count","returned %d, the file has %d rows",rc,t.rows);
    int hc=t.hascn; if (usenames) t.hascn=1;
    check_table(tn,&t,ns,texttype,1);
    t.hascn=hc;
    if (!deftab&&!usestdin&&!v_nfails()){
        v_desc("again with '%c'",mode); rc=GO(mode); if (usenames) t.hascn=1;
        if (mode=='n'){ V_CHECK(rc==-1,"exists","existing table: returned %d",rc); check_table(tn,&t,ns,texttype,1); }
        else { V_CHECK(rc==t.rows,"count2","mode %c: returned %d, want %d",mode,rc,t.rows); check_table(tn,&t,ns,texttype,mode=='a'?2:1); }
    }
    apop_data_free(fp); tab_free(&t); apop_opts.nan_string="NaN"; apop_db_close();
}
static void f_db(void){ db_common(vflip(.05)?200:10,vflip(.05)?40:7,vflip(.3)?0:.4,vflip(.5)?0:.12); }
static void f_dbwide(void){ v_desc("wide: "); db_common(3,vi(990,1100),.3,.1); }
static void f_big(void){ // files over the reader's buffer: fields land on its boundary
    delims=vpick(dl); tab_t t=mktab(2500,12,.1,0,NULL,0); t.hasrn=vflip(.3); t.hascn=vflip(.6);
    apop_opts.nan_string=NULL; writefile("in.txt",&t);
    apop_data *d=apop_text_to_data("in.txt",t.hasrn?'y':'n',t.hascn?'y':'n',.delimiters=delims);
    if (V_CHECK(d&&!d->error&&d->matrix&&(int)d->matrix->size1==t.rows&&(int)d->matrix->size2==t.cols,"bigshape","%d rows in the file, %zu read",t.rows,d&&d->matrix?d->matrix->size1:0))
        for (int i=0;i<t.rows;i++){ for (int j=0;j<t.cols;j++) V_EQ(gsl_matrix_get(d->matrix,i,j),want_num(t.cell[i][j],NULL),"bigcell","row %d col %d [%s]",i,j,t.cell[i][j]);
            if (t.hasrn) V_STR(d->names->row[i],t.rn[i],"bigrowname","%d",i); }
    apop_data_free(d); tab_free(&t); apop_opts.nan_string="NaN";
    if (filelen>100000) v_ev("files_over_the_buffer");
}
static void f_ragged(void){ // short lines leave the rest missing; a long line stops the matrix reader with error 't'
    int R=vi(2,10),C=vi(2,6),hasrn=vflip(.4),hascn=vflip(.6), longat=vflip(.3)?vi(1,R-1):-1; int ct[20]; double v[20][10];
    delims=","; FILE *f=fopen("in.txt","w");
    if (hascn) for (int j=0;j<C;j++) fprintf(f,"%sc%d%s",j?",":"",j,j==C-1?"\n":"");
    for (int i=0;i<R;i++){ ct[i]= i==0?C: i==longat?C+vi(1,3): vi(1,C); if (hasrn) fprintf(f,"r%d,",i);
        for (int j=0;j<ct[i];j++){ double x=vint_val(); if (j<10) v[i][j]=x; fprintf(f,"%s%g",j?",":"",x); v_sigd(x);} fprintf(f,"\n"); }
    fclose(f); v_desc("%dx%d hasrn %d hascn %d longat %d",R,C,hasrn,hascn,longat);
    apop_data *d=apop_text_to_data("in.txt",hasrn?'y':'n',hascn?'y':'n');
    if (longat>=0){
        V_CHECK(d&&d->error=='t',"long","a line with too many fields: error %d",d?d->error:-1);
        if (d&&d->matrix) for (int i=0;i<longat&&i<(int)d->matrix->size1;i++) for (int j=0;j<C;j++) V_EQ(gsl_matrix_get(d->matrix,i,j),j<ct[i]?v[i][j]:NAN,"longcell","%d,%d",i,j);
    } else if (V_CHECK(d&&!d->error&&d->matrix&&(int)d->matrix->size1==R&&(int)d->matrix->size2==C,"short","shape or error for short lines"))
        for (int i=0;i<R;i++) for (int j=0;j<C;j++) V_EQ(gsl_matrix_get(d->matrix,i,j),j<ct[i]?v[i][j]:NAN,"shortcell","%d,%d",i,j);
    apop_data_free(d);
    apop_db_close();
    int rc=apop_text_to_db("in.txt","rag",hasrn?'y':'n',hascn?'y':'n');
    V_CHECK(rc==R,"ragcount","%d rows, want %d",rc,R);
    sqlite3_stmt *s; extern sqlite3 *db;
    if (V_CHECK(sqlite3_prepare_v2(db,"select * from rag order by rowid",-1,&s,NULL)==SQLITE_OK,"ragtab","no table")){
        int i=0; for (;sqlite3_step(s)==SQLITE_ROW;i++) for (int j=0;j<C&&i<R;j++)
            if (j<ct[i]) V_EQ(sqlite3_column_double(s,j+hasrn),v[i][j],"ragcell","%d,%d",i,j); else V_CHECK(sqlite3_column_type(s,j+hasrn)==SQLITE_NULL,"ragnull","%d,%d not NULL",i,j);
        V_CHECK(i==R,"ragrows","%d rows",i); sqlite3_finalize(s);
    }
    apop_db_close();
}
static void f_fixed(void){
    int C=vi(1,7),R=vi(1,12),ends[8],w[8],e=0,hascn=vflip(.5),lastopen=vflip(.2);
    for (int j=0;j<C;j++){ w[j]=vi(1,8); e+=w[j]; ends[j]=e; } ends[C]=-1; // a sentinel, in case a reader looks at one more
    char cell[14][8][12]; FILE *f=fopen("in.txt","w"); int final=vflip(.7), len[14];
    for (int i=0;i<R+hascn;i++){
        len[i]= i==hascn||(hascn&&!i)?C: vflip(.1)?vi(1,C):C;
        for (int j=0;j<C;j++){ int isnum=vflip(.6)&&!(hascn&&!i);
            if (isnum){ char b[40]; snprintf(b,40,"%d",vi(0,99999999)); b[w[j]]=0; snprintf(cell[i][j],12,vflip(.5)?"%-*s":"%*s",w[j],b); }
            else { for (int k=0;k<w[j];k++) cell[i][j][k]= k==0 ? "bcdghjklmopqrstuvwxyz"[vi(0,20)] : (hascn&&!i)||k==w[j]-1? "abcdefgh"[vi(0,7)] : "abc, |\"\\#'"[vi(0,9)]; cell[i][j][w[j]]=0;
                   if (hascn&&!i) { /* unique */ cell[i][j][0]="abcdefghij"[j]; } }
            if (j<len[i]) fputs(cell[i][j],f); v_sigs(cell[i][j]); }
        if (i<R+hascn-1||final) fputc('\n',f);
    }
    fclose(f); v_desc("fixed %dx%d hascn=%d ends",R,C,hascn); for (int j=0;j<C;j++) v_desc(" %d",ends[j]);
    (void)lastopen;
    apop_data *d=apop_text_to_data("in.txt",'n',hascn?'y':'n',.field_ends=ends);
    if (V_CHECK(d&&!d->error&&d->matrix&&(int)d->matrix->size1==R&&(int)d->matrix->size2==C,"fixshape","shape %zux%zu for %dx%d",d&&d->matrix?d->matrix->size1:0,d&&d->matrix?d->matrix->size2:0,R,C)){
        for (int i=0;i<R;i++) for (int j=0;j<C;j++){ char *t,*c=cell[i+hascn][j]; double x=strtod(c,&t); V_EQ(gsl_matrix_get(d->matrix,i,j),j>=len[i+hascn]||t==c?NAN:x,"fixcell","%d,%d [%s]",i,j,c); }
        if (hascn) for (int j=0;j<C;j++) V_STR(d->names->col[j],cell[0][j],"fixname","%d",j);
    }
    apop_data_free(d); apop_db_close();
    int rc=apop_text_to_db("in.txt","fx",'n',hascn?'y':'n',.field_ends=ends);
    V_CHECK(rc==R,"fixcount","%d rows, want %d",rc,R);
    sqlite3_stmt *s; extern sqlite3 *db;
    if (V_CHECK(sqlite3_prepare_v2(db,"select * from fx order by rowid",-1,&s,NULL)==SQLITE_OK,"fixtab","no table")){
        int i=0; for (;sqlite3_step(s)==SQLITE_ROW;i++) for (int j=0;j<C&&i<R;j++){ char *t,*c=cell[i+hascn][j]; double x=strtod(c,&t); while (*t==' ') t++;
            if (j>=len[i+hascn]) V_CHECK(sqlite3_column_type(s,j)==SQLITE_NULL,"fixnull","%d,%d",i,j);
            else if (t!=c&&!*t) V_EQ(sqlite3_column_double(s,j),x,"fixnum","%d,%d [%s]",i,j,c);
            else V_STR((char*)sqlite3_column_text(s,j),c,"fixtext","%d,%d",i,j); }
        sqlite3_finalize(s); V_CHECK(i==R,"fixrows","%d rows",i);
    }
    apop_db_close();
}
static void f_fuzz(void){
    static const char *tok[]={"1","2.5","abc",",","|","\t"," ","\n","\n","\"","\\","#","\r","\0","NaN","-","e",";","'","1,2\n","\"a\"","\xc3\xa9","\n\n","col,row\n"};
    FILE *f=fopen("in.txt","w"); int n=vi(0,60);
    for (int i=0;i<n;i++){ int k=vi(0,Vlen(tok)-1); if (k==13) fputc(0,f); else fputs(tok[k],f); v_sig(&k,sizeof k); v_desc("%s",k==13?"\\0":tok[k]); }
    fclose(f); if (n<2) v_trivial();
    const char *dd=vpick(dl);
    int rn=vflip(.3), cn=vflip(.5);
    apop_data *d=apop_text_to_data("in.txt",rn?'y':'n',cn?'y':'n',.delimiters=dd);
    V_CHECK(d,"fuzznull","apop_text_to_data returned NULL"); int dr=d&&d->matrix&&!d->error?(int)d->matrix->size1:-1;
    apop_db_close();
    int rc=apop_text_to_db("in.txt","fz",rn?'y':'n',cn?'y':'n',.delimiters=dd);
    V_CHECK(rc>=-1,"fuzzrc","apop_text_to_db returned %d",rc);
    double rows=apop_table_exists("fz")?apop_query_to_float("select count(*) from fz"):NAN;
    if (rc>0) V_CHECK(rows==rc,"fuzzcount","returned %d, the table has %g rows",rc,rows);
    if (dr>0&&rc>0) V_CHECK(dr==rc,"fuzzagree","%d rows by one reader and %d by the other",dr,rc);
    v_ev(rc>0?"fuzz_tables_read":"fuzz_files_refused");
    apop_data_free(d); apop_db_close();
    V_CHECK(access("no_such_file",F_OK)!=0&&apop_text_to_db("no_such_file","t")==-1,"nofile","a missing file for the db reader");
    d=apop_text_to_data("no_such_file"); V_CHECK(d&&d->error=='t',"nofile","a missing file for the matrix reader"); apop_data_free(d);
}
vh_family vh_families[]={{"to_data",f_data,600,20000},{"to_db",f_db,500,15000},{"wide",f_dbwide,6,100},{"big",f_big,8,200},{"ragged",f_ragged,200,5000},{"fixed",f_fixed,300,8000},{"fuzz",f_fuzz,800,40000},{NULL}};
