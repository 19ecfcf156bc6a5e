#include "vh.h"
#include "vmodels.h"
#include <fcntl.h>
const char *vh_rule = "A random data set (every combination of parts, differing lengths, pages, names, huge, tiny, infinite and missing numbers) is printed to a file, pipe, stdout or by append, and the bytes are taken apart against the set; then read back; models of many kinds and estimates are printed to a file, stdout and the default, which must agree, hold the parameters and leave the model alone. Distinct by content and destination.";
static void setdelim(const char *d){ strcpy(apop_opts.output_delimiter,d); }
static char *slurp(const char *p,size_t *n){ FILE *f=fopen(p,"r"); if (!f){ *n=0; return calloc(1,1);} fseek(f,0,SEEK_END); long l=ftell(f); rewind(f); char *b=malloc(l+1); *n=fread(b,1,l,f); b[*n]=0; fclose(f); return b; }
static char *word(char *b){ vstr_plain(b,9); if (!strcmp(b,"nan")||!strcmp(b,"inf")||!strcmp(b,"infinity")) strcpy(b,"word"); return b; }
static double pval(void){ double x; switch(vi(0,9)){ case 0: return NAN; case 1: return INFINITY*(vflip(.5)?1:-1); case 2: return vd(-1e300,1e300); case 3: return (double)vi(-3,3)*2147483648.; case 4: return 2147483647.+vi(-2,2); case 5: return vint_val(); default: x=vval(); return fabs(x)<1e200?x:1.5; } }
typedef struct { int vs,m1,m2,t1,t2,ws; int rn,cn,vn,tn,title; } sh;
static apop_data *mk(sh s){
    apop_data *d = s.m1||s.vs ? apop_data_alloc(s.vs,s.m1,s.m2) : apop_data_alloc(); char b[100];
    if (d->vector) for (int i=0;i<s.vs;i++) gsl_vector_set(d->vector,i,pval());
    if (d->matrix) for (int i=0;i<s.m1;i++) for (int j=0;j<s.m2;j++) gsl_matrix_set(d->matrix,i,j,pval());
    if (s.t1) { apop_text_alloc(d,s.t1,s.t2); for (int i=0;i<s.t1;i++) for (int j=0;j<s.t2;j++) apop_text_set(d,i,j,"%s",word(b)); }
    if (s.ws) { d->weights=gsl_vector_alloc(s.ws); for (int i=0;i<s.ws;i++) gsl_vector_set(d->weights,i,pval()); }
    int rows=s.vs; if (s.m1>rows) rows=s.m1; if (s.t1>rows) rows=s.t1; if (s.ws>rows) rows=s.ws;
    if (s.rn) for (int i=0;i<rows;i++) apop_name_add(d->names,word(b),'r');
    if (s.cn) for (int i=0;i<s.m2;i++) apop_name_add(d->names,word(b),'c');
    if (s.vn&&s.vs) apop_name_add(d->names,word(b),'v');
    if (s.tn) for (int i=0;i<s.t2;i++) apop_name_add(d->names,word(b),'t');
    if (s.title) apop_name_add(d->names,"A title, of sorts",'h');
    vh_sig_data(d); v_desc(" v%d m%dx%d t%dx%d w%d names %d%d%d%d%d;",s.vs,s.m1,s.m2,s.t1,s.t2,s.ws,s.rn,s.cn,s.vn,s.tn,s.title);
    return d;
}
static sh shape(void){
    sh s={0}; int n=vi(1,8);
    if (vflip(.5)) s.vs=n; if (vflip(.6)){ s.m1=n; s.m2=vi(1,6);} if (vflip(.4)){ s.t1=n; s.t2=vi(1,4);} if (vflip(.3)) s.ws=n;
    if (!s.vs&&!s.m1&&!s.t1&&!s.ws){ s.m1=n; s.m2=2; }
    if (vflip(.1)){ if (s.vs) s.vs=vi(1,9); if (s.m1) s.m1=vi(1,9); if (s.t1) s.t1=vi(1,9); if (s.ws) s.ws=vi(1,9); v_ev("uneven_sets"); }
    s.rn=vflip(.4); s.cn=vflip(.5)&&s.m2; s.vn=vflip(.5)&&s.vs; s.tn=vflip(.5)&&s.t2; s.title=vflip(.2);
    return s;
}
static int numeq(const char *t,double x){ char *e; if (!*t) return 0; double y=strtod(t,&e); if (*e) return 0; if (isnan(x)) return isnan(y); if (isinf(x)) return x==y; return fabs(x-y)<=5.0001e-7+fabs(x)*1e-15; }
static char *trim(char *s){ while (*s==' ') s++; char *e=s+strlen(s); while (e>s&&e[-1]==' ') *--e=0; return s; }
/* Take one page off the text at p; returns where the next one begins, or NULL once something failed */
static char *eat(char *p,apop_data *d,const char *delim,const char *what){
#define NEXTLINE char *l=p; { char *nl=strchr(p,'\n'); if (!V_CHECK(nl,"short","%s: the output ends early",what)) return NULL; *nl=0; p=nl+1; }
    apop_name *n=d->names; int m2=d->matrix?(int)d->matrix->size2:0, t2=d->textsize[0]?(int)d->textsize[1]:0;
    if (n->title&&*n->title){ NEXTLINE; V_CHECK(strstr(l,n->title),"title","%s: title line is [%s]",what,l); { NEXTLINE; V_CHECK(!*trim(l),"title","%s: no blank line after the title",what);} }
    if (n->vector||n->colct||n->textct){ NEXTLINE;
        char *q=l; char *want[40]; int w=0; if (n->vector&&d->vector) want[w++]=n->vector; for (int i=0;i<n->colct&&d->matrix;i++) want[w++]=n->col[i]; for (int i=0;i<n->textct&&t2;i++) want[w++]=n->text[i];
        int k=0; int first=1;
        while (q){ char *e=strstr(q,delim); if (e) *e=0; char *t=q; while (*t==' '||*t=='\t') t++; t=trim(t);
            if (!*t){ V_CHECK(k==0,"headblank","%s: a blank header field",what); }  // allowed where there are row names or an unnamed vector
            else { if (V_CHECK(k<w,"headextra","%s: extra header [%s]",what,t)) V_STR(t,want[k],"header","%s: header %d",what,k); k++; }
            first=0; q=e?e+strlen(delim):NULL; }
        V_CHECK(k==w,"headct","%s: %d header names, want %d",what,k,w);
    }
    int rows=vh_rows(d); if (n->rowct>rows) rows=n->rowct;
    for (int i=0;i<rows;i++){ NEXTLINE;
        char *tok[200]; int k=0; char *q=l; while (q&&k<200){ char *e=strstr(q,delim); if (e) *e=0; tok[k++]=q; q=e?e+strlen(delim):NULL; }
        for (int j=0;j<k;j++) tok[j]=trim(tok[j]);
        int c=0;
#define TOK(ok,key,...) { if (!V_CHECK(c<k,"fewfields","%s: row %d has %d fields",what,i,k)) return NULL; if (!V_CHECK(ok,key,__VA_ARGS__)) return NULL; c++; }
        if (n->rowct>i) TOK(!strcmp(tok[c],n->row[i]),"rowname","%s: row %d name [%s] want [%s]",what,i,tok[c],n->row[i]);
        if (d->vector){ if (i<(int)d->vector->size) TOK(numeq(tok[c],gsl_vector_get(d->vector,i)),"vec","%s: row %d vector printed as [%s], is %.17g",what,i,tok[c],gsl_vector_get(d->vector,i)) else TOK(!*tok[c],"vecblank","%s: row %d",what,i);
            if (d->matrix&&c<k&&!*tok[c]&&k>(n->rowct>i)+1+m2+t2+(d->weights&&i<(int)d->weights->size)) c++; } // (see the vecmat finding: a blank field between vector and matrix)
        for (int j=0;j<m2;j++) if (i<(int)d->matrix->size1) TOK(numeq(tok[c],gsl_matrix_get(d->matrix,i,j)),"mat","%s: element %d,%d printed as [%s], is %.17g",what,i,j,tok[c],gsl_matrix_get(d->matrix,i,j)) else TOK(!*tok[c],"matblank","%s: row %d",what,i);
        for (int j=0;j<t2;j++) if (i<(int)d->textsize[0]) TOK(!strcmp(tok[c],d->text[i][j]),"text","%s: text %d,%d printed as [%s], is [%s]",what,i,j,tok[c],d->text[i][j]) else TOK(!*tok[c],"textblank","%s: row %d",what,i);
        if (d->weights&&i<(int)d->weights->size) TOK(numeq(tok[c],gsl_vector_get(d->weights,i)),"weight","%s: weight %d printed as [%s], is %.17g",what,i,tok[c],gsl_vector_get(d->weights,i));
        V_CHECK(c==k,"extrafields","%s: row %d has %d fields, want %d",what,i,k,c);
    }
    return p;
}
static void eatall(const char *file,apop_data **ds,int nd,const char *delim,const char *what){
    size_t n; char *b=slurp(file,&n), *p=b;
    for (int i=0;i<nd&&p;i++) for (apop_data *d=ds[i];d&&p;d=d->more) p=eat(p,d,delim,what);
    if (p) V_CHECK(!*p,"leftover","%s: left over: [%.60s]",what,p);
    free(b);
}
static void f_print(void){
    const char *delim=vpick(((const char*[]){"\t",",",";","|","\t",", ","::"})); setdelim(delim);
    char *dnc=apop_opts.db_name_column; if (vflip(.2)) apop_opts.db_name_column=vpick(((char*[]){NULL,"","names"}));
    apop_data *a=mk(shape()), *b=mk(shape()); int pages=vflip(.3)?vi(1,3):0;
    apop_data *t=a; for (int i=0;i<pages;i++) t=apop_data_add_page(t,mk(shape()),"page"); if (pages) v_ev("paged_sets");
    char *ca=vh_dump(a,true);
    v_desc(" delim [%s]",delim);
    apop_data *both[]={a,b};
    switch(vi(0,3)){
    case 0: v_desc(" w,w"); apop_data_print(b,"o.txt",.output_append='w'); apop_data_print(a,"o.txt",.output_append='w'); eatall("o.txt",both,1,delim,"overwrite"); break;
    case 1: v_desc(" w,a"); apop_data_print(a,.output_name="o.txt",.output_append='w',.output_type='f'); apop_data_print(b,"o.txt",.output_append='a'); eatall("o.txt",both,2,delim,"append"); break;
    case 2: { v_desc(" pipe"); FILE *f=fopen("o.txt","w"); apop_data_print(a,.output_pipe=f,.output_type=vflip(.5)?'p':0); apop_data_print(b,.output_pipe=f); V_CHECK(fputs("",f)>=0&&!ferror(f),"pipe","the caller's stream is unusable"); fclose(f); eatall("o.txt",both,2,delim,"pipe"); break; }
    case 3: { v_desc(" new file by append"); unlink("o.txt"); apop_data_print(a,"o.txt",.output_append='a'); eatall("o.txt",both,1,delim,"append to no file"); break; }
    }
    char *cb=vh_dump(a,true); V_STR(cb,ca,"input","printing changed its input"); free(ca); free(cb);
    apop_data_print(a,"no/such/dir/o.txt"); V_CHECK(access("no",F_OK),"nodir","a directory appeared");
    apop_data_free(a); apop_data_free(b); apop_opts.db_name_column=dnc; setdelim("\t");
}
static void f_round(void){
    const char *delim=vpick(((const char*[]){"\t",",",";","|","\t"})); setdelim(delim);
    sh s={0}; int n=vi(1,9); s.m1=n; s.m2=vi(1,6); if (!strcmp(delim,"\t")&&vflip(.4)) s.vs=n; if (vflip(.2)&&!s.vs) { s.vs=n; s.m1=s.m2=0; } if (vflip(.3)) s.ws=n;
    s.rn=vflip(.4); s.cn=vflip(.5); s.vn=s.cn; if (s.cn&&!s.vs) s.vn=0;
    apop_data *d=mk(s); int cols=s.m2+!!s.vs+!!s.ws, names=s.cn?s.m2+!!s.vs:0;
    v_desc(" round trip, delim [%s]",delim);
    apop_data_print(d,"o.txt",.output_append='w');
    apop_data *r=apop_text_to_data("o.txt",s.rn?'y':'n',names?'y':'n',.delimiters=delim);
    if (V_CHECK(r&&!r->error&&r->matrix&&(int)r->matrix->size1==n&&(int)r->matrix->size2==cols,"rshape","read back %zux%zu, want %dx%d",r&&r->matrix?r->matrix->size1:0,r&&r->matrix?r->matrix->size2:0,n,cols)){
        for (int i=0;i<n;i++){ int c=0;
            if (s.vs){ V_CLOSE(gsl_matrix_get(r->matrix,i,c),gsl_vector_get(d->vector,i),1e-15,5.0001e-7,"rvec","%d",i); c++; }
            for (int j=0;j<s.m2;j++,c++) V_CLOSE(gsl_matrix_get(r->matrix,i,c),gsl_matrix_get(d->matrix,i,j),1e-15,5.0001e-7,"rmat","%d,%d",i,j);
            if (s.ws) V_CLOSE(gsl_matrix_get(r->matrix,i,c),gsl_vector_get(d->weights,i),1e-15,5.0001e-7,"rweight","%d",i);
            if (s.rn) V_STR(r->names->rowct>i?r->names->row[i]:NULL,d->names->row[i],"rrowname","%d",i);
        }
        if (names) for (int j=0;j<names;j++) V_STR(r->names->colct>j?r->names->col[j]:NULL,s.vs&&!j?d->names->vector:d->names->col[j-!!s.vs],"rcolname","%d",j);
    }
    apop_data_free(r); apop_data_free(d); setdelim("\t");
}
/* run something that prints to stdout; return what it wrote */
static char *capture(void (*f)(void*),void *arg){
    fflush(stdout); int save=dup(1), fd=open("cap.txt",O_RDWR|O_CREAT|O_TRUNC,0600); dup2(fd,1); close(fd);
    f(arg); fflush(stdout); dup2(save,1); close(save); size_t n; return slurp("cap.txt",&n);
}
static void p_print(void*d){ apop_data_print(d); }
static void p_show(void*d){ apop_data_show(d); }
static void p_vec(void*v){ apop_vector_print(v); }
static void p_mat(void*m){ apop_matrix_print(m); }
static void words(char *out,apop_data *d,double tolmode,const char *how,int withweightname){
    /* every token of the output, in order, must be the next element of the set */
    char *want[4000]; double wv[4000]; int n=0; static char dl[]=" \t\n|";
    for (;d;d=d->more){ apop_name *nm=d->names; int t2=d->textsize[0]?(int)d->textsize[1]:0;
        if (nm->title&&*nm->title){ want[n++]="A"; want[n++]="title,"; want[n++]="of"; want[n++]="sorts"; }
        if (nm->vector) want[n++]=nm->vector; for (int i=0;i<nm->colct;i++) want[n++]=nm->col[i]; for (int i=0;i<nm->textct;i++) want[n++]=nm->text[i];
        if (withweightname&&d->weights&&(nm->vector||nm->colct||nm->textct)) want[n++]="Weights";
        for (int i=0;i<vh_rows(d);i++){
            if (nm->rowct>i) want[n++]=nm->row[i];
            if (d->vector&&i<(int)d->vector->size){ want[n]=NULL; wv[n++]=gsl_vector_get(d->vector,i); }
            if (d->matrix&&i<(int)d->matrix->size1) for (size_t j=0;j<d->matrix->size2;j++){ want[n]=NULL; wv[n++]=gsl_matrix_get(d->matrix,i,j); }
            if (i<(int)d->textsize[0]) for (int j=0;j<t2;j++) want[n++]=d->text[i][j];
            if (d->weights&&i<(int)d->weights->size){ want[n]=NULL; wv[n++]=gsl_vector_get(d->weights,i); }
        } }
    int k=0; for (char *t=strtok(out,dl);t;t=strtok(NULL,dl),k++){
        if (!V_CHECK(k<n,"stdoutextra","%s: extra word [%s]",how,t)) return;
        if (want[k]) { if (strcmp(t,want[k])){ v_fails("stdoutword",t,want[k],"%s: word %d",how,k); return; } v_ev("oracle_checks"); }
        else { double y=strtod(t,NULL),x=wv[k]; int ok=isnan(x)?isnan(y):isinf(x)?x==y:fabs(x-y)<=5.0001e-7+fabs(x)*tolmode||(tolmode>1e-9&&fabs(x-y)<=fabs(x)*tolmode); if (!V_CHECK(ok,"stdoutnum","%s: word %d is [%s], want %.17g",how,k,t,x)) return; }
    }
    V_CHECK(k==n,"stdoutfew","%s: %d words, want %d",how,k,n);
}
static void f_stdout(void){
    setdelim(vpick(((char*[]){"\t","|","\t|"})));
    sh s=shape(); apop_data *d=mk(s);
    if (vflip(.2)) apop_data_add_page(d,mk(shape()),""),d->more->names->title[0]=0;
    char *o=capture(p_print,d); words(o,d,1e-15,"print",0); free(o);
    o=capture(p_show,d); words(o,d,5.1e-6,"show",1); free(o);
    apop_data *vd_=&(apop_data){.vector=d->vector,.names=apop_name_alloc()}, *md=&(apop_data){.matrix=d->matrix,.names=vd_->names};
    if (d->vector){ o=capture(p_vec,d->vector); words(o,vd_,1e-15,"vector",0); free(o); }
    if (d->matrix){ o=capture(p_mat,d->matrix); words(o,md,1e-15,"matrix",0); free(o);
        gsl_matrix_view sv=gsl_matrix_submatrix(d->matrix,0,d->matrix->size2-1,d->matrix->size1,1); apop_data *mv=&(apop_data){.matrix=&sv.matrix,.names=vd_->names}; o=capture(p_mat,&sv.matrix); words(o,mv,1e-15,"submatrix",0); free(o);
        gsl_vector *cv=Apop_cv(d,0); apop_data *cd=&(apop_data){.vector=cv,.names=vd_->names}; o=capture(p_vec,cv); words(o,cd,1e-15,"column",0); free(o); }
    if (d->vector){ apop_vector_print(d->vector,"v.txt",.output_append='w'); size_t n; o=slurp("v.txt",&n); words(o,vd_,1e-15,"vector file",0); free(o); }
    if (d->matrix){ apop_matrix_print(d->matrix,"v.txt",.output_append='w'); size_t n; o=slurp("v.txt",&n); words(o,md,1e-15,"matrix file",0); free(o); }
    if (d->vector&&vflip(.5)){ apop_db_close(); int before=fcntl(1,F_GETFD); apop_vector_print(d->vector,"vt",.output_type='d'); V_CHECK(before<0||fcntl(1,F_GETFD)>=0,"stdoutclosed","printing a vector to the database closed stdout");
        gsl_vector *q=apop_query_to_vector("select * from vt"); if (V_CHECK(q&&q->size==d->vector->size,"vecdb","%zu of %zu elements in the table",q?q->size:0,d->vector->size)) for (size_t i=0;i<q->size;i++) V_CLOSE(gsl_vector_get(q,i),gsl_vector_get(d->vector,i),1e-14,0,"vecdbel","%zu",i); gsl_vector_free(q); apop_db_close(); }
    apop_name_free(vd_->names); apop_data_free(d); setdelim("\t");
    o=capture(p_print,NULL); V_STR(o,"NULL\n","null","printing NULL"); free(o);
}
/* the recorded finding: with a vector and a matrix, and a delimiter that is not white space, a blank field is printed between them */
static void f_kf_vecmat(void){
    setdelim(","); apop_data *d=apop_data_falloc((2,2,2),1,2,3,4,5,6);
    apop_data_print(d,"o.txt",.output_append='w'); apop_data *r=apop_text_to_data("o.txt",'n','n',.delimiters=",");
    V_CHECK(r&&r->matrix&&r->matrix->size2==3,"blank-field","vector + 2 matrix columns read back as %zu columns",r&&r->matrix?r->matrix->size2:0); v_sigd(vh_case);
    apop_data_free(r); apop_data_free(d); setdelim("\t");
}
/* models */
static void p_model(void *m){ apop_model_print(m,stdout); }
static void p_model_d(void *m){ apop_model_print(m); }
static void p_model_s(void *m){ apop_model_show(m); }
static char *tofile(apop_model *m){ FILE *f=fopen("pm.txt","w"); apop_model_print(m,f); fclose(f); size_t n; return slurp("pm.txt",&n); }
static void p_tofile(void *m){ free(tofile(m)); }
static char *datafile(apop_data *d){ FILE *f=fopen("pd.txt","w"); apop_data_print(d,.output_pipe=f); fclose(f); size_t n; return slurp("pd.txt",&n); }
static void custom(apop_model *m,FILE *f){ fprintf(f,"custom %g\n",apop_data_get(m->parameters,0,-1)); }
static long double customll(apop_data *d,apop_model *m){ return 0; }
static int has_numbers(char *text,gsl_vector *v,double tol){ /* every element is somewhere in the text */
    for (size_t i=0;i<v->size;i++){ double x=gsl_vector_get(v,i); int ok=0; char *c=strdup(text); for (char *t=strtok(c," \t\n|,;:=()");t;t=strtok(NULL," \t\n|,;:=()")){ char *e; size_t l=strlen(t); if (l&&t[l-1]=='.') t[l-1]=0; double y=strtod(t,&e); if (*t&&!*e&&(fabs(x-y)<=5.0001e-7+tol*fabs(x)||(isnan(x)&&isnan(y)))) { ok=1; break; } } free(c); if (!ok){ v_fail("model-number","element %zu, %.10g, is not in the printout: %.200s",i,x,text); return 0; } } v_ev("oracle_checks"); return 1; }
static void f_models(void){
    setdelim(vpick(((char*[]){"\t","|"," "}))); int kind=vi(0,9),v=apop_opts.verbose; apop_opts.verbose=-1; apop_model *m=NULL; apop_data *d=NULL; char *want=NULL; int special=0; char *name="a distribution"; v_sigd(kind);
    int n=vi(8,20); switch (kind){
        case 0: case 1: case 2: { int k=vi(0,NDIST-1); vdist *D=vdists+k; double p[3]={0}; D->par(p); m=apop_model_copy(*D->m); name=D->name; if (!kind&&vflip(.4)){ apop_model_free(m); m=apop_model_copy(vflip(.5)?apop_multinomial:apop_binomial); name="bare multinomial"; } if (kind){ m->parameters=apop_data_alloc(D->np); for (int i=0;i<D->np;i++) apop_data_set(m->parameters,i,-1,p[i]); v_sigd(p[0]); } special=0; break; }
        case 3: case 4: d=apop_data_alloc(n,1); for (int i=0;i<n;i++) apop_data_set(d,i,0,1+vpos()); m=apop_estimate(d,kind==3?apop_normal:apop_exponential); name="an estimate"; break;
        case 5: d=apop_data_alloc(n,3); for (int i=0;i<n;i++) for (int j=0;j<3;j++) apop_data_set(d,i,j,vnorm()); if (vflip(.5)) for (int j=0;j<3;j++) apop_name_add(d->names,((char*[]){"y","x1","x2"})[j],'c'); m=apop_model_copy(apop_ols); if (vflip(.4)) Apop_settings_add_group(m,apop_parts_wanted,.covariance=vflip(.5)?'y':'n',.predicted=vflip(.5)?'y':'n',.tests=vflip(.5)?'y':'n',.info=vflip(.7)?'y':'n'); { apop_model *e=apop_estimate(d,m); apop_model_free(m); m=e; } special=1; name="OLS"; break;
        case 6: m=apop_model_set_parameters(apop_bernoulli,vd(.01,.99)); apop_prep(NULL,m); special=2; name="Bernoulli"; break;
        case 7: d=apop_data_alloc(n,2); for (int i=0;i<n;i++) apop_data_set(d,i,0,vi(0,9)),apop_data_set(d,i,1,vi(1,9)); m=apop_estimate(d,vflip(.5)?apop_multinomial:apop_binomial); special=3; name="multinomial"; break;
        case 8: d=apop_data_alloc(n,2); for (int i=0;i<n;i++) apop_data_set(d,i,0,vi(0,9)),apop_data_set(d,i,1,vnorm()); m=apop_estimate(d,apop_pmf); special=4; name="PMF"; break;
        default: { static apop_model cm={"custom",.vsize=1,.dsize=1,.log_likelihood=customll}; m=apop_model_set_parameters(&cm,vnorm()); apop_model_print_vtable_add(custom,m); special=5; name="a model with a print function of its own"; } }
    if (d) vh_sig_data(d); v_desc("printing %s",name); if (!m||m->error){ v_trivial(); goto out; } char *before=vmodel_dump(m);
    char *a=tofile(m),*b=capture(p_model,m),*c=capture(p_model_d,m),*e=capture(p_model_s,m),*leak=capture(p_tofile,m),*after=vmodel_dump(m); V_STR(after,before,"model-changed","%s after it is printed",name);
    V_STR(b,a,"model-stdout","%s to stdout and to a file",name); V_STR(c,a,"model-default","%s to the default and to a file",name); V_STR(e,a,"model-show","%s shown",name); V_STR(leak,"","model-leak","%s, printed to a file, on stdout",name);
    if (special!=5&&apop_model_print_vtable_get(m)==NULL) special=0; if (kind<3&&apop_model_print_vtable_get(m)) special=!m->parameters?6:!strcmp(name,"bernoulli")?2:3; char *pp=m->parameters?datafile(m->parameters):strdup(""); int hasinfo=m->info&&(m->info->vector||m->info->matrix||m->info->textsize[0]||m->info->weights); char *pi=hasinfo?datafile(m->info):strdup("");
    if (special==0){ V_CHECK(asprintf(&want,"%s\n\n%s%s",m->name,pp,pi)>0,"m","m"); V_STR(a,want,"model-text","%s",name); }
    else if (special==6) V_CHECK(strstr(a,m->name)||strstr(a,"istribution"),"model-name","no name in %s",a); else if (special==1) has_numbers(a,m->parameters->vector,1e-5); else if (special==2){ has_numbers(a,m->parameters->vector,1e-5); V_CHECK(strstr(a,"Bernoulli")!=NULL,"model-name","no name in %s",a); }
    else if (special==3){ size_t k=m->parameters->vector->size; gsl_vector *q=apop_vector_copy(m->parameters->vector); double t=0; for (size_t i=1;i<k;i++) t+=gsl_vector_get(q,i); gsl_vector_set(q,0,1-t); has_numbers(a,q,1e-5); char nn[30]; snprintf(nn,30,"%i draws",(int)gsl_vector_get(m->parameters->vector,0)); V_CHECK(strstr(a,nn)!=NULL,"model-draws","no [%s] in %.200s",nn,a); gsl_vector_free(q); }
    else if (special==4){ char *x=datafile(m->data); V_STR(a,x,"model-pmf","PMF"); free(x); }
    else { char x[60]; snprintf(x,60,"custom %g\n",apop_data_get(m->parameters,0,-1)); V_STR(a,x,"model-custom","model with its own function"); apop_model *o=apop_model_set_parameters(apop_normal,1,2); char *t=tofile(o); V_CHECK(!strstr(t,"custom"),"model-custom","another model is printed with it: %s",t); free(t); apop_model_free(o); apop_model_print_vtable_drop(m); }
    v_ev(name); free(want); free(pp); free(pi); free(a); free(b); free(c); free(e); free(leak); free(before); free(after);
out: if (m) apop_model_free(m); if (d) apop_data_free(d); apop_opts.verbose=v; setdelim("\t");
}
static void p_mshow(void*m){ apop_matrix_show(m); }
static void p_vshow(void*m){ apop_vector_show(m); }
static void p_names(void*m){ apop_name_print(m); }
static void f_shows(void){ /* matrices, vectors and names on the screen */
    setdelim(vpick(((char*[]){"\t","|"}))); apop_name *nn=apop_name_alloc(); int r=vi(1,6),c=vi(1,5); gsl_matrix *m=gsl_matrix_alloc(r,c); for (int i=0;i<r;i++) for (int j=0;j<c;j++) gsl_matrix_set(m,i,j,pval()); gsl_vector *x=gsl_vector_alloc(c); gsl_matrix_get_row(x,m,0); v_sigd(gsl_matrix_get(m,0,0)); v_sigd(r*10+c); v_desc("a %d x %d matrix shown",r,c);
    apop_data md={.matrix=m,.names=nn},xd={.vector=x,.names=nn}; char *o=capture(p_mshow,m); words(o,&md,5.1e-6,"matrix shown",0); free(o); gsl_vector_view cv=gsl_matrix_column(m,c-1); apop_data cd={.vector=&cv.vector,.names=nn}; o=capture(p_vshow,x); words(o,&xd,5.1e-6,"vector shown",0); free(o); o=capture(p_vshow,&cv.vector); words(o,&cd,5.1e-6,"column shown",0); free(o);
    char want[2000]; int l=0; char b[20]; apop_name *n=apop_name_alloc(); if (vflip(.5)){ apop_name_add(n,word(b),'h'); l+=sprintf(want+l,"title: %s\n",b); } if (vflip(.5)){ apop_name_add(n,word(b),'v'); l+=sprintf(want+l,"vector:\t%s\n",b); } want[l]=0; for (int t=0;t<3;t++){ int k=vi(0,4); if (k) l+=sprintf(want+l,"%s",((char*[]){"column:","text:","row:"})[t]); for (int i=0;i<k;i++){ apop_name_add(n,word(b),"ctr"[t]); l+=sprintf(want+l,"\t%s",b); } if (k) l+=sprintf(want+l,"\n"); } o=capture(p_names,n); V_STR(o,want,"names","names printed"); free(o); apop_name_free(n); o=capture(p_names,NULL); V_STR(o,"NULL","names","no names"); free(o);
    apop_name_free(nn); gsl_matrix_free(m); gsl_vector_free(x); setdelim("\t");
}
vh_family vh_families[]={{"print",f_print,800,20000},{"round",f_round,800,20000},{"stdout",f_stdout,400,10000},{"models",f_models,400,10000},{"shows",f_shows,300,8000},{"kf_vecmat",f_kf_vecmat,1,1},{NULL}};
