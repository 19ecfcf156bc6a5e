#include "vh.h"
const char *vh_rule = "Data sets with repeated text and numeric values (including NaN, empty strings, printf-like text and long strings) turned into factors and dummies with every append/remove/keep option, and with factor lists carried from set to set; each code checked against the sorted list of distinct values plus later additions in order of appearance. Distinct by data and options.";
static const char *words[]={"a","b","B","","c d","%s%n","x","yy","10","9"};
static int eqd(double a,double b){ return a==b||(isnan(a)&&isnan(b)); }
static int cmpd(const void*a,const void*b){ double x=*(double*)a,y=*(double*)b; if (isnan(x)) return isnan(y)?0:1; if (isnan(y)) return -1; return (x>y)-(x<y); }
static int cmps(const void*a,const void*b){ return strcmp(*(char**)a,*(char**)b); }
typedef struct { int n; double d[400]; char *t[400]; } list_t;
static int find(list_t *l,char type,double v,const char *t){ for (int i=0;i<l->n;i++) if (type=='t'?!strcmp(l->t[i],t):eqd(l->d[i],v)) return i; return -1; }
static void extend(list_t *l,apop_data *d,int col,char type,int first){ int N=vh_rows(d); for (int i=0;i<N;i++){ double v=type=='d'?apop_data_get(d,i,col):0; char *t=type=='t'?d->text[i][col]:NULL; if (find(l,type,v,t)<0){ l->d[l->n]=v; l->t[l->n]=t?strdup(t):NULL; l->n++; } } if (first){ if (type=='d') qsort(l->d,l->n,sizeof(double),cmpd); else qsort(l->t,l->n,sizeof(char*),cmps); } }
static void lfree(list_t *l){ for (int i=0;i<l->n;i++) free(l->t[i]); }
static int named_;
static char longname[2000];
static apop_data *make(int N,int hv,int M,int T,int distinct){ apop_data *d=apop_data_alloc(hv?N:0,M?N:0,M); char b[3000]; if (T) apop_text_alloc(d,N,T); int frac=vflip(.3);
    for (int i=0;i<N;i++){ for (int j=hv?-1:0;j<M;j++) apop_data_set(d,i,j,vflip(.04)?NAN:frac?vi(0,distinct)*.125:vi(-2,distinct)); for (int j=0;j<T;j++){ int k=vi(0,distinct); if (vflip(.01)){ memset(longname,'q',1500); longname[1500]=0; apop_text_set(d,i,j,"%s",longname); } else if (k<10) apop_text_set(d,i,j,"%s",words[k]); else apop_text_set(d,i,j,"w%d",k); } }
    if (named_){ for (int j=0;j<M;j++){ sprintf(b,"num%d",j); apop_name_add(d->names,b,'c'); } for (int j=0;j<T;j++){ sprintf(b,"txt%d",j); apop_name_add(d->names,b,'t'); } if (hv) apop_name_add(d->names,"the vec",'v'); } return d; }
static void basename_(char *b,int col,char type){ if (named_){ if (type=='t') sprintf(b,"txt%d",col); else if (col<0) strcpy(b,"the vec"); else sprintf(b,"num%d",col); } else if (type=='t') sprintf(b,"text column %d",col); else if (col<0) strcpy(b,"vector"); else sprintf(b,"column %d",col); }
static void check_list(apop_data *f,list_t *l,char type,const char *what){ char b[100]; if (!V_CHECK(f&&f->vector&&(int)f->vector->size==l->n&&(int)f->textsize[0]==l->n&&f->textsize[1]==1,"listsize","%s: factor list of %d, want %d",what,f&&f->vector?(int)f->vector->size:-1,l->n)) return; for (int i=0;i<l->n;i++){ if (type=='t'){ V_STR(f->text[i][0],l->t[i],"list","%s %d",what,i); V_EQ(gsl_vector_get(f->vector,i),i,"list","%s %d",what,i); } else { V_EQ(gsl_vector_get(f->vector,i),l->d[i],"list","%s %d",what,i); sprintf(b,"%g",l->d[i]); V_STR(f->text[i][0],b,"list","%s %d",what,i); } v_ev("factors"); } }
static void f_unique(void){
    int N=vflip(.1)?vi(50,200):vi(1,20); int distinct=vpick(((int[]){1,5,30})); named_=0; apop_data *d=make(N,1,1,1,distinct); vh_sig_data(d); v_desc("%d rows",N); list_t l={0},t={0}; int strided=vflip(.3); gsl_matrix *m=NULL; gsl_vector v=*d->vector; if (strided){ m=gsl_matrix_alloc(N,3); gsl_matrix_set_all(m,77); v=gsl_matrix_column(m,1).vector; gsl_vector_memcpy(&v,d->vector); } extend(&l,d,-1,'d',1); extend(&t,d,0,'t',1);
    gsl_vector *u=apop_vector_unique_elements(&v); if (V_CHECK((int)u->size==l.n,"count","%zu distinct, want %d",u->size,l.n)) for (int i=0;i<l.n;i++) V_EQ(gsl_vector_get(u,i),l.d[i],"elements","%d",i); apop_data *ut=apop_text_unique_elements(d,0); if (V_CHECK((int)ut->textsize[0]==t.n,"count","%d distinct, want %d",(int)ut->textsize[0],t.n)) for (int i=0;i<t.n;i++) V_STR(ut->text[i][0],t.t[i],"elements","%d",i); v_evn("distinct",l.n+t.n);
    gsl_vector_free(u); apop_data_free(ut); lfree(&l); lfree(&t); if (m) gsl_matrix_free(m); apop_data_free(d);
}
static void f_factors(void){
    int N=vflip(.1)?vi(30,120):vi(1,12), distinct=vpick(((int[]){1,4,8,25})), sets=vi(1,3); named_=vflip(.5); char type=vpick("td"); if (!type) type='t'; int hv=vflip(.5), M=vi(0,3), T=vi(0,2); if (type=='t'&&!T) T=1; if (type=='d'&&!hv&&!M) M=1; int col=type=='t'?vi(0,T-1):hv&&(!M||vflip(.4))?-1:vi(0,M-1); int out=vflip(.4)?-1:M?vi(0,M-1):vi(0,2); if (!M&&named_&&out>=0&&type=='t') ; list_t l={0}; apop_data *prev=NULL;
    v_desc("%d sets of %d, type %c col %d to %d",sets,N,type,col,out); v_sig(&type,1); v_sigd(col); v_sigd(out); v_sigd(sets);
    for (int s=0;s<sets;s++){ apop_data *d=make(N,hv,M,T,distinct); vh_sig_data(d); if (prev){ char b[200],p[300]; basename_(b,col,type); sprintf(p,"<categories for %s>",b); apop_data *src=apop_data_get_page(prev,p,.match='e'); if (!V_CHECK(src,"page","no page %s",p)) { apop_data_free(d); break; } apop_data *c=apop_data_copy(src); if (c->more){ apop_data_free(c->more); c->more=NULL; } d->more=c; V_STR(c->names->title,p,"pagetitle","copy"); }
        extend(&l,d,col,type,s==0); apop_data *orig=apop_data_copy(d), *f=(vflip(.2)&&type=='t'&&col==0&&out==0)?apop_data_to_factors(d):apop_data_to_factors(d,.intype=type,.incol=col,.outcol=out);
        if (!V_CHECK(f&&!f->error,"none","no factor list")){ apop_data_free(orig); apop_data_free(d); break; } V_CHECK(f==apop_data_get_factor_names(d,col,type)||(type=='d'&&col==out),"page","the list returned is not the list on the data"); check_list(f,&l,type,"list");
        if (V_CHECK((out<0&&d->vector&&(int)d->vector->size==N)||(out>=0&&d->matrix&&(int)d->matrix->size1==N),"outsize","output size")) for (int i=0;i<N;i++){ int k=find(&l,type,type=='d'?apop_data_get(orig,i,col):0,type=='t'?orig->text[i][col]:NULL); V_EQ(apop_data_get(d,i,out),k,"code","row %d",i); for (int j=hv?-1:0;j<M;j++) if (j!=out) V_EQ(apop_data_get(d,i,j),apop_data_get(orig,i,j),"other","%d,%d",i,j); for (int j=0;j<T;j++) V_STR(d->text[i][j],orig->text[i][j],"other","text %d,%d",i,j); v_ev("codes"); }
        apop_data_free(orig); if (prev) apop_data_free(prev); prev=d; N=vi(1,12); }
    if (prev) apop_data_free(prev); lfree(&l);
}
static void f_dummies(void){
    int N=vflip(.1)?vi(30,120):vi(2,12), distinct=vpick(((int[]){1,4,8,25})); named_=vflip(.5); char type=vpick("td"); if (!type) type='t'; int hv=vflip(.5), M=vi(0,3), T=vi(0,2); if (type=='t'&&!T) T=1; if (type=='d'&&!hv&&!M) M=1; int col=type=='t'?vi(0,T-1):hv&&(!M||vflip(.4))?-1:vi(0,M-1); char append=vpick("nyei"); if (!append) append='n'; int keep=vflip(.5); int rm=vflip(.4)&&type=='d'; if (!M&&append!='n'&&!hv) ; char b[200],p[4000];
    apop_data *d=make(N,hv,M,T,distinct); vh_sig_data(d); list_t l={0}; int pre=vflip(.3); if (pre){ apop_data *o=make(vi(1,8),hv,M,T,distinct); if (type=='d'&&col<0&&!o->vector) pre=0; if (pre){ extend(&l,o,col,type,1); apop_data *oo=apop_data_copy(o); apop_data_to_factors(oo,.intype=type,.incol=col,.outcol=-1); basename_(b,col,type); sprintf(p,"<categories for %s>",b); apop_data *pg=apop_data_get_page(oo,p,.match='e'); if (V_CHECK(pg,"page","no page %s",p)){ d->more=apop_data_copy(pg); if (d->more->more){ apop_data_free(d->more->more); d->more->more=NULL; } } apop_data_free(oo); } apop_data_free(o); }
    extend(&l,d,col,type,!pre); apop_data *orig=apop_data_copy(d); int K=l.n-!keep; v_desc("%d rows v%d m%d t%d, type %c col %d, append %c, keep first %d, remove %d, %d categories%s",N,hv,M,T,type,col,append,keep,rm,l.n,pre?", list given":""); v_sig(&type,1); v_sigd(col); v_sigd(keep*8+rm*4+(append=='n')*2+(append=='i'));
    basename_(b,col,type);
    apop_data *r=apop_data_to_dummies(d,.col=col,.type=type,.keep_first=keep?'y':'n',.append=append,.remove=rm?'y':'n'); if (!V_CHECK(r,"none","no result")) goto done; V_CHECK(!r->error,"error","error %c",r->error); V_CHECK(append=='n'?r!=d:r==d,"same","which set was returned");
    apop_data *f=apop_data_get_page(d,(sprintf(p,"<categories for %s>",b),p),.match='e'); check_list(f,&l,type,"dummies' list");
    // layout: list of (source, column); source -1 is the original, k>=0 category
    int lay[500],src[500],n=0; if (append=='n'){ for (int k=0;k<K;k++){ src[n]=1; lay[n++]=k; } } else { for (int j=0;j<M;j++){ if (append=='i'&&type=='d'&&j==0&&col==-1) for (int k=0;k<K;k++){ src[n]=1; lay[n++]=k; } if (!(rm&&j==col)){ src[n]=0; lay[n++]=j; } if (append=='i'&&type=='d'&&j==col) for (int k=0;k<K;k++){ src[n]=1; lay[n++]=k; } } if (!(append=='i'&&type=='d')||!M) for (int k=0;k<K;k++){ src[n]=1; lay[n++]=k; } }
    if (!V_CHECK((int)(r->matrix?r->matrix->size2:0)==n&&(!n||(int)r->matrix->size1==N),"cols","%d columns, want %d",(int)(r->matrix?r->matrix->size2:0),n)) goto done; int anynames=append=='n'?K:named_||K; 
    for (int j=0;j<n;j++){ for (int i=0;i<N;i++){ double want=src[j]?find(&l,type,type=='d'?apop_data_get(orig,i,col):0,type=='t'?orig->text[i][col]:NULL)==lay[j]+!keep:apop_data_get(orig,i,lay[j]); V_EQ(apop_data_get(r,i,j),want,src[j]?"dummy":"kept","%d,%d",i,j); v_ev("cells"); } if (anynames&&src[j]&&V_CHECK(r->names->colct>j,"names","%d names of %d",r->names->colct,n)){ if (type=='t') snprintf(p,4000,"%s",l.t[lay[j]+!keep]); else snprintf(p,4000,"%s dummy %g",b,l.d[lay[j]+!keep]); V_STR(r->names->col[j],p,"names","dummy %d",j); } if (named_&&!src[j]&&V_CHECK(r->names->colct>j,"names","%d names of %d",r->names->colct,n)) V_STR(r->names->col[j],orig->names->col[lay[j]],"names","kept column %d",j); }
    if (append!='n'){ V_CHECK(r->names->colct<=n,"names","%d names of %d columns",r->names->colct,n); for (int i=0;i<N;i++) for (int j=0;j<T;j++) V_STR(r->text[i][j],orig->text[i][j],"text","%d,%d",i,j); }
    if (hv&&!(rm&&col==-1)){ if (V_CHECK(d->vector,"vector","vector lost")) for (int i=0;i<N;i++) V_EQ(gsl_vector_get(d->vector,i),gsl_vector_get(orig->vector,i),"vector","%d",i); } else V_CHECK(!d->vector,"vector","the vector is still there");
    if (append=='n'){ apop_data_free(r); }
    done: apop_data_free(orig); apop_data_free(d); lfree(&l);
}
static void f_bad(void){ named_=0; apop_data *d=make(4,0,2,1,3); vh_sig_data(d); int k=vi(0,5); v_sigd(k); v_desc("bad request %d",k); apop_data *r= k==0?apop_data_to_dummies(d,.col=-1,.type='d'):k==1?apop_data_to_dummies(d,.col=2,.type='d'):k==2?apop_data_to_dummies(d,.col=1,.type='t'):k==3?apop_data_to_factors(d,.intype='d',.incol=-1):k==4?apop_data_to_factors(d,.intype='t',.incol=1):apop_data_to_factors(d,.intype='d',.incol=7); V_CHECK(r&&r->error=='d',"error","error %c",r?r->error:'-'); apop_data_free(r); apop_data_free(d); V_CHECK(!apop_data_to_factors(NULL)&&!apop_data_to_dummies(NULL)&&!apop_data_get_factor_names(NULL),"null","NULL"); }
vh_family vh_families[]={{"unique",f_unique,1500,50000},{"factors",f_factors,2500,100000},{"dummies",f_dummies,2500,100000},{"bad",f_bad,100,1000},{NULL}};
