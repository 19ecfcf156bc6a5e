#include "vh.h"
#include <ctype.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <gsl/gsl_errno.h>
#include <signal.h>

int vh_case, vh_thorough;
uint64_t vh_seed;
static __thread uint64_t rs[4]; /* each thread of a harness with several has its own stream */
static uint64_t sig;
static int nontrivial, nfails;
static FILE *out;
static char desc[3000];
static const char *famname;

static uint64_t splitmix(uint64_t *x){
    uint64_t z = (*x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z>>30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z>>27)) * 0x94d049bb133111ebull;
    return z ^ (z>>31);
}
static uint64_t fnv(uint64_t hsh, const void *p, size_t n){
    const unsigned char *c = p;
    while (n--) hsh = (hsh ^ *c++) * 0x100000001b3ull;
    return hsh;
}
static __thread char lastany[64]; // the last string made, of which the next may be a near copy
static void seed_case(const char *fam, int i){
    uint64_t x = fnv(0xcbf29ce484222325ull, fam, strlen(fam)) ^ (vh_seed * 0x9e3779b97f4a7c15ull) ^ ((uint64_t)i << 32 | (unsigned)i);
    for (int k=0; k<4; k++) rs[k] = splitmix(&x);
    lastany[0] = 0;
}
void vr_reseed(uint64_t x){ lastany[0] = 0; for (int k=0; k<4; k++) rs[k] = splitmix(&x); }
#define rotl(x,k) (((x)<<(k))|((x)>>(64-(k))))
uint64_t vr_u64(void){
    uint64_t r = rotl(rs[1]*5, 7)*9, t = rs[1]<<17;
    rs[2]^=rs[0]; rs[3]^=rs[1]; rs[1]^=rs[2]; rs[0]^=rs[3]; rs[2]^=t; rs[3]=rotl(rs[3],45);
    return r;
}
int vi(int lo, int hi){ return hi<=lo ? lo : lo + (int)(vr_u64() % (uint64_t)((int64_t)hi-lo+1)); }
double vd(double lo, double hi){ return lo + (hi-lo)*((vr_u64()>>11) * 0x1.0p-53); }
bool vflip(double p){ return vd(0,1) < p; }
double vnorm(void){
    double u = vd(1e-300,1), v = vd(0,1);
    return sqrt(-2*log(u))*cos(2*M_PI*v);
}
double vint_val(void){ return vi(-20,20); }
double vval(void){
    switch(vi(0,9)){
        case 0: case 1: case 2: return vi(-10,10);
        case 3: case 4: return vi(-1000,1000)/8.;
        case 5: return vi(-100000,100000);
        case 6: return vnorm()*1e6;
        case 7: return vnorm()*1e-4;
        default: return vnorm()*10;
    }
}
char *vstr_plain(char *b, int maxlen){
    int n = vi(1, maxlen);
    for (int i=0; i<n; i++)
        b[i] = i==0 ? 'a'+vi(0,25) : "abcdefghijklmnopqrstuvwxyz0123456789_"[vi(0,36)];
    b[n] = 0;
    return b;
}
static char *nearcopy(char *b, int maxlen){ // the last string in another case, or longer, shorter, or otherwise by one letter
    int n = snprintf(b, maxlen+1, "%s", lastany);
    if (n > maxlen) n = maxlen;
    int k = vi(0, n-1);
    switch(vi(0,4)){
        case 0: for (int i=0; i<n; i++) b[i] = islower((unsigned char)b[i]) ? toupper((unsigned char)b[i]) : tolower((unsigned char)b[i]); break;
        case 1: b[k] = islower((unsigned char)b[k]) ? toupper((unsigned char)b[k]) : tolower((unsigned char)b[k]); break;
        case 2: if (n < maxlen){ b[n] = "xX 0."[vi(0,4)]; b[n+1] = 0; } break;
        case 3: b[n-1] = 0; break;
        default: b[k] = vi(33,126); break;
    }
    return b;
}
char *vstr_any(char *b, int maxlen){
    if (lastany[0] && maxlen >= (int)strlen(lastany) && vflip(.15)) return nearcopy(b, maxlen);
    static const char *special[] = {"%s","%d","%n","%%","'","\"","\\",",","|"," ","\t","100%","a b","it's","NaN","%5g","\xc3\xa9","<b>","&",";"};
    int n = vi(0, maxlen), i=0;
    while (i<n){
        if (vflip(.25)){
            const char *s = vpick(special);
            int l = strlen(s);
            if (i+l > n) break;
            memcpy(b+i, s, l); i += l;
        } else b[i++] = vi(33,126);
    }
    b[i] = 0;
    if (i && i < 60 && !strchr(b, '\xc3')) strcpy(lastany, b);
    return b;
}
void vshuffle(int *a, int n){
    for (int i=n-1; i>0; i--){ int j=vi(0,i), t=a[i]; a[i]=a[j]; a[j]=t; }
}

/* counters */
static struct {const char *n; long c;} ctrs[400];
static int nctrs;
void v_evn(const char *n, long k){
    int i;
    for (i=0; i<nctrs; i++) if (ctrs[i].n==n || !strcmp(ctrs[i].n, n)) break;
    if (i==nctrs){ if (nctrs==400) return; ctrs[nctrs++].n = strdup(n); }
    ctrs[i].c += k;
}
void v_ev(const char *n){ v_evn(n,1); }

static void clean(char *s){ for (; *s; s++) if (*s=='\n'||*s=='\r') *s=' '; }
static void vfail(const char *key, const char *msg){
    nfails++;
    if (nfails > 20) return;
    char *m = strdup(msg); clean(m);
    fprintf(out, "V\t%d\t%s/%s\t%.1500s\n", vh_case, famname, key, m);
    fflush(out);
    free(m);
}
void v_fail(const char *key, const char *fmt, ...){
    char b[2000]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a);
    vfail(key,b);
}
void v_fail2(const char *key, double got, double want, const char *fmt, ...){
    char b[2000]; va_list a; va_start(a,fmt); int n=vsnprintf(b,1500,fmt,a); va_end(a);
    if (n>1499) n=1499;
    snprintf(b+n,sizeof b-n,": got %.17g, expected %.17g",got,want);
    vfail(key,b);
}
void v_fails(const char *key, const char *got, const char *want, const char *fmt, ...){
    char b[2000]; va_list a; va_start(a,fmt); int n=vsnprintf(b,1000,fmt,a); va_end(a);
    if (n>999) n=999;
    snprintf(b+n,sizeof b-n,": got [%.400s], expected [%.400s]",got?got:"(NULL pointer)",want?want:"(NULL pointer)");
    vfail(key,b);
}
int v_nfails(void){ return nfails; }
/* Part of a case in a process of its own, where everything in the library is yet to be used. */
#include <sys/wait.h>
bool vh_child(void){
    fflush(NULL);
    pid_t p = fork();
    if (p<0){ perror("fork"); _exit(3); }
    if (!p){ for (int i=0;i<nctrs;i++) ctrs[i].c=0; return true; }
    int st; while (waitpid(p,&st,0)<0) ;
    if (WIFSIGNALED(st)){ signal(WTERMSIG(st),SIG_DFL); raise(WTERMSIG(st)); }
    if (WEXITSTATUS(st)==66) return false; /* ThreadSanitizer's reports are in its log */
    if (WEXITSTATUS(st)>1) _exit(WEXITSTATUS(st));
    nfails += WEXITSTATUS(st);
    return false;
}
void vh_child_done(void){
    for (int i=0;i<nctrs;i++) if (ctrs[i].c) fprintf(out,"C\t%s\t%ld\n",ctrs[i].n,ctrs[i].c);
    fprintf(out,"X\t%016llx\t%d\n",(unsigned long long)sig,nontrivial); clean(desc); fprintf(out,"Y\t%s\n",desc);
    fflush(NULL);
    _exit(nfails>0);
}
/* ThreadSanitizer calls this at each report: note the case. */
void __tsan_on_report(void *r){ (void)r; if (out) dprintf(fileno(out),"T\t%d\t%d\n",vh_case,(int)getpid()); }
void v_desc(const char *fmt, ...){
    size_t l = strlen(desc);
    va_list a; va_start(a,fmt); vsnprintf(desc+l,sizeof desc-l,fmt,a); va_end(a);
}
void v_sig(const void *p, size_t n){ sig = fnv(sig,p,n); }
void v_sigd(double d){ v_sig(&d,sizeof d); }
void v_sigs(const char *s){ if (s) v_sig(s,strlen(s)+1); else v_sig("\1",1); }
void v_trivial(void){ nontrivial=0; }

bool v_eq(double a, double b){ return (isnan(a)&&isnan(b)) || a==b; }
bool v_close(double a, double b, double rel, double ab){
    if (isnan(a)||isnan(b)) return isnan(a)&&isnan(b);
    if (isinf(a)||isinf(b)) return a==b;
    return fabs(a-b) <= ab + rel*fmax(fabs(a),fabs(b));
}

/* data */
vh_shape vh_random_shape(int maxr, int maxc){
    vh_shape s = {0};
    int r = vi(1,maxr);
    int parts = vi(1,15);
    if (parts&1) s.vsize = r;
    if (parts&2){ s.m1 = r; s.m2 = vi(1,maxc); }
    if (parts&4){ s.t1 = r; s.t2 = vi(1,maxc); }
    if (parts&8) s.wsize = r;
    if (parts==8) s.vsize = r;
    s.rownames = vflip(.5); s.colnames = vflip(.6); s.vecname = vflip(.4); s.textnames = vflip(.5);
    s.title = vflip(.5); s.nans = vflip(.3);
    s.pages = vflip(.3) ? vi(1,2) : 0;
    return s;
}
static double rv(vh_shape s){ return s.nans && vflip(.1) ? NAN : vval(); }
static char *rs_(vh_shape s, char *b, const char *prefix, int i){
    char t[40];
    sprintf(b, "%s%d%s", prefix, i, s.plainstr ? vstr_plain(t,5) : vstr_any(t,8));
    return b;
}
apop_data *vh_data(vh_shape s){
    apop_data *d = apop_data_alloc(s.vsize, s.m1, s.m2);
    char b[200];
    if (s.vsize) for (int i=0;i<s.vsize;i++) gsl_vector_set(d->vector,i,rv(s));
    if (s.m1) for (int i=0;i<s.m1;i++) for (int j=0;j<s.m2;j++) gsl_matrix_set(d->matrix,i,j,rv(s));
    if (s.t1 && s.t2){
        apop_text_alloc(d, s.t1, s.t2);
        for (int i=0;i<s.t1;i++) for (int j=0;j<s.t2;j++)
            apop_text_set(d,i,j,"%s",s.plainstr?vstr_plain(b,8):vstr_any(b,12));
    }
    if (s.wsize){
        d->weights = gsl_vector_alloc(s.wsize);
        for (int i=0;i<s.wsize;i++) gsl_vector_set(d->weights,i,vd(0.1,5));
    }
    int rows = s.vsize>0?s.vsize: s.m1>0?s.m1:s.t1;
    if (s.rownames) for (int i=0;i<rows;i++) apop_name_add(d->names, rs_(s,b,"r",i),'r');
    if (s.colnames && s.m2>0) for (int i=0;i<s.m2;i++) apop_name_add(d->names, rs_(s,b,"c",i),'c');
    if (s.textnames && s.t2>0) for (int i=0;i<s.t2;i++) apop_name_add(d->names, rs_(s,b,"t",i),'t');
    if (s.vecname && s.vsize) apop_name_add(d->names, rs_(s,b,"v",0),'v');
    if (s.title) apop_name_add(d->names, rs_(s,b,"T",0),'h');
    for (int p=0;p<s.pages;p++){
        vh_shape ps = vh_random_shape(4,3);
        ps.pages = 0; ps.title = false; ps.plainstr = s.plainstr;
        apop_data *pg = vh_data(ps);
        sprintf(b, "page %d", p);
        apop_data_add_page(d, pg, b);
    }
    return d;
}
static void pf(FILE *f, double x){ if (isnan(x)) fprintf(f,"nan "); else fprintf(f,"%a ",x); }
static void dump1(FILE *f, const apop_data *d){
    if (!d){ fprintf(f,"(null data)\n"); return; }
    fprintf(f,"vector:"); if (d->vector) for (size_t i=0;i<d->vector->size;i++) pf(f,gsl_vector_get(d->vector,i)); else fprintf(f,"none");
    fprintf(f,"\nmatrix:"); if (d->matrix) {fprintf(f,"%zux%zu:",d->matrix->size1,d->matrix->size2);for (size_t i=0;i<d->matrix->size1;i++) for (size_t j=0;j<d->matrix->size2;j++) pf(f,gsl_matrix_get(d->matrix,i,j));} else fprintf(f,"none");
    fprintf(f,"\ntext:%zux%zu:",d->textsize[0],d->textsize[1]);
    for (size_t i=0;i<d->textsize[0];i++) for (size_t j=0;j<d->textsize[1];j++) fprintf(f,"[%s]",d->text[i][j]?d->text[i][j]:"<NULL>");
    fprintf(f,"\nweights:"); if (d->weights) for (size_t i=0;i<d->weights->size;i++) pf(f,gsl_vector_get(d->weights,i)); else fprintf(f,"none");
    fprintf(f,"\n");
    if (d->names){
        apop_name *n = d->names;
        fprintf(f,"title:%s\nvname:%s\nrows:",n->title?n->title:"",n->vector?n->vector:"");
        for (int i=0;i<n->rowct;i++) fprintf(f,"[%s]",n->row[i]);
        fprintf(f,"\ncols:"); for (int i=0;i<n->colct;i++) fprintf(f,"[%s]",n->col[i]);
        fprintf(f,"\ntextn:"); for (int i=0;i<n->textct;i++) fprintf(f,"[%s]",n->text[i]);
        fprintf(f,"\n");
    }
}
char *vh_dump(const apop_data *d, bool pages){
    char *b=NULL; size_t n=0;
    FILE *f = open_memstream(&b,&n);
    dump1(f,d);
    if (d && pages) for (const apop_data *p=d->more; p; p=p->more){ fprintf(f,"--page--\n"); dump1(f,p); }
    fclose(f);
    return b;
}
bool vh_same(const apop_data *a, const apop_data *b, bool pages, const char *key, const char *what){
    char *x=vh_dump(a,pages), *y=vh_dump(b,pages);
    bool same=!strcmp(x,y);
    if (!same){
        size_t i=0; while (x[i]==y[i]) i++;
        size_t st=i; while (st && x[st-1]!='\n') st--;
        v_fail(key,"%s: components differ at byte %zu: got {%.200s...%.100s} expected {%.200s...%.100s}",what,i,x+st,x+i,y+st,y+i);
    } else v_ev("oracle_checks");
    free(x); free(y);
    return same;
}
void vh_sig_data(const apop_data *d){ char *x=vh_dump(d,true); v_sigs(x); free(x); }

#if defined(__SANITIZE_ADDRESS__)
size_t __sanitizer_get_current_allocated_bytes(void);
size_t vh_allocated(void){ return __sanitizer_get_current_allocated_bytes(); }
#else
#include <malloc.h>
size_t vh_allocated(void){ return mallinfo2().uordblks; }
#endif
int vh_gsl_handler_intact(void){
    gsl_error_handler_t *h = gsl_set_error_handler(NULL);
    gsl_set_error_handler(h);
    return h==NULL;
}

const char *__asan_default_options(void){ return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=4000"; }
const char *__ubsan_default_options(void){ return "print_stacktrace=1:halt_on_error=1:exitcode=77"; }

int main(int argc, char **argv){
    const char *fam=NULL, *outf="/dev/stdout"; int from=0,to=0, samples=0;
    for (int i=1;i<argc;i++){
        if (!strcmp(argv[i],"--list")){
            printf("R\t%s\n", vh_rule);
            for (vh_family *f=vh_families; f->name; f++) printf("F\t%s\t%d\t%d\t%d\n",f->name,f->quick,f->thorough,f->threads?f->threads:1);
            return 0;
        }
        if (!strcmp(argv[i],"--family")) fam=argv[++i];
        else if (!strcmp(argv[i],"--from")) from=atoi(argv[++i]);
        else if (!strcmp(argv[i],"--to")) to=atoi(argv[++i]);
        else if (!strcmp(argv[i],"--seed")) vh_seed=strtoull(argv[++i],NULL,10);
        else if (!strcmp(argv[i],"--out")) outf=argv[++i];
        else if (!strcmp(argv[i],"--thorough")) vh_thorough=1;
        else if (!strcmp(argv[i],"--samples")) samples=atoi(argv[++i]);
    }
    vh_family *f; for (f=vh_families; f->name; f++) if (fam && !strcmp(f->name,fam)) break;
    if (!f->name){ fprintf(stderr,"no such family\n"); return 3; }
    if (!(out=fopen(outf,"a"))){ perror(outf); return 3; }
    famname=f->name;
    apop_opts.verbose = getenv("VH_VERBOSE") ? 2 : -1;
    for (vh_case=from; vh_case<to; vh_case++){
        fprintf(out,"S\t%d\n",vh_case); fflush(out);
        seed_case(f->name,vh_case);
        sig=0xcbf29ce484222325ull; nontrivial=1; nfails=0; desc[0]=0;
        f->fn();
        fprintf(out,"E\t%d\t%016llx\t%d\n",vh_case,(unsigned long long)sig,nontrivial);
        if (samples>0 || nfails){ clean(desc); fprintf(out,"D\t%d\t%s\n",vh_case,desc); samples--; }
        fflush(out);
    }
    for (int i=0;i<nctrs;i++) fprintf(out,"C\t%s\t%ld\n",ctrs[i].n,ctrs[i].c);
    fprintf(out,"DONE\n");
    fclose(out);
    fflush(NULL);
    _exit(0);
}

int vh_rows(const apop_data *d){
    int r=0;
    if (d->vector) r=d->vector->size;
    if (d->matrix && (int)d->matrix->size1>r) r=d->matrix->size1;
    if (d->textsize[1] && (int)d->textsize[0]>r) r=d->textsize[0];
    if (d->weights && (int)d->weights->size>r) r=d->weights->size;
    return r;
}
apop_data *vh_pick_rows(const apop_data *d, const int *rows, int n){
    apop_data *o=apop_data_alloc();
    if (n && d->vector){ o->vector=gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(o->vector,i,gsl_vector_get(d->vector,rows[i])); }
    if (n && d->weights){ o->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(o->weights,i,gsl_vector_get(d->weights,rows[i])); }
    if (n && d->matrix){ o->matrix=gsl_matrix_alloc(n,d->matrix->size2); for (int i=0;i<n;i++) for (size_t j=0;j<d->matrix->size2;j++) gsl_matrix_set(o->matrix,i,j,gsl_matrix_get(d->matrix,rows[i],j)); }
    if (n && d->textsize[0] && d->textsize[1]){ apop_text_alloc(o,n,d->textsize[1]); for (int i=0;i<n;i++) for (size_t j=0;j<d->textsize[1];j++) apop_text_set(o,i,j,"%s",d->text[rows[i]][j]); }
    if (d->names){
        for (int i=0;i<n;i++) if (rows[i]<d->names->rowct) apop_name_add(o->names,d->names->row[rows[i]],'r');
        for (int i=0;i<d->names->colct;i++) apop_name_add(o->names,d->names->col[i],'c');
        for (int i=0;i<d->names->textct;i++) apop_name_add(o->names,d->names->text[i],'t');
        if (d->names->vector) apop_name_add(o->names,d->names->vector,'v');
    }
    return o;
}
apop_data *vh_pick_cols(const apop_data *d, const int *cols, int n){
    int r=vh_rows(d), all[r+1]; for (int i=0;i<r;i++) all[i]=i;
    apop_data *o=vh_pick_rows(d,all,r);
    if (o->matrix){
        gsl_matrix *m = n ? gsl_matrix_alloc(d->matrix->size1,n) : NULL;
        for (int j=0;j<n;j++) for (size_t i=0;i<d->matrix->size1;i++) gsl_matrix_set(m,i,j,gsl_matrix_get(d->matrix,i,cols[j]));
        gsl_matrix_free(o->matrix); o->matrix=m;
        apop_name *old=o->names; o->names=apop_name_alloc();
        for (int i=0;i<old->rowct;i++) apop_name_add(o->names,old->row[i],'r');
        for (int i=0;i<old->textct;i++) apop_name_add(o->names,old->text[i],'t');
        if (old->vector) apop_name_add(o->names,old->vector,'v');
        for (int j=0;j<n;j++) if (cols[j]<old->colct) apop_name_add(o->names,old->col[cols[j]],'c');
        apop_name_free(old);
    }
    return o;
}
void vh_strip(apop_data *d, bool title, bool pages){
    if (!d) return;
    if (title && d->names){ free(d->names->title); d->names->title=NULL; }
    if (pages && d->more){ apop_data_free(d->more); d->more=NULL; }
}
