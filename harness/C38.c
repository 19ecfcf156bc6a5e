/* Bad input: every call below gets NULL, empty, mismatched or unreadable input, and must report it as documented, log it, and leave all else as it was. */
#include "vh.h"
#include "vmodels.h"
#include <sys/wait.h>
#include <sys/stat.h>
#include <signal.h>
const char *vh_rule = "Each case makes bystanders (a data set with every part, a database table, an estimated model, an RNG), then one call (calls) or three to eight (sequences) from a table of over two hundred kinds of invalid call on public functions, with random sizes, positions, names, verbosity and bystanders; files that are missing, directories, or empty; broken SQL. The halt family runs the call in child processes under each apop_opts.stop_on_warning mode. A case is non-trivial always.";

/* reports */
static const char *cur="";
#define NUL(x) V_CHECK((x)==NULL,cur,"%s is not NULL",#x)
#define ISNAN(x) do { double v_=(x); V_CHECK(isnan(v_),cur,"%s is %g, not NaN",#x,v_); } while(0)
#define EQI(x,y) do { long v_=(long)(x); V_CHECK(v_==(long)(y),cur,"%s is %ld, not %ld",#x,v_,(long)(y)); } while(0)
#define NONZERO(x) do { long v_=(long)(x); V_CHECK(v_!=0,cur,"%s is zero",#x); } while(0)
static void err(apop_data *d, char c){ V_CHECK(d,cur,"no data set returned; expected error '%c'",c); if (d){ V_CHECK(d->error==c,cur,"error is '%c' (%d), not '%c'",d->error?d->error:'0',d->error,c); } }
static void errf(apop_data *d, char c){ err(d,c); apop_data_free(d); }
static void anyerr(apop_data *d){ V_CHECK(!d||d->error,cur,"a data set without an error element"); apop_data_free(d); }
#define UNCHANGED(d,...) do { char *b_=vh_dump(d,true); __VA_ARGS__; char *a_=vh_dump(d,true); V_CHECK(!strcmp(a_,b_),cur,"the input was changed: %.200s became %.200s",b_,a_); free(a_); free(b_); } while(0)

static apop_data *mat(int r,int c){ apop_data *d=apop_data_alloc(r,c); for (int i=0;i<r;i++) for (int j=0;j<c;j++) gsl_matrix_set(d->matrix,i,j,vnorm()); return d; }
static gsl_vector *vec(int n){ gsl_vector *v=gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(v,i,vnorm()); return v; }
static apop_data *full(void){ vh_shape s={0}; s.m1=vi(1,6); s.m2=vi(1,4); s.vsize=s.t1=s.wsize=s.m1; s.t2=vi(1,3); s.rownames=s.colnames=s.vecname=s.textnames=s.title=true; s.plainstr=true; s.pages=vi(0,2); return vh_data(s); }
static apop_data *empty(void){ return apop_data_alloc(); }
static const char *work(void){ const char *w=getenv("VERIF_WORK"); return w?w:"/tmp"; }
static char fname[400];
static char *badfile(void){ int k=vi(0,2); if (k==0) sprintf(fname,"%s/no-such-dir-%d/f",work(),vi(0,999)); else if (k==1) sprintf(fname,"%s/missing-%d",work(),vi(0,99999)); else sprintf(fname,"%s/no/such/place",work()); return fname; }
static char *baddir(void){ sprintf(fname,"%s/no-such-dir-%d/f",work(),vi(0,999)); return fname; }
static char *emptyfile(void){ sprintf(fname,"%s/empty-%d",work(),(int)getpid()); FILE *f=fopen(fname,"w"); if (vflip(.3)) fputs("\n\n",f); fclose(f); return fname; }
static char nm[20]; static char *noname(void){ sprintf(nm,"zzz%d",vi(0,9999)); return nm; }

/* ---- elements ---- */
static void get_null(void){ ISNAN(apop_data_get(NULL,vi(-3,3),vi(-3,3))); NUL(apop_data_ptr(NULL,vi(0,3),vi(-1,3))); EQI(apop_data_set(NULL,vi(0,3),vi(-1,3),vd(0,1)),-1); }
static void get_empty(void){ apop_data *d=empty(); ISNAN(apop_data_get(d,0,vi(-1,2))); NUL(apop_data_ptr(d,0,vi(-1,2))); UNCHANGED(d,EQI(apop_data_set(d,0,vi(-1,2),1.),-1)); apop_data_free(d); }
static void get_range(void){ apop_data *d=full(); int r=d->matrix->size1,c=d->matrix->size2; int w=vi(0,2); int row=w==0?r+vi(0,3):vi(0,r-1),col=w==0?vi(-1,c-1):c+vi(0,3); UNCHANGED(d,ISNAN(apop_data_get(d,row,col)); NUL(apop_data_ptr(d,row,col)); EQI(apop_data_set(d,row,col,1.5),-1)); apop_data_free(d); }
static void get_negrow(void){ apop_data *d=full(); int row=-vi(1,5),col=vi(-1,d->matrix->size2-1); UNCHANGED(d,ISNAN(apop_data_get(d,row,col)); NUL(apop_data_ptr(d,row,col)); EQI(apop_data_set(d,row,col,1.5),-1)); apop_data_free(d); }
static void get_negcol(void){ apop_data *d=full(); int row=vi(0,d->matrix->size1-1),col=-vi(2,5); UNCHANGED(d,ISNAN(apop_data_get(d,row,col)); NUL(apop_data_ptr(d,row,col)); EQI(apop_data_set(d,row,col,1.5),-1)); apop_data_free(d); }
static void get_name(void){ apop_data *d=full(); bool r=vflip(.5); UNCHANGED(d, if (r){ ISNAN(apop_data_get(d,.rowname=noname())); NUL(apop_data_ptr(d,.rowname=noname())); EQI(apop_data_set(d,.rowname=noname(),.val=2),-1); } else { ISNAN(apop_data_get(d,.row=0,.colname=noname())); NUL(apop_data_ptr(d,.row=0,.colname=noname())); EQI(apop_data_set(d,.row=0,.colname=noname(),.val=2),-1); }); apop_data_free(d); }
static void get_page(void){ apop_data *d=full(); UNCHANGED(d,ISNAN(apop_data_get(d,0,0,.page=noname())); NUL(apop_data_ptr(d,0,0,.page=noname())); EQI(apop_data_set(d,0,0,.page=noname(),.val=2),-1)); apop_data_free(d); }
static void get_novec(void){ apop_data *d=mat(vi(1,4),vi(1,4)); UNCHANGED(d,ISNAN(apop_data_get(d,0,-1)); NUL(apop_data_ptr(d,0,-1)); EQI(apop_data_set(d,0,-1,2.),-1)); apop_data_free(d); apop_data *v=apop_data_alloc(vi(1,4)); gsl_vector_set_all(v->vector,1); UNCHANGED(v,ISNAN(apop_data_get(v,0,vi(1,3))); EQI(apop_data_set(v,0,vi(1,3),2.),-1)); apop_data_free(v); }
static void named_elmt(void){ apop_data_add_named_elmt(NULL,"x",1.); }
/* ---- whole sets ---- */
static void copy_null(void){ NUL(apop_data_copy(NULL)); NUL(apop_vector_copy(NULL)); NUL(apop_matrix_copy(NULL)); NUL(apop_name_copy(NULL)); }
static void model_copy_null(void){ NUL(apop_model_copy(NULL)); }
static void copy_cycle(void){ apop_data *d=full(),*l=d; while (l->more) l=l->more; apop_data *at=vflip(.5)?l:l; at->more=at; apop_data *c=apop_data_copy(d); V_CHECK(c&&c->error=='c',cur,"copy of a cyclic list: error %c",c&&c->error?c->error:'0'); if (c){ apop_data_free(c); } at->more=NULL; apop_data_free(d); }
static void free_cycle(void){ apop_data *d=mat(2,2); d->more=d; char e=apop_data_free_base(d); V_CHECK(e=='c'&&d->error=='c',cur,"freeing a cycle returned %d",e); d->more=NULL; d->error=0; apop_data_free(d); }
static void free_null(void){ apop_data *d=NULL; apop_data_free(d); apop_model *m=NULL; apop_model_free(m); apop_name_free(NULL); }
static void memcpy_null(void){ apop_data *d=full(); UNCHANGED(d,apop_data_memcpy(NULL,d)); apop_data_free(d); }
static void memcpy_part(void){ apop_data *d=full(),*o=empty(); UNCHANGED(d,apop_data_memcpy(o,d)); err(o,'p'); apop_data_free(o); apop_data_free(d); }
static void memcpy_text(void){ int r=vi(1,6),c=vi(1,6),r2,c2; if (vflip(.3)&&r!=c){ r2=c; c2=r; } else if (vflip(.5)){ r2=vi(0,r-1); c2=r2?c+vi(-1,20):0; } else { c2=vi(0,c-1); r2=c2?r+vi(-1,20):0; } if (r2<1||c2<1) r2=c2=0; apop_data *d=apop_text_alloc(NULL,r,c),*o=r2?apop_text_alloc(NULL,r2,c2):apop_data_alloc(); char b[40]; for (int i=0;i<r;i++) for (int j=0;j<c;j++) apop_text_set(d,i,j,"%s",vstr_plain(b,20)); UNCHANGED(d,apop_data_memcpy(o,d)); err(o,'d'); V_CHECK((int)o->textsize[0]==r2&&(int)o->textsize[1]==c2,cur,"the size of the grid copied to changed"); apop_data_free(o); apop_data_free(d); }
static void memcpy_weights(void){ int r=vi(1,6),r2=vflip(.5)?r+vi(1,9):r-1; apop_data *d=apop_data_alloc(),*o=apop_data_alloc(); d->weights=gsl_vector_alloc(r); gsl_vector_set_all(d->weights,1.5); if (r2) o->weights=gsl_vector_alloc(r2); UNCHANGED(d,apop_data_memcpy(o,d)); err(o,r2?'d':'p'); apop_data_free(o); apop_data_free(d); }
static void memcpy_size(void){ int r=vi(1,4),c=vi(1,4); apop_data *d=mat(r,c),*o=vflip(.5)?mat(r+vi(1,2),c):mat(r,c+vi(1,2)); UNCHANGED(d,apop_data_memcpy(o,d)); err(o,'d'); apop_data_free(o); apop_data_free(d); d=apop_data_alloc(r); gsl_vector_set_all(d->vector,1); o=apop_data_alloc(r+1); UNCHANGED(d,apop_data_memcpy(o,d)); err(o,'d'); apop_data_free(o); apop_data_free(d); }
static void stack_posn(void){ apop_data *d=full(); UNCHANGED(d,NUL(apop_data_stack(d,d,.posn="xzbR"[vi(0,3)]))); apop_data_free(d); }
static void stack_null(void){ NUL(apop_data_stack(NULL,NULL)); }
static void stack_dim(void){ int r=vi(1,4),c=vi(1,4); apop_data *a=mat(r,c),*b; char p; if (vflip(.5)){ p='r'; b=mat(vi(1,4),c+vi(1,2)); } else { p='c'; b=mat(r+vi(1,2),vi(1,4)); } UNCHANGED(a,UNCHANGED(b,errf(apop_data_stack(a,b,p),'d'))); apop_data_free(a); apop_data_free(b); }
static void stack_text(void){ apop_data *a=apop_text_alloc(NULL,2,2),*b=apop_text_alloc(NULL,vi(3,4),vi(3,4)); UNCHANGED(a,UNCHANGED(b,errf(apop_data_stack(a,b,vflip(.5)?'r':'c'),'d'))); apop_data_free(a); apop_data_free(b); }
static void mstack(void){ int r=vi(1,4),c=vi(1,4); apop_data *a=mat(r,c),*b=mat(r+1,c+1); UNCHANGED(a,NUL(apop_matrix_stack(a->matrix,b->matrix,vflip(.5)?'r':'c',.inplace=vflip(.5)?'y':'n'))); apop_data_free(a); apop_data_free(b); NUL(apop_matrix_stack(NULL,NULL)); NUL(apop_vector_stack(NULL,NULL)); }
static void split_null(void){ apop_data **o=apop_data_split(NULL,vi(-1,2),vflip(.5)?'r':'c'); V_CHECK(o&&!o[0]&&!o[1],cur,"expected two NULLs"); free(o); }
static void rmcols_null(void){ int z[3]={1,0,1}; apop_data_rm_columns(NULL,z); apop_data *d=empty(); UNCHANGED(d,apop_data_rm_columns(d,z)); apop_data_free(d); }
static void rmrows_none(void){ int z[3]={1,0,1}; NUL(apop_data_rm_rows(NULL,z)); apop_data *d=full(); UNCHANGED(d,V_CHECK(apop_data_rm_rows(d)==d,cur,"rm_rows without instructions")); apop_data_free(d); }
static void rmrows_empty(void){ int z[3]={1,0,1}; apop_data *d=empty(); UNCHANGED(d,apop_data_rm_rows(d,z)); apop_data_free(d); }
static void prune_null(void){ NUL(apop_data_prune_columns(NULL,"a")); apop_data *d=empty(); V_CHECK(apop_data_prune_columns(d,"a","b")==d,cur,"prune of no matrix"); apop_data_free(d); }
static void prune_missing(void){ apop_data *d=full(); int r=d->matrix->size1; char keep[100]; strcpy(keep,d->names->col[0]); double v=apop_data_get(d,0,0); apop_data *o=apop_data_prune_columns(d,keep,noname()); V_CHECK(o==d&&d->matrix&&(int)d->matrix->size1==r&&v_eq(apop_data_get(d,0,0),v),cur,"pruning with a name that is not there"); apop_data_free(d); }
static void text_set_bad(void){ EQI(apop_text_set(NULL,0,0,"x"),-1); apop_data *d=full(); UNCHANGED(d,EQI(apop_text_set(d,d->textsize[0]+vi(0,3),0,"x"),-1); EQI(apop_text_set(d,0,d->textsize[1]+vi(0,3),"x"),-1)); apop_data_free(d); d=empty(); EQI(apop_text_set(d,0,0,"x"),-1); apop_data_free(d); }
static void text_alloc_half(void){ apop_data *d=full(); UNCHANGED(d,V_CHECK(apop_text_alloc(d,vi(1,4),0)==d&&apop_text_alloc(d,0,vi(1,4))==d,cur,"a grid with one dimension zero")); apop_data_free(d); }
static void text_fill_null(void){ char *l[2]={"a","b"}; NUL(apop_text_fill_list(NULL,2,l)); }
static void transpose_null(void){ NUL(apop_data_transpose(NULL)); apop_data *d=empty(); apop_data *t=apop_data_transpose(d,.inplace='n'); V_CHECK(t&&!t->matrix,cur,"transpose of an empty set"); apop_data_free(t); apop_data_free(d); }
static void realloc_view(void){ apop_data *d=mat(4,4); gsl_matrix_view v=gsl_matrix_submatrix(d->matrix,1,1,2,2); UNCHANGED(d,NUL(apop_matrix_realloc(&v.matrix,5,5))); gsl_vector_view c=gsl_matrix_column(d->matrix,1); UNCHANGED(d,NUL(apop_vector_realloc(&c.vector,7))); apop_data_free(d); }
static void pages(void){ NUL(apop_data_get_page(NULL,"x")); apop_data *d=full(); UNCHANGED(d,NUL(apop_data_get_page(d,noname())); NUL(apop_data_get_page(d,noname(),.match='r')); NUL(apop_data_get_page(d,"a",.match="xq"[vi(0,1)])); NUL(apop_data_add_page(d,NULL,"p"))); apop_data *p=mat(2,2); V_CHECK(apop_data_add_page(NULL,p,"page")==p,cur,"adding to NULL"); apop_data_free(p); apop_data_free(d); }
static void rm_page(void){ NUL(apop_data_rm_page(NULL,"x")); apop_data *d=full(); UNCHANGED(d,NUL(apop_data_rm_page(d,noname(),.free_p='n'))); apop_data_free(d); d=mat(2,2); UNCHANGED(d,NUL(apop_data_rm_page(d,noname(),.free_p=vflip(.5)?'y':'n'))); apop_data_free(d); }
static void rank_null(void){ NUL(apop_data_rank_expand(NULL)); }
static void pack_small(void){ apop_data *d=full(); gsl_vector *v=vec(1); UNCHANGED(d,NUL(apop_data_pack(d,v))); gsl_vector_free(v); apop_data_free(d); }
static void unpack_bad(void){ apop_data *d=mat(2,vi(2,4)); gsl_vector *v=vec(vi(1,3)); UNCHANGED(d,apop_data_unpack(v,d); apop_data_unpack(NULL,d)); apop_data_unpack(v,NULL); gsl_vector_free(v); apop_data_free(d); }
static void sort_null(void){ NUL(apop_data_sort(NULL)); }
static void show_null(void){ FILE *f=fopen("/dev/null","w"); apop_data *d=empty(); apop_data_print(d,.output_pipe=f); apop_data_print(NULL,.output_pipe=f); apop_vector_print(NULL,.output_pipe=f); apop_matrix_print(NULL,.output_pipe=f); apop_data_free(d); apop_model_print(NULL,.output_pipe=f); fclose(f); }
static void alloc_huge(void){ int n=2000000000; apop_data *d; int w=vi(0,2); if (w==0) d=apop_data_alloc(n,n); else if (w==1) d=apop_data_alloc(n); else d=apop_data_calloc(n,vi(2,9)); errf(d,'a'); }
static void alloc_partial(void){ apop_data *d=apop_data_alloc(vi(1,3),2000000000,vi(2,9)); errf(d,'a'); }
/* ---- names ---- */
static void name_bad(void){ apop_name *n=apop_name_alloc(); apop_name_add(n,"one",'c'); EQI(apop_name_add(n,NULL,vflip(.5)?'c':'r'),-1); EQI(apop_name_find(n,NULL,'c'),-2); EQI(apop_name_find(n,noname(),"crt"[vi(0,2)]),-2); EQI(apop_name_find(NULL,"x",'c'),-2); V_CHECK(n->colct==1,cur,"column count"); apop_name_stack(NULL,n,'c'); apop_name_stack(n,NULL,'c'); V_CHECK(n->colct==1&&!strcmp(n->col[0],"one"),cur,"names after stacking NULL"); apop_name_free(n); }
/* ---- text & regex ---- */
static void regex_bad(void){ EQI(apop_regex("abc",NULL),-1); static const char *bad[]={"(","a[","*(","(a","[[:nosuch:]]"}; apop_data *d=NULL; EQI(apop_regex("abc",vpick(bad)),-1); EQI(apop_regex("abc",vpick(bad),&d),-1); apop_data_free(d); }
static void regex_nullstr(void){ EQI(apop_regex(NULL,"a"),0); }
static void uniq_bad(void){ errf(apop_text_unique_elements(NULL,0),'s'); apop_data *d=full(); UNCHANGED(d,errf(apop_text_unique_elements(d,d->textsize[1]+vi(0,2)),'s')); apop_data_free(d); }
static void paste_null(void){ char *s=apop_text_paste(NULL); free(s); apop_data *d=empty(); s=apop_text_paste(d,.between=","); free(s); apop_data_free(d); }
/* ---- vectors & matrices ---- */
static void v_null(void){ V_EQ(apop_vector_sum(NULL),0,cur,"sum"); ISNAN(apop_vector_mean(NULL)); ISNAN(apop_vector_var(NULL)); ISNAN(apop_vector_skew_pop(NULL)); ISNAN(apop_vector_kurtosis_pop(NULL)); ISNAN(apop_vector_skew(NULL)); ISNAN(apop_vector_kurtosis(NULL)); ISNAN(apop_vector_var_m(NULL,0)); ISNAN(apop_vector_cov(NULL,NULL)); ISNAN(apop_vector_correlation(NULL,NULL)); }
static void v_nullone(void){ gsl_vector *v=vec(vi(1,4)); ISNAN(apop_vector_cov(v,NULL)); ISNAN(apop_vector_cov(NULL,v)); ISNAN(apop_vector_correlation(v,NULL)); ISNAN(apop_vector_correlation(NULL,v)); ISNAN(apop_vector_distance(NULL,v)); gsl_vector_free(v); }
static void v_weights(void){ int n=vi(2,6); gsl_vector *v=vec(n),*w=vec(n+vi(1,2)),*u=vec(n); ISNAN(apop_vector_mean(v,w)); ISNAN(apop_vector_var(v,w)); ISNAN(apop_vector_skew_pop(v,w)); ISNAN(apop_vector_kurtosis_pop(v,w)); ISNAN(apop_vector_cov(v,u,w)); ISNAN(apop_vector_correlation(v,u,w)); ISNAN(apop_vector_cov(v,w)); gsl_vector_free(v); gsl_vector_free(w); gsl_vector_free(u); }
static void v_dist(void){ gsl_vector *v=vec(vi(1,3)),*w=vec(5); ISNAN(apop_vector_distance(v,w,.metric="eml"[vi(0,2)])); ISNAN(apop_vector_distance(NULL,w)); ISNAN(apop_vector_distance(w,w,.metric="xyz"[vi(0,2)])); gsl_vector_free(v); gsl_vector_free(w); }
static void v_ops_null(void){ NUL(apop_vector_percentiles(NULL)); apop_vector_log(NULL); apop_vector_exp(NULL); apop_vector_log10(NULL); EQI(apop_vector_bounded(NULL),1); NUL(apop_vector_to_matrix(NULL)); NUL(apop_array_to_vector(NULL,vi(0,3))); NUL(apop_vector_unique_elements(NULL)); }
static void v_normalize(void){ apop_vector_normalize(NULL); gsl_vector *o=NULL; (void)o; apop_data *z=apop_data_calloc(vi(2,4)); UNCHANGED(z,apop_vector_normalize(z->vector,.normalization_type='p')); apop_data_free(z); }
static void v_moving(void){ NUL(apop_vector_moving_average(NULL,3)); gsl_vector *v=vec(vi(2,4)); NUL(apop_vector_moving_average(v,vi(6,9))); gsl_vector *c=apop_vector_moving_average(v,0); V_CHECK(c&&c->size==v->size,cur,"bandwidth 0"); gsl_vector_free(c); gsl_vector_free(v); }
static void v_entropy(void){ EQI(apop_vector_entropy(NULL),0); gsl_vector *v=vec(3); gsl_vector_set(v,0,-1); gsl_vector_set(v,1,5); gsl_vector_set(v,2,.5); ISNAN(apop_vector_entropy(v)); gsl_vector_set(v,1,.1); ISNAN(apop_vector_entropy(v)); gsl_vector_free(v); }
static void m_null(void){ V_EQ(apop_matrix_sum(NULL),0,cur,"matrix sum"); ISNAN(apop_matrix_determinant(NULL)); NUL(apop_matrix_inverse(NULL)); NUL(apop_data_covariance(NULL)); NUL(apop_data_correlation(NULL)); NUL(apop_data_summarize(NULL)); EQI(apop_matrix_is_positive_semidefinite(NULL),0); ISNAN(apop_matrix_to_positive_semidefinite(NULL)); NUL(apop_matrix_pca(NULL)); NUL(apop_dot(NULL,NULL)); }
static void m_mean_null(void){ double a=apop_matrix_mean(NULL); V_CHECK(isnan(a)||a==0,cur,"mean of NULL %g",a); }
static void m_meanvar_null(void){ double a=3,b=4; apop_matrix_mean_and_var(NULL,&a,&b); }
static void d_nomatrix(void){ apop_data *d=apop_data_alloc(3); gsl_vector_set_all(d->vector,1); NUL(apop_data_summarize(d)); apop_data *o=apop_data_covariance(d); V_CHECK(!o||o->error,cur,"covariance of no matrix"); apop_data_free(o); o=apop_data_correlation(d); V_CHECK(!o||o->error,cur,"correlation of no matrix"); apop_data_free(o); apop_data_free(d); }
static void m_square(void){ apop_data *d=mat(vi(1,3),vi(4,5)); gsl_matrix *o=(gsl_matrix*)d; UNCHANGED(d,ISNAN(apop_det_and_inv(d->matrix,&o,1,1)); NUL(o); ISNAN(apop_matrix_determinant(d->matrix)); NUL(apop_matrix_inverse(d->matrix))); apop_data_free(d); }
static void m_singular(void){ int n=vi(2,4); apop_data *d=mat(n,n); for (int j=0;j<n;j++) gsl_matrix_set(d->matrix,n-1,j,0); gsl_matrix *o=NULL; UNCHANGED(d,double x=apop_det_and_inv(d->matrix,&o,1,1); V_CHECK(isnan(x)||fabs(x)<1e-9,cur,"determinant of a singular matrix %g",x); NUL(o)); apop_data_free(d); }
static void m_psd(void){ apop_data *d=mat(vi(1,3),4); EQI(apop_matrix_is_positive_semidefinite(d->matrix),0); double x=apop_matrix_to_positive_semidefinite(d->matrix); V_CHECK(isnan(x),cur,"a non-square matrix made semidefinite: %g",x); apop_data_free(d); }
static void m_pca(void){ apop_data *d=mat(vi(3,6),vi(1,3)); int c=d->matrix->size2; apop_data *o=apop_matrix_pca(d->matrix,c+vi(1,3)); V_CHECK(!o||o->error||(o->matrix&&(int)o->matrix->size2<=c),cur,"more components than columns: %zu from %d",o&&o->matrix?o->matrix->size2:0,c); apop_data_free(o); apop_data_free(d); }
static void dot_dim(void){ int r=vi(1,4),c=vi(1,4); apop_data *a=mat(r,c),*b=mat(c+vi(1,2),vi(1,3)); UNCHANGED(a,UNCHANGED(b,errf(apop_dot(a,b),'d'))); apop_data_free(b); b=apop_data_alloc(c+1); gsl_vector_set_all(b->vector,1); errf(apop_dot(a,b),'d'); apop_data_free(a); apop_data_free(b); }
static void dot_dim1(void){ int r=vi(1,4),c=vi(1,4); apop_data *a=mat(r,c),*b=apop_data_alloc(c+vi(1,3)); gsl_vector_set_all(b->vector,2); UNCHANGED(a,UNCHANGED(b,errf(apop_dot(a,b),'d'))); apop_data_free(b); b=apop_data_alloc(r+vi(1,3)); gsl_vector_set_all(b->vector,2); UNCHANGED(b,errf(apop_dot(b,a),'d')); apop_data *e=apop_data_alloc(r); gsl_vector_set_all(e->vector,2); anyerr(apop_dot(e,b)); apop_data_free(e); apop_data_free(a); apop_data_free(b); }
static void dot_null(void){ apop_data *a=mat(2,2),*e=empty(); UNCHANGED(a,NUL(apop_dot(a,NULL)); NUL(apop_dot(NULL,a)); NUL(apop_dot(a,e)); NUL(apop_dot(e,a)); NUL(apop_dot(a,a,.form1='v')); NUL(apop_dot(a,a,.form2='v'))); apop_data_free(a); apop_data_free(e); }
static void map_bad(void){ apop_data *v=apop_data_alloc(3); gsl_vector_set_all(v->vector,1); apop_data *o=apop_map(v,.fn_d=sqrt,.part='m'); anyerr(o); apop_data_free(v); }
static double rsum(gsl_vector *v){ return apop_vector_sum(v); }
static void map_rowd(void){ apop_data *v=mat(3,2); apop_data *o=apop_map(v,.fn_d=sqrt,.part=vflip(.5)?'r':'c'); errf(o,'p'); apop_data_free(v); v=apop_data_alloc(3); gsl_vector_set_all(v->vector,1); anyerr(apop_map(v,.fn_v=rsum,.part='r')); apop_data_free(v); }
static void map_null(void){ apop_data *o=apop_map(NULL,.fn_d=sqrt); apop_data_free(o); EQI(apop_map_sum(NULL,.fn_d=sqrt),0); NUL(apop_vector_map(NULL,sqrt)); NUL(apop_matrix_map(NULL,rsum)); NUL(apop_matrix_map_all(NULL,sqrt)); EQI(apop_vector_map_sum(NULL,sqrt),0); EQI(apop_matrix_map_sum(NULL,rsum),0); EQI(apop_matrix_map_all_sum(NULL,sqrt),0); }
static void apply_null(void){ apop_vector_apply(NULL,NULL); apop_matrix_apply(NULL,NULL); apop_matrix_apply_all(NULL,NULL); }
static void lincon_null(void){ apop_data *c=apop_data_falloc((1,1,1),0,1); double x=apop_linear_constraint(NULL,c); (void)x; apop_data_free(c); }

#include "C38x.h"
typedef struct { const char *name; void (*fn)(void); int log; } badop; /* log: 1 when some message must be logged at verbosity 2 */
#define O(f,l) {#f,f,l}
static badop T[]={ O(get_null,1),O(get_empty,1),O(get_range,1),O(get_negrow,1),O(get_negcol,1),O(get_name,1),O(get_page,1),O(get_novec,1),O(named_elmt,1),O(copy_null,0),O(model_copy_null,1),O(copy_cycle,1),O(free_cycle,1),O(free_null,0),O(memcpy_null,1),O(memcpy_part,1),O(memcpy_size,1),O(memcpy_text,1),O(memcpy_weights,1),O(stack_posn,1),O(stack_null,0),O(stack_dim,1),O(stack_text,1),O(mstack,1),O(split_null,1),O(rmcols_null,0),O(rmrows_none,1),O(rmrows_empty,0),O(prune_null,1),O(prune_missing,1),O(text_set_bad,1),O(text_alloc_half,1),O(text_fill_null,1),O(transpose_null,1),O(realloc_view,1),O(pages,1),O(rm_page,1),O(rank_null,0),O(pack_small,1),O(unpack_bad,1),O(sort_null,1),O(show_null,0),O(alloc_huge,1),O(alloc_partial,1),O(name_bad,1),O(regex_bad,1),O(regex_nullstr,0),O(uniq_bad,1),O(paste_null,0),O(v_null,1),O(v_nullone,1),O(v_weights,1),O(v_dist,1),O(v_ops_null,1),O(v_normalize,1),O(v_moving,1),O(v_entropy,1),O(m_null,1),O(m_mean_null,0),O(m_meanvar_null,0),O(d_nomatrix,1),O(m_square,1),O(m_singular,0),O(m_psd,0),O(m_pca,0),O(dot_dim,1),O(dot_dim1,1),O(dot_null,1),O(map_bad,1),O(map_rowd,1),O(map_null,0),O(apply_null,0),O(lincon_null,1),
MORE };
#define NT ((int)(sizeof(T)/sizeof(*T)))

/* ---- bystanders ---- */
typedef struct { apop_data *d; char *dump; apop_model *m; char *mdump; gsl_rng *r; char *table; int seed; } bystand;
static void by_make(bystand *b){
    b->d=full(); b->dump=vh_dump(b->d,true);
    apop_query("drop table if exists bystander; create table bystander(a,b); begin;"); for (int i=0;i<4;i++) apop_query("insert into bystander values(%i,'t%i')",vi(0,99),vi(0,99)); apop_query("commit;");
    apop_data *t=apop_query_to_text("select * from bystander"); b->table=vh_dump(t,true); apop_data_free(t);
    apop_data *x=mat(10,2); b->m=apop_estimate(x,apop_normal); apop_data_free(x); b->mdump=vh_dump(b->m->parameters,true);
    b->r=gsl_rng_alloc(gsl_rng_taus); gsl_rng_set(b->r,7);
}
static void by_check(bystand *b,const char *k){
    char *s=vh_dump(b->d,true); V_CHECK(!strcmp(s,b->dump),k,"another data set was changed"); free(s);
    apop_data *t=apop_query_to_text("select * from bystander"); s=vh_dump(t,true); V_CHECK(t&&!t->error&&!strcmp(s,b->table),k,"another database table was changed or is out of reach"); free(s); apop_data_free(t);
    s=vh_dump(b->m->parameters,true); V_CHECK(!strcmp(s,b->mdump)&&!b->m->error,k,"another model was changed"); free(s);
    V_CHECK(vh_gsl_handler_intact(),k,"the GSL's error handler is not as it was");
    /* still usable? */
    apop_data *a=apop_data_falloc((2,2),1,2,3,4),*p=apop_dot(a,a); V_CHECK(p&&!p->error&&apop_data_get(p,0,0)==7&&apop_data_get(p,1,1)==22,k,"a good dot product fails afterwards"); apop_data_free(p); apop_data_free(a);
    V_EQ(apop_query_to_float("select 6*7"),42,k,"a good query fails afterwards");
    a=apop_data_falloc((4,1),1,2,3,4); apop_model *e=apop_estimate(a,apop_exponential); V_CHECK(e&&!e->error&&fabs(apop_data_get(e->parameters,0,-1)-2.5)<1e-9,k,"a good estimation fails afterwards"); apop_model_free(e);
    double x; EQI(apop_draw(&x,b->r,b->m),0); V_CHECK(isfinite(x),k,"a good draw fails afterwards"); apop_data_free(a);
}
static void by_free(bystand *b){ apop_data_free(b->d); free(b->dump); apop_model_free(b->m); free(b->mdump); gsl_rng_free(b->r); free(b->table); }
/* one bad call with a log kept; returns the log's length */
static size_t run(badop *o,int verb){
    char *buf=NULL; size_t n=0; FILE *f=open_memstream(&buf,&n); FILE *was=apop_opts.log_file; int vw=apop_opts.verbose;
    apop_opts.log_file=f; apop_opts.verbose=verb; cur=o->name; v_ev(o->name);
    o->fn();
    apop_opts.log_file=was; apop_opts.verbose=vw; fclose(f);
    if (verb==-1) V_CHECK(n==0,o->name,"verbosity -1, and yet it logged: %.120s",buf);
    if (verb==2&&o->log) V_CHECK(n>0,o->name,"nothing was logged at verbosity 2");
    free(buf); return n;
}
static void f_calls(void){ badop *o=T+vh_case%NT; bystand b; v_desc("%s",o->name); v_sigs(o->name); uint64_t s=vr_u64(); v_sig(&s,8); by_make(&b); static const int vs[]={-1,0,1,2,2}; run(o,vs[vh_case/NT%5]); by_check(&b,o->name); by_free(&b); }
static void f_seq(void){ bystand b; by_make(&b); int n=vi(3,8); for (int i=0;i<n;i++){ badop *o=T+vi(0,NT-1); v_desc("%s ",o->name); v_sigs(o->name); run(o,vi(-1,2)); } by_check(&b,"sequence"); by_free(&b); }
/* stop_on_warning */
static int child(badop *o,char mode,int verb,uint64_t seed,long *loglen){ /* 0: ended normally; otherwise the signal */
    int pp[2]; if (pipe(pp)) _exit(3); fflush(NULL); pid_t p=fork(); if (p<0) _exit(3);
    if (!p){ vr_reseed(seed); apop_opts.stop_on_warning=mode; apop_opts.verbose=verb; FILE *f=fdopen(pp[1],"w"); setvbuf(f,NULL,_IONBF,0); apop_opts.log_file=f; cur=o->name; alarm(60); o->fn(); fflush(NULL); _exit(0); }
    close(pp[1]); char b[4096]; long got=0,k; while ((k=read(pp[0],b,sizeof b))>0) got+=k; close(pp[0]); int st; while (waitpid(p,&st,0)<0); if (loglen) *loglen=got;
    return WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st)?1000+WEXITSTATUS(st):0;
}
#define HALTED(s) ((s)==SIGTRAP||(s)==SIGABRT)
static void f_halt(void){ bystand b; by_make(&b); badop *o=T+vh_case%NT; uint64_t s=vr_u64(); v_desc("%s",o->name); v_sigs(o->name); v_sig(&s,8); long l0,l; int verb=vi(-1,2);
    int r=child(o,'n',2,s,&l0); V_CHECK(r==0,o->name,"stop_on_warning 'n': ended with %d",r);
    r=child(o,'\0',verb,s,&l); V_CHECK(r==0,o->name,"stop_on_warning zero: ended with %d",r);
    r=child(o,'n',verb,s,&l0); r=child(o,'v',verb,s,&l); V_CHECK(r==0||HALTED(r),o->name,"stop_on_warning 'v': ended with %d",r); if (l0==0) V_CHECK(r==0,o->name,"stop_on_warning 'v', verbosity %d: halted with %d though nothing would print",verb,r); if (o->log&&verb==2) V_CHECK(HALTED(r),o->name,"stop_on_warning 'v', verbosity 2: did not halt"); if (HALTED(r)) V_CHECK(l>0||verb==-1,o->name,"halted without a message"), v_ev("halted");
    r=child(o,'w',verb,s,&l); V_CHECK(r==0||HALTED(r),o->name,"stop_on_warning 'w': ended with %d",r); if (o->log) V_CHECK(HALTED(r),o->name,"stop_on_warning 'w': did not halt"); by_free(&b); }
vh_family vh_families[]={{"calls",f_calls,NT*10,NT*200},{"sequences",f_seq,300,10000},{"halt",f_halt,NT,NT*20},{0}};
