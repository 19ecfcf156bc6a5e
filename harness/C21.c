#include "vh.h"
#include <strings.h>
const char *vh_rule = "Data sets with any mix of vector, matrix, text, weights and row names, with many ties, case variants and NaNs, sorted by random key lists (or none), ascending or descending, in place or copied; the multiset of whole rows compared before and after, and the order of adjacent rows checked against the keys. Distinct by data, keys and options.";
static int has_v,has_w,has_n,M,T,N; // shape now in use
static char *rowstr(const apop_data *d,int i){ char *s=NULL; size_t l=0; FILE *f=open_memstream(&s,&l); if (has_v) fprintf(f,"%a|",apop_data_get(d,i,-1)); for (int j=0;j<M;j++) fprintf(f,"%a,",apop_data_get(d,i,j)); for (int j=0;j<T;j++) fprintf(f,"<%s>",d->text[i][j]); if (has_w) fprintf(f,"w%a",gsl_vector_get(d->weights,i)); if (has_n) fprintf(f,"n%s",d->names->row[i]); fclose(f); return s; }
static int pc(const void *a,const void *b){ return strcmp(*(char**)a,*(char**)b); }
/* a key: -1 vector, 0..M-1 matrix, 100+ text, -2 weights, 1000 names */
static int cmp(const apop_data *d,int a,int b,const int *keys,int nk,int nanbig){ for (int k=0;k<nk;k++){ int c; if (keys[k]<100){ double x,y; if (keys[k]==-2) x=gsl_vector_get(d->weights,a),y=gsl_vector_get(d->weights,b); else x=apop_data_get(d,a,keys[k]),y=apop_data_get(d,b,keys[k]); if (isnan(x)||isnan(y)) c= isnan(x)&&isnan(y)?0:(isnan(x)?1:-1)*(nanbig?1:-1); else c=(x>y)-(x<y); }
        else { const char *x=keys[k]==1000?d->names->row[a]:d->text[a][keys[k]-100],*y=keys[k]==1000?d->names->row[b]:d->text[b][keys[k]-100]; c=strcasecmp(x,y); } if (c) return c; } return 0; }
static void sort_case(int big){
    static const char *words[]={"a","A","b","B","bb","","Zed","zed","apple","Apple","10","9","a b"}; N=big?vi(20,150):vi(1,12); has_v=vflip(.5); has_w=vflip(.4); has_n=vflip(.5); M=vi(0,3); T=vi(0,2); if (!has_v&&!has_w&&!M&&!T) M=1; if (!has_v&&!M&&!T) has_v=1; int nans=vflip(.2); int rng=vpick(((int[]){1,2,3,100}));
    char pre[310]=""; if (vflip(.25)){ int l=vflip(.5)?vi(1,40):vi(30,300); for (int i=0;i<l;i++) pre[i]="abcXY z0"[vi(0,7)]; pre[l]=0; v_sigs(pre); } // strings that agree for their first so many characters
    apop_data *d=apop_data_alloc(has_v?N:0,M?N:0,M); if (T) apop_text_alloc(d,N,T); if (has_w) d->weights=gsl_vector_alloc(N); char b[40];
    for (int i=0;i<N;i++){ for (int j=has_v?-1:0;j<M;j++) apop_data_set(d,i,j,nans&&vflip(.2)?NAN:vflip(.05)?vnorm():vi(-rng,rng)); for (int j=0;j<T;j++) apop_text_set(d,i,j,"%s%s",pre,rng>3&&vflip(.5)?vstr_plain(b,8):vpick(words)); if (has_w) gsl_vector_set(d->weights,i,vi(0,rng)); if (has_n){ char b[400]; if (vflip(.6)) snprintf(b,400,"%s%s",pre,vpick(words)); else snprintf(b,400,"%srow%d",pre,vi(0,20)); apop_name_add(d->names,b,'r'); } }
    if (vflip(.4)) for (int j=0;j<M;j++){ sprintf(b,"col%d",j); apop_name_add(d->names,b,'c'); } if (vflip(.3)) apop_name_add(d->names,"the title",'h'); if (vflip(.2)) apop_data_add_page(d,apop_data_falloc((2),1,2),"info");
    vh_sig_data(d);
    // the key list
    int all[10],na=0; if (has_v) all[na++]=-1; for (int j=0;j<M;j++) all[na++]=j; for (int j=0;j<T;j++) all[na++]=100+j; if (has_w) all[na++]=-2; if (has_n) all[na++]=1000;
    int keys[10],nk=0; apop_data *so=NULL; if (vflip(.3)){ memcpy(keys,all,sizeof all); nk=na; } else {
        double rank[10]; int used[10]={0}; for (int i=0;i<na;i++) rank[i]=vflip(.35)?NAN:vflip(.7)?vi(1,9):vd(-5,5); while (1){ int best=-1; for (int i=0;i<na;i++) if (!used[i]&&!isnan(rank[i])&&(best<0||rank[i]<rank[best])) best=i; if (best<0) break; used[best]=1; keys[nk++]=all[best]; }
        so=apop_data_alloc(has_v?1:0,M?1:0,M); if (T) apop_text_alloc(so,1,T); if (has_w) so->weights=gsl_vector_alloc(1); for (int i=0;i<na;i++){ int k=all[i]; if (k==-2) gsl_vector_set(so->weights,0,rank[i]); else if (k<100) apop_data_set(so,0,k,rank[i]); else { if (isnan(rank[i])) strcpy(b,vflip(.5)?"":apop_opts.nan_string); else snprintf(b,40,"%.17g",rank[i]); if (k==1000) apop_name_add(so->names,b,'r'); else apop_text_set(so,0,k-100,"%s",b); } }
        if (has_v&&isnan(apop_data_get(so,0,-1))&&vflip(.3)){ gsl_vector_free(so->vector); so->vector=NULL; } if (has_w&&isnan(gsl_vector_get(so->weights,0))&&vflip(.3)){ gsl_vector_free(so->weights); so->weights=NULL; } for (int i=0;i<na;i++) v_sigd(rank[i]); }
    char asc=vpick("aadD"); if (!asc) asc='a'; char in=vpick("yn"); if (!in) in='y'; v_sig(&asc,1); v_sig(&in,1); v_desc("%d rows, v%d m%d t%d w%d n%d, %d keys (%s), %c, in place %c%s",N,has_v,M,T,has_w,has_n,nk,so?"given":"default",asc,in,nans?", NaNs":"");
    char **before=malloc(N*sizeof *before); for (int i=0;i<N;i++) before[i]=rowstr(d,i); char *full=vh_dump(d,true),*sofull=so?vh_dump(so,true):NULL;
    apop_data *o= asc=='a'&&in=='y'&&vflip(.5)?(so?apop_data_sort(d,so):apop_data_sort(d)):apop_data_sort(d,so,asc,in);
    if (so){ char *t=vh_dump(so,true); V_STR(t,sofull,"sortorder","the sort order was changed"); free(t); } if (in=='n'){ char *t=vh_dump(d,true); V_STR(t,full,"input","the input was changed"); free(t); V_CHECK(o&&o!=d,"copy","no copy"); } else V_CHECK(o==d,"inplace","the output is not the input");
    if (!V_CHECK(vh_rows(o)==N&&(!M||((int)o->matrix->size1==N&&(int)o->matrix->size2==M))&&(!T||((int)o->textsize[0]==N&&(int)o->textsize[1]==T))&&(!has_w||(o->weights&&(int)o->weights->size==N))&&o->names->rowct==(has_n?N:0),"shape","the shape changed")) goto done;
    V_CHECK(!!o->more==!!d->more,"pages","pages"); V_STR(o->names->title,d->names->title,"title","title"); V_EQ(o->names->colct,d->names->colct,"colnames","column names");
    { char **after=malloc(N*sizeof *after); for (int i=0;i<N;i++) after[i]=rowstr(o,i); if (!nk) for (int i=0;i<N;i++) V_STR(after[i],before[i],"nokeys","row %d moved, with nothing to sort by",i);
      char **b2=malloc(N*sizeof *b2); memcpy(b2,before,N*sizeof *b2); qsort(b2,N,sizeof *b2,pc); qsort(after,N,sizeof *after,pc); for (int i=0;i<N;i++) if (strcmp(after[i],b2[i])){ v_fails("rows",after[i],b2[i],"the rows are not those of the input"); break; } for (int i=0;i<N;i++) free(after[i]); free(after); free(b2); v_evn("rows",N); }
    { int ok[2]={1,1},bad=-1; for (int z=0;z<2;z++) for (int i=0;i+1<N;i++){ int c=cmp(o,i,i+1,keys,nk,z); if (asc!='a') c=-c; if (c>0){ ok[z]=0; if (z) bad=i; break; } } V_CHECK(ok[0]||ok[1],"order","rows %d and %d are out of order",bad,bad+1); v_evn("adjacent_pairs",N-1); }
    done: for (int i=0;i<N;i++) free(before[i]); free(before); free(full); free(sofull); if (o!=d) apop_data_free(o); apop_data_free(d); apop_data_free(so); if (vflip(.01)) V_CHECK(!apop_data_sort(NULL),"null","NULL");
}
static void f_small(void){ sort_case(0); }
static void f_big(void){ sort_case(1); }
vh_family vh_families[]={{"small",f_small,4000,150000},{"big",f_big,300,10000},{NULL}};
