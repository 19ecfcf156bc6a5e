#include "vh.h"
#include <omp.h>
const char *vh_rule = "Random sets (vector, matrix views with strides, text, names, pages), every function form, part, inplace and page setting, 1 to 8 threads; the mapped function logs each call (item, index, parameter), and the log and output are compared with a sequential model. Distinct by shape, form and data.";
/* the log */
static double lg_val[200000]; static int lg_idx[200000], lgn; static int badparam; static int PARAM;
static void lg(double v,int idx){ int k=__atomic_fetch_add(&lgn,1,__ATOMIC_SEQ_CST); if (k<200000){ lg_val[k]=v; lg_idx[k]=idx; } }
static void pc(void *p){ if (p!=&PARAM) __atomic_store_n(&badparam,1,__ATOMIC_SEQ_CST); }
static double base(double x){ return isnan(x)?-7:x*2+1; }
static double vkey(const gsl_vector *v){ double s=0; for (size_t i=0;i<v->size;i++){ double x=gsl_vector_get(v,i); s=s*1.37+(isnan(x)?3.5:x)*(1+i%7); } return s; }
static double rkey(const apop_data *d){ double s=0; if (d->vector) s+=3*gsl_vector_get(d->vector,0); if (d->matrix){ if (d->matrix->size1!=1) return -1e99; gsl_vector_view w=gsl_matrix_row(d->matrix,0); s+=vkey(&w.vector); } if (d->weights) s+=11*gsl_vector_get(d->weights,0); if (d->textsize[0]) for (size_t j=0;j<d->textsize[1];j++) for (char *c=d->text[0][j];*c;c++) s=s*.9+*c; if (d->names&&d->names->rowct) for (char *c=d->names->row[0];*c;c++) s=s*.8+*c; return isnan(s)?5:s; }
static double f_d(double x){ lg(x,-1); return base(x); }
static double f_dp(double x,void *p){ lg(x,-1); pc(p); return base(x)+1; }
static double f_di(double x,int i){ lg(x,i); return base(x)+i; }
static double f_dpi(double x,void *p,int i){ lg(x,i); pc(p); return base(x)+10*i; }
static double f_v(gsl_vector *v){ double k=vkey(v); lg(k,-1); return k; }
static double f_vp(gsl_vector *v,void *p){ double k=vkey(v); lg(k,-1); pc(p); return k+1; }
static double f_vi(gsl_vector *v,int i){ double k=vkey(v); lg(k,i); return k+i; }
static double f_vpi(gsl_vector *v,void *p,int i){ double k=vkey(v); lg(k,i); pc(p); return k+10*i; }
static double f_r(apop_data *v){ double k=rkey(v); lg(k,-1); return k; }
static double f_rp(apop_data *v,void *p){ double k=rkey(v); lg(k,-1); pc(p); return k+1; }
static double f_ri(apop_data *v,int i){ double k=rkey(v); lg(k,i); return k+i; }
static double f_rpi(apop_data *v,void *p,int i){ double k=rkey(v); lg(k,i); pc(p); return k+10*i; }
static double add(int form,int i){ return form==0?0:form==1?1:form==2?i:10*i; }
static apop_data *domap(apop_data *d,char kind,int form,int inplace,char part,int pages){
#define CALL(x) (part? (pages? apop_map(d,.x=f_##x+0,.param=&PARAM,.inplace=inplace,.part=part,.all_pages=vflip(.7)?'y':'Y') : apop_map(d,.x=f_##x+0,.param=&PARAM,.inplace=inplace,.part=part)) : (pages? apop_map(d,.x=f_##x+0,.param=&PARAM,.inplace=inplace,.all_pages=vflip(.7)?'y':'Y') : apop_map(d,.x=f_##x+0,.param=&PARAM,.inplace=inplace)))
#define fn_XX(x) 
    apop_data *o=NULL;
    #define C1(nm,f) (part? (pages? apop_map(d,.nm=f,.param=&PARAM,.inplace=inplace,.part=part,.all_pages=vflip(.7)?'y':'Y') : apop_map(d,.nm=f,.param=&PARAM,.inplace=inplace,.part=part)) : (pages? apop_map(d,.nm=f,.param=&PARAM,.inplace=inplace,.all_pages=vflip(.7)?'y':'Y') : apop_map(d,.nm=f,.param=&PARAM,.inplace=inplace)))
    if (kind=='d') o= form==0?C1(fn_d,f_d): form==1?C1(fn_dp,f_dp): form==2?C1(fn_di,f_di):C1(fn_dpi,f_dpi);
    if (kind=='v') o= form==0?C1(fn_v,f_v): form==1?C1(fn_vp,f_vp): form==2?C1(fn_vi,f_vi):C1(fn_vpi,f_vpi);
    if (kind=='r') o= form==0?C1(fn_r,f_r): form==1?C1(fn_rp,f_rp): form==2?C1(fn_ri,f_ri):C1(fn_rpi,f_rpi);
    return o; }
static double domapsum(apop_data *d,char kind,int form,char part,int pages){
    double o=0;
    #define C2(nm,f) (part? (pages? apop_map_sum(d,.nm=f,.param=&PARAM,.part=part,.all_pages=vflip(.7)?'y':'Y') : apop_map_sum(d,.nm=f,.param=&PARAM,.part=part)) : (pages? apop_map_sum(d,.nm=f,.param=&PARAM,.all_pages=vflip(.7)?'y':'Y') : apop_map_sum(d,.nm=f,.param=&PARAM)))
    if (kind=='d') o= form==0?C2(fn_d,f_d): form==1?C2(fn_dp,f_dp): form==2?C2(fn_di,f_di):C2(fn_dpi,f_dpi);
    if (kind=='v') o= form==0?C2(fn_v,f_v): form==1?C2(fn_vp,f_vp): form==2?C2(fn_vi,f_vi):C2(fn_vpi,f_vpi);
    if (kind=='r') o= form==0?C2(fn_r,f_r): form==1?C2(fn_rp,f_rp): form==2?C2(fn_ri,f_ri):C2(fn_rpi,f_rpi);
    return o; }
/* the model: expected calls and expected outputs */
static double ex_val[200000]; static int ex_idx[200000], ex_idx2[200000], exn; static double ex_sum, ex_abs;
static void ex(double v,int i,int i2){ ex_val[exn]=v; ex_idx[exn]=i; ex_idx2[exn++]=i2; }
static int cmpl(const void *a,const void *b){ int i=*(int*)a,j=*(int*)b; double x=lg_val[i],y=lg_val[j]; int nx=isnan(x),ny=isnan(y); if (nx||ny){ if (nx!=ny) return nx-ny; } else if (x!=y) return x<y?-1:1; return lg_idx[i]-lg_idx[j]; }
static int cmpe(const void *a,const void *b){ int i=*(int*)a,j=*(int*)b; double x=ex_val[i],y=ex_val[j]; int nx=isnan(x),ny=isnan(y); if (nx||ny){ if (nx!=ny) return nx-ny; } else if (x!=y) return x<y?-1:1; return ex_idx[i]-ex_idx[j]; }
static int matrix_idx_is; // 0 unknown; 1 column; 2 row: which coordinate is the index for matrix elements, decided by the first element seen
static void checklog(int useidx){
    V_CHECK(lgn==exn,"calls","the function was called %d times for %d items",lgn,exn); V_CHECK(!badparam,"param","wrong parameter pointer"); v_evn("calls_logged",lgn); if (lgn!=exn||lgn>=200000) return;
    for (int pass=0;pass<2;pass++){ // indices along rows, or along columns, of matrix elements
        int *a=malloc(exn*sizeof(int)),*b=malloc(exn*sizeof(int)); for (int i=0;i<exn;i++) a[i]=b[i]=i; if (pass) for (int i=0;i<exn;i++) ex_idx[i]=ex_idx2[i];
        if (!useidx) for (int i=0;i<exn;i++) lg_idx[i]=ex_idx[i]=-1; qsort(a,exn,sizeof(int),cmpl); qsort(b,exn,sizeof(int),cmpe); int bad=-1; for (int i=0;i<exn&&bad<0;i++) if (!v_eq(lg_val[a[i]],ex_val[b[i]])||lg_idx[a[i]]!=ex_idx[b[i]]) bad=i;
        if (bad>=0&&pass) v_fail("items","item or index called: %g at %d, want %g at %d",lg_val[a[bad]],lg_idx[a[bad]],ex_val[b[bad]],ex_idx[b[bad]]); else if (bad<0) pass=2; free(a); free(b); }
}
static void model(apop_data *d,char kind,int form,char part,int pages,apop_data *out,int inplace,apop_data *orig){
    for (apop_data *p=orig,*o=out,*cur=d;p;p=p->more,o=o?o->more:NULL,cur=cur?cur->more:NULL){
        int ui=form>=2, vs=p->vector?p->vector->size:0, m1=p->matrix?p->matrix->size1:0, m2=p->matrix?p->matrix->size2:0, ts=p->textsize[0], rows=vs>m1?vs:m1; if (ts>rows) rows=ts;
        if (inplace!='v'&&!V_CHECK(o,"page","an output page is missing")) break;
        #define SUM(v) do { double z_=(v); ex_sum+=z_; ex_abs+=fabs(z_);} while(0)
        if (kind=='r'){ if (inplace=='n'&&!V_CHECK(o->vector&&(int)o->vector->size==rows,"rvec","output vector of %zu, want %d",o->vector?o->vector->size:0,rows)) break;
            for (int i=0;i<rows;i++){ apop_data *one=vh_pick_rows(p,&i,1); double k=rkey(one); apop_data_free(one); ex(k,ui?i:-1,ui?i:-1); double w=k+add(form,i); SUM(w); if (inplace=='n') V_EQ(gsl_vector_get(o->vector,i),w,"rval","row %d",i); else if (inplace=='y'&&vs>i) V_EQ(gsl_vector_get(o->vector,i),w,"rvaly","row %d in place",i); }
            if (inplace=='n'){ V_CHECK(o->names->rowct==p->names->rowct,"rnames","row names"); for (int i=0;i<p->names->rowct&&i<o->names->rowct;i++) V_STR(o->names->row[i],p->names->row[i],"rnames","%d",i); } }
        else if (kind=='v'){ int n=part=='c'?m2:m1; if (inplace!='v'&&!V_CHECK(o->vector&&(int)o->vector->size==n,"vvec","output vector of %zu, want %d",o->vector?o->vector->size:0,n)) break;
            for (int i=0;i<n;i++){ gsl_vector_view w=part=='c'?gsl_matrix_column(p->matrix,i):gsl_matrix_row(p->matrix,i); double k=vkey(&w.vector); ex(k,ui?i:-1,ui?i:-1); double r=k+add(form,i); SUM(r); if (inplace!='v') V_EQ(gsl_vector_get(o->vector,i),r,"vval","%c %d",part?part:'r',i); }
            if (inplace=='n'){ int nn=part=='c'?p->names->colct:p->names->rowct; char **src=part=='c'?p->names->col:p->names->row; V_CHECK(o->names->rowct==nn,"vnames","%d row names, want %d",o->names->rowct,nn); for (int i=0;i<nn&&i<o->names->rowct;i++) V_STR(o->names->row[i],src[i],"vnames","%d",i); } }
        else { int dov=p->vector&&part!='m', dom=p->matrix&&part!='v';
            if (dov){ if (inplace!='v'&&!V_CHECK(o->vector&&(int)o->vector->size==vs,"dvec","output vector of %zu, want %d",o->vector?o->vector->size:0,vs)) break; for (int i=0;i<vs;i++){ double x=gsl_vector_get(p->vector,i), r=base(x)+add(form,i); ex(x,ui?i:-1,ui?i:-1); SUM(r); if (inplace!='v') V_EQ(gsl_vector_get(o->vector,i),r,"dval","vector %d",i); } }
            else if (inplace=='n') V_CHECK(!o->vector,"novec","a vector from nowhere");
            if (dom){ if (inplace!='v'&&!V_CHECK(o->matrix&&(int)o->matrix->size1==m1&&(int)o->matrix->size2==m2,"dmat","output matrix")) break;
                int rowwise=-1; // index is the position along one dimension or the other
                for (int i=0;i<m1;i++) for (int j=0;j<m2;j++){ double x=gsl_matrix_get(p->matrix,i,j); ex(x,ui?j:-1,ui?i:-1); if (inplace!='v'){ double g=gsl_matrix_get(o->matrix,i,j), wj=base(x)+add(form,j), wi=base(x)+add(form,i); if (wi!=wj&&rowwise<0) rowwise = g==wi; V_EQ(g,rowwise==1?wi:wj,"dmval","matrix %d,%d",i,j); SUM(g);} } }
            else if (inplace=='n') V_CHECK(!o->matrix,"nomat","a matrix from nowhere");
            if (inplace=='n'&&part!='v'&&p->matrix){ V_CHECK(o->names->rowct==p->names->rowct&&o->names->colct==p->names->colct,"dnames","name counts"); for (int i=0;i<p->names->colct&&i<o->names->colct;i++) V_STR(o->names->col[i],p->names->col[i],"dnames","column %d",i); for (int i=0;i<p->names->rowct&&i<o->names->rowct;i++) V_STR(o->names->row[i],p->names->row[i],"dnames","row %d",i); }
            if (inplace=='n'&&part=='v') V_STR(o->names->vector,p->names->vector,"dvname","vector name"); }
        if (!pages) break;
    }
}
static void f_map(void){
    omp_set_num_threads(vi(1,8)); vh_shape s=vh_random_shape(vflip(.1)?60:9,vflip(.1)?30:6); char kind="dvr"[vi(0,2)]; int form=vi(0,3); s.wsize=0; s.nans=kind=='d'&&vflip(.3);
    if (kind=='v'&&!s.m1){ s.m1=vi(1,8); s.m2=vi(1,5);} if (kind=='r'){ int R=vi(1,12); if (s.vsize) s.vsize=vflip(.8)?R:vi(1,R); if (s.m1) s.m1=R; if (s.t1) s.t1=R; if (vflip(.3)) s.wsize=0; if (!s.vsize&&!s.m1&&!s.t1) s.vsize=R; if (s.vsize&&s.vsize<R&&!s.m1&&!s.t1) s.vsize=R; }
    if (kind=='d'&&!s.vsize&&!s.m1) s.vsize=vi(1,9); int pages=vflip(.2); s.pages=pages?vi(1,3):vflip(.1);
    apop_data *d=vh_data(s); if (kind==0x64&&pages) for (apop_data *p=d->more;p;p=p->more) if (!p->vector&&!p->matrix) { p->vector=gsl_vector_alloc(2); gsl_vector_set_all(p->vector,3); }
    if (kind=='r') for (apop_data *p=d;p;p=p->more){ int n=vh_rows(p); if (p->names->rowct&&p->names->rowct<n) v_ev("short_names"); if (p!=d&&pages&&(!n)) { p->vector=gsl_vector_alloc(2); gsl_vector_set_all(p->vector,1);} if (p->vector&&p->matrix&&p->vector->size!=p->matrix->size1) { gsl_vector_free(p->vector); p->vector=NULL; } if (p->textsize[0]&&((p->vector&&p->vector->size!=p->textsize[0])||(p->matrix&&p->matrix->size1!=p->textsize[0]))) apop_text_free(p->text,p->textsize[0],p->textsize[1]), p->text=NULL, p->textsize[0]=p->textsize[1]=0; if (p->weights){ gsl_vector_free(p->weights); p->weights=NULL; } }
    if (kind=='v'&&pages) for (apop_data *p=d;p;p=p->more) if (!p->matrix){ p->matrix=gsl_matrix_alloc(2,2); gsl_matrix_set_all(p->matrix,2); }
    char part=0; if (kind=='d') part=vpick(((char[]){0,'a','v','m'})); if (kind=='v') part=vpick(((char[]){0,'r','c'})); int inplace=vpick(((int[]){'n','n','y','v'}));
    if (kind=='d'&&part=='v') for (apop_data *p=d;p;p=p->more){ if (!p->vector){ p->vector=gsl_vector_alloc(3); gsl_vector_set_all(p->vector,p==d?4:5); } if (!pages) break; }
    if (kind=='d'&&part=='m') for (apop_data *p=d;p;p=p->more){ if (!p->matrix){ p->matrix=gsl_matrix_alloc(2,3); gsl_matrix_set_all(p->matrix,1.5); } if (!pages) break; }
    if (kind=='d'&&(!part||part=='a')) for (apop_data *p=d;p;p=p->more) if (!p->vector&&!p->matrix) { p->vector=gsl_vector_alloc(1); gsl_vector_set_all(p->vector,2); }
    vh_sig_data(d); v_sig(&kind,1); v_sig(&form,4); v_sig(&part,1); v_sig(&inplace,4); v_sig(&pages,4); v_desc("%c form %d part %c inplace %c pages %d threads %d",kind,form,part?part:'-',inplace,pages,omp_get_max_threads());
    apop_data *orig=apop_data_copy(d); char *before=vh_dump(d,true); lgn=exn=badparam=0; ex_sum=ex_abs=0;
    apop_data *o=domap(d,kind,form,inplace,part,pages);
    if (inplace=='v') V_CHECK(!o,"void","inplace='v' returned a set"); else V_CHECK(o&&!o->error,"out","no output or error %d",o?o->error:-1); if (inplace=='y') V_CHECK(o==d,"self","inplace='y' returned another set"); 
    if (o||inplace=='v') { model(d,kind,form,part,pages,o,inplace,orig); checklog(form>=2&&!(pages&&kind==0x64)); }
    if (inplace=='n'&&o) V_CHECK(o!=d&&(pages||!o->more),"npages","pages from nowhere");
    if (inplace!='y'){ char *after=vh_dump(d,true); V_STR(after,before,"input","the input of a map"); free(after); }
    else { // everything but the target is as it was
        for (apop_data *p=d,*q=orig;p&&q;p=p->more,q=q->more){ if (kind!='d'){ gsl_vector *a=p->vector,*b=q->vector; p->vector=q->vector=NULL; char *x=vh_dump(p,false),*y=vh_dump(q,false); V_STR(x,y,"inplacerest","a part other than the vector"); free(x); free(y); p->vector=a; q->vector=b; } } }
    if (inplace=='n'&&o){ // the same through map_sum, and with one thread
        lgn=badparam=0; omp_set_num_threads(vi(1,8)); double got=domapsum(d,kind,form,part,pages); V_CHECK(lgn==exn,"sumcalls","map_sum called the function %d times for %d items",lgn,exn); V_CHECK(!badparam,"sumparam","parameter"); if (!isnan(ex_sum)) V_CLOSE(got,ex_sum,1e-10,1e-12*ex_abs,"sum","map_sum"); v_ev("map_sums"); }
    if (o!=d) apop_data_free(o); free(before); apop_data_free(orig); apop_data_free(d);
}
static void inc(double *x){ lg(*x,-1); *x=base(*x); }
static void vinc(gsl_vector *v){ lg(vkey(v),-1); for (size_t i=0;i<v->size;i++) gsl_vector_set(v,i,base(gsl_vector_get(v,i))); }
static void f_old(void){ // the forms for bare vectors and matrices, on strided views
    omp_set_num_threads(vi(1,8)); int n=vi(1,vflip(.1)?300:20), m=vi(1,8), st=vi(1,3); gsl_vector *big=gsl_vector_calloc(n*st+2); gsl_vector_view vv=gsl_vector_subvector_with_stride(big,1,st,n); gsl_matrix *bm=gsl_matrix_calloc(n+2,m+2); gsl_matrix_view mv=gsl_matrix_submatrix(bm,1,1,n,m); gsl_vector *v=&vv.vector; gsl_matrix *M=&mv.matrix;
    gsl_vector_set_all(big,-77); gsl_matrix_set_all(bm,-77); double *x=malloc(n*sizeof *x), *y=malloc(n*m*sizeof *y), *rk=malloc(n*sizeof *rk); for (int i=0;i<n;i++){ gsl_vector_set(v,i,x[i]=vflip(.05)?NAN:vd(-9,9)); for (int j=0;j<m;j++) gsl_matrix_set(M,i,j,y[i*m+j]=vd(-9,9)); gsl_vector_view r=gsl_matrix_row(M,i); rk[i]=vkey(&r.vector); v_sigd(x[i]); v_sigd(rk[i]); }
    v_desc("n=%d m=%d stride %d threads %d",n,m,st,omp_get_max_threads()); double s=0,sa=0;
    lgn=0; gsl_vector *o=apop_vector_map(v,f_d); V_CHECK(lgn==n&&o&&(int)o->size==n,"vmap","%d calls",lgn); for (int i=0;i<n;i++){ V_EQ(gsl_vector_get(o,i),base(x[i]),"vmap","%d",i); V_EQ(gsl_vector_get(v,i),x[i],"vmapin","%d",i); s+=base(x[i]); sa+=fabs(base(x[i])); } gsl_vector_free(o);
    lgn=0; V_CLOSE(apop_vector_map_sum(v,f_d),s,1e-12,1e-13*sa,"vsum","sum"); V_CHECK(lgn==n,"vsum","%d calls",lgn);
    lgn=0; o=apop_matrix_map(M,f_v); V_CHECK(lgn==n&&o&&(int)o->size==n,"mmap","%d calls",lgn); s=sa=0; for (int i=0;i<n;i++){ V_EQ(gsl_vector_get(o,i),rk[i],"mmap","row %d",i); s+=rk[i]; sa+=fabs(rk[i]); } gsl_vector_free(o);
    lgn=0; V_CLOSE(apop_matrix_map_sum(M,f_v),s,1e-12,1e-13*sa,"msum","sum"); V_CHECK(lgn==n,"msum","%d calls",lgn);
    lgn=0; gsl_matrix *mo=apop_matrix_map_all(M,f_d); V_CHECK(lgn==n*m&&mo&&(int)mo->size1==n&&(int)mo->size2==m,"mall","%d calls",lgn); s=sa=0; for (int i=0;i<n;i++) for (int j=0;j<m;j++){ V_EQ(gsl_matrix_get(mo,i,j),base(y[i*m+j]),"mall","%d,%d",i,j); V_EQ(gsl_matrix_get(M,i,j),y[i*m+j],"mallin","%d,%d",i,j); s+=base(y[i*m+j]); sa+=fabs(base(y[i*m+j])); } gsl_matrix_free(mo);
    lgn=0; V_CLOSE(apop_matrix_map_all_sum(M,f_d),s,1e-12,1e-13*sa,"mallsum","sum"); V_CHECK(lgn==n*m,"mallsum","%d calls",lgn);
    lgn=0; apop_vector_apply(v,inc); V_CHECK(lgn==n,"vapply","%d calls",lgn); for (int i=0;i<n;i++) V_EQ(gsl_vector_get(v,i),base(x[i]),"vapply","%d",i);
    lgn=0; if (vflip(.5)){ apop_matrix_apply(M,vinc); V_CHECK(lgn==n,"mapply","%d calls",lgn); } else { apop_matrix_apply_all(M,inc); V_CHECK(lgn==n*m,"mapplyall","%d calls",lgn); } for (int i=0;i<n;i++) for (int j=0;j<m;j++) V_EQ(gsl_matrix_get(M,i,j),base(y[i*m+j]),"mapply","%d,%d",i,j);
    // what lies around the views is untouched
    for (size_t i=0;i<big->size;i++) if (!(i>=1&&(i-1)%st==0&&(int)((i-1)/st)<n)) V_EQ(gsl_vector_get(big,i),-77,"vguard","%zu",i); for (int i=0;i<n+2;i++) for (int j=0;j<m+2;j++) if (i<1||i>n||j<1||j>m) V_EQ(gsl_matrix_get(bm,i,j),-77,"mguard","%d,%d",i,j);
    V_CHECK(!apop_vector_map(NULL,f_d)&&!apop_matrix_map(NULL,f_v)&&!apop_matrix_map_all(NULL,f_d)&&apop_vector_map_sum(NULL,f_d)==0&&apop_matrix_map_sum(NULL,f_v)==0&&apop_matrix_map_all_sum(NULL,f_d)==0,"null","NULL inputs"); apop_vector_apply(NULL,inc); apop_matrix_apply(NULL,vinc); apop_matrix_apply_all(NULL,inc);
    V_CHECK(!apop_map(NULL,.fn_d=f_d)&&apop_map_sum(NULL,.fn_d=f_d)==0,"nullmap","NULL set"); v_evn("items",n*m+n);
    gsl_vector_free(big); gsl_matrix_free(bm); free(x); free(y); free(rk);
}
static double touch(apop_data *r,int i){ if (r->matrix) for (size_t j=0;j<r->matrix->size2;j++) apop_data_set(r,0,j,i*100+j); if (r->textsize[0]) apop_text_set(r,0,0,"row %d",i); return i; }
static void f_rows(void){ // row functions that write through their row
    omp_set_num_threads(vi(1,8)); int n=vi(1,30),c=vi(1,5),t=vflip(.5)?vi(1,3):0; apop_data *d=apop_data_alloc(vflip(.5)?n:0,n,c); if (d->vector) gsl_vector_set_all(d->vector,-1); gsl_matrix_set_all(d->matrix,-1); if (t) { apop_text_alloc(d,n,t); } v_sig(&n,4); v_sig(&c,4); v_sig(&t,4); if (d->vector) v_sig("v",1);
    int ip=vpick(((int[]){'y','v','n'})); apop_data *o=apop_map(d,.fn_ri=touch,.inplace=ip); v_desc("%d rows, %d columns, text %d, inplace %c",n,c,t,ip);
    for (int i=0;i<n;i++){ for (int j=0;j<c;j++) V_EQ(apop_data_get(d,i,j),i*100+j,"written","%d,%d",i,j); if (t){ char w[30]; sprintf(w,"row %d",i); V_STR(d->text[i][0],w,"writtentext","%d",i); } }
    if (ip=='n'&&o) for (int i=0;i<n;i++) V_EQ(gsl_vector_get(o->vector,i),i,"rowout","%d",i); if (o!=d) apop_data_free(o); apop_data_free(d);
}
static void f_bad(void){ // mismatched parts are reported
    apop_data *d=apop_data_alloc(vi(1,5)); gsl_vector_set_all(d->vector,1); apop_data *o;
    switch(vi(0,4)){ case 0: o=apop_map(d,.fn_d=f_d,.part='r'); break; case 1: o=apop_map(d,.fn_d=f_d,.part='c'); break; case 2: o=apop_map(d,.fn_v=f_v); break; case 3: o=apop_map(d,.fn_v=f_v,.part='c'); break; default: o=apop_map(d,.fn_d=f_d,.part='m'); }
    V_CHECK(o&&o->error=='p',"error","error %d, want p",o?o->error:-1); apop_data_free(o); for (size_t i=0;i<d->vector->size;i++) V_EQ(gsl_vector_get(d->vector,i),1,"badinput","%zu",i); v_sigd(vh_case); apop_data_free(d);
}
vh_family vh_families[]={{"map",f_map,2500,90000,8},{"old",f_old,500,20000,8},{"rows",f_rows,300,10000,8},{"bad",f_bad,50,500},{NULL}};
