#include "vh.h"
const char *vh_rule = "Random pairs of data sets, vectors and matrices (and strided views of them) are stacked, with each other and with themselves or their own pages, and random sets split at random and boundary points; distinct by content, direction and point.";

static void vfill(gsl_vector *v){ for (size_t i=0;i<v->size;i++) gsl_vector_set(v,i,vval()); }
static void mfill(gsl_matrix *m){ for (size_t i=0;i<m->size1;i++) for (size_t j=0;j<m->size2;j++) gsl_matrix_set(m,i,j,vval()); }

static void f_vstack(void){
    int n1=vi(0,9), n2=vi(0,9), inplace=vi(0,1), stride=vi(1,3);
    gsl_matrix *m2=gsl_matrix_alloc(n2+1,stride); mfill(m2);
    gsl_vector *v1=n1?gsl_vector_alloc(n1):NULL; if (v1) vfill(v1);
    gsl_vector v2v, *v2=NULL;
    if (n2){ v2v=gsl_vector_view_array_with_stride(m2->data,stride,n2).vector; v2=&v2v; }
    double e[40]; int k=0;
    for (int i=0;i<n1;i++) e[k++]=gsl_vector_get(v1,i);
    for (int i=0;i<n2;i++) e[k++]=gsl_vector_get(v2,i);
    v_sig(e,k*sizeof*e); v_sig(&n1,4); v_sig(&inplace,4);
    v_desc("vector stack %d + %d (stride %d) inplace %d",n1,n2,stride,inplace);
    gsl_vector *o = inplace ? apop_vector_stack(v1,v2,.inplace='y') : apop_vector_stack(v1,v2);
    if (!k) V_CHECK(!o,"vector-null","stack of two NULLs gave something");
    else if (V_CHECK(o && (int)o->size==k,"vector-size","stacked size %d, expected %d",o?(int)o->size:-1,k))
        for (int i=0;i<k;i++) V_EQ(gsl_vector_get(o,i),e[i],"vector-element","element %d",i);
    for (int i=0;i<n2;i++) V_EQ(gsl_vector_get(v2,i),e[n1+i],"vector-input2","second input, element %d",i);
    if (!inplace){
        if (v1) V_CHECK((int)v1->size==n1,"vector-input1","first input resized");
        for (int i=0;i<n1;i++) V_EQ(gsl_vector_get(v1,i),e[i],"vector-input1","first input, element %d",i);
        if (o) V_CHECK(o!=v1 && o!=v2,"vector-fresh","output is an input");
    } else if (v1) V_CHECK(o==v1,"vector-inplace","in-place stack returned another vector");
    if (o){ gsl_vector_set_all(o,5); if (n2) V_EQ(gsl_vector_get(v2,0),e[n1],"vector-shared","second input changed with the output"); }
    if (o && o!=v1) gsl_vector_free(o);
    if (v1) gsl_vector_free(v1);
    gsl_matrix_free(m2);
}
static void f_mstack(void){
    char p=vflip(.5)?'r':'c'; int inplace=vi(0,1), r1=vi(1,6), c1=vi(1,6), r2=p=='r'?vi(1,6):r1, c2=p=='r'?c1:vi(1,6);
    bool bad=vflip(.12);
    if (bad){ if (p=='r') c2=c1+vi(1,2); else r2=r1+vi(1,2); }
    gsl_matrix *a=gsl_matrix_alloc(r1,c1), *big=gsl_matrix_alloc(r2+2,c2+2); mfill(a); mfill(big);
    gsl_matrix bv=gsl_matrix_submatrix(big,1,1,r2,c2).matrix, *b=&bv;
    gsl_matrix *a0=apop_matrix_copy(a), *b0=apop_matrix_copy(b);
    v_sig(a->data,r1*c1*8); v_sig(b0->data,r2*c2*8); v_sig(&p,1); v_sig(&inplace,4);
    v_desc("matrix stack %c: %dx%d + %dx%d inplace %d",p,r1,c1,r2,c2,inplace);
    gsl_matrix *o= inplace? apop_matrix_stack(a,b,p,'y') : apop_matrix_stack(a,b,p);
    if (bad){
        V_CHECK(!o,"matrix-mismatch","sizes %dx%d and %dx%d were stacked by %c",r1,c1,r2,c2,p);
        V_CHECK((int)a->size1==r1&&(int)a->size2==c1,"matrix-mismatch-shape","refused stack changed the first input's shape");
    } else if (V_CHECK(o && (int)o->size1==(p=='r'?r1+r2:r1) && (int)o->size2==(p=='r'?c1:c1+c2),"matrix-shape","shape %zux%zu",o?o->size1:0,o?o->size2:0)){
        for (int i=0;i<r1;i++) for (int j=0;j<c1;j++) V_EQ(gsl_matrix_get(o,i,j),gsl_matrix_get(a0,i,j),"matrix-element","(%d,%d) of the first",i,j);
        for (int i=0;i<r2;i++) for (int j=0;j<c2;j++) V_EQ(gsl_matrix_get(o,p=='r'?r1+i:i,p=='r'?j:c1+j),gsl_matrix_get(b0,i,j),"matrix-element","(%d,%d) of the second",i,j);
    }
    for (int i=0;i<r2;i++) for (int j=0;j<c2;j++) V_EQ(gsl_matrix_get(b,i,j),gsl_matrix_get(b0,i,j),"matrix-input2","(%d,%d) of the second input",i,j);
    if (!inplace || bad) for (int i=0;i<r1;i++) for (int j=0;j<c1;j++) V_EQ(gsl_matrix_get(a,i,j),gsl_matrix_get(a0,i,j),"matrix-input1","(%d,%d) of the first input",i,j);
    if (o && o!=a) gsl_matrix_free(o);
    gsl_matrix_free(a); gsl_matrix_free(a0); gsl_matrix_free(b0); gsl_matrix_free(big);
}
/* the reference: rows of a, then rows of b */
static apop_data *ref_rstack(apop_data *a, apop_data *b){
    apop_data *o=apop_data_alloc();
    int va=a->vector?a->vector->size:0, vb=b->vector?b->vector->size:0, wa=a->weights?a->weights->size:0, wb=b->weights?b->weights->size:0;
    if (va+vb){ o->vector=gsl_vector_alloc(va+vb); for (int i=0;i<va+vb;i++) gsl_vector_set(o->vector,i,i<va?gsl_vector_get(a->vector,i):gsl_vector_get(b->vector,i-va)); }
    if (wa+wb){ o->weights=gsl_vector_alloc(wa+wb); for (int i=0;i<wa+wb;i++) gsl_vector_set(o->weights,i,i<wa?gsl_vector_get(a->weights,i):gsl_vector_get(b->weights,i-wa)); }
    int ra=a->matrix?a->matrix->size1:0, rb=b->matrix?b->matrix->size1:0, c=a->matrix?a->matrix->size2:b->matrix?b->matrix->size2:0;
    if (ra+rb){ o->matrix=gsl_matrix_alloc(ra+rb,c); for (int i=0;i<ra+rb;i++) for (int j=0;j<c;j++) gsl_matrix_set(o->matrix,i,j,i<ra?gsl_matrix_get(a->matrix,i,j):gsl_matrix_get(b->matrix,i-ra,j)); }
    int ta=a->textsize[0], tb=b->textsize[0], t=ta?a->textsize[1]:b->textsize[1];
    if (ta+tb){ apop_text_alloc(o,ta+tb,t); for (int i=0;i<ta+tb;i++) for (int j=0;j<t;j++) apop_text_set(o,i,j,"%s",i<ta?a->text[i][j]:b->text[i-ta][j]); }
    for (int i=0;i<a->names->rowct;i++) apop_name_add(o->names,a->names->row[i],'r');
    if (b->names->rowct){
        for (int i=a->names->rowct;i<vh_rows(a);i++) apop_name_add(o->names,"",'r');
        for (int i=0;i<b->names->rowct;i++) apop_name_add(o->names,b->names->row[i],'r');
    }
    for (int i=0;i<a->names->colct;i++) apop_name_add(o->names,a->names->col[i],'c');
    for (int i=0;i<a->names->textct;i++) apop_name_add(o->names,a->names->text[i],'t');
    if (a->names->vector) apop_name_add(o->names,a->names->vector,'v');
    if (a->names->title) apop_name_add(o->names,a->names->title,'h');
    return o;
}
static void finish(apop_data *a, apop_data *b, apop_data *o, apop_data *ref, char *da, char *db, bool inplace, const char *key){
    vh_strip(o,false,false);
    vh_same(o,ref,false,key,"stacked set against the reference");
    char *x=vh_dump(b,true); V_STR(x,db,"data-input2","second input after stacking"); free(x);
    if (inplace) V_CHECK(o==a,"data-inplace","in-place stack returned another set");
    else { x=vh_dump(a,true); V_STR(x,da,"data-input1","first input after stacking"); free(x);
           V_CHECK(o!=a&&o!=b,"data-fresh","stack returned an input"); }
    V_CHECK(!o->error,"data-error","error %c on a legal stack",o->error);
    if (o->names) for (int i=0;i<o->names->rowct;i++){ int f=apop_name_find(o->names,o->names->row[i],'r'); V_CHECK(f>=0&&f<o->names->rowct&&!strcasecmp(o->names->row[f],o->names->row[i]),"data-lookup","row name lookup in the stack"); }
    // nothing shared
    if (o->vector) gsl_vector_set_all(o->vector,3.25);
    if (o->matrix) gsl_matrix_set_all(o->matrix,3.25);
    for (size_t i=0;i<o->textsize[0];i++) for (size_t j=0;j<o->textsize[1];j++) apop_text_set(o,i,j,"gone");
    x=vh_dump(b,true); V_STR(x,db,"data-shared","second input after the result was edited"); free(x);
    if (!inplace){ x=vh_dump(a,true); V_STR(x,da,"data-shared","first input after the result was edited"); free(x); }
    if (o!=a) apop_data_free(o);
    apop_data_free(a); apop_data_free(b); apop_data_free(ref); free(da); free(db);
}
static void f_rstack(void){
    vh_shape s=vh_random_shape(6,4), t=s;
    int r=vi(1,6);
    if (t.vsize) t.vsize=r; if (t.m1) t.m1=r; if (t.t1) t.t1=r; if (t.wsize) t.wsize=r;
    t.rownames=vflip(.6); t.pages=0; t.title=vflip(.3); t.colnames=vflip(.5); t.vecname=vflip(.5);
    if (!t.vsize && !t.m1 && !t.t1) {v_trivial(); return;}
    bool inplace=vflip(.4);
    apop_data *a=vh_data(s), *b=vh_data(t);
    vh_sig_data(a); vh_sig_data(b);
    v_desc("row stack: v%d m%dx%d t%dx%d w%d rownames %d + %d rows, rownames %d, inplace %d",s.vsize,s.m1,s.m2,s.t1,s.t2,s.wsize,s.rownames,r,t.rownames,inplace);
    char *da=vh_dump(a,true), *db=vh_dump(b,true);
    apop_data *ref=ref_rstack(a,b);
    apop_data *o= inplace? apop_data_stack(a,b,'r','y') : vflip(.5)?apop_data_stack(a,b):apop_data_stack(a,b,'r');
    finish(a,b,o,ref,da,db,inplace,"data-rows");
}
static void f_rstack_parts(void){   // each part is stacked by itself, when only one of the sets has it
    int r1=vi(1,5), r2=vi(1,5), c=vi(1,3);
    vh_shape s={0}, t={0};
    if (vflip(.6)) s.vsize=r1; if (vflip(.6)) t.vsize=r2;
    if (vflip(.6)) s.m1=r1,s.m2=c; if (vflip(.6)) t.m1=r2,t.m2=c;
    if (vflip(.4)) s.t1=r1,s.t2=c; if (vflip(.4)) t.t1=r2,t.t2=c;
    if (vflip(.4)) s.wsize=r1; if (vflip(.4)) t.wsize=r2;
    bool inplace=vflip(.4);
    apop_data *a=vh_data(s), *b=vh_data(t);
    vh_sig_data(a); vh_sig_data(b);
    v_desc("row stack of unlike sets v%d m%d t%d w%d + v%d m%d t%d w%d",s.vsize,s.m1,s.t1,s.wsize,t.vsize,t.m1,t.t1,t.wsize);
    char *da=vh_dump(a,true), *db=vh_dump(b,true);
    apop_data *ref=ref_rstack(a,b);
    apop_data *o= inplace? apop_data_stack(a,b,'r','y') : apop_data_stack(a,b,'r');
    finish(a,b,o,ref,da,db,inplace,"data-rows-parts");
}
static void f_cstack(void){
    int r=vi(1,5);
    vh_shape s={.rownames=vflip(.5),.colnames=vflip(.6),.vecname=vflip(.6),.textnames=vflip(.6),.title=vflip(.4)}, t={.rownames=vflip(.3),.colnames=vflip(.6),.vecname=vflip(.6),.textnames=vflip(.6)};
    if (vflip(.6)) s.vsize=r; if (vflip(.6)) t.vsize=r;
    if (vflip(.7)) s.m1=r,s.m2=vi(1,3); if (vflip(.7)) t.m1=r,t.m2=vi(1,3);
    if (vflip(.4)) s.t1=r,s.t2=vi(1,3); if (vflip(.4)) t.t1=r,t.t2=vi(1,3);
    if (vflip(.4)) s.wsize=r;
    bool inplace=vflip(.4);
    apop_data *a=vh_data(s), *b=vh_data(t);
    vh_sig_data(a); vh_sig_data(b);
    v_desc("column stack v%d m%dx%d t%dx%d + v%d m%dx%d t%dx%d inplace %d",s.vsize,s.m1,s.m2,s.t1,s.t2,t.vsize,t.m1,t.m2,t.t1,t.t2,inplace);
    char *da=vh_dump(a,true), *db=vh_dump(b,true);
    // reference
    apop_data *o=apop_data_alloc();
    if (a->vector) o->vector=apop_vector_copy(a->vector); else if (b->vector) o->vector=apop_vector_copy(b->vector);
    int c1=s.m2, cv=(s.vsize&&t.vsize)?1:0, c2=t.m2, c=c1+cv+c2;
    if (c){ o->matrix=gsl_matrix_alloc(r,c); for (int i=0;i<r;i++) for (int j=0;j<c;j++)
        gsl_matrix_set(o->matrix,i,j, j<c1?gsl_matrix_get(a->matrix,i,j): j<c1+cv?gsl_vector_get(b->vector,i):gsl_matrix_get(b->matrix,i,j-c1-cv)); }
    int t1=s.t2,t2=t.t2;
    if (t1+t2){ apop_text_alloc(o,r,t1+t2); for (int i=0;i<r;i++) for (int j=0;j<t1+t2;j++) apop_text_set(o,i,j,"%s",j<t1?a->text[i][j]:b->text[i][j-t1]); }
    if (a->weights) o->weights=apop_vector_copy(a->weights);
    for (int i=0;i<a->names->rowct;i++) apop_name_add(o->names,a->names->row[i],'r');
    for (int i=0;i<a->names->colct;i++) apop_name_add(o->names,a->names->col[i],'c');
    bool vn=cv&&b->names->vector, add=b->names->colct||vn;
    if (add){
        for (int i=a->names->colct;i<c1;i++) apop_name_add(o->names,"",'c');
        if (cv && b->names->vector) apop_name_add(o->names,b->names->vector,'c');
        else if (cv) apop_name_add(o->names,"v",'c');
        for (int i=0;i<b->names->colct;i++) apop_name_add(o->names,b->names->col[i],'c');
    }
    for (int i=0;i<a->names->textct;i++) apop_name_add(o->names,a->names->text[i],'t');
    if (b->names->textct) for (int i=a->names->textct;i<t1;i++) apop_name_add(o->names,"",'t');
    for (int i=0;i<b->names->textct;i++) apop_name_add(o->names,b->names->text[i],'t');
    if (a->names->vector) apop_name_add(o->names,a->names->vector,'v');
    else if (!a->vector && b->vector && b->names->vector) apop_name_add(o->names,b->names->vector,'v');
    if (a->names->title) apop_name_add(o->names,a->names->title,'h');
    apop_data *got= inplace? apop_data_stack(a,b,'c','y') : apop_data_stack(a,b,'c');
    finish(a,b,got,o,da,db,inplace,"data-cols");
}
static void f_null(void){
    vh_shape s=vh_random_shape(4,3);
    apop_data *a=vh_data(s);
    vh_sig_data(a);
    v_desc("stack with NULL: v%d m%d t%d pages %d",s.vsize,s.m1,s.t1,s.pages);
    char pos=vflip(.5)?'r':'c';
    v_sig(&pos,1);
    apop_data *x=apop_data_stack(a,NULL,pos), *y=apop_data_stack(NULL,a,pos), *z=apop_data_stack(a,NULL,pos,'y');
    vh_same(x,a,true,"null-second","stack(a,NULL)"); vh_same(y,a,true,"null-first","stack(NULL,a)");
    V_CHECK(z==a,"null-inplace","stack(a,NULL) in place gave another set");
    V_CHECK(x!=a && y!=a,"null-fresh","not a copy");
    V_CHECK(!apop_data_stack(NULL,NULL,pos),"null-both","stack(NULL,NULL) gave a set");
    V_CHECK(!apop_data_stack(a,a,'q'),"bad-posn","an unknown direction was accepted");
    apop_data_free(x); apop_data_free(y); apop_data_free(a);
}
/* a set stacked with itself, or with one of its own later pages */
static void f_alias(void){
    vh_shape s=vh_random_shape(4,3); s.pages=0; bool rows=vflip(.5); int np=vi(0,2);
    apop_data *a=vh_data(s); apop_data *pg[3]={a}; for (int i=1;i<=np;i++){ char n[20]; sprintf(n,"page %d",i); pg[i]=vh_data(s); apop_data_add_page(a,pg[i],n); }
    apop_data *m2=pg[vi(0,np)]; bool inplace=vflip(.3)&&m2==a&&!np; char pos=rows?'r':'c'; v_sig(&pos,1); vh_sig_data(a); v_desc("%c stack of a %d-page set with %s of its own, inplace %d",pos,np+1,m2==a?"page 1":"a page",inplace);
    apop_data *ac=apop_data_copy(a),*bc=apop_data_copy(m2); apop_data *bmore=bc->more; bc->more=NULL; apop_data_free(bmore);
    apop_data *ref=apop_data_stack(ac,bc,pos); char *da=vh_dump(a,true); // what two separate sets give: see the families above
    apop_data *o=inplace?apop_data_stack(a,m2,pos,'y'):apop_data_stack(a,m2,pos);
    vh_same(o,ref,true,"alias","a set stacked with its own page, against stacking copies");
    if (!inplace){ char *x=vh_dump(a,true); V_STR(x,da,"alias-input","the input of a stack with its own page"); free(x); int n=0; for (apop_data *p=a;p&&n<5;p=p->more) V_CHECK(p==pg[n++],"alias-pages","the input's pages were relinked"); V_EQ(n,np+1,"alias-pages","the pages of the input"); }
    if (o!=a) apop_data_free(o); free(da); apop_data_free(a); apop_data_free(ac); apop_data_free(bc); apop_data_free(ref);
}
static void f_self(void){ // vectors and matrices stacked with themselves
    bool inplace=vflip(.5); char ip=inplace?'y':'n'; int r=vi(1,6),c=vi(1,4); char pos=vflip(.5)?'r':'c'; gsl_matrix *m=gsl_matrix_alloc(r,c); gsl_vector *v=gsl_vector_alloc(r); for (int i=0;i<r;i++){ gsl_vector_set(v,i,vnorm()); v_sigd(gsl_vector_get(v,i)); for (int j=0;j<c;j++) gsl_matrix_set(m,i,j,vnorm()); }
    v_desc("self stack %dx%d %c inplace %d",r,c,pos,inplace); gsl_vector *v0=apop_vector_copy(v); gsl_matrix *m0=apop_matrix_copy(m);
    gsl_vector *vo=apop_vector_stack(v,v,ip); V_CHECK((vo==v)==inplace,"self-place","vector, in place %d",inplace); V_EQ((int)vo->size,2*r,"self-size","vector"); for (int i=0;i<2*r&&i<(int)vo->size;i++) V_EQ(gsl_vector_get(vo,i),gsl_vector_get(v0,i%r),"self-vector","element %d",i);
    gsl_matrix *mo=apop_matrix_stack(m,m,pos,ip); V_CHECK((mo==m)==inplace,"self-place","matrix, in place %d",inplace); if (V_CHECK(mo&&(int)mo->size1==(pos=='r'?2*r:r)&&(int)mo->size2==(pos=='c'?2*c:c),"self-size","matrix")) for (int i=0;i<(int)mo->size1;i++) for (int j=0;j<(int)mo->size2;j++) V_EQ(gsl_matrix_get(mo,i,j),gsl_matrix_get(m0,i%r,j%c),"self-matrix","element %d,%d",i,j);
    if (vo!=v) gsl_vector_free(vo); if (mo!=m) gsl_matrix_free(mo); gsl_vector_free(v); gsl_matrix_free(m); gsl_vector_free(v0); gsl_matrix_free(m0);
}
static void f_mismatch(void){
    char p=vflip(.5)?'r':'c'; bool inplace=vflip(.5); int r=vi(1,4),c=vi(1,3),kind=vi(0,1);
    vh_shape s={0},t={0};
    if (kind){ s.m1=t.m1=r; s.m2=t.m2=c; if (p=='r') t.m2++; else t.m1++; if (vflip(.5)) s.vsize=r; }
    else { s.t1=t.t1=r; s.t2=t.t2=c; if (p=='r') t.t2++; else t.t1++; }
    s.rownames=vflip(.5); s.colnames=vflip(.5);
    apop_data *a=vh_data(s),*b=vh_data(t);
    vh_sig_data(a); vh_sig_data(b);
    v_desc("mismatched %c stack of %s, inplace %d",p,kind?"matrices":"text",inplace);
    char *da=vh_dump(a,true),*db=vh_dump(b,true);
    apop_data *o=inplace?apop_data_stack(a,b,p,'y'):apop_data_stack(a,b,p);
    V_CHECK(o && o->error=='d',"mismatch-error","sizes that differ: error element is %c",o&&o->error?o->error:'0');
    char *x=vh_dump(b,true); V_STR(x,db,"mismatch-input2","second input after a refused stack"); free(x);
    if (!inplace){ x=vh_dump(a,true); V_STR(x,da,"mismatch-input1","first input after a refused stack"); free(x); }
    else if (kind) { V_CHECK(a->matrix!=NULL,"mismatch-lost","refused in-place stack lost the matrix"); }
    if (o && o!=a) apop_data_free(o);
    apop_data_free(a); apop_data_free(b); free(da); free(db);
}
static bool blank(apop_data *d){ return !d || (!d->vector && !d->matrix && !d->textsize[0]); }
static void f_split_r(void){
    vh_shape s=vh_random_shape(8,4); s.pages=0;
    apop_data *d=vh_data(s); vh_strip(d,true,true);
    int n=s.vsize?s.vsize:s.m1?s.m1:s.t1, sp=vi(-2,n+3);
    vh_sig_data(d); v_sig(&sp,4);
    v_desc("row split of v%d m%dx%d t%dx%d w%d at %d",s.vsize,s.m1,s.m2,s.t1,s.t2,s.wsize,sp);
    char *before=vh_dump(d,true);
    apop_data **o=apop_data_split(d,sp,vflip(.7)?'r':'R');
    char *x=vh_dump(d,true); V_STR(x,before,"split-input","input after a split"); free(x);
    int k = sp<0?0: sp>n?n:sp, idx[20]; for (int i=0;i<20;i++) idx[i]=i;
    for (int h=0;h<2;h++){
        int cnt=h?n-k:k;
        if (!cnt){ V_CHECK(!o[h],"split-null","half %d of a split at %d of %d rows is not NULL",h,sp,n); continue; }
        apop_data *ref=vh_pick_rows(d,idx+(h?k:0),cnt);
        if (V_CHECK(o[h],"split-missing","half %d of a split at %d of %d rows is NULL",h,sp,n))
            vh_same(o[h],ref,true,"split-rows",h?"second half":"first half");
        apop_data_free(ref);
    }
    apop_data *back=apop_data_stack(o[0],o[1],'r');
    vh_same(back,d,true,"split-restack","halves stacked again");
    apop_data_free(back); if (o[0]) apop_data_free(o[0]); if (o[1]) apop_data_free(o[1]);
    free(o); free(before); apop_data_free(d);
}
static void f_split_c(void){
    vh_shape s=vh_random_shape(5,7); s.pages=0; s.t1=s.t2=0; s.textnames=false;
    if (!s.m1){ s.m1=vi(1,5); s.m2=vi(1,7); if (s.vsize) s.vsize=s.m1; if (s.wsize) s.wsize=s.m1; }
    apop_data *d=vh_data(s); vh_strip(d,true,true);
    int n=s.m2, sp=vi(-2,n+2);
    vh_sig_data(d); v_sig(&sp,4);
    v_desc("column split of v%d m%dx%d w%d at %d",s.vsize,s.m1,s.m2,s.wsize,sp);
    char *before=vh_dump(d,true);
    apop_data **o=apop_data_split(d,sp,vflip(.7)?'c':'C');
    char *x=vh_dump(d,true); V_STR(x,before,"split-input","input after a split"); free(x);
    // the vector counts as column -1
    if (sp<=-1 || sp>=n){
        int h=sp<0;
        vh_same(o[h],d,true,"split-cols-whole","a split outside the set"); V_CHECK(!o[!h],"split-null","other half not NULL");
    } else {
        int idx[20]; for (int i=0;i<20;i++) idx[i]=i;
        for (int h=0;h<2;h++){
            int cnt=h?n-sp:sp;
            apop_data *ref=vh_pick_cols(d,idx+(h?sp:0),cnt);
            if (h && ref->vector){ gsl_vector_free(ref->vector); ref->vector=NULL; free(ref->names->vector); ref->names->vector=NULL; }
            if (blank(ref)) V_CHECK(blank(o[h]),"split-empty","half %d should be empty",h);
            else if (V_CHECK(o[h],"split-missing","half %d is NULL",h)){
                if (!ref->matrix && o[h]->names->colct==0) while (ref->names->colct) free(ref->names->col[--ref->names->colct]);
                if (!o[h]->vector && !d->vector && d->names->vector){ free(o[h]->names->vector); o[h]->names->vector=NULL; free(ref->names->vector); ref->names->vector=NULL; }
                vh_same(o[h],ref,true,"split-cols",h?"second half":"first half");
            }
            apop_data_free(ref);
        }
    }
    for (int h=0;h<2;h++) if (o[h]) apop_data_free(o[h]);
    free(o); free(before); apop_data_free(d);
}
vh_family vh_families[] = {
    {"vstack",f_vstack,800,20000}, {"mstack",f_mstack,800,20000}, {"rstack",f_rstack,800,20000}, {"rstack_parts",f_rstack_parts,500,10000},
    {"cstack",f_cstack,1000,20000}, {"null",f_null,200,2000}, {"alias",f_alias,500,10000}, {"self",f_self,200,4000}, {"mismatch",f_mismatch,300,4000},
    {"split_r",f_split_r,1000,20000}, {"split_c",f_split_c,800,20000}, {NULL}
};
