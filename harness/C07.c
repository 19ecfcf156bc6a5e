#include "vh.h"
const char *vh_rule = "A random chain of reallocs of a vector and of a matrix, and copies, fills and conversions of views of random stride, against shadow arrays; distinct by sizes and content.";
static void f_vrealloc(void){
    gsl_vector *v=NULL; int n=0; double sh[64];
    v_desc("vector reallocs:");
    if (vflip(.5)){ n=vi(1,20); v=gsl_vector_alloc(n); for (int i=0;i<n;i++){ sh[i]=vval(); gsl_vector_set(v,i,sh[i]); v_sigd(sh[i]);} }
    for (int o=vi(2,12);o>0;o--){
        int m=vi(1,40); v_desc(" %d",m); v_sig(&m,sizeof m);
        v=apop_vector_realloc(v,m);
        if (!V_CHECK(v&&(int)v->size==m&&v->stride==1&&v->block&&(int)v->block->size==m&&v->block->data==v->data,"vsize","after a realloc to %d the size is %d",m,v?(int)v->size:-1)) return;
        for (int i=0;i<n&&i<m;i++) V_EQ(gsl_vector_get(v,i),sh[i],"vkeep","element %d, from %d to %d",i,n,m);
        for (int i=0;i<m;i++) { sh[i]=vval(); gsl_vector_set(v,i,sh[i]); }   // every element is writable
        n=m;
        if (vflip(.3)){ // views are refused
            gsl_vector w=gsl_vector_subvector(v,0,n).vector, *r=n>1?&w:NULL;
            if (r) V_CHECK(!apop_vector_realloc(r,n+3),"vview","a subvector was resized");
            if (n>3){ gsl_vector x=gsl_vector_subvector_with_stride(v,1,2,(n-1)/2).vector; V_CHECK(!apop_vector_realloc(&x,1),"vview","a strided view was resized"); }
            gsl_matrix *mm=gsl_matrix_alloc(3,2); apop_data *d=&(apop_data){.matrix=mm};
            V_CHECK(!apop_vector_realloc(Apop_cv(d,1),9) && !apop_vector_realloc(Apop_rv(d,1),9),"vview","a row or column view was resized");
            V_CHECK(!apop_matrix_realloc(Apop_subm(mm,0,0,2,1),9,9),"mview","a submatrix was resized");
            gsl_matrix_view sv=gsl_matrix_submatrix(mm,0,0,2,1); V_CHECK(!apop_matrix_realloc(&sv.matrix,9,9),"mview","a submatrix was resized");
            V_CHECK((int)v->size==n,"vview-parent","parent of a refused view changed"); gsl_matrix_free(mm);
            for (int i=0;i<n;i++) V_EQ(gsl_vector_get(v,i),sh[i],"vview-parent","element %d",i);
        }
    }
    gsl_vector_free(v);
    V_CHECK(!apop_vector_realloc(NULL,0),"vnull","NULL to zero");
}
static void f_mrealloc(void){
    gsl_matrix *v=NULL; int r=0,c=0; static double sh[40][40];
    v_desc("matrix reallocs:");
    if (vflip(.7)){ r=vi(1,12); c=vi(1,12); v=gsl_matrix_alloc(r,c); for (int i=0;i<r;i++) for (int j=0;j<c;j++){ sh[i][j]=vval(); gsl_matrix_set(v,i,j,sh[i][j]); v_sigd(sh[i][j]);} }
    for (int o=vi(2,10);o>0;o--){
        int a=vi(1,20),b=vi(1,20); if (vflip(.2)) a=r?r:a; if (vflip(.2)) b=c?c:b;
        v_desc(" %dx%d",a,b); v_sig(&a,sizeof a); v_sig(&b,sizeof b);
        v=apop_matrix_realloc(v,a,b);
        if (!V_CHECK(v&&(int)v->size1==a&&(int)v->size2==b&&(int)v->tda==b&&v->block->data==v->data&&(int)v->block->size==a*b,"msize","after realloc to %dx%d",a,b)) return;
        for (int i=0;i<r&&i<a;i++) for (int j=0;j<c&&j<b;j++) V_EQ(gsl_matrix_get(v,i,j),sh[i][j],"mkeep","element %d,%d, from %dx%d to %dx%d",i,j,r,c,a,b);
        for (int i=0;i<a;i++) for (int j=0;j<b;j++){ sh[i][j]=vval(); gsl_matrix_set(v,i,j,sh[i][j]); }
        r=a;c=b;
    }
    gsl_matrix_free(v);
    V_CHECK(!apop_matrix_realloc(NULL,0,3)&&!apop_matrix_realloc(NULL,3,0),"mnull","NULL to zero");
}
static void f_convert(void){
    int n=vi(1,15), st=vi(1,4); gsl_vector *big=gsl_vector_alloc(n*st+3); for (size_t i=0;i<big->size;i++){ double x=vflip(.05)?NAN:vval(); gsl_vector_set(big,i,x); v_sigd(x);} 
    gsl_vector v=gsl_vector_subvector_with_stride(big,1,st,n).vector;
    int r=vi(1,8), c=vi(1,8); gsl_matrix *bm=gsl_matrix_alloc(r+3,c+3); for (int i=0;i<r+3;i++) for (int j=0;j<c+3;j++){ double x=vval(); gsl_matrix_set(bm,i,j,x); v_sigd(x);} 
    int a=vi(0,3), b=vi(0,3); gsl_matrix m=gsl_matrix_submatrix(bm,a,b,r,c).matrix;
    v_desc("conversions: vector %d stride %d, matrix %dx%d at %d,%d",n,st,r,c,a,b);
    gsl_vector *keepv=gsl_vector_alloc(big->size); gsl_vector_memcpy(keepv,big); gsl_matrix *keepm=gsl_matrix_alloc(r+3,c+3); gsl_matrix_memcpy(keepm,bm);
    gsl_vector *vc=apop_vector_copy(&v); V_CHECK((int)vc->size==n&&vc->owner&&vc->data!=v.data,"vcopy","copy shape");
    for (int i=0;i<n;i++) V_EQ(gsl_vector_get(vc,i),gsl_vector_get(&v,i),"vcopy","element %d stride %d",i,st);
    gsl_matrix *mc=apop_matrix_copy(&m); V_CHECK((int)mc->size1==r&&(int)mc->size2==c&&mc->owner,"mcopy","copy shape");
    for (int i=0;i<r;i++) for (int j=0;j<c;j++) V_EQ(gsl_matrix_get(mc,i,j),gsl_matrix_get(&m,i,j),"mcopy","element %d,%d",i,j);
    gsl_matrix *col=vflip(.5)?apop_vector_to_matrix(&v):apop_vector_to_matrix(&v,'c'), *row=apop_vector_to_matrix(&v,vflip(.5)?'r':'R');
    V_CHECK((int)col->size1==n&&col->size2==1&&row->size1==1&&(int)row->size2==n,"v2m","shapes %zux%zu %zux%zu",col->size1,col->size2,row->size1,row->size2);
    for (int i=0;i<n;i++){ V_EQ(gsl_matrix_get(col,i,0),gsl_vector_get(&v,i),"v2m-col","element %d",i); V_EQ(gsl_matrix_get(row,0,i),gsl_vector_get(&v,i),"v2m-row","element %d",i); }
    double arr[20]; for (int i=0;i<n;i++) arr[i]=vval();
    gsl_vector *av=apop_array_to_vector(arr,n); V_CHECK((int)av->size==n&&av->owner,"a2v","shape");
    for (int i=0;i<n;i++) V_EQ(gsl_vector_get(av,i),arr[i],"a2v","element %d",i);
    // ownership: change every output, the inputs stay
    gsl_vector_set_all(vc,1); gsl_matrix_set_all(mc,1); gsl_matrix_set_all(col,1); gsl_matrix_set_all(row,1); 
    double a0=arr[0]; gsl_vector_set_all(av,1); V_EQ(arr[0],a0,"a2v-owner","array");
    for (size_t i=0;i<big->size;i++) V_EQ(gsl_vector_get(big,i),gsl_vector_get(keepv,i),"input","vector %zu",i);
    for (int i=0;i<r+3;i++) for (int j=0;j<c+3;j++) V_EQ(gsl_matrix_get(bm,i,j),gsl_matrix_get(keepm,i,j),"input","matrix");
    // fills
    double l[400]; for (int i=0;i<400;i++) l[i]=vval();
    apop_vector_fill_base(&v,l);
    for (int i=0;i<n;i++) V_EQ(gsl_vector_get(&v,i),l[i],"vfill","element %d stride %d",i,st);
    for (int i=0;i<(int)big->size;i++) if (i<1||(i-1)%st||(i-1)/st>=n) V_EQ(gsl_vector_get(big,i),gsl_vector_get(keepv,i),"vfill-outside","%d",i);
    gsl_vector *three=apop_vector_fill(gsl_vector_alloc(3),l[0],2,-1.5); V_CHECK(three->data[0]==l[0]&&three->data[1]==2&&three->data[2]==-1.5,"vfill-macro","vector fill");
    int hv=vi(0,1), hm=!hv||vflip(.7); apop_data *d=apop_data_alloc(hv?r:0,hm?r:0,hm?c:0);
    apop_data_fill_base(d,l); int k=0;
    for (int i=0;i<r;i++){ if (hv) V_EQ(gsl_vector_get(d->vector,i),l[k++],"dfill","vector %d",i); if (hm) for (int j=0;j<c;j++) V_EQ(gsl_matrix_get(d->matrix,i,j),l[k++],"dfill","matrix %d,%d",i,j); }
    apop_data_free(d);
    d=apop_data_falloc((2,2,2), 1,2,3, 4,5,6); V_CHECK(gsl_vector_get(d->vector,0)==1&&gsl_matrix_get(d->matrix,0,1)==3&&gsl_vector_get(d->vector,1)==4&&gsl_matrix_get(d->matrix,1,0)==5,"falloc","falloc order");
    apop_data_free(d);
    V_CHECK(!apop_vector_copy(NULL)&&!apop_matrix_copy(NULL)&&!apop_vector_to_matrix(NULL)&&!apop_array_to_vector(NULL)&&!apop_vector_fill_base(NULL,l)&&!apop_data_fill_base(NULL,l),"null","NULL inputs");
    gsl_vector_free(big); gsl_vector_free(keepv); gsl_vector_free(vc); gsl_vector_free(av); gsl_vector_free(three);
    gsl_matrix_free(bm); gsl_matrix_free(keepm); gsl_matrix_free(mc); gsl_matrix_free(col); gsl_matrix_free(row);
}
vh_family vh_families[] = { {"vrealloc",f_vrealloc,1500,30000}, {"mrealloc",f_mrealloc,1500,30000}, {"convert",f_convert,1500,30000}, {NULL} };
