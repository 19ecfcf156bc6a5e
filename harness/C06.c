#include "vh.h"
const char *vh_rule = "A random set with up to three more pages, some titled <like this>, is packed and unpacked under each choice of pages, against an independent enumeration of the elements; distinct by content and options.";
static bool info(const apop_data *p){ const char *t=p->names?p->names->title:NULL; size_t l=t?strlen(t):0; return t && l>=2 && t[0]=='<' && t[l-1]=='>'; }
static int enumerate(const apop_data *d,bool pages,bool useinfo,double *out,double **where){
    int n=0;
    for (const apop_data *p=d;p;p=pages?p->more:NULL){
        if (p!=d && !useinfo && info(p)) continue;
        if (p->vector) for (size_t i=0;i<p->vector->size;i++){ where[n]=gsl_vector_ptr(p->vector,i); out[n++]=gsl_vector_get(p->vector,i); }
        if (p->matrix) for (size_t i=0;i<p->matrix->size1;i++) for (size_t j=0;j<p->matrix->size2;j++){ where[n]=gsl_matrix_ptr(p->matrix,i,j); out[n++]=gsl_matrix_get(p->matrix,i,j); }
        if (p->weights) for (size_t i=0;i<p->weights->size;i++){ where[n]=gsl_vector_ptr(p->weights,i); out[n++]=gsl_vector_get(p->weights,i); }
    }
    return n;
}
static void f_pack(void){
    vh_shape s=vh_random_shape(6,4); s.pages=0; s.nans=vflip(.2);
    apop_data *d=vh_data(s);
    int np=vi(0,3); char t[60];
    for (int i=0;i<np;i++){
        vh_shape ps=vh_random_shape(4,3); ps.pages=0; ps.title=false;
        apop_data *pg=vh_data(ps);
        static const char *ti[]={"<Covariance>","<Info>","plain","<half","half>","a <b> c","<>","<a> <b>"};
        sprintf(t,"%s",vpick(ti));
        apop_data_add_page(d,pg,vflip(.1)?NULL:t);
    }
    if (vflip(.15)) apop_name_add(d->names,"<First>",'h');
    vh_sig_data(d);
    bool pages=vflip(.7), ui=vflip(.4);
    v_desc("pack: v%d m%dx%d w%d, %d more pages, more_pages %d, info pages %d",s.vsize,s.m1,s.m2,s.wsize,np,pages,ui);
    double el[2000]; double *wh[2000];
    int n=enumerate(d,pages,ui,el,wh);
    char *before=vh_dump(d,true);
    int usedef=vi(0,2);
    gsl_vector *o = (pages&&!ui&&usedef)? apop_data_pack(d) : apop_data_pack(d,.more_pages=pages?(usedef?'y':'Y'):'n',.use_info_pages=ui?(usedef?'y':'Y'):'n');
    if (!n) V_CHECK(!o,"empty","packing nothing gave a vector");
    else if (V_CHECK(o&&(int)o->size==n,"pack-size","packed %d elements, expected %d",o?(int)o->size:-1,n))
        for (int i=0;i<n;i++) V_EQ(gsl_vector_get(o,i),el[i],"pack","element %d of %d",i,n);
    char *after=vh_dump(d,true); V_STR(after,before,"source","source after packing"); free(after);
    if (o){
        // into a caller's vector, which may be a view with a stride
        int st=vi(1,3); gsl_vector *big=gsl_vector_alloc(n*st+5); gsl_vector_set_all(big,-5.5);
        gsl_vector v=gsl_vector_subvector_with_stride(big,2,st,n).vector;
        gsl_vector *r=apop_data_pack(d,&v,pages?'y':'n',ui?'y':'n');
        V_CHECK(r==&v,"pack-out","pack into a given vector did not return it");
        for (int i=0;i<n;i++) V_EQ(gsl_vector_get(&v,i),el[i],"pack-into","element %d",i);
        for (size_t i=0;i<big->size;i++) if (i<2||(i-2)%st||(i-2)/st>=(size_t)n) V_EQ(gsl_vector_get(big,i),-5.5,"pack-outside","a cell outside the output vector");
        // a vector of the wrong size
        if (n>1||1){
            int wrong=n+(vflip(.5)&&n>1?-1:1); gsl_vector w=gsl_vector_subvector(big,0,wrong<=(int)big->size?wrong:(int)big->size).vector;
            double keep=gsl_vector_get(&w,0);
            V_CHECK(!apop_data_pack(d,&w,pages?'y':'n',ui?'y':'n'),"pack-mismatch","packing %d elements into a vector of %zu was not refused",n,w.size);
            V_EQ(gsl_vector_get(&w,0),keep,"pack-mismatch-write","refused output");
        }
        gsl_vector_free(big);
        // unpack into a copy with other numbers. Without more pages, a page's own vector fills just the first page
        apop_data *c=apop_data_copy(d);
        double dum[2000]; double *cw[2000]; int na=enumerate(c,true,true,dum,cw); for (int i=0;i<na;i++) *cw[i]=777;
        apop_data_unpack(o,c,ui?'y':'n');
        int m=enumerate(c,pages,ui,dum,cw);
        for (int i=0;i<m&&i<n;i++) V_EQ(dum[i],el[i],"unpack","element %d of %d",i,n);
        // everything not packed is left alone
        double da[2000]; double *ca[2000]; na=enumerate(c,true,true,da,ca);
        int touched=0; for (int i=0;i<na;i++){ bool in=false; for (int j=0;j<m;j++) if (cw[j]==ca[i]) in=true; if (!in){ V_EQ(da[i],777,"unpack-other","an element that was not packed"); touched++; } }
        v_evn("elements_roundtripped",m);
        // names, text and shape stay
        for (int i=0;i<na;i++) *ca[i]=1; double dd[2000]; double *dw[2000]; int nd=enumerate(d,true,true,dd,dw); for (int i=0;i<nd;i++) *dw[i]=1;
        vh_same(c,d,true,"unpack-rest","names, text and shape after unpacking");
        // too short a vector: reported, nothing written out of bounds, process goes on
        if (n>1){ gsl_vector sh=gsl_vector_subvector(o,0,vi(1,n-1)).vector; apop_data_unpack(&sh,c,ui?'y':'n'); }
        // too long
        gsl_vector *lg=gsl_vector_alloc(n+vi(1,4)); gsl_vector_set_all(lg,3); apop_data_unpack(lg,c,ui?'y':'n'); gsl_vector_free(lg);
        V_CHECK(vh_gsl_handler_intact(),"handler","GSL handler changed");
        apop_data_free(c);
        gsl_vector_free(o);
    }
    free(before);
    apop_data_free(d);
    V_CHECK(!apop_data_pack(NULL),"null","pack of NULL");
}
vh_family vh_families[] = { {"pack",f_pack,3000,60000}, {NULL} };
