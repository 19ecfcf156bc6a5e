#include "vh.h"
const char *vh_rule = "Data sets with vectors, matrices and text binned under every kind of bin specification, compressed, and estimated as PMFs with no, arbitrary-scale, zero-holding and strided weights; bins checked against their own definition, weights against sums over the original rows, and p, log likelihood, CDF and draws against each row's share, and against nothing for rows of other values or shapes. Distinct by data, weights and options.";
typedef long double L;
static void f_bins(void){
    int N=vflip(.1)?vi(50,200):vi(1,20), hv=vflip(.4), M=hv?vi(0,3):vi(1,3), spec=vi(0,2); if (spec==0&&N==1&&vflip(.5)) N=2; apop_data *d=apop_data_alloc(hv?N:0,M?N:0,M); double scale=vpick(((double[]){1,1,1,1e3,1e-3,1e6})), off=vflip(.5)?0:vd(-100,100)*scale; int ints=vflip(.4);
    for (int j=hv?-1:0;j<M;j++){ int cst=vflip(.05); for (int i=0;i<N;i++) apop_data_set(d,i,j,cst?5:ints?vi(-8,20):vnorm()*3*scale+off); } if (vflip(.3)){ d->weights=gsl_vector_alloc(N); for (int i=0;i<N;i++) gsl_vector_set(d->weights,i,vi(0,4)); } if (vflip(.2)) apop_text_alloc(d,N,1);
    vh_sig_data(d); char close=vpick("ynd"); if (!close) close='d'; int bc=vflip(.5)?0:vi(1,12); v_sig(&close,1); v_sig(&bc,sizeof bc);
    apop_data *bs=NULL; if (spec){ bs=apop_data_alloc(hv?spec:0,M?spec:0,M); for (int j=hv?-1:0;j<M;j++){ apop_data_set(bs,0,j,ints?vpick(((double[]){1,2,5,.5,.25})):vd(.2,3)*scale); if (spec==2) apop_data_set(bs,1,j,ints?vi(-6,6)*.25:vd(-2,2)*scale); } vh_sig_data(bs); }
    v_desc("%d rows, v%d m%d, %s, bin count %d, close %c",N,hv,M,spec==0?"no spec":spec==1?"widths":"widths and offsets",bc,close); char *b=vh_dump(d,true);
    apop_data *o= close=='d'?(bc?apop_data_to_bins(d,bs,bc):bs?apop_data_to_bins(d,bs):apop_data_to_bins(d)):bc?apop_data_to_bins(d,bs,bc,close):apop_data_to_bins(d,bs,.close_top_bin=close); char *a=vh_dump(d,true); V_STR(a,b,"input","the input was changed"); free(a); free(b); int top= close=='y'||(close=='d'&&!spec);
    if (!V_CHECK(o&&o!=d&&!o->error&&(!hv||(o->vector&&(int)o->vector->size==N))&&(!M||(o->matrix&&(int)o->matrix->size1==N&&(int)o->matrix->size2==M)),"shape","shape of the output")) goto done;
    if (d->weights){ if (V_CHECK(o->weights&&(int)o->weights->size==N,"weights","weights were lost")) for (int i=0;i<N;i++) V_EQ(gsl_vector_get(o->weights,i),gsl_vector_get(d->weights,i),"weights","%d",i); } else V_CHECK(!o->weights,"weights","weights from nowhere");
    apop_data *page=apop_data_get_page(o,"<binspec>"); if (spec) V_CHECK(!page,"page","a bin spec page, though a spec was given"); else if (!V_CHECK(page,"page","no bin spec page")) goto done;
    for (int j=hv?-1:0;j<M;j++){ double w,of,mx=-INFINITY,mn=INFINITY; for (int i=0;i<N;i++){ mx=fmax(mx,apop_data_get(d,i,j)); mn=fmin(mn,apop_data_get(d,i,j)); } apop_data *q=spec?bs:page; w=apop_data_get(q,0,j); of=spec==1?0:apop_data_get(q,1,j); double cnt=bc?bc:sqrt(N);
        if (!spec){ V_EQ(of,mn,"offset","offset of column %d",j); if (mx>mn) V_CLOSE(w,(mx-mn)/cnt,1e-12,0,"width","width of column %d",j); else V_CHECK(w>0,"width","width %g of a constant column",w); }
        double tol=1e-12*(fabs(mx)+fabs(mn)+fabs(of)+w); if (ints&&spec) tol=0;
        for (int i=0;i<N;i++){ double x=apop_data_get(d,i,j),e=apop_data_get(o,i,j); V_CLOSE(e,of+w*floor((e-of)/w+.5),1e-12,tol,"edge","%g is not on the grid",e); int istop= top&&x==mx&&x!=of; V_CHECK(e<=x+tol&&(istop?x<=e+w+tol:x<e+w+tol),"bin","%.12g was put in the bin from %.12g of width %.12g",x,e,w);
            if (istop&&fabs((x-of)/w-round((x-of)/w))<1e-14&&fabs(x-of)>w*.5) V_CHECK(e<x-w*.5,"top","the largest value, %.12g, has a bin of its own",x); if (!spec&&bc&&top) V_CHECK((e-of)/w<bc-.5,"count","%.12g is in bin %g of %d",x,(e-of)/w,bc); v_ev("binned"); } }
    if (!spec){ apop_data *o2=apop_data_to_bins(d,page); for (int j=hv?-1:0;j<M;j++){ double mx=-INFINITY; for (int i=0;i<N;i++) mx=fmax(mx,apop_data_get(d,i,j)); for (int i=0;i<N;i++) if (apop_data_get(d,i,j)!=mx) V_CLOSE(apop_data_get(o2,i,j),apop_data_get(o,i,j),1e-12,1e-300,"snap","%d,%d snapped to the same grid",i,j); } apop_data_free(o2); }
    done: apop_data_free(o); apop_data_free(bs); apop_data_free(d); if (vflip(.01)) V_CHECK(!apop_data_to_bins(NULL),"null","NULL");
}
static int eqd(double a,double b){ return a==b||(isnan(a)&&isnan(b)); }
static int hv_,M_,T_; 
static int samerow(apop_data *a,int i,apop_data *b,int k){ for (int j=hv_?-1:0;j<M_;j++) if (!eqd(apop_data_get(a,i,j),apop_data_get(b,k,j))) return 0; for (int j=0;j<T_;j++) if (strcmp(a->text[i][j],b->text[k][j])) return 0; return 1; }
static apop_data *dups(int N,int nan,int numeric,int distinct){ hv_=vflip(.5); M_=vi(0,2); T_=numeric?0:vi(0,2); if (!hv_&&!M_&&!T_) M_=1; retry:; apop_data *d=apop_data_alloc(hv_?N:0,M_?N:0,M_); if (T_) apop_text_alloc(d,N,T_); static const char *w[]={"a","b","","A"}; for (int i=0;i<N;i++){ int tries=0; again: for (int j=hv_?-1:0;j<M_;j++) apop_data_set(d,i,j,nan&&vflip(.2)?NAN:vi(0,distinct?9+tries:1)); for (int j=0;j<T_;j++) apop_text_set(d,i,j,"%s",vpick(w)); if (distinct) for (int k=0;k<i;k++) if (samerow(d,i,d,k)){ if (tries++>200){ apop_data_free(d); N=N>2?N/2:1; goto retry; } goto again; } } return d; }
static void f_compress(void){
    int N=vflip(.1)?vi(20,60):vi(1,12); apop_data *d=dups(N,vflip(.2),0,0); int wt=vflip(.5); char b[30]; if (wt){ d->weights=gsl_vector_alloc(N); for (int i=0;i<N;i++) gsl_vector_set(d->weights,i,vflip(.5)?vi(0,5):vd(0,3)); } if (vflip(.3)) for (int i=0;i<N;i++){ sprintf(b,"r%d",i); apop_name_add(d->names,b,'r'); } if (vflip(.3)) for (int i=0;i<M_;i++){ sprintf(b,"c%d",i); apop_name_add(d->names,b,'c'); }
    vh_sig_data(d); v_desc("%d rows, v%d m%d t%d%s",N,hv_,M_,T_,wt?", weighted":""); apop_data *o=apop_data_copy(d); int first[60],n=0; L w[60]; for (int i=0;i<N;i++){ int k; for (k=0;k<n;k++) if (samerow(d,i,d,first[k])) break; if (k==n){ first[n]=i; w[n++]=0; } w[k]+=wt?gsl_vector_get(d->weights,i):1; }
    apop_data *r=apop_data_pmf_compress(o); V_CHECK(r==o,"same","the return is not the input"); if (V_CHECK(vh_rows(o)==n&&o->weights&&(int)o->weights->size==n,"rows","%d rows, want %d",vh_rows(o),n)) for (int k=0;k<n;k++){ V_CHECK(samerow(o,k,d,first[k]),"row","row %d is not the %dth distinct row",k,k); V_CLOSE(gsl_vector_get(o->weights,k),w[k],1e-12,0,"weight","row %d",k); if (d->names->rowct) V_STR(o->names->row[k],d->names->row[first[k]],"rowname","%d",k); v_ev("classes"); } V_EQ(o->names->colct,d->names->colct,"colnames","column names");
    if (d->names->rowct) V_EQ(o->names->rowct,n,"rowname","row names"); v_evn("rows",N); apop_data_free(o); apop_data_free(d);
}
static void f_pmf(void){
    int N=vflip(.15)?vi(20,50):vi(1,8); apop_data *d=dups(N,0,vflip(.7),1); N=vh_rows(d); gsl_matrix *wm=NULL; int wt=vi(0,2); L W=0; double w[60]; for (int i=0;i<N;i++) w[i]=1; if (wt){ double sc=vpick(((double[]){1,1,100,1e-3})); for (int i=0;i<N;i++) w[i]=(vflip(.2)&&i<N-1?0:vflip(.5)?vi(1,5):vd(.1,3))*sc; if (N==1&&w[0]==0) w[0]=1; if (wt==2){ wm=gsl_matrix_alloc(N,3); gsl_matrix_set_all(wm,77); d->weights=malloc(sizeof(gsl_vector)); *d->weights=gsl_matrix_column(wm,1).vector; } else d->weights=gsl_vector_alloc(N); for (int i=0;i<N;i++) gsl_vector_set(d->weights,i,w[i]); } for (int i=0;i<N;i++) W+=w[i];
    vh_sig_data(d); v_desc("%d rows, v%d m%d t%d, weights %d",N,hv_,M_,T_,wt); int index=T_&&!hv_&&!M_?1:vflip(.2); apop_model *base=apop_model_copy(apop_pmf); if (index){ Apop_model_add_group(base,apop_pmf,.draw_index='y'); base->dsize=1; }
    // sometimes an earlier estimate, with draws, on other data: its tallies must not leak into this one
    apop_data *other=NULL; apop_model *m0=base; if (vflip(.3)){ other=apop_data_falloc((3,3,1),1,1,2,2,3,3); other->weights=apop_vector_copy(Apop_cv(other,0)); apop_model *m1=apop_estimate(other,base); double junk[5]; gsl_rng *r=apop_rng_alloc(1); apop_draw(junk,r,m1); apop_cdf(Apop_r(other,1),m1); gsl_rng_free(r); m0=apop_model_copy(m1); m0->dsize=base->dsize; apop_model_free(m1); m0->data=NULL; }
    apop_model *m=apop_estimate(d,m0); if (m0!=base) apop_model_free(m0); if (!V_CHECK(m&&!m->error,"estimate","no estimate")) goto done;
    V_CHECK(m->data==d,"data","the estimate does not link the data"); if (!index) V_EQ(m->dsize,hv_+M_,"dsize","draw size");
    for (int i=0;i<N;i++){ apop_data *row=Apop_r(d,i); double p=apop_p(row,m); V_CLOSE(p,w[i]/W,1e-13,0,"p","p of row %d",i); if (w[i]) V_CLOSE(apop_log_likelihood(row,m),logl(w[i]/W),1e-12,1e-12,"ll","log likelihood of row %d",i); v_ev("probabilities"); }
    { int a=vi(0,N-1),k=vi(1,N-a); apop_data *rows=Apop_rs(d,a,k); L p=1; for (int i=a;i<a+k;i++) p*=w[i]/W; V_CLOSE(apop_p(rows,m),p,1e-11,1e-300,"joint","p of %d rows",k); }
    { apop_data *x=apop_data_copy(Apop_r(d,0)); if (hv_) apop_data_set(x,0,-1,-999); else if (M_) apop_data_set(x,0,M_-1,-999); else apop_text_set(x,0,T_-1,"no such thing"); V_EQ(apop_p(x,m),0,"absent","p of a value not in the data"); V_EQ(apop_cdf(x,m),0,"absent","CDF of a value not in the data"); if (M_||hv_) V_CHECK(apop_log_likelihood(x,m)==-INFINITY,"absent","log likelihood of a value not in the data"); apop_data_free(x); }
    { /* rows that agree with a row of the data as far as they go, but have more parts or columns, or fewer, are not in the data */
      int v2=vflip(.3)?!hv_:hv_,m2=vflip(.3)?vi(0,M_+1):M_,t2=vflip(.3)?vi(0,T_+1):T_,k=vi(0,N-1); if ((v2!=hv_||m2!=M_||t2!=T_)&&v2+m2+t2>0){ apop_data *x=apop_data_alloc(); if (v2){ x->vector=gsl_vector_alloc(1); gsl_vector_set(x->vector,0,hv_?apop_data_get(d,k,-1):vi(0,2)); } if (m2){ x->matrix=gsl_matrix_alloc(1,m2); for (int j=0;j<m2;j++) gsl_matrix_set(x->matrix,0,j,j<M_?apop_data_get(d,k,j):vi(0,2)); } if (t2){ apop_text_alloc(x,1,t2); for (int j=0;j<t2;j++) apop_text_set(x,0,j,"%s",j<T_?d->text[k][j]:"more"); }
        V_EQ(apop_p(x,m),0,"shape","p of a row of shape v%d m%d t%d",v2,m2,t2); V_EQ(apop_cdf(x,m),0,"shape","CDF of a row of shape v%d m%d t%d",v2,m2,t2); v_ev("other_shapes"); apop_data_free(x); } }
    { L cum=0; for (int i=0;i<N;i++){ cum+=w[i]/W; V_CLOSE(apop_cdf(Apop_r(d,i),m),cum,1e-12,1e-15,"cdf","CDF at row %d",i); } }
    { int draws=800,cnt[60]={0}; gsl_rng *r=apop_rng_alloc(vi(1,1<<30)); apop_model *mm=vflip(.3)?apop_model_copy(m):m; for (int q=0;q<draws;q++){ double x[6]={-88,-88,-88,-88,-88,-88}; if (!V_CHECK(!apop_draw(x,r,mm),"drawfail","a draw failed")) break; int k; if (index) k=x[0]; else { for (k=0;k<N;k++){ int j=0,ok=1; if (hv_) ok&=x[j++]==apop_data_get(d,k,-1); for (int c=0;c<M_;c++) ok&=x[j++]==apop_data_get(d,k,c); if (ok) break; } V_EQ(x[hv_+M_],-88,"overrun","a draw wrote past its size"); } if (!V_CHECK(k>=0&&k<N,"draw","a draw that is not a row of the data")) break; if (T_&&!index) for (int k2=0;k2<N;k2++){ int dup=k2!=k; for (int c=hv_?-1:0;c<M_;c++) dup&=apop_data_get(d,k,c)==apop_data_get(d,k2,c); if (dup) w[k2]=w[k2]; } cnt[k]++; }
      if (!T_||index) for (int k=0;k<N;k++){ double p=w[k]/W; if (p==0) V_EQ(cnt[k],0,"zerodraw","row %d has no weight, but was drawn",k); V_CHECK(fabs(cnt[k]-draws*p)<=6*sqrt(draws*p*(1-p))+1,"frequency","row %d: %d of %d draws, weight %g",k,cnt[k],draws,p); } v_evn("draws",draws); if (mm!=m) apop_model_free(mm); gsl_rng_free(r); }
    done: apop_model_free(m); apop_model_free(base); apop_data_free(other); if (wm){ free(d->weights); d->weights=NULL; gsl_matrix_free(wm); } apop_data_free(d);
}
static void f_topmf(void){ apop_model *n=apop_model_set_parameters(apop_normal,vnorm(),exp(vnorm())); long k=vi(50,400); int bc=vi(2,20); v_desc("%ld draws, %d bins",k,bc); v_sigd(apop_data_get(n->parameters,0)); v_sigd(k); apop_model *m=apop_model_to_pmf(n,.draws=k,.bin_count=bc); if (V_CHECK(m&&m->data&&m->data->weights,"none","no PMF")){ V_CLOSE(apop_sum(m->data->weights),1,0,1e-12,"total","total weight"); V_CHECK((int)m->data->weights->size<=bc,"bins","%zu bins of %d",m->data->weights->size,bc); L s=0; for (int i=0;i<(int)m->data->weights->size;i++) s+=apop_p(Apop_r(m->data,i),m); V_CLOSE((double)s,1,0,1e-12,"sum","sum of p over the bins"); v_ev("model_pmfs"); } apop_data_free(m->data); apop_model_free(m); apop_model_free(n); }
vh_family vh_families[]={{"bins",f_bins,4000,150000},{"compress",f_compress,3000,100000},{"pmf",f_pmf,800,25000},{"model",f_topmf,150,4000},{NULL}};
