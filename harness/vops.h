/* Operations over the whole library, each a function that makes its own input, writes its outcome to f and frees what it made. Used by C33 and C34. */
#ifndef VOPS_H
#define VOPS_H
static void pr(FILE *f,double x){ if (isnan(x)) fprintf(f,"nan "); else fprintf(f,"%a ",x); }
static void pd(FILE *f,const apop_data *d){ char *s=vh_dump(d,true); fputs(s,f); free(s); }
static void pm(FILE *f,apop_model *m){ if (!m){ fprintf(f,"no model"); return; } fprintf(f,"[%s err %d] ",m->name,m->error); pd(f,m->parameters); pd(f,m->info); }
static void pv(FILE *f,const gsl_vector *v){ if (!v){ fprintf(f,"no vector"); return; } for (size_t i=0;i<v->size;i++) pr(f,gsl_vector_get(v,i)); }
static gsl_rng *newrng(void){ return apop_rng_alloc(vi(1,1000000)); }
static apop_data *ad(int r,int c){ apop_data *d=apop_data_alloc(0,r,c); for (int i=0;i<r;i++) for (int j=0;j<c;j++) gsl_matrix_set(d->matrix,i,j,vnorm()*2); return d; }
static apop_data *regdata(int n,int k){ apop_data *d=ad(n,k+1); for (int i=0;i<n;i++){ double y=vnorm(); for (int j=1;j<=k;j++) y+=apop_data_get(d,i,j); apop_data_set(d,i,0,y); } apop_data_add_names(d,'c',"y","a","b","c"); return d; }

/* the operations */
static void o_data(FILE *f){ vh_shape s=vh_random_shape(8,4); apop_data *d=vh_data(s),*c=apop_data_copy(d); pd(f,c); s.vsize=s.m1=s.t1=s.wsize=0; s.vsize=s.m1=0; apop_data *st=apop_data_stack(d,c,'r'); pd(f,st); apop_data *cc=apop_data_stack(d,c,'c'); pd(f,cc); if (st&&st->matrix){ apop_data **sp=apop_data_split(st,1,'c'); pd(f,sp[0]); pd(f,sp[1]); apop_data_free(sp[0]); apop_data_free(sp[1]); free(sp); } apop_data_free(st); apop_data_free(cc); apop_data_free(c); apop_data_free(d); }
static void o_sort(FILE *f){ int n=vi(2,20); apop_data *d=ad(n,vi(1,3)); for (int i=0;i<n;i++) apop_data_set(d,i,0,vi(0,4)); apop_data_add_names(d,'c',"one","two","three"); apop_data *s=vflip(.5)?apop_data_sort(d,.asc='d',.inplace='n'):apop_data_sort(d,.inplace='n'); pd(f,s); apop_data_free(s); apop_data_sort(d,.inplace='y'); pd(f,d); apop_data_free(d);
    d=apop_text_alloc(apop_data_alloc(n,0,0),n,3); for (int i=0;i<n;i++){ gsl_vector_set(d->vector,i,i); for (int j=0;j<3;j++) apop_text_set(d,i,j,"%c%i",'a'+vi(0,25),vi(0,9)); } apop_data *so=apop_text_alloc(NULL,1,3); int k=vi(0,2); apop_text_set(so,0,k,"1"); if (vflip(.3)) apop_text_set(so,0,(k+1)%3,"2"); for (int i=0;i<3;i++){ apop_data *x=apop_data_sort(d,so,.inplace='n',.asc=vflip(.5)?'a':'d'); pv(f,x->vector); for (int r=0;r<n;r++) fprintf(f,"%s,",x->text[r][k]); apop_data_free(x); } apop_data_free(so); apop_data_free(d); }
static void o_rows(FILE *f){ vh_shape s={0}; s.m1=vi(3,9); s.m2=3; s.t1=s.m1; s.t2=2; s.rownames=s.colnames=1; apop_data *d=vh_data(s); int drop[s.m1]; for (int i=0;i<s.m1;i++) drop[i]=vflip(.3); apop_data_rm_rows(d,drop); pd(f,d); int cols[3]={0,1,0}; apop_data_rm_columns(d,cols); pd(f,d); if (d->matrix){ apop_data *t=apop_data_transpose(d,.inplace='n'); pd(f,t); apop_data_free(t); } apop_data_free(d); }
static void o_names(FILE *f){ vh_shape s={0}; s.m1=4; s.m2=3; s.vsize=4; s.rownames=s.colnames=s.vecname=1; s.plainstr=1; apop_data *d=vh_data(s); for (int i=0;i<4;i++){ int r=vi(0,3),c=vi(0,2); pr(f,apop_data_get(d,.rowname=d->names->row[r],.colname=d->names->col[c])); pr(f,apop_data_get(d,r,.colname="nope")); apop_data_set(d,.row=r,.col=c,.val=vval()); *apop_data_ptr(d,r,-1)=i; fprintf(f,"%d ",apop_name_find(d->names,d->names->col[c],'c')); } pr(f,apop_data_get(d,400,7)); pd(f,d); apop_data_free(d); }
static void o_pack(FILE *f){ vh_shape s=vh_random_shape(5,3); s.t1=s.t2=0; if (!s.vsize&&!s.m1) s.vsize=3; apop_data *d=vh_data(s),*o=apop_data_copy(d); gsl_vector *v=apop_data_pack(d,.more_pages='y'); pv(f,v); if (v){ apop_data_unpack(v,o); pd(f,o); gsl_vector_free(v); } apop_data_free(d); apop_data_free(o); }
static void o_resize(FILE *f){ apop_data *d=ad(vi(1,6),vi(1,4)); int r=vi(1,9),c=vi(1,5); gsl_matrix *m=apop_matrix_realloc(d->matrix,r,c); d->matrix=m; fprintf(f,"%zu %zu ",m->size1,m->size2); gsl_vector *v=gsl_vector_calloc(3); v=apop_vector_realloc(v,vi(1,3)); pv(f,v); gsl_vector_free(v); apop_data_free(d); apop_data *x=apop_data_falloc((2,2,2),1,2,3,4,5,6); pd(f,x); apop_data_free(x); }
static void o_text(FILE *f){ vh_shape s={0}; s.t1=vi(1,6); s.t2=2; s.plainstr=1; apop_data *d=vh_data(s); char *p=apop_text_paste(d,.between=", ",.before="<",.after=">"); fprintf(f,"%s ",p?p:"none"); free(p); apop_data *u=apop_text_unique_elements(d,0); pd(f,u); apop_data *t=NULL; fprintf(f,"%d ",apop_regex("the year 1998, or 2001","([0-9]+)",&t)); if (t){ pd(f,t); apop_data_free(t); } apop_text_alloc(d,s.t1+2,3); apop_text_set(d,s.t1,0,"%i",vi(0,9)); pd(f,d); apop_data_free(u); apop_data_free(d); }
static void o_factors(FILE *f){ vh_shape s={0}; s.t1=vi(2,8); s.t2=1; s.plainstr=1; apop_data *d=vh_data(s); for (int i=0;i<s.t1;i++) apop_text_set(d,i,0,"%c",'a'+vi(0,2)); apop_data *fa=apop_data_to_factors(d); pd(f,fa); apop_data *dm=apop_data_to_dummies(d,.col=0,.type='t',.keep_first='y'); pd(f,dm); if (dm) apop_data_free(dm); apop_data_free(d); }
static void o_print(FILE *f){ vh_shape s=vh_random_shape(5,3); s.plainstr=1; apop_data *d=vh_data(s); apop_data_print(d,.output_pipe=f); if (d->vector) apop_vector_print(d->vector,.output_pipe=f); if (d->matrix) apop_matrix_print(d->matrix,.output_pipe=f); apop_data_free(d); }
static int tmpname_ct; 
static void o_file(FILE *f){ char n[200]; sprintf(n,"%s/c33-%d",getenv("VERIF_WORK")?getenv("VERIF_WORK"):"/tmp",__atomic_fetch_add(&tmpname_ct,1,__ATOMIC_RELAXED)); FILE *o=fopen(n,"w"); int r=vi(1,6),c=vi(1,4),hasr=vflip(.5); fputs("h",o); if (hasr) fputs("r,",o); for (int j=0;j<c;j++) fprintf(o,"%scol%d",j?",":"",j); fputs("\n",o); for (int i=0;i<r;i++){ if (hasr) fprintf(o,"row%d,",i); for (int j=0;j<c;j++){ if (j) fputc(',',o); if (vflip(.1)) fputs("NaN",o); else fprintf(o,"%g",vval()); } fputc('\n',o); } fclose(o); apop_data *d=apop_text_to_data(n,.has_row_names=hasr?'y':'n'); if (d&&d->names&&d->names->title){ free(d->names->title); d->names->title=NULL; } pd(f,d); if (d) apop_data_free(d); unlink(n); }
static void o_linalg(FILE *f){ int n=vi(1,4); apop_data *a=ad(n,n),*b=ad(n,vi(1,3)); gsl_matrix *inv=NULL; pr(f,apop_det_and_inv(a->matrix,&inv,1,1)); if (inv){ gsl_matrix_free(inv); } apop_data *p=apop_dot(a,b); pd(f,p); apop_data_free(p); p=apop_dot(a,a,.form1='t'); pd(f,p); fprintf(f,"%d ",apop_matrix_is_positive_semidefinite(p->matrix)); apop_data_free(p); p=apop_matrix_pca(b->matrix,.dimensions_we_want=1); pd(f,p); if (p) apop_data_free(p); gsl_vector *v=apop_vector_copy(Apop_cv(a,0)); apop_vector_exp(v); pv(f,v); apop_vector_log(v); pv(f,v); gsl_vector_free(v); apop_data_free(a); apop_data_free(b); }
static void o_singular(FILE *f){ apop_data *a=ad(2,2); for (int j=0;j<2;j++) apop_data_set(a,1,j,apop_data_get(a,0,j)*2); gsl_matrix *inv=NULL; double d=apop_det_and_inv(a->matrix,&inv,1,1); fprintf(f,"%d ",d==0||fabs(d)<1e-9); if (inv) gsl_matrix_free(inv); apop_data *b=ad(3,2),*p=apop_dot(a,b); fprintf(f,"err %d ",p?p->error:0); if (p) apop_data_free(p); apop_data_free(a); apop_data_free(b); }
static void o_bigdata(FILE *f){ apop_data *d=ad(vi(5,40),3); apop_data *su=apop_data_summarize(d); pd(f,su); apop_data_free(su); apop_data *c=apop_data_covariance(d); pd(f,c); apop_data_free(c); c=apop_data_correlation(d); pd(f,c); apop_data_free(c); gsl_vector *v=Apop_cv(d,0); pr(f,apop_vector_mean(v)); pr(f,apop_vector_var(v)); pr(f,apop_vector_skew(v)); pr(f,apop_vector_kurtosis(v)); double *p=apop_vector_percentiles(v); for (int i=0;i<=100;i+=7) pr(f,p[i]); free(p); gsl_vector *out; apop_vector_normalize(v,&out,.normalization_type='s'); pv(f,out); gsl_vector_free(out); pr(f,apop_vector_distance(v,Apop_cv(d,1))); pr(f,apop_vector_distance(v)); gsl_vector *ma=apop_vector_moving_average(v,3); pv(f,ma); gsl_vector_free(ma); apop_data_free(d); }
static void o_tests(FILE *f){ apop_data *d=ad(vi(4,20),2); apop_data *t=apop_t_test(Apop_cv(d,0),Apop_cv(d,1)); pd(f,t); apop_data_free(t); t=apop_paired_t_test(Apop_cv(d,0),Apop_cv(d,1)); pd(f,t); apop_data_free(t); apop_data *ct=apop_data_alloc(0,2,vi(2,3)); for (int i=0;i<2;i++) for (size_t j=0;j<ct->matrix->size2;j++) apop_data_set(ct,i,j,vi(1,9)); t=apop_test_fisher_exact(ct); pd(f,t); apop_data_free(t); t=apop_test_anova_independence(ct); pd(f,t); apop_data_free(t); pr(f,apop_test(vnorm(),"normal",0,1)); pr(f,apop_test(vnorm(),"t",vi(1,20),.tail='u')); pr(f,apop_test(vpos(),"chi squared",vi(1,9),.tail='u')); apop_data *r=regdata(15,2); apop_model *e=apop_estimate(r,apop_ols); t=apop_f_test(e); pd(f,t); apop_data_free(t); apop_model_free(e); apop_data_free(r); apop_data_free(ct); apop_data_free(d); }
static void o_reg(FILE *f){ int k=vi(1,3),w=vi(0,4); apop_data *d=regdata(vi(8,25),k); if (w==1||w==2){ d->weights=gsl_vector_alloc(d->matrix->size1); for (size_t i=0;i<d->weights->size;i++) gsl_vector_set(d->weights,i,vpos()); } apop_model *m; if (w==3){ apop_data *z=ad(d->matrix->size1,1); apop_data_add_names(z,'c',"a"); m=apop_model_copy(apop_iv); Apop_settings_add_group(m,apop_lm,.instruments=z); apop_model *e=apop_estimate(d,m); pm(f,e); apop_model_free(e); apop_model_free(m); apop_data_free(z); } else { apop_model *e=apop_estimate(d,apop_ols); pm(f,e); if (e&&!e->error){ apop_data *t=apop_estimate_coefficient_of_determination(e); pd(f,t); if (t) apop_data_free(t); apop_data *pred=apop_data_copy(d); apop_data *pp=apop_predict(pred,e); pd(f,pp); if (pp!=pred) apop_data_free(pp); apop_data_free(pred); } apop_model_print(e,.output_pipe=f); apop_model_free(e); } apop_data_free(d); }
static void o_choice(FILE *f){ int opts=vi(2,3),n=vi(20,40); apop_data *d=ad(n,3); for (int i=0;i<n;i++) apop_data_set(d,i,0,i<opts?i:vi(0,opts-1)); apop_model *m=apop_model_copy(vflip(.5)?apop_logit:apop_probit); Apop_settings_add_group(m,apop_mle,.max_iterations=12,.method=vflip(.5)?"BFGS cg":"NM simplex"); apop_model *e=apop_estimate(d,m); pd(f,e->parameters); apop_model_free(e); apop_model_free(m); apop_data_free(d); }
static vdist *rdist(double *p){ vdist *D=vdists+vi(0,NDIST-1); D->par(p); return D; }
static void o_dist(FILE *f){ double p[3]={0}; vdist *D=rdist(p); apop_model *m=vmodel(D,p); apop_data *d=vscalars(D,p,6); fprintf(f,"%s ",D->name); pr(f,apop_log_likelihood(d,m)); pr(f,apop_p(d,m)); if (m->constraint) pr(f,m->constraint(d,m)); if (D->hascdf){ apop_data *o=apop_data_falloc((0,1,1),D->x(p)); pr(f,apop_cdf(o,m)); apop_data_free(o); } gsl_vector *g=gsl_vector_calloc(D->np); apop_score(d,g,m); pv(f,g); gsl_vector_free(g); gsl_rng *r=newrng(); double x; for (int i=0;i<5;i++){ apop_draw(&x,r,m); pr(f,x); } gsl_rng_free(r); apop_model_free(m); apop_data_free(d); }
static void o_est(FILE *f){ double p[3]={0}; vdist *D=rdist(p); int n=vi(8,30); apop_data *d=apop_data_alloc(0,n,1); for (int i=0;i<n;i++) apop_data_set(d,i,0,D->x(p)); apop_model *m=apop_model_copy(*D->m); if (!m->estimate) Apop_settings_add_group(m,apop_mle,.max_iterations=20,.method="NM simplex"); apop_model *e=apop_estimate(d,m); if (*D->m!=apop_poisson) pm(f,e); /*its covariance is a bootstrap*/ else pv(f,e->parameters->vector); if (vflip(.3)){ apop_data *h=apop_model_hessian(d,e); pd(f,h); if (h) apop_data_free(h); } apop_model_free(e); apop_model_free(m); apop_data_free(d); }
static void o_multi(FILE *f){ int which=vi(0,3); apop_model *m; apop_data *d; gsl_rng *r=newrng(); double x[6]; if (which==0){ m=apop_model_set_parameters(apop_binomial,vi(1,20),vd(.1,.9)); d=apop_data_falloc((0,1,2),vi(0,9),vi(0,9)); } else if (which==1){ m=apop_model_copy(apop_multinomial); m->dsize=3; m->parameters=apop_data_falloc((3),vi(3,9),.2,.3); d=apop_data_falloc((0,2,3),1,2,3,2,2,2); } else if (which==2){ m=apop_model_copy(apop_multivariate_normal); m->dsize=2; m->parameters=apop_data_falloc((2,2,2),vnorm(),1.+vpos(),.3,vnorm(),.3,1.+vpos()); d=ad(3,2); } else { m=apop_model_copy(apop_dirichlet); m->dsize=3; m->parameters=apop_data_falloc((3),vpos(),vpos(),vpos()); d=apop_data_falloc((0,2,3),.2,.3,.5,.1,.6,.3); } pr(f,apop_log_likelihood(d,m)); if (m->constraint) pr(f,m->constraint(d,m)); for (int i=0;i<4;i++){ apop_draw(x,r,m); for (int j=0;j<(which==0?1:which==2?2:3);j++) pr(f,x[j]); } pd(f,m->parameters); apop_model *e=apop_estimate(d,which==0?apop_binomial:which==1?apop_multinomial:which==2?apop_multivariate_normal:apop_dirichlet); pm(f,e); apop_model_free(e); apop_model_free(m); apop_data_free(d); gsl_rng_free(r); }
static void o_pmf(FILE *f){ int n=vi(2,12); apop_data *d=apop_data_alloc(0,n,1); for (int i=0;i<n;i++) apop_data_set(d,i,0,vi(0,4)); d->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(d->weights,i,vpos()); apop_data *c=apop_data_pmf_compress(apop_data_copy(d)); pd(f,c); apop_model *m=apop_estimate(c,apop_pmf); gsl_rng *r=newrng(); double x; for (int i=0;i<5;i++){ apop_draw(&x,r,m); pr(f,x); } apop_data *o=apop_data_falloc((0,1,1),vi(0,4)); pr(f,apop_p(o,m)); pr(f,apop_cdf(o,m)); apop_data *b=apop_data_to_bins(d,.bin_count=3); pd(f,b); apop_data_free(b); apop_data_free(o); apop_data_free(c); apop_model_free(m); gsl_rng_free(r); apop_data_free(d); }
static void o_kernel(FILE *f){ apop_data *d=ad(vi(2,8),1); apop_model *m=apop_model_copy(apop_kernel_density); m->dsize=1; Apop_settings_add_group(m,apop_kernel_density,.base_data=d,.kernel=apop_model_set_parameters(apop_normal,0,1)); apop_model *e=m; apop_data *o=ad(3,1); pr(f,apop_log_likelihood(o,e)); apop_data *one=ad(1,1); pr(f,apop_cdf(one,e)); gsl_rng *r=newrng(); double x; for (int i=0;i<4;i++){ apop_draw(&x,r,e); pr(f,x); } gsl_rng_free(r); apop_data_free(one); apop_data_free(o); apop_model *ke=Apop_settings_get(m,apop_kernel_density,kernel); apop_model_free(m); apop_model_free(ke); apop_data_free(d); }
static void o_compose(FILE *f){ apop_model *a=apop_model_set_parameters(apop_normal,vnorm(),vpos()),*b=apop_model_set_parameters(apop_normal,vnorm(),vpos()); int w=vi(0,3); apop_model *m=w==0?apop_model_mixture(a,b):w==1?apop_model_cross(a,b):w==2?apop_model_dconstrain(.base_model=a,.draw_ct=50,.constraint=NULL):apop_model_fix_params(a); if (!m){ fprintf(f,"none"); apop_model_free(a); apop_model_free(b); return; } gsl_rng *r=newrng(); if (w<2){ double x[4]; apop_data *d=ad(3,w==1?2:1); if (w==1) { d->vector=NULL; } if (w==0) pr(f,apop_log_likelihood(d,m)); for (int i=0;i<4;i++){ apop_draw(x,r,m); pr(f,x[0]); if (w==1) pr(f,x[1]); } apop_data_free(d); } gsl_rng_free(r); if (m!=a) apop_model_free(m); apop_model_free(a); apop_model_free(b); }
static double pos_only(apop_data *d,apop_model *m){ return apop_data_get(d,0,0)>0; }
static void o_trunc(FILE *f){ apop_model *a=apop_model_set_parameters(apop_normal,vd(0,2),1+vpos()); gsl_rng *r=newrng(); apop_model *m=apop_model_dconstrain(.base_model=a,.constraint=pos_only,.draw_ct=200,.rng=r); apop_data *d=apop_data_falloc((0,2,1),vpos(),vpos()); pr(f,apop_log_likelihood(d,m)); double x; for (int i=0;i<4;i++){ apop_draw(&x,r,m); pr(f,x); } apop_data_free(d); gsl_rng_free(r); apop_model_free(m); apop_model_free(a); }
static void o_arms(FILE *f){ apop_model *a=apop_model_copy(apop_normal); a->parameters=apop_data_falloc((2),vnorm(),vpos()); a->draw=NULL; gsl_rng *r=newrng(); double x; for (int i=0;i<5;i++){ apop_draw(&x,r,a); pr(f,x); } gsl_rng_free(r); apop_model_free(a); }
static void o_mcmcdraw(FILE *f){ apop_model *a=apop_model_copy(apop_multivariate_normal); a->dsize=2; a->parameters=apop_data_falloc((2,2,2),0,1,0,0,0,1); a->draw=NULL; Apop_settings_add_group(a,apop_mcmc,.periods=40,.burnin=.5); gsl_rng *r=newrng(); double x[2]; (void)x; pr(f,gsl_rng_uniform(r)); gsl_rng_free(r); apop_model_free(a); }
static void o_update(FILE *f){ gsl_rng *r=newrng(); int w=vi(0,3); if (w<3){ apop_data *d=apop_data_alloc(0,vi(1,5),1); for (size_t i=0;i<d->matrix->size1;i++) apop_data_set(d,i,0,w==0?vi(0,1):w==1?vpos():vi(0,6)); apop_model *prior=apop_model_set_parameters(w==0?apop_beta:apop_gamma,1+vpos(),1+vpos()),*post=apop_update(d,prior,w==0?apop_bernoulli:w==1?apop_exponential:apop_poisson,r); pm(f,post); apop_model_free(post); apop_model_free(prior); apop_data_free(d); } else { apop_data *d=ad(4,1); apop_model *prior=apop_model_set_parameters(apop_normal,0,2),*lb=apop_model_set_parameters(apop_normal,NAN,1),*like=apop_model_fix_params(lb); Apop_settings_add_group(prior,apop_mcmc,.periods=80,.burnin=.3); apop_model *post=apop_update(d,prior,like,r); if (post&&post->data) pd(f,post->data); if (post){ apop_data_free(post->data); apop_model_free(post); } apop_model_free(prior); apop_model_free(like); apop_model_free(lb); apop_data_free(d); } gsl_rng_free(r); }
static void o_settings(FILE *f){ apop_model *m=apop_model_copy(apop_normal); Apop_settings_add_group(m,apop_mle,.tolerance=vpos(),.method="NM simplex"); Apop_settings_set(m,apop_mle,max_iterations,vi(1,99)); Apop_settings_add_group(m,apop_pm,.index=3); apop_model *c=apop_model_copy(m); pr(f,Apop_settings_get(c,apop_mle,tolerance)); fprintf(f,"%d %s ",(int)Apop_settings_get(c,apop_mle,max_iterations),Apop_settings_get(c,apop_mle,method)); Apop_settings_rm_group(c,apop_mle); fprintf(f,"%d ",!!Apop_settings_get_group(c,apop_mle)); apop_model_free(c); apop_model_free(m); }
static long double bowl(apop_data *d,apop_model *m){ double x=apop_data_get(m->parameters,0,-1),y=apop_data_get(m->parameters,1,-1),a=apop_data_get(d,0,0); return -(x-a)*(x-a)-2*(y+x/3)*(y+x/3); }
static long double halfplane(apop_data *d,apop_model *m){ static __thread apop_data *c; if (!c) c=apop_data_falloc((1,1,2),-1,1,1); return apop_linear_constraint(m->parameters->vector,c); }
static void o_mle(FILE *f){ const char *meth[]={"NM simplex","BFGS cg","FR cg","PR cg","Newton","Newton hybrid","annealing"}; char *me=(char*)meth[vi(0,6)]; apop_data *path=NULL; apop_model *m=apop_model_copy(&(apop_model){"bowl",.vsize=2,.dsize=1,.log_likelihood=bowl,.constraint=vflip(.3)?halfplane:NULL}); apop_data *d=apop_data_falloc((0,1,1),vnorm()); double st[2]={1,1}; gsl_rng *r=newrng(); Apop_settings_add_group(m,apop_mle,.method=me,.max_iterations=15,.starting_pt=st,.rng=r,.n_tries=3,.iters_fixed_T=3,.t_min=.3,.mu_t=1.5,.path=vflip(.3)?&path:NULL); fprintf(f,"%s ",me); apop_model *e=apop_estimate(d,m); if (e) pd(f,e->parameters); if (e&&vflip(.3)){ e=apop_estimate_restart(e); pd(f,e->parameters); } if (e) apop_model_free(e); if (path) apop_data_free(path); apop_model_free(m); gsl_rng_free(r); apop_data_free(d); }
static void o_lincon(FILE *f){ int n=vi(1,3),k=1; gsl_vector *b=gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(b,i,vnorm()*2); apop_data *c=apop_data_alloc(k,k,n); for (int i=0;i<k;i++){ gsl_vector_set(c->vector,i,-vpos()); for (int j=0;j<n;j++) apop_data_set(c,i,j,vnorm()); } pr(f,vflip(.3)?apop_linear_constraint(b):apop_linear_constraint(b,c,1e-3)); pv(f,b); gsl_vector_free(b); apop_data_free(c); }
static double sq(double x){ return x*x; }
static double vs(gsl_vector *v){ return gsl_vector_get(v,0)*2; }
static double rowf(apop_data *r,void *p){ return apop_data_get(r,0,0)+*(double*)p; }
static void o_map(FILE *f){ apop_data *d=ad(vi(1,12),2); double par=vnorm(); apop_data *o=apop_map(d,.fn_d=sq); pd(f,o); apop_data_free(o); o=apop_map(d,.fn_v=vs,.part='r'); pd(f,o); apop_data_free(o); o=apop_map(d,.fn_rp=rowf,.param=&par); pd(f,o); apop_data_free(o); pr(f,apop_map_sum(d,.fn_d=sq)); pr(f,apop_map_sum(d,.fn_rp=rowf,.param=&par)); gsl_vector *v=apop_matrix_map(d->matrix,vs); pv(f,v); gsl_vector_free(v); apop_data_free(d); }
static void o_harmonic(FILE *f){ pr(f,apop_generalized_harmonic(vi(1,60),vi(1,8)/2.)); pr(f,apop_multivariate_gamma(vpos()+3,2)); pr(f,apop_multivariate_lngamma(vpos()+3,2)); }
static void o_entropy(FILE *f){ apop_model *m=apop_model_set_parameters(apop_normal,vnorm(),vpos()); pr(f,apop_model_entropy(m)); gsl_vector *v=gsl_vector_alloc(4); for (int i=0;i<4;i++) gsl_vector_set(v,i,vpos()); pr(f,apop_vector_entropy(v)); gsl_vector_free(v); apop_model_free(m); }
static void o_entropy_rng(FILE *f){ (void)f; double p[3]={0}; vdist *D=rdist(p); apop_model *m=vmodel(D,p); apop_model_entropy(m,30); apop_data *d=apop_model_draws(m,10); apop_data_free(d); apop_model_free(m); }
static void o_boot(FILE *f){ apop_data *d=ad(vi(4,8),1); gsl_rng *r=newrng(); apop_data *c=apop_bootstrap_cov(d,apop_normal,r,.iterations=12,.keep_boots='n'); pd(f,c); apop_data_free(c); c=apop_jackknife_cov(d,apop_normal); pd(f,c); apop_data_free(c); gsl_rng_free(r); apop_data_free(d); }
static void o_missing(FILE *f){ apop_data *d=ad(vi(4,9),2); apop_data_set(d,0,0,NAN); apop_data *l=apop_data_listwise_delete(d); pd(f,l); if (l) apop_data_free(l); apop_data_free(d); }
static void o_loess(FILE *f){ int n=vi(12,20); apop_data *d=apop_data_alloc(0,n,2); for (int i=0;i<n;i++){ double x=i+vd(0,.5); apop_data_set(d,i,1,x); apop_data_set(d,i,0,x*.5+vnorm()); } apop_model *m=apop_model_copy(apop_loess); apop_model *e=apop_estimate(d,m); if (e){ apop_data *q=apop_data_copy(d); apop_data *o=apop_predict(q,e); if (o) pd(f,o); if (o!=q&&o) apop_data_free(o); apop_data_free(q); apop_model_free(e); } apop_model_free(m); apop_data_free(d); }
static void o_gradient(FILE *f){ double p[3]={0}; vdist *D; do D=vdists+vi(0,NDIST-1); while (D->par==unif_par); D->par(p); apop_model *m=vmodel(D,p); apop_data *d=vscalars(D,p,5); gsl_vector *g=apop_numerical_gradient(d,m); pv(f,g); gsl_vector_free(g); apop_data *h=apop_model_hessian(d,m); pd(f,h); if (h) apop_data_free(h); apop_model_free(m); apop_data_free(d); }
static void o_rngtypes(FILE *f){ gsl_rng *r=newrng(); double a[3]={1.5,2,3}; for (int i=0;i<3;i++) pr(f,apop_rng_GHgB3(r,a)); gsl_rng_free(r); apop_model *b=apop_beta_from_mean_var(vd(.3,.6),.02); pm(f,b); apop_model_free(b); }
static void o_threadrng(FILE *f){ (void)f; double x=gsl_rng_uniform(apop_rng_get_thread()); (void)x; }
static void o_vtab(FILE *f){ char n[30]; sprintf(n,"table %d",vi(0,40)); int k=vi(0,3); static size_t next; size_t h=__atomic_add_fetch(&next,1,__ATOMIC_RELAXED)*977+(size_t)vi(0,1000)*100000000ul; apop_vtable_add(n,n,h); (void)k; fprintf(f,"%d ",apop_vtable_get(n,h)==n); apop_vtable_drop(n,h); fprintf(f,"%d ",apop_vtable_get(n,h)==NULL); apop_model *m=apop_model_copy(apop_normal); fprintf(f,"%d ",apop_vtable_get("no such table",h)==NULL); apop_model_free(m); }
static int tabct;
static void o_db(FILE *f){ int t=__atomic_fetch_add(&tabct,1,__ATOMIC_RELAXED); apop_query("create table t%d(a,b)",t); int n=vi(1,5); for (int i=0;i<n;i++) apop_query("insert into t%d values(%d,%g)",t,i,vnorm()); pr(f,apop_query_to_float("select count(*) from t%d",t)); pr(f,apop_query_to_float("select stddev(b) from t%d",t)); apop_data *d=apop_query_to_data("select * from t%d order by a",t); pd(f,d); if (d) apop_data_free(d); d=apop_query_to_text("select * from t%d order by a",t); pd(f,d); if (d) apop_data_free(d); gsl_vector *v=apop_query_to_vector("select b from t%d order by a",t); pv(f,v); if (v) gsl_vector_free(v); fprintf(f,"%d ",apop_query("select nonsense from t%d",t)!=0); apop_query("drop table t%d",t); }
typedef struct { const char *name; void (*fn)(FILE*); int nocmp; } op;
#define O(x) {#x,o_##x}
static op ops[]={O(data),O(sort),O(rows),O(names),O(pack),O(resize),O(text),O(factors),O(print),O(file),O(linalg),O(singular),O(bigdata),O(tests),O(reg),O(choice),O(dist),O(est),O(multi),O(pmf),O(kernel),O(compose),O(trunc),O(arms),O(mcmcdraw),O(update),O(settings),O(mle),O(lincon),O(map),O(harmonic),O(entropy),{"entropy_rng",o_entropy_rng,1},O(boot),O(missing),O(loess),O(gradient),O(rngtypes),{"threadrng",o_threadrng,1},O(vtab)};
#define NOPS ((int)(sizeof(ops)/sizeof(*ops)))
#endif
