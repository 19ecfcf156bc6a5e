/* More operations, for memory only: each frees what it made, as documented. */
static apop_data *rd(int r,int c){ vh_shape s=vh_random_shape(r,c); return vh_data(s); }
static void fr(apop_data *d){ if (d) apop_data_free(d); }
static void w(const char *n){ return (void)n; }
static const char *tmpn(void){ static char n[300]; sprintf(n,"%s/c34-%d",getenv("VERIF_WORK")?getenv("VERIF_WORK"):"/tmp",(int)getpid()); return n; }
static void e_stack(FILE *f){ apop_data *a=rd(6,4),*b=vflip(.5)?apop_data_copy(a):rd(6,4); char pos=vpick("rcx"); if (!pos) pos='r'; bool in=vflip(.4); apop_data *o=apop_data_stack(vflip(.1)?NULL:a,vflip(.1)?NULL:b,pos,.inplace=in?'y':'n'); if (o!=a) fr(o); fr(a); fr(b); (void)f; }
static void e_split(FILE *f){ (void)f; apop_data *a=rd(7,5); apop_data **s=apop_data_split(a,vi(-1,9),vflip(.5)?'r':'c'); if (s){ fr(s[0]); fr(s[1]); free(s); } fr(a); }
static int rmfn(apop_data *r,void *p){ return (r->matrix?apop_data_get(r,0,0):r->vector?apop_data_get(r,0,-1):0)>*(double*)p; }
static void e_rm(FILE *f){ (void)f; apop_data *a=rd(9,5); int n=vh_rows(a),drop[20]; double z=vnorm(); for (int i=0;i<20;i++) drop[i]=vflip(.4); int k=vi(0,4); if (vflip(.1)) for (int i=0;i<20;i++) drop[i]=1; switch(k){ case 0: if (n<20) apop_data_rm_rows(a,drop); break; case 1: apop_data_rm_rows(a,.do_drop=rmfn,.drop_parameter=&z); break; case 2: if (a->matrix) apop_data_rm_columns(a,drop); break; case 3: if (a->matrix) apop_data_prune_columns(a,a->names->colct?a->names->col[0]:"none","other"); break; default: { apop_data *t=apop_data_transpose(a,.inplace=vflip(.5)?'y':'n',.transpose_text=vflip(.5)?'y':'n'); if (t!=a) fr(t); } } fr(a); }
static void e_pages(FILE *f){ (void)f; apop_data *a=rd(5,3); int n=vi(1,4); for (int i=0;i<n;i++){ char t[30]; sprintf(t,vflip(.3)?"<page %d>":"page %d",i); apop_data_add_page(a,rd(4,2),t); } apop_data *c=apop_data_copy(a); pr(f,!!apop_data_get_page(a,"page 1")+!!apop_data_get_page(a,"PAGE",.match='r')); for (int i=0;i<3;i++){ char t[30]; sprintf(t,"page %d",vi(0,4)); bool fp=vflip(.5); apop_data *p=fp?apop_data_rm_page(a,t):apop_data_rm_page(a,t,.free_p='n'); if (!fp) fr(p); } apop_data *o=apop_data_copy(c); apop_data_memcpy(o,c); fr(o); fr(a); fr(c); }
static void e_realloc(FILE *f){ (void)f; apop_data *a=rd(6,4); if (a->matrix) a->matrix=apop_matrix_realloc(a->matrix,vi(1,9),vi(1,7)); if (a->vector) a->vector=apop_vector_realloc(a->vector,vi(1,9)); if (a->weights) a->weights=apop_vector_realloc(a->weights,vi(1,9)); apop_text_alloc(a,vi(0,9),vi(0,4)); for (int i=0;i<(int)a->textsize[0];i++) for (int j=0;j<(int)a->textsize[1];j++) if (vflip(.5)) apop_text_set(a,i,j,vflip(.1)?NULL:"%i and %s",vi(0,100000),"text"); if (vflip(.3)) apop_text_alloc(a,vi(0,9),vi(0,4)); apop_data_add_names(a,'t',"x","y","z"); fr(a); }
static void e_namedelmt(FILE *f){ (void)f; apop_data *a=vflip(.5)?apop_data_alloc():rd(4,2); if (!a->matrix&&!a->textsize[0]) for (int i=0;i<vi(1,4);i++) apop_data_add_named_elmt(a,vflip(.5)?"one":"two",vnorm()); apop_name *n=apop_name_copy(a->names),*m=apop_name_alloc(); apop_name_add(m,"row",'r'); apop_name_add(m,"col",'c'); apop_name_add(m,"tit",'h'); apop_name_add(m,"tit2",'h'); apop_name_add(m,"v",'v'); apop_name_add(m,"v2",'v'); apop_name_add(m,"t",'t'); char ty=vpick("rctv"); if (!ty) ty='r'; if (vflip(.7)) apop_name_stack(n,m,ty); else apop_name_stack(n,m,'r','c'); apop_name_free(n); apop_name_free(m); fr(a); }
static void e_pack(FILE *f){ (void)f; apop_data *a=rd(4,3); char mp=vflip(.5)?'y':'n',ip=vflip(.5)?'y':'n'; if (vflip(.5)) apop_data_add_page(a,rd(3,2),vflip(.5)?"<info>":"more"); gsl_vector *v=apop_data_pack(a,.more_pages=mp,.use_info_pages=ip); if (v){ gsl_vector *u=apop_data_pack(a,.out=v,.more_pages=mp,.use_info_pages=ip); (void)u; apop_data *c=apop_data_copy(a); if (mp=='y') apop_data_unpack(v,c,.use_info_pages=ip); fr(c); gsl_vector_free(v); } fr(a); }
static int prunefn(apop_data *d,int r,int c,void *p){ return (r+c)%2; }
static void e_text(FILE *f){ (void)f; apop_data *a=vflip(.5)?apop_text_alloc(NULL,vi(1,5),vi(1,3)):apop_text_alloc(apop_data_alloc(),vi(0,5),vi(0,3)); for (int i=0;i<(int)a->textsize[0];i++) for (int j=0;j<(int)a->textsize[1];j++){ char b[40]; apop_text_set(a,i,j,"%s",vstr_any(b,20)); } char *p=vflip(.5)?apop_text_paste(a,.between="-",.before=vflip(.5)?"[":NULL,.after=vflip(.5)?"]":NULL,.between_cols=vflip(.5)?"|":NULL,.prune=vflip(.5)?prunefn:NULL):apop_text_paste(a); free(p); if (a->textsize[1]){ apop_data *u=apop_text_unique_elements(a,vi(0,a->textsize[1]-1)); fr(u); } gsl_vector *v=gsl_vector_alloc(5); for (int i=0;i<5;i++) gsl_vector_set(v,i,vi(0,3)); gsl_vector *u=apop_vector_unique_elements(v); gsl_vector_free(u); gsl_vector_free(v); apop_data *s=NULL; const char *re[]={"([a-z]+)([0-9]*)","(zzz)","[0-9]+","(a)|(b)","((","([^ ]*) ?"}; const char *st[]={"abc12 d3 efg","","42 13","aab b","a b c d e f"}; apop_regex(vpick(st),vpick(re),vflip(.8)?&s:NULL,.use_case=vflip(.5)?'y':'n'); fr(s); fr(a); s=apop_text_alloc(NULL,2,2); apop_text_fill(s,"a","b","c","d"); fr(s); }
apop_data *apop_text_to_factors(apop_data *d, size_t textcol, int datacol); /*deprecated: not in the header*/
static void e_factors(FILE *f){ (void)f; int n=vi(1,9); apop_data *a=apop_text_alloc(apop_data_alloc(vflip(.5)?n:0,vflip(.6)?n:0,2),n,2); for (int i=0;i<n;i++) for (int j=0;j<2;j++) apop_text_set(a,i,j,"%c",'a'+vi(0,3)); if (a->matrix) for (int i=0;i<n;i++) for (int j=0;j<2;j++) apop_data_set(a,i,j,vi(0,3)); if (a->vector) for (int i=0;i<n;i++) apop_data_set(a,i,-1,vi(0,3)); if (a->matrix) apop_data_add_names(a,'c',"p","q"); apop_data_add_names(a,'t',"tp","tq"); switch(vi(0,3)){ case 0: { bool tx=vflip(.5); apop_data *o=apop_data_to_factors(a,.intype=tx?'t':'d',.incol=vi(0,1),.outcol=a->matrix?vi(0,1):a->vector?-1:0); if (o&&o->error) fr(o); apop_data *g=apop_data_get_factor_names(a,.col=vi(0,1),.type=tx?'t':'d'); (void)g; if (vflip(.5)){ o=apop_data_to_factors(a,.incol=0,.outcol=a->matrix?1:-1); if (o&&o->error) fr(o); } } break; case 1: case 2: { char ty=vflip(.6)?'t':'d'; bool app=vflip(.5); apop_data *o=apop_data_to_dummies(a,.col=vi(ty=='d'&&a->vector?-1:0,1),.type=ty,.keep_first=vflip(.5)?'y':'n',.append=app?(vflip(.5)?'y':'i'):'n',.remove=vflip(.5)?'y':'n'); if (!app||(o&&o->error)) { if (o!=a) fr(o); } } break; default: { apop_data *o=apop_text_to_factors(a,vi(0,1),a->matrix?vi(0,1):-1); if (o&&o->error) fr(o); } } fr(a); }
static void e_sort(FILE *f){ (void)f; apop_data *a=rd(8,3); bool in=vflip(.5); apop_data *so=vflip(.4)?apop_data_copy(Apop_r(a,0)):NULL; if (so){ if (so->matrix) for (size_t i=0;i<so->matrix->size2;i++) apop_data_set(so,0,i,vi(0,2)); if (so->vector) apop_data_set(so,0,-1,vi(0,2)); } apop_data *o=apop_data_sort(a,so,.asc=vflip(.5)?'a':'d',.inplace=in?'y':'n'); if (o!=a) fr(o); fr(so); fr(a); }
static void e_bins(FILE *f){ (void)f; int n=vi(1,20); apop_data *a=vflip(.3)?apop_data_alloc(n):apop_data_alloc(0,n,vi(1,2)); for (int i=0;i<n;i++){ if (a->vector) apop_data_set(a,i,-1,vi(0,5)+vd(0,1)*vi(0,1)); else for (size_t j=0;j<a->matrix->size2;j++) apop_data_set(a,i,j,vi(0,5)+vd(0,1)*vi(0,1)); } if (vflip(.3)){ a->weights=gsl_vector_alloc(n); gsl_vector_set_all(a->weights,.5); } switch(vi(0,3)){ case 0: { apop_data *b=vflip(.6)?apop_data_to_bins(a,.bin_count=vi(1,5),.close_top_bin=vflip(.5)?'y':'n'):apop_data_to_bins(a); if (b){ apop_data *pg=apop_data_get_page(b,"<binspec>"); apop_data *c=pg&&vflip(.7)?apop_data_to_bins(a,pg):NULL; fr(c); } fr(b); } break; case 1: { apop_data_pmf_compress(a); if (a->matrix&&a->matrix->size2==1&&!a->weights){ apop_data *o=apop_data_rank_compress(a); fr(o);} } break; case 2: { apop_data *h=apop_data_copy(a); apop_data *b=apop_data_to_bins(a,.bin_count=3),*spec=b?apop_data_get_page(b,"<binspec>"):NULL; apop_data *c=spec?apop_data_to_bins(h,spec):NULL; if (b&&c&&!b->error&&!c->error){ apop_model *m1=apop_estimate(b,apop_pmf),*m2=apop_estimate(c,apop_pmf); apop_data *t=apop_histograms_test_goodness_of_fit(m1,m2); fr(t); t=apop_test_kolmogorov(m1,m2); fr(t); pr(f,apop_kl_divergence(m1,m2)); pr(f,apop_model_entropy(m1)); apop_model_free(m1); apop_model_free(m2); } fr(b); fr(c); fr(h); } break; default: { apop_data *q=apop_data_alloc(0,1,n); for (int i=0;i<n;i++) apop_data_set(q,0,i,vi(0,4)); apop_data *e=apop_data_rank_expand(q); if (e){ apop_data *k=apop_data_rank_compress(e,.min_bins=vi(1,6)); fr(k); } fr(e); fr(q); } } fr(a); }
static void e_topmf(FILE *f){ (void)f; double p[3]; vdist *D=rdist(p); apop_model *m=vmodel(D,p); if (vflip(.5)){ apop_model *o=apop_model_to_pmf(m,.draws=vi(10,60),.bin_count=vi(2,6)); if (o){ fr(o->data); apop_model_free(o); } } else { apop_data *d=apop_model_draws(m,vi(1,30)); fr(d); d=apop_data_alloc(0,6,1); apop_model_draws(m,.draws=d); fr(d); } apop_model_free(m); }
static void e_missing(FILE *f){ (void)f; int n=vi(3,9); apop_data *a=ad(n,2); if (vflip(.3)) for (int i=0;i<n;i++) apop_data_set(a,i,0,NAN); else apop_data_set(a,vi(0,n-1),vi(0,1),NAN); switch(vi(0,2)){ case 0: { apop_data *o=apop_data_listwise_delete(a); fr(o); } break; case 1: { apop_data *b=apop_data_copy(a),*o=apop_data_listwise_delete(b,.inplace='y'); (void)o; fr(b); } break; default: { apop_model *m=apop_model_copy(apop_multivariate_normal); m->parameters=apop_data_falloc((2,2,2),0,1,.2,0,.2,1); apop_model *e=apop_ml_impute(a,m); if (e) apop_model_free(e); apop_model_free(m); } } fr(a); }
static void e_linalg(FILE *f){ int n=vi(1,4); apop_data *a=ad(n,n),*b=vflip(.3)?ad(vi(1,4),vi(1,4)):vflip(.5)?apop_data_alloc(n):ad(n,2); if (b->vector) gsl_vector_set_all(b->vector,1.5); if (vflip(.2)) gsl_matrix_set_zero(a->matrix); char fm[]="0tvv"; apop_data *o=vflip(.5)?apop_dot(a,b):apop_dot(a,b,.form1=vpick(fm),.form2=vpick(fm)); fr(o); gsl_matrix *inv=apop_matrix_inverse(a->matrix); if (inv) gsl_matrix_free(inv); pr(f,apop_matrix_determinant(a->matrix)); gsl_matrix *c=apop_matrix_copy(a->matrix); apop_matrix_to_positive_semidefinite(c); gsl_matrix *st=apop_matrix_stack(c,b->matrix?b->matrix:NULL,vflip(.5)?'r':'c',.inplace='n'); if (st) gsl_matrix_free(st); st=apop_matrix_stack(NULL,c,vflip(.5)?'r':'c'); if (st) gsl_matrix_free(st); c=apop_matrix_stack(c,a->matrix,vflip(.5)?'r':'c',.inplace='y'); gsl_matrix_free(c); gsl_vector *v=apop_vector_copy(Apop_cv(a,0)),*u=apop_vector_stack(v,Apop_cv(a,n-1)); gsl_vector_free(u); u=apop_vector_stack(NULL,v); gsl_vector_free(u); v=apop_vector_stack(v,Apop_cv(a,0),.inplace='y'); gsl_matrix *vm=apop_vector_to_matrix(v,vflip(.5)?'r':'c'); gsl_matrix_free(vm); gsl_vector_free(v); double ar[]={1,2,3,NAN}; v=apop_array_to_vector(ar,vi(1,3)); gsl_vector_free(v); gsl_matrix *pm_=b->matrix?b->matrix:a->matrix; apop_data *p=apop_matrix_pca(pm_,vi(1,pm_->size2<2?1:2)); fr(p); double q=0; (void)q; gsl_matrix *iv=NULL; apop_det_and_inv(a->matrix,&iv,vi(0,1),vi(0,1)); if (iv) gsl_matrix_free(iv); fr(a); fr(b); }
static void e_moments(FILE *f){ apop_data *a=ad(vi(2,12),vi(1,3)); apop_data_add_names(a,'c',"x","y","z"); if (vflip(.4)){ a->weights=gsl_vector_alloc(a->matrix->size1); gsl_vector_set_all(a->weights,1.5); } if (vflip(.2)) apop_data_set(a,0,0,NAN); apop_data *o=apop_data_covariance(a); fr(o); o=apop_data_correlation(a); fr(o); o=apop_data_summarize(a); fr(o); double *p=apop_vector_percentiles(Apop_cv(a,0),vflip(.5)?'u':vflip(.5)?'d':'a'); free(p); gsl_vector *out=NULL; const char ty[]="psm0r"; char t=ty[vi(0,3)]; if (t=='0') t='p'; apop_vector_normalize(Apop_cv(a,0),&out,t); if (out) gsl_vector_free(out); apop_vector_normalize(Apop_cv(a,0)); gsl_vector *ma=apop_vector_moving_average(Apop_cv(a,0),vi(1,4)); if (ma) gsl_vector_free(ma); pr(f,apop_vector_distance(Apop_cv(a,0),.metric=vpick("emsdl")?:'e')); pr(f,apop_vector_cov(Apop_cv(a,0),Apop_cv(a,0),a->weights)); fr(a); }
static void e_tests(FILE *f){ apop_data *d=ad(vi(3,12),2),*t; t=apop_t_test(Apop_cv(d,0),Apop_cv(d,1)); fr(t); t=apop_paired_t_test(Apop_cv(d,0),Apop_cv(d,1)); fr(t); apop_data *ct=apop_data_alloc(0,vi(1,3),vi(1,3)); for (size_t i=0;i<ct->matrix->size1;i++) for (size_t j=0;j<ct->matrix->size2;j++) apop_data_set(ct,i,j,vi(0,9)); t=apop_test_fisher_exact(ct); fr(t); t=apop_test_anova_independence(ct); fr(t); fr(ct); apop_data *r=regdata(vi(8,20),2); apop_model *e=apop_estimate(r,apop_ols); if (vflip(.5)){ t=apop_f_test(e); fr(t); } else { apop_data *c=apop_data_alloc(1,1,3); gsl_matrix_set_all(c->matrix,1); gsl_vector_set_all(c->vector,0); t=apop_f_test(e,c); fr(t); fr(c); } t=apop_estimate_coefficient_of_determination(e); fr(t); apop_estimate_parameter_tests(e); apop_estimate_parameter_tests(e); apop_model_free(e); fr(r); pr(f,apop_test(vnorm(),"normal",0,1)); fr(d); }
static void e_print(FILE *f){ apop_data *d=rd(5,3); const char *n=tmpn(); apop_opts.verbose=-1; switch(vi(0,3)){ case 0: apop_data_print(d,.output_name=n,.output_append=vflip(.5)?'a':'w'); if (d->matrix) apop_matrix_print(d->matrix,.output_name=n); if (d->vector) apop_vector_print(d->vector,.output_name=n,.output_append='a'); break; case 1: apop_data_print(d,.output_pipe=f); break; case 2: { FILE *o=fopen(n,"w"); apop_data_print(d,.output_pipe=o); fclose(o); } break; default: { double p[3]; vdist *D=rdist(p); apop_model *m=vmodel(D,p); apop_model_print(m,.output_pipe=f); apop_model_free(m); } } unlink(n); fr(d); }
static int longest_line(const char *n){ FILE *i=fopen(n,"r"); int k=0,m=0,c; while((c=fgetc(i))!=EOF){ if (c=='\n') k=0; else if (++k>m) m=k; } fclose(i); return m; }
static void e_read(FILE *f){ (void)f; const char *n=tmpn(); FILE *o=fopen(n,"w"); int r=vi(0,6),c=vi(1,4); bool hc=vflip(.7),hr=vflip(.4); const char *dl=vflip(.5)?",":"|"; if (vflip(.2)) fputs("# a comment\n",o); if (hc){ if (hr&&vflip(.5)) fprintf(o,"rn%s",dl); for (int j=0;j<c;j++) fprintf(o,"%scol%d",j?dl:"",j); fputs("\n",o); } for (int i=0;i<r;i++){ if (hr) fprintf(o,"\"row %d\"%s",i,dl); int cc=vflip(.1)?vi(0,c+2):c; for (int j=0;j<cc;j++){ if (j) fputs(dl,o); switch(vi(0,5)){ case 0: fputs("NaN",o); break; case 1: fputs("some text",o); break; case 2: fputs("\"quoted\"",o); break; case 3: break; default: fprintf(o,"%g",vval()); } } fputs("\n",o); if (vflip(.1)) fputs("\n",o); } fclose(o); int fe[]={3,6,9,12},maxlen=longest_line(n); apop_data *d=maxlen<=12&&vflip(.2)?apop_text_to_data(n,.field_ends=fe,.has_col_names=hc?'y':'n'):apop_text_to_data(vflip(.1)?"/nonexistent/file":n,.has_row_names=hr?'y':'n',.has_col_names=hc?'y':'n',.delimiters=dl); fr(d); unlink(n); }
static void e_db(FILE *f){ const char *n=tmpn(); apop_db_open(NULL); int r=vi(1,6); apop_query("begin; create table t(a,b,c); create table g(x,y,z,row_names)"); for (int i=0;i<r;i++) apop_query("insert into t values(%d,%g,'%c%c')",vi(0,3),vnorm(),'a'+vi(0,3),'x'+vi(0,2)); apop_query("commit"); apop_data *d; gsl_vector *v; if (vflip(.3)) apop_opts.db_name_column="c";
    for (int k=vi(1,6);k--;) switch(vi(0,19)){ case 0: d=apop_query_to_data("select a,b,c from t"); fr(d); break; case 1: d=apop_query_to_text("select * from t"); fr(d); break; case 2: d=apop_query_to_mixed_data("mvtn","select a,b,c,a||c from t"); fr(d); break; case 3: d=apop_query_to_mixed_data("mw","select a,b,c from t"); fr(d); break; case 4: v=apop_query_to_vector("select b from t"); if (v) gsl_vector_free(v); break; case 5: pr(f,apop_query_to_float("select var(b) from t")); pr(f,apop_query_to_float("select kurt(b)+skew(b)+stddev(a) from t")); break; case 6: d=apop_query_to_data("select nope from t"); fr(d); d=apop_query_to_text("selct"); fr(d); break; case 7: d=apop_query_to_data("select * from t where a>99"); fr(d); d=apop_query_to_text("select * from t where a>99"); fr(d); v=apop_query_to_vector("select b from t where a>99"); if (v) gsl_vector_free(v); break; case 8: apop_query("insert into nowhere values(1)"); break; case 9: pr(f,apop_table_exists("t")+apop_table_exists("nono")); break; case 10: { apop_data *s=rd(4,3); apop_data_print(s,.output_name="made",.output_type='d',.output_append=vflip(.5)?'a':'w'); fr(s); } break; case 11: d=apop_db_to_crosstab("t","a","c","b"); fr(d); break; case 12: d=apop_db_to_crosstab("t","a","c","sum(b)",.is_aggregate='y'); fr(d); break; case 13: d=apop_db_to_crosstab("t","a","nope","b"); fr(d); d=apop_db_to_crosstab("none","a","c","b"); fr(d); break; case 14: { FILE *o=fopen(n,"w"); fprintf(o,"p,q,r\n1,2,three\n4,,6\n"); fclose(o); apop_text_to_db(n,"txt",.if_table_exists='d',.has_row_names=vflip(.3)?'y':'n'); apop_text_to_db("/nonexistent","txt2"); unlink(n); } break; case 15: d=apop_anova("t","b","a","c"); fr(d); d=apop_anova("t","b","a"); fr(d); break; case 16: apop_table_exists("txt",'y'); break; case 17: { apop_data *s=ad(3,2); apop_crosstab_to_db(s,"xt","r","c","v"); fr(s); apop_query("drop table if exists xt"); } break; case 18: apop_query("select a from t where ran()>.5"); pr(f,apop_query_to_float("select pow(2,3)+sin(1)+log10(100)+exp(1)")); break; default: { apop_data *s=ad(vi(1,4),2); apop_data_to_db(s,"dd",'w'); fr(s); apop_query("drop table if exists dd"); } }
    apop_opts.db_name_column=""; apop_db_close(vflip(.2)?'v':'n'); }
static void e_rake(FILE *f){ (void)f; apop_db_open(NULL); apop_query("create table mar(a,b,c,ct)"); int n=vi(2,20); for (int i=0;i<n;i++) apop_query("insert into mar values(%d,%d,%d,%d)",vi(0,2),vi(0,2),vi(0,1),vi(1,5)); apop_query("create table ini as select a,b,c,1 ct from mar group by a,b,c"); char *vars[]={"a","b","c"},*con[]={"a | b","b | c","c"}; bool all=vflip(.3); apop_data *o=apop_rake("mar",.var_list=vflip(.5)?vars:NULL,.var_ct=3,.contrasts=all?NULL:con,.contrast_ct=all?0:vi(1,3),.structural_zeros=vflip(.3)?"a+0=b":NULL,.max_iterations=vi(1,20),.count_col="ct",.init_table=vflip(.4)?"ini":NULL,.init_count_col="ct",.nudge=vflip(.3)?.5:0); fr(o); apop_db_close(); }
static void freem(apop_model *m){ if (m) apop_model_free(m); }
static void e_dist(FILE *f){ double p[3]; vdist *D=rdist(p); apop_model *m=vmodel(D,p); int n=vi(6,20); apop_data *d=apop_data_alloc(0,n,1); for (int i=0;i<n;i++) apop_data_set(d,i,0,D->x(p)); if (vflip(.3)){ apop_data_free(d); d=apop_data_alloc(n); for (int i=0;i<n;i++) apop_data_set(d,i,-1,D->x(p)); }
    for (int k=vi(1,5);k--;) switch(vi(0,8)){ case 0: { apop_model *c=apop_model_copy(*D->m); char y=vflip(.5)?'y':'n',z=vflip(.5)?'y':'n'; Apop_settings_add_group(c,apop_parts_wanted,.covariance=y,.predicted=z,.tests=D->m[0]->estimate?y:'n' /*with no covariance, 10,000 bootstraps*/,.info=vflip(.5)?'y':'n'); Apop_settings_add_group(c,apop_mle,.max_iterations=15,.method="NM simplex"); apop_model *e=apop_estimate(d,c); if (e) apop_model_print(e,.output_pipe=f); freem(e); apop_model_free(c); } break; case 1: { apop_model *b=apop_model_copy(*D->m); if (!D->m[0]->estimate){ Apop_settings_add_group(b,apop_mle,.max_iterations=15,.method="NM simplex"); Apop_settings_add_group(b,apop_parts_wanted,.covariance='y',.info='y'); } apop_model *e=apop_estimate(d,b); apop_model *c=apop_model_copy(e); freem(e); freem(c); freem(b); } break; case 2: { apop_model *c=apop_model_copy(m),*cc=apop_model_copy(c); pr(f,apop_log_likelihood(d,cc)); apop_model_free(c); apop_model_free(cc); } break; case 3: { gsl_rng *r=newrng(); double x; apop_draw(&x,r,m); gsl_rng_free(r); pr(f,x); } break; case 4: { apop_data *o=apop_data_copy(Apop_r(d,0)); if (D->hascdf) pr(f,apop_cdf(o,m)); fr(o); } break; case 5: { apop_data *q=apop_data_copy(d),*o=apop_predict(q,m); if (o!=q) fr(o); fr(q); } break; case 6: { gsl_vector *g=gsl_vector_calloc(D->np); apop_score(d,g,m); gsl_vector_free(g); g=apop_numerical_gradient(d,m); if (g) gsl_vector_free(g); } break; case 7: { apop_data *h=apop_model_hessian(d,m); fr(h); apop_data *nc=apop_model_numerical_covariance(d,m); if (nc!=apop_data_get_page(m->parameters,"<Covariance>")) fr(nc); /*else a page of the parameters*/ } break; default: { apop_model *e=apop_model_clear(d,m); (void)e; apop_model *c=vmodel(D,p); apop_model_free(m); m=c; } }
    apop_model_free(m); fr(d); }
static void e_multi(FILE *f){ int wh=vi(0,4); apop_model *m; apop_data *d; gsl_rng *r=newrng(); double x[8]; if (wh==0){ m=apop_model_set_parameters(apop_binomial,vi(1,20),vd(.1,.9)); d=apop_data_falloc((0,1,2),vi(0,9),vi(0,9)); } else if (wh==1){ m=apop_model_copy(apop_multinomial); m->dsize=3; m->parameters=apop_data_falloc((3),vi(3,9),.2,.3); d=apop_data_falloc((0,2,3),1,2,3,2,2,2); } else if (wh==2){ m=apop_model_copy(apop_multivariate_normal); m->dsize=2; m->parameters=apop_data_falloc((2,2,2),vnorm(),1.+vpos(),.3,vnorm(),.3,1.+vpos()); d=ad(4,2); } else if (wh==3){ m=apop_model_copy(apop_dirichlet); m->dsize=3; m->parameters=apop_data_falloc((3),vpos(),vpos(),vpos()); d=apop_data_falloc((0,2,3),.2,.3,.5,.1,.6,.3); } else { m=apop_model_copy(apop_improper_uniform); d=ad(3,1); m->vsize=1; }
    if (wh<4) for (int i=0;i<2;i++) apop_draw(x,r,m); pr(f,apop_log_likelihood(d,m)); if (wh<4&&vflip(.6)){ apop_model *b=apop_model_copy(wh==0?apop_binomial:wh==1?apop_multinomial:wh==2?apop_multivariate_normal:apop_dirichlet); if (vflip(.5)) Apop_settings_add_group(b,apop_parts_wanted,.covariance='y',.info='y'); Apop_settings_add_group(b,apop_mle,.max_iterations=10); apop_model *e=apop_estimate(d,b); if (e) apop_model_print(e,.output_pipe=f); freem(e); apop_model_free(b); } if (wh<4&&wh&&vflip(.5)){ apop_data *dr=apop_model_draws(m,5); fr(dr); } gsl_rng_free(r); freem(m); fr(d); }
static void e_pmf(FILE *f){ int n=vi(2,12); apop_data *d=apop_data_alloc(0,n,1); for (int i=0;i<n;i++) apop_data_set(d,i,0,vi(0,4)); if (vflip(.5)){ d->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(d->weights,i,vpos()); } apop_model *m=apop_estimate(d,apop_pmf),*c=vflip(.5)?apop_model_copy(m):NULL; gsl_rng *r=newrng(); double x; for (int i=0;i<3;i++) apop_draw(&x,r,m); apop_model *c2=apop_model_copy(m); if (c&&vflip(.5)) apop_draw(&x,r,c); apop_data *o=apop_data_falloc((0,1,1),vi(0,4)); pr(f,apop_p(o,m)); if (vflip(.5)) freem(m),m=NULL; pr(f,apop_cdf(o,c2)); apop_draw(&x,r,c2); fr(o); freem(m); freem(c); freem(c2); gsl_rng_free(r); fr(d); }
static void e_kernel(FILE *f){ apop_data *d=ad(vi(2,8),1),*o=ad(3,1); int wh=vi(0,3); apop_model *k=apop_model_set_parameters(apop_normal,0,1),*pm=NULL,*m; if (wh==0) m=apop_estimate(d,apop_kernel_density); else if (wh==1) m=apop_model_set_settings(apop_kernel_density,.base_data=d,.kernel=k); else if (wh==2){ pm=apop_estimate(d,apop_pmf); m=apop_model_set_settings(apop_kernel_density,.base_pmf=pm,.kernel=k); } else { apop_model *b=apop_model_copy(apop_kernel_density); Apop_settings_add_group(b,apop_kernel_density,.base_data=d); m=apop_estimate(d,b); apop_model_free(b); } apop_model *c=apop_model_copy(m); pr(f,apop_log_likelihood(o,c)); gsl_rng *r=newrng(); double x; if (m->dsize<=1){ m->dsize=1; apop_draw(&x,r,m); } apop_data *one=ad(1,1); pr(f,apop_cdf(one,m)); apop_model_free(m); pr(f,apop_p(o,c)); apop_model_free(c); gsl_rng_free(r); apop_model_free(k); freem(pm); fr(one); fr(o); fr(d); }
static void e_reg(FILE *f){ int k=vi(1,3),wt=vi(0,2); apop_data *d=regdata(vi(8,20),k),*z=NULL; if (wt==1){ d->weights=gsl_vector_alloc(d->matrix->size1); gsl_vector_set_all(d->weights,2); } if (vflip(.3)){ apop_data *v=apop_data_alloc((int)d->matrix->size1,d->matrix->size1,k); for (size_t i=0;i<d->matrix->size1;i++){ apop_data_set(v,i,-1,apop_data_get(d,i,0)); for (int j=0;j<k;j++) apop_data_set(v,i,j,apop_data_get(d,i,j+1)); } fr(d); d=v; } if (vflip(.1)) apop_data_set(d,0,0,NAN); bool iv=vflip(.3); apop_model *m=apop_model_copy(iv?apop_iv:apop_ols); if (iv){ z=ad(d->matrix->size1,1); apop_data_add_names(z,'c',"a"); Apop_settings_add_group(m,apop_lm,.instruments=z,.destroy_data=vflip(.3)?1:0); } else if (vflip(.4)) Apop_settings_add_group(m,apop_lm,.destroy_data=vflip(.5)?1:0,.input_distribution=vflip(.3)?apop_model_copy(apop_improper_uniform):NULL); if (vflip(.4)) Apop_settings_add_group(m,apop_parts_wanted,.covariance=vflip(.5)?'y':'n',.predicted=vflip(.5)?'y':'n',.tests=vflip(.5)?'y':'n',.info=vflip(.5)?'y':'n'); apop_data *dd=d; apop_model *e=apop_estimate(dd,m); if (e&&!e->error){ apop_model *c=apop_model_copy(e); apop_model_print(c,.output_pipe=f); pr(f,apop_log_likelihood(dd,c)); if (!iv&&vflip(.4)){ apop_data *q=apop_data_copy(dd),*o=apop_predict(q,c); if (o!=q) fr(o); fr(q); } freem(c); } freem(e); apop_model_free(m); fr(d); fr(z); }
static void e_param(FILE *f){ (void)f; apop_data *d=regdata(12,2); if (vflip(.5)){ apop_model *e=apop_estimate(d,apop_ols); Apop_settings_add_group(e,apop_pm,.index=vi(-1,1)); apop_model *p=apop_parameter_model(d,e); freem(p); freem(e); } else { apop_data *x=ad(8,1); apop_model *e=apop_estimate(x,apop_normal); Apop_settings_add_group(e,apop_pm,.index=vi(0,1),.draws=5); apop_model *p=apop_parameter_model(x,e); if (p) freem(p); freem(e); fr(x); } fr(d); }
static void e_choice(FILE *f){ int opts=vi(2,3),n=vi(15,30); apop_data *d=ad(n,3); for (int i=0;i<n;i++) apop_data_set(d,i,0,i<opts?i:vi(0,opts-1)); apop_data_add_names(d,'c',"choice","u","v"); apop_model *m=apop_model_copy(vflip(.5)?apop_logit:apop_probit); Apop_settings_add_group(m,apop_mle,.max_iterations=6,.method=vflip(.5)?"BFGS cg":"NM simplex"); if (vflip(.6)) Apop_settings_add_group(m,apop_parts_wanted,.covariance='n',.info=vflip(.5)?'y':'n'); apop_model *e=apop_estimate(d,m); if (e&&e->parameters){ apop_data *q=apop_data_copy(d),*o=apop_predict(q,e); if (o!=q) fr(o); fr(q); apop_model *c=apop_model_copy(e); pr(f,apop_log_likelihood(d,c)); freem(c); } freem(e); freem(m); fr(d); }
static void e_compose(FILE *f){ apop_model *a=apop_model_set_parameters(apop_normal,vnorm(),vpos()),*b=apop_model_set_parameters(apop_normal,vnorm(),vpos()),*g=apop_model_set_parameters(apop_normal,0,vpos()); int wh=vi(0,5); apop_model *m=NULL; gsl_rng *r=newrng(); double x[4]; apop_data *d=ad(5,1); apop_data *pg=NULL; bool est=vflip(.5); Apop_settings_add_group(a,apop_mle,.max_iterations=5,.method="NM simplex"); switch(wh){ case 0: m=apop_model_mixture(a,b); break; case 1: m=vflip(.5)?apop_model_cross(a,b):apop_model_cross(a,b,g); break; case 2: m=apop_model_dconstrain(.base_model=a,.draw_ct=40,.constraint=pos_only,.rng=r); break; case 3: apop_data_set(a->parameters,1,-1,NAN); m=apop_model_fix_params(a); break; case 4: { apop_model *i=apop_model_mixture(a,b); m=apop_model_mixture(i,g); apop_model *c=apop_model_copy(m); freem(c); freem(m); freem(i); m=NULL; } break; default: { apop_model *i=apop_model_dconstrain(.base_model=a,.draw_ct=40,.constraint=pos_only); m=apop_model_mixture(i,b); apop_model *c=apop_model_copy(m); for (size_t k=0;k<5;k++) apop_data_set(d,k,0,fabs(apop_data_get(d,k,0))); pr(f,apop_log_likelihood(d,c)); freem(c); freem(m); freem(i); m=NULL; } }
    if (m){ if (wh==2) for (size_t k=0;k<5;k++) apop_data_set(d,k,0,fabs(apop_data_get(d,k,0))); if (wh!=1) pr(f,apop_log_likelihood(d,m)); if (wh!=3&&!(wh==2&&apop_data_get(a->parameters,0,-1)<-2*apop_data_get(a->parameters,1,-1))) apop_draw(x,r,m); apop_model *c=apop_model_copy(m); if (wh!=1) pr(f,apop_log_likelihood(d,c)); if (wh==0&&est){ Apop_settings_add_group(c,apop_mle,.max_iterations=4,.method="NM simplex"); apop_model *e=apop_estimate(d,c); freem(e); } if (wh==2&&est){ Apop_settings_add_group(c,apop_mle,.max_iterations=4,.method="NM simplex"); apop_model *e=apop_estimate(d,c); freem(e); } freem(c); freem(m); } fr(pg); freem(a); freem(b); freem(g); gsl_rng_free(r); fr(d); }
static apop_data *dbl(apop_data *in){ apop_data *o=apop_data_copy(in); gsl_matrix_scale(o->matrix,2); return o; }
static double jac(apop_data *in){ (void)in; return .5; }
static void e_ctrans(FILE *f){ apop_model *b=apop_model_set_parameters(apop_normal,vnorm(),vpos()); apop_model *m=apop_model_coordinate_transform(.transformed_to_base=dbl,.base_to_transformed=dbl,.jacobian_to_base=jac,.base_model=b); if (!m->parameters) m->parameters=apop_data_copy(b->parameters); apop_data *d=ad(4,1); pr(f,apop_log_likelihood(d,m)); gsl_rng *r=newrng(); double x; apop_draw(&x,r,m); apop_model *c=apop_model_copy(m); pr(f,apop_log_likelihood(d,c)); apop_draw(&x,r,c); if (vflip(.5)){ apop_model *e=apop_estimate(d,c); freem(e); } freem(m); freem(c); freem(b); gsl_rng_free(r); fr(d); }
static void e_arms(FILE *f){ apop_model *a=apop_model_copy(apop_normal); a->parameters=apop_data_falloc((2),vnorm(),vpos()); a->draw=NULL; gsl_rng *r=newrng(); double x; if (vflip(.5)) Apop_settings_add_group(a,apop_arms,.xl=-10,.xr=10,.model=a); for (int i=0;i<3;i++) apop_draw(&x,r,a); pr(f,x); apop_model *c=apop_model_copy(a); apop_draw(&x,r,c); gsl_rng_free(r); freem(c); freem(a); }
static void e_mcmc(FILE *f){ (void)f; apop_model *a=apop_model_copy(apop_multivariate_normal); a->dsize=2; a->parameters=apop_data_falloc((2,2,2),0,1,0,0,0,1); apop_data *d=ad(5,1); apop_model *m=apop_model_copy(apop_normal); char gc=vpick("ab1"); if (!gc) gc='a'; Apop_settings_add_group(m,apop_mcmc,.periods=vi(5,60),.burnin=.3,.gibbs_chunks=gc,.start_at=vflip(.5)?'1':'p'); m->parameters=apop_data_falloc((2),0,1); gsl_rng *r=newrng(); apop_model *o=apop_model_metropolis(d,vflip(.5)?r:NULL,m); if (o){ double x[4]; (void)x; apop_model *c=apop_model_copy(o); freem(c); fr(o->data); freem(o); } freem(m); freem(a); fr(d); gsl_rng_free(r); }
static void e_conj(FILE *f){ (void)f; gsl_rng *r=newrng(); int wh=vi(0,3); apop_data *d=apop_data_alloc(0,vi(1,5),1); for (size_t i=0;i<d->matrix->size1;i++) apop_data_set(d,i,0,wh==0?vi(0,1):wh==2?vi(0,6):vpos()); apop_model *like=wh==0?apop_bernoulli:wh==1?apop_exponential:wh==2?apop_poisson:apop_model_set_parameters(apop_normal,0,1),*prior=wh==3?apop_model_set_parameters(apop_normal,0,2):apop_model_set_parameters(wh==0?apop_beta:apop_gamma,1+vpos(),1+vpos()),*post=apop_update(d,prior,like,r); freem(post); freem(prior); if (wh==3) freem(like); fr(d); gsl_rng_free(r); }
static void e_update(FILE *f){ (void)f; gsl_rng *r=newrng(); apop_data *d=ad(4,1); apop_model *prior,*like=apop_model_copy(apop_normal); int wh=vi(0,1); if (wh==0){ prior=apop_model_copy(apop_multivariate_normal); prior->dsize=2; prior->parameters=apop_data_falloc((2,2,2),0,1,0,2,0,.1); Apop_settings_add_group(prior,apop_mcmc,.periods=vi(20,60),.burnin=.3); } else { apop_data *l=apop_data_alloc(0,6,2); for (int i=0;i<6;i++){ apop_data_set(l,i,0,vnorm()); apop_data_set(l,i,1,vpos()); } prior=apop_estimate(l,apop_pmf); } apop_model *post=apop_update(d,prior,like,r); if (post){ fr(post->data); apop_model_free(post); } if (wh==1) fr(prior->data); freem(prior); freem(like); fr(d); gsl_rng_free(r); }
static void e_mle(FILE *f){ const char *meth[]={"NM simplex","BFGS cg","FR cg","PR cg","Newton","Newton hybrid","Newton hybrid no scale","annealing"}; apop_data *path=NULL; apop_model *m=apop_model_copy(&(apop_model){"bowl",.vsize=2,.dsize=1,.log_likelihood=bowl}); if (vflip(.2)) m->constraint=halfplane; apop_data *d=apop_data_falloc((0,1,1),vnorm()); double st[2]={1,1}; gsl_rng *r=newrng(); Apop_settings_add_group(m,apop_mle,.method=(char*)vpick(meth),.max_iterations=12,.starting_pt=vflip(.7)?st:NULL,.rng=r,.n_tries=3,.iters_fixed_T=3,.t_min=.3,.mu_t=1.5,.path=vflip(.3)?&path:NULL,.dim_cycle_tolerance=vflip(.2)?.1:0); if (vflip(.3)) Apop_settings_add_group(m,apop_parts_wanted,.covariance='y',.info='y',.predicted='y'); apop_model *e=apop_estimate(d,m); apop_model *c=apop_model_copy(e); freem(e); freem(c); if (path) apop_data_free(path); freem(m); gsl_rng_free(r); fr(d); (void)f; }
static void e_restart(FILE *f){ (void)f; double p[3]; vdist *D=vdists; D->par(p); apop_data *d=ad(8,1); apop_model *m=apop_model_copy(*D->m); m->estimate=NULL; Apop_settings_add_group(m,apop_mle,.max_iterations=8,.method="NM simplex"); Apop_settings_add_group(m,apop_parts_wanted,.covariance='n'); apop_model *e=apop_estimate(d,m); if (vflip(.5)) e=apop_estimate_restart(e); else { apop_model *c=apop_model_copy(e); Apop_settings_add_group(c,apop_mle,.max_iterations=8,.method="BFGS cg"); e=apop_estimate_restart(e,c); /*frees c*/ } freem(e); freem(m); fr(d); }
static void e_boot(FILE *f){ (void)f; apop_data *d=rd(6,2); fr(d); d=ad(vi(3,8),1); if (vflip(.3)){ d->weights=gsl_vector_alloc(d->matrix->size1); gsl_vector_set_all(d->weights,1); } apop_data_add_names(d,'c',"a"); apop_data *st=NULL; gsl_rng *r=newrng(); bool k=vflip(.5); apop_data *c=k?apop_bootstrap_cov(d,apop_normal,r,.iterations=vi(2,12),.boot_store=&st):apop_bootstrap_cov(d,apop_normal,.iterations=vi(2,12),.ignore_nans='y'); fr(c); if (k) fr(st); c=apop_jackknife_cov(d,apop_normal); fr(c); gsl_rng_free(r); fr(d); }
static void e_settings(FILE *f){ (void)f; apop_model *m=apop_model_copy(apop_normal); Apop_settings_add_group(m,apop_mle,.tolerance=vpos(),.method="NM simplex"); Apop_settings_add_group(m,apop_mle,.tolerance=1); Apop_settings_add_group(m,apop_pm,.index=3); Apop_settings_add_group(m,apop_cdf,.draws=50); Apop_settings_add_group(m,apop_parts_wanted); Apop_settings_add_group(m,apop_mcmc,.periods=4); Apop_settings_add_group(m,apop_lm); apop_model *c=apop_model_copy(m),*c2=apop_model_copy(apop_normal); apop_settings_copy_group(c2,m,"apop_mle"); Apop_settings_rm_group(c,apop_mle); Apop_settings_rm_group(c,apop_mle); Apop_settings_rm_group(c,apop_cdf); freem(m); freem(c2); m=apop_model_copy(c); freem(c); freem(m); apop_model *s=apop_model_set_settings(apop_pmf,.draw_index='y'); freem(s); }
static void e_cdf(FILE *f){ apop_model *m=apop_model_set_parameters(apop_normal,0,1); m->cdf=NULL; Apop_settings_add_group(m,apop_cdf,.draws=vi(10,60)); apop_data *o=ad(1,1); pr(f,apop_cdf(o,m)); apop_model *c=apop_model_copy(m); pr(f,apop_cdf(o,c)); if (vflip(.5)){ freem(m); pr(f,apop_cdf(o,c)); freem(c); } else { freem(c); pr(f,apop_cdf(o,m)); freem(m); } fr(o); }
static void e_loess(FILE *f){ int n=vi(12,20),k=vi(1,2); apop_data *d=apop_data_alloc(0,n,k+1); for (int i=0;i<n;i++){ for (int j=1;j<=k;j++) apop_data_set(d,i,j,vd(0,10)); apop_data_set(d,i,0,apop_data_get(d,i,1)*.5+vnorm()); } apop_model *m=vflip(.5)?apop_model_copy(apop_loess):apop_model_set_settings(apop_loess,.data=d,.lo_s.model.span=.8,.want_predict_ci=vflip(.5)?'y':'n'); apop_model *e=apop_estimate(d,m),*c=vflip(.5)?apop_model_copy(e):NULL; apop_data *q=ad(3,k+1); for (int i=0;i<3;i++) for (int j=1;j<=k;j++) apop_data_set(q,i,j,vd(3,7)); apop_data *o=apop_predict(q,e); if (o!=q) fr(o); fr(q); if (vflip(.5)) apop_model_print(e,.output_pipe=f); freem(e); if (c){ q=apop_data_copy(d); o=apop_predict(q,c); if (o!=q) fr(o); fr(q); freem(c); } freem(m); fr(d); }
static void e_map(FILE *f){ apop_data *d=rd(7,3); double par=2; apop_data *o=NULL; switch(vi(0,5)){ case 0: o=apop_map(d,.fn_d=sq,.part=vpick("vmaw")?:'a'); break; case 1: o=apop_map(d,.fn_rp=NULL,.fn_d=sq,.inplace=vflip(.5)?'y':'v'); break; case 2: if (d->matrix) o=apop_map(d,.fn_v=vs,.part=vflip(.5)?'r':'c'); break; case 3: pr(f,apop_map_sum(d,.fn_d=sq,.all_pages='y')); break; case 4: if (d->matrix){ o=apop_map(d,.fn_rp=rowf,.param=&par,.all_pages=d->more?'n':'n'); } break; default: o=apop_map(d,.fn_d=sq,.all_pages='y'); } if (o!=d) fr(o); if (d->matrix){ gsl_matrix *m=apop_matrix_map_all(d->matrix,sq); gsl_matrix_free(m); gsl_vector *v=apop_matrix_map(d->matrix,vs); gsl_vector_free(v); v=apop_vector_map(Apop_cv(d,0),sq); gsl_vector_free(v); } fr(d); }
static void e_misc(FILE *f){ pr(f,apop_generalized_harmonic(vi(1,60),vi(1,8)/2.)); apop_model *b=apop_beta_from_mean_var(vd(.3,.6),.02); freem(b); b=apop_beta_from_mean_var(2,1); freem(b); gsl_vector *v=gsl_vector_alloc(3); for (int i=0;i<3;i++) gsl_vector_set(v,i,vnorm()*3); apop_data *c=vflip(.5)?NULL:apop_data_falloc((2,2,3),-1,1,0,0,-2,0,1,1); pr(f,apop_linear_constraint(v,c)); fr(c); gsl_vector_free(v); apop_system("true %s","x"); apop_data *a=apop_data_falloc((0,2,2),1,2,3,4); apop_vector_print(Apop_cv(a,0),.output_pipe=f); fr(a); }
/* input that is refused */
static void e_bad(FILE *f){ apop_data *a=ad(3,2),*b=ad(4,3),*o; switch(vi(0,14)){ case 0: o=apop_dot(a,b); fr(o); break; case 1: o=apop_data_stack(a,b,'r'); fr(o); break; case 2: o=apop_data_get_page(a,"none"); break; case 3: pr(f,apop_data_get(a,9,9)); apop_data_set(a,9,9,1); apop_data_ptr(a,.rowname="no"); break; case 4: { gsl_matrix *m=NULL; apop_det_and_inv(a->matrix,&m,1,1); if (m) gsl_matrix_free(m); } break; case 5: { apop_model *e=apop_estimate(NULL,apop_normal); freem(e); e=apop_estimate(NULL,apop_ols); freem(e); } break; case 6: pr(f,apop_log_likelihood(a,apop_normal)); pr(f,apop_p(a,apop_gamma)); break; case 7: { apop_model *m=apop_model_set_parameters(apop_pmf,1,2); freem(m); } break; case 8: o=apop_data_to_factors(a); fr(o!=a?o:NULL); o=apop_data_to_dummies(a,.col=7); fr(o!=a?o:NULL); break; case 9: o=apop_text_to_data("/nonexistent"); fr(o); break; case 10: o=apop_data_sort(NULL); fr(o); o=apop_data_covariance(NULL); fr(o); o=apop_data_summarize(NULL); fr(o); break; case 11: { apop_model *m=apop_model_dconstrain(.base_model=NULL,.constraint=pos_only); freem(m); } break; case 12: { apop_model *m=apop_model_copy(&(apop_model){"nothing"}); double x; gsl_rng *r=newrng(); apop_draw(&x,r,m); pr(f,apop_log_likelihood(a,m)); apop_model *e=apop_estimate(a,m); freem(e); freem(m); gsl_rng_free(r); } break; case 13: { apop_data *t=apop_data_alloc(0,2,2); apop_data_set(t,0,0,-1); o=apop_test_fisher_exact(t); fr(o); fr(t); o=apop_test_anova_independence(NULL); fr(o); } break; default: { gsl_vector *v=gsl_vector_alloc(2); apop_data_unpack(v,a); gsl_vector_free(v); pr(f,apop_matrix_determinant(NULL)); } } fr(a); fr(b); }
#define E(x) {#x,e_##x}
static op more[]={E(stack),E(split),E(rm),E(pages),E(realloc),E(namedelmt),E(pack),E(text),E(factors),E(sort),E(bins),E(topmf),E(missing),E(linalg),E(moments),E(tests),E(print),E(read),E(db),E(rake),E(dist),E(multi),E(pmf),E(kernel),E(reg),E(param),E(choice),E(compose),E(ctrans),E(arms),E(mcmc),E(conj),E(update),E(mle),E(restart),E(boot),E(settings),E(cdf),E(loess),E(map),E(misc),E(bad)};
#define NMORE ((int)(sizeof(more)/sizeof(*more)))
