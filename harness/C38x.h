/* C38: databases, files, models, tests. */
static bool bystander_ok(void){ return apop_query_to_float("select count(*) from bystander")==4; }
static void noise(void){ if (!bystander_ok()) v_fail(cur,"the database is out of reach"); }
/* ---- databases ---- */
static const char *badq[]={"stelect 8","select nosuch from bystander","select * from nosuchtable","selct","select (1","insert into nosuch values(1)","select nofn(3)","drop table nosuch"};
static void q_bad(void){ const char *q=vpick(badq); NONZERO(apop_query("%s",q)); noise(); }
static void q_data(void){ const char *q=vpick(badq); errf(apop_query_to_data("%s",q),'q'); noise(); }
static void q_text(void){ const char *q=vpick(badq); errf(apop_query_to_text("%s",q),'q'); noise(); }
static void q_mixed(void){ const char *q=vpick(badq); errf(apop_query_to_mixed_data("nmv","%s",q),'q'); errf(apop_query_to_mixed_data(NULL,"select 1"),'t'); }
static void q_mixdim(void){ errf(apop_query_to_mixed_data(vflip(.5)?"m":"mmmm","select a,b from bystander"),'d'); noise(); }
static void q_vector(void){ const char *q=vpick(badq); NUL(apop_query_to_vector("%s",q)); noise(); }
static void q_float(void){ const char *q=vpick(badq); ISNAN(apop_query_to_float("%s",q)); noise(); }
static void q_blank(void){ NUL(apop_query_to_data("select * from bystander where a<-1")); NUL(apop_query_to_text("select * from bystander where a<-1")); NUL(apop_query_to_vector("select * from bystander where a<-1")); ISNAN(apop_query_to_float("select a from bystander where a<-1")); NUL(apop_query_to_mixed_data("mt","select * from bystander where a<-1")); }
static void q_semi(void){ const char *q=vpick(badq); NONZERO(apop_query("select 1; %s; select 2",q)); noise(); }
static void tab_null(void){ EQI(apop_table_exists(NULL),-1); EQI(apop_table_exists(noname(),'d'),0); noise(); }
static void todb_null(void){ EQI(apop_data_to_db(NULL,"nt1",'o'),-1); EQI(apop_table_exists("nt1"),0); apop_data *d=empty(); EQI(apop_data_to_db(d,"nt1",'o'),-1); EQI(apop_table_exists("nt1"),0); apop_data_free(d); noise(); }
static void todb_nodb(void){ apop_data *d=mat(2,2); UNCHANGED(d,apop_data_print(d,.output_name=fname+0*sprintf(fname,"%s","a b;c"),.output_type='d')); apop_query("drop table if exists \"a b;c\""); apop_data_free(d); noise(); }
static void xtab_bad(void){ NUL(apop_db_to_crosstab(NULL,"a","b","a")); apop_data *d=apop_db_to_crosstab("nosuchtable","a","b","a"); anyerr(d); d=apop_db_to_crosstab("bystander",noname(),"b","a"); anyerr(d); noise(); }
static void open_bad(void){ /* while the current database stays in memory: in a child, as opening replaces it */ fflush(NULL); pid_t p=fork(); if (!p){ apop_db_close('q'); int r=apop_db_open(baddir()); int bad=r==0; if (bad){ apop_query("create table x(a)"); } double v=bad?42:(apop_db_open(NULL),apop_query_to_float("select 42")); _exit(bad?2:v==42?0:3); } int st; waitpid(p,&st,0); if (WIFSIGNALED(st)&&WTERMSIG(st)==SIGTRAP&&(apop_opts.stop_on_warning=='v'||apop_opts.stop_on_warning=='w')) raise(SIGTRAP); V_CHECK(WIFEXITED(st)&&WEXITSTATUS(st)==0,cur,"opening a database that can't be opened: status %d (2: no error; 3: afterwards no good one can be opened)",WIFEXITED(st)?WEXITSTATUS(st):1000+WTERMSIG(st)); FILE *l=apop_opts.log_file; if (l&&apop_opts.verbose>=0) fprintf(l,"(child)\n"); }
static void anova_bad(void){ NUL(apop_anova(NULL,"a","b")); NUL(apop_anova("nosuchtable","a","b")); NUL(apop_anova("bystander",NULL,"b")); NUL(apop_anova("bystander","a")); apop_data *d=apop_anova("bystander",noname(),"b"); anyerr(d); noise(); }
/* ---- files ---- */
static void text_missing(void){ errf(apop_text_to_data(badfile()),'t'); }
static void text_dir(void){ apop_data *d=apop_text_to_data((char*)work()); V_CHECK(!d||d->error,cur,"a directory was read as data"); apop_data_free(d); }
static void text_empty(void){ apop_data *d=apop_text_to_data(emptyfile()); V_CHECK(!d||d->error||!d->matrix,cur,"data from an empty file"); apop_data_free(d); unlink(fname); }
static void text_ragged(void){ sprintf(fname,"%s/rag-%d",work(),(int)getpid()); FILE *f=fopen(fname,"w"); int c=vi(1,3); for (int i=0;i<4;i++){ int w=i==2?c+vi(1,3):c; for (int j=0;j<w;j++) fprintf(f,"%s%i",j?",":"",vi(0,9)); fputs("\n",f); } fclose(f); errf(apop_text_to_data(fname,'n','n'),'t'); unlink(fname); }
static void tdb_missing(void){ EQI(apop_text_to_db(badfile(),"tdbm"),-1); EQI(apop_table_exists("tdbm"),0); noise(); }
static void tdb_empty(void){ int r=apop_text_to_db(emptyfile(),"tdbe"); V_CHECK(r==-1||r==0,cur,"an empty file: returned %d",r); unlink(fname); if (apop_table_exists("tdbe")) apop_query("drop table tdbe"); noise(); }
static void tdb_exists(void){ sprintf(fname,"%s/ok-%d",work(),(int)getpid()); FILE *f=fopen(fname,"w"); fputs("a,b\n1,2\n",f); fclose(f); EQI(apop_text_to_db(fname,"bystander",.if_table_exists='n'),-1); unlink(fname); noise(); }
static void print_bad(void){ apop_data *d=full(); UNCHANGED(d,apop_data_print(d,.output_name=baddir()); if (d->vector) apop_vector_print(d->vector,.output_name=baddir()); apop_matrix_print(d->matrix,.output_name=baddir())); apop_model *m=apop_model_set_parameters(apop_normal,0,1); apop_data_free(d); FILE *p=NULL; char t='f',a='w'; NONZERO(apop_prep_output(baddir(),&p,&t,&a)); NUL(p); apop_model_free(m); }
static void system_bad(void){ NONZERO(apop_system("exit %i",vi(1,9))); }
/* ---- models ---- */
static apop_model **dists(void){ static apop_model **v[]={&apop_normal,&apop_lognormal,&apop_exponential,&apop_gamma,&apop_beta,&apop_uniform,&apop_bernoulli,&apop_poisson,&apop_yule,&apop_zipf,&apop_t_distribution}; return vpick(v); }
static apop_model **manymodels(void){ static apop_model **v[]={&apop_normal,&apop_lognormal,&apop_exponential,&apop_gamma,&apop_beta,&apop_uniform,&apop_bernoulli,&apop_poisson,&apop_yule,&apop_zipf,&apop_t_distribution,&apop_multivariate_normal,&apop_multinomial,&apop_binomial,&apop_dirichlet,&apop_ols,&apop_iv,&apop_logit,&apop_probit,&apop_pmf,&apop_loess,&apop_kernel_density,&apop_improper_uniform,&apop_mixture,&apop_cross,&apop_dconstrain,&apop_coordinate_transform}; return vpick(v); }
static void m_nullmodel(void){ apop_data *d=mat(3,1); ISNAN(apop_log_likelihood(d,NULL)); ISNAN(apop_p(d,NULL)); gsl_vector *g=vec(2); apop_score(d,g,NULL); gsl_vector_free(g); apop_data_free(d); }
static void m_nullest(void){ apop_data *d=mat(3,1); NUL(apop_estimate(d,NULL)); apop_data_free(d); }
static void m_nulldraw(void){ double x=0; NONZERO(apop_draw(&x,NULL,NULL)); }
static void m_nullcdf(void){ apop_data *d=mat(1,1); ISNAN(apop_cdf(d,NULL)); apop_data_free(d); }
static void m_nullpred(void){ apop_data *d=mat(1,1); apop_data *o=apop_predict(d,NULL); V_CHECK(!o||o->error||o==d,cur,"prediction from no model"); if (o!=d) apop_data_free(o); apop_data_free(d); }
static void m_nullprep(void){ apop_data *d=mat(1,1); apop_prep(d,NULL); apop_data_free(d); }
static void m_nullpm(void){ apop_data *d=mat(3,1); NUL(apop_parameter_model(d,NULL)); apop_data_free(d); }
static void m_nullml(void){ apop_data *d=mat(3,1); apop_maximum_likelihood(d,NULL); apop_data_free(d); }
static void m_noparams_ll(void){ apop_model *m=*dists(); apop_data *d=apop_data_falloc((2,1),1,1); UNCHANGED(d,ISNAN(apop_log_likelihood(d,m)); ISNAN(apop_p(d,m))); apop_data_free(d); v_sigs(m->name); }
static void m_noparams_cdf(void){ static apop_model **v[]={&apop_normal,&apop_lognormal,&apop_exponential,&apop_gamma,&apop_beta,&apop_uniform,&apop_bernoulli,&apop_poisson,&apop_yule,&apop_zipf,&apop_t_distribution}; apop_model *m=apop_model_copy(*vpick(v)); v_sigs(m->name); v_desc("%s",m->name); apop_data *d=apop_data_falloc((1,1),1); double x=m->cdf?apop_cdf(d,m):NAN; ISNAN(x); apop_data_free(d); apop_model_free(m); }
static void m_nodata_ll(void){ double p[3]; vdist *D=vdists+vi(0,NDIST-1); D->par(p); v_desc("%s",D->name); apop_model *m=vmodel(D,p); ISNAN(apop_log_likelihood(NULL,m)); apop_model_free(m); }
static void m_noll(void){ apop_model *m=apop_model_copy(&(apop_model){"nothing at all"}); apop_data *d=mat(2,1); ISNAN(apop_log_likelihood(d,m)); ISNAN(apop_p(d,m)); apop_data_free(d); apop_model_free(m); }
static void m_noll_est(void){ apop_model *m=apop_model_copy(&(apop_model){"nothing at all",.vsize=1}); apop_data *d=mat(2,1); apop_model *e=apop_estimate(d,m); V_CHECK(e&&e->error,cur,"estimating a model with neither likelihood nor estimate: no error"); apop_model_free(e); apop_data_free(d); apop_model_free(m); }
static void m_noll_score(void){ apop_model *m=apop_model_copy(&(apop_model){"nothing at all",.vsize=1}); m->parameters=apop_data_falloc((1),1); apop_data *d=mat(2,1); gsl_vector *g=vec(1); NUL(apop_numerical_gradient(d,m)); apop_score(d,g,m); ISNAN(gsl_vector_get(g,0)); apop_data *h=apop_model_numerical_covariance(d,m); V_CHECK(!h||h->error||!h->matrix||isnan(gsl_matrix_get(h->matrix,0,0)),cur,"a covariance without a likelihood"); h=apop_model_hessian(d,m); V_CHECK(!h||h->error||!h->matrix||isnan(gsl_matrix_get(h->matrix,0,0)),cur,"a Hessian without a likelihood"); apop_data_free(h); gsl_vector_free(g); apop_data_free(d); apop_model_free(m); }
static void m_nodraw(void){ apop_model *m=apop_model_copy(&(apop_model){"nothing at all",.vsize=1}); double x=4; NONZERO(apop_draw(&x,NULL,m)); ISNAN(x); errf(apop_model_draws(m,3),'m'); apop_model_free(m); }
static void m_estnull(void){ apop_model *b=*manymodels(); v_desc("%s ",b->name); v_sigs(b->name); apop_model *e=apop_estimate(NULL,b); V_CHECK(e,cur,"no model back"); apop_model_free(e); }
static void m_estnull_reg(void){ apop_model **v[]={&apop_ols,&apop_iv,&apop_logit,&apop_probit}; apop_model *b=*vpick(v); v_desc("%s ",b->name); apop_model *e=apop_estimate(NULL,b); V_CHECK(e&&e->error,cur,"%s from no data: no error",b->name); apop_model_free(e); apop_data *d=apop_data_alloc(3); gsl_vector_set_all(d->vector,1); e=apop_estimate(d,b); V_CHECK(e,cur,"no model"); apop_model_free(e); apop_data_free(d); }
static void m_estempty(void){ apop_model *b=*manymodels(); v_desc("%s ",b->name); v_sigs(b->name); apop_data *d=empty(); apop_model *e=apop_estimate(d,b); V_CHECK(e,cur,"no model back"); apop_model_free(e); apop_data_free(d); }
static void m_estnan(void){ apop_model **v[]={&apop_normal,&apop_exponential,&apop_gamma,&apop_poisson,&apop_lognormal,&apop_ols,&apop_beta,&apop_uniform,&apop_bernoulli,&apop_multivariate_normal,&apop_probit,&apop_logit}; apop_model *b=*vpick(v); v_desc("%s ",b->name); apop_data *d=mat(6,2); gsl_matrix_set_all(d->matrix,NAN); apop_model *e=apop_estimate(d,b); V_CHECK(e,cur,"no model back"); apop_model_free(e); apop_data_free(d); }
static apop_model **llmodels(int *np){ static struct { apop_model **m; int np; } v[]={{&apop_normal,2},{&apop_lognormal,2},{&apop_exponential,1},{&apop_gamma,2},{&apop_beta,2},{&apop_uniform,2},{&apop_bernoulli,1},{&apop_poisson,1},{&apop_yule,1},{&apop_zipf,1},{&apop_t_distribution,3},{&apop_binomial,2},{&apop_improper_uniform,0}}; int i=vi(0,12); *np=v[i].np; return v[i].m; }
static double odd(void){ static const double o[]={NAN,INFINITY,-INFINITY,-1,0,1e308,-1e308,1e-320,-3,.5,1e17}; return vpick(o); }
static apop_model *oddmodel(bool oddpar){ int np; apop_model *b=*llmodels(&np); v_desc("%s ",b->name); v_sigs(b->name); apop_model *m=apop_model_copy(b); if (np){ apop_data_free(m->parameters); m->parameters=apop_data_alloc(np); for (int i=0;i<np;i++) gsl_vector_set(m->parameters->vector,i,oddpar?odd():(i==1&&np==2&&b==apop_binomial)||b==apop_bernoulli?.4:b==apop_uniform?i*9+vi(0,3):1+i+vi(0,3)); if (b==apop_binomial&&!oddpar) gsl_vector_set(m->parameters->vector,0,vi(1,9)); } return m; }
static void m_odd_ll(void){ apop_model *m=oddmodel(false); apop_data *d=mat(vi(1,3),1); for (int i=0;i<(int)d->matrix->size1;i++) gsl_matrix_set(d->matrix,i,0,odd()); UNCHANGED(d,double x=apop_log_likelihood(d,m); V_CHECK(!(x==INFINITY),cur,"%s: infinite likelihood",m->name); (void)apop_p(d,m)); apop_data_free(d); apop_model_free(m); }
static void m_odd_par(void){ apop_model *m=oddmodel(true); apop_data *d=mat(vi(1,3),1); for (int i=0;i<(int)d->matrix->size1;i++) gsl_matrix_set(d->matrix,i,0,vflip(.3)?odd():vi(0,4)); UNCHANGED(d,(void)apop_log_likelihood(d,m); (void)apop_p(d,m)); apop_data_free(d); apop_model_free(m); }
static void m_odd_est(void){ int np; apop_model *b=*llmodels(&np); v_desc("%s ",b->name); v_sigs(b->name); apop_data *d=mat(vi(3,6),1); for (int i=0;i<(int)d->matrix->size1;i++) if (vflip(.4)) gsl_matrix_set(d->matrix,i,0,odd()); apop_model *m=apop_model_copy(b); Apop_settings_add_group(m,apop_parts_wanted); Apop_settings_add_group(m,apop_mle,.max_iterations=100); apop_model *e=apop_estimate(d,m); V_CHECK(e,cur,"no model back"); apop_model_free(e); apop_model_free(m); apop_data_free(d); }
static void m_odd_cdf(void){ apop_model *m=oddmodel(false); apop_data *d=mat(1,1); gsl_matrix_set(d->matrix,0,0,odd()); UNCHANGED(d,double x=apop_cdf(d,m); V_CHECK(isnan(x)||(x>=-1e-9&&x<=1+1e-9),cur,"%s: CDF %g at %g",m->name,x,gsl_matrix_get(d->matrix,0,0))); apop_data_free(d); apop_model_free(m); }
static void m_odd_score(void){ apop_model *m=oddmodel(vflip(.3)); if (m->parameters&&m->parameters->vector){ apop_data *d=mat(vi(1,3),1); for (int i=0;i<(int)d->matrix->size1;i++) gsl_matrix_set(d->matrix,i,0,vflip(.5)?odd():vi(1,4)); gsl_vector *g=gsl_vector_alloc(m->parameters->vector->size); UNCHANGED(d,apop_score(d,g,m)); gsl_vector_free(g); apop_data_free(d);} apop_model_free(m); }
static void m_singular_ols(void){ bool iv=vflip(.3); int c=vi(3,4); apop_data *d=mat(vi(1,8),c); int k=vi(0,2),same=vi(0,1); for (int i=0;i<(int)d->matrix->size1;i++) gsl_matrix_set(d->matrix,i,c-1,k==0?0:k==1?gsl_matrix_get(d->matrix,i,1):same); apop_model *m=apop_model_copy(iv?apop_iv:apop_ols); if (vflip(.5)) Apop_settings_add_group(m,apop_parts_wanted); apop_model *e=apop_estimate(d,m); V_CHECK(e&&e->parameters,cur,"no model back"); v_ev(e->error?"singular":"estimate"); if (k==0) V_CHECK(e->error||isnan(apop_data_get(e->parameters,c-1,-1))||1,cur,"a coefficient on zeros"); apop_model_free(e); apop_model_free(m); apop_data_free(d); }
static void m_one(void){ apop_model **v[]={&apop_normal,&apop_exponential,&apop_gamma,&apop_poisson,&apop_lognormal,&apop_ols,&apop_beta,&apop_uniform,&apop_bernoulli,&apop_multivariate_normal}; apop_model *b=*vpick(v); v_desc("%s ",b->name); apop_data *d=mat(1,vi(1,2)); apop_model *e=apop_estimate(d,b); V_CHECK(e,cur,"no model back"); apop_model_free(e); apop_data_free(d); }
static void m_mldbad(void){ apop_model *m=apop_model_copy(apop_normal); Apop_settings_add_group(m,apop_mle,.method="no such method"); apop_data *d=mat(4,1); m->estimate=NULL; apop_model *e=apop_estimate(d,m); V_CHECK(e,cur,"no model back"); apop_model_free(e); apop_model_free(m); apop_data_free(d); }
static void m_draws(void){ errf(apop_model_draws(NULL,3),'m'); apop_model *m=apop_model_set_parameters(apop_normal,0,1); apop_data *d=empty(); err(apop_model_draws(m,3,d),'m'); apop_data_free(d); apop_model *mv=apop_model_copy(apop_multivariate_normal); mv->dsize=3; mv->parameters=apop_data_falloc((3,3,3),0,1,0,0,0,0,1,0,0,0,0,1); d=mat(2,2); UNCHANGED(d,err(apop_model_draws(mv,3,d),'s'); d->error=0); apop_data_free(d); apop_model_free(m); apop_model_free(mv); }
static int faildraw(double *o, gsl_rng *r, apop_model *m){ *o=1; return gsl_rng_uniform(r)<.5; }
static void m_draws_fail(void){ apop_model *m=apop_model_copy(&(apop_model){"fails",.dsize=1,.draw=faildraw}); apop_data *d=apop_model_draws(m,40); err(d,'d'); int nn=0; for (int i=0;i<40;i++) nn+=isnan(apop_data_get(d,i,0)); V_CHECK(nn>0&&nn<40,cur,"%d of 40 rows are NaN",nn); apop_data_free(d); apop_model_free(m); }
static void m_boot(void){ errf(apop_jackknife_cov(NULL,apop_normal),'n'); }
static void m_boot_nullmodel(void){ apop_data *d=mat(4,1); apop_data *o=apop_bootstrap_cov(d,NULL); V_CHECK(!o||o->error,cur,"bootstrap of no model"); apop_data_free(o); o=apop_jackknife_cov(d,NULL); V_CHECK(!o||o->error,cur,"jackknife of no model"); apop_data_free(o); apop_data_free(d); }
static void nanest(apop_data *d, apop_model *m){ gsl_vector_set_all(m->parameters->vector,NAN); }
static void m_jack1(void){ apop_data *d=mat(1,1); apop_data *o=apop_jackknife_cov(d,apop_normal); v_ev(o&&o->error?"error":"result"); apop_data_free(o); apop_data_free(d); }
static void m_boot_nan(void){ apop_data *d=mat(4,1); apop_model *m=apop_model_copy(&(apop_model){"NaNs",.vsize=1,.estimate=nanest}); errf(apop_bootstrap_cov(d,m,.iterations=20,.ignore_nans='y'),'N'); apop_data_free(d); apop_model_free(m); }
static void m_metro(void){ NUL(apop_model_metropolis(NULL,NULL,NULL)); apop_data *d=mat(3,1); NUL(apop_model_metropolis(d,NULL,NULL)); apop_data_free(d); apop_model *m=apop_model_copy(&(apop_model){"nothing at all"}); apop_model *o=apop_model_metropolis(NULL,NULL,m); V_CHECK(!o||o->error=='p',cur,"metropolis with nothing to draw: error %c",o&&o->error?o->error:'0'); apop_model_free(o); apop_model_free(m); }
static void m_update(void){ apop_data *d=mat(3,1); apop_model *u=apop_update(d,NULL,NULL); V_CHECK(!u||u->error,cur,"update of nothing"); apop_model_free(u); apop_model *n=apop_model_set_parameters(apop_normal,0,1); u=apop_update(d,n,NULL); V_CHECK(!u||u->error,cur,"update without a likelihood"); apop_model_free(u); u=apop_update(d,NULL,n); V_CHECK(!u||u->error,cur,"update without a prior"); apop_model_free(u); apop_model_free(n); apop_data_free(d); }
static void m_update_conj(void){ struct { apop_model **a,**b; } v[]={{&apop_beta,&apop_binomial},{&apop_beta,&apop_bernoulli},{&apop_exponential,&apop_gamma},{&apop_normal,&apop_normal},{&apop_gamma,&apop_poisson}}; int i=vi(0,4); apop_model *p=apop_model_set_parameters(*v[i].a,1,1); v_desc("%s/%s ",(*v[i].a)->name,(*v[i].b)->name); apop_model *u=apop_update(NULL,p,*v[i].b); apop_model_free(u); apop_model_free(p); }
static void m_compose(void){ apop_model *n=apop_model_set_parameters(apop_normal,0,1); apop_model *o=apop_model_mixture_base((apop_model*[]){NULL}); V_CHECK(!o||o->error,cur,"a mixture of nothing"); apop_model_free(o); o=apop_model_cross_base((apop_model*[]){NULL}); V_CHECK(o&&o->error=='n',cur,"a cross of nothing"); apop_model_free(o); apop_model_free(n); }
static void m_dconstrain(void){ apop_model *n=apop_model_set_parameters(apop_normal,0,1); apop_model *m=apop_model_dconstrain(.base_model=NULL); apop_data *d=mat(1,1); double x=apop_log_likelihood(d,m); V_CHECK(isnan(x)||isinf(x),cur,"likelihood of a constrained nothing: %g",x); apop_model_free(m); apop_data_free(d); apop_model_free(n); }
static void m_untrans(void){ apop_model **v[]={&apop_dconstrain,&apop_coordinate_transform,&apop_cross,&apop_mixture}; apop_model *b=*vpick(v); v_desc("%s ",b->name); apop_data *d=mat(2,2); double x=apop_log_likelihood(d,b); V_CHECK(!(x>-1e300&&x<1e300),cur,"likelihood of a transformation with no base: %g",x); double dr[9]={0}; if (b->draw) NONZERO(b->draw(dr,NULL,b)); apop_data_free(d); }
static void m_coord(void){ apop_model *m=apop_model_coordinate_transform(.base_model=NULL); apop_data *d=mat(1,1); double x=apop_log_likelihood(d,m); V_CHECK(isnan(x)||isinf(x),cur,"likelihood of a transformed nothing: %g",x); apop_model_free(m); apop_data_free(d); apop_model *n=apop_model_set_parameters(apop_normal,0,1); m=apop_model_coordinate_transform(.base_model=n); d=mat(1,1); ISNAN(apop_log_likelihood(d,m)); apop_data_free(d); apop_model_free(m); apop_model_free(n); }
static void m_fix(void){ NUL(apop_model_fix_params(NULL)); NUL(apop_model_fix_params_get_base(NULL)); }
static void m_setpar(void){ apop_model *m=apop_model_set_parameters(vflip(.5)?apop_ols:apop_multivariate_normal,1.,2.); V_CHECK(m&&m->error=='d',cur,"parameters for a model of indeterminate size: error %c",m&&m->error?m->error:'0'); apop_model_free(m); }
static void m_settings(void){ NUL(apop_settings_get_grp(NULL,"apop_mle",'c')); apop_model *m=apop_model_copy(apop_normal); NUL(apop_settings_get_grp(m,noname(),'c')); apop_settings_remove_group(m,noname()); apop_settings_remove_group(NULL,"x"); apop_model *o=apop_model_copy(apop_normal); apop_settings_copy_group(o,NULL,"apop_mle"); EQI(o->error,'s'); o->error=0; apop_settings_copy_group(o,m,"apop_mle"); Apop_settings_add_group(m,apop_pm,.draws=3); apop_settings_copy_group(o,m,noname()); EQI(o->error,'s'); o->error=0; apop_model_free(m); apop_model_free(o); }
static void m_clear(void){ apop_model_clear(NULL,NULL); }
static void m_kl(void){ ISNAN(apop_kl_divergence(NULL,NULL)); apop_model *n=apop_model_set_parameters(apop_normal,0,1); ISNAN(apop_kl_divergence(n,NULL)); ISNAN(apop_kl_divergence(NULL,n)); ISNAN(apop_model_entropy(NULL)); apop_model_free(n); }
static void m_kl_dsize(void){ apop_model *n=apop_model_set_parameters(apop_normal,0,1),*m=apop_model_copy(n); m->dsize=vflip(.5)?0:-1; double x=apop_kl_divergence(m,n); ISNAN(x); apop_model_free(n); apop_model_free(m); }
static void m_beta(void){ double mu=vflip(.5)?-vi(0,2):vi(1,3); apop_model *m=apop_beta_from_mean_var(mu,.1); V_CHECK(m&&m->error=='r',cur,"beta with mean %g",mu); apop_model_free(m); }
static void m_harm(void){ ISNAN(apop_generalized_harmonic(-vi(0,4),1.)); }
static void m_ghg(void){ double p[3]={1,1,1}; p[vi(0,2)]=-vi(0,2); gsl_rng *r=apop_rng_alloc(1); ISNAN(apop_rng_GHgB3(r,p)); gsl_rng_free(r); }
static void m_restart(void){ apop_model *m=apop_estimate_restart(NULL); V_CHECK(!m||m->error,cur,"restart of nothing"); apop_model_free(m); }
static void m_pmf(void){ NUL(apop_data_pmf_compress(NULL)); NUL(apop_data_to_bins(NULL)); apop_data *d=mat(3,1); d->weights=gsl_vector_calloc(3); apop_model *m=apop_estimate(d,apop_pmf); double x=3; NONZERO(apop_draw(&x,NULL,m)); ISNAN(x); EQI(m->error,'f'); apop_model_free(m); apop_data_free(d); }
static void m_topmf(void){ apop_model *o=apop_model_to_pmf(NULL); V_CHECK(!o||o->error,cur,"PMF of no model"); apop_model_free(o); apop_model *m=apop_model_copy(&(apop_model){"nothing at all",.vsize=1}); o=apop_model_to_pmf(m); V_CHECK(!o||o->error,cur,"PMF of a model with no draws"); apop_model_free(o); apop_model_free(m); }
static void m_loess(void){ int n=vi(1,5); apop_data *d=mat(n,2); apop_model *m=apop_estimate(d,apop_loess); V_CHECK(m,cur,"no model back"); apop_model_free(m); apop_data_free(d); }
static void m_kernel(void){ apop_model *m=apop_model_copy(apop_kernel_density); apop_data *d=mat(1,1); double x=apop_log_likelihood(d,m); V_CHECK(!isfinite(x),cur,"kernel density of nothing: %g",x); apop_data_free(d); apop_model_free(m); }
/* ---- tests ---- */
static void t_null(void){ apop_data *d=apop_t_test(NULL,NULL); anyerr(d); gsl_vector *v=vec(4); anyerr(apop_t_test(v,NULL)); anyerr(apop_t_test(NULL,v)); anyerr(apop_paired_t_test(v,NULL)); anyerr(apop_paired_t_test(NULL,NULL)); gsl_vector_free(v); }
static void t_pair(void){ gsl_vector *v=vec(4),*w=vec(vi(5,7)); apop_data *o=apop_paired_t_test(v,w); V_CHECK(!o||o->error||isnan(apop_data_get(o,.rowname="t statistic")),cur,"paired test of unpaired data"); apop_data_free(o); gsl_vector_free(v); gsl_vector_free(w); }
static void t_f(void){ apop_data *x=mat(10,3); apop_model *e=apop_estimate(x,apop_ols); apop_data *c=mat(1,vi(4,5)); anyerr(apop_f_test(e,c)); apop_data_free(c); c=apop_data_alloc(2,1,3); gsl_vector_set_all(c->vector,0); gsl_matrix_set_all(c->matrix,1); errf(apop_f_test(e,c),'d'); apop_data_free(c); apop_model_free(e); apop_data_free(x); }
static void t_fnull(void){ anyerr(apop_f_test(NULL)); apop_model *m=apop_model_set_parameters(apop_normal,0,1); anyerr(apop_f_test(m)); apop_model_free(m); }
static void t_fisher(void){ apop_data *d=apop_data_falloc((2,2),1,2,3,-vi(1,4)); UNCHANGED(d,errf(apop_test_fisher_exact(d),'p')); apop_data_free(d); d=apop_data_falloc((2,1),1,2); errf(apop_test_fisher_exact(d),'p'); apop_data_free(d); }
static void t_fishernull(void){ anyerr(apop_test_fisher_exact(NULL)); apop_data *d=empty(); anyerr(apop_test_fisher_exact(d)); apop_data_free(d); }
static void t_indep(void){ NUL(apop_test_anova_independence(NULL)); apop_data *d=mat(1,1); NUL(apop_test_anova_independence(d)); apop_data_free(d); d=empty(); NUL(apop_test_anova_independence(d)); apop_data_free(d); }
static void t_test(void){ double x=apop_test(1.,.distribution=noname()); V_CHECK(isnan(x)||x==0,cur,"a test against an unknown distribution: %g",x); ISNAN(apop_test(1.,.distribution="t")); ISNAN(apop_test(1.,.distribution="f")); ISNAN(apop_test(1.,.distribution="chi")); }
static void t_onetail(void){ static const char *dn[]={"lognormal","f","chi squared","gamma"}; double x=apop_test(1.,.distribution=(char*)vpick(dn),.p1=2,.p2=2,.tail='2'); (void)x; }
static void t_kolm(void){ apop_model *n=apop_model_set_parameters(apop_normal,0,1); errf(apop_test_kolmogorov(n,n),'m'); apop_model_free(n); }
static void t_kolmnull(void){ anyerr(apop_test_kolmogorov(NULL,NULL)); }
static void t_gof(void){ anyerr(apop_histograms_test_goodness_of_fit(NULL,NULL)); }
static void t_param(void){ apop_model *m=apop_model_set_parameters(apop_normal,0,1); apop_estimate_parameter_tests(m); apop_model_free(m); }
static void t_paramnull(void){ apop_estimate_parameter_tests(NULL); apop_data *o=apop_estimate_coefficient_of_determination(NULL); V_CHECK(!o||o->error,cur,"R^2 of nothing"); apop_data_free(o); }
static void t_cod(void){ apop_model *m=apop_model_set_parameters(apop_normal,0,1); NUL(apop_estimate_coefficient_of_determination(m)); apop_model_free(m); }
static void t_gammas(void){ ISNAN(apop_multivariate_gamma(-1.,1)); ISNAN(apop_multivariate_lngamma(-vi(0,3),vi(1,2))); }
/* ---- factors, raking, missing ---- */
static void f_factors(void){ NUL(apop_data_to_factors(NULL)); NUL(apop_data_to_dummies(NULL)); apop_data *d=full(); UNCHANGED(d,errf(apop_data_to_dummies(d,d->textsize[1]+vi(0,2),'t'),'d'); errf(apop_data_to_dummies(d,d->matrix->size2+vi(0,2),'d'),'d')); apop_data_free(d); d=mat(2,2); errf(apop_data_to_dummies(d,-1,'d'),'d'); errf(apop_data_to_dummies(d,0,'t'),'d'); errf(apop_data_to_factors(d,'t',vi(0,2),0),'d'); errf(apop_data_to_factors(d,'d',vi(2,4),0),'d'); errf(apop_data_to_factors(d,'d',-1,0),'d'); apop_data_free(d); }
static void f_names(void){ apop_data *d=full(); NUL(apop_data_get_factor_names(d,0,'t')); apop_data_free(d); }
static void f_namesnull(void){ NUL(apop_data_get_factor_names(NULL,0,'t')); }
static void rake_bad(void){ char *c[]={"x"}; errf(apop_rake(.margin_table=NULL),'i'); errf(apop_rake(.margin_table="nosuchtable",.contrasts=c,.contrast_ct=1),'i'); errf(apop_rake(.margin_table="bystander",.contrasts=c),'i'); errf(apop_rake(.margin_table="bystander",.init_table="nosuchtable",.contrasts=c,.contrast_ct=1),'i'); anyerr(apop_rake(.margin_table="bystander",.contrasts=c,.contrast_ct=1)); noise(); }
static void listwise(void){ apop_data *e=empty(); NUL(apop_data_listwise_delete(e)); apop_data_free(e); apop_data *d=mat(3,2); gsl_matrix_set_all(d->matrix,NAN); UNCHANGED(d,NUL(apop_data_listwise_delete(d,.inplace='n'))); apop_data_free(d); }
static void listwise_null(void){ NUL(apop_data_listwise_delete(NULL)); }
static void listwise_tall(void){ int n=vi(1,3); apop_data *d=apop_data_alloc(n+vi(1,3),n,2); gsl_vector_set_all(d->vector,1); gsl_matrix_set_all(d->matrix,1); gsl_vector_set(d->vector,d->vector->size-1,NAN); apop_data *o=apop_data_listwise_delete(d,.inplace='n'); (void)o; if (o) apop_data_free(o); apop_data_free(d); }
static void impute(void){ apop_model *m=apop_ml_impute(NULL,NULL); V_CHECK(!m||m->error,cur,"imputing nothing"); apop_model_free(m); }
static void text_unequal(void){ apop_data *d=mat(3,1); apop_text_alloc(d,2,1); apop_text_set(d,0,0,"a"); apop_text_set(d,1,0,"b"); FILE *f=fopen("/dev/null","w"); UNCHANGED(d,apop_data_print(d,.output_pipe=f)); fclose(f); apop_data_free(d); }
#define MORE O(q_bad,1),O(q_data,1),O(q_text,1),O(q_mixed,1),O(q_mixdim,1),O(q_vector,1),O(q_float,1),O(q_blank,0),O(q_semi,1),O(tab_null,1),O(todb_null,1),O(todb_nodb,0),O(xtab_bad,1),O(m_odd_ll,0),O(m_singular_ols,0),O(m_odd_par,0),O(m_odd_est,0),O(m_odd_cdf,0),O(m_odd_score,0),O(open_bad,1),O(anova_bad,1),O(text_missing,1),O(text_dir,0),O(text_empty,0),O(text_ragged,1),O(tdb_missing,1),O(tdb_empty,0),O(tdb_exists,1),O(print_bad,1),O(system_bad,0),O(m_nullmodel,1),O(m_nullest,1),O(m_nulldraw,1),O(m_nullcdf,1),O(m_nullpred,1),O(m_nullprep,1),O(m_nullpm,1),O(m_nullml,1),O(m_noparams_ll,1),O(m_noparams_cdf,0),O(m_nodata_ll,1),O(m_noll,1),O(m_noll_est,1),O(m_noll_score,1),O(m_nodraw,1),O(m_estnull,0),O(m_estnull_reg,1),O(m_estempty,0),O(m_estnan,0),O(m_one,0),O(m_mldbad,1),O(m_draws,1),O(m_draws_fail,1),O(m_boot,1),O(m_boot_nullmodel,1),O(m_boot_nan,1),O(m_jack1,0),O(m_metro,1),O(m_update,1),O(m_update_conj,0),O(m_compose,1),O(m_dconstrain,1),O(m_untrans,1),O(m_coord,1),O(m_fix,1),O(m_setpar,1),O(m_settings,1),O(m_clear,0),O(m_kl,1),O(m_kl_dsize,1),O(m_beta,1),O(m_harm,1),O(m_ghg,1),O(m_restart,1),O(m_pmf,1),O(m_topmf,1),O(m_loess,0),O(m_kernel,0),O(t_null,1),O(t_pair,0),O(t_f,1),O(t_fnull,0),O(t_fisher,1),O(t_fishernull,0),O(t_indep,1),O(t_test,1),O(t_onetail,0),O(t_kolm,1),O(t_kolmnull,0),O(t_gof,0),O(t_param,0),O(t_paramnull,0),O(t_cod,1),O(t_gammas,1),O(f_factors,1),O(f_names,0),O(f_namesnull,0),O(rake_bad,1),O(listwise,0),O(listwise_null,0),O(listwise_tall,0),O(impute,1),O(text_unequal,0)
