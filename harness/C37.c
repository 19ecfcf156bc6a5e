#include "vh.h"
const char *vh_rule = "Listwise deletion over data sets of every combination of vector, matrix, weights, text, names and pages with missing cells scattered in each part (none, some, all rows) and every kind of NaN string, in a copy and in place, against a row-by-row reference; maximum likelihood imputation over Normals and Multivariate Normals with random missing cells against the conditional mean, observed cells bit for bit; missing values sent through database tables and text files under one NaN string. Distinct by data and settings.";
typedef long double L;
static const char *nans[]={"NaN","Missing",".","N/A","-999","x y",NULL};
static void casing(char *s){ for (;*s;s++) if (vflip(.4)) *s=isupper(*s)?tolower(*s):toupper(*s); }
static void f_listwise(void){
    vh_shape s={0}; int n=vflip(.1)?1:vi(2,12); if (vflip(.5)) s.vsize=n; if (vflip(.6)){ s.m1=n; s.m2=vi(1,4); } if (vflip(.4)){ s.t1=n; s.t2=vi(1,3); } if (!s.vsize&&!s.m1&&!s.t1) s.m1=n,s.m2=2; if (vflip(.35)) s.wsize=n; s.rownames=vflip(.5); s.colnames=vflip(.5); s.textnames=vflip(.5); s.vecname=vflip(.5); s.title=vflip(.3); s.pages=vflip(.25)?1:0;
    apop_data *d=vh_data(s); apop_opts.nan_string=(char*)vpick(nans); double rate=vpick(((double[]){0,.05,.15,.4,1})); int bad[16]={0},k=0,pick[16]; char buf[40];
    for (int i=0;i<n;i++){ if (s.vsize&&vflip(rate*.5)) gsl_vector_set(d->vector,i,NAN); for (int j=0;j<s.m2;j++) if (vflip(rate)) gsl_matrix_set(d->matrix,i,j,vflip(.2)?-NAN:NAN); if (s.wsize&&vflip(rate*.3)) gsl_vector_set(d->weights,i,NAN); for (int j=0;j<s.t2;j++) if (vflip(rate*.7)){ const char *z=apop_opts.nan_string&&vflip(.8)?apop_opts.nan_string:vpick(((const char*[]){"NaN","Missing","","nanx"})); strcpy(buf,z); casing(buf); apop_text_set(d,i,j,"%s",buf); } if (s.vsize&&vflip(.05)) gsl_vector_set(d->vector,i,INFINITY); }
    for (int i=0;i<n;i++){ if (s.vsize) bad[i]|=isnan(d->vector->data[i]); for (int j=0;j<s.m2;j++) bad[i]|=isnan(gsl_matrix_get(d->matrix,i,j)); if (s.wsize) bad[i]|=isnan(d->weights->data[i]); for (int j=0;j<s.t2;j++) bad[i]|=apop_opts.nan_string&&!strcasecmp(apop_opts.nan_string,d->text[i][j]); if (!bad[i]) pick[k++]=i; }
    vh_sig_data(d); v_sigs(apop_opts.nan_string?apop_opts.nan_string:"null"); int inplace=vflip(.5); v_sigd(inplace); v_desc("listwise deletion%s of %d of %d rows: vector %d, matrix %dx%d, text %dx%d, weights %d, NaN string %s",inplace?" in place":"",n-k,n,s.vsize,s.m1,s.m2,s.t1,s.t2,s.wsize,apop_opts.nan_string?apop_opts.nan_string:"(none)");
    apop_data *keep=apop_data_copy(d),*ref=k?vh_pick_rows(d,pick,k):NULL,*o=inplace?apop_data_listwise_delete(d,'y'):vflip(.5)?apop_data_listwise_delete(d):apop_data_listwise_delete(d,.inplace='n'); v_evn("rows_dropped",n-k); v_evn("rows_kept",k);
    if (!k){ V_CHECK(!o,"all-missing","not NULL though every row has something missing"); if (!inplace) vh_same(d,keep,1,"input","the input"); }
    else if (V_CHECK(o&&!o->error,"null","no output")){ V_CHECK((o==d)==inplace,"inplace","%s",inplace?"not the input":"the input itself"); if (!inplace) vh_same(d,keep,1,"input","the input"); if (keep->more) vh_same(o->more,keep->more,1,"pages","the next page"); apop_data *c=apop_data_copy(o); vh_strip(c,1,1); vh_strip(ref,1,1); vh_same(c,ref,0,"rows","the rows kept"); apop_data_free(c); if (s.title) V_STR(o->names->title,keep->names->title,"title","title"); for (int i=0;i<k;i++) if (s.wsize) V_EQ(o->weights->data[i],keep->weights->data[pick[i]],"rows","weight %d",i); apop_data *again=apop_data_listwise_delete(o); if (V_CHECK(again,"again","NULL from a set with nothing missing")) vh_same(again,o,1,"again","deletion from a set with nothing missing"); apop_data_free(again); }
    if (o&&o!=d) apop_data_free(o); if (ref) apop_data_free(ref); apop_data_free(keep); apop_data_free(d); apop_opts.nan_string="NaN";
}
static int solve(int k,L A[5][5],L *b){ for (int c=0;c<k;c++){ int p=c; for (int r=c;r<k;r++) if (fabsl(A[r][c])>fabsl(A[p][c])) p=r; if (fabsl(A[p][c])<1e-12) return 1; for (int j=0;j<k;j++){ L t=A[c][j]; A[c][j]=A[p][j]; A[p][j]=t; } L t=b[c]; b[c]=b[p]; b[p]=t; for (int r=0;r<k;r++) if (r!=c){ L f=A[r][c]/A[c][c]; for (int j=0;j<k;j++) A[r][j]-=f*A[c][j]; b[r]-=f*b[c]; } } for (int c=0;c<k;c++) b[c]/=A[c][c]; return 0; }
static void f_impute(void){
    int k=vi(2,4),n=vi(6,14),given=vflip(.6),miss=0,most=vi(1,3); double C[4][4],mu[4],F[4][4]; for (int a=0;a<k;a++){ mu[a]=vnorm()*2; for (int b=0;b<k;b++) F[a][b]=vnorm()*.5+(a==b); } for (int a=0;a<k;a++) for (int b=0;b<k;b++){ C[a][b]=a==b?.3:0; for (int c=0;c<k;c++) C[a][b]+=F[a][c]*F[b][c]; }
    apop_data *d=apop_data_alloc(0,given?vi(1,6):n,k); n=d->matrix->size1; for (int i=0;i<n;i++){ double z[4]; for (int a=0;a<k;a++) z[a]=vnorm(); for (int a=0;a<k;a++){ double x=mu[a]; for (int c=0;c<k;c++) x+=F[a][c]*z[c]; apop_data_set(d,i,a,x); } } if (vflip(.5)){ apop_name_add(d->names,"r0",'r'); for (int a=0;a<k;a++) apop_name_add(d->names,"c",'c'); }
    while (miss<most){ int i=given?vi(0,n-1):vi(0,1),a=vi(0,k-1); if (vflip(.9)||1){ int cnt=0; for (int b=0;b<k;b++) cnt+=isnan(apop_data_get(d,i,b)); if (cnt+1>(given?k:k-1)) { miss++; continue; } } apop_data_set(d,i,a,NAN); miss++; } vh_sig_data(d); for (int a=0;a<k;a++){ v_sigd(mu[a]); v_sigd(C[a][a]); } v_desc("imputation of %d by %d, up to %d missing, %s",n,k,miss,given?"given a model":"by default");
    apop_data *keep=apop_data_copy(d); apop_model *m=NULL; if (given){ m=apop_model_copy(apop_multivariate_normal); m->parameters=apop_data_alloc(k,k,k); for (int a=0;a<k;a++){ apop_data_set(m->parameters,a,-1,mu[a]); for (int b=0;b<k;b++) apop_data_set(m->parameters,a,b,C[a][b]); } m->dsize=k; }
    else { int r=0; double X[16][4]; for (int i=0;i<n;i++){ int b=0; for (int a=0;a<k;a++) b|=isnan(apop_data_get(d,i,a)); if (!b){ for (int a=0;a<k;a++) X[r][a]=apop_data_get(d,i,a); r++; } } if (r<k+2){ v_trivial(); goto done; } for (int a=0;a<k;a++){ mu[a]=0; for (int i=0;i<r;i++) mu[a]+=X[i][a]/r; } for (int a=0;a<k;a++) for (int b=0;b<k;b++){ C[a][b]=0; for (int i=0;i<r;i++) C[a][b]+=(X[i][a]-mu[a])*(X[i][b]-mu[b])/(r-1); } }
    apop_data *pk=m?apop_data_copy(m->parameters):NULL; apop_model *e=apop_ml_impute(d,m); int any=0; for (int i=0;i<n;i++){ int mi[4],oi[4],q=0,o=0; for (int a=0;a<k;a++) if (isnan(apop_data_get(keep,i,a))) mi[q++]=a; else oi[o++]=a; L A[5][5],w[5]; for (int x=0;x<o;x++){ w[x]=apop_data_get(keep,i,oi[x])-mu[oi[x]]; for (int y=0;y<o;y++) A[x][y]=C[oi[x]][oi[y]]; V_EQ(apop_data_get(d,i,oi[x]),apop_data_get(keep,i,oi[x]),"observed","observed cell %d,%d changed",i,oi[x]); } if (!q) continue; any=1; if (o&&solve(o,A,w)){ v_trivial(); goto fin; } for (int z=0;z<q;z++){ L t=mu[mi[z]]; for (int x=0;x<o;x++) t+=C[mi[z]][oi[x]]*w[x]; double got=apop_data_get(d,i,mi[z]); if (V_CHECK(!isnan(got),"missing","cell %d,%d still missing",i,mi[z])) V_CLOSE(got,(double)t,2e-2,2e-2*sqrt(C[mi[z]][mi[z]]),"value","imputed cell %d,%d",i,mi[z]); v_ev("cells_imputed"); } }
    if (!any) v_trivial(); if (m) vh_same(m->parameters,pk,0,"model","parameters of the model given"); V_CHECK(d->matrix->size1==n&&d->matrix->size2==k,"shape","shape changed"); if (keep->names->colct) V_STR(d->names->col[0],"c","names","column name");
    fin: if (pk) apop_data_free(pk); if (e) apop_model_free(e); done: if (m) apop_model_free(m); apop_data_free(keep); apop_data_free(d);
}
static void f_univariate(void){
    int n=vi(1,5),w=vi(0,3); double mu=vnorm()*5,sg=vd(.5,8); apop_data *d=apop_data_alloc(0,n,1); int q=0; for (int i=0;i<n;i++){ int b=vflip(.5)&&q<3; apop_data_set(d,i,0,b?NAN:mu+sg*vnorm()); q+=b; } if (!q){ apop_data_set(d,0,0,NAN); q=1; } vh_sig_data(d); v_sigd(mu); v_sigd(w); v_desc("prediction, %d of %d from a %s",q,n,w==3?"Lognormal":"Normal"); apop_model *m=apop_model_set_parameters(w==3?apop_lognormal:apop_normal,w==3?mu/5:mu,w==3?sg/8:sg); apop_data *keep=apop_data_copy(d);
    if (w==0){ apop_model *e=apop_ml_impute(d,m); apop_model_free(e); for (int i=0;i<n;i++){ double was=apop_data_get(keep,i,0); if (isnan(was)){ V_CLOSE(apop_data_get(d,i,0),mu,1e-2,2e-2*sg,"value","imputed cell %d",i); v_ev("cells_imputed"); } else V_EQ(apop_data_get(d,i,0),was,"observed","cell %d",i); } }
    else { apop_data *o=apop_predict(w==1?d:NULL,m); double want=w==3?exp(mu/5+sg*sg/128):mu; if (V_CHECK(o,"null","no prediction")){ V_CLOSE(apop_data_get(o,0,o->vector?-1:0),want,1e-9,1e-12,"expected","expected value"); v_ev("expected_values"); if (o!=d) apop_data_free(o); } if (w==1) for (int i=0;i<n;i++) if (!isnan(apop_data_get(keep,i,0))) V_EQ(apop_data_get(d,i,0),apop_data_get(keep,i,0),"observed","cell %d",i); }
    apop_model_free(m); apop_data_free(keep); apop_data_free(d);
}
static void f_predict(void){ /* a model with nothing of its own to predict with: the imputation does it, in the data given */
    int k=vi(2,3),n=vi(1,4),fill=vflip(.15); double mu[3],s[3][3]; for (int a=0;a<k;a++) mu[a]=vnorm()*3; for (int a=0;a<k;a++) for (int b=0;b<=a;b++) s[a][b]=s[b][a]=a==b?vd(.8,2):vd(-.3,.3); apop_model *m=apop_model_copy(apop_multivariate_normal); m->parameters=apop_data_alloc(k,k,k); m->dsize=k; for (int a=0;a<k;a++){ apop_data_set(m->parameters,a,-1,mu[a]); for (int b=0;b<k;b++) apop_data_set(m->parameters,a,b,s[a][b]); } apop_data *pk=apop_data_copy(m->parameters),*d=fill?NULL:apop_data_alloc(0,n,k); if (fill) n=1; int q=0; double was[4][3]; for (int i=0;i<n;i++) for (int a=0;a<k;a++){ was[i][a]=fill?NAN:mu[a]+vnorm(); int mi=!fill&&vflip(.4)&&q<4; if (mi){ was[i][a]=NAN; q++; } if (d) apop_data_set(d,i,a,was[i][a]); v_sigd(was[i][a]); } v_desc("prediction of %d by %d%s, %d missing",n,k,fill?" from no data":"",q);
    apop_data *o=apop_predict(d,m); if (V_CHECK(o&&o->matrix&&o->matrix->size1==n&&o->matrix->size2==k,"null","no prediction")){ if (d) V_CHECK(o==d,"same","another data set returned"); for (int i=0;i<n;i++) for (int a=0;a<k;a++) if (!isnan(was[i][a])) V_EQ(apop_data_get(o,i,a),was[i][a],"observed","cell %d,%d",i,a); else { double g=0,sc=0; L A[5][5],w[5]; for (int x=0;x<k;x++){ for (int y=0;y<k;y++) A[x][y]=s[x][y]; w[x]=apop_data_get(o,i,x)-mu[x]; } if (!V_CHECK(!isnan(apop_data_get(o,i,a)),"missing","cell %d,%d still missing",i,a)) continue; if (!solve(k,A,w)){ g=w[a]; sc=1/s[a][a]; V_CHECK(fabs(g)<2e-2*fmax(1,sc),"slope","slope of the likelihood %g at the filled in cell %d,%d",g,i,a); v_ev("cells_imputed"); } } }
    vh_same(m->parameters,pk,0,"model","parameters of the model"); if (o&&o!=d) apop_data_free(o); if (d) apop_data_free(d); apop_data_free(pk); apop_model_free(m);
}
static int isn(const char *s){ return apop_opts.nan_string&&!strcasecmp(apop_opts.nan_string,s); }
static void f_nanstring(void){
    apop_opts.nan_string=(char*)vpick(nans); int n=vi(1,8),k=vi(1,3),file=vflip(.4); static char X[8][4][40]; for (int i=0;i<n;i++) for (int j=0;j<k;j++){ double r=vd(0,1); if (r<.25&&apop_opts.nan_string){ strcpy(X[i][j],apop_opts.nan_string); casing(X[i][j]); } else if (r<.35&&!file) strcpy(X[i][j],"\1"); else sprintf(X[i][j],"%g",vint_val()); v_sigs(X[i][j]); } v_sigs(apop_opts.nan_string?apop_opts.nan_string:"null"); v_desc("missing values %s, %d by %d, NaN string %s",file?"in a text file":"in a table",n,k,apop_opts.nan_string?apop_opts.nan_string:"(none)");
    if (apop_opts.nan_string&&!strcmp(apop_opts.nan_string,"x y")&&file){ v_trivial(); apop_opts.nan_string="NaN"; return; }
    if (file){ FILE *f=fopen("nan.csv","w"); for (int j=0;j<k;j++) fprintf(f,"%sc%d",j?",":"",j); fprintf(f,"\n"); for (int i=0;i<n;i++){ for (int j=0;j<k;j++) fprintf(f,"%s%s",j?",":"",X[i][j]); fprintf(f,"\n"); } fclose(f); apop_table_exists("nt",'d'); V_CHECK(apop_text_to_db("nan.csv","nt",.has_row_names='n',.has_col_names='y')>=0,"file","file not read");
        apop_data *fd=apop_text_to_data("nan.csv",.has_row_names='n',.has_col_names='y'); if (V_CHECK(fd&&fd->matrix&&fd->matrix->size1==n&&fd->matrix->size2==k,"file","not a matrix")) for (int i=0;i<n;i++) for (int j=0;j<k;j++) if (isn(X[i][j])) V_CHECK(isnan(apop_data_get(fd,i,j)),"text-to-data","'%s' read as %g",X[i][j],apop_data_get(fd,i,j)); else if (strcasecmp(X[i][j],"nan")) V_EQ(apop_data_get(fd,i,j),atof(X[i][j]),"text-to-data","cell %d,%d",i,j); apop_data_free(fd); unlink("nan.csv"); }
    else { apop_table_exists("nt",'d'); apop_query("create table nt (c0%s%s)",k>1?", c1":"",k>2?", c2":""); for (int i=0;i<n;i++){ char q[400]="insert into nt values("; for (int j=0;j<k;j++){ if (j) strcat(q,","); if (X[i][j][0]=='\1') strcat(q,"NULL"); else { char *e; strtod(X[i][j],&e); sprintf(q+strlen(q),*e||isalpha(X[i][j][0])?"'%s'":"%s",X[i][j]); } } strcat(q,")"); apop_query("%s",q); } }
    apop_data *d=apop_query_to_data("select * from nt"); gsl_vector *v=apop_query_to_vector("select * from nt"); apop_data *t=apop_query_to_text("select * from nt"); apop_data *mx=apop_query_to_mixed_data(k==1?"m":k==2?"mt":"vmt","select * from nt");
    if (V_CHECK(d&&d->matrix&&d->matrix->size1==n&&v&&t&&t->textsize[0]==n&&mx,"rows","matrix rows %d, vector %d, text %d, mixed %d of %d",d&&d->matrix?(int)d->matrix->size1:-1,v?(int)v->size:-1,t?(int)t->textsize[0]:-1,!!mx,n)) for (int i=0;i<n;i++) for (int j=0;j<k;j++){ const char *x=X[i][j]; int null=x[0]=='\1'||(file&&isn(x)),nan=null||isn(x); double got=apop_data_get(d,i,j); if (nan) V_CHECK(isnan(got),"to-data","'%s' queried as %g",null?"NULL":x,got); else if (strcasecmp(x,"nan")) V_EQ(got,atof(x),"to-data","cell %d,%d",i,j); if (j==0){ if (nan) V_CHECK(isnan(v->data[i]),"to-vector","'%s' queried as %g",null?"NULL":x,v->data[i]); else if (strcasecmp(x,"nan")) V_EQ(v->data[i],atof(x),"to-vector","element %d",i); double mg=k==3?gsl_vector_get(mx->vector,i):apop_data_get(mx,i,0); if (nan) V_CHECK(isnan(mg),"to-mixed","'%s' queried as %g",null?"NULL":x,mg); else if (strcasecmp(x,"nan")) V_EQ(mg,atof(x),"to-mixed","element %d",i); }
        if (null){ if (apop_opts.nan_string) V_STR(t->text[i][j],apop_opts.nan_string,"to-text","NULL in text"); } else if (nan) V_CHECK(isn(t->text[i][j]),"to-text","'%s' for '%s'",t->text[i][j],x); else if (!file&&strcasecmp(x,"nan")) V_EQ(atof(t->text[i][j]),atof(x),"to-text","text cell"); if (j==k-1&&k>1&&null&&apop_opts.nan_string) V_STR(mx->text[i][0],apop_opts.nan_string,"to-mixed","NULL in text"); v_ev("cells_read"); }
    if (d&&d->matrix){ /* and back again */ apop_table_exists("nt2",'d'); apop_data_print(d,.output_name="nt2",.output_type='d'); apop_data *b=apop_query_to_data("select * from nt2"); if (V_CHECK(b&&b->matrix&&b->matrix->size1==n,"back","%d by %d: %d rows where there were %d",n,k,b&&b->matrix?(int)b->matrix->size1:-1,n)) for (int i=0;i<n;i++) for (int j=0;j<k;j++) V_EQ(apop_data_get(b,i,j),apop_data_get(d,i,j),"back","matrix cell %d,%d",i,j); apop_data_free(b); int bad=0; for (int i=0;i<n;i++) bad+=apop_query_to_float("select count(*) from (select * from nt2 limit 1 offset %d) where c0 is null",i)!=(isnan(apop_data_get(d,i,0))!=0); V_CHECK(!bad,"back","%d missing cells not NULL in the table",bad); if (apop_opts.nan_string){ apop_table_exists("nt3",'d'); apop_data_print(t,.output_name="nt3",.output_type='d'); apop_data *bt=apop_query_to_text("select * from nt3"); if (V_CHECK(bt&&bt->textsize[0]==n,"back","text rows lost")) for (int i=0;i<n;i++) for (int j=0;j<k;j++) if (isn(t->text[i][j])) V_STR(bt->text[i][j],apop_opts.nan_string,"back","missing text"); else V_STR(bt->text[i][j],t->text[i][j],"back","text cell"); apop_data_free(bt); } }
    apop_data_free(d); gsl_vector_free(v); apop_data_free(t); apop_data_free(mx); apop_opts.nan_string="NaN";
}
vh_family vh_families[] = { {"listwise",f_listwise,4000,200000}, {"impute",f_impute,500,5000}, {"univariate",f_univariate,500,5000}, {"predict",f_predict,500,5000}, {"nanstring",f_nanstring,800,20000}, {0} };
