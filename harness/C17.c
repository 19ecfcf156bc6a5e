#include "vh.h"
const char *vh_rule = "Random vectors, matrices and strided views of every conformable and non-conformable shape with every transpose flag; products, inverses and determinants compared with long double computations, principal components with their defining equations, and the GSL error handler and inputs checked after each call. Distinct by data and flags.";
static gsl_matrix *rmat(int r,int c,gsl_matrix **own){ *own=gsl_matrix_alloc(r+1,c+2); gsl_matrix_set_all(*own,-55); gsl_matrix *m=malloc(sizeof *m); *m=gsl_matrix_submatrix(*own,1,1,r,c).matrix; for (int i=0;i<r;i++) for (int j=0;j<c;j++) gsl_matrix_set(m,i,j,vflip(.3)?vi(-9,9):vnorm()*(vflip(.05)?1e5:1)); return m; }
static gsl_vector *rvec(int n,gsl_vector **own){ int st=vi(1,3); *own=gsl_vector_alloc(n*st+1); gsl_vector_set_all(*own,-44); gsl_vector *v=malloc(sizeof *v); *v=gsl_vector_subvector_with_stride(*own,0,st,n).vector; for (int i=0;i<n;i++) gsl_vector_set(v,i,vflip(.3)?vi(-9,9):vnorm()); return v; }
static apop_data *operand(int kind,int r,int c,int vn,gsl_matrix **om,gsl_vector **ov){ // kind bits: 1 matrix, 2 vector
    apop_data *d=apop_data_alloc(); *om=NULL; *ov=NULL; if (kind&1) d->matrix=rmat(r,c,om); if (kind&2) d->vector=rvec(vn,ov); char b[30]; if (kind&1){ if (vflip(.6)) for (int i=0;i<r;i++) { sprintf(b,"r%d",i); apop_name_add(d->names,b,'r'); } if (vflip(.6)) for (int i=0;i<c;i++){ sprintf(b,"c%d",i); apop_name_add(d->names,b,'c'); } } return d; }
static void opfree(apop_data *d,gsl_matrix *om,gsl_vector *ov){ free(d->matrix); d->matrix=NULL; free(d->vector); d->vector=NULL; apop_data_free(d); gsl_matrix_free(om); gsl_vector_free(ov); }
static void f_dot(void){
    char F[]={0,'n','t','p','v',1}; int k1=vi(1,3),k2=vi(1,3); char f1=vpick(F),f2=vpick(F); int a=vi(1,vflip(.1)?30:6), b=vi(1,6), c=vi(1,6);
    int u1=(k1&1)&&f1!='v', u2=(k2&1)&&f2!='v'; int miss=vflip(.1); int missdim=miss?b+vi(1,3):b;
    int t1=f1=='t'||f1=='p'||f1==1, t2=f2=='t'||f2=='p'||f2==1; if (!u1) t1=0; if (!u2) t2=0;
    gsl_matrix *o1,*o2; gsl_vector *w1,*w2; apop_data *d1=operand(k1,t1?b:a,t1?a:b,u1?vi(1,6):b,&o1,&w1), *d2=operand(k2,t2?c:missdim,t2?missdim:c,u2?vi(1,6):missdim,&o2,&w2);
    int noL=(f1=='v'&&!(k1&2)), noR=(f2=='v'&&!(k2&2)); vh_sig_data(d1); vh_sig_data(d2); v_sig(&f1,1); v_sig(&f2,1); v_desc("kinds %d %d, forms %d %d, %dx%d . %dx%d",k1,k2,f1,f2,a,b,missdim,c); if (miss) v_ev("nonconformable");
    char *b1=vh_dump(d1,true),*b2=vh_dump(d2,true); apop_data *o= f1==0&&f2==0&&vflip(.5)? apop_dot(d1,d2) : f1==0? apop_dot(d1,d2,.form2=f2) : apop_dot(d1,d2,f1,f2); char *a1=vh_dump(d1,true),*a2=vh_dump(d2,true); V_STR(a1,b1,"input","left input"); V_STR(a2,b2,"input","right input"); free(a1); free(a2); free(b1); free(b2);
    V_CHECK(vh_gsl_handler_intact(),"handler","the GSL error handler was left changed"); gsl_set_error_handler(NULL);
    if (noL||noR){ V_CHECK(!o||o->error,"novec","a product of a missing vector"); v_ev("missing_vectors"); goto done; }
    if (miss){ V_CHECK(o&&(o->error=='d'||(!u1&&!u2&&o->error=='m')),"dims","non-conformable: error %d",o?o->error:-1); goto done; }
    if (!V_CHECK(o&&!o->error,"noout","no product, error %d",o?o->error:-1)) goto done;
    int R=u1?a:1, C=u2?c:1; if (u1&&u2) V_CHECK(o->matrix&&!o->vector&&(int)o->matrix->size1==R&&(int)o->matrix->size2==C,"shape","matrix product's shape"); else V_CHECK(o->vector&&!o->matrix&&(int)o->vector->size==R*C,"shape","vector product's shape"); if (v_nfails()) goto done;
    for (int i=0;i<R;i++) for (int j=0;j<C;j++){ long double s=0,sa=0; for (int k=0;k<b;k++){ long double x=u1?(t1?gsl_matrix_get(d1->matrix,k,i):gsl_matrix_get(d1->matrix,i,k)):gsl_vector_get(d1->vector,k), y=u2?(t2?gsl_matrix_get(d2->matrix,j,k):gsl_matrix_get(d2->matrix,k,j)):gsl_vector_get(d2->vector,k); s+=x*y; sa+=fabsl(x*y); }
        V_CLOSE(o->matrix?gsl_matrix_get(o->matrix,i,j):gsl_vector_get(o->vector,i*C+j),(double)s,0,1e-14*b*sa+1e-300,"product","%d,%d",i,j); v_ev("elements"); }
    if (u1){ int n=t1?d1->names->colct:d1->names->rowct; char **nm=t1?d1->names->col:d1->names->row; V_CHECK(o->names->rowct==n,"rownames","%d row names, want %d",o->names->rowct,n); for (int i=0;i<n&&i<o->names->rowct;i++) V_STR(o->names->row[i],nm[i],"rownames","%d",i); }
    if (u2){ int n=t2?d2->names->rowct:d2->names->colct; char **nm=t2?d2->names->row:d2->names->col; V_CHECK(o->names->colct==n,"colnames","%d column names, want %d",o->names->colct,n); for (int i=0;i<n&&i<o->names->colct;i++) V_STR(o->names->col[i],nm[i],"colnames","%d",i); }
    done: apop_data_free(o); opfree(d1,o1,w1); opfree(d2,o2,w2);
    if (vflip(.03)){ apop_data *e=apop_data_alloc(), *v=apop_data_alloc(2); gsl_vector_set_all(v->vector,1); V_CHECK(!apop_dot(NULL,v)&&!apop_dot(v,NULL),"null","NULL operand"); apop_data *x=apop_dot(e,v); V_CHECK(!x||x->error,"empty","product of an empty set"); apop_data_free(x); V_CHECK(vh_gsl_handler_intact(),"handler2","the GSL error handler was left changed"); gsl_set_error_handler(NULL); apop_data_free(e); apop_data_free(v); }
}
static long double lu(int n,long double *A,long double *inv){ // determinant and inverse by Gauss-Jordan with full row pivoting
    long double det=1; for (int i=0;i<n;i++) for (int j=0;j<n;j++) inv[i*n+j]=i==j;
    for (int k=0;k<n;k++){ int p=k; for (int i=k;i<n;i++) if (fabsl(A[i*n+k])>fabsl(A[p*n+k])) p=i; if (A[p*n+k]==0) return 0;
        if (p!=k){ det=-det; for (int j=0;j<n;j++){ long double t=A[p*n+j]; A[p*n+j]=A[k*n+j]; A[k*n+j]=t; t=inv[p*n+j]; inv[p*n+j]=inv[k*n+j]; inv[k*n+j]=t; } }
        det*=A[k*n+k]; long double d=A[k*n+k]; for (int j=0;j<n;j++){ A[k*n+j]/=d; inv[k*n+j]/=d; }
        for (int i=0;i<n;i++) if (i!=k){ long double f=A[i*n+k]; if (f) for (int j=0;j<n;j++){ A[i*n+j]-=f*A[k*n+j]; inv[i*n+j]-=f*inv[k*n+j]; } } }
    return det; }
static void f_inv(void){
    int n=vi(1,vflip(.1)?15:6), c=vflip(.08)?n+vi(1,2):n; gsl_matrix *own; gsl_matrix *m=rmat(n,c,&own); int sing=0; if (vflip(.12)&&n>1&&c==n){ sing=1; for (int i=0;i<n;i++) for (int j=0;j<n;j++) gsl_matrix_set(m,i,j,vi(-3,3)); int a=vi(0,n-1),b; do b=vi(0,n-1); while (b==a); if (vflip(.5)) for (int j=0;j<n;j++) gsl_matrix_set(m,a,j,gsl_matrix_get(m,b,j)); else for (int j=0;j<n;j++) gsl_matrix_set(m,j,a,0); }
    if (vflip(.2)) gsl_matrix_scale(m,pow(10,vi(-8,8))); gsl_matrix *copy=gsl_matrix_alloc(n,c); gsl_matrix_memcpy(copy,m); for (int i=0;i<n;i++) for (int j=0;j<c;j++) v_sigd(gsl_matrix_get(m,i,j)); v_desc("%dx%d%s",n,c,sing?" singular":"");
    gsl_matrix *inv=(void*)1, *inv2; double det=apop_matrix_determinant(m); V_CHECK(vh_gsl_handler_intact(),"handler-det","the GSL error handler was left changed"); gsl_set_error_handler(NULL); inv2=apop_matrix_inverse(m); V_CHECK(vh_gsl_handler_intact(),"handler-inv","the GSL error handler was left changed"); gsl_set_error_handler(NULL);
    double det2=apop_det_and_inv(m,&inv,1,1); V_CHECK(vh_gsl_handler_intact(),"handler-both","the GSL error handler was left changed"); gsl_set_error_handler(NULL);
    if (c!=n){ V_CHECK(isnan(det)&&isnan(det2)&&!inv&&!inv2,"square","a non-square matrix gave determinant %g, inverse %p",det,(void*)inv); v_ev("non_square"); goto done; }
    if (sing){ double mx=0; for (int i=0;i<n*n;i++) mx=fmax(mx,fabs(gsl_matrix_get(m,i/n,i%n))); V_CHECK(fabs(det)<1e-10*pow(mx*n+1e-300,n)+1e-300,"singdet","determinant of a singular matrix is %g",det); if (inv2){ int fin=1; for (int i=0;i<n*n;i++) if (!isfinite(gsl_matrix_get(inv2,i/n,i%n))||fabs(gsl_matrix_get(inv2,i/n,i%n))*mx>1e8) fin=0; V_CHECK(!fin,"singinv","an inverse of a singular matrix"); } else V_CHECK(isnan(det2),"singboth","no inverse, but the determinant came out at %g",det2); v_ev("singular"); goto done; }
    { long double A[225],I[225]; for (int i=0;i<n*n;i++) A[i]=gsl_matrix_get(m,i/n,i%n); long double na=0,ni=0,d=lu(n,A,I); for (int i=0;i<n*n;i++){ na+=powl(gsl_matrix_get(m,i/n,i%n),2); ni+=I[i]*I[i]; } long double cond=sqrtl(na*ni); if (d==0||!isfinite((double)cond)||cond>1e11){ v_trivial(); goto done; }
      V_CLOSE(det,(double)d,1e-14*n*cond,0,"det","determinant, condition %.3Lg",cond); V_CLOSE(det2,(double)d,1e-14*n*cond,0,"det2","determinant beside the inverse"); 
      for (int w=0;w<2;w++){ gsl_matrix *g=w?inv:inv2; if (V_CHECK(g&&(int)g->size1==n&&(int)g->size2==n,"inv","no inverse")) for (int i=0;i<n*n;i++) V_CLOSE(gsl_matrix_get(g,i/n,i%n),(double)I[i],0,(double)(2e-15*n*n*cond*sqrtl(ni)),w?"inv2":"inv","%d,%d, condition %.3Lg",i/n,i%n,cond); } v_ev("inverted");
      gsl_matrix *x=(void*)1; V_EQ(apop_det_and_inv(m,&x,0,1),0,"zero","return without a determinant"); if (V_CHECK(x&&x!=(void*)1,"inv3","no inverse")) gsl_matrix_free(x); V_EQ(apop_det_and_inv(m,NULL,1,0),det,"detonly","determinant only"); }
    done: for (int i=0;i<n;i++) for (int j=0;j<c;j++) V_EQ(gsl_matrix_get(m,i,j),gsl_matrix_get(copy,i,j),"input","input %d,%d",i,j);
    if (inv!=(void*)1) gsl_matrix_free(inv); gsl_matrix_free(inv2); gsl_matrix_free(copy); free(m); gsl_matrix_free(own);
}
static void f_pca(void){
    int n=vi(3,40), p=vi(1,6), k=vflip(.5)?p:vi(1,p); gsl_matrix *own,*x=rmat(n,p,&own); double scale=vflip(.2)?1e4:1; for (int j=0;j<p;j++){ double s=vd(.2,5), o=vd(-20,20); for (int i=0;i<n;i++) gsl_matrix_set(x,i,j,(vnorm()*s+o)*scale); }
    if (p>1&&vflip(.3)) for (int i=0;i<n;i++) gsl_matrix_set(x,i,1,gsl_matrix_get(x,i,0)*2+vnorm()*.1*scale);
    long double X[40][6],S[6][6],tr=0; for (int j=0;j<p;j++){ long double m=0; for (int i=0;i<n;i++) m+=gsl_matrix_get(x,i,j); m/=n; for (int i=0;i<n;i++){ X[i][j]=gsl_matrix_get(x,i,j)-m; v_sigd(gsl_matrix_get(x,i,j)); } }
    for (int a=0;a<p;a++) for (int b=0;b<p;b++){ S[a][b]=0; for (int i=0;i<n;i++) S[a][b]+=X[i][a]*X[i][b]; } for (int a=0;a<p;a++) tr+=S[a][a]; v_desc("%dx%d, %d dimensions",n,p,k);
    apop_data *o= k==p&&vflip(.5)?apop_matrix_pca(x):apop_matrix_pca(x,k); V_CHECK(vh_gsl_handler_intact(),"handler","the GSL error handler was left changed"); gsl_set_error_handler(NULL);
    if (V_CHECK(o&&!o->error&&o->matrix&&o->vector&&(int)o->matrix->size1==p&&(int)o->matrix->size2==k&&(int)o->vector->size==k,"shape","shape of the result")){ double sum=0;
        for (int a=0;a<k;a++){ double w=gsl_vector_get(o->vector,a); sum+=w; if (a) V_CHECK(w<=gsl_vector_get(o->vector,a-1)+1e-12,"order","eigenvalues are out of order at %d",a);
            for (int b=0;b<=a;b++){ long double d=0; for (int i=0;i<p;i++) d+=(long double)gsl_matrix_get(o->matrix,i,a)*gsl_matrix_get(o->matrix,i,b); V_CLOSE((double)d,a==b,0,1e-10,"orthonormal","columns %d and %d",a,b); }
            for (int i=0;i<p;i++){ long double s=0; for (int j=0;j<p;j++) s+=S[i][j]*gsl_matrix_get(o->matrix,j,a); V_CLOSE((double)(s/tr),w*gsl_matrix_get(o->matrix,i,a),0,1e-10,"eigen","component %d of eigenvector %d",i,a); } v_ev("components"); }
        if (k==p) V_CLOSE(sum,1,0,1e-10,"total","weights' sum"); else V_CHECK(sum<=1+1e-10,"total","weights sum to %g",sum); }
    for (int i=0;i<n;i++) for (int j=0;j<p;j++) V_CLOSE(gsl_matrix_get(x,i,j),(double)X[i][j],1e-9,1e-10*scale,"demeaned","%d,%d",i,j); for (size_t j=0;j<own->size2;j++) V_EQ(gsl_matrix_get(own,0,j),-55,"guard","outside the view");
    V_CHECK(!apop_matrix_pca(NULL),"null","NULL"); apop_data_free(o); free(x); gsl_matrix_free(own);
}
static void f_vecfn(void){ gsl_vector *own,*v=rvec(vi(1,30),&own); int n=v->size; double x[30]; for (int i=0;i<n;i++){ x[i]=vflip(.8)?vd(.001,50):vd(-3,3); gsl_vector_set(v,i,x[i]); v_sigd(x[i]); } gsl_vector *c=apop_vector_copy(own); int w=vi(0,2); v_desc("%d values, function %d",n,w);
    if (w==0) apop_vector_log(v); else if (w==1) apop_vector_log10(v); else apop_vector_exp(v); for (int i=0;i<n;i++){ double e=w==0?log(x[i]):w==1?log10(x[i]):exp(x[i]); double g=gsl_vector_get(v,i); if (isnan(e)) V_CHECK(isnan(g),"value","%g of %g",g,x[i]); else V_CLOSE(g,e,1e-14,0,"value","function %d of %g",w,x[i]); }
    for (size_t i=0;i<own->size;i++) if (i%v->stride||i/v->stride>=(size_t)n) V_EQ(gsl_vector_get(own,i),-44,"guard","%zu",i); apop_vector_log(NULL); apop_vector_log10(NULL); apop_vector_exp(NULL); gsl_vector_free(c); free(v); gsl_vector_free(own); }
vh_family vh_families[]={{"dot",f_dot,4000,150000},{"inv",f_inv,2500,100000},{"pca",f_pca,600,20000},{"vecfn",f_vecfn,300,6000},{NULL}};
