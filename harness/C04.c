#include "vh.h"
const char *vh_rule = "A random data set with pages, some names duplicated or differing only in case, goes through a random history of edits and lookups, each checked against a shadow array and a linear case-insensitive scan of the names; distinct by the content and history.";

static int scan(char **l, int n, const char *s){ for (int i=0;i<n;i++) if (!strcasecmp(l[i],s)) return i; return -2; }
static void mixcase(char *s){ for (;*s;s++) if (vflip(.4)) *s= islower((unsigned char)*s)?toupper((unsigned char)*s):tolower((unsigned char)*s); }
// names from a small alphabet, so that there are collisions and near-collisions
static void nm(char *b){
    static const char *few[]={"a","A","b","ab","aB","Ab","total","Total","x y","%s","","aa","ba","1","naïve"};
    if (vflip(.5)) strcpy(b,vpick(few)); else vstr_any(b,6);
}
typedef struct { int r,c; double *v,*m; int hasv; } shadow;
static void check_all(apop_data *p, shadow *s, const char *key){
    for (int i=0;i<s->r;i++){
        if (s->hasv) V_EQ(gsl_vector_get(p->vector,i),s->v[i],key,"vector %d",i);
        for (int j=0;j<s->c;j++) V_EQ(gsl_matrix_get(p->matrix,i,j),s->m[i*s->c+j],key,"matrix %d,%d",i,j);
    }
}
static void f_access(void){
    int np=vi(1,3); shadow sh[3]; apop_data *pg[3];
    char b[100], b2[100];
    const char *titles[3]={"first page","Second Page","<Info>"};
    for (int p=0;p<np;p++){
        shadow *s=sh+p; s->r=vi(1,7); s->c=vi(0,5); s->hasv=s->c==0||vflip(.5);
        apop_data *d=pg[p]=apop_data_alloc();
        if (s->c) d->matrix=gsl_matrix_alloc(s->r,s->c);
        if (s->hasv) d->vector=gsl_vector_alloc(s->r);
        s->v=malloc(sizeof(double)*s->r); s->m=malloc(sizeof(double)*(s->r*s->c+1));
        for (int i=0;i<s->r;i++){ if (s->hasv){ s->v[i]=vval(); gsl_vector_set(d->vector,i,s->v[i]); } for (int j=0;j<s->c;j++){ s->m[i*s->c+j]=vval(); gsl_matrix_set(d->matrix,i,j,s->m[i*s->c+j]); } }
        if (vflip(.8)) for (int i=0;i<s->r;i++){ nm(b); apop_name_add(d->names,b,'r'); }
        if (vflip(.8)) for (int i=0;i<s->c;i++){ nm(b); apop_name_add(d->names,b,'c'); }
        if (s->hasv && vflip(.5)){ nm(b); apop_name_add(d->names,b,'v'); }
        if (p==0){ if (vflip(.7)) apop_name_add(d->names,titles[0],'h'); }
        else apop_data_add_page(pg[0],d,titles[p]);
        vh_sig_data(d);
    }
    v_desc("access: %d pages, first %dx%d vector %d",np,sh[0].r,sh[0].c,sh[0].hasv);
    bool t0=pg[0]->names->title!=NULL;
    int ops=vi(8,20);
    for (int o=0;o<ops;o++){
        // choose a target
        int p=vi(0,np-1); bool bypage=p>0||(t0&&vflip(.3)), badpage=vflip(.04);
        shadow *s=sh+p; apop_data *d=pg[p];
        if (badpage) bypage=true;
        char title[100]; strcpy(title,badpage?"no such page":titles[p]); mixcase(title);
        const char *rn=NULL,*cn=NULL; int r=0,c=0, wr, wc; bool def_r=false, def_c=false;
        // row
        int how=vi(0,9);
        if (how<4){ r=vi(0,s->r-1); }
        else if (how<5){ static const int bad[]={0,1,5,1000000,0x7fffffff,-1,-2,-1000}; int k=vpick(bad); r= k>=0&&k<10? s->r+k : k; }
        else if (how<6) def_r=true;
        else { if (d->names->rowct && vflip(.8)) strcpy(b,d->names->row[vi(0,d->names->rowct-1)]); else nm(b); if (vflip(.5)) mixcase(b); rn=b; r=vi(-3,10); }
        how=vi(0,9);
        if (how<4) c=vi(s->hasv?-1:0,s->c-1 < (s->hasv?-1:0) ? (s->hasv?-1:0) : s->c-1);
        else if (how<5){ static const int bad[]={0,1,7,1000000,0x7fffffff,-2,-3,-1000000,-1}; int k=vpick(bad); c= k>=0&&k<10? s->c+k : k; }
        else if (how<6) def_c=true;
        else { if (d->names->colct && vflip(.7)) strcpy(b2,d->names->col[vi(0,d->names->colct-1)]); else if (d->names->vector&&vflip(.5)) strcpy(b2,d->names->vector); else nm(b2); if (vflip(.5)) mixcase(b2); cn=b2; c=vi(-1,4); }
        // the reference: a set of acceptable cells (a name that is there several times may denote any)
        wr=rn?scan(d->names->row,d->names->rowct,rn): def_r?0:r;
        wc=cn?scan(d->names->col,d->names->colct,cn): def_c?0:c;
        if (cn&&wc==-2&&d->names->vector&&!strcasecmp(d->names->vector,cn)) wc=-1;
        bool okr=(rn?wr!=-2:true)&&wr>=0&&wr<s->r;
        if (wc==0&&!s->c&&s->hasv) wc=-1;   // column zero of a set with only a vector
        bool okc=(wc==-1)?((cn||!cn)&&s->hasv):(wc>=0&&wc<s->c);
        if (cn&&wc==-2) okc=false;
        bool ok=okr&&okc&&!badpage;
        v_sig(&wr,sizeof wr); v_sig(&wc,sizeof wc);
        const char *pgarg=bypage?title:NULL; apop_data *arg=bypage?pg[0]:d;
        // get
        double g; 
        if (def_r&&def_c) g=apop_data_get(arg,.page=pgarg,.colname=cn,.rowname=rn);
        else if (def_r) g=apop_data_get(arg,.col=c,.page=pgarg,.colname=cn,.rowname=rn);
        else if (def_c) g=apop_data_get(arg,.row=r,.page=pgarg,.colname=cn,.rowname=rn);
        else g=apop_data_get(arg,r,c,rn,cn,pgarg);
        double *q=apop_data_ptr(arg,def_r?0:r,def_c?0:c,rn,cn,pgarg);
        // duplicates: accept any position with the name
        if (ok){
            bool found=false; double want=NAN;
            int hit_r=-1,hit_c=-2;
            for (int i=0;i<s->r;i++) for (int j=-1;j<s->c;j++){
                if (j==-1&&!s->hasv) continue;
                bool mr= rn? (i<d->names->rowct&&!strcasecmp(d->names->row[i],rn)) : i==wr;
                bool mc= cn&&wc!=-1? (j>=0&&j<d->names->colct&&!strcasecmp(d->names->col[j],cn)) : j==wc;
                if (mr&&mc&&q==(j==-1?gsl_vector_ptr(d->vector,i):gsl_matrix_ptr(d->matrix,i,j))){ found=true; want=j==-1?s->v[i]:s->m[i*s->c+j]; hit_r=i; hit_c=j; }
            }
            if (!V_CHECK(found,"ptr","ptr to row %d [%s] col %d [%s] page [%s] is not any cell so named (wanted e.g. %d,%d)",r,rn?rn:"-",c,cn?cn:"-",pgarg?pgarg:"-",wr,wc)) continue;
            V_EQ(g,want,"get","row %d [%s] col %d [%s] page [%s]",r,rn?rn:"-",c,cn?cn:"-",pgarg?pgarg:"-");
            double x=vval();
            int rc=apop_data_set(arg,def_r?0:r,def_c?0:c,x,rn,cn,pgarg);
            V_CHECK(rc==0,"set-status","setting an existing cell returned %d",rc);
            if (hit_c==-1) s->v[hit_r]=x; else s->m[hit_r*s->c+hit_c]=x;
            v_ev("cells_set");
        } else {
            V_CHECK(isnan(g),"get-error","row %d [%s] col %d [%s] page [%s] is not there, but get gave %g",r,rn?rn:"-",c,cn?cn:"-",pgarg?pgarg:"-",g);
            V_CHECK(!q,"ptr-error","row %d [%s] col %d [%s] page [%s] is not there, but ptr gave a pointer",r,rn?rn:"-",c,cn?cn:"-",pgarg?pgarg:"-");
            int rc=apop_data_set(arg,def_r?0:r,def_c?0:c,99.5,rn,cn,pgarg);
            V_CHECK(rc==-1,"set-error","row %d [%s] col %d [%s] page [%s] is not there, but set returned %d",r,rn?rn:"-",c,cn?cn:"-",pgarg?pgarg:"-",rc);
            v_ev("refusals");
        }
        V_CHECK(vh_gsl_handler_intact(),"handler","the GSL error handler was changed");
        for (int k=0;k<np;k++) check_all(pg[k],sh+k,ok?"other-cells":"refused-changed");
        // page lookup
        int w=vi(0,np-1);
        if (w||t0){
            char tt[100]; strcpy(tt,titles[w]); mixcase(tt);
            V_CHECK(apop_data_get_page(pg[0],tt)==pg[w],"page","page [%s] not found",tt);
            V_CHECK(apop_data_get_page(pg[0],titles[w],'e')==pg[w],"page-exact","exact page not found");
            if (strcmp(tt,titles[w])) V_CHECK(!apop_data_get_page(pg[0],tt,'e'),"page-exact","exact match found a page in another case");
        }
        if (np>=2) V_CHECK(apop_data_get_page(pg[0],"^sec.*",'r')==pg[1],"page-regex","regex page not found");
        // edit history: swap in something that moves the names about
        if (vflip(.15)){
            nm(b); int k=vi(0,2);
            if (k==0&&d->names->rowct<s->r) apop_name_add(d->names,b,'r');
            if (k==1&&d->names->colct<s->c) apop_name_add(d->names,b,'c');
            if (k==2&&s->hasv) apop_name_add(d->names,b,'v');
        }
    }
    if (np==3){
        apop_data *got=apop_data_rm_page(pg[0],.title="second page",.free_p='n');
        V_CHECK(got==pg[1]&&!got->more,"rm-page","removed page is not the one asked for, or is still linked");
        V_CHECK(pg[0]->more==pg[2]&&apop_data_get_page(pg[0])==pg[2],"rm-page-rest","other pages not kept");
        check_all(pg[0],sh,"rm-page"); check_all(pg[1],sh+1,"rm-page"); check_all(pg[2],sh+2,"rm-page");
        apop_data_free(got);
        V_CHECK(!apop_data_rm_page(pg[0],.title="second page",.free_p='n'),"rm-page-again","removed page found again");
        apop_data_rm_page(pg[0]);
        V_CHECK(!pg[0]->more,"rm-page-info","info page not removed");
    }
    apop_data_free(pg[0]);
    for (int p=0;p<np;p++){ free(sh[p].v); free(sh[p].m); }
}
/* lookups in names that went through a history of structural edits */
static void f_names(void){
    vh_shape s=vh_random_shape(6,6); s.rownames=s.colnames=s.textnames=true; s.pages=0; s.nans=false;
    apop_data *d=vh_data(s); char b[100];
    vh_sig_data(d);
    v_desc("name lookups under edits of m%dx%d v%d t%dx%d",s.m1,s.m2,s.vsize,s.t1,s.t2);
    for (int o=vi(3,8);o>0;o--){
        int k=vi(0,7); v_sig(&k,sizeof k);
        if (k==0){ nm(b); apop_name_add(d->names,b,"rct"[vi(0,2)]); }
        else if (k==1 && d->matrix && d->names->colct==(int)d->matrix->size2){
            int n=d->matrix->size2, drop[n]; for (int i=0;i<n;i++) drop[i]=vflip(.3); drop[vi(0,n-1)]=0;
            apop_data_rm_columns(d,drop);
        }
        else if (k==2 && vh_rows(d)==d->names->rowct && vh_rows(d)>1){
            int n=vh_rows(d), drop[n]; for (int i=0;i<n;i++) drop[i]=vflip(.3); drop[vi(0,n-1)]=0;
            if ((!d->vector||(int)d->vector->size==n)&&(!d->matrix||(int)d->matrix->size1==n)&&(!d->textsize[0]||(int)d->textsize[0]==n)&&(!d->weights||(int)d->weights->size==n)) apop_data_rm_rows(d,drop);
        }
        else if (k==3 && d->matrix && !d->vector && !d->weights && !d->textsize[0]) apop_data_transpose(d);
        else if (k==4){ apop_data *c=apop_data_copy(d); apop_data_free(d); d=c; }
        else if (k==5){ apop_name *o2=apop_name_alloc(); nm(b); apop_name_add(o2,b,'r'); nm(b); apop_name_add(o2,b,'c'); char ty="rc"[vi(0,1)]; apop_name_stack(d->names,o2,"rct"[vi(0,2)],ty); apop_name_free(o2); }
        else if (k==6) apop_name_stack(d->names,d->names,'c','r');  // onto itself
        else if (k==7 && d->names->rowct>0 && d->names->rowct==vh_rows(d) && d->names->rowct<40){ int rr=vi(0,d->names->rowct-1); apop_data *v=Apop_r(d,rr); int f=apop_name_find(v->names,v->names->row[0],'r'); V_CHECK(f==0,"view","row view's own name found at %d",f); }
        for (int t=0;t<3;t++){
            char ty="rct"[t]; char **l=t==0?d->names->row:t==1?d->names->col:d->names->text; int n=t==0?d->names->rowct:t==1?d->names->colct:d->names->textct;
            for (int q=0;q<4;q++){
                if (n&&vflip(.7)) strcpy(b,l[vi(0,n-1)]); else nm(b);
                if (vflip(.5)) mixcase(b);
                int f=apop_name_find(d->names,b,vflip(.5)?ty:toupper(ty)), w=scan(l,n,b);
                if (w==-2 && ty=='c' && d->names->vector && !strcasecmp(d->names->vector,b)) w=-1;
                if (w<0) V_CHECK(f==w,"find-absent","[%s] of type %c: found %d, expected %d",b,ty,f,w);
                else if (V_CHECK(f>=0&&f<n,"find","[%s] of type %c is at %d, but found %d of %d",b,ty,w,f,n))
                    V_CHECK(!strcasecmp(l[f],b),"find","[%s] of type %c: position %d holds [%s]",b,ty,f,l[f]);
                v_ev("lookups");
            }
        }
    }
    V_CHECK(apop_name_find(d->names,NULL,'r')==-2,"find-null","lookup of NULL");
    apop_data_free(d);
}
static void f_named_elmt(void){
    apop_data *d=apop_data_alloc(); int n=vi(1,30); double x[30]; char b[60];
    v_desc("%d named elements",n);
    for (int i=0;i<n;i++){ x[i]=vval(); v_sigd(x[i]); sprintf(b,"e%d",i); apop_data_add_named_elmt(d,b,x[i]); 
        int k=vi(0,i); sprintf(b,"E%d",k); V_EQ(apop_data_get(d,.rowname=b),x[k],"named-elmt","element %d of %d",k,i); 
        V_EQ(gsl_vector_get(Apop_cv(d,-1),k),x[k],"view","vector view"); }
    V_CHECK((int)d->vector->size==n && d->names->rowct==n,"named-size","vector has %zu, names %d, expected %d",d->vector->size,d->names->rowct,n);
    V_CHECK(isnan(apop_data_get(d,.rowname="nobody")),"named-absent","absent name");
    apop_data_free(d);
    V_CHECK(isnan(apop_data_get(NULL)) && !apop_data_ptr(NULL) && apop_data_set(NULL)==-1,"null","NULL data set");
}
vh_family vh_families[] = { {"access",f_access,3000,60000}, {"names",f_names,2000,40000}, {"elmt",f_named_elmt,300,3000}, {NULL} };
