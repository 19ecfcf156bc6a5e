#include "vh.h"
const char *vh_rule = "A random data set goes through a random history of row drops (by list, by function, or both), column drops, prunings by name and transpositions, each compared with a reference subset; distinct by content and history.";

static int g_calls, g_bad;
/* drop rows whose first number is in a set: the decision depends on the row's own content */
static double g_cut; 
static int bycontent(apop_data *r, void *p){
    g_calls++;
    double x = r->vector ? gsl_vector_get(r->vector,0) : r->matrix ? gsl_matrix_get(r->matrix,0,0) : strlen(r->text[0][0]);
    if (r->vector && r->vector->size!=1) g_bad++;
    if (r->matrix && r->matrix->size1!=1) g_bad++;
    if (r->textsize[1] && r->textsize[0]!=1) g_bad++;
    return p ? x > *(double*)p : x > g_cut;
}
static void drop_textnames(apop_data *d){ while (d->names->textct) free(d->names->text[--d->names->textct]); free(d->names->text); d->names->text=NULL; free(d->names->texthash); d->names->texthash=NULL;}
static void lookups(apop_data *c, const char *key){
    for (int k=0;k<2;k++){
        char ty="rc"[k]; int n= ty=='r'?c->names->rowct:c->names->colct; char **l= ty=='r'?c->names->row:c->names->col;
        for (int i=0;i<n;i++){ int f=apop_name_find(c->names,l[i],ty); V_CHECK(f>=0 && f<n && !strcasecmp(l[f],l[i]),key,"name [%s] (%c) found at %d",l[i],ty,f); }
    }
}
static void f_history(void){
    vh_shape s=vh_random_shape(9,6); s.nans=false;
    apop_data *d=vh_data(s);
    vh_strip(d,true,false);
    vh_sig_data(d);
    v_desc("v%d m%dx%d t%dx%d w%d rn%d cn%d pages %d:",s.vsize,s.m1,s.m2,s.t1,s.t2,s.wsize,s.rownames,s.colnames,s.pages);
    int steps=vi(1,4);
    for (int st=0; st<steps; st++){
        int rows=vh_rows(d), op=vi(0,5), keep[64], nk=0;
        if (!rows) break;
        if (d->error) break;
        char *pages=vh_dump(d->more,true);
        apop_data *ref=NULL;
        v_sig(&op,4);
        if (op<=2){
            int drop[64]={0}; int mode=vi(0,4);
            for (int i=0;i<rows;i++){ drop[i]= mode==0?0: mode==1?1: vflip(.4); }
            bool usefn=op>=1, uselist=op!=1;
            double cut=vflip(.5)?vval():5; g_cut=cut; g_bad=g_calls=0;
            for (int i=0;i<rows;i++){
                double x=d->vector?gsl_vector_get(d->vector,i):d->matrix?gsl_matrix_get(d->matrix,i,0):strlen(d->text[i][0]);
                if (!((uselist&&drop[i])||(usefn&&x>cut))) keep[nk++]=i;
            }
            v_desc(" rm_rows%s%s keep %d of %d;",uselist?" list":"",usefn?" fn":"",nk,rows); v_sig(keep,nk*4);
            ref=vh_pick_rows(d,keep,nk);
            if (nk==0 && ref->names->rowct) v_fail("ref","bad reference");
            bool param=vflip(.5);
            apop_data *o;
            if (usefn && uselist) o= param?apop_data_rm_rows(d,drop,bycontent,&cut):apop_data_rm_rows(d,drop,.do_drop=bycontent);
            else if (usefn) o= param?apop_data_rm_rows(d,.do_drop=bycontent,.drop_parameter=&cut):apop_data_rm_rows(d,.do_drop=bycontent);
            else o=apop_data_rm_rows(d,drop);
            V_CHECK(o==d,"rm_rows-return","did not return its input");
            V_CHECK(!g_bad,"rm_rows-view","the drop function was not given a one-row view");
            apop_data *m=d->more; d->more=NULL; vh_same(d,ref,false,"rm_rows","after dropping rows"); d->more=m;
        } else if (op==3 && d->matrix){
            int cols=d->matrix->size2, drop[64]={0}, mode=vi(0,4);
            for (int i=0;i<cols;i++){ drop[i]= mode==0?0:mode==1?1:vflip(.4); if (drop[i]&&mode>2) drop[i]=vflip(.5)?vi(1,300):-vi(1,300); if (!drop[i]) keep[nk++]=i; }
            v_desc(" rm_columns keep %d of %d;",nk,cols); v_sig(keep,nk*4);
            ref=vh_pick_cols(d,keep,nk);
            apop_data_rm_columns(d,drop);
            apop_data *m=d->more; d->more=NULL; vh_same(d,ref,false,"rm_columns","after dropping columns"); d->more=m;
        } else if (op==4 && d->matrix){
            int cols=d->matrix->size2, cn=d->names->colct; char *names[70]; int nn=0; char buf[64][260];
            if (cn>1&&vflip(.4)){ /* names that begin like other names */
                apop_name *o=d->names,*n=apop_name_alloc(); if (o->title) apop_name_add(n,o->title,'h'); if (o->vector) apop_name_add(n,o->vector,'v'); for (size_t i=0;i<o->rowct;i++) apop_name_add(n,o->row[i],'r'); for (size_t i=0;i<o->textct;i++) apop_name_add(n,o->text[i],'t');
                int at=vi(0,cn-1); for (int i=0;i<cn;i++){ char b[300]; snprintf(b,250,"%.200s",o->col[i]); if (i!=at&&vflip(.5)) snprintf(b,250,"%.200s%c%d",o->col[at],vpick("_ aZ"),i); else if (i!=at&&vflip(.2)&&o->col[at][0]) snprintf(b,250,"%.*s",(int)GSL_MAX(1,(int)strlen(o->col[at])-1),o->col[at]); apop_name_add(n,b,'c'); }
                apop_name_free(o); d->names=n; }
            int perm[64]; for (int i=0;i<cn;i++) perm[i]=i; vshuffle(perm,cn);
            bool kept[64]={0};
            for (int i=0;i<cn;i++) if (vflip(.6)){
                strcpy(buf[nn],d->names->col[perm[i]]);
                if (vflip(.3)) for (char *c=buf[nn];*c;c++) *c = isupper((unsigned char)*c)?tolower((unsigned char)*c):toupper((unsigned char)*c);
                names[nn]=buf[nn]; nn++; kept[perm[i]]=true;
            }
            if (vflip(.2)){ strcpy(buf[nn],"no such column"); if (cn&&vflip(.5)){ int at=vi(0,cn-1),same=0; snprintf(buf[nn],250,"%.*s",(int)strlen(d->names->col[at])-1,d->names->col[at]); for (int i=0;i<cn;i++) same|=!strcasecmp(buf[nn],d->names->col[i]); if (same||!buf[nn][0]) strcpy(buf[nn],"no such column"); } names[nn]=buf[nn]; nn++; }
            names[nn]=NULL;
            bool dup=false; for (int i=0;i<cn;i++) for (int j=0;j<i;j++) if (!strcasecmp(d->names->col[i],d->names->col[j])) dup=true;
            if (!dup){
                for (int i=0;i<cols;i++) if (kept[i]) keep[nk++]=i;
                v_desc(" prune to %d of %d (%d names);",nk,cols,cn); v_sig(keep,nk*4);
                ref=vh_pick_cols(d,keep,nk);
                V_CHECK(apop_data_prune_columns_base(d,names)==d,"prune-return","did not return its input");
                apop_data *m=d->more; d->more=NULL; vh_same(d,ref,false,"prune","after pruning columns"); d->more=m;
            }
        } else if (op==5 && (d->matrix||d->textsize[0])){
            // matrix to its transpose, names swapped; the vector and weights stay as they are
            bool inplace=vflip(.5), tt=vflip(.7);
            int m1=d->matrix?d->matrix->size1:0,m2=d->matrix?d->matrix->size2:0,t1=d->textsize[0],t2=d->textsize[1];
            v_desc(" transpose %dx%d text %dx%d inplace %d text %d;",m1,m2,t1,t2,inplace,tt); v_sig(&inplace,1); v_sig(&tt,1);
            char *before=vh_dump(d,true);
            apop_data *in0=apop_data_copy(d);
            apop_data *o = inplace ? (tt?apop_data_transpose(d):apop_data_transpose(d,.transpose_text='n'))
                                   : (tt?apop_data_transpose(d,.inplace='n'):apop_data_transpose(d,'n','n'));
            if (inplace) V_CHECK(o==d,"transpose-return","in-place transpose returned another set");
            else { char *x=vh_dump(d,true); V_STR(x,before,"transpose-input","input of a transpose to a copy"); free(x);
                   V_CHECK(o!=d,"transpose-fresh","not a copy"); V_CHECK(!o->vector && !o->weights,"transpose-vector","copy has vector or weights"); }
            if (m1){
                if (V_CHECK(o->matrix && (int)o->matrix->size1==m2 && (int)o->matrix->size2==m1,"transpose-shape","matrix shape"))
                    for (int i=0;i<m1;i++) for (int j=0;j<m2;j++) V_EQ(gsl_matrix_get(o->matrix,j,i),gsl_matrix_get(in0->matrix,i,j),"transpose-element","(%d,%d)",i,j);
                if (V_CHECK(o->names->colct==in0->names->rowct && o->names->rowct==in0->names->colct,"transpose-names","%d row names and %d column names gave %d and %d",in0->names->rowct,in0->names->colct,o->names->rowct,o->names->colct)){
                    for (int i=0;i<o->names->colct;i++) V_STR(o->names->col[i],in0->names->row[i],"transpose-colname","column name %d",i);
                    for (int i=0;i<o->names->rowct;i++) V_STR(o->names->row[i],in0->names->col[i],"transpose-rowname","row name %d",i);
                }
                lookups(o,"transpose-lookup");
            }
            if (t1 && tt){
                if (V_CHECK((int)o->textsize[0]==t2 && (int)o->textsize[1]==t1,"transpose-textsize","text %dx%d gave %zux%zu",t1,t2,o->textsize[0],o->textsize[1]))
                    for (int i=0;i<t1;i++) for (int j=0;j<t2;j++) V_STR(o->text[j][i],in0->text[i][j],"transpose-text","(%d,%d)",i,j);
            } else if (t1 && inplace)
                for (int i=0;i<t1;i++) for (int j=0;j<t2;j++) V_STR(o->text[i][j],in0->text[i][j],"transpose-text-kept","(%d,%d)",i,j);
            else if (!inplace) V_CHECK(!o->textsize[0],"transpose-notext","text was not to be transposed, and is there");
            // twice is nothing
            if (inplace) drop_textnames(d), drop_textnames(in0);
            apop_data *b = inplace? (tt?apop_data_transpose(d):apop_data_transpose(d,.transpose_text='n')) : apop_data_transpose(o,.inplace='n');
            if (inplace){ drop_textnames(d); if (!m1) ; else vh_same(d,in0,true,"transpose-twice","in-place transpose, twice"); }
            else {
                if (m1) for (int i=0;i<m1;i++) for (int j=0;j<m2;j++) V_EQ(gsl_matrix_get(b->matrix,i,j),gsl_matrix_get(in0->matrix,i,j),"transpose-twice","(%d,%d)",i,j);
                if (t1&&tt) for (int i=0;i<t1;i++) for (int j=0;j<t2;j++) V_STR(b->text[i][j],in0->text[i][j],"transpose-twice-text","(%d,%d)",i,j);
                apop_data_free(b); apop_data_free(o);
            }
            apop_data_free(in0); free(before);
            if (inplace && !m1) { free(pages); break; }
        }
        if (ref){
            lookups(d,"lookup");
            apop_data_free(ref);
        }
        char *p2=vh_dump(d->more,true); V_STR(p2,pages,"pages","further pages changed"); free(p2); free(pages);
        if (d->matrix==NULL && d->vector==NULL && !d->textsize[0]) break;
        if ((d->matrix && d->vector && d->matrix->size1!=d->vector->size)||(d->matrix&&d->textsize[0]&&d->matrix->size1!=d->textsize[0])) break;
    }
    apop_data_free(d);
}
/* row and column views used as data sets in their own right: copies of them hold just those rows or columns */
static void f_views(void){
    vh_shape s=vh_random_shape(8,6); s.pages=0;
    apop_data *d=vh_data(s);
    vh_sig_data(d);
    int rows=vh_rows(d), a=vi(0,rows-1), len=vi(1,rows-a), idx[64];
    v_sig(&a,4); v_sig(&len,4);
    v_desc("views of v%d m%dx%d t%dx%d w%d: rows %d+%d",s.vsize,s.m1,s.m2,s.t1,s.t2,s.wsize,a,len);
    char *before=vh_dump(d,true);
    for (int i=0;i<len;i++) idx[i]=a+i;
    apop_data *ref=vh_pick_rows(d,idx,len), *c=apop_data_copy(Apop_rs(d,a,len));
    vh_strip(c,true,true);
    vh_same(c,ref,true,"row-view","copy of a view of rows");
    apop_data_free(ref); apop_data_free(c);
    ref=vh_pick_rows(d,idx,1); c=apop_data_copy(Apop_r(d,a)); vh_strip(c,true,true);
    vh_same(c,ref,true,"one-row-view","copy of a view of one row");
    apop_data_free(ref); apop_data_free(c);
    if (d->matrix){
        int ca=vi(0,s.m2-1), cl=vi(1,s.m2-ca); for (int i=0;i<cl;i++) idx[i]=ca+i;
        apop_data *whole=apop_data_copy(d); if (whole->vector){ gsl_vector_free(whole->vector); whole->vector=NULL; }
        free(whole->names->vector); whole->names->vector=NULL;
        apop_text_alloc(whole,0,0); drop_textnames(whole);
        ref=vh_pick_cols(whole,idx,cl); c=apop_data_copy(Apop_cs(d,ca,cl)); vh_strip(c,true,true);
        // the column view carries row names, weights, matrix, column names
        vh_same(c,ref,true,"column-view","copy of a view of columns");
        apop_data_free(ref); apop_data_free(c); apop_data_free(whole);
        gsl_vector *cv=Apop_cv(d,ca), *rv=Apop_rv(d,a);
        for (int i=0;i<s.m1;i++) V_EQ(gsl_vector_get(cv,i),gsl_matrix_get(d->matrix,i,ca),"cv","column vector view, %d",i);
        for (int j=0;j<s.m2;j++) V_EQ(gsl_vector_get(rv,j),gsl_matrix_get(d->matrix,a,j),"rv","row vector view, %d",j);
        int sr=vi(1,s.m1-a); gsl_matrix *sm=Apop_subm(d->matrix,a,ca,sr,cl);
        for (int i=0;i<sr;i++) for (int j=0;j<cl;j++) V_EQ(gsl_matrix_get(sm,i,j),gsl_matrix_get(d->matrix,a+i,ca+j),"subm","submatrix view");
        V_CHECK(!Apop_cv(d,s.m2) && !Apop_rv(d,s.m1) && !Apop_subm(d->matrix,0,0,s.m1+1,1),"view-null","a view outside the matrix is not NULL");
    }
    char *after=vh_dump(d,true); V_STR(after,before,"view-source","source after taking views"); free(after); free(before);
    apop_data_free(d);
}
vh_family vh_families[] = { {"history",f_history,2500,60000}, {"views",f_views,1000,20000}, {NULL} };
