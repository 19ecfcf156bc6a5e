#include "vh.h"
const char *vh_rule = "A random data set (any mix of vector, matrix, text, weights, names, title, NaNs, up to two more pages) is copied or memcpyed and then source or copy is edited and freed; distinct by the source's whole content.";

/* change everything that can be changed in d */
static void scramble(apop_data *d){
    for (apop_data *p=d; p; p=p->more){
        if (p->vector) gsl_vector_set_all(p->vector, 1234.5);
        if (p->matrix) gsl_matrix_set_all(p->matrix, -77.25);
        if (p->weights) gsl_vector_set_all(p->weights, 9);
        for (size_t i=0;i<p->textsize[0];i++) for (size_t j=0;j<p->textsize[1];j++) apop_text_set(p,i,j,"changed");
        if (p->names){
            for (int i=0;i<p->names->rowct;i++) if (*p->names->row[i]) p->names->row[i][0]='#';
            for (int i=0;i<p->names->colct;i++) if (*p->names->col[i]) p->names->col[i][0]='#';
            for (int i=0;i<p->names->textct;i++) if (*p->names->text[i]) p->names->text[i][0]='#';
            apop_name_add(p->names,"new title",'h');
            apop_name_add(p->names,"new vec",'v');
            apop_name_add(p->names,"another row",'r');
            apop_name_add(p->names,"another col",'c');
            apop_name_add(p->names,"another txt",'t');
        }
    }
}
static void lookups(apop_data *c){   // the copy's names must work, not only look alike
    if (c->names) for (int k=0;k<3;k++){
        char ty="rct"[k]; int n= ty=='r'?c->names->rowct: ty=='c'?c->names->colct:c->names->textct;
        char **l= ty=='r'?c->names->row: ty=='c'?c->names->col:c->names->text;
        for (int i=0;i<n;i++){
            int f=apop_name_find(c->names,l[i],ty);
            V_CHECK(f>=0 && f<n && !strcasecmp(l[f],l[i]),"lookup","name [%s] of type %c in the copy found at %d",l[i],ty,f);
        }
    }
}
static void f_copy(void){
    vh_shape s = vh_random_shape(7,5);
    apop_data *d = vh_data(s);
    vh_sig_data(d);
    v_desc("copy: v%d m%dx%d t%dx%d w%d pages %d names %d%d%d%d title %d",s.vsize,s.m1,s.m2,s.t1,s.t2,s.wsize,s.pages,s.rownames,s.colnames,s.vecname,s.textnames,s.title);
    char *before = vh_dump(d,true);
    apop_data *c = apop_data_copy(d);
    V_CHECK(!c->error,"error-flag","copy has error %c",c->error);
    vh_same(c,d,true,"copy-equal","copy against its source");
    // absent parts are absent
    for (apop_data *a=d,*b=c; a||b; a=a?a->more:NULL, b=b?b->more:NULL){
        if (!V_CHECK(a&&b,"pages","page count differs")) break;
        V_CHECK(!a->vector==!b->vector && !a->matrix==!b->matrix && !a->weights==!b->weights,"presence","parts present differ");
        V_CHECK(!a->names->title==!b->names->title,"title-presence","title: source [%s], copy [%s]",a->names->title?a->names->title:"none",b->names->title?b->names->title:"none");
        V_CHECK(!a->names->vector==!b->names->vector,"vname-presence","vector name differs in presence");
    }
    lookups(c);
    if (vflip(.5)){
        scramble(c);
        char *after = vh_dump(d,true);
        V_STR(after,before,"independent","source after its copy was edited");
        free(after);
        apop_data_free(c);
        after = vh_dump(d,true);
        V_STR(after,before,"free-copy","source after its copy was freed");
        free(after);
    } else {
        scramble(d);
        char *cc = vh_dump(c,true);
        V_STR(cc,before,"independent","copy after its source was edited");
        free(cc);
        apop_data_free(d); d=NULL;
        cc = vh_dump(c,true);
        V_STR(cc,before,"free-source","copy after its source was freed");
        free(cc);
        lookups(c);
        apop_data_free(c);
    }
    free(before);
    if (d) apop_data_free(d);
}
static void f_memcpy(void){
    vh_shape s = vh_random_shape(7,5);
    apop_data *d = vh_data(s);
    vh_shape s2=s; s2.pages=0;
    // same shape; names may or may not be there in the destination already
    if (vflip(.5)) s2.rownames=s2.colnames=s2.vecname=s2.textnames=s2.title=false;
    apop_data *o = vh_data(s2);
    if (s.pages){   // same chain of pages
        apop_data *x=apop_data_copy(d); o->more=x->more; x->more=NULL; apop_data_free(x);
        for (apop_data *p=o->more;p;p=p->more){ if (p->vector) gsl_vector_set_zero(p->vector); if (p->matrix) gsl_matrix_set_zero(p->matrix); }
    }
    if (!s.vecname && s2.vecname) v_trivial();
    vh_sig_data(d);
    v_desc("memcpy: v%d m%dx%d t%dx%d w%d pages %d, names in dest %d",s.vsize,s.m1,s.m2,s.t1,s.t2,s.wsize,s.pages,s2.rownames);
    char *before=vh_dump(d,true);
    apop_data_memcpy(o,d);
    V_CHECK(!o->error,"error-flag","memcpy set error %c",o->error);
    // if the source has no names of some kind, the destination's own stay; here those cases have none or equal counts
    vh_same(o,d,true,"memcpy-equal","destination against source");
    V_CHECK(!d->names->title==!o->names->title,"title-presence","title: source [%s], destination [%s]",d->names->title?d->names->title:"none",o->names->title?o->names->title:"none");
    lookups(o);
    scramble(o);
    char *after=vh_dump(d,true);
    V_STR(after,before,"independent","source after memcpy and edits");
    apop_data_free(o);
    free(after); after=vh_dump(d,true);
    V_STR(after,before,"free-dest","source after the destination was freed");
    free(after); free(before);
    apop_data_free(d);
}
static void f_mismatch(void){
    vh_shape s = vh_random_shape(6,4); s.pages=0;
    vh_shape s2 = s;
    int bad=vi(0,6); bool mis=false;
    switch(bad){
        case 0: if (s.m1){ s2.m1=s.m1+vi(-1,2); if(s2.m1<1) s2.m1=2; mis=s2.m1!=s.m1; } break;
        case 1: if (s.m1){ s2.m2=s.m2+1; mis=true; } break;
        case 2: if (s.vsize){ s2.vsize=s.vsize+1; mis=true; } break;
        case 3: if (s.wsize){ s2.wsize=s.wsize+1; mis=true;} break;
        case 4: if (s.t1 && s.t1>1){ s2.t1=vi(1,s.t1-1); s2.t2=s.t2+vi(0,6); mis=true; } break;
        case 5: if (s.t1 && s.t2>1){ s2.t2=vi(1,s.t2-1); s2.t1=s.t1+vi(0,6); mis=true; } break;
        case 6: if (s.t1){ s2.t1=s2.t2=0; mis=true; } break;
    }
    if (!mis){ v_trivial(); return; }
    apop_data *d=vh_data(s), *o=vh_data(s2);
    vh_sig_data(d);
    v_desc("mismatch kind %d: source v%d m%dx%d t%dx%d w%d, dest v%d m%dx%d t%dx%d w%d",bad,s.vsize,s.m1,s.m2,s.t1,s.t2,s.wsize,s2.vsize,s2.m1,s2.m2,s2.t1,s2.t2,s2.wsize);
    char *before=vh_dump(d,true);
    apop_data_memcpy(o,d);
    V_CHECK(o->error!=0,"no-error","memcpy between sizes that differ (kind %d) left the error element blank",bad);
    V_CHECK(!o->matrix == !s2.m1 && (!o->matrix || ((int)o->matrix->size1==s2.m1 && (int)o->matrix->size2==s2.m2)),"dest-shape","destination matrix resized");
    V_CHECK((int)o->textsize[0]==(s2.t2?s2.t1:0) && (int)o->textsize[1]==(s2.t1?s2.t2:0),"dest-textsize","destination text is now claimed to be %zux%zu, was %dx%d",o->textsize[0],o->textsize[1],s2.t1,s2.t2);
    char *after=vh_dump(d,true);
    V_STR(after,before,"source","source after a refused memcpy");
    free(before); free(after);
    apop_data_free(d); apop_data_free(o);
}
static void f_names(void){
    vh_shape s = vh_random_shape(8,6); s.pages=0;
    apop_data *d=vh_data(s);
    vh_sig_data(d);
    v_desc("apop_name_copy of r%d c%d t%d",d->names->rowct,d->names->colct,d->names->textct);
    apop_name *n=apop_name_copy(d->names);
    apop_data *t=apop_data_alloc(), *t2=apop_data_alloc();
    apop_name *tn=t->names, *tn2=t2->names; t->names=n; t2->names=d->names;
    vh_same(t,t2,false,"name-copy","apop_name_copy against its source");
    V_CHECK(!n->title==!d->names->title,"title-presence","title [%s] copied as [%s]",d->names->title?d->names->title:"none",n->title?n->title:"none");
    lookups(t);
    char *before=vh_dump(t2,false);
    scramble(t);
    char *after=vh_dump(t2,false);
    V_STR(after,before,"name-independent","names after their copy was edited");
    apop_name_free(n);
    t->names=tn; t2->names=tn2;
    free(before); free(after);
    apop_data_free(t); apop_data_free(t2); apop_data_free(d);
}
vh_family vh_families[] = {
    {"copy", f_copy, 1500, 30000},
    {"memcpy", f_memcpy, 1000, 20000},
    {"mismatch", f_mismatch, 800, 15000},
    {"names", f_names, 500, 8000},
    {NULL}
};
