#include "vh.h"
const char *vh_rule = "A random history of text allocation, growth, shrinkage, setting (with formats, NULL, and a cell's own text), filling, copying and transposing, against a shadow grid of strings; distinct by the history.";
#define MX 9
static char *g[MX][MX]; static int R,C;
static void gset(int i,int j,const char *s){ free(g[i][j]); g[i][j]=strdup(s); }
static void gresize(int r,int c){
    for (int i=0;i<MX;i++) for (int j=0;j<MX;j++){
        bool in= i<r&&j<c, was= i<R&&j<C;
        if (!in||!was){ free(g[i][j]); g[i][j]=in?strdup(""):NULL; }
    }
    R=r;C=c;
}
static void check(apop_data *d,const char *key){
    int r=d->textsize[0], c=d->textsize[1];
    if (!V_CHECK(r==R&&c==C,key,"text is %dx%d, expected %dx%d",r,c,R,C)) return;
    for (int i=0;i<R;i++) for (int j=0;j<C;j++) V_STR(d->text[i][j],g[i][j],key,"cell %d,%d of %dx%d",i,j,R,C);
    v_evn("cells_checked",R*C);
}
static void f_history(void){
    for (int i=0;i<MX;i++) for (int j=0;j<MX;j++) g[i][j]=NULL;
    R=C=0;
    apop_data *d=vflip(.5)?apop_data_alloc():NULL; 
    char b[200], *nanold=apop_opts.nan_string;
    int ops=vi(5,25);
    v_desc("text history of %d operations:",ops);
    for (int o=0;o<ops;o++){
        int k= (R==0)?0:vi(0,11), i=R?vi(0,R-1):0, j=C?vi(0,C-1):0;
        v_sig(&k,sizeof k);
        switch(k){
        case 0: case 1:{ int r=vi(1,MX),c=vi(1,MX); if (vflip(.05)) r=c=0;
            v_sig(&r,sizeof r); v_sig(&c,sizeof c);
            v_desc(" alloc(%d,%d)",r,c);
            d=apop_text_alloc(d,r,c); gresize(r,c); check(d,"alloc"); } break;
        case 2: case 3: case 4: vstr_any(b,20); v_sigs(b); V_CHECK(!apop_text_set(d,i,j,"%s",b),"set-status","set failed"); gset(i,j,b); break;
        case 5: { int q=vi(-99,99); V_CHECK(!apop_text_set(d,i,j,"%i and %g",q,q/4.),"set-status","set failed"); sprintf(b,"%i and %g",q,q/4.); gset(i,j,b); } break;
        case 6: V_CHECK(!apop_text_set(d,i,j,NULL),"set-status","set failed"); gset(i,j,apop_opts.nan_string); break;
        case 7: { char *t=NULL; int l=strlen(g[i][j]); if (l>100) break; if (asprintf(&t,"%s+%s",g[i][j],g[i][j])<0) abort(); apop_text_set(d,i,j,"%s+%s",d->text[i][j],d->text[i][j]); gset(i,j,t); free(t);} break;
        case 8: { apop_data *c=apop_data_copy(d); check(c,"copy"); 
                  if (vflip(.5)){ apop_data_free(d); d=c; } 
                  else { apop_text_set(c,i,j,"scribble"); apop_text_alloc(c,vi(1,MX),vi(1,MX)); apop_data_free(c); } } break;
        case 9: if (R<=MX&&C<=MX&&!d->matrix){
                  if (vflip(.5)){ apop_data_transpose(d); }
                  else { apop_data *t=apop_data_transpose(d,.inplace='n'); check(d,"transpose-source"); apop_data_free(d); d=t; }
                  char *n[MX][MX]; memcpy(n,g,sizeof g); for (int x=0;x<MX;x++) for (int y=0;y<MX;y++) g[x][y]=n[y][x];
                  int t=R;R=C;C=t; check(d,"transpose"); } break;
        case 10: { char *list[MX*MX+1]; int n=vi(0,R*C); if (vflip(.5)) n=R*C; char *own=malloc(40*(n+1));
                  char **l2=malloc(sizeof(char*)*(n+1));   // exact size, so that reading past it is seen
                  for (int q=0;q<n;q++){ vstr_any(own+40*q,15); l2[q]=own+40*q; gset(q/C,q%C,l2[q]); } l2[n]=NULL; (void)list;
                  apop_text_fill_base(d,l2); free(l2); free(own); check(d,"fill"); } break;
        case 11: { // the macro form; an element may be NULL
                  if (R*C<3) break;
                  vstr_any(b,15); char *nul=vflip(.5)?NULL:"mid";
                  apop_text_fill(d,b,nul,"%d third"); gset(0,0,b); gset(1/C,1%C,nul?nul:apop_opts.nan_string); gset(2/C,2%C,"%d third"); check(d,"fill-list"); } break;
        }
        if (vflip(.2)){ // refusals
            int r=vflip(.5)?R+vi(0,3):i, c= r==i&&R? C+vi(0,3): vi(0,9);
            V_CHECK(apop_text_set(d,r,c,"out")==-1,"set-bounds","set outside of %dx%d at %d,%d was not refused",R,C,r,c);
        }
        if (vflip(.1)){ apop_text_alloc(d,0,3); check(d,"alloc-bad"); apop_text_alloc(d,2,0); check(d,"alloc-bad"); }
        if (vflip(.1)){ apop_opts.nan_string=vflip(.5)?"NaN":"missing%s"; }
        check(d,"after");
        if (V_CHECK(1,"x","x") && v_nfails()) break;
    }
    apop_opts.nan_string=nanold;
    gresize(0,0);
    apop_data_free(d);
}
static void f_vs_others(void){ // text kept through a chain of other operations on the set
    vh_shape s=vh_random_shape(6,4); s.t1=vi(1,6); s.t2=vi(1,4); s.vsize=s.vsize?s.t1:0; s.m1=s.m1?s.t1:0; if(!s.m1) s.m2=0; s.wsize=s.wsize?s.t1:0; s.pages=0; s.rownames=false;
    apop_data *d=vh_data(s); vh_sig_data(d);
    v_desc("text beside v%d m%dx%d t%dx%d",s.vsize,s.m1,s.m2,s.t1,s.t2);
    for (int i=0;i<MX;i++) for (int j=0;j<MX;j++) g[i][j]=NULL;
    R=0;C=0; gresize(s.t1,s.t2); for (int i=0;i<R;i++) for (int j=0;j<C;j++) gset(i,j,d->text[i][j]);
    // a memcpy, a stack of itself, and freeing the sources
    apop_data *e=apop_data_alloc(s.vsize,s.m1,s.m2); apop_text_alloc(e,R,C); if (s.wsize) e->weights=gsl_vector_alloc(s.wsize);
    for (int i=0;i<R;i++) for (int j=0;j<C;j++) if (vflip(.5)) apop_text_set(e,i,j,"prior content");
    apop_data_memcpy(e,d); check(e,"memcpy");
    apop_data_memcpy(e,d); check(e,"memcpy-twice");
    apop_data *k=apop_data_stack(d,e);
    apop_data_free(e); apop_data_free(d);
    V_CHECK((int)k->textsize[0]==2*R,"stack-size","rows %zu",k->textsize[0]);
    for (int i=0;i<2*R&&i<(int)k->textsize[0];i++) for (int j=0;j<C;j++) V_STR(k->text[i][j],g[i%R][j],"stack","cell %d,%d",i,j);
    apop_data_free(k);
    gresize(0,0);
}
vh_family vh_families[] = { {"history",f_history,3000,80000}, {"others",f_vs_others,600,8000}, {NULL} };
