#include "vh.h"
#include "vmodels.h"
const char *vh_rule = "Random histories of copying models, setting parameters, estimating, adding, replacing, changing, copying and removing settings groups (the library's and one of the harness that owns memory and counts it), preparing, evaluating, drawing and freeing over up to eight live models, with every live model and the built-in models compared with their reference after each step; estimates of every kind of model copied, either copy freed first, and the survivor compared with what was computed before; the registries of special-case functions against a reference table, and looked up by models that share some of their functions; models estimated, and the estimates estimated again with other data, against estimates from the model itself; and models declaring sizes of every kind, prepared for data of every shape. Distinct by history, model and data.";
/* a group that owns memory */
typedef struct { char *s; int id; } vown_settings;
static int own_live;
Apop_settings_init(vown, out->s=strdup(in.s?in.s:"default"); own_live++;)
Apop_settings_copy(vown, out->s=strdup(in->s); own_live++;)
Apop_settings_free(vown, free(in->s); own_live--;)
typedef struct { int id; } vplain_settings; /* no copy or free functions */
enum {G_OWN,G_MLE,G_PARTS,G_CDF,G_PM,G_MCMC,G_LM,G_PLAIN,G_LONG,G_LONG2,G_AB,G_BA,NG};
static char *gname[NG]={"vown","apop_mle","apop_parts_wanted","apop_cdf","apop_pm","apop_mcmc","apop_lm","vplain","a_group_with_a_name_that_goes_on_for_ninety_characters_or_so_as_long_as_the_table_allows_01","a_group_with_a_name_that_goes_on_for_ninety_characters_or_so_as_long_as_the_table_allows_02","v_ab","v_bA"};
typedef struct { int on; double a,b; void *p; char s[30]; } gref;
typedef struct { apop_model *m; gref g[NG]; int np; double par[3]; int est; char *dump; int more; vdist *D; } live;
static live L8[8]; static int nl; static vplain_settings plains[4];
static char *funcs(apop_model *m){ char *o; if (asprintf(&o,"%s|%p %p %p %p %p %p %p|%d",m->name,(void*)m->estimate,(void*)m->p,(void*)m->log_likelihood,(void*)m->cdf,(void*)m->constraint,(void*)m->draw,(void*)m->prep,m->error)<0) abort(); return o; }
static void snap(live *l){ free(l->dump); l->dump=vmodel_dump(l->m); l->np=l->m->parameters&&l->m->parameters->vector?GSL_MIN(3,l->m->parameters->vector->size):0; for (int i=0;i<l->np;i++) l->par[i]=apop_data_get(l->m->parameters,i,-1); }
static void check_groups(live *l,const char *op){ for (int k=0;k<NG;k++){ gref *g=l->g+k; void *v=apop_settings_get_grp(l->m,gname[k],'c'); if (!g->on) continue; if (!V_CHECK(v!=NULL,"group-lost","after %s, the %s group is gone",op,gname[k])) continue; switch (k){
    case G_OWN: V_STR(((vown_settings*)v)->s,g->s,"own","string of the group after %s",op); V_EQ(((vown_settings*)v)->id,(int)g->a,"own","number of the group after %s",op); break;
    case G_MLE: { apop_mle_settings *s=v; V_EQ(s->tolerance,g->a,"mle","tolerance after %s",op); V_EQ(s->max_iterations,(int)g->b,"mle","iterations after %s",op); V_CHECK(s->starting_pt==g->p,"mle","the starting point changed after %s",op); break; }
    case G_PARTS: { apop_parts_wanted_settings *s=v; V_EQ(s->covariance,(char)g->a,"parts","covariance after %s",op); V_EQ(s->info,(char)g->b,"parts","info after %s",op); break; }
    case G_CDF: V_EQ(((apop_cdf_settings*)v)->draws,(int)g->a,"cdf","draws after %s",op); break;
    case G_PM: V_EQ(((apop_pm_settings*)v)->draws,(int)g->a,"pm","draws after %s",op); V_EQ(((apop_pm_settings*)v)->index,(int)g->b,"pm","index after %s",op); break;
    case G_MCMC: V_EQ(((apop_mcmc_settings*)v)->periods,(int)g->a,"mcmc","periods after %s",op); V_EQ(((apop_mcmc_settings*)v)->burnin,g->b,"mcmc","burn-in after %s",op); break;
    case G_LM: V_EQ(((apop_lm_settings*)v)->destroy_data,(char)g->a,"lm","setting after %s",op); break;
    case G_PLAIN: case G_LONG: case G_LONG2: case G_AB: case G_BA: V_CHECK(v==g->p,"plain","a group without a copy function changed after %s",op); V_EQ(((vplain_settings*)v)->id,(int)g->a,"plain","number after %s",op); break; } } }
static int ngroups(apop_model *m){ int n=0; if (m->settings) while (m->settings[n].name[0]) n++; return n; }
static void add(live *l,int k){ gref *g=l->g+k; memset(g,0,sizeof *g); g->on=1; int had=apop_settings_get_grp(l->m,gname[k],'c')!=NULL,n=ngroups(l->m); void *r=NULL; switch (k){
    case G_OWN: g->a=vi(1,1000); snprintf(g->s,30,"s%d",vi(0,99999)); r=Apop_settings_add_group(l->m,vown,.s=g->s,.id=g->a); break;
    case G_MLE: g->a=vd(1e-6,1e-2); g->b=vi(5,50); g->p=vflip(.5)?(void*)(double[3]){0}:NULL; { static double st[3]={.5,.7,3}; g->p=vflip(.5)?st:NULL; } r=Apop_settings_add_group(l->m,apop_mle,.tolerance=g->a,.max_iterations=g->b,.starting_pt=g->p); break;
    case G_PARTS: g->a=vflip(.5)?'y':'n'; g->b=vflip(.5)?'y':'n'; r=Apop_settings_add_group(l->m,apop_parts_wanted,.covariance=g->a,.info=g->b); break;
    case G_CDF: g->a=vi(5,200); r=Apop_settings_add_group(l->m,apop_cdf,.draws=g->a); break;
    case G_PM: g->a=vi(5,200); g->b=vi(-1,2); r=Apop_settings_add_group(l->m,apop_pm,.draws=g->a,.index=g->b); break;
    case G_MCMC: g->a=vi(5,200); g->b=vd(.01,.9); r=Apop_settings_add_group(l->m,apop_mcmc,.periods=g->a,.burnin=g->b); break;
    case G_LM: g->a=vflip(.5)?'y':'n'; r=Apop_settings_add_group(l->m,apop_lm,.destroy_data=g->a); break;
    default: { vplain_settings *p=plains+vi(0,3); g->p=p; g->a=p->id; r=apop_settings_group_alloc(l->m,gname[k],NULL,NULL,p); break; } }
    V_CHECK(r==apop_settings_get_grp(l->m,gname[k],'c'),"add","adding the %s group returns another pointer than getting it",gname[k]); V_EQ(ngroups(l->m),n+!had,"add","groups after adding %s",gname[k]); v_ev(gname[k]); }
static void set(live *l,int k){ gref *g=l->g+k; if (!apop_settings_get_grp(l->m,gname[k],'c')){ int v=apop_opts.verbose; apop_opts.verbose=-1; l->m->error=0; switch (k){ case G_MLE: Apop_settings_set(l->m,apop_mle,tolerance,1) break; case G_CDF: Apop_settings_set(l->m,apop_cdf,draws,3) break; case G_PARTS: Apop_settings_set(l->m,apop_parts_wanted,info,'y') break; default: apop_opts.verbose=v; return; } apop_opts.verbose=v; V_EQ(l->m->error,'s',"set-missing","error element after setting an element of the missing group %s",gname[k]); l->m->error=0; v_ev("set_missing"); return; }
    if (!g->on) return; switch (k){ case G_MLE: g->b=vi(5,50); Apop_settings_set(l->m,apop_mle,max_iterations,g->b) break; case G_PARTS: g->a='y'; Apop_settings_set(l->m,apop_parts_wanted,covariance,'y') break; case G_CDF: g->a=vi(5,99); if (Apop_settings_get(l->m,apop_cdf,draws_made)) { g->a=Apop_settings_get(l->m,apop_cdf,draws); break; } Apop_settings_set(l->m,apop_cdf,draws,g->a) break; case G_PM: g->b=vi(-1,2); Apop_settings_set(l->m,apop_pm,index,g->b) break; case G_MCMC: g->b=vd(.1,.5); Apop_settings_set(l->m,apop_mcmc,burnin,g->b) break; case G_LM: g->a='y'; Apop_settings_set(l->m,apop_lm,destroy_data,'y') break; case G_OWN: g->a=vi(1,1000); Apop_settings_set(l->m,vown,id,g->a) V_EQ(Apop_settings_get(l->m,vown,id),(int)g->a,"get","setting read back"); break; } }
static void f_history(void){
    nl=0; memset(L8,0,sizeof L8); own_live=0; for (int i=0;i<4;i++) plains[i].id=i*7+1; char *was[NDIST],*fw[NDIST]; for (int i=0;i<NDIST;i++) was[i]=vmodel_dump(*vdists[i].m),fw[i]=funcs(*vdists[i].m); gsl_rng *r=apop_rng_alloc(vi(1,1<<30)); int steps=vi(8,30); char trail[1000]=""; int len=0;
    for (int s=0;s<steps;s++){ char op[160]; live *t=nl?L8+vi(0,nl-1):NULL; int what=nl?vi(0,13):0; if (nl==8&&what<3) what=7; if (what<3&&nl<8){ live *n=L8+nl; memset(n,0,sizeof *n); vdist *D=t&&vflip(.6)?t->D:vdists+vi(0,NDIST-1); int builtin=!t||D!=t->D||vflip(.2); apop_model *src=builtin?*D->m:t->m; n->D=D; if (!builtin) memcpy(n->g,t->g,sizeof n->g); switch (what){
            case 0: snprintf(op,160,"copy %s",builtin?D->name:"a live model"); n->m=apop_model_copy(src); if (!builtin) { n->est=t->est; n->more=t->more; if (t->more) V_CHECK(n->m->more!=t->m->more&&*(int*)n->m->more==t->more,"more","the memory at more was not copied"); } V_CHECK(n->m!=src,"copy","the copy is the original"); break;
            case 1: { double p[3]={0}; D->par(p); snprintf(op,160,"set parameters of %s",builtin?D->name:"a live model"); n->m=D->np==1?apop_model_set_parameters(src,p[0]):D->np==2?apop_model_set_parameters(src,p[0],p[1]):apop_model_set_parameters(src,p[0],p[1],p[2]); if (!builtin) n->more=t->more; for (int i=0;i<D->np;i++) V_EQ(apop_data_get(n->m->parameters,i,-1),p[i],"parameters","parameter %d as set",i); break; }
            default: { double p[3]={0}; do D->par(p); while (D->par==zipf_par&&p[0]<1.3); apop_data *d=vscalars(D,p,8); if (src->data) { apop_data_free(d); what=0; n->m=apop_model_copy(src); n->more=builtin?0:t->more; snprintf(op,160,"copy"); break; } snprintf(op,160,"estimate %s",builtin?D->name:"a live model"); apop_data *dc=apop_data_copy(d); apop_model *in=src; int v=apop_opts.verbose; apop_opts.verbose=-1; n->m=apop_estimate(d,in); apop_opts.verbose=v; n->est=1; if (!builtin) n->more=t->more; if ((*D->m)->estimate&&n->m&&!n->m->error){ apop_data *df=apop_data_copy(d); apop_opts.verbose=-1; apop_model *fe=apop_estimate(df,*D->m); apop_opts.verbose=v; V_EQ(n->m->parameters->vector->size,D->np,"re-estimate","parameters after estimating a live model"); for (int i=0;i<D->np;i++) V_EQ(apop_data_get(n->m->parameters,i,-1),apop_data_get(fe->parameters,i,-1),"re-estimate","parameter %d of %s, estimated from %s",i,D->name,builtin?"the built-in model":"a live model"); int a=apop_name_find(n->m->info->names,"log likelihood",'r'),b=apop_name_find(fe->info->names,"log likelihood",'r'); if (a>=0&&b>=0) V_EQ(apop_data_get(n->m->info,a,-1),apop_data_get(fe->info,b,-1),"re-estimate","log likelihood of %s, estimated from %s",D->name,builtin?"the built-in model":"a live model"); apop_model_free(fe); apop_data_free(df); v_ev("reestimated");} vh_same(d,dc,true,"data","data of an estimation"); n->m->data=NULL; apop_data_free(d); apop_data_free(dc); } }
            if (V_CHECK(n->m!=NULL,"null","no model after %s",op)){ nl++; n->m->error=0; snap(n); } }
        else switch (what){
            case 3: case 4: { int k=vi(0,NG-1); snprintf(op,160,"add %s",gname[k]); add(t,k); snap(t); break; }
            case 5: { int k=vi(0,NG-1); snprintf(op,160,"remove %s",gname[k]); int had=apop_settings_get_grp(t->m,gname[k],'c')!=NULL,n=ngroups(t->m); apop_settings_remove_group(t->m,gname[k]); V_CHECK(!apop_settings_get_grp(t->m,gname[k],'c'),"remove","the %s group is still there",gname[k]); V_EQ(ngroups(t->m),n-had,"remove","groups after removing %s",gname[k]); t->g[k].on=0; snap(t); break; }
            case 6: { int k=vi(0,NG-1); snprintf(op,160,"set in %s",gname[k]); set(t,k); snap(t); break; }
            case 7: { live *o=L8+vi(0,nl-1); int k=vi(0,NG-1); snprintf(op,160,"copy group %s",gname[k]); if (o==t) break; int v=apop_opts.verbose; apop_opts.verbose=-1; t->m->error=0; int has=apop_settings_get_grp(o->m,gname[k],'c')!=NULL; apop_settings_copy_group(t->m,o->m,gname[k]); apop_opts.verbose=v; if (has) { t->g[k]=o->g[k]; V_EQ(t->m->error,0,"copy-group","error"); } else if (o->m->settings) V_EQ(t->m->error,'s',"copy-group","error after copying a missing group"); t->m->error=0; snap(t); break; }
            case 8: case 9: { snprintf(op,160,"free"); apop_model_free(t->m); free(t->dump); *t=L8[--nl]; memset(L8+nl,0,sizeof *L8); break; }
            case 10: { snprintf(op,160,"change parameters"); if (t->np) apop_data_set(t->m->parameters,vi(0,t->np-1),-1,.37); snap(t); break; }
            case 11: { snprintf(op,160,"evaluate"); if (t->np==t->D->np){ double p[3]={0}; t->D->par(p); for (int i=0;i<t->np;i++) apop_data_set(t->m->parameters,i,-1,p[i]); snap(t); apop_data *d=vscalars(t->D,p,4); double x; apop_log_likelihood(d,t->m); apop_p(d,t->m); if (t->m->draw) apop_draw(&x,r,t->m); if (t->m->cdf) apop_cdf(d,t->m); apop_data_free(d); char *now=vmodel_dump(t->m); V_STR(now,t->dump,"evaluate","the model changed by evaluating it"); free(now); } break; }
            case 12: { snprintf(op,160,"prepare"); if (t->m->parameters){ apop_prep(NULL,t->m); double p[3]; for (int i=0;i<t->np;i++) p[i]=apop_data_get(t->m->parameters,i,-1); for (int i=0;i<t->np;i++) V_CHECK(p[i]==t->par[i]||(isnan(p[i])&&isnan(t->par[i])),"prep","parameter %d changed by preparing again",i); snap(t); } break; }
            default: { snprintf(op,160,"more"); if (!t->more){ t->m->more=malloc(16); *(int*)t->m->more=t->more=vi(1,1<<20); t->m->more_size=16; } break; } }
        if (getenv("VH_TRACE")) fprintf(stderr,"%s [np %d]\n",op,nl?L8[nl-1].np:0); if (len<900) len+=snprintf(trail+len,sizeof trail-len,"; %s",op); v_sigs(op); v_ev("steps");
        for (int i=0;i<nl;i++){ char *now=vmodel_dump(L8[i].m); V_STR(now,L8[i].dump,"interfered","model %d (%s) after: %s",i,L8[i].D->name,trail+2); free(now); check_groups(L8+i,op); if (L8[i].more) V_EQ(*(int*)L8[i].m->more,L8[i].more,"more","memory at more after %s",op); int c=0; for (int j=0;j<nl;j++) c+=L8[j].g[G_OWN].on; if (i==0) V_EQ(own_live,c,"own-count","groups alive with memory of their own after: %s",trail+2); } if (v_nfails()) break; }
    for (int i=0;i<NDIST;i++){ char *now=vmodel_dump(*vdists[i].m),*fn=funcs(*vdists[i].m); V_STR(now,was[i],"builtin","built-in %s after: %s",vdists[i].name,trail+2); V_STR(fn,fw[i],"builtin","built-in %s's functions",vdists[i].name); free(now); free(fn); free(was[i]); free(fw[i]); }
    while (nl){ nl--; apop_model_free(L8[nl].m); free(L8[nl].dump); } V_EQ(own_live,0,"own-count","groups alive after everything is freed"); gsl_rng_free(r); v_desc("history: %.200s",trail+2);
}
/* estimates: a copy is independent of the original */
typedef struct { double ll,cdf,draw[3][5],pr; char *dump; int ok; } obs;
static obs observe(apop_model *m,apop_data *pts,int cdf){ obs o={.ok=1}; int v=apop_opts.verbose; apop_opts.verbose=-1; o.ll=m->log_likelihood||m->p?apop_log_likelihood(pts,m):0; if (cdf) o.cdf=apop_cdf(pts,m); if (m->draw){ gsl_rng *r=apop_rng_alloc(17); for (int i=0;i<3;i++) if (apop_draw(o.draw[i],r,m)) o.ok=0; gsl_rng_free(r); } apop_opts.verbose=v; char *a=vh_dump(m->parameters,true),*b=vh_dump(m->info,true); if (asprintf(&o.dump,"%s|%s",a,b)<0) abort(); free(a); free(b); return o; }
static void same_obs(obs a,obs b,const char *what,const char *kind){ char key[40]; snprintf(key,sizeof key,"%s-%s",what,kind); V_CHECK(a.ll==b.ll||(isnan(a.ll)&&isnan(b.ll)),key,"log likelihood %.17g, then %.17g",a.ll,b.ll); V_CHECK(a.cdf==b.cdf||(isnan(a.cdf)&&isnan(b.cdf)),key,"CDF %.17g, then %.17g",a.cdf,b.cdf); for (int i=0;i<3;i++) for (int j=0;j<5;j++) V_CHECK(a.draw[i][j]==b.draw[i][j]||(isnan(a.draw[i][j])&&isnan(b.draw[i][j])),key,"draw %d is %.17g, then %.17g",i,a.draw[i][j],b.draw[i][j]); V_STR(b.dump,a.dump,key,"parameters and info"); }
static double cut(apop_data *d,apop_model *m){ return 0; } static long double incon(apop_data *d,apop_model *m){ double x=d->vector?apop_data_get(d,0,-1):apop_data_get(d,0,0); return x>0; }
static void f_copies(void){
    int kind=vi(0,13); char *names[]={"pmf","kernel density","OLS","probit","logit","multivariate normal","multinomial","normal","mixture","fixed parameters","cross","constrained data","set cdf draws","arms"}; v_sigd(kind); apop_data *d,*pts; int n=vi(6,15),cdf=0; apop_model *e=NULL,*a=NULL,*b=NULL; gsl_rng *r=apop_rng_alloc(vi(1,1<<30)); 
    switch (kind){ case 2: case 3: case 4: d=apop_data_alloc(n,n,2); for (int i=0;i<n;i++){ apop_data_set(d,i,0,1); apop_data_set(d,i,1,vnorm()); apop_data_set(d,i,-1,kind==2?vnorm():i<2?i:vi(0,1)); } if (kind==2||kind==3||kind==4){ gsl_vector_set_all(Apop_cv(d,0),1); } break; case 5: d=apop_data_alloc(n,2); for (int i=0;i<n;i++) apop_data_set(d,i,0,vnorm()),apop_data_set(d,i,1,vnorm()); break; case 6: d=apop_data_alloc(n,3); for (int i=0;i<n;i++){ int u=vi(0,4),w=vi(0,4-u); apop_data_set(d,i,0,u); apop_data_set(d,i,1,w); apop_data_set(d,i,2,4-u-w); } break; case 10: d=apop_data_alloc(n,2); for (int i=0;i<n;i++) apop_data_set(d,i,0,vnorm()),apop_data_set(d,i,1,1+vpos()); break; default: d=vflip(.5)?apop_data_alloc(n):apop_data_alloc(n,1); for (int i=0;i<n;i++) apop_data_set(d,i,d->vector?-1:0,.1+vpos()+(vflip(.5)?4:0)); }
    vh_sig_data(d); pts=apop_data_copy(Apop_r(d,vi(0,n-1))); int v=apop_opts.verbose; apop_opts.verbose=-1; switch (kind){ case 0: e=apop_estimate(d,apop_pmf); cdf=1; break; case 1: a=apop_model_set_parameters(apop_normal,0,1); e=apop_model_set_settings(apop_kernel_density,.base_data=d,.kernel=vflip(.5)?a:NULL); apop_prep(d,e); e->data=d; break; case 2: e=apop_estimate(d,apop_ols); pts=(apop_data_free(pts),apop_data_copy(d)); break; case 3: e=apop_estimate(d,apop_probit); pts=(apop_data_free(pts),apop_data_copy(d)); break; case 4: e=apop_estimate(d,apop_logit); pts=(apop_data_free(pts),apop_data_copy(d)); break; case 5: e=apop_estimate(d,apop_multivariate_normal); cdf=1; break; case 6: e=apop_estimate(d,apop_multinomial); break; case 7: e=apop_estimate(d,apop_normal); cdf=1; break; case 8: a=apop_model_set_parameters(apop_normal,1,1); b=apop_model_set_parameters(apop_normal,5,1.5); e=apop_model_mixture(apop_model_copy(a),apop_model_copy(b)); apop_prep(d,e); { apop_model *x=apop_estimate(d,e); (void)x; apop_model_free(e); e=x; } break;
        case 9: a=apop_model_set_parameters(apop_normal,NAN,1.5); b=apop_model_fix_params(a); e=apop_estimate(d,b); break; case 10: a=apop_model_set_parameters(apop_normal,1,1); b=apop_model_set_parameters(apop_exponential,2); e=NULL; break; case 11: a=apop_model_set_parameters(apop_normal,1,1); e=apop_model_dconstrain(.base_model=a,.constraint=(double(*)(apop_data*,apop_model*))0,.draw_ct=200,.rng=r); break; case 12: a=apop_model_set_parameters(apop_normal,1,1); e=apop_model_copy(a); e->cdf=NULL; Apop_settings_add_group(e,apop_cdf,.draws=50,.rng=r); cdf=1; break; default: a=apop_model_set_parameters(apop_gamma,2,1); e=apop_model_copy(a); e->draw=NULL; break; }
    apop_opts.verbose=v; if (!e||kind==11||kind==8){ if (e) apop_model_free(e); v_trivial(); goto out; }
    v_desc("a copy of an estimate: %s",names[kind]); int first=vflip(.5); obs o={0}; if (first) o=observe(e,pts,cdf&&kind!=5); apop_model *c=apop_model_copy(e); V_EQ(c->error,0,"error","error of the copy"); int c2=vflip(.5); apop_model *cc=c2?apop_model_copy(c):NULL; if (!first) o=observe(e,pts,kind==12?0:cdf&&kind!=5); if (kind==12&&!first) o.cdf=0; if (vflip(.5)){ obs oc=observe(c,pts,kind==12&&!first?0:cdf&&kind!=5); same_obs(o,oc,"copy",names[kind]); free(oc.dump); } 
    int which=vi(0,1+c2); apop_model *all[3]={e,c,cc}; apop_model_free(all[which]); all[which]=NULL; for (int i=0;i<2+c2;i++) if (all[i]){ obs oc=observe(all[i],pts,kind==12&&!first?0:cdf&&kind!=5); same_obs(o,oc,i?"survivor":"original",names[kind]); free(oc.dump); apop_model *again=apop_model_copy(all[i]); apop_model_free(all[i]); oc=observe(again,pts,kind==12&&!first?0:cdf&&kind!=5); same_obs(o,oc,"recopied",names[kind]); free(oc.dump); apop_model_free(again); } free(o.dump); v_ev(names[kind]);
out: if (b) apop_model_free(b); if (a) apop_model_free(a); apop_data_free(d); apop_data_free(pts); gsl_rng_free(r);
}
/* the registries */
static void f_vtables(void){ int n=vi(3,40); char *tabs[]={"v_alpha","v_beta","v_gamma"}; struct { int t; unsigned long h; void *f; } ref[40]; int nr=0; unsigned long hs[8]; for (int i=0;i<8;i++) hs[i]=i==0?0:i==1?~0UL:vi(1,1<<30); v_desc("%d operations on the registries",n); for (int i=0;i<n;i++){ int t=vi(0,2),op=vi(0,2); unsigned long h=hs[vi(0,7)]; int at=-1; for (int j=0;j<nr;j++) if (ref[j].t==t&&ref[j].h==h) at=j; v_sigd(h); v_sigd(op*3+t); if (op==0){ void *f=hs+vi(0,7); apop_vtable_add(tabs[t],f,h); if (at<0){ ref[nr].t=t; ref[nr].h=h; ref[nr++].f=f; } } else if (op==1){ int o=apop_vtable_drop(tabs[t],h); V_EQ(o,at<0,"drop","value of dropping"); if (at>=0) ref[at]=ref[--nr]; } for (int tt=0;tt<3;tt++) for (int j=0;j<8;j++){ void *want=NULL; for (int z=0;z<nr;z++) if (ref[z].t==tt&&ref[z].h==hs[j]) want=ref[z].f; V_CHECK(apop_vtable_get(tabs[tt],hs[j])==want,"get","table %d, element %d",tt,j); } V_CHECK(!apop_vtable_get("v_never",h),"get","a table that does not exist has an element"); } for (int j=0;j<nr;j++) apop_vtable_drop(tabs[ref[j].t],ref[j].h); }
static long double lla(apop_data *d,apop_model *m){ return -1; } static long double llb(apop_data *d,apop_model *m){ return -2; } static long double llc(apop_data *d,apop_model *m){ double x=apop_data_get(m->parameters,0,-1); return -x*x; } static void esta(apop_data *d,apop_model *m){} static void estb(apop_data *d,apop_model *m){}
static apop_data *preda(apop_data *d,apop_model *m){ apop_data *o=apop_data_alloc(1); apop_data_set(o,0,-1,111); return o; } static apop_model *pma(apop_data *d,apop_model *m){ return apop_model_set_parameters(apop_normal,111,1); } static void prta(apop_model *m,FILE *f){ fprintf(f,"special"); } static void sca(apop_data *d,gsl_vector *g,apop_model *m){ gsl_vector_set_all(g,111); } static long double enta(apop_model *m){ return 111; }
static void f_dispatch(void){ /* special-case functions go to the models they are for */
    long double (*lls[])(apop_data*,apop_model*)={lla,llb,llc}; void (*ests[])(apop_data*,apop_model*)={NULL,esta,estb}; int li=vi(0,2),ei=vi(0,2),lj=vi(0,2),ej=vi(0,2),asp=vflip(.2),bsp=vflip(.2); apop_model A={"A",.vsize=1,.dsize=1},B={"B",.vsize=1,.dsize=1}; if (asp) A.p=lls[li]; else A.log_likelihood=lls[li]; if (bsp) B.p=lls[lj]; else B.log_likelihood=lls[lj]; A.estimate=ests[ei]; B.estimate=ests[ej]; v_sigd(li*27+ei*9+lj*3+ej); v_sigd(asp*2+bsp); v_desc("special cases registered for a model with log likelihood %d and estimation %d, looked up for one with %d and %d",li,ei,lj,ej); int same=li==lj&&ei==ej; apop_model *a=apop_model_copy(&A),*b=apop_model_copy(&B); a->parameters=apop_data_fill(apop_data_alloc(1),.5); b->parameters=apop_data_fill(apop_data_alloc(1),.5);
    apop_predict_vtable_add(preda,a); apop_parameter_model_vtable_add(pma,a); apop_score_vtable_add(sca,a); V_CHECK(apop_predict_vtable_get(a)==preda,"registered","the prediction just registered is not found"); V_CHECK(apop_parameter_model_vtable_get(a)==pma,"registered","the parameter model just registered is not found"); V_CHECK(apop_score_vtable_get(a)==sca,"registered","the score just registered is not found");
    if (!same||1){ V_CHECK((apop_predict_vtable_get(b)==preda)==same,"predict","the prediction of another model is %sused",same?"not ":""); V_CHECK((apop_parameter_model_vtable_get(b)==pma)==same,"parameter-model","the parameter model of another model is %sused",same?"not ":""); V_CHECK((apop_score_vtable_get(b)==sca)==(li==lj),"score","the score of another model is %sused",li==lj?"not ":""); }
    V_EQ(apop_predict_vtable_drop(a),0,"drop","dropping"); apop_parameter_model_vtable_drop(a); apop_score_vtable_drop(a); V_CHECK(!apop_predict_vtable_get(a),"drop","found after dropping");
    if (vflip(.3)){ /* the library's own registrations, made for copies without an estimation method */ apop_model *N=apop_model_copy(vflip(.5)?apop_normal:apop_lognormal); N->estimate=NULL; apop_prep(NULL,N); apop_model *u=apop_model_copy(&B); u->estimate=NULL; V_CHECK(!apop_predict_vtable_get(u),"library","a model with none of the Normal's functions gets its prediction"); apop_model_free(N); apop_model_free(u); }
    apop_model_free(a); apop_model_free(b);
}
/* estimating an estimate again: nothing of the first estimation shows in the second */
static apop_data *re_data(int kind,int n,int dims){ apop_data *d=NULL; int named=vflip(.7); switch (kind){
    case 0: d=vflip(.5)?apop_data_alloc(n):apop_data_alloc(n,1); for (int i=0;i<n;i++) apop_data_set(d,i,d->vector?-1:0,vi(1,9)); break; /* counts */
    case 1: d=vflip(.5)?apop_data_alloc(n):apop_data_alloc(n,1); for (int i=0;i<n;i++) apop_data_set(d,i,d->vector?-1:0,vd(.02,.98)); break;
    case 2: d=vflip(.5)?apop_data_alloc(n):apop_data_alloc(n,1); for (int i=0;i<n;i++) apop_data_set(d,i,d->vector?-1:0,i<2?i:vi(0,1)); break;
    case 3: d=apop_data_alloc(n,2); for (int i=0;i<n;i++) apop_data_set(d,i,0,vi(0,9)),apop_data_set(d,i,1,vi(1,9)); break;
    case 4: d=apop_data_alloc(n,dims); for (int i=0;i<n;i++) for (int j=0;j<dims;j++) apop_data_set(d,i,j,vnorm()+(j?0:i%3)); break;
    default: d=apop_data_alloc(n,3); for (int i=0;i<n;i++){ double a=vnorm(),b=vnorm(); apop_data_set(d,i,1,a); apop_data_set(d,i,2,b); apop_data_set(d,i,0,i<4?i%2:a+2*vnorm()>0); } if (n>=4){ apop_data_set(d,0,1,2); apop_data_set(d,1,1,-2); apop_data_set(d,2,1,-1); apop_data_set(d,3,1,1); } }
    if (named&&d->matrix) for (size_t j=0;j<d->matrix->size2;j++){ char nm[20]; snprintf(nm,20,"%c%d",'a'+vi(0,25),(int)j); apop_name_add(d->names,nm,'c'); } return d; }
static char *re_dump(apop_model *m){ char *a=vh_dump(m->parameters,false),*b=vh_dump(m->info,false),*o; if (asprintf(&o,"parameters %s\ninfo %s",a,b)<0) abort(); free(a); free(b); return o; }
static void f_reestimate(void){
    struct { char *name; apop_model *m; int k; double tol; } t[]={{"normal",apop_normal,0},{"lognormal",apop_lognormal,0},{"gamma",apop_gamma,1,1e-3},{"beta",apop_beta,1},{"exponential",apop_exponential,0},{"poisson",apop_poisson,0},{"uniform",apop_uniform,0},{"bernoulli",apop_bernoulli,2},{"binomial",apop_binomial,3},{"multinomial",apop_multinomial,3},{"multivariate normal",apop_multivariate_normal,4},{"ols",apop_ols,4},{"probit",apop_probit,5,1e-2},{"logit",apop_logit,5,1e-2},{"pmf",apop_pmf,0}};
    int k=vi(0,14),dims=vi(2,4),steps=vi(2,4); v_sigd(k*4+dims); v_sigd(steps); apop_model *prev=t[k].m,*all[4]; apop_data *ds[4]; char *dumps[4]; v_desc("%s estimated %d times over, each from the one before",t[k].name,steps); int v=apop_opts.verbose; int st=0;
    for (;st<steps;st++){ int n=vi(12,40); ds[st]=re_data(t[k].k,n,dims); vh_sig_data(ds[st]); apop_data *fd=apop_data_copy(ds[st]); apop_opts.verbose=-1; all[st]=apop_estimate(ds[st],prev); apop_model *fresh=apop_estimate(fd,t[k].m); apop_opts.verbose=v; V_EQ(all[st]->error,fresh->error,"re-error","error of estimate %d",st);
        if (t[k].tol){ if (V_CHECK(!all[st]->parameters==!fresh->parameters,"re-parameters","parameters")&&!fresh->error&&!all[st]->error){ gsl_vector *x=apop_data_pack(all[st]->parameters),*y=apop_data_pack(fresh->parameters); if (V_CHECK(x->size==y->size,"re-size","estimate %d has %zu parameters, not %zu",st,x->size,y->size)) { double big=0; for (size_t i=0;i<x->size;i++) big=GSL_MAX(big,fabs(y->data[i])); double l1=apop_log_likelihood(ds[st],all[st]),l2=apop_log_likelihood(fd,fresh); V_CHECK(fabs(l1-l2)<=1e-2*(1+fabs(l2)),"re-ll","estimate %d reaches a log likelihood of %g, not %g as from the model itself",st,l1,l2); } gsl_vector_free(x); gsl_vector_free(y); } dumps[st]=re_dump(all[st]); }
        else { char *w=re_dump(fresh); dumps[st]=re_dump(all[st]); V_STR(dumps[st],w,"re-estimate","%s, estimate %d, estimated from the one before",t[k].name,st); free(w); if (t[k].m!=apop_pmf||1){ apop_data *pt=apop_data_copy(Apop_r(fd,vi(0,n-1))); double l1=apop_log_likelihood(pt,all[st]),l2=apop_log_likelihood(pt,fresh); V_EQ(l1,l2,"re-point","log likelihood of one observation, estimate %d",st); apop_data_free(pt); } }
        apop_model_free(fresh); apop_data_free(fd); prev=all[st]; v_ev(t[k].name); for (int j=0;j<st;j++){ char *now=re_dump(all[j]); V_STR(now,dumps[j],"re-earlier","estimate %d after estimate %d was made from it",j,st); free(now); } if (v_nfails()) { st++; break; } }
    for (int j=0;j<st;j++){ apop_model_free(all[j]); free(dumps[j]); apop_data_free(ds[j]); }
}
/* apop_model_clear readies a model: sizes of -1 are the width of the data */
static void f_clear(void){
    int hasm=vflip(.7),hasv=hasm?vflip(.4):1,w=hasm?vi(1,6):1,N=vi(1,5),nul=vflip(.1); apop_data *d=hasm?apop_data_calloc(hasv?N:0,N,w):apop_data_calloc(N); int sz[]={0,-1,vi(1,5)}; apop_model *m=apop_model_copy(apop_normal); m->prep=NULL; apop_data_free(m->parameters); m->parameters=NULL; apop_data_free(m->info); m->info=NULL; m->data=NULL; m->vsize=vpick(sz); int both=vflip(.6); m->msize1=both?(vflip(.5)?-1:vi(1,5)):0; m->msize2=both?(vflip(.5)?-1:vi(1,5)):0; m->dsize=vpick(sz);
    if (nul){ if (m->vsize<0) m->vsize=2; if (m->msize1<0) m->msize1=3; if (m->msize2<0) m->msize2=1; if (m->dsize<0) m->dsize=1; } int wv=m->vsize<0?w:m->vsize,w1=m->msize1<0?w:m->msize1,w2=m->msize2<0?w:m->msize2,wd=m->dsize<0?w:m->dsize; v_desc("sizes %d, %d, %d, draws of %d; data of %s%d columns",m->vsize,m->msize1,m->msize2,m->dsize,hasv?"a vector and ":"",hasm?w:0); v_sigd(m->vsize+10*m->msize1+100*m->msize2+1000*m->dsize); v_sigd(w+10*hasm+20*hasv+40*nul);
    for (int round=0;round<2;round++){ apop_model *r=apop_model_clear(nul?NULL:d,m); V_CHECK(r==m,"same","the return is not the input"); V_CHECK(!m->error,"error","error %c",m->error); V_EQ(m->dsize,wd,"dsize","size of a draw"); apop_data *p=m->parameters; V_EQ(p&&p->vector?(int)p->vector->size:0,wv,"vsize","elements of the parameter vector"); V_EQ(p&&p->matrix?(int)p->matrix->size1:0,w1,"msize1","rows of the parameter matrix"); V_EQ(p&&p->matrix?(int)p->matrix->size2:0,w2,"msize2","columns of the parameter matrix"); V_CHECK(m->info&&m->info->names->title&&!strcmp(m->info->names->title,"<Info>"),"info","no info page"); V_CHECK(nul||m->data==d,"data","the model does not link the data"); v_ev("models_cleared");
        if (round==0&&p){ if (p->vector) gsl_vector_set_all(p->vector,7.5); if (p->matrix) gsl_matrix_set_all(p->matrix,7.5); } else if (p){ if (p->vector) V_EQ(apop_sum(p->vector),7.5*wv,"kept","parameters already set"); if (p->matrix) V_EQ(apop_matrix_sum(p->matrix),7.5*w1*w2,"kept","parameters already set"); } }
    apop_model_free(m); apop_data_free(d);
}
vh_family vh_families[]={{"clear",f_clear,2000,60000},{"history",f_history,1500,60000},{"copies",f_copies,1000,40000},{"vtables",f_vtables,800,30000},{"dispatch",f_dispatch,600,20000},{"reestimate",f_reestimate,300,12000},{NULL}};
