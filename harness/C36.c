#include "vh.h"
const char *vh_rule = "Raking of random tables of two to four numeric variables (counts by row or in a column, repeated cells) under random lists of contrasts (overlapping, nested, saturated, spaced), tables with other columns and other orders of columns, with structural zeros, initial tables (the same or another), nudges, tolerances and iteration limits, against iterative proportional fitting written out over the documented set of cells in the harness: the cells, the weights, the margins, the flag for not converging, the tables left as they were. Distinct by table, contrasts and options.";
typedef long double L;
#define MV 4
#define MC 400
typedef struct { double v[MV]; L w; } cell;
static int V; static cell mt[MC],it[MC],fit[MC]; static int mn,in,fn; static int con[5][MV],nc;
static int find(cell *c,int n,double *v){ for (int i=0;i<n;i++){ int ok=1; for (int j=0;j<V;j++) ok&=c[i].v[j]==v[j]; if (ok) return i; } return -1; }
static void add(cell *c,int *n,double *v,L w){ int i=find(c,*n,v); if (i<0){ i=(*n)++; memcpy(c[i].v,v,sizeof c[i].v); c[i].w=0; } c[i].w+=w; }
static int match(double *a,double *b,int *mask){ for (int j=0;j<V;j++) if (mask[j]&&a[j]!=b[j]) return 0; return 1; }
static int possible(double *v){ for (int c=0;c<nc;c++){ int ok=0; for (int i=0;i<mn&&!ok;i++) ok=match(v,mt[i].v,con[c]); if (!ok) return 0; } for (int j=0;j<V;j++){ int ok=0; for (int i=0;i<mn&&!ok;i++) ok=v[j]==mt[i].v[j]; if (!ok) return 0; } return 1; }
static int zk,zv[2]; static double zx[2]; /* structural zeros: a conjunction */
static int structural(double *v){ if (!zk) return 0; for (int i=0;i<zk;i++) if (v[zv[i]]!=zx[i]) return 0; return 1; }
static const double pool[]={1,2,3,0,-1,10,2.5,7};
static void f_rake(void){
    V=vi(2,4); int nv[MV]; double vals[MV][4]; for (int j=0;j<V;j++){ nv[j]=vi(1,V==4?2:V==3?3:4); int s=vi(0,7); for (int x=0;x<nv[j];x++) vals[j][x]=pool[(s+x)%8]; }
    static const char *nm[]={"aa","b","cc_c","d4"}; char *vars[MV]; for (int j=0;j<V;j++) vars[j]=(char*)nm[j]; int counted=vflip(.5),rows=vi(2,V==2?12:30),mode=vi(0,4); /* 0,1 no initial table; 2 initial table the margin table itself; 3 another one; 4 another one nudged */
    double nudge=mode==4||(mode!=3&&vflip(.3))?vpick(((double[]){.001,.5,1e-6,.0123456})):0; int icounted=mode>=2&&vflip(.6); mn=in=fn=0; static double R[40][MV],W[40];
    apop_table_exists("mar",'d'); apop_table_exists("ini",'d'); int listed=vflip(.65),extra=listed&&vflip(.4),iextra=mode>=3&&vflip(.3),ord[MV]={0,1,2,3},iord[MV]={0,1,2,3}; if (listed&&vflip(.5)) vshuffle(ord,V); if (vflip(.4)) vshuffle(iord,V); char q[2000]="create table mar(",cols[200]="",icols[200]=""; for (int j=0;j<V;j++){ sprintf(cols+strlen(cols),"%s%s",j?", ":"",vars[j]); sprintf(icols+strlen(icols),"%s%s",j?", ":"",vars[j]); } if (counted) strcat(cols,", ct"); if (icounted) strcat(mode==2?cols:icols,", ict"); if (extra) strcat(cols,", ab"); if (iextra) strcat(icols,", zz");
    if (extra) strcat(q,"ab, "); for (int j=0;j<V;j++) sprintf(q+strlen(q),"%s%s",j?", ":"",vars[ord[j]]); if (counted) strcat(q,", ct"); if (icounted&&mode==2) strcat(q,", ict"); strcat(q,")"); apop_query("%s",q);
    for (int i=0;i<rows;i++){ for (int j=0;j<V;j++) R[i][j]=vals[j][vi(0,nv[j]-1)]; double w=counted?vpick(((double[]){1,2,5,.5,30,vd(.1,9)})):1,iw=vpick(((double[]){1,3,.25,12})); add(mt,&mn,R[i],w); if (mode==2) add(it,&in,R[i],icounted?iw:1); strcpy(q,"insert into mar("); strcat(q,cols); strcat(q,") values("); for (int j=0;j<V;j++) sprintf(q+strlen(q),"%s%.17g",j?", ":"",R[i][j]); if (counted) sprintf(q+strlen(q),", %.17g",w); if (icounted&&mode==2) sprintf(q+strlen(q),", %.17g",iw); if (extra) sprintf(q+strlen(q),", %d",vi(0,5)); strcat(q,")"); apop_query("%s",q); v_sigs(q); }
    if (mode>=3){ strcpy(q,iextra?"create table ini(zz, ":"create table ini("); for (int j=0;j<V;j++) sprintf(q+strlen(q),"%s%s",j?", ":"",vars[iord[j]]); if (icounted) strcat(q,", ict"); strcat(q,")"); apop_query("%s",q); int m=vi(2,25); for (int i=0;i<m;i++){ double v[MV]; for (int j=0;j<V;j++){ v[j]=R[vi(0,rows-1)][j]; } if (vflip(.4)) memcpy(v,R[vi(0,rows-1)],sizeof v); double w=icounted?vpick(((double[]){1,2,.3,8,0})):1; add(it,&in,v,w); strcpy(q,"insert into ini("); strcat(q,icols); strcat(q,") values("); for (int j=0;j<V;j++) sprintf(q+strlen(q),"%s%.17g",j?", ":"",v[j]); if (icounted) sprintf(q+strlen(q),", %.17g",w); if (iextra) sprintf(q+strlen(q),", %d",vi(0,5)); strcat(q,")"); apop_query("%s",q); v_sigs(q); } }
    static char cs[5][100]; char *contrasts[5]; nc=vi(1,4); for (int c=0;c<nc;c++){ memset(con[c],0,sizeof con[c]); int any=0; int all=vflip(.08); for (int j=0;j<V;j++) if (all||vflip(.45)){ con[c][j]=1; any=1; } if (!any) con[c][vi(0,V-1)]=1; cs[c][0]=0; int s=vi(0,V-1),f=1; if (vflip(.2)) strcat(cs[c]," "); for (int j=0;j<V;j++){ int x=(j+s)%V; if (!con[c][x]) continue; sprintf(cs[c]+strlen(cs[c]),"%s%s",f?"":vpick(((char*[]){"|"," | ","| "," |"})),vars[x]); f=0; } contrasts[c]=cs[c]; v_sigs(cs[c]); }
    zk=vflip(.3)?vi(1,2):0; if (zk){ zv[0]=vi(0,V-1); zv[1]=(zv[0]+1)%V; for (int i=0;i<zk;i++) zx[i]=vals[zv[i]][vi(0,nv[zv[i]]-1)]; } char zs[100]=""; for (int i=0;i<zk;i++) sprintf(zs+strlen(zs),"%s%s=%.17g",i?" and ":"",vars[zv[i]],zx[i]);
    /* the cells */
    if (mode>=2) for (int i=0;i<in;i++) if (!structural(it[i].v)) add(fit,&fn,it[i].v,it[i].w); if (mode<2||nudge){ int ix[MV]={0}; while (1){ double v[MV]; for (int j=0;j<V;j++) v[j]=vals[j][ix[j]]; if (!structural(v)&&possible(v)&&find(fit,fn,v)<0) add(fit,&fn,v,mode<2?1:nudge); int j=0; while (j<V&&++ix[j]==nv[j]) ix[j++]=0; if (j==V) break; } } if (mode>=2&&nudge) for (int i=0;i<fn;i++) if (!fit[i].w) fit[i].w=nudge;
    v_desc("raking of %d rows in %d cells of %d variables, %d contrasts (%s%s%s), %s%s, zeros '%s', nudge %g, %d cells",rows,mn,V,nc,cs[0],nc>1?"; ":"",nc>1?cs[1]:"",mode<2?"no initial table":mode==2?"initial table the margins":"another initial table",counted?", counts":"",zs,nudge,fn);
    L tot=0,ft=0; for (int i=0;i<mn;i++) tot+=mt[i].w; for (int i=0;i<fn;i++) ft+=fit[i].w; if (!fn||ft<=0){ v_trivial(); return; }
    for (int i=0;i<fn;i++) fit[i].w*=tot/ft; int maxit=vflip(.25)?vi(1,6):vflip(.5)?1000:300; double tol=vpick(((double[]){1e-5,1e-8,1e-3,1e-9})); int lim=0,edge=0,conv=0; static L tg[5][MC]; static int gr[5][MC],ng[5]; /* groups of fit cells */
    for (int c=0;c<nc;c++){ ng[c]=0; static double rep[MC][MV]; for (int i=0;i<fn;i++){ int g=-1; for (int x=0;x<ng[c]&&g<0;x++) if (match(rep[x],fit[i].v,con[c])) g=x; if (g<0){ g=ng[c]++; memcpy(rep[g],fit[i].v,sizeof rep[g]); tg[c][g]=0; for (int m=0;m<mn;m++) if (match(rep[g],mt[m].v,con[c])) tg[c][g]+=mt[m].w; } gr[c][i]=g; } }
    for (lim=1;lim<=maxit;lim++){ L dev=0; for (int c=0;c<nc;c++){ L s[MC]={0}; for (int i=0;i<fn;i++) s[gr[c][i]]+=fit[i].w; for (int g=0;g<ng[c];g++) if (s[g]) dev=fmaxl(dev,fabsl(s[g]-tg[c][g])); for (int i=0;i<fn;i++) if (s[gr[c][i]]) fit[i].w*=tg[c][gr[c][i]]/s[gr[c][i]]; } if (dev<tol){ conv=1; if (dev>tol*.99) edge=1; break; } if (dev<tol*1.01) edge=1; }
    L reach=0; for (int c=0;c<nc;c++){ L s[MC]={0}; for (int i=0;i<fn;i++) s[gr[c][i]]+=fit[i].w; for (int g=0;g<ng[c];g++) reach=fmaxl(reach,fabsl(s[g]-tg[c][g])); }
    if (edge){ v_trivial(); return; } v_ev(conv?"converged":"not_converged"); v_evn("cells",fn); if (conv&&reach>10*tol) v_ev("margins_out_of_reach"); if (conv&&lim==maxit) v_ev("converged_at_the_limit");
    apop_data *before=apop_query_to_data("select * from mar"),*ibefore=mode>=3?apop_query_to_data("select * from ini"):NULL; int tabs=apop_query_to_float("select count(*) from sqlite_master");
    char *initt=mode<2?NULL:mode==2?(icounted&&vflip(.5)?NULL:"mar"):"ini";
    apop_data *o=apop_rake(.margin_table="mar",.var_list=listed?vars:NULL,.var_ct=listed?V:0,.contrasts=contrasts,.contrast_ct=nc,.structural_zeros=zk?zs:NULL,.max_iterations=maxit,.tolerance=tol,.count_col=counted?"ct":NULL,.init_table=initt,.init_count_col=icounted?"ict":NULL,.nudge=nudge);
    if (V_CHECK(o&&o->matrix&&o->weights,"null","no output, error %c",o&&o->error?o->error:'-')){
        V_CHECK(conv?!o->error:o->error=='c',"flag","error '%c' where %d rounds of %d were needed (%s)",o->error?o->error:'-',lim,maxit,conv?"converges":"does not converge"); if (V_CHECK(o->matrix->size1==fn&&o->matrix->size2==V,"cells","%d cells of %d variables, expected %d",(int)o->matrix->size1,(int)o->matrix->size2,fn)){
            char seen[MC]={0}; for (int i=0;i<fn;i++){ double v[MV]; for (int j=0;j<V;j++) v[j]=apop_data_get(o,i,j); int f=find(fit,fn,v); if (!V_CHECK(f>=0,"cells","a cell that can not be nonzero")) break; if (!V_CHECK(!seen[f],"cells","a cell given twice")) break; seen[f]=1; if (conv&&lim<maxit) V_CLOSE(o->weights->data[i],(double)fit[f].w,1e-7,1e-9*tot,"weight","weight of cell %d",i); else V_CLOSE(o->weights->data[i],(double)fit[f].w,1e-6,1e-8*tot,"weight-rounds","weight of cell %d after %d rounds",i,maxit); v_ev("weights"); }
            for (int j=0;j<V;j++) V_CHECK(apop_name_find(o->names,vars[j],'c')==j,"names","column %s not named",vars[j]);
            if (conv&&reach<10*tol) for (int c=0;c<nc;c++) for (int m=0;m<mn;m++){ L s=0,t=0; int any=0; for (int i=0;i<fn;i++){ double v[MV]; for (int j=0;j<V;j++) v[j]=apop_data_get(o,i,j); if (match(v,mt[m].v,con[c])){ s+=o->weights->data[i]; any=1; } } for (int x=0;x<mn;x++) if (match(mt[x].v,mt[m].v,con[c])) t+=mt[x].w; if (any) V_CLOSE((double)s,(double)t,1e-6,20*tol,"margin","a margin of contrast '%s'",cs[c]); v_ev("margins"); } } }
    apop_data *after=apop_query_to_data("select * from mar"); vh_same(after,before,0,"input","the margin table"); if (ibefore){ apop_data *ia=apop_query_to_data("select * from ini"); vh_same(ia,ibefore,0,"input","the initial table"); apop_data_free(ia); } V_EQ(apop_query_to_float("select count(*) from sqlite_master"),tabs,"tables","tables in the database"); for (int c=0;c<nc;c++) V_CHECK(contrasts[c]==cs[c],"input","the contrasts");
    apop_data_free(after); apop_data_free(before); if (ibefore) apop_data_free(ibefore); if (o) apop_data_free(o);
}
vh_family vh_families[] = { {"rake",f_rake,4000,60000}, {0} };
