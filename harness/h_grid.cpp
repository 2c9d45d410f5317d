// C19, C20: uniform and biased grids.  C25: range-checking builds.
#include "ref.h"
#include "grid/structured.h"
using namespace mc; using namespace ref;
typedef long double real;

struct sgrid : public qk::grid::structured { sgrid(){} sgrid(const qk::range & r, const double * s, const double * w) : qk::grid::structured(r,s,w){} void write_vtk(std::ofstream &, const qk::basis::basis &) const {} };

struct geo { ivec lo,hi; dvec st,wd; };
static geo mesh(bool even, bool small){
    geo g; int n=upto("dims",1,small?2:3); int low=choose(small?2:4,"lower"); int gm=choose(small?2:5,"geometry");
    for(int d=0;d<n;++d){ int l=low==0?0:low==1?-5+2*d:low==2?7:-1000000; g.lo.push_back(l); ivec L=small?ivec{2,6}: n==1?ivec{1,2,3,4,7,10,64,1000}: n==2? ivec{1,2,5,10}: ivec{1,2,6}; g.hi.push_back(l+pick<int>("len",L));
        g.st.push_back(gm==0?0: gm==1?-0.5: gm==2? 1e3*(d+1): gm==3? -1./3: 5e-7); g.wd.push_back(gm==0?1: gm==1? 1./3*(d+1): gm==2? 1e-2: gm==3? 7e5: 3e-9*(d+1)); }
    return g;
}
static bool near_(real a, real b, real scale){ return std::fabs(a-b)<=1e-12L*scale; }
// cursors over parts of the grid, as sub-ranges and as ranges of their own (pieces of a subdivision)
template<class F> static void pieces(const qk::grid::grid & G, const ivec & glo, const ivec & ghi, int ghost, const char * what, F want){
    int n=(int)glo.size(); size_t vol=1; for(int d=0;d<n;++d) vol*=ghi[d]-glo[d]; if(vol>3000) return;
    for(int k=0;k<2*n;++k){ ivec lo=glo,hi=ghi; int d=k/2, L=hi[d]-lo[d]; if(k%2){ lo[d]+=L/2; } else { hi[d]-=L/2; lo[(d+1)%n]+=(hi[(d+1)%n]-lo[(d+1)%n])/2; } qk::range piece=mkrange(lo,hi), all=mkrange(glo,ghi); ivec elo=glo,ehi=ghi; for(int e=0;e<n;++e){ elo[e]-=ghost; ehi[e]+=ghost; } qk::range wide=mkrange(elo,ehi);
        for(int v=0;v<3;++v){ qk::indexer i(piece, v==0?piece:v==1?all:wide); if(!i.exists()) fail("%s: no cursor over a piece",what); for(;i.exists();++i){ double x[8]; for(double & y:x) y=-77; G.xc(i,x); for(int e=0;e<n;++e){ double w=want(e,i.index(e)); if(!near_(x[e],w,std::fabs(G.start(e))+3*std::fabs(G.width(e)))) fail("%s: coordinate %d of cell %d of a piece is %.17g instead of %.17g",what,e,i.index(e),x[e],w); } } trans(1); } }
}
static void uniform(const qk::grid::rectilinear & G, const geo & g, const char * what){
    int n=(int)g.lo.size(); if(G.num_dims()!=n) fail("%s: %d dimensions",what,G.num_dims());
    for(int d=0;d<n;++d){ int L=g.hi[d]-g.lo[d]; real sc=std::fabs(g.st[d])+std::fabs(g.wd[d]); if(G.lower(d)!=g.lo[d]||G.upper(d)!=g.hi[d]||G.range().lower(d)!=g.lo[d]||G.range().length(d)!=L) fail("%s: index range of dimension %d",what,d);
        if(!near_(G.start(d),g.st[d],sc)||!near_(G.width(d),g.wd[d],std::fabs(g.wd[d]))) fail("%s: start %.17g width %.17g in dimension %d",what,G.start(d),G.width(d),d);
        if(!near_((real)G.dx(d)*L,g.wd[d],std::fabs(g.wd[d]))) fail("%s: %d cells of width %.17g do not fill %.17g",what,L,G.dx(d),g.wd[d]);
        for(int i=0;i<L;++i){ real want=(real)g.st[d]+((real)i+0.5L)*(real)g.wd[d]/L; if(!near_(G.centroid(d,g.lo[d]+i),want,sc)) fail("%s: centre of cell %d of dimension %d is %.17g instead of %.17Lg",what,g.lo[d]+i,d,G.centroid(d,g.lo[d]+i),want); } trans(1); }
    // cursor lookup, ghost cells included, extra trailing dimensions as in field storage
    for(int extra=0;extra<2;++extra){ ivec lo=g.lo,hi=g.hi; size_t vol=1; for(int d=0;d<n;++d){ lo[d]-=2; hi[d]+=2; vol*=hi[d]-lo[d]; } if(vol>20000) continue; for(int k=0;k<2*extra;++k){ lo.push_back(0); hi.push_back(k+1); }
        qk::range r=mkrange(lo,hi); for(qk::indexer i(r,r);i.exists();++i){ double x[8]; for(double & y:x) y=-77; G.xc(i,x); for(int d=0;d<n;++d){ real sc=std::fabs(g.st[d])+3*std::fabs(g.wd[d]); real want=(real)g.st[d]+((real)(i.index(d)-g.lo[d])+0.5L)*(real)g.wd[d]/(g.hi[d]-g.lo[d]); if(!near_(x[d],want,sc)) fail("%s: coordinate %d of cell %d is %.17g instead of %.17Lg",what,d,i.index(d),x[d],want); if(i.index(d)>=g.lo[d]&&i.index(d)<g.hi[d]&&!near_(x[d],G.centroid(d,i.index(d)),sc)) fail("%s: lookups disagree",what); } for(int d=n;d<8;++d) if(x[d]!=-77) fail("%s: coordinate %d of a %d-dimensional grid was written",what,d,n); } trans(1); }
    pieces(G,g.lo,g.hi,2,what,[&](int d, int i){ return (double)((real)g.st[d]+((real)(i-g.lo[d])+0.5L)*(real)g.wd[d]/(g.hi[d]-g.lo[d])); });
}
static void c19(){
    int part=choose(2,"part");
    if(part==0){ geo g=mesh(false,false); shard(); op("construct"); qk::grid::rectilinear G(mkrange(g.lo,g.hi),g.st.data(),g.wd.data()); uniform(G,g,"grid"); qk::grid::rectilinear C(G); uniform(C,g,"copy"); qk::grid::rectilinear A; A=G; uniform(A,g,"assigned grid"); state(hasher().add(g.lo).add(g.hi).add(g.st).add(g.wd).get()); }
    else { // assignment between different grids, self assignment, in any order
        geo a=mesh(false,true); shard(); geo b=mesh(false,true); std::vector<geo> m={a,b}; std::vector<qk::grid::rectilinear> G; for(auto & g:m) G.push_back(qk::grid::rectilinear(mkrange(g.lo,g.hi),g.st.data(),g.wd.data())); int depth=thorough()?4:3;
        for(int s=0;s<depth;++s){ int o=choose(4,"operation"); if(o==0){ op("b=a"); G[1]=G[0]; m[1]=m[0]; } else if(o==1){ op("a=b"); G[0]=G[1]; m[0]=m[1]; } else if(o==2){ op("a=a"); auto & r=G[0]; G[0]=r; } else { op("a=copy of a temporary"); G[0]=qk::grid::rectilinear(mkrange(a.lo,a.hi),a.st.data(),a.wd.data()); m[0]=a; } for(int i=0;i<2;++i) uniform(G[i],m[i],i?"second grid":"first grid"); hasher h; for(auto & g:m) h.add(g.lo).add(g.hi).add(g.st).add(g.wd); state(h.get()); }
    }
}
// ---------------------------------------------------------------- biased grids
struct model { geo g; std::vector<std::vector<real> > w; // widths
    explicit model(const geo & x) : g(x){ for(size_t d=0;d<g.lo.size();++d) w.push_back(std::vector<real>(g.hi[d]-g.lo[d],(real)g.wd[d]/(g.hi[d]-g.lo[d]))); }
    static real edge(int i, int n, real p){ return powl((real)i/n,1/p); }
    bool sym(int d, double p){ int N=g.hi[d]-g.lo[d]; if(N%2) return false; int n=N/2; for(int i=0;i<n;++i) w[d][i]=w[d][N-1-i]=(real)g.wd[d]/2*(edge(i+1,n,p)-edge(i,n,p)); return true; }
    void lin(int d, double p){ int N=g.hi[d]-g.lo[d]; for(int i=0;i<N;++i) w[d][N-1-i]=(real)g.wd[d]*(edge(i+1,N,p)-edge(i,N,p)); }
};
static void check(const sgrid & G, const model & m, const char * what){
    const geo & g=m.g; int n=(int)g.lo.size(); if(G.num_dims()!=n) fail("%s: %d dimensions",what,G.num_dims());
    for(int d=0;d<n;++d){ int N=g.hi[d]-g.lo[d]; real W=g.wd[d], sum=0, sc=std::fabs(g.st[d])+W; if(!near_(G.start(d),g.st[d],sc)||!near_(G.width(d),W,W)) fail("%s: start or width of dimension %d",what,d); real x=g.st[d];
        for(int i=0;i<N;++i){ real w=G.dx(d,g.lo[d]+i), c=G.centroid(d,g.lo[d]+i); if(!(w>0)) fail("%s: width of cell %d of dimension %d is %.17Lg",what,i,d,w); if(!(std::fabs(w-m.w[d][i])<=1e-10L*W)) fail("%s: width of cell %d of dimension %d is %.17Lg instead of %.17Lg",what,i,d,w,m.w[d][i]); if(!(std::fabs(c-(x+w/2))<=1e-11L*sc)) fail("%s: centre of cell %d of dimension %d is %.17Lg instead of %.17Lg",what,i,d,c,x+w/2); x+=w; sum+=w; }
        if(!(std::fabs(sum-W)<=1e-10L*W)) fail("%s: widths of dimension %d sum to %.17Lg instead of %.17Lg",what,d,sum,W); trans(1); }
    size_t vol=1; for(int d=0;d<n;++d) vol*=g.hi[d]-g.lo[d]; if(vol<=20000) for(int extra=0;extra<2;++extra){ ivec lo=g.lo,hi=g.hi; for(int k=0;k<2*extra;++k){ lo.push_back(0); hi.push_back(k+1); } qk::range r=mkrange(lo,hi); for(qk::indexer i(r,r);i.exists();++i){ double x[8]; for(double & y:x) y=-77; G.xc(i,x); for(int d=0;d<n;++d) if(!near_(x[d],G.centroid(d,i.index(d)),std::fabs(g.st[d])+g.wd[d])) fail("%s: coordinate %d of cell %d is %.17g by cursor and %.17g by index",what,d,i.index(d),x[d],G.centroid(d,i.index(d))); for(int d=n;d<8;++d) if(x[d]!=-77) fail("%s: coordinate %d of a %d-dimensional grid was written",what,d,n); } trans(1); }
    std::vector<std::vector<double> > xs(n); for(int d=0;d<n;++d){ real x=g.st[d]; for(real w:m.w[d]){ xs[d].push_back((double)(x+w/2)); x+=w; } }
    pieces(G,g.lo,g.hi,0,what,[&](int d, int i){ return xs[d][i-g.lo[d]]; });
}
static void c20(){
    int part=choose(2,"part"); const dvec P= thorough()? dvec{1,2,0.5,3,1.5,7,0.25,2.718281828,1.05,1.0001,0.1,0.2,12,30}: dvec{1,2,0.5,3,1.5,1.05,0.125,12};
    if(part==0){ geo g=mesh(true,false); shard(); op("construct"); sgrid G(mkrange(g.lo,g.hi),g.st.data(),g.wd.data()); model m(g); check(G,m,"new grid"); int d=choose((int)g.lo.size(),"dimension"); double p=pick<double>("power",P); bool sym=flag("symmetric"); op("%s bias of dimension %d by %g",sym?"symmetric":"one-sided",d,p);
        if(sym){ bool t=throws([&]{ G.apply_bias_symmetric(d,p); }); bool ok=m.sym(d,p); if(ok&&t) fail("symmetric biasing of an even number of cells refused"); if(!ok&&!t) fail("symmetric biasing of an odd number of cells accepted"); } else { G.apply_bias_linear(d,p); m.lin(d,p); } check(G,m,"after biasing"); sgrid C(G); check(C,m,"copy"); sgrid A; A=G; check(A,m,"assigned grid"); hasher h; h.add(g.lo).add(g.hi).add(g.st).add(g.wd).add(d).add(p).add(sym); state(h.get()); }
    else { geo g; int which=choose(3,"mesh"); if(which==0) g={{-3},{5},{0.25},{2.}}; else if(which==1) g={{0,4},{6,9},{-1.,3.},{3.,0.5}}; else g={{1,0,-2},{3,4,1},{0.,0.,-7.},{1.,2.,10.}}; sgrid G(mkrange(g.lo,g.hi),g.st.data(),g.wd.data()); model m(g); int depth=which==0?4:3; if(thorough()) depth++; int n=(int)g.lo.size(); dvec p={1.,2.,0.5,2.03}; const int np=(int)p.size(); hasher h; h.add(which);
        for(int s=0;s<depth;++s){ int o=choose(n*2*np,"operation"); if(s==0) shard(); int d=o%n; bool sym=o/n%2; double q=p[o/n/2]; op("%s bias of dimension %d by %g",sym?"symmetric":"one-sided",d,q); if(sym){ bool t=throws([&]{ G.apply_bias_symmetric(d,q); }); if(m.sym(d,q)==t) fail("symmetric biasing of %d cells %s",g.hi[d]-g.lo[d],t?"refused":"accepted"); } else { G.apply_bias_linear(d,q); m.lin(d,q); } check(G,m,"after biasing"); h.add(o); state(h.get()); }
    }
}
// ---------------------------------------------------------------- range checks
static void c25(){
#ifndef _QK_RANGE_CHECK_
    fail("harness built without range checks");
#endif
    int part=choose(4,"part"); const ivec DIMS={-2147483647-1,-5,-1,0,1,2,3,4,5,17,2147483647};
    if(part==0){ // cursors
        int n=upto("dims",0,4); ivec lo,hi,slo,shi; int low=choose(2,"lower"); for(int d=0;d<n;++d){ lo.push_back(low?-2+d:0); hi.push_back(lo[d]+3); slo.push_back(lo[d]+1); shi.push_back(lo[d]+3); } shard(); qk::range r=mkrange(lo,hi),sub=mkrange(slo,shi); qk::indexer i(sub,r); if(n==0) i=qk::indexer(); int steps= n? choose(4,"steps"):0; for(int s=0;s<steps;++s) ++i; int dim=pick<int>("dimension",DIMS); int o=choose(4,"operation"); bool ok=dim>=0&&dim<n; ivec before; for(int d=0;d<n;++d) before.push_back(i.index(d)); int lin=i.linear_index(); bool ex=i.exists(); static const char * N[]={"index","[]","increment","decrement"}; op("%s(%d) of a %d-dimensional cursor",N[o],dim,n); int got=0; bool t=throws([&]{ if(o==0) got=i.index(dim); else if(o==1) got=i[dim]; else if(o==2) i.increment(dim); else i.decrement(dim); }); if(t==ok) fail("%s of dimension %d of %d %s",N[o],dim,n,t?"raised an exception":"succeeded"); if(ok){ if(o<2&&got!=before[dim]) fail("wrong coordinate"); if(o>=2) before[dim]+= o==2?1:-1; int st=1; for(int d=n-1;d>dim;--d) st*=hi[d]-lo[d]; if(o>=2) lin+= o==2?st:-st; } for(int d=0;d<n;++d) if(i.index(d)!=before[d]) fail("coordinate %d changed to %d",d,i.index(d)); if(i.linear_index()!=lin||i.exists()!=ex) fail("a request changed the cursor: linear index %d instead of %d",i.linear_index(),lin); state(hasher().add(n).add(low).add(steps).add(dim).add(o).get()); }
    else if(part==1){ // elements
        int n=upto("dims",1,3); ivec lo,hi; for(int d=0;d<n;++d){ lo.push_back(-1+d); hi.push_back(lo[d]+pick<int>("len",{1,2,3})); } int kind=choose(2,"container"); shard(); qk::indexer_interface<double> c; qk::data::datachunk dc; qk::range r=mkrange(lo,hi); if(kind==0) c=qk::indexer_interface<double>(r); else { dc.resize(r,qk::range()); } int vol=1; for(int d=0;d<n;++d) vol*=hi[d]-lo[d]; qk::indexer_interface<double> & C= kind? static_cast<qk::indexer_interface<double>&>(dc): c; for(int i=0;i<vol;++i) C.data()[i]=i+1;
        // a cursor of a larger range, walked to any place, also by hand before the beginning
        ivec bhi=hi; for(int d=0;d<n;++d) bhi[d]+=choose(2,"wider"); qk::range big=mkrange(lo,bhi); qk::indexer i(big,big); int bv=1; for(int d=0;d<n;++d) bv*=bhi[d]-lo[d]; int steps=choose(bv,"steps"); for(int s=0;s<steps;++s) ++i; int back=choose(3,"back"); for(int s=0;s<back;++s) i.decrement(0); int lin=i.linear_index(); bool ok=lin>=0&&lin<vol; double v=0; int cst=choose(4,"access"); op("element %d of %d",lin,vol); bool t=throws([&]{ const qk::indexer_interface<double> & k=C; if(cst==0) v=*k.data(i); else if(cst==1) v=*C.data(i); else if(cst==2) v=k[i]; else v=C[i]; }); if(t==ok) fail("element %d of %d %s",lin,vol,t?"refused":"accepted"); if(ok&&v!=lin+1) fail("wrong element"); for(int k=0;k<vol;++k) if(C.data()[k]!=k+1) fail("a request changed the container"); state(hasher().add(lo).add(hi).add(bhi).add(lin).add(kind).get()); }
    else { // grids
        int n=upto("dims",1,3); ivec lo,hi; dvec st,wd; int low=choose(3,"lower"); for(int d=0;d<n;++d){ lo.push_back(low==0?0:low==1?-4:6+d); hi.push_back(lo[d]+2+2*(d%2)); st.push_back(0.5*d); wd.push_back(1+d); } shard(); qk::grid::rectilinear R(mkrange(lo,hi),st.data(),wd.data()); sgrid S(mkrange(lo,hi),st.data(),wd.data()); const qk::grid::grid & B= part==2? (const qk::grid::grid&)R:(const qk::grid::grid&)S; int dim=pick<int>("dimension",DIMS); bool ok=dim>=0&&dim<n; int o=choose(part==2?5:7,"request"); static const char * N[]={"start","width","centroid","dx","-","bias symmetric","bias one-sided"}; double v=0; bool t;
        if(o<2){ op("%s(%d)",N[o],dim); t=throws([&]{ v= o==0? B.start(dim):B.width(dim); }); if(t==ok) fail("%s of dimension %d of %d %s",N[o],dim,n,t?"refused":"accepted"); if(ok&&!near_(v,o==0?st[dim]:wd[dim],1)) fail("wrong %s",N[o]); }
        else if(o==4){ op("self check"); t=false; }
        else if(o>=5){ op("%s(%d)",N[o],dim); t=throws([&]{ if(o==5) S.apply_bias_symmetric(dim,2.); else S.apply_bias_linear(dim,2.); }); if(t==ok) fail("%s of dimension %d of %d %s",N[o],dim,n,t?"refused":"accepted"); if(!ok) for(int d=0;d<n;++d) for(int i=lo[d];i<hi[d];++i) if(!near_(S.dx(d,i),wd[d]/(hi[d]-lo[d]),wd[d])) fail("a refused request changed the grid"); }
        else if(o==3&&part==2){ op("dx(%d)",dim); t=throws([&]{ v=R.dx(dim); }); if(t==ok) fail("dx of dimension %d of %d %s",dim,n,t?"refused":"accepted"); if(ok&&!near_(v,wd[dim]/(hi[dim]-lo[dim]),wd[dim])) fail("wrong dx"); }
        else { int ix; if(ok){ ivec I; for(int i=lo[dim]-3;i<hi[dim]+3;++i) I.push_back(i); I.push_back(-2147483647-1); I.push_back(2147483647); ix=pick<int>("cell",I); ok=ix>=lo[dim]&&ix<hi[dim]; } else ix=pick<int>("cell",{-1,0,lo[0],7}); op("%s(%d,%d)",N[o],dim,ix); t=throws([&]{ v= o==2? (part==2? R.centroid(dim,ix):S.centroid(dim,ix)) : S.dx(dim,ix); }); if(t==ok) fail("%s of cell %d of dimension %d %s",N[o],ix,dim,t?"refused":"accepted"); if(ok){ double w=wd[dim]/(hi[dim]-lo[dim]); double want= o==2? st[dim]+(ix-lo[dim]+0.5)*w : w; if(!(std::fabs(v-want)<1e-12)) fail("wrong %s %g instead of %g",N[o],v,want); } }
        state(hasher().add(n).add(low).add(part).add(dim).add(o).get());
    }
}
void body(){ if(prop()=="C19") c19(); else if(prop()=="C20") c20(); else c25(); }
