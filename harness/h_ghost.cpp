// C05: geometry of fields with ghost layers.
#include "ref.h"
#include "basis/face_basis.h"
using namespace mc; using namespace ref;

static void same(const qk::range & r, const ivec & lo, const ivec & hi, const char * what){
    if(r.num_dims()!=(int)lo.size()) fail("%s has %d dimensions instead of %zu",what,r.num_dims(),lo.size());
    for(size_t i=0;i<lo.size();++i) if(r.lower(i)!=lo[i]||r.upper(i)!=hi[i]) fail("%s is [%d,%d) in dimension %zu instead of [%d,%d)",what,r.lower(i),r.upper(i),i,lo[i],hi[i]);
    trans(1);
}
static void geometry(const qk::data::extended_datachunk & c, const ivec & mlo, const ivec & mhi, const ivec & dlo, const ivec & dhi, int g){
    int n=(int)mlo.size();
    ivec lo=mlo,hi=mhi,elo=mlo,ehi=mhi; for(int d=0;d<n;++d){ elo[d]-=g; ehi[d]+=g; }
    for(size_t i=0;i<dlo.size();++i){ lo.push_back(dlo[i]); elo.push_back(dlo[i]); hi.push_back(dhi[i]); ehi.push_back(dhi[i]); }
    if(c.num_ghost_layers()!=g) fail("%d ghost layers instead of %d",c.num_ghost_layers(),g);
    same(c.range(),elo,ehi,"stored range"); same(c.internal_range(),lo,hi,"interior");
    size_t vol=1; for(size_t i=0;i<elo.size();++i) vol*=ehi[i]-elo[i];
    if((size_t)c.volume()!=vol) fail("volume %d instead of %zu",c.volume(),vol);
    for(int d=0;d<n;++d){
        ivec l=lo,h=hi;
        l[d]=lo[d]-g; h[d]=lo[d]; same(c.lower_external_range(d),l,h,"lower external slab");
        l[d]=lo[d]; h[d]=lo[d]+g; same(c.lower_internal_range(d),l,h,"lower internal slab");
        l[d]=hi[d]-g; h[d]=hi[d]; same(c.upper_internal_range(d),l,h,"upper internal slab");
        l[d]=hi[d]; h[d]=hi[d]+g; same(c.upper_external_range(d),l,h,"upper external slab");
    }
    // all of it is addressable
    if(vol){ const double * p=c.data(); volatile double x=p[0]; x=p[vol-1]; (void)x; }
}
struct meshbox { ivec lo,hi; };
static meshbox mesh(int nmax, const char * what, bool small){
    int n=upto(what,1,nmax); meshbox m;
    int low=choose(small?2:5,"lower");
    for(int d=0;d<n;++d){ int l= low==0?0: low==1?-3-d: low==2? 4: low==3? (d?-1:1000): (d%2?2147483600:-2147483600); int len=pick<int>("len", small?ivec{1,3}: (n<=2?ivec{1,2,3,5,6}:(n==3?ivec{1,2,4}:ivec{1,3}))); m.lo.push_back(l); m.hi.push_back(l+len); }
    return m;
}
void body(){
    int part=choose(5,"part");
    if(part==0){ // data chunks, any data range, also re-allocated
        meshbox m=mesh(4,"dims",false); shard();
        int g=upto("ghost layers",0,(int)m.lo.size()<=2?4:3);
        int nd=upto("data dims",0,2); ivec dlo,dhi; for(int i=0;i<nd;++i){ int l=i==0?0:pick<int>("data lower",{0,1}); dlo.push_back(l); dhi.push_back(l+pick<int>("data len",{1,3})); }
        qk::data::extended_datachunk c; op("resize"); c.resize(mkrange(m.lo,m.hi),mkrange(dlo,dhi),g); geometry(c,m.lo,m.hi,dlo,dhi,g);
        state(hasher().add(m.lo).add(m.hi).add(g).add(dlo).add(dhi).get());
    } else if(part==1){ // re-allocation over a previous shape
        meshbox m=mesh(3,"first dims",true); int g=upto("first ghost",0,2); int nc=pick<int>("first comps",{1,5}); shard();
        meshbox m2=mesh(3,"second dims",true); int g2=upto("second ghost",0,3); int nc2=pick<int>("second comps",{1,2});
        qk::data::extended_datachunk c; c.resize(mkrange(m.lo,m.hi),mkrange({0,0},{1,nc}),g); op("re-allocate"); c.resize(mkrange(m2.lo,m2.hi),mkrange({0,0},{2,nc2}),g2); geometry(c,m2.lo,m2.hi,{0,0},{2,nc2},g2);
        qk::data::extended_datachunk e(c); geometry(e,m2.lo,m2.hi,{0,0},{2,nc2},g2); qk::data::extended_datachunk f; f.resize(mkrange(m.lo,m.hi),mkrange({0,0},{1,nc}),g); f=c; geometry(f,m2.lo,m2.hi,{0,0},{2,nc2},g2); geometry(c,m2.lo,m2.hi,{0,0},{2,nc2},g2); trans(2);
        state(hasher().add(m.lo).add(m.hi).add(g).add(m2.lo).add(m2.hi).add(g2).get());
    } else if(part==2){ // variables
        meshbox m=mesh(4,"dims",true); int g=upto("ghost layers",0,3); int np=upto("points",1,3); int nc=pick<int>("components",{1,2,5,6,11}); shard();
        qk::basis::basis b("basis"+std::to_string(np),np); auto names=comps(nc);
        op("variable"); qk::variable::variable v("name "+std::to_string(nc),names,b,mkrange(m.lo,m.hi),g);
        if(v.name()!="name "+std::to_string(nc)||v.component_names()!=names||!(v.basis()==b)||v.basis().num_points()!=np||v.basis().name()!=b.name()) fail("name, components or basis not reported as given");
        if(v.volume()!=1) fail("%d blocks instead of one",v.volume());
        geometry(chunk(v),m.lo,m.hi,{0,0},{np,nc},g);
        if(flag("default ghost")){ qk::variable::variable w("w",names,b,mkrange(m.lo,m.hi)); geometry(chunk(w),m.lo,m.hi,{0,0},{np,nc},2); for(double * p=chunk(w).data(), * q=p+chunk(w).volume(); p<q; ++p) if(*p!=0) fail("new field is not zero"); w=v; geometry(chunk(w),m.lo,m.hi,{0,0},{np,nc},g); if(w.name()!=v.name()||w.component_names()!=v.component_names()||!(w.basis()==v.basis())) fail("assigned variable keeps old description"); }
        state(hasher().add(m.lo).add(m.hi).add(g).add(np).add(nc).get());
    } else if(part==4){ // re-allocation for another shape with as many cells
        int n=upto("dims",2,3); std::vector<ivec> S=n==2?std::vector<ivec>{{2,6},{3,4},{4,3},{6,2},{1,12},{12,1}}:std::vector<ivec>{{2,2,3},{2,3,2},{3,2,2},{1,4,3},{4,1,3},{2,1,6},{2,6,1},{12,1,1}};
        ivec A=pick<ivec>("first shape",S), B=pick<ivec>("second shape",S); int la=choose(3,"first lower"), lb=choose(3,"second lower"); shard(); int g=upto("ghost layers",0,2); int dc=choose(3,"data"); ivec d1= dc==0?ivec{1,2}:ivec{2,1}, d2= dc==2?ivec{1,2}:d1;
        ivec l1(n,0),h1(n),l2(n,0),h2(n); for(int d=0;d<n;++d){ if(la) l1[d]=la==1?-1:5*d; if(lb) l2[d]=lb==1?-1:5*d; h1[d]=l1[d]+A[d]; h2[d]=l2[d]+B[d]; }
        qk::data::extended_datachunk c; op("allocate"); c.resize(mkrange(l1,h1),mkrange({0,0},d1),g); geometry(c,l1,h1,{0,0},d1,g); op("re-allocate"); c.resize(mkrange(l2,h2),mkrange({0,0},d2),g); geometry(c,l2,h2,{0,0},d2,g); qk::data::extended_datachunk e; e.resize(mkrange(l1,h1),mkrange({0,0},d1),g); e=c; geometry(e,l2,h2,{0,0},d2,g); state(hasher().add(l1).add(h1).add(l2).add(h2).add(g).add(dc).get());
    } else { // through the manager, and bases
        meshbox m=mesh(3,"dims",true); int nc=pick<int>("components",{1,5,6}); int which=choose(4,"basis"); shard();
        int n=(int)m.lo.size(); dvec s(n,0.),w(n,1.); qk::grid::rectilinear grid(mkrange(m.lo,m.hi),s.data(),w.data());
        qk::basis::face_basis fb; qk::basis::basis b=qk::basis::volume_average(); int np=1;
        if(which==1){ fb.setup(n,1); b=fb; np=n; if(fb.num_points()!=n) fail("face basis has %d points in %d dimensions",fb.num_points(),n); if(!throws([&]{ qk::basis::face_basis x; x.setup(n,2); })) fail("face basis with two points per dimension accepted"); }
        if(which==2){ b=qk::basis::basis("three",3); np=3; }
        if(which==3){ b=qk::basis::basis("seven",7); np=7; }
        qk::variable::variable_manager mgr(grid); qk::variable::variable_id id("v",comps(nc),b); op("output_variable"); qk::variable::variable & v=mgr.output_variable(id); geometry(chunk(v),m.lo,m.hi,{0,0},{np,nc},2);
        if(v.name()!="v"||v.component_names()!=comps(nc)||!(v.basis()==b)) fail("description of managed variable");
        state(hasher().add(m.lo).add(m.hi).add(nc).add(np).add(which).get());
    }
}
