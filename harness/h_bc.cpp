// C06, C07, C08: boundary conditions.
#include "bcref.h"
#include "solver/bc_periodic.h"
#include "solver/bc_copy_out.h"
#include "solver/bc_no_slip.h"
#include "solver/bc_free_slip.h"
#include "solver/bc_conducting_wall.h"
using namespace mc; using namespace ref;
typedef qk::variable::variable_id vid;

template<class S> static void solve_with(qk::variable::variable_manager & m, const std::vector<vid> & ids, const ivec & dims, int how){
    static S reused; // one object used again and again, for other meshes too
    S fresh; S & s = how==1? reused : fresh;
    s.setup(dims);
    if(how==0) for(auto & i:ids) s.add_output_variable(i); else s.set_output_variables(ids);
    if(how==2){ S copy(s); copy.solve(m); } else if(how==3){ const qk::solver::solver & b=s; b.solve(m,0); } else s.solve(m);
}
static void solve(int kind, qk::variable::variable_manager & m, const std::vector<vid> & ids, const ivec & dims, int how){
    switch(kind){
    case PERIODIC: solve_with<qk::solver::bc_periodic>(m,ids,dims,how); break;
    case COPY_OUT: solve_with<qk::solver::bc_copy_out>(m,ids,dims,how); break;
    case NO_SLIP: solve_with<qk::solver::bc_no_slip>(m,ids,dims,how); break;
    case FREE_SLIP: solve_with<qk::solver::bc_free_slip>(m,ids,dims,how); break;
    case WALL: solve_with<qk::solver::bc_conducting_wall>(m,ids,dims,how); break;
    }
}
static std::vector<int> kinds(){ if(prop()=="C06") return {PERIODIC}; if(prop()=="C08") return {WALL}; return {COPY_OUT,NO_SLIP,FREE_SLIP}; }
static ivec compset(int kind){ if(kind==WALL) return {6,8,11}; if(kind==NO_SLIP||kind==FREE_SLIP) return {5,4,7,12}; return {1,3,5,6,12}; }

struct world {
    std::unique_ptr<qk::grid::rectilinear> grid; std::unique_ptr<qk::variable::variable_manager> mgr;
    std::vector<vid> ids; std::vector<field> f; std::vector<mask> k;
    world(const ivec & lo, const ivec & hi){ dvec s(lo.size(),-1.),w(lo.size(),2.); grid.reset(new qk::grid::rectilinear(mkrange(lo,hi),s.data(),w.data())); mgr.reset(new qk::variable::variable_manager(*grid)); moment(*mgr); this->lo=lo; this->hi=hi; }
    ivec lo,hi;
    int add(const std::string & name, int g, int np, int nc, int salt){
        qk::basis::basis b = np==1? qk::basis::basis(qk::basis::volume_average()) : qk::basis::basis("points",np);
        vid id(name,comps(nc),b); auto & v=mgr->output_variable(id);
        if(g!=2) v=qk::variable::variable(name,comps(nc),b,mkrange(lo,hi),g);
        field x(lo,hi,g,np,nc); tag(x,salt); load(v,x); ids.push_back(id); f.push_back(x); k.push_back(mask(x.v.size(),1)); return (int)ids.size()-1;
    }
    void check(const char * when){ for(size_t i=0;i<ids.size();++i) compare_masked(mgr->input_variable(ids[i]),f[i],k[i],(ids[i].name()+" "+when).c_str()); }
    void track(){ hasher h; for(auto & x:f) h.add(x.hash()); state(h.get()); }
};

static std::vector<ivec> dimlists(int n){
    std::vector<ivec> r={{}};
    std::vector<ivec> layer={{}};
    for(int l=0;l<n;++l){ std::vector<ivec> nx; for(auto & a:layer) for(int d=0;d<n;++d){ ivec b=a; b.push_back(d); nx.push_back(b); r.push_back(b);} layer=nx; }
    return r; // every list of up to n dimensions, any order, repetitions included
}

static void single(){
    int kind=pick<int>("condition",kinds());
    int n=upto("dims",1,3); int g=upto("ghost layers",1,3);
    ivec lo,hi; int low=choose(n==1?5:3,"lower");
    for(int d=0;d<n;++d){ int l= low==0?0: low==3?-777: low==4?4001: low==1?-4+d: 3+2*d; ivec lens={g,g+1,g+2}; if(n==1){ lens.push_back(2*g+3); lens.push_back(17);} if(n==3) lens={g,g+1}; int len=pick<int>("len",lens); lo.push_back(l); hi.push_back(l+len); }
    int nc=pick<int>("components",n==3&&kind<=COPY_OUT?ivec{1,5}:compset(kind)); int np=pick<int>("points",n==3&&nc>1?ivec{1}:ivec{1,2}); shard();
    auto L=dimlists(n); if(n==3&&!thorough()){ std::vector<ivec> k; for(auto & x:L) if(x.size()<3||std::set<int>(x.begin(),x.end()).size()==3) k.push_back(x); L=k; }
    ivec dims=pick<ivec>("selected",L);
    world w(lo,hi); int a=w.add("field",g,np,nc,1); w.add("bystander",g,np,nc,2);
    op("%s on %s",bcname(kind),show(dims).c_str());
    solve(kind,*w.mgr,{w.ids[a]},dims,(int)dims.size()%4);
    apply_bc(w.f[a],w.k[a],kind,dims); w.check("after the condition"); w.track();
    op("again"); field before=w.f[a]; save(w.mgr->input_variable(w.ids[a]),before);
    solve(kind,*w.mgr,{w.ids[a]},dims,1); expect_same(w.mgr->input_variable(w.ids[a]),before,"applied again"); w.check("after applying again");
}

static void several(){ // lists of fields, repeated fields, fields of different widths
    int kind=pick<int>("condition",kinds()); int n=upto("dims",1,3);
    ivec lo,hi; for(int d=0;d<n;++d){ lo.push_back(-1+d); hi.push_back(lo[d]+2+(d+n)%3); }
    auto C=compset(kind); world w(lo,hi);
    int c0=pick<int>("first components",C); shard(); int c1=pick<int>("second components",C);
    w.add("a",2,1,c0,1); w.add("b",pick<int>("ghost of b",{1,2}),1,c1,2); w.add("c",2,2,C[0],3); w.add("bystander",2,1,c0,4);
    std::vector<ivec> lists={{},{0},{1},{0,1},{1,0},{0,1,2},{2,1,0},{0,0},{0,1,0},{2,2,2}};
    ivec l=pick<ivec>("fields",lists); ivec dims=pick<ivec>("selected",dimlists(std::min(n,2)));
    if(n==3&&flag("last dim")) dims.push_back(2);
    std::vector<vid> ids; for(int i:l) ids.push_back(w.ids[i]);
    op("%s on fields %s",bcname(kind),show(l).c_str()); solve(kind,*w.mgr,ids,dims,(c0+(int)dims.size())%4);
    for(int i:l) apply_bc(w.f[i],w.k[i],kind,dims);
    w.check("after the condition"); w.track();
}

static void combined(){ // sequences of different conditions, with the interior changing in between
    int n=upto("dims",1,thorough()?3:2); ivec lo,hi; for(int d=0;d<n;++d){ lo.push_back(2*d-1); hi.push_back(lo[d]+2+d); }
    world w(lo,hi); w.add("fluid",2,1,5,1); w.add("field",2,1,6,2);
    ivec ks = prop()=="C06"? ivec{PERIODIC,COPY_OUT,NO_SLIP}: prop()=="C07"? ivec{COPY_OUT,NO_SLIP,FREE_SLIP,PERIODIC,WALL}: ivec{WALL,PERIODIC,COPY_OUT};
    int depth=3; auto L=n==1?std::vector<ivec>{{0}}: n==2? std::vector<ivec>{{0},{1},{0,1},{1,0}}: std::vector<ivec>{{0},{1},{2},{2,0}};
    for(int s=0;s<depth;++s){
        int kind=pick<int>("condition",ks); ivec dims=pick<ivec>("selected",L); if(s==0) shard();
        int t = kind==WALL?1: kind<=COPY_OUT? choose(2,"field"):0;
        op("%s on %s of %s",bcname(kind),show(dims).c_str(),w.ids[t].name().c_str());
        solve(kind,*w.mgr,{w.ids[t]},dims,s);
        apply_bc(w.f[t],w.k[t],kind,dims); w.check("after the condition"); w.track();
        if(s==0&&flag("change interior")){ for(int i=0;i<2;++i){ field & f=w.f[i]; save(w.mgr->input_variable(w.ids[i]),f); for_box(f.lo,f.hi,[&](const ivec & x){ for(int c=0;c<f.nc;++c) f.at(x,0,c)=-f.at(x,0,c)*1.5+c; }); load(w.mgr->output_variable(w.ids[i]),f); } }
    }
}

static void extremes(){ // special interior values, poisoned ghost cells, long meshes
    int kind=pick<int>("condition",kinds()); int n=upto("dims",1,2); int big=choose(3,"size"); int val=choose(3,"values"); shard();
    ivec lo(n,0),hi(n,3); if(big==1) hi[0]=70; if(big==2) hi[n-1]=600; lo[0]=-5;
    world w(lo,hi); int nc=compset(kind).back(); w.add("field",2,1,nc,1); field & f=w.f[0];
    static const double S[]={0.,-0.,1e300,-1e-300,5e-324,1.,-2.,INFINITY,3.,7.};
    for_box(f.elo(),f.ehi(),[&](const ivec & x){ int o=f.outside(x); for(int c=0;c<nc;++c){ if(o) f.at(x,0,c)=poison(); else if(val==1) f.at(x,0,c)=S[(x[0]+c+100)%10]; else if(val==2) f.at(x,0,c)=0.; } });
    load(w.mgr->output_variable(w.ids[0]),f);
    ivec dims=pick<ivec>("selected",dimlists(n)); op("%s",bcname(kind)); solve(kind,*w.mgr,{w.ids[0]},dims,0); apply_bc(f,w.k[0],kind,dims); w.check("after the condition"); w.track();
}

static void longlists(){ // many fields in one request
    int kind=pick<int>("condition",kinds()); int n=upto("dims",1,2); ivec lo,hi; for(int d=0;d<n;++d){ lo.push_back(-1+d); hi.push_back(lo[d]+2+d); }
    int len=pick<int>("list length",{4,5,7,8,9,11,16,17,33,65}); int order=choose(3,"order"); shard(); int skip=choose(3,"unlisted"); auto C=compset(kind); world w(lo,hi); int total=len+2;
    for(int i=0;i<total;++i) w.add("f"+std::to_string(i),2,1,C[i%C.size()],i+1);
    ivec l; int first= skip==0?0: skip==1?1: 2; for(int i=0;i<len;++i) l.push_back(first+(order==0?i: order==1?len-1-i: (i*(len%2?2:3)+1)%len)); ivec dims(n); for(int d=0;d<n;++d) dims[d]=n-1-d; std::vector<vid> ids; for(int i:l) ids.push_back(w.ids[i]);
    op("%s on fields %s",bcname(kind),show(l).c_str()); solve(kind,*w.mgr,ids,dims,(len+order)%4); std::set<int> done; for(int i:l) if(done.insert(i).second) apply_bc(w.f[i],w.k[i],kind,dims); w.check("after the condition"); w.track();
}

void body(){ switch(choose(5,"part")){ case 0: single(); break; case 1: several(); break; case 2: combined(); break; case 3: extremes(); break; case 4: longlists(); break; } }
