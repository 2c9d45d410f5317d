// C09: the variable registry.
#include "ref.h"
#include "basis/face_basis.h"
using namespace mc; using namespace ref;
typedef qk::variable::variable_id vid;

static std::vector<vid> menu(){
    qk::basis::basis b1=qk::basis::volume_average(), b2("volume_average",2), b3("other",1), b4("a",9), b5("zz",1);
    std::vector<vid> m={ vid("q",comps(2),b1), vid("q",comps(2),b2), vid("q",comps(2),b3), vid("r",comps(2),b1), vid("q ",comps(2),b1), vid("",comps(1),b1), vid("q",comps(2),b4), vid("qq",comps(3),b5), vid("Q",comps(2),b1) };
    return m;
}
struct entry { vid id; field f; qk::variable::variable * p; };

static void sequences(){
    auto M=menu(); int depth=thorough()?6:5; int mesh=choose(3,"mesh");
    ivec lo= mesh==0?ivec{0}:mesh==1?ivec{-1,2}:ivec{0,1,0}, hi= mesh==0?ivec{3}:mesh==1?ivec{1,4}:ivec{1,2,2};
    dvec s(lo.size(),0.),w(lo.size(),1.); qk::grid::rectilinear grid(mkrange(lo,hi),s.data(),w.data());
    qk::variable::variable_manager mgr(grid); if(&mgr.grid()!=&grid) fail("grid() is another grid");
    if(!(mgr.grid().range()==mkrange(lo,hi))) fail("grid range");
    std::vector<entry> known; double dt=0,time=0; bool hast=false; 
    int nid = sanitized? 4: (thorough()?6:5);
    int set=choose(2,"ids"); std::vector<vid> U; for(int i=0;i<nid;++i) U.push_back(M[set==0?i:(int)M.size()-1-i]);
    if(mesh) U.resize(3);
    for(int k=0;k<depth;++k){
        int o=choose(2*(int)U.size()+3,"op"); if(k==1) shard();
        if(o<(int)U.size()){ // output
            const vid & id=U[o]; op("output %s/%s",id.name().c_str(),id.basis().name().c_str()); vid copy(id);
            qk::variable::variable & v=mgr.output_variable(copy);
            entry * e=0; for(auto & x:known) if(x.id.name()==id.name()&&x.id.basis().name()==id.basis().name()&&x.id.basis().num_points()==id.basis().num_points()) e=&x;
            if(!e){ known.push_back({id,field(lo,hi,2,id.basis().num_points(),(int)id.component_names().size()),&v}); e=&known.back(); if(v.name()!=id.name()||v.component_names()!=id.component_names()||!(v.basis()==id.basis())) fail("new variable does not match its identifier"); expect_same(v,e->f,"new variable"); for(auto & x:known) if(&x!=e&&x.p==&v) fail("two identifiers share one variable"); }
            if(e->p!=&v) fail("variable moved");
            expect_same(v,e->f,"variable");
            tag(e->f,k*10+o+1); load(v,e->f);
        } else if(o<2*(int)U.size()){
            const vid & id=U[o-U.size()]; op("input %s/%s",id.name().c_str(),id.basis().name().c_str());
            entry * e=0; for(auto & x:known) if(x.id.name()==id.name()&&x.id.basis().name()==id.basis().name()&&x.id.basis().num_points()==id.basis().num_points()) e=&x;
            const qk::variable::variable_manager & cm=mgr; const qk::variable::variable * v=0; std::string txt; bool t=throws([&]{ v=&cm.input_variable(id); },&txt);
            if(!e){ if(!t) fail("unknown input variable accepted"); if(txt.empty()) fail("no error text"); }
            else { if(t) fail("known input variable refused: %s",txt.c_str()); if(v!=e->p) fail("input and output variable differ"); }
        } else if(o==2*(int)U.size()){ // same name, other components
            if(known.empty()) return; vid bad(known[0].id.name(),comps(7),known[0].id.basis()); op("component mismatch"); if(!throws([&]{ mgr.output_variable(bad); })) fail("mismatching components accepted for output"); if(!throws([&]{ mgr.input_variable(bad); })) fail("mismatching components accepted for input"); }
        else if(o==2*(int)U.size()+1){ dt=0.25*(k+1); op("set_dt"); mgr.set_dt(dt); hast=true; }
        else { time=-3.5*(k+1); op("set_time"); mgr.set_time(time); hast=true; }
        if(hast&&(mgr.dt()!=dt||mgr.time()!=time)) fail("time %g and dt %g instead of %g and %g",mgr.time(),mgr.dt(),time,dt);
        for(auto & x:known){ expect_same(*x.p,x.f,"stored variable"); }
        hasher h; for(auto & x:known) h.add(x.f.hash()).add(x.id.name()).add(x.id.basis().name()).add(x.id.basis().num_points()); h.add(dt).add(time); state(h.get());
    }
}
static void many(){ // many variables: all stable
    int n=pick<int>("count",{10,100,300}); int order=choose(3,"order"); shard();
    dvec s(1,0.),w(1,1.); qk::grid::rectilinear grid(mkrange({0},{2}),s.data(),w.data()); qk::variable::variable_manager mgr(grid);
    std::vector<entry> k; for(int i=0;i<n;++i){ int j= order==0?i: order==1? n-1-i: (i*7)%n; vid id("v"+std::to_string(j)+(order==2?"_"+std::to_string(i):""),comps(1+j%3),qk::basis::volume_average()); op("add"); qk::variable::variable & v=mgr.output_variable(id); k.push_back({id,field({0},{2},2,1,1+j%3),&v}); expect_same(v,k.back().f,"new"); tag(k.back().f,i); load(v,k.back().f); }
    for(auto & e:k){ if(&mgr.input_variable(e.id)!=e.p||&mgr.output_variable(e.id)!=e.p) fail("variable moved"); expect_same(*e.p,e.f,"stored variable"); trans(2); }
    // two managers do not share anything
    qk::variable::variable_manager other(grid); if(!throws([&]{ other.input_variable(k[0].id); })) fail("another manager knows the variable"); other.output_variable(k[0].id); chunk(other.output_variable(k[0].id)).fill(4.); expect_same(*k[0].p,k[0].f,"variable of the first manager"); state(hasher().add(n).add(order).get());
}
static int key(const vid & v){ return 0; }
static void identifiers(){ // ordering, equality, clones
    auto M=menu(); int i=choose((int)M.size(),"a"), j=choose((int)M.size(),"b"), l=choose((int)M.size(),"c"); shard();
    const vid & a=M[i], & b=M[j], & c=M[l]; op("compare");
    bool skip=false; for(const vid * x:{&a,&b,&c}) for(const vid * y:{&a,&b,&c}) if(x->name()==y->name()&&x->component_names()!=y->component_names()) skip=true; if(skip) return;
    bool same=i==j; if((a==b)!=same) fail("equality of identifiers %d and %d",i,j);
    int lt=a<b, gt=b<a; if(lt&&gt) fail("a<b and b<a"); if(same?(lt||gt):!(lt||gt)) fail("order inconsistent with equality for %d and %d",i,j);
    if((a<b)&&(b<c)&&!(a<c)) fail("order is not transitive");
    const qk::basis::basis & x=a.basis(), & y=b.basis(), & z=c.basis(); bool bs=x.name()==y.name()&&x.num_points()==y.num_points(); if((x==y)!=bs||(x!=y)==bs) fail("equality of bases"); if((x<y)&&(y<x)) fail("bases x<y<x"); if(bs?((x<y)||(y<x)):!((x<y)||(y<x))) fail("order of bases inconsistent with equality"); if((x<y)&&(y<z)&&!(x<z)) fail("order of bases is not transitive");
    // clones
    std::vector<vid> cl; for(int k=0;k<12;++k){ cl.push_back(a.unique_clone()); cl.push_back(b.unique_clone()); trans(2); }
    cl.push_back(cl[0].unique_clone()); cl.push_back(cl[1].unique_clone()); cl.push_back(a); if(i!=j) cl.push_back(b);
    for(size_t p=0;p<cl.size();++p){ for(size_t q=0;q<cl.size();++q){ if(p==q) continue; if(cl[p].name()==cl[q].name()&&cl[p].component_names()!=cl[q].component_names()) fail("clone collides with a variable of other components"); if(cl[p]==cl[q]) fail("clones %zu and %zu are equal (%s)",p,q,cl[p].name().c_str()); if(cl[p].name()==cl[q].name()&&cl[p].basis()==cl[q].basis()) fail("clones share name and basis"); } }
    for(size_t p=0;p<24;++p){ const vid & o=p%2?b:a; if(cl[p].component_names()!=o.component_names()||!(cl[p].basis()==o.basis())) fail("clone has other components or basis"); }
    state(hasher().add(i).add(j).add(l).get()); (void)key;
    // clones have their own storage
    dvec s(1,0.),w(1,1.); qk::grid::rectilinear grid(mkrange({0},{2}),s.data(),w.data()); qk::variable::variable_manager mgr(grid); auto & v0=mgr.output_variable(a); auto & v1=mgr.output_variable(cl[0]); auto & v2=mgr.output_variable(cl[2]); if(&v0==&v1||&v1==&v2||&v0==&v2) fail("clones share storage"); chunk(v0).fill(1.); if(chunk(v1).data()[0]!=0.) fail("clones share storage");
}
static void fresh(){ // a new manager reports a definite time and time step
    dvec s(1,0.),w(1,1.); qk::grid::rectilinear grid(mkrange({0},{2}),s.data(),w.data());
    char * raw=(char*)malloc(sizeof(qk::variable::variable_manager)); memset(raw,choose(2,"memory")?0xff:0x3c,sizeof(qk::variable::variable_manager)); auto * m=new(raw) qk::variable::variable_manager(grid); op("fresh manager"); if(m->time()!=0.||m->dt()!=0.) fail("fresh manager reports time %g and dt %g",m->time(),m->dt()); m->~variable_manager(); free(raw); state(1);
}
static void clones(){ // however many clones: all distinct
    vid a("q",comps(2),qk::basis::volume_average()), b("r",comps(1),qk::basis::basis("other",1)); int n=thorough()?1200000:150000; std::set<std::string> seen; seen.insert(a.name()); seen.insert(b.name()); op("%d clones",n); vid last=a;
    for(int i=0;i<n;++i){ const vid & o= i%3==0?b: i%3==1?a:last; vid c=o.unique_clone(); if(!seen.insert(c.name()).second) fail("clone %d has the name '%s' of an earlier one",i,c.name().c_str()); if(c.component_names()!=o.component_names()||!(c.basis()==o.basis())) fail("clone has other components or basis"); if(i%3==2||c.name().size()<60) last=c; if(last.name().size()>60) last=a; if(i%1000==0) state(hasher().add(i).get()); trans(1); }
}
static void long_names(){ // names that differ in a single place, wherever it is
    int len=pick<int>("length",{1,2,7,8,9,15,16,17,24,31,32,33,40,64,70}), at=choose(len+1,"place"); int how=choose(3,"difference"); shard(); std::string n(len,'x'); for(int i=0;i<len;++i) n[i]="abcdefgh_k"[i%10]; std::string o=n;
    if(at==len) o+= how==0?"a": how==1?"_":" "; else if(how==0) o[at]='z'; else if(how==1) o[at]=toupper(o[at])==o[at]?'-':toupper(o[at]); else o.erase(at,1); if(o==n||o.empty()) return;
    vid a(n,comps(2),qk::basis::volume_average()), b(o,comps(2),qk::basis::volume_average()); op("%s and %s",n.c_str(),o.c_str()); if(a==b||b==a) fail("'%s' equals '%s'",n.c_str(),o.c_str()); if((a<b)==(b<a)) fail("'%s' and '%s' are not ordered",n.c_str(),o.c_str());
    dvec s(1,0.),w(1,1.); qk::grid::rectilinear grid(mkrange({0},{2}),s.data(),w.data()); qk::variable::variable_manager mgr(grid); auto & va=mgr.output_variable(a); chunk(va).fill(3.); if(!throws([&]{ mgr.input_variable(b); })) fail("'%s' answers to '%s'",n.c_str(),o.c_str()); auto & vb=mgr.output_variable(b); if(&va==&vb) fail("'%s' and '%s' share a variable",n.c_str(),o.c_str()); if(chunk(vb).data()[0]!=0.||chunk(va).data()[0]!=3.) fail("contents of '%s' and '%s' mixed",n.c_str(),o.c_str()); if(vb.name()!=o||va.name()!=n) fail("name"); vid c=a.unique_clone().unique_clone(), d=b.unique_clone(); if(c==d||c==a||d==b) fail("clones of long names are equal"); state(hasher().add(n).add(o).get()); }
static void clock_(){ // time and time step are kept exactly, whatever was set before
    static const double T[]={0.,-0.,1.,1.+2.3e-16,0.1,-0.1,1e-13,1e-300,5e-324,1e300,-1e300,INFINITY,-2.5,1e9,1e9+1e-6}; const int N=15;
    dvec s(1,0.),w(1,1.); qk::grid::rectilinear grid(mkrange({0},{2}),s.data(),w.data()); qk::variable::variable_manager mgr(grid); double dt=mgr.dt(), time=mgr.time(); if(dt!=0||time!=0) { dt=mgr.dt(); time=mgr.time(); }
    for(int k=0;k<(thorough()?4:3);++k){ int o=choose(2*N,"set"); if(k==0) shard(); if(o<N){ op("set_dt %g",T[o]); mgr.set_dt(T[o]); dt=T[o]; } else { op("set_time %g",T[o-N]); mgr.set_time(T[o-N]); time=T[o-N]; } if(mgr.dt()!=dt||mgr.time()!=time) fail("time %.17g and dt %.17g instead of %.17g and %.17g",mgr.time(),mgr.dt(),time,dt); state(hasher().add(dt).add(time).get()); } }
void body(){ switch(choose(7,"part")){ case 6: clock_(); break; case 5: long_names(); break; case 4: clones(); break; case 0: sequences(); break; case 1: many(); break; case 2: identifiers(); break; case 3: fresh(); break; } }
