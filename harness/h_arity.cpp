// C24: malformed solver requests and exception texts.
#include "num.h"
#include <iostream>
#include <stdexcept>
#include "solver/rk1.h"
#include "solver/ssprk3.h"
#include "solver/ssprk2_advection.h"
#include "solver/euler.h"
#include "solver/maxwell.h"
#include "solver/lorentz_force.h"
#include "solver/current_source.h"
#include "solver/swap.h"
#include "solver/brio_wu_shock_tube.h"
#include "solver/gem_challenge.h"
#include "solver/print.h"
using namespace mc; using namespace ref;
typedef std::shared_ptr<qk::solver::solver> sp;
struct spec { const char * name; ivec in, out; int maxout; std::function<sp()> make; ivec tags; }; // in/out: components of each slot
static std::vector<spec> specs(){
    return {
    {"rk1",{5,5},{5},-1,[]{ return sp(new qk::solver::rk1); },{0}},
    {"ssprk3",{5,5},{5,5,5},-1,[]{ return sp(new qk::solver::ssprk3); },{0,1,2}},
    {"advection",{5},{5,5},0,[]{ auto s=new qk::solver::ssprk2_advection; s->setup({0.5,-1.,0.25}); return sp(s); },{0,1}},
    {"euler",{5},{5},0,[]{ auto s=new qk::solver::euler; s->setup(1.4); return sp(s); },{0}},
    {"maxwell",{6},{6},0,[]{ auto s=new qk::solver::maxwell; s->setup(1.5); return sp(s); },{0}},
    {"lorentz",{5,6},{5},0,[]{ auto s=new qk::solver::lorentz_force; s->setup(-1,0.1); return sp(s); },{0}},
    {"current 0",{},{6},0,[]{ auto s=new qk::solver::current_source; s->setup(1,{},{}); return sp(s); },{0}},
    {"current 1",{5},{6},0,[]{ auto s=new qk::solver::current_source; s->setup(1,{1},{2}); return sp(s); },{0}},
    {"current 2",{5,5},{6},0,[]{ auto s=new qk::solver::current_source; s->setup(1,{1,-1},{2,0.1}); return sp(s); },{0}},
    {"current 3",{5,5,5},{6},0,[]{ auto s=new qk::solver::current_source; s->setup(1,{1,-1,2},{2,0.1,3}); return sp(s); },{0}},
    {"current 4",{5,5,5,5},{6},0,[]{ auto s=new qk::solver::current_source; s->setup(1,{1,-1,2,3},{2,0.1,3,1}); return sp(s); },{0}},
    {"current 6",{5,5,5,5,5,5},{6},0,[]{ auto s=new qk::solver::current_source; s->setup(1,{1,-1,2,3,-4,5},{2,0.1,3,1,1,4}); return sp(s); },{0}},
    {"swap",{},{5,5},1,[]{ return sp(new qk::solver::swap); },{0}},
    {"two-fluid shock tube",{},{5,5,6},2,[]{ auto s=new qk::solver::brio_wu_shock_tube; return sp(s); },{0}},
    {"current sheet",{},{5,5,6},2,[]{ auto s=new qk::solver::gem_challenge; s->setup(0.5,3.2,1,0.2,5./3,-1,0.04,0,0.1,1,1,0,0.2,0.7); return sp(s); },{0}},
    {"print",{5},{},3,[]{ return sp(new qk::solver::print); },{0}},
    };
}
// maxout: -1 more outputs than needed are allowed, 0 exact counts, 1 swap (even), 2 only outputs matter, 3 print (only existence matters)
static std::unique_ptr<world> mk(int n, const ivec & in, const ivec & out, int missing, int oldout){
    ivec lo(n,-1),hi(n,2); std::unique_ptr<world> w(new world(lo,hi)); w->mgr->set_dt(0.1); w->mgr->set_time(1.);
    for(size_t i=0;i<in.size();++i){ if(missing>>i&1) continue; int k=w->add("in"+std::to_string(i),in[i]); field & f=w->f[k]; auto P= in[i]==5?gas(1.4):ems(); size_t c=0; for_box(f.elo(),f.ehi(),[&](const ivec & x){ put(f,x,P[(c*(i+2)+c/3)%P.size()]); ++c; }); w->push(k); }
    for(size_t i=0;i<out.size();++i){ if(!oldout&&i%2==0) continue; int k=w->add("out"+std::to_string(i),out[i]); tag(w->f[k],20+(int)i); w->push(k); }
    int k=w->add("other",5); tag(w->f[k],50); w->push(k); return w;
}
struct quiet { std::streambuf * b; std::ostringstream s; quiet(){ b=std::cout.rdbuf(s.rdbuf()); } ~quiet(){ std::cout.rdbuf(b); } };
static void solve(qk::solver::solver & s, world & w, const std::vector<vid> & in, const std::vector<vid> & out, int tag){ quiet q; s.set_input_variables(in); s.set_output_variables(out); s.solve(*w.mgr,tag); }
static void arity(){
    auto S=specs(); int k=choose((int)S.size(),"solver"); spec & s=S[k]; int n=upto("dims",1,3); int tag=pick<int>("tag",s.tags); shard();
    int nin=upto("inputs",0,std::max(4,(int)s.in.size()+1)), nout=upto("outputs",0,s.maxout==1?9:5); int missing=0; if(nin&&nin<=4) missing=choose(1<<std::min(nin,thorough()?4:3),"missing inputs"); if(nin>=4&&!missing){ int m=choose(nin+1,"missing input"); if(m) missing=1<<(m-1); } int oldout=choose(2,"outputs exist");
    ivec in,out; for(int i=0;i<nin;++i) in.push_back(i<(int)s.in.size()?s.in[i]:5); for(int i=0;i<nout;++i) out.push_back(i<(int)s.out.size()?s.out[i]:(s.name==std::string("maxwell")||!strncmp(s.name,"current",7)?6:5));
    bool wrong=false, judged=true;
    if(s.maxout==3){ wrong=missing!=0; } else if(s.maxout==2){ wrong=nout!=(int)s.out.size(); } else if(s.maxout==1){ wrong=nout%2; }
    else { wrong=nin!=(int)s.in.size()||(s.maxout<0? nout<(int)s.out.size(): nout!=(int)s.out.size())||missing; if(s.maxout<0&&nout>(int)s.out.size()&&!wrong) judged=false; }
    if((s.maxout==1||s.maxout==2)&&missing) judged=false; // inputs play no role
    auto w=mk(n,in,out,missing,oldout); std::vector<vid> I,O; auto b=qk::basis::volume_average(); for(int i=0;i<nin;++i) I.push_back(vid("in"+std::to_string(i),comps(in[i]),b)); for(int i=0;i<nout;++i) O.push_back(vid("out"+std::to_string(i),comps(out[i]),b));
    if(!judged){ trans(1); return; }
    sp so=s.make(); std::string text; op("%s with %d inputs (missing %d) and %d outputs",s.name,nin,missing,nout); bool t=throws([&]{ solve(*so,*w,I,O,tag); },&text);
    if(wrong&&!t) fail("%s accepted %d inputs (missing mask %d) and %d outputs",s.name,nin,missing,nout); if(!wrong&&t) fail("%s refused a correct request: %s",s.name,text.c_str());
    if(wrong){ if(text.empty()) fail("%s raised an exception without text",s.name); for(size_t i=0;i<w->f.size();++i) w->unchanged((int)i,"after the refused request");
        // the same object works afterwards, exactly as a fresh one on a fresh manager
        auto a=mk(n,s.in,s.out,0,1), c=mk(n,s.in,s.out,0,1); I.clear(); O.clear(); for(size_t i=0;i<s.in.size();++i) I.push_back(vid("in"+std::to_string(i),comps(s.in[i]),b)); for(size_t i=0;i<s.out.size();++i) O.push_back(vid("out"+std::to_string(i),comps(s.out[i]),b));
        op("correct request"); solve(*so,*a,I,O,tag); sp fr=s.make(); solve(*fr,*c,I,O,tag); for(size_t i=0;i<c->f.size();++i){ c->pull((int)i); field g=c->f[i]; a->pull((int)i); if(memcmp(g.v.data(),a->f[i].v.data(),g.v.size()*8)) for_box(g.lo,g.hi,[&](const ivec & x){ for(int q=0;q<g.nc;++q) if(!same_bits(g.at(x,0,q),a->f[i].at(x,0,q))) fail("%s gives another result after a refused request",s.name); }); } track(*a);
        // and in the manager that saw the refused request, once what was missing exists
        op("correct request in the same manager"); std::vector<vid> I2,O2; for(size_t i=0;i<s.in.size();++i){ vid id("later_in"+std::to_string(i),comps(s.in[i]),b); I2.push_back(id); load(w->mgr->output_variable(id),c->f[i].nc==s.in[i]&&c->ids[i].name()=="in"+std::to_string(i)?c->f[i]:field(w->lo,w->hi,2,1,s.in[i])); } for(size_t i=0;i<s.out.size();++i) O2.push_back(vid("later_out"+std::to_string(i),comps(s.out[i]),b)); solve(*so,*w,I2,O2,tag); for(size_t i=0;i<w->f.size();++i) w->unchanged((int)i,"after an unrelated request"); }
    hasher h; h.add(k).add(n).add(nin).add(nout).add(missing).add(oldout).add(tag); state(h.get());
}
static void texts(){
    struct obj { qk::exception e; std::string m; }; obj o[2]; const std::string T[]={"first","a longer text that does not fit in a short string buffer at all","x",std::string(700,'t')}; int depth=thorough()?6:5;
    for(int s=0;s<depth;++s){ int a=choose(9,"operation"); if(s==1) shard(); int t=s%2; obj & x=o[t]; obj & y=o[1-t];
        switch(a){ case 0: op("construct from text"); x.e=qk::exception(T[(s*3)%4]); x.m=T[(s*3)%4]; break; case 1: op("copy"); { qk::exception c(y.e); x.e=c; x.m=y.m; } break; case 2: op("assign"); x.e=y.e; x.m=y.m; break; case 3: op("assign to itself"); { auto & r=x.e; x.e=r; } break; case 4: op("append"); { const std::string more= s%2? std::string(" more"): std::string(300,'m'); x.e<<more; x.m+=more; } break; case 5: op("append twice"); x.e<<T[1]<<"!"; x.m+=T[1]+"!"; break; case 6: op("from another exception"); { std::runtime_error r("runtime"); const std::exception & q=r; x.e=qk::exception(q); x.m="runtime"; } break; case 7: op("throw and catch"); try { throw qk::exception(y.e); } catch(const std::exception & c){ if(c.what()!=y.m) fail("caught text '%s' instead of '%s'",c.what(),y.m.c_str()); } break; case 8: op("throw appended"); try { throw qk::exception("a")<<"b"<<"c"; } catch(qk::exception & c){ if(std::string(c.what())!="abc") fail("caught '%s'",c.what()); x.e=c; x.m="abc"; } break; }
        for(auto & z:o){ const char * p=z.e.what(); std::string first=p; { volatile char junk[256]; for(int i=0;i<256;++i) junk[i]='#'; std::string filler(64,'#'); (void)filler; } const char * q=z.e.what(); if(first!=z.m||std::string(q)!=z.m||std::string(p)!=z.m) fail("text is '%s' then '%s' instead of '%s'",first.c_str(),q,z.m.c_str()); std::ostringstream os; os<<z.e; if(os.str()!=z.m) fail("printed as '%s' instead of '%s'",os.str().c_str(),z.m.c_str()); const std::exception & b=z.e; if(b.what()!=z.m) fail("text through the base class"); }
        hasher h; h.add(o[0].m).add(std::string("|")).add(o[1].m); state(h.get()); }
}
void body(){ if(flag("texts")) texts(); else arity(); }
