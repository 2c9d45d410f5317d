// C22: every solver under every team size and thread order.  A run without conflicting accesses stands for
// all its interleavings (they are equivalent); conflicting accesses are explored with forced preemptions.
#include "sim.h"
#include "solver/gaussian.h"
#include "solver/magnetic_pulse.h"
#include "solver/shock_tube.h"
#include "solver/radial_shock_tube.h"
#include "solver/electromagnetic_wave_1D.h"
#include "solver/brio_wu_shock_tube.h"
#include "solver/gem_challenge.h"
#ifdef QK_SHIM
#include "omp_shim.h"
#else
#include <omp.h>
#endif
static void meshof(int k, ivec & lo, ivec & hi){ switch(k){ case 0: lo={0}; hi={1}; break; case 1: lo={-3}; hi={6}; break; case 2: lo={1,-2}; hi={4,1}; break; case 3: lo={0,0}; hi={2,5}; break; case 4: lo={-1,0,2}; hi={2,2,5}; break; case 5: lo={0,0,0}; hi={1,1,2}; break; case 6: lo={0}; hi={40}; break; case 8: lo={-2}; hi={2999}; break; case 9: lo={0,3}; hi={61,73}; break; case 10: lo={0,0,0}; hi={13,15,17}; break; default: lo={0,0}; hi={9,11}; } }
static const int NCALL=25;
static bool call(sim & s, int c){ int n=s.w.nd(); dvec v(n,-0.8); v[0]=1.2; dvec z(n,0.6); if(n>1) z[1]=-1.1; ivec one={0};
    switch(c){
    case 0: s.euler(s.F(0,0),s.R(0)); break; case 1: s.maxwell(s.E(0),s.ER()); break; case 2: s.lorentz(0,s.F(0,0),s.E(0),s.R(0)); break; case 3: s.current({s.F(0,0),s.F(1,0)},s.ER()); break;
    case 4: case 5: case 6: s.stage(s.F(0,0),s.R(0),s.F(0,1),s.F(0,2),s.F(0,3),c-4); break; case 7: s.single(s.E(0),s.ER(),s.E(1)); break;
    case 8: s.advect(s.F(0,0),s.F(0,1),s.F(0,2),0,v); break; case 9: s.advect(s.F(0,0),s.F(0,1),s.F(0,2),1,v); break; case 10: s.advect(s.E(0),s.E(1),s.E(2),0,z); break;
    case 11: s.bc(PERIODIC,s.F(0,0),s.dims); break; case 12: s.bc(NO_SLIP,s.F(0,0),s.dims); break; case 13: s.bc(FREE_SLIP,s.F(0,0),s.dims); break; case 14: s.bc(COPY_OUT,s.F(0,0),s.dims); break; case 15: s.bc(WALL,s.E(0),s.dims); break;
    case 16: s.fill(s.R(0),1.5); break; case 17: s.swap({s.F(0,0),s.F(0,1),s.E(0),s.E(1)}); break;
    case 18: { qk::solver::gaussian g; g.setup(1.5,dvec(3,0.1),0.4); g.set_output_variables({s.id(s.F(0,0))}); g.solve(*s.w.mgr); s.w.pull(s.F(0,0)); break; }
    case 19: { qk::solver::magnetic_pulse g; g.setup(1.5,0.4); g.set_output_variables({s.id(s.E(0))}); g.solve(*s.w.mgr); s.w.pull(s.E(0)); break; }
    case 20: { qk::solver::shock_tube g; g.set_output_variables({s.id(s.F(0,0))}); g.solve(*s.w.mgr); s.w.pull(s.F(0,0)); break; }
    case 21: { qk::solver::radial_shock_tube g; g.set_output_variables({s.id(s.F(0,0))}); g.solve(*s.w.mgr); s.w.pull(s.F(0,0)); break; }
    case 22: { qk::solver::electromagnetic_wave_1D g; g.setup(0,1.5,3.,1.,2.,3.); g.set_output_variables({s.id(s.E(0))}); g.solve(*s.w.mgr); s.w.pull(s.E(0)); break; }
    case 23: { qk::solver::brio_wu_shock_tube g; g.setup(2.,0.1,1.,1.,.125,1.,.1,.75,1.); g.set_output_variables({s.id(s.F(0,0)),s.id(s.F(1,0)),s.id(s.E(0))}); g.solve(*s.w.mgr); for(int i:{s.F(0,0),s.F(1,0),s.E(0)}) s.w.pull(i); break; }
    default: { qk::solver::gem_challenge g; g.setup(0.5,3.2,1.,0.2,5./3,-1.,0.04,0.,0.05,1.,1.,0.,0.2,0.7); g.set_output_variables({s.id(s.F(0,0)),s.id(s.F(1,0)),s.id(s.E(0))}); g.solve(*s.w.mgr); for(int i:{s.F(0,0),s.F(1,0),s.E(0)}) s.w.pull(i); break; }
    } return true; }
static void same(sim & a, sim & b, const char * what){ for(size_t i=0;i<a.w.f.size();++i){ const field & x=a.w.f[i]; const field & y=b.w.f[i]; double sc=0; for(double v:x.v) if(std::isfinite(v)) sc=std::max(sc,std::fabs(v)); for_box(x.lo,x.hi,[&](const ivec & c){ for(int k=0;k<x.nc;++k){ double p=x.at(c,0,k),q=y.at(c,0,k); if(same_bits(p,q)||(p!=p&&q!=q)||std::fabs(p-q)<=1e-12*sc) continue; fail("%s: %s cell %s component %d is %.17g instead of %.17g with one thread",what,a.w.ids[i].name().c_str(),show(c).c_str(),k,q,p); } }); } }
struct setting { int team, order; };
template<class F> static void under(int team, int order, F f){
#ifdef QK_SHIM
    shim::schedule(team,order,0,0,true); uint64_t a=shim::accesses(); f(); trans(shim::accesses()-a); shim::schedule(1,0,0,0,false);
#else
    omp_set_num_threads(team); f();
#endif
}
void body(){
    int part=choose(3,"part"); bool large=part==2; int c=-1; int m= large? 8+choose(thorough()?3:2,"large mesh"): choose(thorough()?8:7,"mesh"); int pat= large?0:choose(thorough()?4:2,"state"); ivec seq; // large meshes: loops may be parallel only from some length on
    if(part!=1){ c=choose(NCALL,"solver"); seq.push_back(c); } else { static const ivec S[]={{11,16,0,2,4},{15,16,1,3,7},{8,9,17,8},{0,0,1},{2,3,4,5,6}}; seq=S[choose(5,"sequence")]; }
    shard(); int team=pick<int>("team size",large?(thorough()?ivec{2,3,8,16}:ivec{2,8}):thorough()?ivec{2,3,4,5,6,7,8,9,12,16,24}:ivec{2,3,4,5,6,7,8,12,16});
    ivec lo,hi; meshof(m,lo,hi); if(m==0||m==5) for(int k:seq) if(k>=11&&k<=15){ trans(1); return; } // fewer cells than ghost layers: not specified
    sim ref(lo,hi,false,0,2); ref.init(pat); under(1,0,[&]{ for(int k:seq) call(ref,k); });
    hasher h; 
    for(int order=large&&!thorough()?1:0;order<2;++order){ sim s(lo,hi,false,0,2); s.init(pat); op("team of %d, threads in %s order",team,order?"descending":"ascending"); under(team,order,[&]{ for(int k:seq) call(s,k); }); same(ref,s,order?"descending order":"ascending order"); track(s.w); }
#ifdef QK_SHIM
    // conflicting accesses: every single preemption in front of one, to every other thread (and, in depth, a second one)
    sim s(lo,hi,false,0,2); s.init(pat); shim::schedule(team,0,0,0,true); std::vector<shim::point> P; for(int k:seq) call(s,k); for(size_t i=0;i<shim::points();++i) P.push_back(shim::get(i)); shim::schedule(1,0,0,0,false);
    h.add(part).add(c).add(m).add(team).add((uint64_t)P.size()); state(h.get());
    if(!P.empty()&&team<=(thorough()?4:3)&&(thorough()||m<6||large)){ size_t cap=large?24:thorough()?1000:100; size_t stride=1; while(P.size()/stride*(team-1)>cap) ++stride; int k=choose((int)((P.size()-1)/stride+1),"preempt before conflicting access"); shim::point p=P[k*stride]; int to=choose(team-1,"hand over to"); if(to>=p.tid) ++to; shim::preemption pr[2]; pr[0].region=p.region; pr[0].tid=p.tid; pr[0].ord=p.ord; pr[0].to=to; int np=1;
        if(thorough()){ std::vector<shim::point> Q; for(auto & q:P) if(q.region==p.region&&q.tid==to) Q.push_back(q); size_t st=Q.size()/12+1; int z=choose((int)(Q.size()/st)+1,"hand back before"); if(z>0){ shim::point q=Q[std::min(Q.size()-1,(size_t)(z-1)*st)]; pr[1].region=q.region; pr[1].tid=q.tid; pr[1].ord=q.ord; pr[1].to=p.tid; np=2; } }
        sim x(lo,hi,false,0,2); x.init(pat); op("region %u: thread %d stops before its access %u and thread %d runs",p.region,p.tid,p.ord,to); shim::schedule(team,0,pr,np,false); for(int k:seq) call(x,k); shim::schedule(1,0,0,0,false); same(ref,x,"with a preemption"); }
#else
    h.add(part).add(c).add(m).add(team); state(h.get());
#endif
}
