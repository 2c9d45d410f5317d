// C10: time integrators.
#include "num.h"
#include "solver/rk1.h"
#include "solver/ssprk3.h"
using namespace mc; using namespace ref;

static const double VAL[]={0.,1.,-2.5,1e-7,3e8,-0.125,7.75};
static void fillv(field & f, int salt, int mode){
    if(mode==3){ static const double BAD[]={1.5,NAN,-2,INFINITY,1e250,-INFINITY,-1e250}; for(size_t i=0;i<f.v.size();++i) f.v[i]=BAD[(i*(salt+2)+i/7+salt)%7]; return; }
    if(mode==0) tag(f,salt); else for(size_t i=0;i<f.v.size();++i) f.v[i]=VAL[(i*(salt+1)+salt)%7];
    if(mode==2) for_box(f.elo(),f.ehi(),[&](const ivec & x){ if(f.outside(x)) for(int p=0;p<f.np;++p) for(int c=0;c<f.nc;++c) f.at(x,p,c)=poison(); });
}
static void formula(expected & e, const world & w, int kind, int stage, double dt, int q0, int r, const ivec & q){
    for(size_t i=0;i<e.v.size();++i){ real a=w.f[q0].v[i], R=w.f[r].v[i], t[3]; int n=0;
        if(kind==0||stage==0){ t[0]=a; t[1]=(real)dt*R; n=2; }
        else if(stage==1){ t[0]=0.75L*a; t[1]=0.25L*w.f[q[0]].v[i]; t[2]=0.25L*dt*R; n=3; }
        else { t[0]=a/3; t[1]=2*(real)w.f[q[1]].v[i]/3; t[2]=2*(real)dt*R/3; n=3; }
        e.v[i]=0; e.scale[i]=0; for(int k=0;k<n;++k){ e.v[i]+=t[k]; e.scale[i]+=std::fabs(t[k]); } }
}
static qk::solver::rk1 R1; static qk::solver::ssprk3 R3;
static void run(world & w, int kind, int tag, bool reuse, int q0, int r, const ivec & q){
    std::vector<vid> in={w.ids[q0],w.ids[r]},out; for(int i:q) out.push_back(w.ids[i]);
    if(kind==0){ qk::solver::rk1 fresh; qk::solver::rk1 & s=reuse?R1:fresh; if(reuse){ s.set_input_variables(in); s.set_output_variables(out);} else { for(auto & i:in) s.add_input_variable(i); for(auto & o:out) s.add_output_variable(o); } s.solve(*w.mgr,tag); }
    else { qk::solver::ssprk3 fresh; qk::solver::ssprk3 & s=reuse?R3:fresh; if(reuse){ s.set_input_variables(in); s.set_output_variables(out);} else { for(auto & i:in) s.add_input_variable(i); for(auto & o:out) s.add_output_variable(o); } s.solve(*w.mgr,tag); }
}
static void step(world & w, int kind, int tag, bool reuse, int q0, int r, const ivec & q){
    double dt=w.mgr->dt(); op("%s stage %d dt %g",kind?"ssprk3":"rk1",tag,dt);
    int target=-1; if(kind==0&&tag==0) target=q[0]; if(kind==1&&tag>=0&&tag<3) target=q[tag];
    expected e(target>=0?w.f[target]:w.f[q0]); if(target>=0) formula(e,w,kind,tag,dt,q0,r,q);
    run(w,kind,tag,reuse,q0,r,q);
    for(size_t i=0;i<w.f.size();++i) if((int)i!=target) w.unchanged((int)i,"after a stage that does not own it");
    if(target>=0){ compare(w.in(target),e,w.ids[target].name().c_str(),1e-13); w.pull(target); }
    if(w.mgr->dt()!=dt) fail("the integrator changed the time step");
}
void body(){
    int part=choose(4,"part");
    if(part==0){ // every shape: one call of every stage
        int n=upto("dims",1,3); ivec lo,hi; int low=choose(n==3?2:4,"lower");
        for(int d=0;d<n;++d){ int l= low==2?-777-d: low==3?4001+d: low?-3+2*d:0; lo.push_back(l); hi.push_back(l+pick<int>("len",n==1?ivec{1,2,3,4,5,6,7,8,9,13,40,257,1100}: n==2? ivec{1,2,3,5,16}: ivec{1,2,4})); }
        int nc=pick<int>("components",n==1?ivec{1,2,3,5,6,12}:n==2?ivec{1,2,3,5,6}:ivec{1,5,6}); int g=pick<int>("ghost layers",{1,2,3}); shard();
        int np=pick<int>("points",n==1?ivec{1,2}:ivec{1}); int kind=choose(2,"integrator"); int mode=choose(3,"values")+1;
        world w(lo,hi); for(int i=0;i<6;++i){ w.add("v"+std::to_string(i),nc,g,np); fillv(w.f[i],i,mode); w.push(i); }
        w.mgr->set_dt(pick<double>("dt",{0.1,-0.75}));
        for(int t=0;t<(kind?3:1);++t) step(w,kind,t,t%2,0,1,kind?ivec{2,3,4}:ivec{2});
        track(w);
    } else if(part==1){ // any sequence of stages and tags
        int kind=choose(2,"integrator"); ivec lo={-1},hi={2}; if(flag("two dims")){ lo={0,1}; hi={2,3}; }
        double dt=pick<double>("dt",{0.,0.5,-0.3,1e-9,1e6,1e-18}); int extra=choose(2,"extra output"); shard();
        world w(lo,hi); for(int i=0;i<7;++i){ w.add("q"+std::to_string(i),2); fillv(w.f[i],i,2); w.push(i); }
        ivec q= kind? ivec{2,3,4}: ivec{2}; if(extra) q.push_back(5);
        int depth=thorough()?5:4;
        for(int s=0;s<depth;++s){ if(s) w.mgr->set_dt(dt*(1+s)); else w.mgr->set_dt(dt); w.mgr->set_time(s*3.); int tag=pick<int>("tag",{0,1,2,3,-1,1000000}); step(w,kind,tag,s%2,0,1,q); track(w); }
    } else if(part==2){ // the stability polynomial, several steps with role exchange
        int kind=choose(2,"integrator"); double a=pick<double>("a",{0.,1.,-1.,-2.5,0.125,3.}); double dt=pick<double>("dt",{0.,0.1,-0.4,1.}); int nsteps=upto("steps",1,4); shard();
        ivec lo={0,-2},hi={pick<int>("len",{1,3,8}),1}; world w(lo,hi); for(int i=0;i<6;++i){ w.add("q"+std::to_string(i),5); fillv(w.f[i],i,0); w.push(i); }
        w.mgr->set_dt(dt); int q0=0; ivec q={2,3,4}; real z=(real)a*dt; rvec first(w.f[0].v.begin(),w.f[0].v.end()); real poly=1;
        for(int s=0;s<nsteps;++s){
            for(int t=0;t<(kind?3:1);++t){ int src= t==0?q0:q[t-1]; for(size_t i=0;i<w.f[1].v.size();++i) w.f[1].v[i]=a*w.f[src].v[i]; w.push(1); step(w,kind,t,(s+t)%2,q0,1,kind?q:ivec{q[2]}); }
            poly*= kind? 1+z+z*z/2+z*z*z/6 : 1+z; expected e(w.f[q[2]]); for(size_t i=0;i<e.v.size();++i){ e.v[i]=first[i]*poly; e.scale[i]=std::fabs(first[i])*powl(1+std::fabs(z)+z*z+std::fabs(z*z*z),s+1); }
            compare(w.in(q[2]),e,"full step of q'=aq",1e-12); std::swap(q0,q[2]); track(w);
        }
    } else { // outputs that do not exist yet, any creation order
        int kind=choose(2,"integrator"); int n=upto("dims",1,3); int order=choose(4,"created before"); double dt=pick<double>("dt",{0.25,-2.}); shard();
        ivec lo(n,-1),hi(n,2); hi[n-1]=4; world w(lo,hi); w.add("q",3); w.add("r",3); for(int i=0;i<2;++i){ fillv(w.f[i],i,0); w.push(i); } w.mgr->set_dt(dt);
        std::vector<vid> o; for(int i=0;i<3;++i) o.push_back(vid("s"+std::to_string(i),comps(3),qk::basis::volume_average()));
        if(order&1) w.mgr->output_variable(o[2]); if(order&2) w.mgr->output_variable(o[0]);
        for(int i=0;i<3;++i){ w.ids.push_back(o[i]); w.f.push_back(field(lo,hi,2,1,3)); }
        if(kind){ for(int t=0;t<3;++t) step(w,1,t,false,0,1,{2,3,4}); } else { run(w,0,0,false,0,1,{2}); expected e(w.f[2]); formula(e,w,0,0,dt,0,1,{2}); compare(w.in(2),e,"new result",1e-13); w.unchanged(0,"after the stage"); w.unchanged(1,"after the stage"); }
        track(w);
    }
}
