// C16: advection.
#include "num.h"
#include "solver/ssprk2_advection.h"
using namespace mc; using namespace ref;
static qk::solver::ssprk2_advection reused;
static void run(world & w, const dvec & v, int tag, int how, int a=0, int b=1, int c=2){ qk::solver::ssprk2_advection fresh; auto & s=how&1?reused:fresh; s.setup(v); s.set_input_variables({w.ids[a]}); s.set_output_variables({w.ids[b],w.ids[c]}); if(how&2){ auto k(s); k.solve(*w.mgr,tag); } else s.solve(*w.mgr,tag); }
// one stage against its definition; ghost cells of the result are unspecified
static void stage(world & w, const dvec & v, int tag, int how, double tol=1e-10){
    double dt=w.mgr->dt(); op("advection stage %d v %s dt %g",tag,show(v).c_str(),dt); int target= tag==0?1: tag==1?2:-1;
    expected e(w.f[target<0?0:target]); if(tag==0){ for(size_t i=0;i<e.v.size();++i){ e.v[i]=w.f[0].v[i]; e.scale[i]=std::fabs(e.v[i]); } add_advection(e,w.f[0],dt,v,w.dx); }
    if(tag==1){ for(size_t i=0;i<e.v.size();++i){ e.v[i]=0.5L*((real)w.f[0].v[i]+w.f[1].v[i]); e.scale[i]=0.5L*(std::fabs(w.f[0].v[i])+std::fabs(w.f[1].v[i])); } add_advection(e,w.f[1],0.5L*dt,v,w.dx); }
    run(w,v,tag,how); for(int i=0;i<(int)w.f.size();++i) if(i!=target) w.unchanged(i,"after a stage that does not own it");
    if(target>=0){ compare(w.in(target),e,w.ids[target].name().c_str(),tol); w.pull(target); }
}
static void setup_fields(world & w, int nc){ w.add("n0",nc); w.add("n1",nc); w.add("n2",nc); w.add("other",nc); for(int i=0;i<4;++i) tag(w.f[i],i); }
static const double P[]={0,1,-2,0.5,3,1.25,-0.75};
static real total(const field & f, int c){ real s=0; for_box(f.lo,f.hi,[&](const ivec & x){ s+=f.at(x,0,c); }); return s; }
static real absmax(const field & f){ real s=0; for_box(f.lo,f.hi,[&](const ivec & x){ for(int c=0;c<f.nc;++c) s=std::max(s,(real)std::fabs(f.at(x,0,c))); }); return s; }
void body(){
    int part=choose(8,"part");
    if(part==6){ // large meshes
        ivec hi=pick<ivec>("mesh",{{30011},{150,141},{23,29,31}}); int sg=choose(1<<hi.size(),"direction"), nc=pick<int>("components",{1,3}); shard(); int n=(int)hi.size(); ivec lo(n,0); dvec v; for(int d=0;d<n;++d) v.push_back((sg>>d&1?-1:1)*(0.5+d)); world w(lo,hi,dvec(n,0.),dvec(n,10.)); setup_fields(w,nc); for(int k=0;k<2;++k){ size_t i=0; for(auto & x:w.f[k].v){ x=P[(i*(k+3)+(i/5)+(i>>9))%7]+0.01*(i%13); ++i; } make_periodic(w.f[k],poison()); } for(int i=0;i<4;++i) w.push(i); w.mgr->set_dt(0.01); stage(w,v,0,sg%4); make_periodic(w.f[1],poison()); w.push(1); stage(w,v,1,(sg+1)%4); track(w); return; }
    if(part==7){ // tiny and huge cells, velocities and time steps
        int n=upto("dims",1,3), d=upto("axis",0,n-1); double h=pick<double>("width",{1e-13,1e-6,1e6,1e15}), u=pick<double>("velocity",{1e-8,3e8,-1.,1e-15,-1e-30}), co=pick<double>("courant",{0.3,1e-6}); shard(); ivec lo(n,0),hi(n,4); dvec wd(n,h*4); wd[d]=h*2; dvec v(n,u*0.4); v[d]=u; world w(lo,hi,dvec(n,0.),wd); setup_fields(w,2); for(int k=0;k<2;++k){ size_t i=0; for(auto & x:w.f[k].v){ x=P[(i*(k+3)+(i/5))%7]; ++i; } make_periodic(w.f[k],poison()); } for(int i=0;i<4;++i) w.push(i); w.mgr->set_dt(co*h/2/std::fabs(u)); stage(w,v,0,0); make_periodic(w.f[1],poison()); w.push(1); stage(w,v,1,1); track(w); return; }
    if(part==5){ // magnitudes and steep tails
        static const double T[]={0,1,1e-160,-1e-200,1e-13,1e-320,1e150}; int n=upto("dims",1,2), d=upto("axis",0,n-1); double vd=pick<double>("velocity",{1,-0.4}); int tag=choose(2,"stage"); int s[5]; for(int i=0;i<5;++i){ s[i]=choose(n==1?7:4,"value"); if(i==1) shard(); } ivec lo(n,0),hi(n,1); dvec v(n,0.); v[d]=vd; world w(lo,hi); setup_fields(w,1); for(int k=0;k<2;++k){ field & q=w.f[k]; for_box(q.elo(),q.ehi(),[&](const ivec & x){ q.at(x)=T[s[x[d]+2]]; }); poison_corners(q,poison()); } for(int i=0;i<4;++i) w.push(i); w.mgr->set_dt(0.3); stage(w,v,tag,s[0]%4); track(w); return; }
    if(part==0){ // all value sequences along one axis
        int n=upto("dims",1,3); int d=upto("axis",0,n-1); double vd=pick<double>("velocity",{1,-0.4,0}); int tag=choose(2,"stage"); int K= thorough()?6:(n==1?5:4); int s[6]; int L=n==1?6:5; for(int i=0;i<L;++i){ s[i]=choose(K,"value"); if(i==1) shard(); }
        ivec lo(n,0),hi(n,1); lo[d]=-2; hi[d]=lo[d]+(L-4); dvec v(n,0.); v[d]=vd; if(n>1) v[(d+1)%n]=0.7; world w(lo,hi); setup_fields(w,1); field & q=w.f[tag==0?0:1]; field & q0=w.f[0];
        for_box(q.elo(),q.ehi(),[&](const ivec & x){ double t=0; for(int i=0;i<n;++i) if(i!=d) t+=0.3*(i+1)*(x[i]-lo[i]); q.at(x)=P[s[x[d]-lo[d]+2]]+t; }); poison_corners(q,poison()); if(tag==1) poison_corners(q0,poison()); for(int i=0;i<4;++i) w.push(i); w.mgr->set_dt(0.3); stage(w,v,tag,s[0]%4); track(w);
    } else if(part==1){ // shapes
        int n=upto("dims",1,3); ivec lo,hi; int low=choose(n==3?2:4,"lower"); for(int d=0;d<n;++d){ int l=low==2?-777-d:low==3?4001+d:low?-5+2*d:0; lo.push_back(l); hi.push_back(l+pick<int>("len",n==1?ivec{1,2,3,5,8,33,700}:n==2?ivec{1,2,5,20}:ivec{1,2,4})); } int nc=pick<int>("components",{1,3}); shard(); int sg=choose(1<<n,"direction"); double dt=pick<double>("dt",{0.2,0.01,0.}); int geo=choose(2,"geometry");
        dvec v,wd; for(int d=0;d<n;++d){ v.push_back((sg>>d&1?-1:1)*(0.5+d)); wd.push_back(geo?3.5/(d+1):1); } world w(lo,hi,dvec(n,geo?7.:-0.5),wd); setup_fields(w,nc); for(int k=0;k<2;++k){ size_t i=0; for(auto & x:w.f[k].v){ x=P[(i*(k+3)+(i/5))%7]+0.01*(i%13); ++i; } make_periodic(w.f[k],poison()); } for(int i=0;i<4;++i) w.push(i); w.mgr->set_dt(dt); stage(w,v,0,sg%4); make_periodic(w.f[1],poison()); w.push(1); stage(w,v,1,(sg+1)%4); track(w);
    } else if(part==2){ // conservation, uniform fields, zero velocity over several periodic steps
        std::vector<ivec> LL={{1},{2},{3},{7},{50},{2,2},{3,1},{6,5},{2,2,2},{3,2,4}}; ivec len=pick<ivec>("mesh",LL); int n=(int)len.size(); int pat=choose(thorough()?30:10,"pattern"); shard(); int sg=choose(n==1?3:n==2?9:27,"direction"); int nc=pick<int>("components",{1,2}); double dt=pick<double>("dt",{0.05,0.4});
        ivec lo(n,-1),hi(n); for(int i=0;i<n;++i) hi[i]=lo[i]+len[i]; dvec v; int q=sg; for(int d=0;d<n;++d){ v.push_back((q%3-1)*(0.3+0.2*d)); q/=3; } bool still=true; for(double x:v) if(x!=0) still=false; world w(lo,hi); setup_fields(w,nc); size_t i=0; for(auto & x:w.f[0].v){ x= pat<2? 2.5+pat : P[(i*pat+(i/3))%7]+0.1*pat; ++i; } w.mgr->set_dt(dt);
        for(int st=0;st<3;++st){ make_periodic(w.f[0],poison()); for(int k=0;k<4;++k) w.push(k); real m=absmax(w.f[0]); field n0=w.f[0]; rvec t0; for(int c=0;c<nc;++c) t0.push_back(total(w.f[0],c)); op("step"); run(w,v,0,st); w.pull(1); make_periodic(w.f[1],poison()); w.push(1); run(w,v,1,st+1); w.unchanged(0,"after the step"); w.unchanged(1,"after the step"); w.unchanged(3,"after the step"); w.pull(2);
            real growth=1; for(int d=0;d<n;++d) growth+=4*std::fabs(v[d]*dt/w.dx[d]); m=std::max(m*growth,absmax(w.f[2]));
            for(int c=0;c<nc;++c) for(int k=1;k<3;++k){ real t=total(w.f[k],c); if(!(std::fabs(t-t0[c])<=1e-12L*m*growth*w.f[0].cells())) fail("total of component %d after stage %d is %.17Lg instead of %.17Lg",c,k-1,t,t0[c]); }
            if(pat<2||still) for_box(lo,hi,[&](const ivec & x){ for(int c=0;c<nc;++c) for(int k=1;k<3;++k) if(!(std::fabs(w.f[k].at(x,0,c)-n0.at(x,0,c))<=1e-13L*m)) fail("%s: cell %s changed from %.17g to %.17g",still?"zero velocity":"uniform field",show(x).c_str(),n0.at(x,0,c),w.f[k].at(x,0,c)); });
            w.f[0]=w.f[2]; track(w); if(m>1e6L) break; }
    } else if(part==3){ // linear profiles are advanced exactly
        int n=upto("dims",1,3); int sg=choose(1<<n,"direction"); shard(); dvec sl; for(int d=0;d<n;++d) sl.push_back(pick<double>("slope",{0,1.5,-0.25})); double dt=pick<double>("dt",{0.1,0.7}); int len=pick<int>("len",{1,4}); ivec lo(n,-2),hi(n,-2+len); if(n>1) hi[1]+=2; dvec v,wd; for(int d=0;d<n;++d){ v.push_back((sg>>d&1?-1:1)*(0.6+d)); wd.push_back(1.+d); } world w(lo,hi,dvec(n,0.25),wd); setup_fields(w,2); field & q=w.f[0]; real shift=0; for(int d=0;d<n;++d) shift+=-(real)v[d]*sl[d]*dt;
        auto lin=[&](field & f, real add){ for_box(f.elo(),f.ehi(),[&](const ivec & x){ real s=add; for(int d=0;d<n;++d) s+=(real)sl[d]*((real)0.25+((real)(x[d]-lo[d])+0.5L)*w.dx[d]); for(int c=0;c<2;++c) f.at(x,0,c)=(double)(s*(c+1)); }); }; lin(q,3); for(int i=0;i<4;++i) w.push(i); w.mgr->set_dt(dt); op("linear profile"); run(w,v,0,0); auto chk=[&](int k, const char * what){ w.pull(k); for_box(lo,hi,[&](const ivec & x){ for(int c=0;c<2;++c){ real want=q.at(x,0,c)+shift*(c+1); if(!(std::fabs(w.f[k].at(x,0,c)-want)<=1e-11L*(1+std::fabs(want)))) fail("%s: cell %s is %.17g instead of %.17Lg",what,show(x).c_str(),w.f[k].at(x,0,c),want); } }); }; chk(1,"first stage"); field n1=w.f[1]; lin(w.f[1],3+shift); w.push(1); run(w,v,1,1); chk(2,"second stage"); track(w);
    } else { // any sequence of stages and tags, one object reconfigured
        ivec lo={0,-1},hi={3,2}; world w(lo,hi); setup_fields(w,1); for(int k=0;k<2;++k){ size_t i=0; for(auto & x:w.f[k].v){ x=P[(i*(k+2)+i/3)%7]; ++i; } make_periodic(w.f[k],poison()); } for(int i=0;i<4;++i) w.push(i); int depth=thorough()?5:4;
        for(int s=0;s<depth;++s){ w.mgr->set_dt(0.1+0.1*s); int t=pick<int>("tag",{0,1,2,-1}); dvec v=pick<dvec>("velocity",{{1,0.5},{-1,0.5},{0,-2}}); if(s==0) shard(); stage(w,v,t,1); if(t==0){ make_periodic(w.f[1],poison()); w.push(1); } track(w); }
    }
}
