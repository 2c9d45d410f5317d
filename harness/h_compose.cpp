// C23: sequences of solver calls in lockstep with the composition of their definitions.
#include "sim.h"
static void meshof(int k, ivec & lo, ivec & hi){ switch(k){ case 0: lo={0}; hi={4}; break; case 1: lo={-3}; hi={6}; break; case 2: lo={1,-2}; hi={4,1}; break; case 3: lo={0,0}; hi={2,5}; break; default: lo={-1,0,2}; hi={2,2,5}; } }

void body(){
    int part=choose(4,"part");
    if(part==0){ // any sequence of calls
        int m=choose(thorough()?4:2,"mesh"); if(m==1&&!thorough()) m=2; ivec lo,hi; meshof(m,lo,hi); bool reuse=flag("shared objects"); sim s(lo,hi,reuse,m,1,reuse?1.25:2.); s.init(1); int depth=thorough()?(sanitized?4:5):(sanitized?3:4); ivec one={0}; dvec v(lo.size(),-0.8); v[0]=1.2;
        for(int t=0;t<depth;++t){ int o=choose(15,"call"); if(t==0) shard(); switch(o){
            case 0: s.bc(PERIODIC,s.F(0,0),s.dims); break; case 1: s.bc(NO_SLIP,s.F(0,0),one); break; case 2: s.bc(WALL,s.E(0),one); break; case 3: s.bc(t%2?COPY_OUT:FREE_SLIP,s.F(0,1),s.dims); break;
            case 4: s.fill(s.R(0),0.); break; case 5: s.euler(s.F(0,0),s.R(0)); break; case 6: s.maxwell(s.E(0),s.ER()); break; case 7: s.lorentz(0,s.F(0,0),s.E(0),s.R(0)); break; case 8: s.current({s.F(0,0)},s.ER()); break;
            case 9: s.stage(s.F(0,0),s.R(0),s.F(0,1),s.F(0,2),s.F(0,3),0); break; case 10: s.stage(s.F(0,0),s.R(0),s.F(0,1),s.F(0,2),s.F(0,3),1+t%2); break; case 11: s.single(s.E(0),s.ER(),s.E(1)); break; case 12: s.swap({s.F(0,0),s.F(0,1),s.E(0),s.E(1)}); break; case 13: s.advect(s.F(0,0),s.F(0,1),s.F(0,2),t%2,v); break; case 14: s.w.mgr->set_dt(0.02*(t+1)); op("dt"); break; }
            track(s.w); }
    } else if(part==1){ // complete periodic runs: mass constant; creation order, object reuse and call order do not matter
        int m=choose(5,"mesh"); int species=upto("species",1,2); int sources=choose(2,"sources"); int pat=choose(thorough()?4:2,"initial state"); shard(); int order=choose(4,"creation order"); int perm=pick<int>("call order",thorough()?ivec{0,1,5,29,77,119,200,500}:ivec{0,7,119}); bool reuse=flag("shared objects"); int steps=thorough()?4:2; ivec lo,hi; meshof(m,lo,hi);
        sim s(lo,hi,reuse,order,species), r(lo,hi,false,0,species); s.init(pat); r.init(pat); rvec m0; for(int k=0;k<species;++k) m0.push_back(s.mass(k));
        for(int t=0;t<steps;++t){ s.step(species,perm,sources); r.step(species,0,sources); if(!s.finite(species)) break; for(int k=0;k<species;++k){ real d=std::fabs(s.mass(k)-m0[k]); if(!(d<=1e-12L*std::fabs(m0[k])*s.w.f[0].cells())) fail("mass of species %d went from %.17Lg to %.17Lg",k,m0[k],s.mass(k)); }
            for(int k=0;k<species;++k){ const field & a=s.w.f[s.F(k,0)]; const field & b=r.w.f[r.F(k,0)]; for_box(lo,hi,[&](const ivec & x){ for(int c=0;c<5;++c){ double sc=0; for(int q=0;q<5;++q) sc=std::max(sc,std::fabs(b.at(x,0,q))); if(!(std::fabs(a.at(x,0,c)-b.at(x,0,c))<=1e-9*sc)) fail("species %d cell %s component %d is %.17g, but %.17g in another order",k,show(x).c_str(),c,a.at(x,0,c),b.at(x,0,c)); } }); }
            if(sources){ const field & a=s.w.f[s.E(0)]; const field & b=r.w.f[r.E(0)]; for_box(lo,hi,[&](const ivec & x){ for(int c=0;c<6;++c) if(!(std::fabs(a.at(x,0,c)-b.at(x,0,c))<=1e-9*(1+std::fabs(b.at(x,0,c))))) fail("field cell %s component %d is %.17g, but %.17g in another order",show(x).c_str(),c,a.at(x,0,c),b.at(x,0,c)); }); }
            track(s.w); }
    } else if(part==3){ // problems set up one after another at the same addresses, same mesh but other widths, constants and step
        int m=choose(5,"mesh"); int first=choose(3,"first"), second=choose(3,"second"); shard(); int o=choose(13,"call"); bool reuse=flag("shared objects"); ivec lo,hi; meshof(m,lo,hi); ivec one={0}; dvec v(lo.size(),-0.8); v[0]=1.2;
        static const double W[]={2.,0.7,5.}, G[]={1.4,5./3,2.}, C[]={1.5,0.4,3.}, D[]={0.01,0.002,0.03}, EP[]={2.,0.5,7.};
        for(int k:{first,second}){ sim s(lo,hi,reuse,k,1,W[k]); s.gamma=G[k]; s.c=C[k]; s.eps0=EP[k]; s.ch={-1.-k,1}; s.ms={0.25*(k+1),1}; if(k==2) for(auto & x:v) x=-x; s.w.mgr->set_dt(D[k]); s.init(k); switch(o){
            case 0: s.bc(PERIODIC,s.F(0,0),s.dims); break; case 1: s.bc(NO_SLIP,s.F(0,0),one); break; case 2: s.bc(WALL,s.E(0),one); break; case 3: s.bc(k%2?COPY_OUT:FREE_SLIP,s.F(0,1),s.dims); break;
            case 4: s.fill(s.R(0),k); break; case 5: s.euler(s.F(0,0),s.R(0)); break; case 6: s.maxwell(s.E(0),s.ER()); break; case 7: s.lorentz(0,s.F(0,0),s.E(0),s.R(0)); break; case 8: s.current({s.F(0,0)},s.ER()); break;
            case 9: s.stage(s.F(0,0),s.R(0),s.F(0,1),s.F(0,2),s.F(0,3),k); break; case 10: s.single(s.E(0),s.ER(),s.E(1)); break; case 11: s.swap({s.F(0,0),s.F(0,1),s.E(0),s.E(1)}); break; case 12: s.advect(s.F(0,0),s.F(0,1),s.F(0,2),k%2,v); break; } track(s.w); }
    } else { // two problems advanced alternately with one set of objects
        int a=choose(5,"first mesh"), b=choose(5,"second mesh"); shard(); int sources=choose(2,"sources"); int pat=choose(2,"initial state"); int sched=choose(8,"schedule"); ivec lo,hi; meshof(a,lo,hi); sim p(lo,hi,true,1,1); meshof(b,lo,hi); sim q(lo,hi,true,2,1,3.5); p.init(pat); q.init(pat+2); for(int t=0;t<3;++t) ((sched>>t&1)?p:q).step(1,t,sources); track(p.w); track(q.w);
    }
}
