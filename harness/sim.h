// One program's solver objects and fields, every call in lockstep with its definition.
#ifndef SIM_H
#define SIM_H
#include "num.h"
#include "solver/bc_periodic.h"
#include "solver/bc_copy_out.h"
#include "solver/bc_no_slip.h"
#include "solver/bc_free_slip.h"
#include "solver/bc_conducting_wall.h"
#include "solver/rk1.h"
#include "solver/ssprk3.h"
#include "solver/ssprk2_advection.h"
#include "solver/euler.h"
#include "solver/maxwell.h"
#include "solver/lorentz_force.h"
#include "solver/current_source.h"
#include "solver/fill.h"
#include "solver/swap.h"
using namespace mc; using namespace ref;

// the solver objects of one program
struct kit { qk::solver::bc_periodic per; qk::solver::bc_copy_out co; qk::solver::bc_no_slip ns; qk::solver::bc_free_slip fs; qk::solver::bc_conducting_wall cw; qk::solver::rk1 rk1; qk::solver::ssprk3 rk3; qk::solver::ssprk2_advection adv; qk::solver::euler eu; qk::solver::maxwell mx; qk::solver::lorentz_force lf; qk::solver::current_source cs; qk::solver::fill fi; qk::solver::swap sw; };
static kit shared_kit; // used by every execution, on every mesh

// fields: species s has fluid[s][0..3] and rhs, the electromagnetic field em[0..3] and rhs
struct sim {
    world w; kit own; bool reuse; double gamma=1.4; dvec ch={-1,1}, ms={0.25,1}; double eps0=2, c=1.5; std::map<std::string,int> ix; ivec dims;
    kit & k(){ return reuse?shared_kit:own; }
    static dvec widths(size_t n, double s){ dvec w; for(size_t d=0;d<n;++d) w.push_back(s*(1+0.25*d)); return w; }
    sim(const ivec & lo, const ivec & hi, bool r, int order, int species=2, double size=2.) : w(lo,hi,dvec(lo.size(),-0.5),widths(lo.size(),size)), reuse(r){
        std::vector<std::pair<std::string,int> > v; for(int s=0;s<species;++s){ for(int i=0;i<4;++i) v.push_back({"f"+std::to_string(s)+std::to_string(i),5}); v.push_back({"fr"+std::to_string(s),5}); } for(int i=0;i<4;++i) v.push_back({"em"+std::to_string(i),6}); v.push_back({"emr",6});
        if(order==1) std::reverse(v.begin(),v.end()); if(order==2) std::rotate(v.begin(),v.begin()+3,v.end()); if(order==3) for(size_t i=0;i+1<v.size();i+=2) std::swap(v[i],v[i+1]);
        for(auto & x:v) ix[x.first]=w.add(x.first,x.second); for(size_t d=0;d<lo.size();++d) dims.push_back((int)d);
        w.mgr->set_dt(0.01); }
    int F(int s, int i){ return ix.at("f"+std::to_string(s)+std::to_string(i)); } int R(int s){ return ix.at("fr"+std::to_string(s)); } int E(int i){ return ix.at("em"+std::to_string(i)); } int ER(){ return ix.at("emr"); }
    void init(int pat){ auto P=gas(gamma); auto Q=ems(); for(auto & kv:ix){ field & f=w.f[kv.second]; bool fl=kv.first[0]=='f'&&kv.first[1]!='r', em=kv.first.size()==3&&kv.first[0]=='e'&&kv.first!="emr"; int salt=(int)(kv.first[1]+kv.first[kv.first.size()-1]*3); size_t i=0; for_box(f.elo(),f.ehi(),[&](const ivec & x){ if(fl){ auto s=P[(i*(pat+1)+salt)%3]; double bump=1+0.02*((i*7+salt)%9); for(auto & v:s) v*=bump; put(f,x,s); } else if(em){ auto s=Q[(i*(pat+2)+salt)%7]; put(f,x,s); } else for(int c=0;c<f.nc;++c) f.at(x,0,c)=0.125*((i+c*3+salt)%8); ++i; }); w.push(kv.second); } }
    vid id(int i){ return w.ids[i]; }
    // after a call: the target compared with e (interior), everything else bit for bit
    void settle(int target, const expected * e, const char * what, double tol=1e-9){ if(e) compare(w.in(target),*e,what,tol); for(int i=0;i<(int)w.f.size();++i) if(i!=target) w.unchanged(i,what); w.pull(target); }
    void bc(int kind, int t, const ivec & sel){ op("%s on %s",bcname(kind),id(t).name().c_str()); auto go=[&](auto & s){ s.setup(sel); s.set_output_variables({id(t)}); s.solve(*w.mgr); }; if(kind==PERIODIC) go(k().per); else if(kind==COPY_OUT) go(k().co); else if(kind==NO_SLIP) go(k().ns); else if(kind==FREE_SLIP) go(k().fs); else go(k().cw); mask m(w.f[t].v.size(),1); apply_bc(w.f[t],m,kind,sel); compare_masked(w.in(t),w.f[t],m,"boundary condition"); settle(t,0,"boundary condition"); }
    void fill(int t, double v){ op("fill %s",id(t).name().c_str()); k().fi.setup(v); k().fi.set_output_variables({id(t)}); k().fi.solve(*w.mgr); std::fill(w.f[t].v.begin(),w.f[t].v.end(),v); w.unchanged(t,"after fill"); settle(t,0,"fill"); }
    void euler(int q, int r){ op("euler %s",id(q).name().c_str()); expected e(w.f[r]); add_euler(e,w.f[q],gamma,w.dx); k().eu.setup(gamma); k().eu.set_input_variables({id(q)}); k().eu.set_output_variables({id(r)}); k().eu.solve(*w.mgr); settle(r,&e,"euler"); }
    void maxwell(int q, int r){ op("maxwell %s",id(q).name().c_str()); expected e(w.f[r]); add_maxwell(e,w.f[q],c,w.dx); k().mx.setup(c); k().mx.set_input_variables({id(q)}); k().mx.set_output_variables({id(r)}); k().mx.solve(*w.mgr); settle(r,&e,"maxwell"); }
    void lorentz(int s, int q, int em, int r){ op("lorentz %s",id(q).name().c_str()); expected e(w.f[r]); add_lorentz(e,w.f[q],w.f[em],(real)ch[s]/ms[s]); k().lf.setup(ch[s],ms[s]); k().lf.set_input_variables({id(q),id(em)}); k().lf.set_output_variables({id(r)}); k().lf.solve(*w.mgr); settle(r,&e,"lorentz"); }
    void current(const ivec & q, int r){ op("current"); expected e(w.f[r]); dvec a,b; std::vector<vid> I; for(size_t s=0;s<q.size();++s){ add_current(e,w.f[q[s]],-(real)ch[s]/ms[s]/eps0); a.push_back(ch[s]); b.push_back(ms[s]); I.push_back(id(q[s])); } k().cs.setup(eps0,a,b); k().cs.set_input_variables(I); k().cs.set_output_variables({id(r)}); k().cs.solve(*w.mgr); settle(r,&e,"current"); }
    void stage(int q0, int r, int q1, int q2, int q3, int st){ op("ssprk3 stage %d of %s",st,id(q0).name().c_str()); int t= st==0?q1:st==1?q2:q3; real dt=w.mgr->dt(); expected e(w.f[t]); for(size_t i=0;i<e.v.size();++i){ real a=w.f[q0].v[i],b=w.f[q1].v[i],d=w.f[q2].v[i],R=w.f[r].v[i]; real x= st==0?a:st==1?0.75L*a+0.25L*b:(a+2*d)/3, y= (st==0?1:st==1?0.25L:2/3.0L)*dt*R; e.v[i]=x+y; e.scale[i]=std::fabs(a)+std::fabs(b)+std::fabs(d)+std::fabs(y); } k().rk3.set_input_variables({id(q0),id(r)}); k().rk3.set_output_variables({id(q1),id(q2),id(q3)}); k().rk3.solve(*w.mgr,st); settle(t,&e,"ssprk3",1e-12); }
    void single(int q0, int r, int q1){ op("rk1 of %s",id(q0).name().c_str()); expected e(w.f[q1]); for(size_t i=0;i<e.v.size();++i){ e.v[i]=(real)w.f[q0].v[i]+(real)w.mgr->dt()*w.f[r].v[i]; e.scale[i]=std::fabs(w.f[q0].v[i])+std::fabs(w.mgr->dt()*w.f[r].v[i]); } k().rk1.set_input_variables({id(q0),id(r)}); k().rk1.set_output_variables({id(q1)}); k().rk1.solve(*w.mgr,0); settle(q1,&e,"rk1",1e-12); }
    void advect(int n0, int n1, int n2, int st, const dvec & v){ op("advection stage %d",st); int t=st?n2:n1; expected e(w.f[t]); real dt=w.mgr->dt(); for(size_t i=0;i<e.v.size();++i){ e.v[i]= st? 0.5L*((real)w.f[n0].v[i]+w.f[n1].v[i]): w.f[n0].v[i]; e.scale[i]=std::fabs(w.f[n0].v[i])+std::fabs(w.f[n1].v[i]); } add_advection(e,w.f[st?n1:n0],st?dt/2:dt,v,w.dx); k().adv.setup(v); k().adv.set_input_variables({id(n0)}); k().adv.set_output_variables({id(n1),id(n2)}); k().adv.solve(*w.mgr,st); settle(t,&e,"advection"); }
    void swap(const ivec & l){ op("swap"); std::vector<vid> o; for(int i:l) o.push_back(id(i)); k().sw.set_output_variables(o); k().sw.solve(*w.mgr); for(size_t i=0;i+1<l.size();i+=2) std::swap(w.f[l[i]].v,w.f[l[i+1]].v); for(int i=0;i<(int)w.f.size();++i) w.unchanged(i,"after swap"); }
    // one complete coupled step; perm reorders the independent calls inside each stage
    void step(int species, int perm, int sources){
        for(int st=0;st<3;++st){
            auto parts=std::vector<std::function<void()> >();
            for(int s=0;s<species;++s) bc(PERIODIC,F(s,st),dims); if(sources) bc(PERIODIC,E(st),dims);
            for(int s=0;s<species;++s) fill(R(s),0.); if(sources) fill(ER(),0.);
            for(int s=0;s<species;++s){ parts.push_back([=]{ euler(F(s,st),R(s)); }); if(sources) parts.push_back([=]{ lorentz(s,F(s,st),E(st),R(s)); }); }
            if(sources){ parts.push_back([=]{ maxwell(E(st),ER()); }); ivec q; for(int s=0;s<species;++s) q.push_back(F(s,st)); parts.push_back([=]{ current(q,ER()); }); }
            int n=(int)parts.size(); int p=perm; while(!parts.empty()){ int i=p%parts.size(); p/=parts.size(); parts[i](); parts.erase(parts.begin()+i); } (void)n;
            if(perm%2) for(int s=species-1;s>=0;--s) stage(F(s,0),R(s),F(s,1),F(s,2),F(s,3),st); else for(int s=0;s<species;++s) stage(F(s,0),R(s),F(s,1),F(s,2),F(s,3),st); if(sources) stage(E(0),ER(),E(1),E(2),E(3),st);
        }
        ivec l; for(int s=0;s<species;++s){ l.push_back(F(s,0)); l.push_back(F(s,3)); } if(sources){ l.push_back(E(0)); l.push_back(E(3)); } swap(l); }
    real mass(int s){ field & f=w.f[F(s,0)]; real t=0; for_box(f.lo,f.hi,[&](const ivec & x){ t+=f.at(x,0,0); }); return t; }
    bool finite(int species){ bool ok=true; for(int s=0;s<species;++s){ field & f=w.f[F(s,0)]; for_box(f.lo,f.hi,[&](const ivec & x){ for(int c=0;c<5;++c) if(!std::isfinite(f.at(x,0,c))||std::fabs(f.at(x,0,c))>1e8) ok=false; if(!(f.at(x,0,0)>0)) ok=false; }); } return ok; }
};
#endif
