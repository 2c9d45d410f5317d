// Programs of complete steps for any mesh and boundaries.
#ifndef PROGRAMS_H
#define PROGRAMS_H
#include "sim.h"
enum { FLUID, EM, SCALAR }; // density, momentum, energy; electric and magnetic field; two advected quantities
static int ncomp(int kind){ return kind==FLUID?5:kind==EM?6:2; }
struct units { int length,time,density,field; // powers of two
    int velocity() const { return length-time; } int energy() const { return density+2*velocity(); }
    int of(int kind, int c) const { if(kind==FLUID) return c==0?density:c<4?density+velocity():energy(); if(kind==EM) return c<3?field:field-velocity(); return field; }
    int com() const { return velocity()-time-field; } int eps0() const { return com()+density+velocity()+time-field; } };
// what is run: 0 one gas, 1 fields alone, 2 two gases and fields, 3 advection
struct prob { world w; kit k; std::vector<int> kinds; std::map<std::string,int> ix;
    prob(const ivec & lo, const ivec & hi, const dvec & start, const dvec & width, int program) : w(lo,hi,start,width) { auto a=[&](const std::string & s, int kind){ ix[s]=w.add(s,ncomp(kind)); kinds.push_back(kind); };
        if(program==0||program==2) for(int s=0;s<(program==2?2:1);++s){ for(int i=0;i<4;++i) a("f"+std::to_string(s)+std::to_string(i),FLUID); a("fr"+std::to_string(s),FLUID); }
        if(program==1||program==2){ for(int i=0;i<4;++i) a("em"+std::to_string(i),EM); a("emr",EM); } if(program==3) for(int i=0;i<3;++i) a("n"+std::to_string(i),SCALAR); }
    vid id(const std::string & s){ return w.ids[ix.at(s)]; }
    void bc(int kind, const std::string & s, const ivec & dims, const ivec & extra){ auto go=[&](auto & b, const ivec & d){ b.setup(d); b.set_output_variables({id(s)}); b.solve(*w.mgr); }; if(kind==PERIODIC) go(k.per,dims); else if(kind==COPY_OUT) go(k.co,dims); else if(kind==NO_SLIP) go(k.ns,dims); else if(kind==FREE_SLIP) go(k.fs,dims); else go(k.cw,dims); if(extra.size()) go(k.per,extra); }
    void zero(const std::string & s){ k.fi.setup(0.); k.fi.set_output_variables({id(s)}); k.fi.solve(*w.mgr); }
    void euler(const std::string & q, const std::string & r){ k.eu.setup(1.4); k.eu.set_input_variables({id(q)}); k.eu.set_output_variables({id(r)}); k.eu.solve(*w.mgr); }
    void maxwell(const std::string & q, const std::string & r, double c){ k.mx.setup(c); k.mx.set_input_variables({id(q)}); k.mx.set_output_variables({id(r)}); k.mx.solve(*w.mgr); }
    void stage(const std::string & p, const std::string & r, int st){ k.rk3.set_input_variables({id(p+"0"),id(r)}); k.rk3.set_output_variables({id(p+"1"),id(p+"2"),id(p+"3")}); k.rk3.solve(*w.mgr,st); }
    void run(int program, int fk, int ek, const ivec & dims, const ivec & extra, const units & u, const dvec & vel, int steps){
        auto sc=[](double x, int e){ return std::ldexp(x,e); }; w.mgr->set_dt(sc(0.005,u.time)); double c=sc(1.5,u.velocity()); std::string S[4]={"0","1","2","3"};
        if(program==0) for(int t=0;t<steps;++t){ for(int st=0;st<3;++st){ std::string q="f0"+S[st]; bc(fk,q,dims,extra); zero("fr0"); euler(q,"fr0"); stage("f0","fr0",st); } k.sw.set_output_variables({id("f00"),id("f03")}); k.sw.solve(*w.mgr); }
        if(program==1) for(int t=0;t<steps;++t){ for(int st=0;st<3;++st){ std::string q="em"+S[st]; bc(ek,q,dims,extra); zero("emr"); maxwell(q,"emr",c); stage("em","emr",st); } k.sw.set_output_variables({id("em0"),id("em3")}); k.sw.solve(*w.mgr); }
        if(program==2) for(int t=0;t<steps;++t){ double ms[2]={0.25,1},com[2]={sc(-4,u.com()),sc(1,u.com())}; for(int s=0;s<2;++s){ bc(fk,"f"+S[s]+"0",dims,extra); zero("fr"+S[s]); } bc(ek,"em0",dims,extra); zero("emr");
                for(int s=0;s<2;++s){ euler("f"+S[s]+"0","fr"+S[s]); k.lf.setup(com[s]*ms[s],ms[s]); k.lf.set_input_variables({id("f"+S[s]+"0"),id("em0")}); k.lf.set_output_variables({id("fr"+S[s])}); k.lf.solve(*w.mgr); }
                maxwell("em0","emr",c); k.cs.setup(sc(2,u.eps0()),{com[0]*ms[0],com[1]*ms[1]},{ms[0],ms[1]}); k.cs.set_input_variables({id("f00"),id("f10")}); k.cs.set_output_variables({id("emr")}); k.cs.solve(*w.mgr);
                for(const char * p:{"f0","f1","em"}){ std::string b=p; k.rk1.set_input_variables({id(b+"0"),id(b=="em"?"emr":b=="f0"?"fr0":"fr1")}); k.rk1.set_output_variables({id(b+"1")}); k.rk1.solve(*w.mgr); k.sw.set_output_variables({id(b+"0"),id(b+"1")}); k.sw.solve(*w.mgr); } }
        if(program==3) for(int t=0;t<steps;++t){ k.adv.setup(vel); k.adv.set_input_variables({id("n0")}); k.adv.set_output_variables({id("n1"),id("n2")}); bc(ek,"n0",dims,extra); k.adv.solve(*w.mgr,0); bc(ek,"n1",dims,extra); k.adv.solve(*w.mgr,1); k.sw.set_output_variables({id("n0"),id("n2")}); k.sw.solve(*w.mgr); } } };
static std::vector<double> pattern(int kind, int salt, size_t cell, int pat){ static const auto G=gas(1.4); static const auto Q=ems(); size_t h=(cell*(2*pat+3)+salt*5+cell*cell*pat)%7; if(kind==EM) return Q[(h+salt)%Q.size()]; if(kind==SCALAR) return { std::fabs((double)((cell*5+pat+salt)%9)-3)*0.25, (cell+pat)%4==1?1.:0. }; static const int M[3][7]={{0,2,5,0,2,7,5},{0,1,2,0,1,5,2},{3,3,2,3,0,3,3}}; auto s=G[M[pat%3][h]]; double bump=1+0.03*((cell*7+salt)%5); for(double & v:s) v*=bump; return s; }
#endif
