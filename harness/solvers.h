// Every solver of the library behind one interface, with two sets of settings each.
#ifndef SOLVERS_H
#define SOLVERS_H
#include "sim.h"
#include "solver/gaussian.h"
#include "solver/magnetic_pulse.h"
#include "solver/shock_tube.h"
#include "solver/radial_shock_tube.h"
#include "solver/brio_wu_shock_tube.h"
#include "solver/electromagnetic_wave_1D.h"
#include "solver/gem_challenge.h"
#include "solver/print.h"
#include <iostream>
using namespace mc; using namespace ref; namespace qs = qk::solver;

struct any { virtual ~any(){} virtual any * copy() const =0; virtual void assign(const any &)=0; virtual void setup(int cfg)=0; virtual qs::solver & get()=0; };
template<class T> struct holds : any { T t; void (*s)(T &,int); explicit holds(void (*f)(T &,int)) : s(f){ s(t,0); } any * copy() const { return new holds(*this); } void assign(const any & o){ t=static_cast<const holds &>(o).t; } void setup(int c){ s(t,c); } qs::solver & get(){ return t; } };
struct spec { const char * name; std::function<any*()> make; ivec in,out; ivec tags; bool ghosts; };
template<class T> static spec sp(const char * n, void (*f)(T &,int), ivec in, ivec out, ivec tags, bool ghosts=false){ return {n,[f]{ return new holds<T>(f); },in,out,tags,ghosts}; }
static const std::vector<spec> & specs(){
    static const std::vector<spec> S={
    sp<qs::euler>("euler",[](qs::euler & s, int c){ s.setup(c?5./3.:1.4); },{5},{5},{0}),
    sp<qs::maxwell>("maxwell",[](qs::maxwell & s, int c){ s.setup(c?-0.5:2.); },{6},{6},{0}),
    sp<qs::lorentz_force>("lorentz force",[](qs::lorentz_force & s, int c){ s.setup(c?-3:1,c?0.5:2); },{5,6},{5},{0}),
    sp<qs::current_source>("current source",[](qs::current_source & s, int c){ if(c) s.setup(0.5,{-1,3},{0.04,2}); else s.setup(2,{1,-1},{1,0.1}); },{5,5},{6},{0}),
    sp<qs::rk1>("rk1",[](qs::rk1 &, int){},{5,5},{5},{0}),
    sp<qs::ssprk3>("ssprk3",[](qs::ssprk3 &, int){},{5,5},{5,5,5},{0,1,2}),
    sp<qs::ssprk2_advection>("advection",[](qs::ssprk2_advection & s, int c){ s.setup(c?dvec{-0.3,0.7,-1.}:dvec{1.,0.,0.4}); },{5},{5,5},{0,1}),
    sp<qs::bc_periodic>("periodic",[](qs::bc_periodic & s, int c){ s.setup(c?ivec{1}:ivec{0,1}); },{},{5,6},{0},true),
    sp<qs::bc_copy_out>("copy out",[](qs::bc_copy_out & s, int c){ s.setup(c?ivec{1}:ivec{0,1}); },{},{5,6},{0},true),
    sp<qs::bc_no_slip>("no slip",[](qs::bc_no_slip & s, int c){ s.setup(c?ivec{1}:ivec{0,1}); },{},{5,5},{0},true),
    sp<qs::bc_free_slip>("free slip",[](qs::bc_free_slip & s, int c){ s.setup(c?ivec{1}:ivec{0,1}); },{},{5,5},{0},true),
    sp<qs::bc_conducting_wall>("conducting wall",[](qs::bc_conducting_wall & s, int c){ s.setup(c?ivec{1}:ivec{0,1}); },{},{6,6},{0},true),
    sp<qs::fill>("fill",[](qs::fill & s, int c){ s.setup(c?-2.5:4); },{},{5,6},{0},true),
    sp<qs::swap>("swap",[](qs::swap &, int){},{},{5,5},{0},true),
    sp<qs::print>("print",[](qs::print &, int){},{5,6},{},{0}),
    sp<qs::gaussian>("gaussian",[](qs::gaussian & s, int c){ if(c) s.setup(-2,{0.3},0.5); else s.setup(1.5,{0.1,-0.2,0.4},0.8); },{},{5,6},{0}),
    sp<qs::magnetic_pulse>("magnetic pulse",[](qs::magnetic_pulse & s, int c){ s.setup(c?-1:3,c?0.5:0.1); },{},{6},{0}),
    sp<qs::shock_tube>("shock tube",[](qs::shock_tube & s, int c){ s.setup(c?4:0.125,c?0.3:0.1,c?2:1.4); },{},{5},{0}),
    sp<qs::radial_shock_tube>("radial shock tube",[](qs::radial_shock_tube & s, int c){ if(c) s.setup(0.31,4,0.3,2,{0.2,-0.1}); else s.setup(0.43,0.125,0.1,1.4); },{},{5},{0}),
    sp<qs::brio_wu_shock_tube>("two-fluid shock tube",[](qs::brio_wu_shock_tube & s, int c){ s.setup(c?5./3:2,0.04,c?3:1,1,0.125,c?2:1,0.1,0.75,c?-1:1); },{},{5,5,6},{0}),
    sp<qs::electromagnetic_wave_1D>("plane wave",[](qs::electromagnetic_wave_1D & s, int c){ s.setup(c?1:0,c?-2:1,c?5:6.28,0.2,c?0.4:1,-0.7); },{},{6},{0}),
    sp<qs::gem_challenge>("current sheet",[](qs::gem_challenge & s, int c){ s.setup(c?0.3:0.5,c?1.1:3.2,1,0.2,5./3,-1,0.04,0,c?0.2:0.1,1,c?2:1,0,0.2,0.7); },{},{5,5,6},{0}) };
    return S; }
#endif
