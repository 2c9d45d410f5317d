// Small problems for any solver: its inputs, its outputs, and two variables it is not given.
#ifndef PROBLEMS_H
#define PROBLEMS_H
#include "solvers.h"
static world * build(int p, const spec & s, bool with_outputs, world * grid_of=0, int salt0=0){
    static const ivec LO[]={{0},{-1,3},{0,1,0}}, HI[]={{3},{1,5},{2,2,2}}; ivec lo=LO[p], hi=HI[p]; if(s.ghosts&&p==0){ lo={0,1}; hi={3,3}; } int n=(int)lo.size(); dvec st(n,-0.5),wd(n); for(int d=0;d<n;++d) wd[d]=1.+0.37*p+0.2*d;
    world * w=new world(lo,hi,st,wd); if(grid_of){ w->mgr.reset(); w->mgr.reset(slots<qk::variable::variable_manager>::make(*grid_of->grid)); } w->mgr->set_dt(0.03); w->mgr->set_time(0.5); static const auto G=gas(1.3), M=ems();
    auto add=[&](const std::string & name, int nc, int salt, bool create){ if(!create){ w->ids.push_back(vid(name,comps(nc),qk::basis::volume_average())); w->f.push_back(field(lo,hi,2,1,nc)); return; } int k=w->add(name,nc); field & f=w->f[k]; size_t i=0; for_box(f.elo(),f.ehi(),[&](const ivec & c){ put(f,c,nc==5?G[(i*(salt+1)+i/4+p*3+salt)%G.size()]:M[(i*(salt+1)+i/4+p*2+salt)%M.size()]); ++i; }); w->push(k); };
    add("other",5,1,true); for(size_t i=0;i<s.in.size();++i) add("in"+std::to_string(i),s.in[i],(int)i+salt0,true); for(size_t i=0;i<s.out.size();++i) add("out"+std::to_string(i),s.out[i],(int)i+2+salt0,with_outputs); add("em",6,2,true); return w; }
#endif
