// C34: what is not a number stays where it is and stays visible.  One component of one cell is spoiled; the real program is
// run with and without it and the two results are compared bit by bit.
#include "programs.h"

// 0 gas, 1 fields, 2 two gases and fields, 3 advection, 4 gas by one-stage steps, 5 fields by one-stage steps
struct plan { int program,n,fk,ek; ivec lo,hi; dvec st,wd; };
static void step(prob & p, int program, int fk, int ek, const ivec & dims, const dvec & vel){
    static const units none={0,0,0,0}; if(program<4){ p.run(program,fk,ek,dims,ivec(),none,vel,1); return; }
    std::string q=program==4?"f0":"em", r=program==4?"fr0":"emr"; p.w.mgr->set_dt(0.005); p.bc(program==4?fk:ek,q+"0",dims,ivec()); p.zero(r); if(program==4) p.euler(q+"0",r); else p.maxwell(q+"0",r,1.5);
    p.k.rk1.set_input_variables({p.id(q+"0"),p.id(r)}); p.k.rk1.set_output_variables({p.id(q+"1")}); p.k.rk1.solve(*p.w.mgr); p.k.sw.set_output_variables({p.id(q+"0"),p.id(q+"1")}); p.k.sw.solve(*p.w.mgr); }
static bool same(double a, double b){ return std::memcmp(&a,&b,8)==0||(std::isnan(a)&&std::isnan(b)); }
void body(){
    int program=choose(6,"program"); int n=upto("dims",1,3); int base=program==4?0:program==5?1:program; bool gases=base==0||base==2;
    int fk= gases? pick<int>("wall of the gas",{PERIODIC,COPY_OUT,NO_SLIP,FREE_SLIP}):PERIODIC, ek= base==1||base==2? pick<int>("wall of the fields",{PERIODIC,COPY_OUT,WALL}): base==3? pick<int>("wall",{PERIODIC,COPY_OUT}):PERIODIC; if(program==2&&!thorough()&&(fk+ek)%3) return; shard();
    static const int LEN[3][3]={{11,1,1},{6,5,1},{5,4,3}}; static const int WIDE[3][3]={{23,1,1},{9,8,1},{7,5,4}}; bool wide= thorough()&&choose(2,"wide"); ivec lo,hi,len,dims; dvec st,wd; for(int d=0;d<n;++d){ len.push_back((wide?WIDE:LEN)[n-1][d]); lo.push_back(2-d); hi.push_back(lo[d]+len[d]); dims.push_back(d); st.push_back(-1.+d); wd.push_back(len[d]*(0.25+0.125*d)); }
    int pat=choose(thorough()?3:1,"pattern"), steps= program==4||program==5||program==2? upto("steps",1,2):1; dvec vel={0.75,-1.25,0.5}; vel.resize(n);
    // everything up to here is set up, and the unspoiled program run, once
    struct setting { prob p; std::vector<std::vector<double>> first; std::vector<std::map<ivec,std::vector<double>>> last; setting(const ivec & l, const ivec & h, const dvec & s, const dvec & w, int b) : p(l,h,s,w,b) {} };
    static std::unique_ptr<setting> kept; static std::vector<int> kept_for; std::vector<int> now={program,n,fk,ek,wide,pat,steps};
    auto chunk=[&](prob & p, size_t i)->qk::data::extended_datachunk & { qk::variable::variable & v=p.w.out((int)i); qk::indexer x=v.indexer(); return v[x]; };
    auto value=[&](qk::data::extended_datachunk & c, const ivec & x, int k)->double & { int y[5]; int d=0; for(;d<n;++d) y[d]=x[d]; y[d]=0; y[d+1]=k; return *c.data(y); };
    auto is_state=[](const std::string & v){ return v=="f00"||v=="f10"||v=="em0"||v=="n0"; };
    if(!kept||kept_for!=now){ kept.reset(); kept.reset(new setting(lo,hi,st,wd,base)); kept_for=now; prob & p=kept->p; for(size_t i=0;i<p.kinds.size();++i){ field & f=p.w.f[i]; std::fill(f.v.begin(),f.v.end(),1.25); size_t c=0; for_box(lo,hi,[&](const ivec & x){ std::vector<double> q=pattern(p.kinds[i],(int)i,c++,pat); for(int k=0;k<ncomp(p.kinds[i]);++k) f.at(x,0,k)=q[k%q.size()]; }); p.w.push((int)i); auto & h=chunk(p,i); kept->first.push_back(std::vector<double>(h.data(),h.data()+h.volume())); }
        for(int t=0;t<steps;++t) step(p,program,fk,ek,dims,vel); kept->last.resize(p.kinds.size()); for(size_t i=0;i<p.kinds.size();++i) if(is_state(p.w.ids[i].name())){ auto & h=chunk(p,i); for_box(lo,hi,[&](const ivec & x){ auto & l=kept->last[i][x]; for(int k=0;k<ncomp(p.kinds[i]);++k){ l.push_back(value(h,x,k)); if(!std::isfinite(l.back())) fail("%s component %d at %s is %g before anything is spoiled",p.w.ids[i].name().c_str(),k,show(x).c_str(),l.back()); } }); } }
    prob & b=kept->p; int var=choose((int)b.kinds.size(),"variable"), kind=b.kinds[var]; int comp=choose(ncomp(kind),"component"); static const double BAD[]={NAN,INFINITY,-INFINITY,1e300,-7.}; double bad=BAD[choose(sanitized&&!thorough()?1:n==3&&!thorough()?2:5,"value")];
    std::string name=b.w.ids[var].name(); bool scratch=!is_state(name); ivec cell; for(int d=0;d<n;++d) cell.push_back(lo[d]+choose(len[d],"cell"));
    for(size_t i=0;i<b.kinds.size();++i){ auto & h=chunk(b,i); std::copy(kept->first[i].begin(),kept->first[i].end(),h.data()); } value(chunk(b,var),cell,comp)=bad;
    op("program %d, boundaries %s and %s: %s component %d of cell %s is %g, %d steps",program,bcname(fk),bcname(ek),name.c_str(),comp,show(cell).c_str(),bad,steps);
    for(int t=0;t<steps;++t) step(b,program,fk,ek,dims,vel);
    int stages= program==0||program==1?3:program==3?2:1; hasher hh;
    for(size_t i=0;i<b.kinds.size();++i){ const std::string & v=b.w.ids[i].name(); if(!is_state(v)) continue; auto & h=chunk(b,i); bool torus= base==2? fk==PERIODIC||ek==PERIODIC : b.kinds[i]==FLUID?fk==PERIODIC:ek==PERIODIC;
        for(auto & xl:kept->last[i]){ const ivec & x=xl.first; int sum=0,axes=0; for(int d=0;d<n;++d){ int z=std::abs(x[d]-cell[d]); if(torus) z=std::min(z,len[d]-z); sum+=z; axes+=z>0; }
            bool reach= scratch?false: stages==1&&steps==1? ((int)i==var? sum<=2&&axes<=1 : sum==0&&v[0]!=name[0]) : sum<=2*stages*steps;
            for(int k=0;k<ncomp(b.kinds[i]);++k){ double p=xl.second[k], q=value(h,x,k); hh.add(q); if(!reach&&!same(p,q)) fail("%s component %d at %s is %.17g, and %.17g when %s component %d at %s is %g",v.c_str(),k,show(x).c_str(),p,q,name.c_str(),comp,show(cell).c_str(),bad);
                if((int)i==var&&k==comp&&sum==0&&!std::isfinite(bad)&&std::isfinite(q)) fail("%s component %d at %s was %g and is %.17g after the step",v.c_str(),k,show(x).c_str(),bad,q); } } }
    state(hh.get());
}
