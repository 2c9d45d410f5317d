// C30: what a solver does depends on its settings, its variables and its manager only - not on what ran before.
#include "solvers.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

// problems: meshes of different and of equal shape, with their own spacing, contents, time and time step
static const int PROBLEMS=6; static std::vector<const std::vector<char>*> look;
static world * build(int p, const spec & s, bool other){
    static const ivec LO[]={{0},{0},{-1,3},{-1,3},{0,1,0},{4}}, HI[]={{5},{5},{2,5},{2,5},{2,3,2},{6}}; static const ivec LO2[]={{0,0},{0,0},{-1,3},{-1,3},{0,1,0},{4,2}}, HI2[]={{3,4},{3,4},{2,5},{2,5},{2,3,2},{6,5}}; bool two=s.ghosts; ivec lo=two?LO2[p]:LO[p], hi=two?HI2[p]:HI[p]; int n=(int)lo.size(); dvec st(n),wd(n); for(int d=0;d<n;++d){ st[d]=-0.5-0.21*p; wd[d]=1.+0.37*p+0.2*d; }
    world * w=new world(lo,hi,st,wd); w->mgr->set_dt(p%2?0.2:0.03); w->mgr->set_time(p); static const auto G=gas(1.3), M=ems(); look.clear(); std::string x= other?"x":"";
    typedef std::pair<dvec,std::vector<char>> init; static std::map<std::string,init> known; // contents, and which cells are looked at
    auto add=[&](const std::string & name, int nc, int salt){ int k=w->add(name,nc); field & f=w->f[k]; init & z=known[name+std::to_string(nc)+"/"+std::to_string(salt)+"/"+std::to_string(p)+(two?"b":"a")]; if(z.first.empty()){ size_t i=0; z.second.resize(f.v.size()); for_box(f.elo(),f.ehi(),[&](const ivec & c){ put(f,c,nc==5?G[(i*(salt+1)+i/4+p*3+salt)%G.size()]:M[(i*(salt+1)+i/4+p*2+salt)%M.size()]); ++i; int o=f.outside(c); for(int m=0;m<nc;++m) z.second[f.off(c,0,m)]= o==0||(two&&o==1); }); z.first=f.v; } else f.v=z.first; look.push_back(&z.second); w->push(k); };
    for(size_t i=0;i<s.in.size();++i) add(x+"in"+std::to_string(i),s.in[i],(int)i+(other?3:0)); for(size_t i=0;i<s.out.size();++i) add(x+"out"+std::to_string(i),s.out[i],(int)i+2+(other?3:0)); add("other",5,1); add("em",6,2); return w; }
static std::string apply(any & a, const spec & s, world & w, int tag, int how){
    std::vector<vid> in(w.ids.begin(),w.ids.begin()+s.in.size()), out(w.ids.begin()+s.in.size(),w.ids.begin()+s.in.size()+s.out.size()); std::ostringstream txt; std::streambuf * b=std::cout.rdbuf(txt.rdbuf());
    try { qs::solver & q=a.get(); if(how){ q.set_input_variables({}); q.set_output_variables({}); for(auto & i:in) q.add_input_variable(i); for(auto & o:out) q.add_output_variable(o); } else { q.set_input_variables(in); q.set_output_variables(out); } q.solve(*w.mgr,tag); } catch(...){ std::cout.rdbuf(b); throw; } std::cout.rdbuf(b); return txt.str(); }

struct result { dvec v; std::string text; };
static const size_t ROOM=1<<18; static char * shared_mem=0;
static void dump(const spec & s, world & w, const std::string & txt, result & r){ r.text=txt; r.v.clear(); for(size_t i=0;i<w.f.size();++i){ const field & f=w.f[i]; const qk::data::extended_datachunk & c=chunk(w.in((int)i)); check_shape(c,f,"field"); const double * d=c.data(); const std::vector<char> & m=*look[i]; for(size_t k=0;k<f.v.size();++k) r.v.push_back(m[k]?d[k]:0.); } r.v.push_back(w.mgr->dt()); r.v.push_back(w.mgr->time()); }
// every reference result comes from a process in which nothing else ran
static result reference(int k, int cfg, int p, bool other, int tag){
    const spec & s=specs()[k]; if(!shared_mem) shared_mem=(char*)mmap(0,ROOM,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); size_t * n=(size_t*)shared_mem; n[0]=n[1]=n[2]=0; fflush(stdout);
    pid_t c=fork(); if(c==0){ try { std::unique_ptr<any> a(s.make()); if(cfg) a->setup(cfg); std::unique_ptr<world> w(build(p,s,other)); std::string t=apply(*a,s,*w,tag,0); result r; dump(s,*w,t,r); if(24+r.v.size()*8+r.text.size()<ROOM){ n[1]=r.v.size(); n[2]=r.text.size(); memcpy(shared_mem+24,r.v.data(),n[1]*8); memcpy(shared_mem+24+n[1]*8,r.text.data(),n[2]); n[0]=1; } } catch(const std::exception &){ n[0]=2; } _exit(0); }
    int st; waitpid(c,&st,0); if(!WIFEXITED(st)||n[0]!=1) fail("%s cannot be run on its own (problem %d, settings %d, stage %d)",s.name,p,cfg,tag);
    result r; r.v.assign((double*)(shared_mem+24),(double*)(shared_mem+24)+n[1]); r.text.assign(shared_mem+24+n[1]*8,n[2]); return r; }
static std::map<long,result> refs;
static long key(int k, int cfg, int p, bool o, int t){ return (((k*4L+cfg)*8+p)*2+o)*8+t; }
static void prepare(){ if(!refs.empty()) return; for(int k=0;k<(int)specs().size();++k) for(int cfg=0;cfg<2;++cfg) for(int p=0;p<PROBLEMS;++p) for(int o=0;o<2;++o) for(int t:specs()[k].tags) if(!o||p==0||p==2) refs[key(k,cfg,p,o,t)]=reference(k,cfg,p,o,t); }

static void run(any & a, int k, int cfg, int p, bool other, int tag, int how){
    const spec & s=specs()[k]; std::unique_ptr<world> w(build(p,s,other)); op("%s: settings %d on problem %d%s, stage %d",s.name,cfg,p,other?" with other variables":"",tag); result r; dump(s,*w,apply(a,s,*w,tag,how),r); const result & e=refs[key(k,cfg,p,other,tag)];
    if(r.text!=e.text) fail("%s printed another text than on its own",s.name); if(r.v.size()!=e.v.size()) fail("%s: %zu values instead of %zu",s.name,r.v.size(),e.v.size());
    for(size_t i=0;i<r.v.size();++i){ double x=r.v[i], y=e.v[i]; if(same_bits(x,y)||x==y||(std::isnan(x)&&std::isnan(y))) continue; if(!(std::fabs(x-y)<=1e-12*(std::fabs(y)+1.))) fail("%s (settings %d, problem %d, stage %d): value %zu is %.17g, but %.17g when nothing ran before",s.name,cfg,p,tag,i,x,y); }
    hasher h; h.add(r.v).add(k).add(cfg).add(p); state(h.get());
}
static void histories(){ // one kind of solver, two objects, everything that can happen to them
    int k=choose((int)specs().size(),"solver"); note("solver",specs()[k].name); const spec & s=specs()[k]; int depth=(thorough()?4:3)-(sanitized?1:0); std::unique_ptr<any> a[2]={std::unique_ptr<any>(s.make()),std::unique_ptr<any>(s.make())}; int cfg[2]={0,1}; a[1]->setup(1); int T=(int)s.tags.size();
    for(int d=0;d<depth;++d){ int o=choose(2*PROBLEMS+4+4,"operation"); if(d==1) shard();
        if(o<2*PROBLEMS){ int w=o/PROBLEMS, p=o%PROBLEMS; run(*a[w],k,cfg[w],p,d%2&&(p==0||p==2),s.tags[(d+p)%T],d&1); }
        else if(o<2*PROBLEMS+4){ int w=(o-2*PROBLEMS)/2, c=(o-2*PROBLEMS)%2; op("settings %d for object %d",c,w); a[w]->setup(c); cfg[w]=c; }
        else if(o==2*PROBLEMS+4){ op("first = second"); a[0]->assign(*a[1]); cfg[0]=cfg[1]; }
        else if(o==2*PROBLEMS+5){ op("second becomes a copy of the first"); a[1].reset(a[0]->copy()); cfg[1]=cfg[0]; }
        else if(o==2*PROBLEMS+6){ op("new first object"); a[0].reset(s.make()); cfg[0]=0; }
        else { op("refused request"); std::unique_ptr<world> w(build(d%PROBLEMS,s,false)); std::ostringstream txt; std::streambuf * b=std::cout.rdbuf(txt.rdbuf()); try { qs::solver & q=a[0]->get(); q.set_input_variables({vid("nowhere",comps(5),qk::basis::volume_average())}); q.set_output_variables({w->ids[0]}); q.solve(*w->mgr,0); } catch(const std::exception &){} std::cout.rdbuf(b); }
        hasher h; h.add(k).add(cfg[0]).add(cfg[1]).add(d); state(h.get()); }
    int w=choose(2,"object"), p=choose(2,"problem")*2; run(*a[w],k,cfg[w],p,false,s.tags[0],0);
}
static void across(){ // one kind of solver after another
    int k=choose((int)specs().size(),"first"), j=choose((int)specs().size(),"second"); shard(); int p=choose(sanitized?3:PROBLEMS,"problem"), q=choose(sanitized?4:PROBLEMS,"next problem"); int c=choose(2,"settings"); std::unique_ptr<any> a(specs()[k].make()), b(specs()[j].make()); if(c) b->setup(1);
    for(int t:specs()[k].tags) run(*a,k,0,p,false,t,0); for(int t:specs()[j].tags) run(*b,j,c,q,false,t,1); run(*a,k,0,q,false,specs()[k].tags[0],0);
}
static void shared_world(){ // the same call twice in one manager after the fields were put back
    int k=choose((int)specs().size(),"solver"); const spec & s=specs()[k]; int p=choose(PROBLEMS,"problem"); shard(); int c=choose(2,"settings"); int between=choose(4,"in between"); int tag=pick<int>("stage",s.tags); std::unique_ptr<any> a(s.make()); if(c) a->setup(c); std::unique_ptr<world> w(build(p,s,false)); std::vector<field> f0=w->f; double dt=w->mgr->dt(), tm=w->mgr->time(); result r; const result & e=refs[key(k,c,p,false,tag)];
    for(int t=0;t<3;++t){ for(size_t i=0;i<f0.size();++i){ w->f[i]=f0[i]; w->push((int)i); } w->mgr->set_dt(dt); w->mgr->set_time(tm); op("%s, time %d",s.name,t); dump(s,*w,apply(*a,s,*w,tag,t&1),r); if(r.text!=e.text) fail("%s printed another text the %d. time",s.name,t+1); for(size_t i=0;i<r.v.size();++i){ double x=r.v[i], y=e.v[i]; if(same_bits(x,y)||x==y||(std::isnan(x)&&std::isnan(y))) continue; if(!(std::fabs(x-y)<=1e-12*(std::fabs(y)+1.))) fail("%s: value %zu is %.17g the %d. time, but %.17g when nothing ran before",s.name,i,x,t+1,y); }
        if(between==1){ a->setup(1-c); w->mgr->set_dt(5.); for(size_t i=0;i<f0.size();++i){ for(auto & v:w->f[i].v) v=1.5; w->push((int)i); } try { apply(*a,s,*w,tag,0); } catch(const std::exception &){} a->setup(c); }
        if(between==2){ for(int m=0;m<20;++m) w->mgr->output_variable(vid("more"+std::to_string(m+20*t),comps(3),qk::basis::volume_average())); }
        if(between==3){ std::unique_ptr<any> b(a->copy()); b->setup(1-c); for(size_t i=0;i<f0.size();++i){ w->f[i]=f0[i]; w->push((int)i); } try { apply(*b,s,*w,tag,0); } catch(const std::exception &){} } }
    state(hasher().add(r.v).add(k).add(between).get());
}
static world * numbered(int m, const spec & s){ ivec lo={m%3-1},hi={m%3+1+m}; if(s.ghosts){ lo.push_back(0); hi.push_back(2+m%2); } int n=(int)lo.size(); dvec st(n,-0.5-0.01*m),wd(n,1.+0.013*m); world * w=new world(lo,hi,st,wd); w->mgr->set_dt(0.02+0.001*m); w->mgr->set_time(m); static const auto G=gas(1.3), M=ems();
    auto add=[&](const std::string & name, int nc, int salt){ int k=w->add(name,nc); field & f=w->f[k]; for(size_t i=0;i<f.v.size();++i){ size_t c=i/nc; f.v[i]= nc==5?G[(c*(salt+1)+c/4+salt)%G.size()][i%nc]:M[(c*(salt+1)+c/4+salt)%M.size()][i%nc]; } w->push(k); }; for(size_t i=0;i<s.in.size();++i) add("in"+std::to_string(i),s.in[i],(int)i); for(size_t i=0;i<s.out.size();++i) add("out"+std::to_string(i),s.out[i],(int)i+2); return w; }
struct raw { std::vector<qk::data::extended_datachunk *> c; void look_at(world & w){ c.clear(); for(auto & id:w.ids){ auto & v=w.mgr->output_variable(id); qk::indexer i=v.indexer(); c.push_back(&v[i]); } } std::vector<dvec> get() const { std::vector<dvec> r; for(auto p:c) r.push_back(dvec(p->data(),p->data()+p->volume())); return r; } void put(const std::vector<dvec> & r) const { for(size_t i=0;i<c.size();++i) std::copy(r[i].begin(),r[i].end(),c[i]->data()); } };
static void agree(const field & f, const dvec & x, const dvec & y, const char * name, const char * what, int t){ if(x.size()==y.size()&&memcmp(x.data(),y.data(),x.size()*8)==0) return; if(x.size()!=y.size()) fail("%s: %zu values instead of %zu",name,x.size(),y.size()); for_box(f.lo,f.hi,[&](const ivec & p){ for(int c=0;c<f.nc;++c){ size_t i=f.off(p,0,c); if(same_bits(x[i],y[i])||x[i]==y[i]||(std::isnan(x[i])&&std::isnan(y[i]))) continue; if(!(std::fabs(x[i]-y[i])<=1e-12*(std::fabs(y[i])+1.))) fail("%s: value %zu is %.17g %s %d, and %.17g the first time",name,i,x[i],what,t,y[i]); } }); }
static void endurance(){ // very many calls of one object, and very many meshes
    int k=choose((int)specs().size(),"solver"); const spec & s=specs()[k]; bool meshes=flag("different meshes"); int c=choose(2,"settings"); shard(); std::unique_ptr<any> a(s.make()); if(c) a->setup(1); std::ostringstream txt; struct quiet { std::streambuf * b; quiet(std::ostringstream & t) : b(std::cout.rdbuf(t.rdbuf())) {} ~quiet(){ std::cout.rdbuf(b); } };
    if(meshes){ int N= sanitized?40:thorough()?400:140; std::vector<std::vector<dvec>> first; std::vector<std::string> text; for(int round=0;round<2;++round) for(int m=0;m<N;++m){ std::unique_ptr<world> w(numbered(m,s)); raw r; r.look_at(*w); trans(1); txt.str(""); { quiet q(txt); apply(*a,s,*w,s.tags[m%s.tags.size()],m&1); } std::vector<dvec> v=r.get(); if(round==0){ first.push_back(v); text.push_back(txt.str()); } else { if(txt.str()!=text[m]) fail("%s printed another text on mesh %d the second time",s.name,m); for(size_t i=0;i<v.size();++i) agree(w->f[i],v[i],first[m][i],s.name,"on mesh",m); } } }
    else { int N= sanitized?1100:thorough()?400000:70000; if(k==14) N/=4; std::unique_ptr<world> w(numbered(2,s)); raw r; r.look_at(*w); std::vector<dvec> v0=r.get(), v1; std::string t1; op("%s %d times",s.name,N); qs::solver & q=a->get(); q.set_input_variables(std::vector<vid>(w->ids.begin(),w->ids.begin()+s.in.size())); q.set_output_variables(std::vector<vid>(w->ids.begin()+s.in.size(),w->ids.end()));
        for(int t=0;t<N;++t){ if(t) r.put(v0); trans(1); txt.str(""); { quiet z(txt); q.solve(*w->mgr,s.tags[0]); } r.look_at(*w); if(t==0){ v1=r.get(); t1=txt.str(); } else { if(txt.str()!=t1) fail("%s printed another text at call %d",s.name,t); for(size_t i=0;i<v1.size();++i) if(memcmp(r.c[i]->data(),v1[i].data(),v1[i].size()*8)){ dvec x(r.c[i]->data(),r.c[i]->data()+r.c[i]->volume()); agree(w->f[i],x,v1[i],s.name,"at call",t); } } } state(hasher().add(k).add(c).get()); }
}
void body(){ int part=choose(4,"part"); if(part<3) prepare(); switch(part){ case 0: histories(); break; case 1: across(); break; case 2: shared_world(); break; default: endurance(); } }
