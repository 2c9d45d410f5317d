// C32: what different threads do with different objects does not interfere, whatever their interleaving.
// Each case runs in a process of its own under the checker's scheduler, which records every access of both threads.  A run
// without conflicting accesses stands for all interleavings; every conflicting access is tried as a preemption point.
#include "problems.h"
#include "omp_shim.h"
#include "lib/range_set.h"
#include "grid/structured.h"
#include <fstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

struct nobuf : std::streambuf { char b[1<<16]; nobuf(){ setp(b,b+sizeof b); } std::string text() const { return std::string(pbase(),pptr()); } };
// what two threads do, and what is to be seen afterwards
struct duo { virtual ~duo(){} virtual void work(int t)=0; virtual void seen(dvec & v, std::string & s)=0; };
typedef std::function<duo*()> maker;
static const size_t ROOM=1<<19, MAXP=4096; struct mailbox { int done; size_t n,len,points; char what[500]; shim::point p[MAXP]; }; static mailbox * box_=0; static double * numbers(){ return (double*)((char*)box_+(sizeof(mailbox)+15)/16*16); }
struct outcome { dvec v; std::string s; std::vector<shim::point> pts; };
static duo * current=0; static bool threw[2];
static void in_thread(void *){ int t=shim::self(); try { current->work(t); } catch(...){ threw[t]=true; } }
static outcome child(const maker & m, bool serial, int order, const shim::preemption * pre, int npre, const char * when){
    if(!box_) box_=(mailbox*)mmap(0,ROOM+sizeof(mailbox),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); box_->done=0; box_->n=box_->len=box_->points=0; fflush(0);
    pid_t c=fork(); if(c==0){ alarm(60); try { nobuf text; std::streambuf * old=std::cout.rdbuf(&text); std::cout<<1.5; std::unique_ptr<duo> d(m()); current=d.get(); threw[0]=threw[1]=false;
            if(serial){ for(int t=0;t<2;++t) try { d->work(t); } catch(...){ threw[t]=true; } } else { shim::schedule(2,order,pre,npre,true); shim::together(in_thread,0,2); }
            for(size_t i=0;i<shim::points()&&i<MAXP;++i) box_->p[box_->points++]=shim::get(i); shim::schedule(1,0,0,0,false); std::cout.rdbuf(old);
            dvec v; std::string s; d->seen(v,s); s+=text.text(); v.push_back(threw[0]); v.push_back(threw[1]); if(v.size()*8+s.size()>ROOM-64) fail("too much to see"); memcpy(numbers(),v.data(),v.size()*8); memcpy(numbers()+v.size(),s.data(),s.size()); box_->n=v.size(); box_->len=s.size(); box_->done=1; }
        catch(const std::exception & e){ snprintf(box_->what,sizeof box_->what,"%s",e.what()); box_->done=2; } _exit(0); }
    int st; waitpid(c,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)||!box_->done) fail("%s: the process ends with status %d",when,st); if(box_->done==2) fail("%s: %s",when,box_->what);
    outcome o; o.v.assign(numbers(),numbers()+box_->n); o.s.assign((char*)(numbers()+box_->n),box_->len); o.pts.assign(box_->p,box_->p+box_->points); return o; }
static void equal(const outcome & a, const outcome & e, const char * when){ if(a.v.size()!=e.v.size()) fail("%s: %zu results instead of %zu",when,a.v.size(),e.v.size()); for(size_t i=0;i<a.v.size();++i){ double x=a.v[i],y=e.v[i]; if(same_bits(x,y)||x==y||(std::isnan(x)&&std::isnan(y))||std::fabs(x-y)<=1e-12*(std::fabs(y)+1.)) continue; fail("%s: result %zu is %.17g instead of %.17g",when,i,x,y); } if(a.s!=e.s) fail("%s: text '%s' instead of '%s'",when,a.s.substr(0,150).c_str(),e.s.substr(0,150).c_str()); }
static void explore(const char * name, const maker & m){
    outcome ref=child(m,true,0,0,0,"one after the other"); size_t all=0;
    for(int order=0;order<2;++order){ std::string when=std::string(name)+(order?", second thread first":", first thread first"); outcome r=child(m,false,order,0,0,when.c_str()); trans(1); equal(r,ref,when.c_str()); all+=r.pts.size();
        size_t cap=thorough()?600:100, stride=r.pts.size()/cap+1; 
        for(size_t i=0;i<r.pts.size();i+=stride){ shim::preemption pr[2]; const shim::point & p=r.pts[i]; pr[0].region=p.region; pr[0].tid=p.tid; pr[0].ord=p.ord; pr[0].to=1-p.tid; std::string w=std::string(name)+": thread "+std::to_string(p.tid)+" stops before its access "+std::to_string(p.ord)+" and the other one runs"; trans(1); outcome x=child(m,false,order,pr,1,w.c_str()); equal(x,ref,w.c_str());
            if(thorough()){ size_t n=0; for(const auto & q:r.pts) if(q.tid!=p.tid&&n<8){ ++n; pr[1].region=q.region; pr[1].tid=q.tid; pr[1].ord=q.ord; pr[1].to=p.tid; trans(1); outcome y=child(m,false,order,pr,2,w.c_str()); equal(y,ref,(w+" until its access "+std::to_string(q.ord)).c_str()); } } } }
    op("%s: %zu conflicting accesses",name,all); state(hasher().add(std::string(name)).add(ref.v).add(ref.s).add((int)all).get());
}
static void look(world & w, const spec & s, dvec & v){ for(size_t i=0;i<w.f.size();++i){ field f=w.f[i]; save(w.in((int)i),f); for_box(f.elo(),f.ehi(),[&](const ivec & x){ int o=f.outside(x); if(o==0||(o==1&&s.ghosts)) for(int c=0;c<f.nc;++c) v.push_back(f.at(x,0,c)); }); } v.push_back(w.mgr->dt()); v.push_back(w.mgr->time()); }
static void names(world & w, const spec & s, std::vector<vid> & in, std::vector<vid> & out){ in.assign(w.ids.begin()+1,w.ids.begin()+1+s.in.size()); out.assign(w.ids.begin()+1+s.in.size(),w.ids.begin()+1+s.in.size()+s.out.size()); }

// two solvers, each with its own object; the grids are separate, or both managers use the same one
struct two_solvers : duo { const spec * s[2]; int cfg[2],tag[2]; bool early; std::unique_ptr<world> w[2]; std::vector<vid> in[2],out[2]; std::unique_ptr<any> a[2];
    two_solvers(int k, int j, int p, int q, int c, int tg, bool one_grid, bool early_) : early(early_) { s[0]=&specs()[k]; s[1]=&specs()[j]; cfg[0]=0; cfg[1]=c; w[0].reset(build(p,*s[0],true)); w[1].reset(build(q,*s[1],true,one_grid?w[0].get():0,3)); for(int t=0;t<2;++t){ tag[t]=s[t]->tags[tg%s[t]->tags.size()]; names(*w[t],*s[t],in[t],out[t]); if(early) make(t); } }
    ~two_solvers(){ w[1].reset(); }
    void make(int t){ a[t].reset(s[t]->make()); if(cfg[t]) a[t]->setup(1); qs::solver & q=a[t]->get(); q.set_input_variables(in[t]); q.set_output_variables(out[t]); }
    void work(int t){ if(!early) make(t); a[t]->get().solve(*w[t]->mgr,tag[t]); if(!early) a[t].reset(); }
    void seen(dvec & v, std::string &){ for(int t=0;t<2;++t) look(*w[t],*s[t],v); } };
// one configured solver used by both threads, each with its own manager
struct one_solver : duo { const spec * s; int tag; std::unique_ptr<world> w[2]; std::unique_ptr<any> a;
    one_solver(int k, int p, int q, int tg){ s=&specs()[k]; tag=s->tags[tg%s->tags.size()]; w[0].reset(build(p,*s,true)); w[1].reset(build(q,*s,true,0,3)); a.reset(s->make()); std::vector<vid> in,out; names(*w[0],*s,in,out); a->get().set_input_variables(in); a->get().set_output_variables(out); }
    void work(int t){ for(int k=0;k<2;++k) a->get().solve(*w[t]->mgr,tag); } void seen(dvec & v, std::string &){ for(int t=0;t<2;++t) look(*w[t],*s,v); } };
// one manager: the same inputs are read by both, the existing outputs differ
struct one_manager : duo { const spec * s; int tag; std::unique_ptr<world> w; std::unique_ptr<any> a[2];
    one_manager(int k, int p, int tg){ s=&specs()[k]; tag=s->tags[tg%s->tags.size()]; w.reset(build(p,*s,true)); std::vector<vid> in,out,alt; names(*w,*s,in,out); for(size_t i=0;i<s->out.size();++i){ int n=w->add("alt"+std::to_string(i),s->out[i]); w->f[n]=w->f[1+s->in.size()+i]; w->push(n); alt.push_back(w->ids[n]); } for(int t=0;t<2;++t){ a[t].reset(s->make()); if(t) a[t]->setup(1); a[t]->get().set_input_variables(in); a[t]->get().set_output_variables(t?alt:out); } }
    void work(int t){ for(int k=0;k<2;++k) a[t]->get().solve(*w->mgr,tag); } void seen(dvec & v, std::string &){ look(*w,*s,v); } };

// values and managers; those below the line read one object from both threads
struct tgrid : qk::grid::structured { tgrid(const qk::range & r, const double * s, const double * w) : qk::grid::structured(r,s,w){} void write_vtk(std::ofstream &, const qk::basis::basis &) const {} };
static std::string slurp(const std::string & f){ std::ifstream i(f.c_str(),std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
static std::string bounds(const qk::range & r){ std::string s; for(int d=0;d<r.num_dims();++d) s+=std::to_string(r.lower(d))+","+std::to_string(r.upper(d))+","+std::to_string(r.stride(d))+";"; return s; }
static std::string walk(qk::indexer i){ std::string s; for(int n=0;i.exists()&&n<500;++i,++n){ s+=std::to_string(i.linear_index())+":"; for(int d=0;d<i.num_dims();++d) s+=std::to_string(i[d])+","; } return s; }
struct shared_things { std::unique_ptr<world> w[3]; vid id; qk::range box; std::unique_ptr<tgrid> g; std::vector<vid> clones[2]; std::string dir;
    shared_things() : id("shared",comps(2),qk::basis::volume_average()), box(mkrange({0,-1},{3,2})), dir(scratch()) { for(int t=0;t<3;++t){ w[t].reset(new world({0,1},{2,4})); w[t]->add("a",2); w[t]->add("b",1); for(int i=0;i<2;++i){ tag(w[t]->f[i],i+5*t); w[t]->push(i); } } double st[2]={0,1},wd[2]={2,3}; g.reset(new tgrid(mkrange({0,0},{4,3}),st,wd)); } };
static const int OPS=14; static const char * opname[OPS]={"ranges","cursors","storage","subdivision","non-uniform grids","new variables","an unknown variable","exporting","exceptions and identifiers","copies of variables","clones of one identifier","reading one manager","walking one range and grid","exporting one manager"};
static std::string perform(shared_things & x, int o, int t){
    world & w=*x.w[o>=11?2:t]; int e=t+2; ivec z(2,0); std::string r;
    switch(o){
    case 0: { qk::range a=mkrange({0,t},{3,5+t}), b; b=a; b.extrude(0,e); b.expand(0,-1,t); b.shift(1,2); b.set(2,1,3+t); std::ostringstream s; s<<b; return bounds(a)+bounds(b)+s.str()+std::to_string(b.volume())+(b==a?"=":"!"); }
    case 1: { qk::range a=mkrange({0,-t},{3,4}); qk::indexer i(mkrange({1,0},{3,e}),a), j; j=i; ++j; return walk(i)+walk(j)+std::to_string(i.final_linear_index()); }
    case 2: { qk::data::extended_datachunk c,d; c.resize(mkrange({0},{4+t}),mkrange({0,0},{1,2}),2); c.fill(1.5+t); c.multiply_by_scalar(c.internal_range(),2.); d=c; d.fill(c.internal_range(),7.); qk::data::full_copy(d,c); for(int k=0;k<c.volume();++k) r+=std::to_string(c.data()[k])+" "; return r; }
    case 3: { int n[2]={2,t+1}; qk::range_set s(mkrange({0,1},{5,4+t}),n); for(qk::indexer i=s.indexer();i.exists();++i) r+=bounds(s[i]); return r; }
    case 4: { double st[2]={0.5*t,0},wd[2]={1,3}; tgrid g(mkrange({0,2},{4,5+t}),st,wd); g.apply_bias_symmetric(0,2.+t); g.apply_bias_linear(1,1.5); double y[2]; for(qk::indexer i(g,g);i.exists();++i){ g.xc(i,y); r+=std::to_string(y[0])+","+std::to_string(y[1])+" "; } return r; }
    case 5: { for(int k=0;k<4;++k){ vid v("v"+std::to_string(k+t),comps(k+1),qk::basis::volume_average()); auto & f=w.mgr->output_variable(v); chunk(f).fill(k+t); r+=f.name()+std::to_string(chunk(f).volume())+"="+std::to_string(chunk(w.mgr->input_variable(v)).data()[0])+" "; } return r; }
    case 6: try { w.mgr->input_variable(vid("nowhere"+std::to_string(t),comps(2),qk::basis::volume_average())); return "found"; } catch(const qk::exception & q){ return q.what(); }
    case 7: { w.mgr->write_vtk(x.dir+"/t"+std::to_string(t),".vtk",w.ids); return slurp(x.dir+"/t"+std::to_string(t)+".vtk"); }
    case 8: { qk::exception q("text "+std::to_string(t)), p; q<<" and more"; p=q; vid a("n"+std::to_string(t),comps(3),qk::basis::basis("p",2)), b; b=a; r=p.what(); return r+b.name()+std::to_string(b.component_names().size())+(a==b?"=":"!")+(a<b?"<":"-"); }
    case 9: { qk::variable::variable a(w.mgr->input_variable(w.ids[0])), b; b=a; chunk(b).fill(3.+t); w.mgr->output_variable(w.ids[1])=w.mgr->input_variable(w.ids[1]); const auto & c=chunk(a); for(int k=0;k<c.volume();++k) r+=std::to_string(c.data()[k]+chunk(b).data()[k])+" "; return r; }
    case 10: { for(int k=0;k<3;++k) x.clones[t].push_back(k==2?x.clones[t][0].unique_clone():x.id.unique_clone()); return "cloned"; }
    case 11: { for(int k=0;k<2;++k){ const auto & f=w.mgr->input_variable(w.ids[k]); const auto & c=chunk(f); for(int m=0;m<c.volume();++m) r+=std::to_string(c.data()[m])+" "; r+=f.name()+f.basis().name()+std::to_string(f.component_names().size())+bounds(c.internal_range()); } for(int k=0;k<3;++k) r+=w.mgr->output_variable(w.ids[t]).name(); return r+std::to_string(w.mgr->dt()+w.mgr->time()); }
    case 12: { r=walk(qk::indexer(x.box,x.box))+bounds(x.box); double y[2]; for(qk::indexer i(*x.g,*x.g);i.exists();++i){ x.g->xc(i,y); r+=std::to_string(y[0])+","+std::to_string(y[1])+" "; } return r+std::to_string(x.g->start(0)+x.g->width(1)+x.g->dx(0,2)+w.grid->dx(0)+w.grid->centroid(1,2)); }
    default: { w.mgr->write_vtk(x.dir+"/s"+std::to_string(t),".vtk",w.ids); return slurp(x.dir+"/s"+std::to_string(t)+".vtk"); } } }
struct things : duo { shared_things x; int o[2]; std::string r[2]; things(int a, int b){ o[0]=a; o[1]=b; } void work(int t){ r[t]=perform(x,o[t],t); }
    void seen(dvec & v, std::string & s){ s=r[0]+"|"+r[1]; for(int t=0;t<3;++t) for(size_t i=0;i<2;++i){ field f=x.w[t]->f[i]; save(x.w[t]->in((int)i),f); for(double d:f.v) v.push_back(d); } std::set<std::string> n; size_t k=1; n.insert(x.id.name()); for(int t=0;t<2;++t) for(auto & c:x.clones[t]){ n.insert(c.name()); ++k; } v.push_back((double)(k-n.size())); } };

void body(){
    int part=choose(5,"part"), n=(int)specs().size(); auto is_print=[](int k){ return std::string(specs()[k].name)=="print"; };
    switch(part){
    case 0: { int k=choose(n,"first"), j=choose(n,"second"); shard(); int p=choose(3,"problem"); int how=choose(thorough()?3:2,"how"); int q=(p+how)%3; int c=choose(thorough()?2:1,"settings")^(how&1); int tg=thorough()?choose(3,"stage"):(k+j+p)%3; if(is_print(k)&&is_print(j)) return; explore((std::string(specs()[k].name)+" and "+specs()[j].name).c_str(),[=]{ return new two_solvers(k,j,p,q,c,tg,false,how==0); }); break; }
    case 1: { int k=choose(n,"solver"); shard(); int p=choose(3,"problem"), q=choose(3,"other problem"), tg=choose((int)specs()[k].tags.size(),"stage"); if(is_print(k)) return; explore((std::string("one ")+specs()[k].name).c_str(),[=]{ return new one_solver(k,p,q,tg); }); break; }
    case 2: { int k=choose(n,"solver"); shard(); int p=choose(3,"problem"), tg=choose((int)specs()[k].tags.size(),"stage"); if(is_print(k)) return; explore((std::string("one manager, two times ")+specs()[k].name).c_str(),[=]{ return new one_manager(k,p,tg); }); break; }
    case 3: { int k=choose(n,"first"), d=choose(thorough()?n:4,"second"); int j=(k+d)%n; shard(); int p=choose(3,"problem"); if(is_print(k)&&is_print(j)) return; if(specs()[k].ghosts!=specs()[j].ghosts&&p==0) return; explore((std::string(specs()[k].name)+" and "+specs()[j].name+" on one grid").c_str(),[=]{ return new two_solvers(k,j,p,p,1,p,true,false); }); break; }
    default: { int a=choose(OPS,"first"), b=choose(OPS,"second"); shard(); explore((std::string(opname[a])+" and "+opname[b]).c_str(),[=]{ return new things(a,b); }); break; } }
}
