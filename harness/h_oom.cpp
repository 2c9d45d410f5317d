// C31: a library call that runs out of memory raises an exception, touches nothing but its outputs, gives everything back
// and can be repeated.  Every allocation of every call is made to fail.
#include "problems.h"
#include <fstream>
#include <new>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "lib/range_set.h"
#include "grid/structured.h"
#include "basis/face_basis.h"

// ---------------------------------------------------------------- the allocator under the checker's control
namespace mem {
static bool armed=false; static long count=0, first=-1, until=0, held=0; static bool hit=false; // until: -1 every allocation from the first one on fails
struct head { uint32_t magic, mine; uint64_t size; };
static void * get(size_t n){
    if(armed){ long k=count++; if(first>=0&&(k==first||(until<0&&k>=first))){ hit=true; throw std::bad_alloc(); } }
    head * h=(head*)malloc(n+sizeof(head)); if(!h) throw std::bad_alloc(); h->magic=0x51ab; h->mine=armed; h->size=n; if(armed) ++held; return h+1; }
static void put(void * p) noexcept { if(!p) return; head * h=(head*)p-1; if(h->magic!=0x51ab) abort(); h->magic=0xdead; if(h->mine) --held; free(h); }
}
void * operator new(size_t n){ return mem::get(n); }
void * operator new[](size_t n){ return mem::get(n); }
void * operator new(size_t n, const std::nothrow_t &) noexcept { try { return mem::get(n); } catch(...){ return 0; } }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { try { return mem::get(n); } catch(...){ return 0; } }
void operator delete(void * p) noexcept { mem::put(p); }
void operator delete[](void * p) noexcept { mem::put(p); }
void operator delete(void * p, size_t) noexcept { mem::put(p); }
void operator delete[](void * p, size_t) noexcept { mem::put(p); }
void operator delete(void * p, const std::nothrow_t &) noexcept { mem::put(p); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { mem::put(p); }

// a plan of failures: the k-th allocation or all from the k-th on; j: the same for the first repetition
struct plan { long k=-1; bool all=false; long j=-1; };
enum outcome { DONE, REFUSED };
static bool hit; // whether an allocation failed in the last call
template<class F> static outcome under(const plan & p, F f){
    mem::count=0; mem::first=p.k; mem::until=p.all?-1:0; mem::hit=false; mem::armed=true; outcome r=DONE;
    try { f(); } catch(...){ r=REFUSED; } mem::armed=false; hit=mem::hit; return r; }
// Runs one scenario for the failure of every single allocation.  The scenario returns false when its plan did not apply any
// more.  Memory taken inside the library and never given back shows as growth every time the scenario is repeated.
template<class S> static void every(int mode, const char * what, S scenario){
    auto once=[&](const plan & p){ long b=mem::held; bool more=scenario(p); long g=mem::held-b; if(g>0){ bool grows=true; for(int t=0;t<3&&grows;++t){ long c=mem::held; scenario(p); grows= mem::held>c; } if(grows) fail("%s: %ld blocks of memory are lost each time allocation %ld fails",what,g,p.k); } return more; };
    once(plan()); long stride= 1; long n=0;
    for(long k=0;;k+=stride){ plan p; p.k=k; p.all= mode==1; if(mode<2){ trans(1); if(!once(p)) break; } else { bool more=false; for(long j:{0L,1L,2L,5L,k-1,k,k+1,k+2}) if(j>=0){ p.j=j; trans(1); more=once(p); if(!more) break; } if(!more) break; } if(++n>200000) fail("%s does not come to an end",what); }
    op("%s: %ld failing allocations",what,n); state(hasher().add(std::string(what)).add(mode).add((int)n).get());
}

// text goes to a buffer that needs no memory
struct fixedbuf : std::streambuf { char b[1<<16]; fixedbuf(){ clear(); } void clear(){ setp(b,b+sizeof b); } std::string text() const { return std::string(pbase(),pptr()); } };
static fixedbuf & out(){ static fixedbuf b; return b; }
struct to_buffer { std::streambuf * b; to_buffer(){ b=std::cout.rdbuf(&out()); } ~to_buffer(){ std::cout.rdbuf(b); std::cout.clear(); } };
static void warm(){ static bool done=false; if(done) return; done=true; to_buffer t; std::cout<<1.5<<" "<<3<<"x"; out().clear(); } // the C++ library's own caches

// ---------------------------------------------------------------- solvers
static bool known(world & w, int i){ try { const qk::variable::variable & v=w.in(i); check_shape(chunk(v),w.f[i],"field"); return true; } catch(const violation &){ throw; } catch(const std::exception &){ return false; } }
struct result { std::vector<dvec> v; std::string text; };
static bool same(double x, double y){ return same_bits(x,y)||x==y||(std::isnan(x)&&std::isnan(y))||std::fabs(x-y)<=1e-12*(std::fabs(y)+1.); }
static result dump(world & w, const spec & s){ result r; r.text=out().text(); for(size_t i=0;i<w.f.size();++i){ r.v.push_back(dvec()); if(!known(w,(int)i)){ continue; } field f=w.f[i]; w.in((int)i); save(w.in((int)i),f); for_box(f.elo(),f.ehi(),[&](const ivec & x){ int o=f.outside(x); if(o==0||(o==1&&s.ghosts)) for(int c=0;c<f.nc;++c) r.v.back().push_back(f.at(x,0,c)); }); } r.v.push_back({w.mgr->dt(),w.mgr->time()}); return r; }
static void equal(const result & a, const result & e, const char * name, const char * when, bool text=true){ if(text&&a.text!=e.text) fail("%s printed another text %s",name,when); for(size_t i=0;i<e.v.size();++i){ if(a.v[i].size()!=e.v[i].size()) fail("%s: field %zu has %zu values %s instead of %zu",name,i,a.v[i].size(),when,e.v[i].size()); for(size_t k=0;k<e.v[i].size();++k) if(!same(a.v[i][k],e.v[i][k])) fail("%s: value %zu of field %zu is %.17g %s, but %.17g when memory suffices",name,k,i,a.v[i][k],when,e.v[i][k]); } }

static void solving(){
    int k=choose((int)specs().size(),"solver"); const spec & s=specs()[k]; note("solver",s.name); int p=choose(sanitized?2:3,"problem"); if(sanitized) p=p?2:0; bool created=!flag("outputs not there yet"); if(!created&&s.out.empty()) return; int tag=pick<int>("stage",s.tags); int mode=choose(thorough()&&p==0?3:2,"one, all"); int what=choose(3,"failing call"); shard(); warm();
    std::vector<vid> in,o; { std::unique_ptr<world> w(build(p,s,created)); in.assign(w->ids.begin()+1,w->ids.begin()+1+s.in.size()); o.assign(w->ids.begin()+1+s.in.size(),w->ids.end()-1); }
    size_t o0=1+s.in.size(), o1=o0+s.out.size();
    auto request=[&](any & a){ qs::solver & q=a.get(); q.set_input_variables(in); q.set_output_variables(o); };
    result ref; { std::unique_ptr<any> a(s.make()); std::unique_ptr<world> w(build(p,s,created)); a->setup(1); request(*a); to_buffer t; out().clear(); try { a->get().solve(*w->mgr,tag); } catch(const std::exception &){ if(created) fail("%s is refused",s.name); return; } ref=dump(*w,s); }
    every(mode,s.name,[&](const plan & pl){
        std::unique_ptr<world> w(build(p,s,created)); std::vector<field> f0=w->f; std::unique_ptr<any> a; bool fired=false; to_buffer t; outcome r;
        // creating, copying and configuring a solver under pressure, and once more
        if(what==1){ r=under(pl,[&]{ a.reset(s.make()); a->setup(1); request(*a); }); fired=hit; if(r==REFUSED){ if(!hit) fail("%s cannot be set up",s.name); if(!a) a.reset(s.make()); a->setup(1); request(*a); } }
        else { a.reset(s.make()); a->setup(1); request(*a); }
        if(what==2){ std::unique_ptr<any> b; r=under(pl,[&]{ b.reset(a->copy()); }); fired=hit; if(r==REFUSED){ if(!hit) fail("%s cannot be copied",s.name); b.reset(s.make()); request(*b); } plan q=pl; r=under(q,[&]{ b->assign(*a); }); fired=fired||hit; if(r==REFUSED) b->assign(*a); a=std::move(b); }
        out().clear();
        if(what==0){ r=under(pl,[&]{ a->get().solve(*w->mgr,tag); }); fired=hit; }
        else { r=under(plan(),[&]{ a->get().solve(*w->mgr,tag); }); if(r==REFUSED) fail("%s is refused after it was set up again",s.name); }
        if(r==REFUSED){ if(!fired) fail("%s is refused although memory sufficed",s.name);
            for(size_t i=0;i<w->f.size();++i) if(i<o0||i>=o1) w->unchanged((int)i,"after memory ran out");
            if(w->mgr->dt()!=0.03||w->mgr->time()!=0.5) fail("time or step changed");
            for(size_t i=o0;i<o1;++i) if(known(*w,(int)i)){ w->f[i]=f0[i]; w->push((int)i); }
            if(pl.j>=0){ plan q; q.k=pl.j; under(q,[&]{ a->get().solve(*w->mgr,tag); }); for(size_t i=0;i<w->f.size();++i) if(i<o0||i>=o1) w->unchanged((int)i,"after memory ran out twice"); for(size_t i=o0;i<o1;++i) if(known(*w,(int)i)){ w->f[i]=f0[i]; w->push((int)i); } }
            out().clear(); if(under(plan(),[&]{ a->get().solve(*w->mgr,tag); })==REFUSED) fail("%s is refused when it is repeated after memory ran out",s.name); equal(dump(*w,s),ref,s.name,"when repeated after memory ran out"); }
        else equal(dump(*w,s),ref,s.name,fired?"although it returned after an allocation failed":"",!fired);
        return fired; });
}

// The same in a process in which nothing ran before, one per failing allocation: whatever a solver keeps for later calls is
// still missing when memory runs out.  This part comes first; the worker itself runs no solver during it.
static void cold(){
    if(sanitized) return; int k=choose((int)specs().size(),"solver"); const spec & s=specs()[k]; note("solver",s.name); int tag=pick<int>("stage",s.tags); int p=choose(thorough()?3:2,"problem"); int mode=choose(thorough()?2:1,"one, all"); shard();
    static const size_t ROOM=1<<18; static char * m=(char*)mmap(0,ROOM,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); struct info { int done; long allocations; size_t n, numbers; char what[400]; }; info & I=*(info*)m; double * data=(double*)(m+1024);
    auto child=[&](const plan & pl){ memset(&I,0,sizeof I); fflush(0); pid_t c=fork();
        if(c==0){ try { warm(); std::unique_ptr<world> w(build(p,s,true)); size_t o0=1+s.in.size(), o1=o0+s.out.size(); std::vector<vid> in(w->ids.begin()+1,w->ids.begin()+o0), o(w->ids.begin()+o0,w->ids.begin()+o1); std::vector<field> f0=w->f; std::unique_ptr<any> a(s.make()); a->setup(1); a->get().set_input_variables(in); a->get().set_output_variables(o); to_buffer t; out().clear();
                outcome r=under(pl,[&]{ a->get().solve(*w->mgr,tag); }); I.allocations=mem::count; bool fired=hit; if(r==REFUSED&&!fired) fail("%s is refused although memory sufficed",s.name);
                if(r==REFUSED){ for(size_t i=0;i<w->f.size();++i) if(i<o0||i>=o1) w->unchanged((int)i,"after memory ran out"); for(size_t i=o0;i<o1;++i){ w->f[i]=f0[i]; w->push((int)i); } out().clear(); if(under(plan(),[&]{ a->get().solve(*w->mgr,tag); })==REFUSED) fail("%s is refused when it is repeated after memory ran out",s.name); }
                result x=dump(*w,s); if(fired&&r==DONE) x.text=""; for(auto & v:x.v) for(double d:v) data[I.n++]=d; I.numbers=I.n; for(char ch:x.text) data[I.n++]=ch; I.done=1; } catch(const std::exception & e){ snprintf(I.what,sizeof I.what,"%s",e.what()); I.done=2; } _exit(0); }
        int st; waitpid(c,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)||!I.done) fail("%s crashes in a new process when allocation %ld fails (status %d)",s.name,pl.k,st); if(I.done==2) fail("in a new process, allocation %ld failing: %s",pl.k,I.what); };
    child(plan()); long N=I.allocations; size_t numbers=I.numbers; dvec ref(data,data+I.n);
    for(long i=0;i<N;++i){ plan pl; pl.k=i; pl.all=mode; trans(1); child(pl); if(I.n>ref.size()||I.n<numbers) fail("%s: another amount of results after allocation %ld failed in a new process",s.name,i); for(size_t d=0;d<I.n;++d) if(!same(data[d],ref[d])) fail("%s: value %zu is %.17g instead of %.17g after allocation %ld failed in a new process",s.name,d,data[d],ref[d],i); }
    op("%s: %ld failing allocations in new processes",s.name,N); state(hasher().add(k).add(tag).add(p).add((int)N).get());
}

// ---------------------------------------------------------------- the variable manager
static std::string slurp(const std::string & f){ std::ifstream i(f.c_str(),std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
static void registry(){
    int dims=upto("dimensions",1,3); int what=choose(4,"call"); int mode=choose(thorough()?3:2,"one, all"); int name=choose(2,"name"); int nc=pick("components",{1,5,9}); shard(); warm();
    ivec lo{0,-1,2},hi{3,1,4}; lo.resize(dims); hi.resize(dims); std::string nm= name? std::string(60,'n'): "n"; std::string dir=scratch();
    static const char * names[]={"requesting a new variable","requesting an existing variable","exporting","reading a variable"};
    std::string good; if(what==2){ world w(lo,hi); w.add("a",2); w.add(nm,nc); for(int i=0;i<2;++i){ tag(w.f[i],i); w.push(i); } w.mgr->write_vtk(dir+"/f",".vtk",w.ids); good=slurp(dir+"/f.vtk"); }
    every(mode,names[what],[&](const plan & pl){
        world w(lo,hi); w.add("a",2); if(what) w.add(nm,nc); w.add("z",1); for(size_t i=0;i<w.f.size();++i){ tag(w.f[i],(int)i); w.push((int)i); } vid id(nm,comps(nc),qk::basis::volume_average()); field f(lo,hi,2,1,nc); bool fired=false; outcome r=DONE;
        auto rest=[&](const char * when){ for(size_t i=0;i<w.f.size();++i) w.unchanged((int)i,when); };
        if(what==0){ r=under(pl,[&]{ w.mgr->output_variable(id); }); fired=hit; rest("after a request that ran out of memory");
            if(r==DONE) expect_same(w.mgr->input_variable(id),f,"new variable");
            else { if(!fired) fail("request refused although memory sufficed"); bool there=false; try { const qk::variable::variable & v=w.mgr->input_variable(id); there=true; expect_same(v,f,"variable whose creation ran out of memory"); } catch(const violation &){ throw; } catch(const std::exception &){ if(there) throw; }
                remove((dir+"/h.vtk").c_str()); bool wrote=false; try { w.mgr->write_vtk(dir+"/h",".vtk",{id}); wrote=true; } catch(const std::exception &){} if(wrote!=there) fail("a variable that %s can%s be exported",there?"exists":"does not exist",wrote?"":"not");
                qk::variable::variable & v=w.mgr->output_variable(id); expect_same(v,f,"variable requested again"); if(v.name()!=nm||v.component_names()!=comps(nc)) fail("variable requested again has another name"); if(&v!=&w.mgr->output_variable(id)||&v!=&w.mgr->input_variable(id)) fail("requested twice, got two variables"); tag(f,7); load(v,f); expect_same(w.mgr->input_variable(id),f,"variable requested again"); rest("after the repeated request"); } }
        if(what==1){ const qk::variable::variable * v=0; r=under(pl,[&]{ v=&w.mgr->output_variable(w.ids[1]); }); fired=hit; if(r==DONE){ if(v!=&w.mgr->input_variable(w.ids[1])) fail("another variable"); } else if(!fired) fail("refused although memory sufficed"); rest("after a request that ran out of memory"); }
        if(what==2){ std::vector<vid> l(w.ids.begin(),w.ids.begin()+2); remove((dir+"/g.vtk").c_str()); std::string pre=dir+"/g", suf=".vtk"; r=under(pl,[&]{ w.mgr->write_vtk(pre,suf,l); }); fired=hit; if(r==DONE&&!fired){ if(slurp(dir+"/g.vtk")!=good) fail("the file differs"); } else { if(!fired) fail("export refused although memory sufficed"); w.mgr->write_vtk(pre,suf,l); if(slurp(dir+"/g.vtk")!=good) fail("the repeated export differs"); } rest("after an export that ran out of memory"); }
        if(what==3){ r=under(pl,[&]{ w.mgr->input_variable(w.ids[1]); }); fired=hit; if(r==REFUSED&&!fired) fail("refused although memory sufficed"); outcome q=under(pl,[&]{ w.mgr->input_variable(id.unique_clone()); }); fired=fired||hit; if(q==DONE) fail("a clone of an identifier is a variable"); rest("after reading"); bool no=throws([&]{ w.mgr->input_variable(vid("nowhere",comps(2),qk::basis::volume_average())); }); if(!no) fail("unknown variable accepted"); }
        return fired; });
}

// ---------------------------------------------------------------- values: copies, assignments, set-ups
static std::string show_range(const qk::range & r){ std::ostringstream o; o<<r.num_dims()<<":"; for(int d=0;d<r.num_dims();++d) o<<r.lower(d)<<","<<r.upper(d)<<","<<r.stride(d)<<";"; o<<r.volume(); return o.str(); }
static std::string show_chunk(const qk::data::extended_datachunk & c){ std::ostringstream o; o.precision(17); o<<show_range(c.range())<<"|"<<c.num_ghost_layers()<<"|"<<show_range(c.internal_range()); for(int d=0;d<c.num_dims()-2;++d) o<<show_range(c.lower_internal_range(d))<<show_range(c.upper_internal_range(d))<<show_range(c.lower_external_range(d))<<show_range(c.upper_external_range(d)); return o.str(); }
static std::string show_data(const qk::data::datachunk & c){ std::ostringstream o; o.precision(17); for(int i=0;i<c.volume();++i) o<<c.data()[i]<<" "; return o.str(); }
static std::string show_walk(qk::indexer i){ std::ostringstream o; o<<show_range(i)<<"|"; int n=0; for(;i.exists()&&n<1000;++i,++n){ o<<i.linear_index()<<":"; for(int d=0;d<i.num_dims();++d) o<<i[d]<<","; } return o.str(); }
static std::string show_var(const qk::variable::variable & v){ std::string s=v.name()+"/"+v.basis().name(); for(auto & c:v.component_names()) s+=","+c; return s+show_chunk(chunk(v))+show_data(chunk(v)); }
struct sgrid : qk::grid::structured { sgrid(){} sgrid(const qk::range & r, const double * s, const double * w) : qk::grid::structured(r,s,w){} void write_vtk(std::ofstream &, const qk::basis::basis &) const {} };
static std::string show_grid(const qk::grid::structured & g){ std::ostringstream o; o.precision(14); o<<show_range(g); for(int d=0;d<g.num_dims();++d) for(int i=g.lower(d);i<g.upper(d);++i) o<<g.centroid(d,i)<<","; qk::indexer i(g,g); double x[8]; for(;i.exists();++i){ g.xc(i,x); for(int d=0;d<g.num_dims();++d) o<<x[d]<<" "; } return o.str(); }
static std::string show_rect(const qk::grid::rectilinear & g){ std::ostringstream o; o.precision(14); o<<show_range(g); for(int d=0;d<g.num_dims();++d) o<<g.dx(d)<<":"<<g.centroid(d,g.lower(d))<<","; return o.str(); }
static std::string show_set(const qk::range_set & s){ std::string r=show_range(s.range()); for(qk::indexer i=s.indexer();i.exists();++i) r+=show_range(s[i]); return r; }

// act runs under pressure on a fresh object; when it was refused it is repeated on the same object, or the object is replaced
// by another value first, or destroyed; whatever else took part must be as before
template<class T, class M, class A, class S> static void value(const char * name, int mode, int after, M make, A act, S show, std::function<std::string()> rest=[]{ return std::string(); }, std::function<void(T&)> other=[](T &){}){
    op("%s",name); std::string expect, others=rest(); { std::unique_ptr<T> a(make()); act(*a); expect=show(*a); }
    every(mode,name,[&](const plan & p){ std::unique_ptr<T> a(make()); outcome r=under(p,[&]{ act(*a); }); bool fired=hit; if(rest()!=others) fail("%s: something else changed",name);
        if(r==DONE){ if(show(*a)!=expect) fail("%s: wrong value%s",name,fired?" although it returned after an allocation failed":""); return fired; } if(!fired) fail("%s: refused although memory sufficed",name);
        if(after==2) return true; if(after==1) other(*a); if(p.j>=0){ plan q; q.k=p.j; under(q,[&]{ act(*a); }); } act(*a); if(show(*a)!=expect) fail("%s: wrong value when repeated after memory ran out",name); return true; });
}
struct shape { ivec lo,hi; int g,np,nc; };
static void values(){
    static const std::vector<shape> S={ {{0},{3},2,1,1}, {{-1,3},{1,5},1,2,3}, {{0,1,0},{2,2,2},0,1,2}, {{0},{7},2,1,5}, {{0,0},{2,2},2,1,5} };
    int what=choose(12,"value"); int i=choose((int)S.size(),"old"), j=choose((int)S.size(),"new"); int mode=choose(thorough()?3:2,"one, all"); int after=choose(3,"afterwards"); shard(); warm(); const shape & A=S[i], & B=S[j];
    qk::range ra=mkrange(A.lo,A.hi), rb=mkrange(B.lo,B.hi); typedef qk::data::extended_datachunk ch; typedef qk::variable::variable var;
    auto mkchunk=[](const shape & s, int salt){ ch * c=new ch; c->resize(mkrange(s.lo,s.hi),mkrange({0,0},{s.np,s.nc}),s.g); for(int k=0;k<c->volume();++k) c->data()[k]=tagval(k,salt); return c; };
    auto mkvar=[](const shape & s, const std::string & n){ var * v=new var(n,comps(s.nc),qk::basis::basis("p",s.np),mkrange(s.lo,s.hi),s.g); ch & c=chunk(*v); for(int k=0;k<c.volume();++k) c.data()[k]=tagval(k,s.nc); return v; };
    auto full=[](const ch & c){ return show_chunk(c)+show_data(c); };
    dvec st{-0.5,1,2}, wd{1,2,0.7}; st.resize(B.lo.size()); wd.resize(B.lo.size());
    switch(what){
    case 0: value<qk::range>("range = range",mode,after,[&]{ return new qk::range(ra); },[&](qk::range & r){ r=rb; },show_range,[&]{ return show_range(rb); },[&](qk::range & r){ r=ra; }); break;
    case 1: value<qk::indexer>("cursor = cursor",mode,after,[&]{ return new qk::indexer(ra,ra); },[&](qk::indexer & x){ x=qk::indexer(rb,rb); },show_walk); break;
    case 2: { std::unique_ptr<ch> b(mkchunk(B,3)); value<ch>("block = block",mode,after,[&]{ return mkchunk(A,5); },[&](ch & c){ c=*b; },full,[&]{ return full(*b); },[&](ch & c){ std::unique_ptr<ch> o(mkchunk(A,9)); c=*o; }); break; }
    case 3: { std::unique_ptr<ch> b(mkchunk(B,3)); value<std::vector<ch>>("copy of a block",mode,after,[&]{ return new std::vector<ch>; },[&](std::vector<ch> & v){ ch c(*b); v.assign(1,c); },[&](const std::vector<ch> & v){ return full(v.at(0)); },[&]{ return full(*b); }); break; }
    case 4: value<ch>("resizing a block",mode,after,[&]{ return mkchunk(A,5); },[&](ch & c){ c.resize(rb,mkrange({0,0},{B.np,B.nc}),B.g); },show_chunk,[]{ return std::string(); },[&](ch & c){ c.resize(ra,mkrange({0,0},{A.np,A.nc}),A.g); }); break;
    case 5: { std::unique_ptr<var> b(mkvar(B,"b")); value<var>("variable = variable",mode,after,[&]{ return mkvar(A,std::string(40,'a')); },[&](var & v){ v=*b; },show_var,[&]{ return show_var(*b); },[&](var & v){ std::unique_ptr<var> o(mkvar(A,"o")); v=*o; }); break; }
    case 6: { std::unique_ptr<var> b(mkvar(B,std::string(30,'b'))); value<std::unique_ptr<var>>("copy of a variable",mode,after,[&]{ return new std::unique_ptr<var>; },[&](std::unique_ptr<var> & v){ v.reset(new var(*b)); },[](const std::unique_ptr<var> & v){ return show_var(*v); },[&]{ return show_var(*b); }); break; }
    case 7: { ivec n(A.lo.size(),2), m(B.lo.size(),2); value<qk::range_set>("subdividing",mode,after,[&]{ return new qk::range_set(ra,n.data()); },[&](qk::range_set & s){ s.setup(rb,m.data()); },show_set,[&]{ return show_range(rb); },[&](qk::range_set & s){ s.setup(ra,n.data()); }); break; }
    case 8: { if(i) return; value<std::unique_ptr<qk::grid::rectilinear>>("creating and copying a uniform grid",mode,after,[]{ return new std::unique_ptr<qk::grid::rectilinear>; },[&](std::unique_ptr<qk::grid::rectilinear> & g){ qk::grid::rectilinear t(rb,st.data(),wd.data()); g.reset(new qk::grid::rectilinear(t)); qk::grid::rectilinear u; u=t; *g=u; },[](const std::unique_ptr<qk::grid::rectilinear> & g){ return show_rect(*g); }); break; }
    case 9: { if(i) return; value<std::unique_ptr<sgrid>>("creating, biasing and copying a non-uniform grid",mode,after,[]{ return new std::unique_ptr<sgrid>; },[&](std::unique_ptr<sgrid> & g){ sgrid t(rb,st.data(),wd.data()); t.apply_bias_linear(0,2.); int l=(int)B.lo.size()-1; if((B.hi[l]-B.lo[l])%2==0) t.apply_bias_symmetric(l,3.); g.reset(new sgrid(t)); sgrid u; u=t; *g=u; },[](const std::unique_ptr<sgrid> & g){ return show_grid(*g); }); break; }
    case 10: { if(i) return; std::unique_ptr<ch> b(mkchunk(B,3)); qk::range in=b->internal_range(), un=b->range(); qk::range none=in; none.set(0,in.upper(0)+50,in.upper(0)+51); value<ch>("fill, scale, pull and copy blocks",mode,2,[&]{ return mkchunk(B,5); },[&](ch & c){ c.fill(in,2.); c.multiply_by_scalar(in,1.5); c.pull(*b,in,in); qk::data::copy_to(*b,in,c,in); qk::data::full_copy(*b,c); bool no=false; try { c.fill(none,1.); } catch(const qk::exception &){ no=true; } if(!no) fail("range outside accepted"); },full,[&]{ return full(*b); }); break; }
    case 11: { if(i||j>2) return; std::string t(j*40+1,'t'); value<std::string>("exceptions",mode,after,[]{ return new std::string; },[&](std::string & s){ qk::exception e(t); e<<"more text that does not fit into a short string"; qk::exception f(e), g; g=f; s=g.what(); vid v("name that is long enough to be allocated",comps(4),qk::basis::face_basis()), u; u=v; vid w=u.unique_clone(), x=w.unique_clone(); bool same= w.name()==u.name()||x.name()==w.name(); s+=same?" clones without a name of their own":" clones"; },[](const std::string & s){ return s; }); break; }
    }
}
void body(){ switch(choose(4,"part")){ case 0: cold(); break; case 1: solving(); break; case 2: registry(); break; case 3: values(); break; } }
