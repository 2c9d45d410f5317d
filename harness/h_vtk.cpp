// C17, C18: exported files.  C18 injects faults below the stream: every file size limit, and every
// failing, interrupted or short write call.
#include "num.h"
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <dlfcn.h>
#include <fstream>
#include <locale>
#include <thread>
#include <iostream>
#include <iomanip>
#include <cfenv>
using namespace mc; using namespace ref;

// ---------------------------------------------------------------- interposed system calls
namespace inj {
static bool on=false; static int calls=0; struct fault { int at; int kind; }; static std::vector<fault> plan; static int hits=0;
// kinds: 0 ENOSPC, 1 EIO, 2 one EINTR, 3 three EINTR in a row, 4.. short writes
static int repeat=0;
static long decide(long n, int & err){ // returns -2: pass on; -1: fail with err; otherwise shortened length
    int k=calls;
    for(auto & f:plan) if(f.at==k){
        if(f.kind==0){ calls++; hits++; err=ENOSPC; return -1; }
        if(f.kind==1){ calls++; hits++; err=EIO; return -1; }
        if(f.kind==2||f.kind==3){ int lim=f.kind==2?1:3; if(repeat<lim){ repeat++; hits++; err=EINTR; return -1; } repeat=0; calls++; return -2; }
        long s= f.kind==4? 1: f.kind==5? n/2 : n-1; calls++; if(s<=0||s>=n) return -2; hits++; return s;
    }
    calls++; return -2;
}
}
extern "C" ssize_t write(int fd, const void * b, size_t n){
    static ssize_t (*real)(int,const void*,size_t)=0; if(!real) real=(ssize_t(*)(int,const void*,size_t))dlsym(RTLD_NEXT,"write");
    if(inj::on&&fd>2){ int e=0; long d=inj::decide((long)n,e); if(d==-1){ errno=e; return -1; } if(d>=0) n=(size_t)d; }
    return real(fd,b,n);
}
extern "C" ssize_t writev(int fd, const struct iovec * v, int c){
    static ssize_t (*real)(int,const struct iovec*,int)=0; if(!real) real=(ssize_t(*)(int,const struct iovec*,int))dlsym(RTLD_NEXT,"writev");
    if(inj::on&&fd>2){ size_t n=0; for(int i=0;i<c;++i) n+=v[i].iov_len; int e=0; long d=inj::decide((long)n,e); if(d==-1){ errno=e; return -1; }
        if(d>=0){ std::vector<struct iovec> w; size_t left=d; for(int i=0;i<c&&left;++i){ struct iovec x=v[i]; if(x.iov_len>left) x.iov_len=left; left-=x.iov_len; w.push_back(x); } return real(fd,w.data(),(int)w.size()); } }
    return real(fd,v,c);
}

// ---------------------------------------------------------------- reading a file
static std::string slurp(const std::string & p, bool * exists=0){ std::ifstream f(p.c_str(),std::ios::binary); if(exists) *exists=(bool)f; std::stringstream s; s<<f.rdbuf(); return s.str(); }
static void check_file(const std::string & text, const world & w, const std::vector<int> & list){
    std::istringstream s(text); std::string line,t; std::getline(s,line); if(line.compare(0,22,"# vtk DataFile Version")) fail("file does not start like a VTK file: %s",line.substr(0,40).c_str()); std::getline(s,line); // title
    if(!(s>>t)||t!="ASCII") fail("not an ASCII file: %s",t.c_str());
    int n=w.nd(); long dims[3]={0,0,0}; double org[3],sp[3]; bool hd=false,ho=false,hs=false; if(!(s>>t)||t!="DATASET"||!(s>>t)||t!="STRUCTURED_POINTS") fail("not structured points: %s",t.c_str());
    auto num=[&](const char * what){ if(!(s>>t)) fail("file ends in %s",what); char * e; double v=strtod(t.c_str(),&e); if(*e||e==t.c_str()) fail("'%s' is not a number in %s",t.c_str(),what); return v; };
    while(s>>t){ if(t=="DIMENSIONS"){ hd=true; for(int i=0;i<3;++i) dims[i]=(long)num("dimensions"); } else if(t=="ORIGIN"){ ho=true; for(int i=0;i<3;++i) org[i]=num("origin"); } else if(t=="SPACING"||t=="ASPECT_RATIO"){ hs=true; for(int i=0;i<3;++i) sp[i]=num("spacing"); } else break; }
    if(!hd||!ho||!hs) fail("mesh description incomplete"); if(t!="CELL_DATA") fail("'%s' instead of cell data",t.c_str()); long cells=(long)num("cell count");
    size_t want=1; for(int d=0;d<n;++d) want*=w.hi[d]-w.lo[d]; if((size_t)cells!=want) fail("%ld cells instead of %zu",cells,want); size_t pc=1; for(int d=0;d<3;++d) pc*= dims[d]>1?dims[d]-1:1; if(pc!=want) fail("point dimensions give %zu cells instead of %zu",pc,want);
    for(int d=0;d<3;++d){ if(d>=n){ if(dims[d]!=1) fail("dimension %d has %ld points",d,dims[d]); continue; } int L=w.hi[d]-w.lo[d]; if(dims[d]!=L+1) fail("dimension %d has %ld points instead of %d",d,dims[d],L+1); double tol=1e-13*(std::fabs(w.start[d])+std::fabs(w.width[d])); for(int i=0;i<L;++i){ double c=org[d]+(i+0.5)*sp[d], x=w.grid->centroid(d,w.lo[d]+i); if(!(std::fabs(c-x)<=tol)) fail("centre of cell %d along dimension %d is %.17g in the file, %.17g in the grid",i,d,c,x); } if(!(std::fabs(sp[d]*L-w.width[d])<=tol)) fail("spacing %.17g in dimension %d",sp[d],d); if(!(std::fabs(org[d]-w.start[d])<=tol)) fail("origin %.17g in dimension %d",org[d],d); }
    for(int v:list){ const field & f=w.f[v]; for(int c=0;c<f.nc;++c){ std::string name=w.ids[v].name()+"."+w.ids[v].component_names()[c]; if(!(s>>t)) fail("file ends before block %s",name.c_str()); if(t!="SCALARS") fail("'%s' instead of block %s (too many or too few values before?)",t.c_str(),name.c_str()); s>>t; if(t!=name) fail("block %s instead of %s",t.c_str(),name.c_str()); std::getline(s,line); { std::istringstream l(line); std::string ty; int k=1; l>>ty; if(ty!="float"&&ty!="double") fail("block type %s",ty.c_str()); if(l>>k&&k!=1) fail("%d components in one block",k); } s>>t; if(t!="LOOKUP_TABLE") fail("'%s' instead of a lookup table",t.c_str()); s>>t;
        ivec x(n); // first dimension fastest
        for(size_t i=0;i<want;++i){ size_t r=i; for(int d=0;d<n;++d){ int L=w.hi[d]-w.lo[d]; x[d]=w.lo[d]+(int)(r%L); r/=L; } double v=num(name.c_str()), e=f.at(x,0,c); if(!(v==e||(std::isinf(v)&&std::isinf(e)&&v*e>0)||std::fabs(v-e)<=5e-15*std::fabs(e))) fail("block %s, cell %s holds %.17g instead of %.17g",name.c_str(),show(x).c_str(),v,e); } } }
    if(s>>t) fail("'%s' after the last block",t.c_str());
}
static const double VV[]={0.,1.,-2.5,1./3,-1e-9,6.02214076e23,3.14159265358979312,1e-300,-7e250,0.1,123456789.123456789,-0.,1e-305,-2.2250738585072014e-308,1.5e308,-1e-17,4.9e15};
static const int NV=sizeof VV/sizeof VV[0];
static void values(field & f, int salt, int mode){ for(size_t i=0;i<f.v.size();++i) f.v[i]= mode==0? tagval(i,salt)/3 : VV[(i*(salt+1)+salt)%NV]; for_box(f.elo(),f.ehi(),[&](const ivec & x){ if(f.outside(x)) for(int p=0;p<f.np;++p) for(int c=0;c<f.nc;++c) f.at(x,p,c)=777000+c; }); }
static void all(world & w, const char * when){ for(size_t i=0;i<w.f.size();++i) w.unchanged((int)i,when); }
static std::vector<vid> idlist(world & w, const ivec & l){ std::vector<vid> r; for(int i:l) r.push_back(w.ids[i]); return r; }
static int open_files(){ int n=0; for(int i=0;i<512;++i) if(fcntl(i,F_GETFD)!=-1) ++n; return n; }
// what the program's own conventions for numbers may be while it exports
struct convention : std::numpunct<char> { char point, sep; std::string groups; convention(char p, char s, const std::string & g) : point(p), sep(s), groups(g) {} char do_decimal_point() const { return point; } char do_thousands_sep() const { return sep; } std::string do_grouping() const { return groups; } };
struct conventions { std::locale old; conventions(int k) : old() { if(k) std::locale::global(std::locale(std::locale::classic(),k==1?new convention(',','.',""):k==2?new convention(',','.',"\3"):k==3?new convention('.',',',"\3"):new convention(';',' ',"\1"))); } ~conventions(){ std::locale::global(old); } };
static void remove_all(const std::string & p){ ::unlink(p.c_str()); }

static void c17(){
    int part=choose(6,"part"); std::string out=scratch()+"/frame_0.vtk";
    if(part==5){ // many variables and components
        int n=upto("dims",1,3); int nv=pick<int>("variables",{2,8,9,12,20,40}); int nc=pick<int>("components",{1,2,9,33}); shard(); int pat=choose(3,"order"); ivec lo(n,0),hi(n,2); hi[0]=3; world w(lo,hi); ivec l; for(int i=0;i<nv;++i){ w.add("v"+std::to_string(pat==2?nv-i:i),i%3==1?1:nc); values(w.f[i],i,(i+pat)%2); w.push(i); l.push_back(i); } if(pat==1) std::reverse(l.begin(),l.end()); remove_all(out); op("write_vtk of %d variables",nv); w.mgr->write_vtk(out,"",idlist(w,l)); check_file(slurp(out),w,l); all(w,"after export"); track(w); return; }
    if(part==0){ // meshes
        int n=upto("dims",1,3); ivec lo,hi; int low=choose(n==3?3:5,"lower"); for(int d=0;d<n;++d){ int l=low==3?-777-d:low==4?4001+d:low==0?0:low==1?-3+2*d:9; lo.push_back(l); hi.push_back(l+pick<int>("len",n==1?ivec{1,2,3,5,40,700}:n==2?ivec{1,2,3,7,30}:ivec{1,2,3,5})); } int nc=pick<int>("components",{1,2,5}); shard(); int geo=choose(4,"geometry"); int mode=choose(2,"values");
        dvec st,wd; for(int d=0;d<n;++d){ st.push_back(geo==0?0: geo==1?-0.5: geo==2? 1e3+d/3.: -1./3*(d+1)); wd.push_back(geo==0?hi[d]-lo[d]: geo==1?1: geo==2? 1e-4/(d+3): 22./7*(d+1)); } world w(lo,hi,st,wd); w.add("field",nc); values(w.f[0],1,mode); w.push(0); remove_all(out); op("write_vtk"); w.mgr->write_vtk(scratch()+"/frame","_0.vtk",idlist(w,{0})); bool ex; std::string t=slurp(out,&ex); if(!ex) fail("no file"); check_file(t,w,{0}); all(w,"after export"); track(w);
    } else if(part==1){ // lists of variables with different components
        int n=upto("dims",1,3); ivec lo(n,-1),hi(n,1); hi[0]=2; world w(lo,hi); w.add("a",1); w.add("b",3); w.add("c",5); w.add("d",1); for(int i=0;i<4;++i){ values(w.f[i],i,i%2); w.push(i); }
        int len=pick<int>("list length",thorough()?ivec{1,2,3,4,5,9,17,33,100}:ivec{1,2,3,5,9,17,33,100}); int many=thorough()?5:3; ivec l; if(len<=many) for(int i=0;i<len;++i) l.push_back(choose(4,"variable")); else { int st=upto("stride",0,4); for(int i=0;i<len;++i) l.push_back((i*st+i/4)%4); } shard(); remove_all(out); op("write_vtk %s",show(l).c_str()); w.mgr->write_vtk(scratch()+"/fra","me_0.vtk",idlist(w,l)); check_file(slurp(out),w,l); all(w,"after export"); track(w);
    } else if(part==2){ // overwriting, changing data in between, several files
        ivec lo={0,3},hi={2,5}; world w(lo,hi,{0.,0.},{1.,3.}); w.add("a",2); w.add("b",1); for(int i=0;i<2;++i){ values(w.f[i],i,0); w.push(i); } ivec lists[4]={{0},{1},{0,1},{1,0,0}}; std::string p[2]={scratch()+"/x.vtk",scratch()+"/y.vtk"}; std::string last[2]; for(auto & q:p) remove_all(q); int depth=thorough()?6:5;
        for(int s=0;s<depth;++s){ int o=choose(5,"operation"); if(s==1) shard(); if(o<4){ int f= s%2; op("export list %d to file %d",o,f); w.mgr->write_vtk(p[f],"",idlist(w,lists[o])); last[f]=slurp(p[f]); check_file(last[f],w,lists[o]); if(!last[1-f].empty()&&slurp(p[1-f])!=last[1-f]) fail("exporting one file changed another"); } else { op("change data"); for(int i=0;i<2;++i){ for(auto & v:w.f[i].v) v=v*-1.5+s; w.push(i); } } all(w,"after the operation"); track(w); hasher h; h.add(last[0]).add(last[1]); state(h.get()); }
    } else if(part==3){ // refusals
        int n=upto("dims",1,3); ivec lo(n,0),hi(n,2); world w(lo,hi); w.add("a",1); w.add("b",2); w.add("p",1,2,3); w.add("p2",1,2,2); for(int i=0;i<4;++i){ values(w.f[i],i,0); w.push(i); } vid unknown("nobody",comps(1),qk::basis::volume_average()), face("a",comps(1),qk::basis::basis("points3",3));
        int len=upto("list length",1,3); std::vector<vid> l; bool bad=false; ivec good; for(int i=0;i<len;++i){ int k=choose(6,"entry"); if(k<4) l.push_back(w.ids[k]); else l.push_back(k==4?unknown:face); if(k>=2) bad=true; good.push_back(k); } shard(); remove_all(out); op("write_vtk %s",show(good).c_str()); bool t=throws([&]{ w.mgr->write_vtk(out,"",l); }); if(bad&&!t) fail("export of an unknown variable or of mixed or unsupported bases accepted"); if(!bad&&t) fail("correct export refused"); if(!bad) check_file(slurp(out),w,good); all(w,"after the request"); if(!throws([&]{ w.mgr->input_variable(unknown); })) fail("export created a variable");
        op("correct export afterwards"); w.mgr->write_vtk(out,"",idlist(w,{1,0})); check_file(slurp(out),w,{1,0}); track(w); hasher h; h.add(good); state(h.get());
    } else { // names and values
        int v=choose(NV,"value"); int nm=choose(7,"name"); shard(); int n=upto("dims",1,3); ivec lo(n,0),hi(n,2); world w(lo,hi); static const char * N[]={"q","a_very_long_variable_name_0123456789","X-1","rho"}; std::string nam=nm<4?N[nm]:std::string(nm==4?65:nm==5?130:700,'n')+"_end"; vid id(nam,{"first","b.c",nm>4?std::string(300,'c')+"_end":"z9"},qk::basis::volume_average()); w.mgr->output_variable(id); w.ids.push_back(id); w.f.push_back(field(lo,hi,2,1,3)); for(auto & x:w.f[0].v) x=VV[v]; size_t k=choose(8,"cell"); if(k<w.f[0].cells()){ size_t i=0; for_box(lo,hi,[&](const ivec & x){ if(i++==k) for(int c=0;c<3;++c) w.f[0].at(x,0,c)=-1./7*(c+1); }); } w.push(0); w.mgr->set_time(1e9); op("write_vtk"); w.mgr->write_vtk(out,"",{id}); check_file(slurp(out),w,{0}); all(w,"after export"); track(w);
    }
}

// ---------------------------------------------------------------- faults
static void make(world & w, int size){ w.add("a",size<2?1:2); w.add("b",1); for(int i=0;i<2;++i){ values(w.f[i],i,1); w.push(i); } }
static std::unique_ptr<world> mkworld(int size){ std::unique_ptr<world> w; if(size==0) w.reset(new world({0},{2})); else if(size==1) w.reset(new world({-1,0},{4,7})); else if(size==2) w.reset(new world({0,0},{22,20})); else w.reset(new world({0,0,0},{14,12,11})); make(*w,size); return w; }
static std::string reference_text(int size){ static std::map<int,std::string> cache; auto i=cache.find(size); if(i!=cache.end()) return i->second; auto w=mkworld(size); std::string p=scratch()+"/ref.vtk"; w->mgr->write_vtk(p,"",idlist(*w,{0,1})); std::string t=slurp(p); check_file(t,*w,{0,1}); remove_all(p); return cache[size]=t; }
template<class F> static void attempt(world & w, const std::string & p, const std::string & want, bool mustthrow, F around){
    int files=open_files(); bool t; { auto restore=around(); t=throws([&]{ w.mgr->write_vtk(p,"",idlist(w,{0,1})); }); restore(); } if(open_files()!=files) fail("the export left a file open");
    if(!t){ std::string got=slurp(p); if(got!=want) fail("export returned normally but the file has %zu of %zu bytes%s",got.size(),want.size(),got.size()==want.size()?" with wrong contents":""); if(mustthrow) fail("export returned normally although a write failed"); }
    all(w,"after the faulty export"); trans(1);
    hasher h; h.add(t?1:0).add(slurp(p)); state(h.get());
    remove_all(p); op("export again without fault"); w.mgr->write_vtk(p,"",idlist(w,{0,1})); if(slurp(p)!=want) fail("export after a failed one is not complete"); remove_all(p);
}
static void limited(){ // file size limit at every byte
    int size=choose(thorough()?4:3,"size"); std::string want=reference_text(size); int N=(int)want.size(); int step= size<2?1: size==2?(thorough()?1:5):37; int hi=choose((N+step*64)/(step*64)+1,"block"); shard(); int k=(hi*64+choose(64,"offset"))*step; bool old=flag("file exists"); if(k>N+2*step){ return; }
    auto w=mkworld(size); std::string p=scratch()+"/lim.vtk"; remove_all(p); if(old){ std::ofstream f(p.c_str()); for(int i=0;i<20;++i) f<<"old contents "<<i<<"\n"; }
    op("limit the file to %d of %d bytes",k,N); attempt(*w,p,want,k<N,[&]{ struct rlimit r; getrlimit(RLIMIT_FSIZE,&r); rlim_t o=r.rlim_cur; r.rlim_cur=k; setrlimit(RLIMIT_FSIZE,&r); return [o]{ struct rlimit r; getrlimit(RLIMIT_FSIZE,&r); r.rlim_cur=o; setrlimit(RLIMIT_FSIZE,&r); }; });
}
static void calls(){ // every combination of up to two faulty write calls
    int size=choose(thorough()?4:3,"size"); std::string want=reference_text(size); auto w=mkworld(size); std::string p=scratch()+"/call.vtk"; remove_all(p);
    inj::plan.clear(); inj::calls=0; inj::on=true; w->mgr->write_vtk(p,"",idlist(*w,{0,1})); inj::on=false; int n=inj::calls; if(n<1) n=1; remove_all(p);
    int a=choose(n,"call"); int ka=choose(7,"fault"); shard(); int b=choose(n+2,"second call"); int kb= b>=n+1? 0: choose(7,"second fault");
    inj::plan.clear(); inj::plan.push_back({a,ka}); if(b<=n&&b!=a) inj::plan.push_back({b,kb}); bool must=false;
    op("write call %d of %d: fault %d; call %d: fault %d",a,n,ka,b,kb);
    attempt(*w,p,want,must,[&]{ inj::calls=0; inj::hits=0; inj::repeat=0; inj::on=true; return []{ inj::on=false; }; });
    // only interruptions and short writes: must succeed
    bool benign=true; for(auto & f:inj::plan) if(f.kind<2) benign=false;
    if(benign){ inj::calls=0; inj::repeat=0; inj::on=true; bool t=throws([&]{ w->mgr->write_vtk(p,"",idlist(*w,{0,1})); }); inj::on=false; if(t) fail("interrupted or short writes made the export fail"); if(slurp(p)!=want) fail("interrupted or short writes corrupted the file"); remove_all(p); }
    inj::plan.clear();
}
static void targets(){ // places that cannot be written
    int size=choose(3,"size"); int k=choose(7,"target"); shard(); auto w=mkworld(size); std::string want=reference_text(size); std::string p; std::string dir=scratch()+"/d"; ::mkdir(dir.c_str(),0755);
    if(k==0) p=scratch()+"/missing/x.vtk"; else if(k==1) p=dir; else if(k==2){ p=scratch()+"/full"; ::unlink(p.c_str()); if(symlink("/dev/full",p.c_str())) return; } else if(k==3){ p=scratch()+"/loop"; ::unlink(p.c_str()); if(symlink(p.c_str(),p.c_str())) return; } else if(k==4) p=scratch()+"/"+std::string(300,'n'); else if(k==5) p=""; else p=scratch()+"/none.vtk";
    for(int r=0;r<2;++r){ op("export to a place that cannot be written (%d)",k); int files=open_files(); struct rlimit lim; getrlimit(RLIMIT_NOFILE,&lim); if(k==6){ int top=0; while(fcntl(top,F_GETFD)!=-1) ++top; struct rlimit none=lim; none.rlim_cur=top; setrlimit(RLIMIT_NOFILE,&none); } bool t=throws([&]{ w->mgr->write_vtk(p,"",idlist(*w,{0,1})); }); setrlimit(RLIMIT_NOFILE,&lim); if(!t) fail("export to a place that cannot be written returned normally"); if(open_files()!=files) fail("a failed export left a file open"); all(*w,"after the failed export"); }
    std::string q=scratch()+"/ok.vtk"; op("export elsewhere"); w->mgr->write_vtk(q,"",idlist(*w,{0,1})); if(slurp(q)!=want) fail("export after a failed one is not complete"); remove_all(q); if(k==2||k==3) ::unlink(p.c_str()); hasher h; h.add(size).add(k); state(h.get());
}
static void c18(){ static bool once=false; if(!once){ signal(SIGXFSZ,SIG_IGN); once=true; } switch(choose(3,"part")){ case 0: limited(); break; case 1: calls(); break; case 2: targets(); break; } }
// C35: what surrounds the export
static bool other; // the export changed the standard output
static const char * SURROUND[]={"nothing","a decimal comma","comma and digit groups","digit groups","an odd locale","settings of the standard output","rounding up","rounding down","rounding to zero","a stale error number","another thread","closed standard streams","an exception on its way","another working directory"};
static void surrounded(int k, const std::function<void()> & todo){
    auto go=[&]{ std::ostream & o=std::cout; auto fl=o.flags(); auto p=o.precision(); auto st=o.rdstate(); std::streambuf * b=o.rdbuf(); todo(); if(o.flags()!=fl||o.precision()!=p||o.rdstate()!=st||o.rdbuf()!=b) other=true; };
    other=false;
    conventions c(k<5?k:0);
    if(k==5){ std::ostream & o=std::cout; auto fl=o.flags(); auto p=o.precision(); char fc=o.fill(); o<<std::hex<<std::fixed<<std::showpos<<std::setprecision(3)<<std::setfill('*'); o.width(20); go(); bool kept=o.precision()==3&&o.width()==20&&o.fill()=='*'&&(o.flags()&std::ios::showpos); o.width(0); o.flags(fl); o.precision(p); o.fill(fc); if(!kept) fail("the export changed the settings of the standard output"); }
    else if(k>=6&&k<=8){ static const int M[]={FE_UPWARD,FE_DOWNWARD,FE_TOWARDZERO}; std::fesetround(M[k-6]); struct back { ~back(){ std::fesetround(FE_TONEAREST); } }; bool kept; { back b; go(); kept=std::fegetround()==M[k-6]; } if(!kept) fail("the export changed the rounding mode"); }
    else if(k==9){ errno=ENOSPC; go(); }
    else if(k==10){ std::string what; std::thread t([&]{ try { go(); } catch(const std::exception & e){ what=e.what(); if(what.empty()) what="exception"; } }); t.join(); if(what.size()) fail("the export in another thread failed: %s",what.c_str()); }
    else if(k==11){ int keep[3]; bool was[3]; fflush(stdout); for(int i=0;i<3;++i){ was[i]=fcntl(i,F_GETFD)!=-1; keep[i]=was[i]?fcntl(i,F_DUPFD,100):-1; ::close(i); } struct back { int * k; bool * w; ~back(){ for(int i=0;i<3;++i) if(w[i]){ ::dup2(k[i],i); ::close(k[i]); } } } b={keep,was}; go(); }
    else if(k==12){ std::function<void()> f=go; struct saver { const std::function<void()> & f; ~saver(){ f(); } }; try { saver s={f}; throw 12; } catch(int){} }
    else go();
    if(other) fail("the export changed the settings of the standard output");
    if(k&&k<5&&std::use_facet<std::numpunct<char> >(std::locale()).decimal_point()!=(k==4?';':k==3?'.':',')) fail("the export changed the global locale");
}
static void c35(){
    int n=upto("dims",1,3); int big=choose(thorough()?4:3,"size"); shard(); ivec lo(n,-1), hi(n,1); if(big==1) hi[n-1]=1500; if(big==2){ lo[0]=-1234; hi[0]=12; } if(big==3){ hi=ivec(n,n==1?40000:n==2?200:34); } world w(lo,hi,dvec(n,1234.5),dvec(n,1e5/3)); w.add("a",2); w.add("b",1); for(int i=0;i<2;++i){ values(w.f[i],i,i); w.push(i); } int depth=thorough()&&big==0?3:2, files=open_files(); std::string out=scratch()+"/frame_0.vtk";
    for(int s=0;s<depth;++s){ int k=choose(14,"surroundings"); note("surroundings",SURROUND[k]); ivec l=s%2?ivec{1,0,1}:ivec{0,1}; remove_all(out); op("write_vtk with %s",SURROUND[k]); char cwd[4096]; if(!getcwd(cwd,sizeof cwd)) fail("no working directory"); if(k==13&&chdir(scratch().c_str())) fail("cannot enter the scratch directory"); std::string name=k==13?"frame_0":out.substr(0,out.size()-4);
        surrounded(k,[&]{ w.mgr->write_vtk(name,".vtk",idlist(w,l)); }); if(k==13&&chdir(cwd)) fail("cannot go back"); std::string text=slurp(out); check_file(text,w,l); if(open_files()!=files) fail("the export left a file open"); all(w,"after export"); track(w); hasher h; h.add(text).add(k); state(h.get()); }
}
void body(){ if(prop()=="C17") c17(); else if(prop()=="C35") c35(); else c18(); }
