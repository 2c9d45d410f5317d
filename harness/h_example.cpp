// C28: the packaged simulations, run as they are.  Histories of runs in one process are enumerated; every
// frame of every run is read back and checked, and repeated runs are compared byte for byte.
#include "mc.h"
#include "example/euler/sod_shock_tube.h"
#include "example/maxwell/wave_1D.h"
#include "example/maxwell/gaussian_pulse.h"
#include "example/advection/advect_gaussian.h"
#include "example/plasma/two_fluid_brio_wu.h"
#include "example/plasma/harris_current_sheet.h"
#include "example/plasma/gem_challenge.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <errno.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <stdarg.h>
#include <fstream>
#include <functional>
#include <map>
#include <iostream>
using namespace mc;

// Simulations with a built-in output directory are redirected into the scratch directory, and a run can be cut
// off by refusing to create the frame after the last one wanted.
namespace redir {
static bool on=false; static std::string dir; static long limit=-1; static long created=0;
static const char * map(const char * p, std::string & buf, bool writing){ if(!on||!p) return p; std::string s(p); bool frame=s.find(".vtk")!=std::string::npos; if(!frame) return p; if(writing){ if(limit>=0&&created>=limit) return 0; created++; } if(s.compare(0,7,"/Users/")==0||s.compare(0,6,"/home/")==0){ buf=dir+"/"+s.substr(s.rfind('/')+1); return buf.c_str(); } return p; }
}
#define REAL(name,...) typedef __VA_ARGS__; static fn real=0; if(!real) real=(fn)dlsym(RTLD_NEXT,name)
extern "C" FILE * fopen(const char * p, const char * m){ REAL("fopen",FILE*(*fn)(const char*,const char*)); std::string b; p=redir::map(p,b,m[0]!='r'); if(!p){ errno=ENOSPC; return 0; } return real(p,m); }
extern "C" FILE * fopen64(const char * p, const char * m){ REAL("fopen64",FILE*(*fn)(const char*,const char*)); std::string b; p=redir::map(p,b,m[0]!='r'); if(!p){ errno=ENOSPC; return 0; } return real(p,m); }
extern "C" int open(const char * p, int f, ...){ REAL("open",int(*fn)(const char*,int,...)); va_list a; va_start(a,f); int mode=va_arg(a,int); va_end(a); std::string b; p=redir::map(p,b,(f&O_ACCMODE)!=O_RDONLY); if(!p){ errno=ENOSPC; return -1; } return real(p,f,mode); }
extern "C" int open64(const char * p, int f, ...){ REAL("open64",int(*fn)(const char*,int,...)); va_list a; va_start(a,f); int mode=va_arg(a,int); va_end(a); std::string b; p=redir::map(p,b,(f&O_ACCMODE)!=O_RDONLY); if(!p){ errno=ENOSPC; return -1; } return real(p,f,mode); }

static std::string slurp(const std::string & p, bool & ex){ std::ifstream f(p.c_str(),std::ios::binary); ex=(bool)f; std::stringstream s; s<<f.rdbuf(); return s.str(); }

struct frame { std::string bytes; int nd=0; long n[3]={1,1,1}; double org[3],sp[3]; size_t cells=0; std::vector<std::string> names; std::map<std::string,std::vector<double> > b;
    const std::vector<double> & at(const std::string & s) const { auto i=b.find(s); if(i==b.end()) fail("frame has no block %s",s.c_str()); return i->second; }
    double total(const std::string & s) const { long double t=0; for(double v:at(s)) t+=v; return (double)t; }
    double scale(const std::string & s) const { long double t=0; for(double v:at(s)) t+=std::fabs(v); return (double)t; } };
static frame parse(const std::string & text){
    frame f; f.bytes=text; const char * p=text.c_str(); const char * end=p+text.size();
    auto word=[&](){ while(p<end&&isspace((unsigned char)*p)) ++p; const char * q=p; while(p<end&&!isspace((unsigned char)*p)) ++p; return std::string(q,p-q); };
    auto line=[&](){ const char * q=p; while(p<end&&*p!='\n') ++p; std::string s(q,p-q); if(p<end) ++p; return s; };
    auto num=[&](){ std::string w=word(); char * e; double v=strtod(w.c_str(),&e); if(w.empty()||*e) fail("'%s' where a number is expected",w.c_str()); if(!std::isfinite(v)) fail("a frame holds the value %s",w.c_str()); return v; };
    line(); line(); if(word()!="ASCII") fail("frame is not an ASCII file"); word(); word(); std::string w; long cells=-1;
    for(;;){ w=word(); if(w=="DIMENSIONS") for(int i=0;i<3;++i){ long v=(long)num(); f.n[i]=v>1?v-1:1; if(v>1) f.nd=i+1; } else if(w=="ORIGIN") for(int i=0;i<3;++i) f.org[i]=num(); else if(w=="SPACING") for(int i=0;i<3;++i) f.sp[i]=num(); else if(w=="CELL_DATA"){ cells=(long)num(); break; } else fail("'%s' in the frame header",w.c_str()); }
    f.cells=(size_t)f.n[0]*f.n[1]*f.n[2]; if((long)f.cells!=cells) fail("frame has %ld cells of data on a mesh of %zu",cells,f.cells);
    while(!(w=word()).empty()){ if(w!="SCALARS") fail("'%s' where a block is expected",w.c_str()); std::string name=word(); line(); if(word()!="LOOKUP_TABLE") fail("lookup table missing"); word(); std::vector<double> v(f.cells); for(auto & x:v) x=num(); if(f.b.count(name)) fail("block %s twice",name.c_str()); f.names.push_back(name); f.b[name]=v; }
    return f;
}

static void same_total(const std::vector<frame> & fr, const std::string & s, double tol){ double t0=fr[0].total(s); double sc=0; for(auto & f:fr) sc=std::max(sc,f.scale(s)); for(size_t i=0;i<fr.size();++i){ double t=fr[i].total(s); if(!(std::fabs(t-t0)<=tol*sc)) fail("the total of %s is %.17g in frame %zu, %.17g in frame 0",s.c_str(),t,i,t0); } }
static const double PI=3.14159265358979323846;

// exact solution of the shock tube (left 1,0,1; right .125,0,.1) at x/t
struct riemann { double g,rl=1,pl=.4*2.5,rr=.125,pr=.1,cl,cr,ps,us; riemann(double g):g(g){ cl=std::sqrt(g*pl/rl); cr=std::sqrt(g*pr/rr); double a=pr,b=pl; for(int i=0;i<200;++i){ double m=(a+b)/2; if(F(m)>0) b=m; else a=m; } ps=a; us=fr(ps); }
    double fl(double p) const { return 2*cl/(g-1)*(std::pow(p/pl,(g-1)/(2*g))-1); } double fr(double p) const { double A=2/((g+1)*rr),B=(g-1)/(g+1)*pr; return (p-pr)*std::sqrt(A/(p+B)); } double F(double p) const { return fl(p)+fr(p); }
    double rho(double s) const { double csl=cl*std::pow(ps/pl,(g-1)/(2*g)); double S=cr*std::sqrt((g+1)/(2*g)*ps/pr+(g-1)/(2*g)); if(s<-cl) return rl; if(s<us-csl){ double c=2/(g+1)*(cl-(g-1)/2*s); return rl*std::pow(c/cl,2/(g-1)); } if(s<us) return rl*std::pow(ps/pl,1/g); if(s<S){ double x=ps/pr,y=(g-1)/(g+1); return rr*(x+y)/(y*x+1); } return rr; } };

static void gas_ok(const frame & f, const std::string & n, double g){ auto &r=f.at(n+".rho"),&x=f.at(n+".px"),&y=f.at(n+".py"),&z=f.at(n+".pz"),&e=f.at(n+".e"); for(size_t i=0;i<r.size();++i){ if(!(r[i]>0)) fail("density %g in cell %zu",r[i],i); double P=(g-1)*(e[i]-.5*(x[i]*x[i]+y[i]*y[i]+z[i]*z[i])/r[i]); if(!(P>0)) fail("pressure %g in cell %zu",P,i); } }

static double worst=0;
static void judge(const char * what, double v, double lim, int fr){ if(getenv("QK_SHOW")&&v>worst){ worst=v; fprintf(stderr,"%s frame %d: %g (limit %g)\n",what,fr,v,lim); } if(!(v<=lim)) fail("%s is %g in frame %d, more than %g",what,v,fr,lim); }
static void check_sod(const std::vector<frame> & fr){ riemann R(1.4); same_total(fr,"fluid.rho",1e-12); same_total(fr,"fluid.e",1e-12);
    for(size_t i=0;i<fr.size();++i){ const frame & f=fr[i]; if(f.n[0]!=500||f.n[1]!=2||f.nd!=2) fail("mesh of the shock tube"); gas_ok(f,"fluid",1.4); auto &r=f.at("fluid.rho"),&y=f.at("fluid.py"),&z=f.at("fluid.pz"); double t=i*0.005; double err=0; for(int k=0;k<500;++k){ if(!(std::fabs(r[k]-r[500+k])<=1e-12)) fail("frame %zu depends on the second coordinate",i); if(y[k]!=0||z[k]!=0) fail("frame %zu: transverse momentum appears",i); double x=-.5+(k+.5)/500; double e=t>0?R.rho(x/t):(x<0?1:.125); err+=std::fabs(r[k]-e)/500; } if(t<=0.27) judge("mean density error of the shock tube",err,2.5e-3,(int)i); } }
static void check_wave(const std::vector<frame> & fr){ const char * c[]={"Ex","Ey","Ez","Bx","By","Bz"}; for(auto n:c) same_total(fr,std::string("field.")+n,1e-12);
    for(size_t i=0;i<fr.size();++i){ const frame & f=fr[i]; if(f.n[0]!=2||f.n[1]!=2||f.n[2]!=128) fail("mesh of the wave"); for(auto n:c){ auto & v=f.at(std::string("field.")+n),&v0=fr[0].at(std::string("field.")+n); double a=0,b=0; for(double x:v0) a=std::max(a,std::fabs(x)); if(a==0) a=1; 
            for(int k=0;k<128;++k){ for(int j=1;j<4;++j) if(!(std::fabs(v[4*k]-v[4*k+j])<=1e-12*a)) fail("frame %zu: %s depends on a transverse coordinate",i,n); }
            if(i==fr.size()-1) for(int k=0;k<128;++k) b=std::max(b,std::fabs(v[4*k]-v0[4*k])/a); if(i==fr.size()-1) judge("deviation of the wave after one period",b,0.02,(int)i);
            // in between it is the initial profile moved by i/100 of a period, one way
        } }
    // direction: the same for all frames; deviation of every frame from the moved profile
    for(auto n:{"By","Ey"}){ auto & v0=fr[0].at(std::string("field.")+n); double best=1e9; for(int dir=-1;dir<=1;dir+=2){ double m=0; for(size_t i=0;i<fr.size();++i){ auto & v=fr[i].at(std::string("field.")+n); double a=0; for(double x:v0) a=std::max(a,std::fabs(x)); for(int k=0;k<128;++k){ double s=k-dir*(double)i*1.28; double q=std::floor(s); double fr_=s-q; int k0=((int)q%128+128)%128,k1=(k0+1)%128; double e=v0[4*k0]*(1-fr_)+v0[4*k1]*fr_; m=std::max(m,std::fabs(v[4*k]-e)/a); } } best=std::min(best,m); } judge("deviation of the wave from its moved profile",best,0.02,-1); } }
static void energy_falls(const std::vector<frame> & fr, double c){ double last=-1; for(size_t i=0;i<fr.size();++i){ long double e=0; for(auto n:{"Ex","Ey","Ez"}) for(double v:fr[i].at(std::string("field.")+n)) e+=v*v; for(auto n:{"Bx","By","Bz"}) for(double v:fr[i].at(std::string("field.")+n)) e+=c*c*v*v; if(i&&!(e<=last*(1+1e-12))) fail("field energy grows from %g to %g in frame %zu",(double)last,(double)e,i); last=(double)e; } }
static void check_pulse(const std::vector<frame> & fr){ const char * c[]={"Ex","Ey","Ez","Bx","By","Bz"}; double s=0; for(auto & f:fr) for(auto n:c) s=std::max(s,f.scale(std::string("field.")+n)); for(auto n:c){ double t0=fr[0].total(std::string("field.")+n); for(size_t i=0;i<fr.size();++i) if(!(std::fabs(fr[i].total(std::string("field.")+n)-t0)<=1e-12*s)) fail("the total of %s changes in frame %zu",n,i); }
    for(size_t i=0;i<fr.size();++i){ auto & f=fr[i]; if(f.n[0]!=128||f.nd!=1) fail("mesh of the pulse"); auto &B=f.at("field.Bz"),&E=f.at("field.Ey"); for(int k=0;k<64;++k){ if(!(std::fabs(B[k]-B[127-k])<=1e-11)) fail("frame %zu: Bz is not symmetric",i); if(!(std::fabs(E[k]+E[127-k])<=1e-10)) fail("frame %zu: Ey is not antisymmetric",i); } 
        // d'Alembert: half of the initial pulse moves each way with speed 5
        auto & B0=fr[0].at("field.Bz"); double t=i*0.01; auto val=[&](double s){ double q=std::floor(s); int k0=((int)q%128+128)%128; return B0[k0]*(1-(s-q))+B0[(k0+1)%128]*(s-q); }; double m=0; for(int k=0;k<128;++k){ double e=.5*(val(k-5*t*128)+val(k+5*t*128)); m=std::max(m,std::fabs(B[k]-e)); } judge("deviation of the pulse from the travelling halves",m,0.06,(int)i); }
    energy_falls(fr,5); }
// the advected gaussian: every frame against a reference simulation written from the scheme.  The example as packaged never
// applies its periodic boundaries (known_findings.txt); then the frames must be those of the same scheme fed by whatever lies
// in the ghost cells, judged in every cell that differing ghost contents do not reach.
struct adv_ref { static const int W=132; typedef std::vector<double> grid_; grid_ a,b; int mode; // 0 periodic, 1.. ghosts hold constants
    explicit adv_ref(int m):mode(m){ a.resize(W*W); for(int y=0;y<W;++y) for(int x=0;x<W;++x){ double X=-.5+(x-2+.5)/128,Y=-.5+(y-2+.5)/128; a[y*W+x]=std::exp(-(X*X+Y*Y)/.01); } }
    void bc(grid_ & v) const { for(int y=0;y<W;++y) for(int x=0;x<W;++x){ if(x>=2&&x<130&&y>=2&&y<130){ x=129; continue; } v[y*W+x]= mode==0? v[((y-2+128)%128+2)*W+(x-2+128)%128+2] : mode==1? 0. : mode==2? 1. : (x+y)%2; } }
    static double flux(double vn, double vc, double vp){ double p=vc-vn,q=vp-vc,n=p*p+q*q; return n==0? vc: vc+.25*p*(p+q)*(p+q)/n; }
    static void apply(const grid_ & n, grid_ & o, double co){ for(int y=2;y<130;++y) for(int x=2;x<130;++x){ int i=y*W+x; for(int s:{1,(int)W}) o[i]+=co*(flux(n[i+2*s],n[i+s],n[i])-flux(n[i+s],n[i],n[i-s])); } }
    void step(){ bc(a); b=a; apply(a,b,.128); bc(b); for(size_t i=0;i<a.size();++i) a[i]=.5*(a[i]+b[i]); apply(b,a,.064); } };
static const char * KNOWN_ADVECT="advect_gaussian sets up its periodic boundaries without dimensions";
static void check_advect(const std::vector<frame> & fr){
    std::vector<adv_ref> R; for(int m=0;m<4;++m) R.push_back(adv_ref(m)); bool periodic=true, alone=true; std::string why[2]; const int W=adv_ref::W; std::vector<double> sp(W*W);
    for(size_t i=0;i<fr.size();++i){ const frame & f=fr[i]; if(f.n[0]!=128||f.n[1]!=128||f.nd!=2) fail("mesh of the gaussian"); auto & v=f.at("variable.rho"); if(i) for(auto & r:R) for(int k=0;k<10;++k) r.step();
        std::fill(sp.begin(),sp.end(),1.); for(int y=2;y<130;++y) for(int x=2;x<130;++x){ int o=y*W+x; double p=R[1].a[o],q=R[2].a[o],r=R[3].a[o]; sp[o]= i? std::max(p,std::max(q,r))-std::min(p,std::min(q,r)) : 0; } long judged=0;
        for(int y=2;y<130;++y) for(int x=2;x<130;++x){ int o=y*W+x; double w=v[(y-2)*128+x-2]; char t[200];
            if(periodic&&!(std::fabs(w-R[0].a[o])<=1e-9)){ periodic=false; snprintf(t,sizeof t,"frame %zu cell (%d, %d) is %.17g, %.17g with periodic boundaries",i,x-2,y-2,w,R[0].a[o]); why[0]=t; }
            if(!(std::fabs(w)<=2)) fail("frame %zu holds %g",i,w);
            double m=0; for(int b=-3;b<=3;++b) for(int a=-3;a<=3;++a){ int k=y+b,l=x+a; if(k>=2&&k<130&&l>=2&&l<130) m=std::max(m,sp[k*W+l]); } if(m>1e-3) continue; judged++;
            if(alone&&!(std::fabs(w-R[1].a[o])<=1e-9+20*m)){ alone=false; snprintf(t,sizeof t,"%.17g if no boundary is applied (+-%g)",R[1].a[o],1e-9+20*m); why[1]=t; } }
        if(i<=60&&judged<200) fail("frame %zu: only %ld cells are out of reach of the boundary",i,judged);
        if(!periodic&&!alone) fail("%s, %s",why[0].c_str(),why[1].c_str()); }
    if(!periodic){ const char * k=getenv("QK_KNOWN"); if(!k||!strstr(k,KNOWN_ADVECT)) fail("%s",why[0].c_str()); } }
static void check_plasma(const std::vector<frame> & fr, double g){ for(auto n:{"electrons.rho","ions.rho"}) same_total(fr,n,1e-11); for(auto & f:fr) for(auto n:{"electrons","ions"}) gas_ok(f,n,g); }
static void check_brio(const std::vector<frame> & fr){ for(auto & f:fr){ if(f.n[0]!=100||f.nd!=1) fail("mesh of the two-fluid shock tube"); } check_plasma(fr,2.); for(auto & f:fr) for(size_t k=0;k<f.cells;++k) if(!(std::fabs(f.at("field.Bx")[k]-.75)<=1e-9)) fail("the normal magnetic field changes to %g",f.at("field.Bx")[k]); }
static void check_harris(const std::vector<frame> & fr){ for(auto & f:fr) if(f.n[0]!=400||f.nd!=1) fail("mesh of the current sheet"); check_plasma(fr,5./3); }
static void check_gem(const std::vector<frame> & fr){ check_plasma(fr,5./3); }

struct sim { const char * name; std::function<void(const std::string &)> run; std::function<void(const std::vector<frame>&)> check; int frames; int cost; };
static std::vector<sim> & sims(){ using namespace qk::example; static std::vector<sim> s={
    {"sod_shock_tube",[](const std::string & d){ euler::sod_shock_tube(d); },check_sod,101,2},
    {"wave_1D",[](const std::string & d){ maxwell::wave_1D(d); },check_wave,101,2},
    {"gaussian_pulse",[](const std::string &){ maxwell::gaussian_pulse(); },check_pulse,101,1},
    {"two_fluid_brio_wu",[](const std::string &){ plasma::two_fluid_brio_wu(); },check_brio,101,2},
    {"advect_gaussian",[](const std::string &){ advection::advect_gaussian(); },check_advect,101,30},
    {"harris_current_sheet",[](const std::string &){ plasma::harris_current_sheet(); },check_harris,101,60},
    {"gem_challenge",[](const std::string & d){ plasma::gem_challenge(d); },check_gem,1001,9999} };
    return s; }
static int saved[2]; static void quiet(bool on){ fflush(stdout); fflush(stderr); std::cout.flush(); if(on){ saved[0]=dup(1); int fd=::open("/dev/null",O_WRONLY); dup2(fd,1); close(fd); } else { dup2(saved[0],1); close(saved[0]); } }
static void wipe(const std::string & d){ DIR * p=opendir(d.c_str()); if(p){ while(dirent * e=readdir(p)){ std::string n=e->d_name; if(n!="."&&n!="..") ::unlink((d+"/"+n).c_str()); } closedir(p); } else ::mkdir(d.c_str(),0755); }

static std::vector<frame> execute(int k, const std::string & dir, int limit){
    sim & s=sims()[k]; wipe(dir); redir::on=true; redir::dir=dir; redir::limit=limit; redir::created=0; quiet(true); bool ended=true; std::string what;
    try { s.run(dir); } catch(const std::exception & e){ ended=false; what=e.what(); } catch(...){ ended=false; what="?"; }
    quiet(false); redir::on=false; int want= limit>=0&&limit<s.frames? limit: s.frames; if(!ended&&want==s.frames) fail("%s ends with an exception: %s",s.name,what.c_str()); if(ended&&want!=s.frames) fail("%s ends normally although frame %d could not be created",s.name,want);
    std::vector<frame> fr; for(int i=0;i<want;++i){ bool ex; std::string t=slurp(dir+"/frame_"+std::to_string(i)+".vtk",ex); if(!ex) fail("%s wrote no frame %d",s.name,i); fr.push_back(parse(t)); if(fr[i].names!=fr[0].names) fail("%s: frame %d has other blocks than frame 0",s.name,i); op("%s frame %d: %zu bytes",s.name,i,t.size()); hasher h; h.add(std::string(s.name)).add(t); state(h.get()); }
    int n=0; DIR * p=opendir(dir.c_str()); while(dirent * e=readdir(p)) if(e->d_name[0]!='.') n++; closedir(p); if(n!=want) fail("%s leaves %d files instead of %d",s.name,n,want);
    return fr;
}
static uint64_t digest(const std::vector<frame> & fr){ hasher h; for(auto & f:fr) h.add(f.bytes); return h.get(); }
static uint64_t elsewhere(int k, int limit){ // the same simulation first thing in another process
    int fd[2]; if(pipe(fd)) _exit(3); fflush(stdout); pid_t p=fork(); if(!p){ uint64_t v=0; try { v=digest(execute(k,scratch()+"/child",limit)); } catch(const violation &){ v=0; } if(write(fd[1],&v,8)!=8) _exit(3); _exit(0); }
    uint64_t v=0; close(fd[1]); if(read(fd[0],&v,8)!=8) v=1; close(fd[0]); int st; waitpid(p,&st,0); return v;
}
// Executions run in forked children so that each history starts from a fresh process.
template<class F> static void fresh(F f){
    int fd[2]; if(pipe(fd)) _exit(3); fflush(stdout); pid_t p=fork();
    if(!p){ std::string m; try { f(); } catch(const violation & v){ m=v.msg; } catch(const std::exception & e){ m=std::string("unexpected exception: ")+e.what(); } if(!m.empty()&&write(fd[1],m.data(),m.size())<0) _exit(3); close(fd[1]); fflush(stdout); _exit(0); }
    close(fd[1]); std::string m; char b[4096]; ssize_t r; while((r=read(fd[0],b,sizeof b))>0) m.append(b,r); close(fd[0]); int st; waitpid(p,&st,0); if(!m.empty()) throw violation(m); if(st) fail("the simulation ends the process (status %d)",st);
}
void body(){
    // all histories of one or two short runs, and single runs of the long ones (cut off after some frames)
    int nshort=4; int kind=choose(3,"kind");
    if(kind==0){ int a=choose(nshort,"first"); int b=choose(nshort,"second"); shard();
        fresh([&]{ uint64_t alone=elsewhere(b,-1); auto f=execute(a,scratch()+"/a",-1); sims()[a].check(f); auto g=execute(b,scratch()+"/b",-1); sims()[b].check(g);
            if(digest(g)!=alone) fail("%s after %s writes other frames than in a process of its own",sims()[b].name,sims()[a].name);
            bool ex; for(size_t i=0;i<f.size();++i) if(slurp(scratch()+"/a/frame_"+std::to_string(i)+".vtk",ex)!=f[i].bytes) fail("the second run changed frame %zu of the first",i); });
        hasher h; h.add(a).add(b); state(h.get()); }
    else if(kind==1){ int a=choose(thorough()?3:2,"long simulation"); shard(); int lim= a<2?101:2; int k=nshort+a; fresh([&]{ int L=lim>=sims()[k].frames?-1:lim; auto f=execute(k,scratch()+"/a",L); sims()[k].check(f); { uint64_t e=elsewhere(k,L); if(e!=digest(f)) fail("%s in another process writes other frames",sims()[k].name); } }); hasher h; h.add(k); state(h.get()); }
    else { // a frame that cannot be created ends the run, whichever it is; the frames before it are complete
        int a=choose(nshort,"simulation"); shard(); int lim=pick<int>("frames that can be created",{0,1,2,7,50,100}); fresh([&]{ auto f=execute(a,scratch()+"/a",lim); auto g=execute(a,scratch()+"/b",-1); for(size_t i=0;i<f.size();++i) if(f[i].bytes!=g[i].bytes) fail("frame %zu differs in a run that was cut off",i); sims()[a].check(g); }); hasher h; h.add(a).add(lim+100); state(h.get()); }
}
