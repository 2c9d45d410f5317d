// C21: initial conditions.
#include "num.h"
#include "solver/gaussian.h"
#include "solver/magnetic_pulse.h"
#include "solver/shock_tube.h"
#include "solver/radial_shock_tube.h"
#include "solver/brio_wu_shock_tube.h"
#include "solver/electromagnetic_wave_1D.h"
#include "solver/gem_challenge.h"
using namespace mc; using namespace ref;

typedef std::function<void(const real * x, std::vector<rvec> & out)> profile; // fills out[var][component]
struct job { std::vector<int> nc; profile f; std::function<void(qk::variable::variable_manager &, const std::vector<vid> &)> run; double tol=1e-11; real atol=0; std::function<bool(const real *)> edge; };

// solver objects that live through the whole exploration
static qk::solver::gaussian GA; static qk::solver::magnetic_pulse MP; static qk::solver::shock_tube ST; static qk::solver::radial_shock_tube RS; static qk::solver::brio_wu_shock_tube BW; static qk::solver::electromagnetic_wave_1D EW; static qk::solver::gem_challenge GC;
template<class S> static void go(S & s, qk::variable::variable_manager & m, const std::vector<vid> & ids){ s.set_output_variables(ids); s.solve(m); }

static job mk(int kind, int par, bool fresh){
    job j; auto none=[](const real *){ return false; }; j.edge=none;
    switch(kind){
    case 0: { double A=par==1?-2.5:par==3?1e-20:par==4?3e30:1.5; dvec m= par==0||par==3? dvec{0.1,-0.2,0.3}: par==1? dvec{0.25}: dvec{0,0.5}; double s=par==2?0.05:par==3?0.004:par==4?400:0.7; j.nc={par==1?3:1}; dvec mm=m; mm.resize(3,0.);
        j.f=[=](const real * x, std::vector<rvec> & o){ real e=0; for(int d=0;d<3;++d) e+=(x[d]-mm[d])*(x[d]-mm[d])/((real)s*s); for(auto & v:o[0]) v=A*expl(-e); }; j.run=[=](qk::variable::variable_manager & g, const std::vector<vid> & i){ qk::solver::gaussian l; auto & q=fresh?l:GA; q.setup(A,m,s); go(q,g,i); }; break; }
    case 1: { double A=par==3?1e-25:par==4?1e40:par?-3:0.8, s=par==2?0.02:par==3?1e-5:par==4?2e5:0.3; j.nc={6}; j.f=[=](const real * x, std::vector<rvec> & o){ o[0][5]=A*expl(-(x[0]*x[0]+x[1]*x[1]+x[2]*x[2])/(2*(real)s)); }; j.run=[=](qk::variable::variable_manager & g, const std::vector<vid> & i){ qk::solver::magnetic_pulse l; auto & q=fresh?l:MP; q.setup(A,s); go(q,g,i); }; break; }
    case 2: { double rj=par==0?0.125:par==1?3:par==3?1e-12:par==4?1e9:0.5,pj=par==0?0.1:par==1?0.25:par==3?1e-15:par==4?1e12:7,ga=par==0?1.4:par==1?5./3:par==3?1.01:2; j.nc={5}; j.f=[=](const real * x, std::vector<rvec> & o){ bool l=x[0]<0; o[0][0]=l?1:rj; o[0][4]=(l?1:pj)/((real)ga-1); }; j.edge=[](const real * x){ return std::fabs(x[0])<1e-12L; }; j.run=[=](qk::variable::variable_manager & g, const std::vector<vid> & i){ qk::solver::shock_tube l; auto & q=fresh?l:ST; if(par||!fresh) q.setup(rj,pj,ga); go(q,g,i); }; break; }
    case 3: { double R=par==0?0.125:par==1?0.4:par==3?0.004:par==4?350:1.1,rj=par==0?0.125:par==1?3:par==3?1e-12:par==4?1e9:0.5,pj=par==0?0.1:par==1?0.25:par==3?1e-15:par==4?1e12:7,ga=par==0?1.4:par==1?5./3:par==3?1.01:2; dvec c= par==1? dvec{0.1,-0.2,0.05}: par==2? dvec{-0.3}: dvec{}; dvec cc=c; cc.resize(3,0.); j.nc={5}; auto r2=[=](const real * x){ real s=0; for(int d=0;d<3;++d) s+=(x[d]-cc[d])*(x[d]-cc[d]); return s; }; j.f=[=](const real * x, std::vector<rvec> & o){ bool l=r2(x)<(real)R*R; o[0][0]=l?1:rj; o[0][4]=(l?1:pj)/((real)ga-1); }; j.edge=[=](const real * x){ return std::fabs(r2(x)-(real)R*R)<1e-10L*std::max((real)(R<0.01?R*R:1.L),r2(x)); }; j.run=[=](qk::variable::variable_manager & g, const std::vector<vid> & i){ qk::solver::radial_shock_tube l; auto & q=fresh?l:RS; if(par||!fresh){ if(c.empty()&&fresh) q.setup(R,rj,pj,ga); else q.setup(R,rj,pj,ga,cc); } go(q,g,i); }; break; }
    case 4: { double ga=par==0?2:par==1?5./3:1.4,me=par==0?0.04:par==1?0.5:par==3?9.1e-31:par==4?1e6:0.01,mi=par==0?1:par==1?2:par==3?1.67e-27:25,nl=par==0?1:par==3?1e19:2,nr=par==0?0.125:par==3?1e16:5,Pl=par==0?1:par==4?1e-14:0.3,Pr=par==0?0.1:par==4?1e13:0.9,Bx=par==0?0.75:-0.4,By=par==0?1:par==1?-2:0.3; j.nc={5,5,6}; j.f=[=](const real * x, std::vector<rvec> & o){ bool l=x[0]<0; real n=l?nl:nr, e=(l?Pl:Pr)/((real)ga-1); o[0][0]=me*n; o[1][0]=mi*n; o[0][4]=o[1][4]=e; o[2][3]=Bx; o[2][4]=l?By:-By; }; j.edge=[](const real * x){ return std::fabs(x[0])<1e-12L; }; j.run=[=](qk::variable::variable_manager & g, const std::vector<vid> & i){ qk::solver::brio_wu_shock_tube l; auto & q=fresh?l:BW; if(par||!fresh) q.setup(ga,me,mi,nl,nr,Pl,Pr,Bx,By); go(q,g,i); }; break; }
    case 5: { int dim=par%3; double c=par<3?1:par==6?3e8:-2.5,k=par<3?2*3.14159263:par==6?1e-3:par==7?25:5,Bx=par==0?0:0.7,By=par==0?1:-0.3,Bz=par==0?1:1.9; if(par>=3){ Bx=par==6?1e-9:0.4; } j.nc={6}; j.atol=4e-16L*std::fabs(k)*3000*std::max(1.,std::fabs(c))*std::max(std::fabs(Bx),std::max(std::fabs(By),std::fabs(Bz))); double B[3]={Bx,By,Bz}; std::vector<double> Bv(B,B+3); j.tol=1e-10; j.f=[=](const real * x, std::vector<rvec> & o){ int a=(dim+1)%3,b=(dim+2)%3; real s=sinl((real)k*x[dim]); o[0][a]=c*Bv[b]*s; o[0][b]=-c*Bv[a]*s; o[0][3+dim]=Bv[dim]; o[0][3+a]=Bv[a]*s; o[0][3+b]=Bv[b]*s; }; j.run=[=](qk::variable::variable_manager & g, const std::vector<vid> & i){ qk::solver::electromagnetic_wave_1D l; auto & q=fresh?l:EW; if(par||!fresh) q.setup(dim,c,k,Bx,By,Bz); go(q,g,i); }; break; }
    case 6: { double la=par==0?0.5:par==3?6.:0.3,Lx=par==0?3.2:par==3?900.:1.1,n0=par==0?1:2,n1=par==0?0.2:0.5,ga=par==0?5./3:1.4,qe=par==1?-2:-1,me=0.04,Te=par==0?0.05:0.3,qi=1,mi=par==2?3:1,Ti=par==0?0.2:par==4?1e-6:0.1,B0=par==0?0.7:par==3?1e-6:1.3; j.nc={5,5,6}; j.tol=1e-6; // the sheet's wave numbers use an approximate pi
        j.f=[=](const real * x, std::vector<rvec> & o){ real pi=3.14159265358979323846L, kx=pi/Lx, ky=pi/Lx, B1=0.1L*B0, se=1/coshl(x[0]/la), s2=se*se, n=n0*s2+n1, uv=s2/(s2+(real)n1/n0); real ue=2*(real)Te/qe/la/B0, ui=2*(real)Ti/qi/la/B0; o[0][0]=me*n; o[1][0]=mi*n; o[0][3]=me*n*ue*uv; o[1][3]=mi*n*ui*uv; o[0][4]=n*Te/((real)ga-1)+0.5L*o[0][3]*o[0][3]/o[0][0]; o[1][4]=n*Ti/((real)ga-1)+0.5L*o[1][3]*o[1][3]/o[1][0]; o[2][3]=B1*ky*cosl(kx*x[0])*sinl(ky*x[1]); o[2][4]=B0*tanhl(x[0]/la)-B1*kx*sinl(kx*x[0])*cosl(ky*x[1]); };
        j.run=[=](qk::variable::variable_manager & g, const std::vector<vid> & i){ qk::solver::gem_challenge l; auto & q=fresh?l:GC; q.setup(la,Lx,n0,n1,ga,qe,me,0.,Te,qi,mi,0.,Ti,B0); go(q,g,i); }; break; }
    }
    return j;
}
static int npar(int kind){ return kind==5?8:5; }
static const char * NAME[]={"gaussian","magnetic pulse","shock tube","radial shock tube","two-fluid shock tube","plane wave","current sheet"};

static void verify(world & w, const job & j, const std::vector<int> & vars, const char * when){
    int n=w.nd(); std::vector<rvec> o; size_t per=j.nc.size();
    for(size_t base=0;base<vars.size();base+=per){ // single-field conditions set each listed field alike
        for(size_t k=0;k<per;++k){ const qk::data::extended_datachunk & c=chunk(w.in(vars[base+k])); check_shape(c,w.f[vars[base+k]],when); }
        for_box(w.lo,w.hi,[&](const ivec & x){ real X[3]={0,0,0}; for(int d=0;d<n;++d) X[d]=(real)w.start[d]+((real)(x[d]-w.lo[d])+0.5L)*(real)w.width[d]/(w.hi[d]-w.lo[d]); if(j.edge(X)) return; o.clear(); for(int c:j.nc) o.push_back(rvec(c,0)); j.f(X,o);
            for(size_t k=0;k<per;++k){ const field & f=w.f[vars[base+k]]; const double * d=chunk(w.in(vars[base+k])).data()+f.off(x); real sc=0; for(real v:o[k]) sc=std::max(sc,std::fabs(v)); for(int c=0;c<j.nc[k];++c){ real want=o[k][c]; real t= want==0? (j.tol<1e-7? 1e-300L: 1e-12L*sc) : j.tol*std::max(std::fabs(want),sc*(j.tol>1e-7?1e-2L:1e-5L))+1e-300L+j.atol; if(!(std::fabs(d[c]-want)<=t)) fail("%s: field %zu cell %s component %d is %.17g instead of %.17Lg",when,k,show(x).c_str(),c,d[c],want); } } });
    }
}
static void dirty(world & w, int mode){ for(size_t i=0;i<w.f.size();++i){ if(mode==0) tag(w.f[i],(int)i); else if(mode==1) for(auto & v:w.f[i].v) v=poison(); w.push((int)i); } }
void body(){
    int part=choose(3,"part");
    if(part==0){ // meshes, positions, previous contents
        int kind=upto("condition",0,6); int par=choose(npar(kind),"parameters"); int n=upto("dims",1,3); shard(); ivec lo,hi; int low=choose(n==3?3:5,"lower"); for(int d=0;d<n;++d){ int l=low==3?-777-d:low==4?4001+d:low==0?0:low==1?-7+d:11; lo.push_back(l); hi.push_back(l+pick<int>("len",n==1?ivec{1,2,5,8,201}:n==2?ivec{1,4,9}:ivec{1,2,5})); } int geo=choose(6,"geometry"); if(kind==6&&geo==5&&par!=3) return; dvec st,wd; for(int d=0;d<n;++d){ if(geo>3){ st.push_back(geo==4?-0.011:-700.); wd.push_back(geo==4?0.02:1500.+d); continue; } st.push_back(geo==0?-0.5:geo==1?-1.3+d*0.4:geo==2?0.05:-2.); wd.push_back(geo==0?1:geo==1?2.1:geo==2?0.7:1.5); }
        bool fresh=flag("fresh object"); int mode=choose(3,"previous contents"); job j=mk(kind,par,fresh); world w(lo,hi,st,wd); ivec vars; for(size_t k=0;k<j.nc.size();++k) vars.push_back(w.add("f"+std::to_string(k),j.nc[k])); int o=w.add("other",5); dirty(w,mode); std::vector<vid> ids; for(int v:vars) ids.push_back(w.ids[v]); op("%s",NAME[kind]); j.run(*w.mgr,ids); verify(w,j,vars,NAME[kind]); w.unchanged(o,"after the initial condition"); w.pull(vars[0]); track(w);
    } else if(part==1){ // one object on one mesh after another, then again
        int kind=upto("condition",0,6); int a=choose(4,"first mesh"), b=choose(4,"second mesh"); shard(); int pa=choose(npar(kind),"first parameters"), pb=choose(npar(kind),"second parameters"); int times=upto("runs",1,2); static const ivec LO[]={{0},{-2,3},{0,0,0},{5,-5}}, HI[]={{6},{2,6},{3,2,3},{7,-1}}; static const dvec S[]={{-0.5},{-1,0.3},{-0.2,-0.4,-0.6},{0.5,0.5}}, W[]={{1},{2,1},{1,0.5,1.5},{0.1,2}};
        world w1(LO[a],HI[a],S[a],W[a]), w2(LO[b],HI[b],S[b],W[b]); world * ws[2]={&w1,&w2}; job js[2]={mk(kind,pa,false),mk(kind,pb,false)}; ivec vars; for(world * w:ws){ vars.clear(); for(size_t k=0;k<js[0].nc.size();++k) vars.push_back(w->add("f"+std::to_string(k),std::max(js[0].nc[k],js[1].nc[k]))); } if(js[0].nc!=js[1].nc){ trans(1); return; }
        for(int t=0;t<2*times;++t){ world & w=*ws[t%2]; std::vector<vid> ids; for(int v:vars) ids.push_back(w.ids[v]); op("%s on mesh %d",NAME[kind],t%2); js[t%2].run(*w.mgr,ids); verify(w,js[t%2],vars,NAME[kind]); } for(world * w:ws){ w->pull(0); track(*w); }
    } else { // several listed fields, fields that do not exist yet, different creation orders
        int kind=pick<int>("condition",{0,1,2,3,5}); int par=choose(npar(kind),"parameters"); shard(); int n=upto("dims",1,3); int len=upto("fields",0,3); int pre=choose(4,"created before"); ivec lo(n,-1),hi(n,2); world w(lo,hi,dvec(n,-0.6),dvec(n,1.5)); job j=mk(kind,par,len%2); ivec vars; std::vector<vid> ids; for(int k=0;k<len;++k){ std::string nm="g"+std::to_string((k+pre)%3); ids.push_back(vid(nm,comps(j.nc[0]),qk::basis::volume_average())); if(pre>>(k%2)&1) w.mgr->output_variable(ids.back()); w.ids.push_back(ids.back()); w.f.push_back(field(lo,hi,2,1,j.nc[0])); vars.push_back(k); } int o=w.add("other",5); tag(w.f[o],1); w.push(o); op("%s on %d fields",NAME[kind],len); j.run(*w.mgr,ids); verify(w,j,vars,NAME[kind]); w.unchanged(o,"after the initial condition"); for(int v:vars) w.pull(v); track(w);
    }
}
