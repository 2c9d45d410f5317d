// C11, C12: the fluid solver.
#include "num.h"
#include "solver/euler.h"
using namespace mc; using namespace ref;

static qk::solver::euler reused;
static void solve(world & w, double gamma, int q, int r, int how){
    qk::solver::euler fresh; qk::solver::euler & s= how&1? reused:fresh; s.setup(gamma); s.set_input_variables({w.ids[q]}); s.set_output_variables({w.ids[r]});
    if(how&2){ qk::solver::euler copy(s); copy.solve(*w.mgr); } else s.solve(*w.mgr);
}
static std::vector<ivec> perms(int n){ ivec p; for(int i=0;i<n;++i) p.push_back(i); std::vector<ivec> r; do r.push_back(p); while(std::next_permutation(p.begin(),p.end())); return r; }

// one world: state in field 0, rhs in 1, bystander in 2; compare against the formula
static void formula_check(world & w, double gamma, int how, double tol=1e-9, bool twice=false){
    static const double DT[]={0.37,-2.5,0,4e5}; w.mgr->set_dt(DT[how&3]); w.mgr->set_time(how&2?-3e7:how&1?4e9:11.);
    w.push(0); w.push(1); w.push(2);
    expected e(w.f[1]); int bad=add_euler(e,w.f[0],gamma,w.dx); if(bad==(int)w.f[0].cells()) { trans(1); return; }
    op("euler gamma %g dx %s",gamma,show(w.dx).c_str()); solve(w,gamma,0,1,how);
    compare(w.in(1),e,"contribution",tol); w.unchanged(0,"after the solver"); w.unchanged(2,"after the solver");
    if(twice){ op("again"); add_euler(e,w.f[0],gamma,w.dx); solve(w,gamma,0,1,how^1); compare(w.in(1),e,"second contribution",tol); w.unchanged(0,"after the solver"); }
    track(w);
}
// the same states with all velocities multiplied by b and all densities by a
static std::vector<std::vector<double>> speeds(std::vector<std::vector<double>> P, double b, double a=1.){ for(auto & s:P){ s[0]*=a; for(int j=1;j<4;++j) s[j]*=a*b; s[4]*=a*b*b; } return P; }
static void setup_fields(world & w){ w.add("q",5); w.add("rhs",5); w.add("other",5); tag(w.f[1],3); tag(w.f[2],4); }

static void c12(){
    int part=choose(8,"part");
    if(part==7){ // tiny, huge and stretched cells
        int n=upto("dims",1,3), d=upto("axis",0,n-1); double h=pick<double>("width",{1e-13,1e-9,1e-5,1e6,1e15}); int rest=choose(2,"others"); shard(); ivec lo(n,0),hi(n,2); dvec wd(n,rest?h*3:1.); wd[d]=h; world w(lo,hi,dvec(n,0.),wd); setup_fields(w); for(auto & v:w.f[1].v) v=0; auto P=gas(1.4); field & q=w.f[0]; size_t i=0; for_box(q.elo(),q.ehi(),[&](const ivec & x){ put(q,x,P[(i*3+i/5)%8]); ++i; }); poison_corners(q,poison()); formula_check(w,1.4,rest); return; }
    if(part==6){ // large meshes
        ivec hi=pick<ivec>("mesh",{{30011},{150,141},{23,29,31}}); int pat=choose(2,"pattern"); shard(); int n=(int)hi.size(); ivec lo(n,0); world w(lo,hi); setup_fields(w); auto P=gas(1.4); field & q=w.f[0]; size_t i=0; for_box(q.elo(),q.ehi(),[&](const ivec & x){ put(q,x,P[(i*(pat*2+1)+(i/7)*5+(i>>4)+(i>>9))%8]); ++i; }); poison_corners(q,poison()); formula_check(w,1.4,pat); return; }
    if(part==5){ // magnitudes, and differences that are tiny compared with the state
        int n=upto("dims",1,2), d=upto("axis",0,n-1); int kind=choose(10,"magnitude"); int s[5]; for(int i=0;i<5;++i){ s[i]=choose(n==1?5:3,"state"); if(i==1) shard(); } static const double S[]={1e-12,1e-30,1e30,1,1,1}; auto P=gas(1.4,kind<6?S[kind]:1.);
        if(kind>=6) P=speeds(P,kind==6?1e5:kind==7?1e-6:kind==8?3e8:1e-3,kind==9?1e-5:1.); else if(kind>=3){ double t=kind==3?1e-12:kind==4?-1e-12:3e-11; P={{1,0,0,0,2.5},{1,t,0,0,2.5},{1,0,t,-t,2.5},{1+t,0,0,0,2.5},{1,t,t,0,2.5+t}}; }
        ivec lo(n,0),hi(n,1); lo[d]=-1; hi[d]=0; world w(lo,hi); setup_fields(w); for(auto & v:w.f[1].v) v=0; field & q=w.f[0]; for_box(q.elo(),q.ehi(),[&](const ivec & x){ put(q,x,P[s[x[d]-lo[d]+2]]); }); poison_corners(q,poison()); formula_check(w,1.4,s[0]%4); return; }
    if(part==4){ // wave speeds that are exactly zero: the flux is continuous there
        int n=upto("dims",1,3), d=upto("axis",0,n-1); double gamma=pick<double>("gamma",{1.5,2.,3.}); int s[5]; for(int i=0;i<5;++i){ s[i]=choose(n==1||thorough()?7:4,"state"); if(i==1) shard(); }
        ivec lo(n,0),hi(n,1); lo[d]=-1; hi[d]=0; world w(lo,hi); setup_fields(w); for(auto & v:w.f[1].v) v=0; auto P=sonic(gamma,d); field & q=w.f[0]; for_box(q.elo(),q.ehi(),[&](const ivec & x){ put(q,x,P[s[x[d]-lo[d]+2]]); }); poison_corners(q,poison()); formula_check(w,gamma,s[0]%4); return; }
    if(part==0){ // all sequences of states along one axis of a mesh with a single interior layer
        int n=upto("dims",1,3); int d=upto("axis",0,n-1); int K=thorough()?7:(n==1?7:5); double gamma=pick<double>("gamma",n==1?dvec{1.4,5./3.,1.1,1.0003}:dvec{1.4});
        int s[5]; for(int i=0;i<5;++i){ s[i]=choose(K,"state"); if(i==1) shard(); }
        ivec lo(n,-1),hi(n,0); lo[d]=2; hi[d]=3; for(int i=0;i<n;++i) if(i!=d) hi[i]+= (i%2); dvec st(n,0.3),wd={0.5,1.75,0.8}; wd.resize(n); world w(lo,hi,st,wd); setup_fields(w); auto P=gas(gamma); field & q=w.f[0];
        for_box(q.elo(),q.ehi(),[&](const ivec & x){ int k=s[x[d]-(lo[d]-2)]; for(int i=0;i<n;++i) if(i!=d) k+= (x[i]-lo[i]+8)*(i+2); put(q,x,P[k%8]); });
        if(n==1) for_box(q.elo(),q.ehi(),[&](const ivec & x){ put(q,x,P[s[x[0]-lo[0]+2]]); });
        poison_corners(q,poison()); formula_check(w,gamma,(s[0]+s[1])%4);
    } else if(part==1){ // shapes: every cell of every mesh gets its own contribution
        int n=upto("dims",1,3); ivec lo,hi; int low=choose(n==3?3:5,"lower"); for(int d=0;d<n;++d){ int l=low==3?-777-d:low==4?4001+d:low==0?0:low==1?-7+d:5; lo.push_back(l); hi.push_back(l+pick<int>("len",n==1?ivec{1,2,3,4,5,8,17,40,300,2000}:n==2?ivec{1,2,3,5,9,30}:ivec{1,2,3,6})); }
        double gamma=pick<double>("gamma",{1.4,2.}); shard(); int geo=choose(3,"geometry"); dvec st(n,geo==0?0.:-3.3),wd; for(int d=0;d<n;++d) wd.push_back(geo==0?1.: geo==1? 0.01*(d+1)*(hi[d]-lo[d]) : 50./(d+1));
        world w(lo,hi,st,wd); setup_fields(w); auto P=gas(gamma); field & q=w.f[0]; int mul=pick<int>("pattern",{1,3});
        size_t i=0; for_box(q.elo(),q.ehi(),[&](const ivec & x){ put(q,x,P[(i*mul+(i/7)*5+(i>>4))%8]); ++i; });
        poison_corners(q,poison()); formula_check(w,gamma,(int)(geo+mul)%4,1e-9,true);
    } else if(part==2){ // sub- and supersonic faces in both directions, shear, scales
        int d=upto("axis",0,2); double gamma=pick<double>("gamma",{1.4,5./3.,3.,1.0005}); double M=pick<double>("mach",{-5,-1.5,-0.99,-0.2,0,0.2,0.99,1.5,5}); double scale=pick<double>("scale",{1e-4,1.,1e5}); shard();
        double jr=pick<double>("density jump",{1,0.1,4}), jp=pick<double>("pressure jump",{1,0.2,8}), sh=pick<double>("shear",{0,0.6}); int slope=choose(3,"profile");
        ivec lo(d+1,0),hi(d+1,1); hi[d]=3; world w(lo,hi); setup_fields(w); field & q=w.f[0]; for(auto & v:w.f[1].v) v=0;
        for_box(q.elo(),q.ehi(),[&](const ivec & x){ int k=x[d]+2; double t= slope==0? (k>=4): slope==1? k/6. : (k%2?0.3:0.7); double rho=scale*(1+(jr-1)*t), Pr=scale*(1+(jp-1)*t); double u[3]={sh*t,-sh,sh*0.5*t}; u[d]=M*std::sqrt(gamma*Pr/rho); double e=Pr/(gamma-1); std::vector<double> s={rho,0,0,0,0}; for(int j=0;j<3;++j){ s[1+j]=rho*u[j]; e+=0.5*rho*u[j]*u[j]; } s[4]=e; put(q,x,s); });
        poison_corners(q,poison()); formula_check(w,gamma,slope);
    } else { // permuting and reflecting axes permutes and reflects the result
        int n=upto("dims",2,3); ivec p=pick<ivec>("permutation",perms(n)); int refl=choose(1<<n,"reflection"); int pat=choose(4,"pattern"); shard(); double gamma=pick<double>("gamma",{1.4,5./3.});
        ivec len={3,2,4}; len.resize(n); dvec wd={0.6,0.5,1.4}; wd.resize(n);
        ivec lo(n,0),hi=len,hi2(n); dvec wd2(n); for(int i=0;i<n;++i){ hi2[p[i]]=len[i]; wd2[p[i]]=wd[i]; }
        world a(lo,hi,dvec(n,0.),wd), b(lo,hi2,dvec(n,1.),wd2); setup_fields(a); setup_fields(b); auto P=gas(gamma); for(auto & v:a.f[1].v) v=0; b.f[1].v.assign(b.f[1].v.size(),0.);
        field & qa=a.f[0]; field & qb=b.f[0]; for(auto & v:qb.v) v=poison(); size_t i=0; for_box(qa.elo(),qa.ehi(),[&](const ivec & x){ put(qa,x,P[(i*(2*pat+1)+(i/5))%8]); ++i; });
        auto map=[&](const ivec & x){ ivec y(n); for(int j=0;j<n;++j) y[p[j]]= (refl>>j&1)? len[j]-1-x[j]:x[j]; return y; };
        auto mapc=[&](const double * s, double * t){ t[0]=s[0]; t[4]=s[4]; for(int j=0;j<3;++j) t[1+j]=s[1+j]; for(int j=0;j<n;++j) t[1+p[j]]= (refl>>j&1)? -s[1+j]:s[1+j]; };
        for_box(qa.elo(),qa.ehi(),[&](const ivec & x){ mapc(&qa.v[qa.off(x)],&qb.v[qb.off(map(x))]); }); poison_corners(qa,poison()); poison_corners(qb,poison());
        a.push(0);a.push(1);b.push(0);b.push(1); op("solve"); solve(a,gamma,0,1,0); op("solve the transformed problem"); solve(b,gamma,0,1,1); expected sc(a.f[1]); add_euler(sc,qa,gamma,a.dx); a.pull(1); b.pull(1);
        for_box(lo,hi,[&](const ivec & x){ size_t o=qa.off(x); if(!sc.ok[o]) return; double t[5]; mapc(&a.f[1].v[o],t); const double * r=&b.f[1].v[qb.off(map(x))]; double mscale=0; for(int k=1;k<4;++k) mscale=std::max(mscale,(double)sc.scale[o+k]); for(int k=0;k<5;++k){ double s=k>=1&&k<=3?mscale:(double)sc.scale[o+k]; if(!(std::fabs(t[k]-r[k])<=1e-9*s)) fail("cell %s component %d: %.17g after transforming, %.17g before",show(x).c_str(),k,r[k],t[k]); } }); track(a); track(b);
    }
}
static void sums(world & w, double gamma, const expected & sc, double tol){ // contributions over the interior cancel
    field & r=w.f[1]; field r0=r; w.pull(1); for(int c=0;c<5;++c){ real s=0,m=0; bool ok=true; for_box(r.lo,r.hi,[&](const ivec & x){ size_t o=r.off(x,0,c); if(!sc.ok[o]) ok=false; s+=(real)r.v[o]-r0.v[o]; m+=sc.scale[o]; }); if(ok&&!(std::fabs(s)<=tol*m)) fail("contributions to component %d sum to %.17Lg over the interior (scale %.3Lg)",c,s,m); }
}
static void c11(){
    int part=choose(5,"part");
    if(part==4){ // thin next to dense, hot next to cold
        double gamma=1.4; int n=upto("dims",1,3), d=upto("axis",0,n-1), len=upto("length",1,thorough()?5:n==1?4:3); int kind=choose(6,"contrast"); ivec lo(n,-1),hi(n,0); hi[d]=-1+len; world w(lo,hi); setup_fields(w); for(auto & v:w.f[1].v) v=0; field & q=w.f[0]; auto P=gas(gamma), T=P;
        static const double A[]={1e-4,1e-10,1e6,1,1,1e-5}, B[]={1,1,1,1e3,1e-5,3e4}; T=speeds(P,B[kind],A[kind]); static const int pick_of[]={0,1,2,3,5}; ivec s; for(int i=0;i<len;++i){ s.push_back(choose(len<3?16:10,"state")); if(i==1) shard(); } if(len<2) shard();
        for_box(lo,hi,[&](const ivec & x){ int k=s[x[d]-lo[d]]; put(q,x, len<3? (k<8?P[k]:T[k-8]) : (k<5?P[pick_of[k]]:T[pick_of[k-5]])); }); make_periodic(q,poison()); expected sc(w.f[1]); add_euler(sc,q,gamma,w.dx); w.push(0);w.push(1);w.push(2); op("euler on a periodic mesh of contrasts"); solve(w,gamma,0,1,len%4); w.unchanged(0,"after the solver"); sums(w,gamma,sc,1e-12); track(w); return; }
    if(part==3){ // exactly sonic states
        double gamma=pick<double>("gamma",{1.5,2.,3.}); int n=upto("dims",1,3), d=upto("axis",0,n-1), len=upto("length",1,thorough()?6:5); ivec lo(n,2),hi(n,3); hi[d]=2+len; world w(lo,hi); setup_fields(w); for(auto & v:w.f[1].v) v=0; auto P=sonic(gamma,d); field & q=w.f[0]; std::vector<int> s; for(int i=0;i<len;++i){ s.push_back(choose(len>4?5:7,"state")); if(i==1) shard(); } if(len<2) shard(); for_box(lo,hi,[&](const ivec & x){ put(q,x,P[s[x[d]-2]]); }); make_periodic(q,poison()); expected sc(w.f[1]); add_euler(sc,q,gamma,w.dx); w.push(0);w.push(1);w.push(2); op("euler on a periodic mesh of sonic states"); solve(w,gamma,0,1,len%4); sums(w,gamma,sc,1e-12);
        if(len==1){ expected r0(w.f[1]); for(auto & v:r0.v) v=0; r0.scale=sc.scale; r0.ok=sc.ok; compare(w.in(1),r0,"uniform sonic state",1e-12); } track(w); return; }
    if(part==0||part==1){ // periodic meshes, all assignments of palette states to the cells
        int n,K; ivec len; double gamma=pick<double>("gamma",{1.4,5./3.});
        if(part==0){ std::vector<ivec> L={{1},{2},{3},{4},{5},{1,1},{2,1},{1,3},{2,2},{3,2},{1,1,2},{2,1,2},{2,2,1}}; len=pick<ivec>("mesh",L); } else { std::vector<ivec> L={{7},{12},{33},{400},{5,4},{9,2},{16,17},{3,3,3},{4,2,5},{6,5,3}}; len=pick<ivec>("mesh",L); }
        n=(int)len.size(); int cells=1; for(int l:len) cells*=l; K= thorough()? (cells<=4?8:5) : (cells<=3?8:cells<=4?5:4);
        ivec lo(n,part?0:-2),hi(n); lo[0]=1; for(int i=0;i<n;++i) hi[i]=lo[i]+len[i]; dvec wd={0.5,1.75,0.8}; wd.resize(n);
        world w(lo,hi,dvec(n,-1.),wd); setup_fields(w); field & q=w.f[0]; auto P=gas(gamma);
        if(part==0){ int i=0; for_box(lo,hi,[&](const ivec & x){ put(q,x,P[choose(K,"state")]); if(++i==2) shard(); }); if(cells<2) shard(); }
        else { int pat=choose(12,"pattern"); shard(); int i=0; for_box(lo,hi,[&](const ivec & x){ auto s=P[(i*(pat+1)+(i>>3)*pat)%8]; for(int c=0;c<5;++c) if(c==0||c==4) s[c]*=1+0.05*((i*31+c*pat)%5); put(q,x,s); ++i; }); }
        make_periodic(q,poison()); expected sc(w.f[1]); add_euler(sc,q,gamma,w.dx); w.push(0);w.push(1);w.push(2); op("euler on a periodic mesh"); solve(w,gamma,0,1,cells%4); w.unchanged(0,"after the solver"); w.unchanged(2,"after the solver"); sums(w,gamma,sc,1e-12); track(w);
    } else { // uniform states get nothing, contributions accumulate
        int n=upto("dims",1,3); double gamma=pick<double>("gamma",{1.01,1.4,5./3.,2.,3.}); double rho=pick<double>("density",{1e-8,0.125,1,1e5}); double pr=pick<double>("pressure",{1e-6,1,1e4}); shard();
        dvec V={0,1.5,-0.3,-40}; double u[3]; for(int d=0;d<3;++d) u[d]=pick<double>("velocity",d<n?V:dvec{0,-0.7}); int big=choose(2,"size");
        ivec lo(n,-3),hi(n,big?2:-2); if(big) hi[0]=30; dvec wd={0.01,2.5,3}; wd.resize(n); world w(lo,hi,dvec(n,5.),wd); setup_fields(w); field & q=w.f[0]; double ke=0; for(int d=0;d<3;++d) ke+=0.5*rho*u[d]*u[d];
        std::vector<double> s={rho,rho*u[0],rho*u[1],rho*u[2],pr/(gamma-1)+ke}; if(!(pr/(gamma-1)>1e-7*ke)){ trans(1); return; }
        for_box(q.elo(),q.ehi(),[&](const ivec & x){ put(q,x,s); }); poison_corners(q,poison()); expected sc(w.f[1]); expected r0(w.f[1]); add_euler(sc,q,gamma,w.dx); r0.scale=sc.scale; r0.ok=sc.ok; w.push(0);w.push(1);w.push(2);
        for(int t=0;t<2;++t){ op("euler on a uniform state"); solve(w,gamma,0,1,t+2*big); compare(w.in(1),r0,"uniform state contribution",1e-12); } w.unchanged(0,"after the solver"); w.unchanged(2,"after the solver"); track(w);
    }
}
void body(){ if(prop()=="C11") c11(); else c12(); }
