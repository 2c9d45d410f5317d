// C13: the field solver.
#include "num.h"
#include "solver/maxwell.h"
using namespace mc; using namespace ref;
static qk::solver::maxwell reused;
static void solve(world & w, double c, int how){ qk::solver::maxwell fresh; qk::solver::maxwell & s=how&1?reused:fresh; s.setup(c); s.set_input_variables({w.ids[0]}); s.set_output_variables({w.ids[1]}); if(how&2){ qk::solver::maxwell copy(s); copy.solve(*w.mgr); } else s.solve(*w.mgr); }
static void setup_fields(world & w){ w.add("em",6); w.add("rhs",6); w.add("other",6); tag(w.f[1],3); tag(w.f[2],4); }
static void formula_check(world & w, double c, int how, bool twice=false){
    static const double DT[]={0.37,-2.5,0,4e5}; w.mgr->set_dt(DT[how&3]); w.mgr->set_time(DT[(how+1)&3]); w.push(0); w.push(1); w.push(2); expected e(w.f[1]); add_maxwell(e,w.f[0],c,w.dx); op("maxwell c %g",c); solve(w,c,how); compare(w.in(1),e,"contribution"); w.unchanged(0,"after the solver"); w.unchanged(2,"after the solver");
    if(twice){ op("again"); add_maxwell(e,w.f[0],c,w.dx); solve(w,c,how^1); compare(w.in(1),e,"second contribution"); }
    track(w);
}
void body(){
    auto P=ems(); int part=choose(8,"part");
    if(part==6){ // large meshes
        ivec hi=pick<ivec>("mesh",{{30011},{150,141},{23,29,31}}); int pat=choose(2,"pattern"); shard(); int n=(int)hi.size(); ivec lo(n,0); world w(lo,hi); setup_fields(w); field & q=w.f[0]; size_t i=0; for_box(q.elo(),q.ehi(),[&](const ivec & x){ put(q,x,P[(i*(pat*2+1)+(i/7)*5+(i>>4)+(i>>9))%7]); ++i; }); poison_corners(q,poison()); formula_check(w,1.3,pat); return; }
    if(part==7){ // tiny, huge and stretched cells
        int n=upto("dims",1,3), d=upto("axis",0,n-1); double h=pick<double>("width",{1e-13,1e-9,1e-5,1e6,1e15}); int rest=choose(2,"others"); shard(); ivec lo(n,0),hi(n,2); dvec wd(n,rest?h*3:1.); wd[d]=h; world w(lo,hi,dvec(n,0.),wd); setup_fields(w); w.f[1].v.assign(w.f[1].v.size(),0.); field & q=w.f[0]; size_t i=0; for_box(q.elo(),q.ehi(),[&](const ivec & x){ put(q,x,P[(i*3+i/5)%7]); ++i; }); poison_corners(q,poison()); formula_check(w,1.3,rest); return; }
    if(part==5){ // magnitudes: the scheme is linear in the scale of the fields, and tiny differences are differences
        int n=upto("dims",1,3), d=upto("axis",0,n-1); double s=pick<double>("magnitude",{1e-12,1e-10,1e-30,1e-100,1e100,1.}); shard(); double off=pick<double>("offset",{0,1}); double c=pick<double>("c",{1.,-0.5,3e4,299792458.,1e-7}); double V[]={0,s,-s,2.5*s,s*1.001}; int k[5]; for(int i=0;i<5;++i) k[i]=choose(n==1?5:3,"value");
        ivec lo(n,0),hi(n,1); world w(lo,hi,dvec(n,0.),dvec(n,0.25)); setup_fields(w); w.f[1].v.assign(w.f[1].v.size(),0.); field & q=w.f[0]; for_box(q.elo(),q.ehi(),[&](const ivec & x){ for(int m=0;m<6;++m) q.at(x,0,m)= off*(m+1)+V[k[x[d]+2]]*(m%2?1:-1)*(c>1e8&&m<3?c:1.); }); poison_corners(q,poison()); formula_check(w,c,0); return; }
    if(part==0){ int n=upto("dims",1,3); int d=upto("axis",0,n-1); int K=thorough()?7:(n==1?6:5); double c=pick<double>("c",n==1?dvec{1.,-2.,0.,3e3,1e-8,-299792458.}:dvec{1.5});
        int s[5]; for(int i=0;i<5;++i){ s[i]=choose(K,"state"); if(i==1) shard(); }
        ivec lo(n,-1),hi(n,0); lo[d]=2; hi[d]=3; for(int i=0;i<n;++i) if(i!=d) hi[i]+=(i%2); dvec wd={0.5,1.75,0.8}; wd.resize(n); world w(lo,hi,dvec(n,0.3),wd); setup_fields(w); field & q=w.f[0];
        for_box(q.elo(),q.ehi(),[&](const ivec & x){ int k=s[x[d]-(lo[d]-2)]; for(int i=0;i<n;++i) if(i!=d) k+=(x[i]-lo[i]+8)*(i+2); if(n==1) k=s[x[0]-lo[0]+2]; put(q,x,P[k%7]); }); poison_corners(q,poison()); formula_check(w,c,(s[0]+s[1])%4);
    } else if(part==1){ int n=upto("dims",1,3); ivec lo,hi; int low=choose(n==3?3:5,"lower"); for(int d=0;d<n;++d){ int l=low==3?-777-d:low==4?4001+d:low==0?0:low==1?-7+d:5; lo.push_back(l); hi.push_back(l+pick<int>("len",n==1?ivec{1,2,3,4,5,8,17,40,300,2000}:n==2?ivec{1,2,3,5,9,30}:ivec{1,2,3,6})); }
        double c=pick<double>("c",{1.,0.3}); shard(); int geo=choose(3,"geometry"); dvec st(n,geo==0?0.:-3.3),wd; for(int d=0;d<n;++d) wd.push_back(geo==0?1.: geo==1? 0.01*(d+1)*(hi[d]-lo[d]) : 50./(d+1));
        world w(lo,hi,st,wd); setup_fields(w); field & q=w.f[0]; int mul=pick<int>("pattern",{1,3}); size_t i=0; for_box(q.elo(),q.ehi(),[&](const ivec & x){ auto s=P[(i*mul+(i/6)*5+(i>>4))%7]; for(size_t k=0;k<6;++k) s[k]*=1+0.1*((i*13+k*5)%4); put(q,x,s); ++i; }); poison_corners(q,poison()); formula_check(w,c,(geo+mul)%4,true);
    } else if(part==2){ // periodic sums and uniform fields
        std::vector<ivec> L={{1},{2},{3},{4},{9},{200},{2,2},{3,2},{1,4},{12,7},{2,2,2},{3,1,2},{5,4,3}}; ivec len=pick<ivec>("mesh",L); double c=pick<double>("c",{1.,-0.7,12.,-35.}); int pat=choose(thorough()?200:40,"pattern"); shard(); int n=(int)len.size();
        ivec lo(n,-2),hi(n); lo[0]=1; for(int i=0;i<n;++i) hi[i]=lo[i]+len[i]; dvec wd={0.5,1.75,0.8}; wd.resize(n); world w(lo,hi,dvec(n,-1.),wd); setup_fields(w); field & q=w.f[0]; int i=0; for_box(lo,hi,[&](const ivec & x){ auto s=P[pat<7?pat:(i*(pat+1)+(i>>3)*pat)%7]; if(pat>=7) for(int k=0;k<6;++k) s[k]*=1+0.05*((i*31+k*pat)%5); put(q,x,s); ++i; }); make_periodic(q,poison());
        expected sc(w.f[1]); add_maxwell(sc,q,c,w.dx); w.push(0);w.push(1);w.push(2); op("maxwell on a periodic mesh"); solve(w,c,pat%4); w.unchanged(0,"after the solver"); w.unchanged(2,"after the solver"); field r0=w.f[1]; w.pull(1); field & r=w.f[1];
        for(int k=0;k<6;++k){ real s=0,m=0; for_box(lo,hi,[&](const ivec & x){ size_t o=r.off(x,0,k); s+=(real)r.v[o]-r0.v[o]; m+=sc.scale[o]; if(pat<7&&!(std::fabs(r.v[o]-r0.v[o])<=1e-12L*sc.scale[o])) fail("uniform field: component %d gets %.17g",k,r.v[o]-r0.v[o]); }); if(!(std::fabs(s)<=1e-12L*m)) fail("contributions to component %d sum to %.17Lg (scale %.3Lg)",k,s,m); } track(w);
    } else if(part==3){ // cyclic permutation of axes in three dimensions
        int rot=upto("rotation",1,2); int pat=choose(20,"pattern"); shard(); ivec len={3,2,4}; dvec wd={0.6,0.5,1.4}; ivec len2(3); dvec wd2(3); for(int i=0;i<3;++i){ len2[(i+rot)%3]=len[i]; wd2[(i+rot)%3]=wd[i]; }
        ivec lo(3,0); world a(lo,len,dvec(3,0.),wd), b(lo,len2,dvec(3,2.),wd2); setup_fields(a); setup_fields(b); a.f[1].v.assign(a.f[1].v.size(),0.); b.f[1].v.assign(b.f[1].v.size(),0.); field & qa=a.f[0]; field & qb=b.f[0]; size_t i=0; for_box(qa.elo(),qa.ehi(),[&](const ivec & x){ put(qa,x,P[(i*(pat+1)+i/5)%7]); ++i; });
        auto mp=[&](const ivec & x){ ivec y(3); for(int j=0;j<3;++j) y[(j+rot)%3]=x[j]; return y; }; auto mapc=[&](int c){ return c/3*3+(c%3+rot)%3; };
        for_box(qa.elo(),qa.ehi(),[&](const ivec & x){ for(int c=0;c<6;++c) qb.at(mp(x),0,mapc(c))=qa.at(x,0,c); }); poison_corners(qa,poison()); poison_corners(qb,poison()); expected sc(a.f[1]); add_maxwell(sc,qa,1.3,a.dx); a.push(0);a.push(1);b.push(0);b.push(1); op("solve"); solve(a,1.3,0); op("solve rotated"); solve(b,1.3,1); a.pull(1); b.pull(1);
        for_box(lo,len,[&](const ivec & x){ for(int c=0;c<6;++c){ double u=a.f[1].at(x,0,c),v=b.f[1].at(mp(x),0,mapc(c)); if(!(std::fabs(u-v)<=1e-9*(double)sc.scale[qa.off(x,0,c)])) fail("cell %s component %d: %.17g rotated, %.17g before",show(x).c_str(),c,v,u); } }); track(a); track(b);
    } else { // one component at a time: every coupling and its sign, every axis
        int n=upto("dims",1,3); int comp=upto("component",0,5); int d=upto("axis",0,n-1); shard(); double c=pick<double>("c",{1.,2.5,-0.5}); dvec V={0,1,-2,0.5}; int s[5]; for(int i=0;i<5;++i) s[i]=choose(i==0||i==4?2:(thorough()?4:3),"value");
        ivec lo(n,0),hi(n,1); dvec wd(n,0.25); world w(lo,hi,dvec(n,0.),wd); setup_fields(w); field & q=w.f[0]; for_box(q.elo(),q.ehi(),[&](const ivec & x){ bool line=true; for(int i=0;i<n;++i) if(i!=d&&x[i]!=0) line=false; for(int k=0;k<6;++k) q.at(x,0,k)= k==comp&&line? V[s[x[d]+2]]:0; }); poison_corners(q,poison()); formula_check(w,c,0);
    }
}
