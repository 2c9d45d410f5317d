// C14, C15: Lorentz force and current source.
#include "num.h"
#include "solver/lorentz_force.h"
#include "solver/current_source.h"
using namespace mc; using namespace ref;

static const double V[]={0,1,-2,0.5,3e4,-1e-5,7};
static const double TINY[]={1e-6,1e-9,1e-14,1e-40,1e-120,1e20,1e60};
static void wild(field & f, int salt){ for(size_t i=0;i<f.v.size();++i) f.v[i]=V[(i*(2*salt+3)+(i/7)*salt+salt)%7]*(1+0.01*((i*salt)%11)); }
static void poison_ghosts(field & f){ for_box(f.elo(),f.ehi(),[&](const ivec & x){ if(f.outside(x)) for(int c=0;c<f.nc;++c) f.at(x,0,c)=poison(); }); }
static qk::solver::lorentz_force LF; static qk::solver::current_source CS;

static void lorentz(world & w, double q, double m, int how, int fl, int em, int rhs){
    qk::solver::lorentz_force fresh; auto & s= how&1?LF:fresh; s.setup(q,m); s.set_input_variables({w.ids[fl],w.ids[em]}); s.set_output_variables({w.ids[rhs]}); if(how&2){ auto c(s); c.solve(*w.mgr); } else s.solve(*w.mgr);
}
static ivec mesh(ivec & hi, int n, bool big){ ivec lo; int low=choose(n==3?2:4,"lower"); for(int d=0;d<n;++d){ int l=low==2?-777-d:low==3?4001+d:low?-4+3*d:0; lo.push_back(l); hi.push_back(l+pick<int>("len",n==1?(big?ivec{1,2,3,7,64,1500,15013}:ivec{1,2,5}): n==2?(big?ivec{1,2,5,24,130}:ivec{1,3}):ivec{1,2,4})); } return lo; }
static void c14(){
    int part=choose(4,"part");
    if(part==3){ // magnitudes: a contribution counts at its own scale
        int n=upto("dims",1,2); ivec lo(n,1),hi(n,3); world w(lo,hi); w.add("fluid",5); w.add("em",6); w.add("rhs",5); double a=pick<double>("fluid scale",dvec(TINY,TINY+7)), b=pick<double>("field scale",dvec(TINY,TINY+7)); shard(); double ch=pick<double>("charge",{1,-1e-6,1e6,-1.602176634e-19}), ms=pick<double>("mass",{1,1e-5,9.1093837e-31,1e25}); double r0=pick<double>("previous",{0,1e-30});
        for(int i=0;i<2;++i) for(size_t k=0;k<w.f[i].v.size();++k) w.f[i].v[k]=(i?b:a)*(0.5+((k*7+i)%9)*0.25)*(k%3==1?-1:1); w.f[2].v.assign(w.f[2].v.size(),0.); for_box(lo,hi,[&](const ivec & x){ put(w.f[2],x,{r0,r0,-r0,r0,r0}); }); for(int i=0;i<3;++i) w.push(i); expected e(w.f[2]); add_lorentz(e,w.f[0],w.f[1],(real)ch/ms); op("lorentz on fields of magnitude %g and %g",a,b); lorentz(w,ch,ms,n,0,1,2); compare(w.in(2),e,"force",1e-12); w.unchanged(0,"after the solver"); w.unchanged(1,"after the solver"); track(w); return; }
    if(part==0){ // all small vectors in one cell
        int n=upto("dims",1,2); ivec lo(n,1),hi(n,2); world w(lo,hi); w.add("fluid",5); w.add("em",6); w.add("rhs",5);
        const dvec A= thorough()? dvec{0,1,-2}: dvec{0,1.5}; double rho=pick<double>("rho",{1,0.25}); double p[3],E[3],B[3]; for(int k=0;k<3;++k) p[k]=pick<double>("p",A)*(k+1); for(int k=0;k<3;++k) E[k]=pick<double>("E",A)*(2-k); shard(); for(int k=0;k<3;++k) B[k]=pick<double>("B",{0,-1,0.75})*(k+0.5);
        double ch=pick<double>("charge",{1,-1,0,25}), ms=pick<double>("mass",{1,0.04}); for(auto & f:w.f){ tag(f,1); poison_ghosts(f); } field & fl=w.f[0]; field & em=w.f[1];
        put(fl,lo,{rho,p[0],p[1],p[2],9.}); put(em,lo,{E[0],E[1],E[2],B[0],B[1],B[2]}); put(w.f[2],lo,{0,0,0,0,0}); for(int i=0;i<3;++i) w.push(i);
        expected e(w.f[2]); add_lorentz(e,fl,em,(real)ch/ms); op("lorentz q %g m %g",ch,ms); lorentz(w,ch,ms,0,0,1,2); compare(w.in(2),e,"force",1e-13); w.unchanged(0,"after the solver"); w.unchanged(1,"after the solver"); w.pull(2);
        const double * r=&w.f[2].v[fl.off(lo)]; if(r[0]!=0) fail("density right-hand side became %g",r[0]); if(E[0]==0&&E[1]==0&&E[2]==0){ if(r[4]!=0) fail("magnetic field does work: %g",r[4]); double s1=0,s2=0,m1=0; for(int k=0;k<3;++k){ s1+=r[1+k]*p[k]; s2+=r[1+k]*B[k]; m1+=std::fabs(r[1+k]); } if(std::fabs(s1)>1e-11*m1*20||std::fabs(s2)>1e-11*m1*20) fail("force not perpendicular: f.p=%g f.B=%g",s1,s2); } track(w);
    } else if(part==1){ // shapes, accumulation, bystanders, order of creation
        int n=upto("dims",1,3); ivec hi; ivec lo=mesh(hi,n,true); int order=choose(3,"creation order"); shard(); int how=choose(4,"use"); double ch=pick<double>("charge",{-1,4.5,0}), ms=pick<double>("mass",{0.04,2});
        world w(lo,hi); int id[4]; static const char * N[]={"fluid","em","rhs","other"}; static const int C[]={5,6,5,5}; int seq[3][4]={{0,1,2,3},{3,2,1,0},{2,0,3,1}}; for(int i=0;i<4;++i){ int k=seq[order][i]; id[k]=w.add(N[k],C[k]); wild(w.f[id[k]],k+1); poison_ghosts(w.f[id[k]]); w.push(id[k]); }
        expected e(w.f[id[2]]); for(int t=0;t<2;++t){ add_lorentz(e,w.f[id[0]],w.f[id[1]],(real)ch/ms); op("lorentz"); lorentz(w,ch,ms,how^t,id[0],id[1],id[2]); compare(w.in(id[2]),e,"force",1e-12); for(int k:{0,1,3}) w.unchanged(id[k],"after the solver"); } track(w);
    } else { // several species with their own objects on several fields, in any order
        ivec lo={-1,2},hi={2,4}; world w(lo,hi); w.add("e",5); w.add("i",5); w.add("em",6); w.add("em2",6); w.add("re",5); w.add("ri",5); for(size_t i=0;i<w.f.size();++i){ wild(w.f[i],(int)i+1); w.push((int)i); }
        qk::solver::lorentz_force s[2]; s[0].setup(-1,0.04); s[1].setup(2,1); double com[2]={-25,2}; int depth=thorough()?6:5; expected ee(w.f[4]),ei(w.f[5]); expected * ex[2]={&ee,&ei};
        for(int d=0;d<depth;++d){ int a=choose(2,"species"), f=choose(2,"field"); if(d==1) shard(); int t=a; if(d%2) t=choose(2,"target"); s[a].set_input_variables({w.ids[a],w.ids[2+f]}); s[a].set_output_variables({w.ids[4+t]}); op("species %d field %d into %d",a,f,t); s[a].solve(*w.mgr); add_lorentz(*ex[t],w.f[a],w.f[2+f],com[a]); compare(w.in(4),ee,"first right-hand side",1e-12); compare(w.in(5),ei,"second right-hand side",1e-12); for(int k=0;k<4;++k) w.unchanged(k,"after the solver"); }
        hasher h; for(auto v:ee.v) h.add((double)v); for(auto v:ei.v) h.add((double)v); state(h.get());
    }
}
static void current(world & w, double eps, const dvec & ch, const dvec & ms, const ivec & sp, int rhs, int how){
    qk::solver::current_source fresh; auto & s=how&1?CS:fresh; s.setup(eps,ch,ms); std::vector<vid> in; for(int i:sp) in.push_back(w.ids[i]); s.set_input_variables(in); s.set_output_variables({w.ids[rhs]}); if(how&2){ auto c(s); c.solve(*w.mgr); } else s.solve(*w.mgr);
}
static void c15(){
    int part=choose(4,"part"); const dvec CH={-1,1,0,3.5,-25},MS={1,0.04,2.5,1836,0.3};
    if(part==3){ // magnitudes, many species
        int n=upto("dims",1,2); int ns=pick<int>("species",{1,2,5,6,9,17,40}); double a=pick<double>("fluid scale",dvec(TINY,TINY+7)); shard(); double eps=pick<double>("eps0",{1,8.85e-12,3e14}); int si=choose(2,"units"); int how=choose(2,"use"); ivec lo(n,-1),hi(n,2); world w(lo,hi); ivec sp; dvec ch,ms; for(int i=0;i<ns;++i){ sp.push_back(w.add("s"+std::to_string(i),5)); ch.push_back(CH[i%5]*(1+i)); ms.push_back(MS[(i*3)%5]*(i==2?1e-6:1)); if(si){ ch.back()*=1.602176634e-19; ms.back()*=9.1093837e-31; } } int r=w.add("rhs",6); for(size_t i=0;i<w.f.size();++i) for(size_t k=0;k<w.f[i].v.size();++k) w.f[i].v[k]= (int)i==r? 0. : a*(0.5+((k*7+i)%9)*0.25)*((k+i)%3==1?-1:1); for(size_t i=0;i<w.f.size();++i) w.push((int)i);
        expected e(w.f[r]); for(int i=0;i<ns;++i) add_current(e,w.f[sp[i]],-(real)ch[i]/ms[i]/eps); op("current of %d species, magnitude %g",ns,a); current(w,eps,ch,ms,sp,r,how); compare(w.in(r),e,"electric field source",1e-12); for(int i:sp) w.unchanged(i,"after the solver"); track(w); return; }
    if(part==0){ // shapes and species lists
        int n=upto("dims",1,3); ivec hi; ivec lo=mesh(hi,n,true); int ns=upto("species",0,4); shard(); int how=choose(4,"use"); double eps=pick<double>("eps0",{1,0.05,-2}); int off=choose(3,"constants");
        world w(lo,hi); ivec sp; dvec ch,ms; for(int i=0;i<ns;++i){ sp.push_back(w.add("s"+std::to_string(i),5)); ch.push_back(CH[(i+off)%5]); ms.push_back(MS[(i+2*off)%5]); } int r=w.add("rhs",6), o=w.add("other",6); for(size_t i=0;i<w.f.size();++i){ wild(w.f[i],(int)i+1); poison_ghosts(w.f[i]); w.push((int)i); }
        expected e(w.f[r]); for(int t=0;t<2;++t){ for(int i=0;i<ns;++i) add_current(e,w.f[sp[i]],-(real)ch[i]/ms[i]/eps); op("current of %d species",ns); current(w,eps,ch,ms,sp,r,how^t); compare(w.in(r),e,"electric field source",1e-12); for(int i:sp) w.unchanged(i,"after the solver"); w.unchanged(o,"after the solver"); } track(w);
    } else if(part==1){ // lists with repetitions, reconfiguring one object, refused configurations
        ivec lo={0,-3},hi={2,0}; world w(lo,hi); for(int i=0;i<3;++i) w.add("s"+std::to_string(i),5); int r=w.add("rhs",6); for(size_t i=0;i<w.f.size();++i){ wild(w.f[i],(int)i+1); w.push((int)i); }
        qk::solver::current_source s; expected e(w.f[r]); std::vector<ivec> L={{0},{1},{0,1},{1,0},{2,2},{0,1,2},{2,1,0},{}}; dvec ch,ms; double eps=1; ivec cur; int depth=thorough()?4:3; bool set=false;
        for(int d=0;d<depth;++d){ int a=choose(3,"action"); if(a==0){ cur=pick<ivec>("species",L); int k=choose(2,"constants"); if(d==0) shard(); ch.clear(); ms.clear(); eps=k?0.2:1.5; for(size_t i=0;i<cur.size();++i){ ch.push_back(CH[(i+k+d)%5]); ms.push_back(MS[(i+k)%5]); } s.setup(eps,ch,ms); std::vector<vid> in; for(int i:cur) in.push_back(w.ids[i]); s.set_input_variables(in); s.set_output_variables({w.ids[r]}); set=true; op("setup %s",show(cur).c_str()); }
            else if(a==1){ if(d==0) shard(); int k=choose(3,"bad lists"); op("setup with lists of different length"); if(!throws([&]{ if(k==0) s.setup(1,{1,2},{1}); else if(k==1) s.setup(1,{},{1}); else s.setup(1,{1,2,3},{1,2}); })) fail("charge and mass lists of different length accepted"); }
            else { if(d==0) shard(); if(!set) continue; op("solve"); for(size_t i=0;i<cur.size();++i) add_current(e,w.f[cur[i]],-(real)ch[i]/ms[i]/eps); s.solve(*w.mgr); }
            compare(w.in(r),e,"electric field source",1e-12); for(int i=0;i<3;++i) w.unchanged(i,"after the solver"); hasher h; for(auto v:e.v) h.add((double)v); h.add(cur).add(ch).add(d); state(h.get()); }
        // number of species and constants must agree
        if(set&&!cur.empty()){ s.add_input_variable(w.ids[0]); op("one species too many"); if(!throws([&]{ s.solve(*w.mgr); })) fail("more species than constants accepted"); compare(w.in(r),e,"after refusal",1e-12); }
    } else { // single components
        int comp=upto("component",0,4); int ns=upto("species",1,2); double a=pick<double>("charge",{1,-1,2}), m=pick<double>("mass",{1,4}), eps=pick<double>("eps0",{1,8}); shard(); int n=upto("dims",1,3); ivec lo(n,0),hi(n,2); world w(lo,hi); ivec sp; for(int i=0;i<ns;++i) sp.push_back(w.add("s"+std::to_string(i),5)); int r=w.add("rhs",6); size_t cell=choose(1<<n,"cell"),k=0; for_box(lo,hi,[&](const ivec & x){ if(k++==cell) for(int i:sp) w.f[i].at(x,0,comp)=1+i; }); for(size_t i=0;i<w.f.size();++i) w.push((int)i);
        expected e(w.f[r]); dvec ch(ns,a),ms(ns,m); for(int i:sp) add_current(e,w.f[i],-(real)a/m/eps); op("current"); current(w,eps,ch,ms,sp,r,0); for(auto & s:e.scale) s=1; compare(w.in(r),e,"electric field source",1e-13); track(w);
    }
}
void body(){ if(prop()=="C14") c14(); else c15(); }
