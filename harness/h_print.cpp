// C29: the printed listing of fields.
#include "num.h"
#include <iostream>
#include <iomanip>
#include "solver/print.h"
using namespace mc; using namespace ref;
static qk::solver::print reused;
struct capture { std::streambuf * b; std::ostringstream s; std::ios::fmtflags fl; std::streamsize pr; capture(){ b=std::cout.rdbuf(s.rdbuf()); fl=std::cout.flags(); pr=std::cout.precision(); } ~capture(){ std::cout.rdbuf(b); std::cout.flags(fl); std::cout.precision(pr); } };
static std::string listing(world & w, const std::vector<vid> & l, int how, int prec, bool * refused=0){
    qk::solver::print fresh; auto & p= how&1?reused:fresh; if(how&1) p.set_input_variables(l); else for(auto & i:l) p.add_input_variable(i); capture c; if(prec>0) std::cout<<std::setprecision(prec); auto go=[&]{ if(how&2){ auto k(p); k.solve(*w.mgr); } else p.solve(*w.mgr); };
    auto f0=std::cout.flags(); auto p0=std::cout.precision(); char c0=std::cout.fill();
    if(refused) *refused=throws(go); else go(); if(std::cout.flags()!=f0||std::cout.precision()!=p0||std::cout.fill()!=c0||!std::cout.good()) fail("printing changed the format or state of the stream"); p.set_input_variables({}); return c.s.str(); }
// every number of a line after the first ( or :, in order
static std::vector<std::string> tokens(const std::string & line){ std::vector<std::string> r; std::string t; for(char ch:line){ if(isdigit((unsigned char)ch)||strchr("+-.eEinfa",ch)) t+=ch; else { if(!t.empty()) r.push_back(t); t.clear(); } } if(!t.empty()) r.push_back(t); return r; }
static void check_text(const std::string & text, const world & w, const ivec & list, int prec){
    std::istringstream s(text); std::string line; double tol= 0.51*std::pow(10.,1-(prec>0?prec:6)); long n=0;
    for(int v:list){ const field & f=w.f[v]; if(!std::getline(s,line)) fail("listing ends before field %s",w.ids[v].name().c_str()); if(line.find("'"+w.ids[v].name()+"'")==std::string::npos) fail("'%s' instead of the heading of field %s",line.c_str(),w.ids[v].name().c_str());
        for_box(f.lo,f.hi,[&](const ivec & x){ for(int p=0;p<f.np;++p) for(int c=0;c<f.nc;++c){ if(!std::getline(s,line)) fail("listing of %s ends before cell %s",w.ids[v].name().c_str(),show(x).c_str()); size_t o=line.find('('), e=line.find(')'), k=line.rfind(':'); if(o==std::string::npos||e==std::string::npos||k==std::string::npos||e<o||k<e) fail("line '%s'",line.c_str());
            ivec want=x; want.push_back(p); want.push_back(c); auto t=tokens(line.substr(o+1,e-o-1)); if(t.size()!=want.size()) fail("'%s': %zu coordinates instead of %zu",line.c_str(),t.size(),want.size()); for(size_t i=0;i<t.size();++i) if(t[i]!=std::to_string(want[i])) fail("'%s' instead of position %s",line.c_str(),show(want).c_str());
            const char * q=line.c_str()+k+1; char * end; double got=strtod(q,&end), ref=f.at(x,p,c); while(*end==' ') ++end; if(end==q||*end) fail("'%s' does not end with a number",line.c_str()); bool ok= got==ref||(std::isnan(got)&&std::isnan(ref))||std::fabs(got-ref)<=tol*std::fabs(ref); if(!ok) fail("'%s', stored value %.17g",line.c_str(),ref); ++n; } }); }
    while(std::getline(s,line)) if(!line.empty()) fail("'%s' after the last field",line.c_str()); trans(n);
}
static const double PV[]={0.,1.,-2.5,1./3,-1e-9,6.02214076e23,1e-300,-7e250,123456789.123,-0.,INFINITY,-INFINITY,NAN,5e-324,999999.5};
static void values(field & f, int salt, int mode){ for(size_t i=0;i<f.v.size();++i) f.v[i]= mode? PV[(i*(salt+1)+salt)%15] : tagval(i,salt)/3; for_box(f.elo(),f.ehi(),[&](const ivec & x){ if(f.outside(x)) for(int p=0;p<f.np;++p) for(int c=0;c<f.nc;++c) f.at(x,p,c)=777000+c; }); }
static std::vector<vid> idlist(const world & w, const ivec & l){ std::vector<vid> r; for(int i:l) r.push_back(w.ids[i]); return r; }
static void all(world & w, const char * when){ for(size_t i=0;i<w.f.size();++i) w.unchanged((int)i,when); }
void body(){
    int part=choose(4,"part");
    if(part==0){ // meshes
        int n=upto("dims",1,4); int low=choose(n>=3?3:5,"lower"); ivec lo,hi; for(int d=0;d<n;++d){ int l=low==3?-777-d:low==4?4001+d:low==0?0:low==1?-3+2*d:9; lo.push_back(l); hi.push_back(l+pick<int>("len",n==1?ivec{1,2,3,5,40,700}:n==2?ivec{1,2,3,12}:ivec{1,2,3})); } int nc=pick<int>("components",{1,2,5}); shard(); int np=upto("points",1,2); int g=pick<int>("ghost layers",{0,1,2}); int mode=choose(2,"values"), how=choose(4,"use"), prec=pick<int>("precision",{0,17});
        world w(lo,hi); w.add("field one",nc,g,np); values(w.f[0],1,mode); w.push(0); op("print"); check_text(listing(w,idlist(w,{0}),how,prec),w,{0},prec); all(w,"after printing"); track(w);
    } else if(part==1){ // lists
        int n=upto("dims",1,3); ivec lo(n,-1),hi(n,1); hi[0]=2; world w(lo,hi); w.add("a",1); w.add("b",3); w.add("q0",5); w.add("d",1); for(int i=0;i<4;++i){ values(w.f[i],i,i%2); w.push(i); }
        int len=pick<int>("list length",thorough()?ivec{0,1,2,3,4,5,9,20}:ivec{0,1,2,3,4,9,20}); ivec l; if(len<=(thorough()?5:4)) for(int i=0;i<len;++i) l.push_back(choose(4,"field")); else { int st=upto("stride",0,3); for(int i=0;i<len;++i) l.push_back((i*st+i/4)%4); } shard(); int how=choose(4,"use"); op("print %s",show(l).c_str()); check_text(listing(w,idlist(w,l),how,0),w,l,0); all(w,"after printing"); track(w); hasher h; h.add(l); state(h.get());
    } else if(part==2){ // printing, changing, refused requests in any order; the stream keeps its format
        ivec lo={0,3},hi={2,5}; world w(lo,hi); w.add("a",2); w.add("b",1); for(int i=0;i<2;++i){ values(w.f[i],i,0); w.push(i); } vid unknown("nobody",comps(1),qk::basis::volume_average()); int depth=thorough()?6:5; ivec L[4]={{0},{1},{0,1},{1,0,0}};
        for(int s=0;s<depth;++s){ int o=choose(6,"operation"); if(s==1) shard(); if(o<4){ op("print %s",show(L[o]).c_str()); check_text(listing(w,idlist(w,L[o]),s%4,o),w,L[o],o); }
            else if(o==4){ op("change data"); for(int i=0;i<2;++i){ for(auto & v:w.f[i].v) v=v*-1.5+s; w.push(i); } }
            else { op("print an unknown field"); bool t; listing(w,{w.ids[0],unknown},s%4,0,&t); if(!t) fail("printing an unknown field was not refused"); if(!throws([&]{ w.mgr->input_variable(unknown); })) fail("printing created a field"); }
            all(w,"after the operation"); track(w); hasher h; h.add(o).add(s); state(h.get()); }
    } else { // the caller's stream format and following output survive
        int prec=pick<int>("precision",{1,3,6,9,17}); int v=choose(15,"value"); int sci=choose(3,"format"); shard(); ivec lo={-1},hi={2}; world w(lo,hi); w.add("x",2); for(auto & y:w.f[0].v) y=PV[v]; w.push(0); std::string before,after,mid;
        auto fmt=[&]{ std::cout<<std::setprecision(prec); if(sci==1) std::cout<<std::scientific; if(sci==2&&std::fabs(PV[v])<1e16&&std::fabs(PV[v])>1e-8) std::cout<<std::fixed<<std::setprecision(17); }; std::streamsize p0; std::ios::fmtflags f0; std::streamsize p1; std::ios::fmtflags f1; { capture c; fmt(); p0=std::cout.precision(); f0=std::cout.flags(); qk::solver::print p; p.add_input_variable(w.ids[0]); op("print"); p.solve(*w.mgr); p1=std::cout.precision(); f1=std::cout.flags(); mid=c.s.str(); }
        check_text(mid,w,{0},prec); if(p0!=p1||f0!=f1) fail("printing changed the format of the stream"); all(w,"after printing"); track(w);
    }
}
