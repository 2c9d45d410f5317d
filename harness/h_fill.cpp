// C27: fill and swap.
#include "num.h"
#include "solver/fill.h"
#include "solver/swap.h"
using namespace mc; using namespace ref;
static qk::solver::fill FI; static qk::solver::swap SW;
static void do_fill(world & w, double v, const ivec & l, int how){ qk::solver::fill fresh; auto & s=how&1?FI:fresh; s.setup(v); std::vector<vid> o; for(int i:l) o.push_back(w.ids[i]); if(how&1) s.set_output_variables(o); else for(auto & i:o) s.add_output_variable(i); if(how&2){ auto c(s); c.solve(*w.mgr); } else s.solve(*w.mgr); }
static void do_swap(world & w, const ivec & l, int how){ qk::solver::swap fresh; auto & s=how&1?SW:fresh; std::vector<vid> o; for(int i:l) o.push_back(w.ids[i]); if(how&1) s.set_output_variables(o); else for(auto & i:o) s.add_output_variable(i); if(how&2){ auto c(s); c.solve(*w.mgr); } else s.solve(*w.mgr); }
static void all(world & w, const char * when){ for(size_t i=0;i<w.f.size();++i) w.unchanged((int)i,when); }
static bool swap_ok(const world & w, const ivec & l){ if(l.size()%2) return false; for(size_t i=0;i+1<l.size();i+=2) if(w.f[l[i]].nc!=w.f[l[i+1]].nc||w.f[l[i]].g!=w.f[l[i+1]].g||w.f[l[i]].np!=w.f[l[i+1]].np) return false; return true; }
static void model_swap(world & w, const ivec & l){ for(size_t i=0;i+1<l.size();i+=2) std::swap(w.f[l[i]].v,w.f[l[i+1]].v); }
void body(){
    int part=choose(6,"part");
    if(part==5){ // as many numbers, arranged differently: still another extent
        struct kind { int nc,g,np; }; std::vector<std::vector<kind>> K={ {{2,2,1},{1,2,2}}, {{6,2,1},{3,2,2},{2,2,3},{1,2,6}}, {{3,2,1},{6,0,1},{2,4,1}} }; int k=choose(3,"kinds"); int n= k==2?1:upto("dims",1,3); shard(); int a=choose((int)K[k].size(),"first"), b=choose((int)K[k].size(),"second"), how=choose(4,"use"), before=choose(2,"equal pair before"); ivec lo(n,-1),hi(n,k==2?3:1); world w(lo,hi); kind p[]={K[k][a],K[k][b],K[k][a],K[k][a]}; for(int i=0;i<4;++i){ w.add("v"+std::to_string(i),p[i].nc,p[i].g,p[i].np); tag(w.f[i],i); w.push(i); }
        ivec l= before? ivec{2,3,0,1}:ivec{0,1,3,2}; op("swap %s",show(l).c_str()); bool ok=swap_ok(w,l), t=throws([&]{ do_swap(w,l,how); }); if(ok&&t) fail("swap of equal fields refused"); if(!ok&&!t) fail("swap of fields of different extent accepted"); if(ok) model_swap(w,l); all(w,"after the call"); track(w); return; }
    if(part==4){ // long lists
        int nv=pick<int>("fields",{6,8,9,10,16,17,34,70}); int n=upto("dims",1,2); shard(); int skip=choose(4,"pattern"), how=choose(4,"use"); ivec lo(n,-1),hi(n,2); world w(lo,hi); for(int i=0;i<nv;++i){ w.add(i<9?"u"+std::string(i,'2'):"v"+std::to_string(i),2); tag(w.f[i],i); w.push(i); }
        ivec l; for(int i=0;i<nv;++i){ int k= skip==1? nv-1-i: skip==2? (i*3)%nv : i; if(skip==3&&i%5==4) continue; l.push_back(k); } if(l.size()%2) l.pop_back();
        op("swap %zu fields",l.size()); do_swap(w,l,how); model_swap(w,l); all(w,"after swap"); track(w); op("fill %zu fields",l.size()); do_fill(w,-1.25,l,how^1); for(int k:l) std::fill(w.f[k].v.begin(),w.f[k].v.end(),-1.25); all(w,"after fill"); track(w); return; }
    if(part==0){ // shapes
        int n=upto("dims",1,3); ivec lo,hi; int low=choose(n==3?2:4,"lower"); for(int d=0;d<n;++d){ int l=low==2?-777-d:low==3?4001+d:low?-2+3*d:0; lo.push_back(l); hi.push_back(l+pick<int>("len",n==1?ivec{1,2,9,500}:n==2?ivec{1,3,12}:ivec{1,4})); } int nc=pick<int>("components",{1,2,6}); int g=upto("ghost layers",0,3); shard(); int np=pick<int>("points",{1,2}); double v=pick<double>("value",{0.,-0.,3.25,INFINITY,NAN,1e300,5e-324}); bool bad=flag("contents are not numbers");
        world w(lo,hi); for(int i=0;i<4;++i){ w.add("v"+std::to_string(i),nc,g,np); tag(w.f[i],i); if(bad){ static const double BAD[]={NAN,-0.,INFINITY,-INFINITY,1e308,-5e-324,2}; size_t j=0; for(double & x:w.f[i].v){ x=BAD[(j*(i+1)+j/7+i)%7]; ++j; } } w.push(i); } op("fill"); do_fill(w,v,{0,2},n); for(int k:{0,2}) std::fill(w.f[k].v.begin(),w.f[k].v.end(),v); all(w,"after fill"); track(w);
        op("swap"); do_swap(w,{0,1,2,3},n+1); model_swap(w,{0,1,2,3}); all(w,"after swap"); op("swap back"); do_swap(w,{0,1,2,3},n+2); model_swap(w,{0,1,2,3}); all(w,"after swapping back"); track(w);
    } else if(part==1){ // every list of fills and swaps, with refusals
        ivec lo={-1,0},hi={1,3}; world w(lo,hi); for(int i=0;i<4;++i){ w.add("v"+std::to_string(i),i<3?2:3); tag(w.f[i],i); w.push(i); }
        int len=upto("list length",0,thorough()?5:4); ivec l; for(int i=0;i<len;++i){ l.push_back(choose(4,"entry")); if(i==1) shard(); } if(len<2) shard(); bool f=flag("fill");
        if(f){ op("fill %s",show(l).c_str()); do_fill(w,1.5,l,len%4); for(int k:l) std::fill(w.f[k].v.begin(),w.f[k].v.end(),1.5); }
        else { op("swap %s",show(l).c_str()); bool self=false; bool ok=swap_ok(w,l); bool t=throws([&]{ do_swap(w,l,len%4); }); if(ok&&t) fail("swap of equal fields refused"); if(!ok&&!t) fail("swap of an odd list or of different fields accepted"); if(ok) model_swap(w,l); (void)self; }
        all(w,"after the call"); track(w);
    } else if(part==2){ // operation sequences
        ivec lo={2},hi={4}; world w(lo,hi); for(int i=0;i<4;++i){ w.add("v"+std::to_string(i),i<3?1:2); tag(w.f[i],i); w.push(i); } int depth=thorough()?6:5;
        qk::variable::variable * addr[4]; for(int i=0;i<4;++i) addr[i]=&w.out(i);
        for(int s=0;s<depth;++s){ int o=choose(7,"operation"); if(s==1) shard(); ivec l; switch(o){
            case 0: op("fill 0"); do_fill(w,2.+s,{0},s); std::fill(w.f[0].v.begin(),w.f[0].v.end(),2.+s); break;
            case 1: op("fill all"); do_fill(w,0.,{0,1,2,3},s); for(auto & f:w.f) std::fill(f.v.begin(),f.v.end(),0.); break;
            case 2: op("swap 0 1"); do_swap(w,{0,1},s); model_swap(w,{0,1}); break;
            case 3: op("swap 1 2 2 0"); do_swap(w,{1,2,2,0},s); model_swap(w,{1,2,2,0}); break;
            case 4: op("write"); w.f[1].v[3]=7.5+s; w.out(1)[w.out(1).indexer()].data()[3]=7.5+s; break;
            case 5: op("refused swap"); l={0,1,2,3}; if(!throws([&]{ do_swap(w,l,s); })) fail("swap of fields of different extent accepted"); break;
            case 6: op("new variable"); if(w.f.size()<6){ w.add("w"+std::to_string(w.f.size()),1); } break; }
            for(int i=0;i<4;++i) if(&w.out(i)!=addr[i]) fail("field %d moved",i); all(w,"after the operation"); track(w); }
    } else { // repeated swapping of one pair under several managers with one object
        int n=upto("dims",1,3); int times=upto("times",1,6); int nc=pick<int>("components",{1,5}); shard(); ivec lo(n,0),hi(n,2); world a(lo,hi),b(lo,ivec(n,3)); for(world * w:{&a,&b}) for(int i=0;i<3;++i){ w->add("x"+std::to_string(i),nc); tag(w->f[i],i+(w==&b?5:0)); w->push(i); }
        for(int t=0;t<times;++t){ world & w= t%2?b:a; ivec l={t%3,(t+1)%3}; op("swap %s",show(l).c_str()); do_swap(w,l,1); model_swap(w,l); all(a,"first manager"); all(b,"second manager"); track(a); track(b); }
    }
}
