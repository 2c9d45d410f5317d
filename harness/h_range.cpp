// C01: ranges against lists of half-open intervals.
#include "ref.h"
using namespace mc; using namespace ref;

struct iv { int l,u; };
typedef std::vector<iv> model;

static long long mstride(const model & m, int d){ long long s=1; for(int i=d+1;i<(int)m.size();++i) s*=m[i].u-m[i].l; return s; }
static long long mvol(const model & m){ if(m.empty()) return 0; return mstride(m,0)*(m[0].u-m[0].l); }
static bool meq(const model & a, const model & b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();++i) if(a[i].l!=b[i].l||a[i].u!=b[i].u) return false; return true; }
static bool minc(const model & a, const model & b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();++i) if(!(a[i].l<=b[i].l&&a[i].u>=b[i].u)) return false; return true; }
static bool wellformed(const model & m){ for(auto & i:m) if(i.l>i.u) return false; return true; }
static std::string mshow(const model & m){ std::string s="{"; for(auto & i:m) s+="["+std::to_string(i.l)+","+std::to_string(i.u)+")"; return s+"}"; }
static uint64_t mhash(const model & m, hasher & h){ h.add(m.size()); for(auto & i:m) h.add(i.l).add(i.u); return h.get(); }

static qk::range build(const model & m){
    ivec l,u; for(auto & i:m){ l.push_back(i.l); u.push_back(i.u);} 
    if(m.empty()) return qk::range();
    return qk::range((int)m.size(), l.data(), u.data());
}

static void observe(const qk::range & r, const model & m, const char * who){
    if(r.num_dims()!=(int)m.size()) fail("%s: num_dims %d, expected %s",who,r.num_dims(),mshow(m).c_str());
    for(int i=0;i<(int)m.size();++i){
        if(r.lower(i)!=m[i].l||r.upper(i)!=m[i].u) fail("%s: bounds of dimension %d are [%d,%d), expected %s",who,i,r.lower(i),r.upper(i),mshow(m).c_str());
        if(r.length(i)!=m[i].u-m[i].l) fail("%s: length %d of dimension %d, expected %s",who,r.length(i),i,mshow(m).c_str());
        if(r.stride(i)!=mstride(m,i)) fail("%s: stride %d of dimension %d, expected %lld for %s",who,r.stride(i),i,mstride(m,i),mshow(m).c_str());
    }
    if(r.volume()!=mvol(m)) fail("%s: volume %d, expected %lld for %s",who,r.volume(),mvol(m),mshow(m).c_str());
}
static void print_check(const qk::range & r, const model & m){
    std::ostringstream os;
    os << r << " after " << 77;
    if(!os) fail("stream unusable after printing");
    std::string s=os.str();
    if(s.size()<9||s.substr(s.size()-9)!=" after 77") fail("printing does not return the stream: '%s'",s.c_str());
    s=s.substr(0,s.size()-9);
    std::vector<long> n; const char * c=s.c_str();
    while(*c){ if((*c>='0'&&*c<='9')||(*c=='-'&&c[1]>='0'&&c[1]<='9')){ char * e; n.push_back(strtol(c,&e,10)); c=e; } else ++c; }
    std::vector<long> a,b; for(auto & i:m){ a.push_back(i.l); } for(auto & i:m) a.push_back(i.u);
    for(auto & i:m){ b.push_back(i.l); b.push_back(i.u); }
    if(n!=a&&n!=b) fail("printed '%s' for %s",s.c_str(),mshow(m).c_str());
}
static void pair_check(const qk::range & a, const model & ma, const qk::range & b, const model & mb){
    if((a==b)!=meq(ma,mb)||(b==a)!=meq(ma,mb)) fail("== of %s and %s",mshow(ma).c_str(),mshow(mb).c_str());
    if((a!=b)==meq(ma,mb)) fail("!= of %s and %s",mshow(ma).c_str(),mshow(mb).c_str());
    if(a.includes(b)!=minc(ma,mb)) fail("%s includes %s is %d",mshow(ma).c_str(),mshow(mb).c_str(),a.includes(b));
}

static const int B[] = {-3,-1,0,1,2,4};

static model some(const char * name, int every){
    static std::vector<model> menu;
    if(menu.empty()){
        menu = { {}, {{0,3}}, {{-2,-1}}, {{5,5}}, {{0,2},{0,3}}, {{-1,2},{3,7}}, {{0,0},{1,4}}, {{1,4},{2,2}}, {{0,1},{0,1},{0,1}}, {{-4,-1},{10,12},{-1,3}},
            {{0,2},{1,3},{2,4},{3,5}}, {{-1000,1000},{0,40000}}, {{0,1},{0,2},{0,3},{0,4},{0,5}}, {{0,2},{0,2},{0,2},{0,2},{0,2},{-1,1}}, {{-7,-7}}, {{100000,100003}},
            {{2,9},{-6,-1},{4,8}}, {{0,5},{0,7},{0,3}} };
    }
    int i=every*choose(((int)menu.size()+every-1)/every,name); note(name,mshow(menu[i]));
    return menu[i];
}

// operation sequences on two ranges
static void sequences(){
    const int depth = (thorough()?4:3)-(sanitized?1:0);      // the deeper sequences run in the optimised build
    model ma=some("a",1);
    model mb=some("b",thorough()&&depth==4?5:3);
    qk::range a=build(ma), b=build(mb);
    shard();
    for(int step=0;step<depth;++step){
        hasher h; mhash(ma,h); state(mhash(mb,h));
        observe(a,ma,"a"); observe(b,mb,"b"); pair_check(a,ma,b,mb);
        enum { ASSIGN, SELF, RESIZE, RESIZE_SELF, RESIZE_PTR, COPY, COPY_SELF, EXTRUDE, EXPAND, SHIFT, SET, SWAPROLE, NOPS };
        int o=choose(NOPS,"op");
        model na=ma;
        switch(o){
        case ASSIGN: op("a = b"); { qk::range & r=(a=b); if(&r!=&a) fail("assignment does not return its target"); } na=mb; break;
        case SELF: op("a = a"); { qk::range & al=a; a=al; } break;
        case RESIZE: op("a.resize(b)"); a.resize(b); na=mb; break;
        case RESIZE_SELF: op("a.resize(a)"); a.resize(a); break;
        case RESIZE_PTR: { model m=(step&1)?model{{-2,3},{1,2}}:model{{4,6},{0,3},{-1,1}}; op("a.resize(%s)",mshow(m).c_str()); ivec l,u; for(auto & i:m){ l.push_back(i.l);u.push_back(i.u);} a.resize((int)m.size(),l.data(),u.data()); na=m; break; }
        case COPY: op("a = copy of b"); { qk::range t(b); observe(t,mb,"copy"); a=t; t.extrude(0,2); } na=mb; break;
        case COPY_SELF: op("a = dims constructor");
            { ivec d; for(auto & i:ma) d.push_back(i.u-i.l); if(d.empty()) d.push_back(2); qk::range t((int)d.size(),d.data()); a=t; na.clear(); for(int x:d) na.push_back({0,x}); } break;
        case EXTRUDE: { static const iv es[3]={{0,3},{-2,2},{2,5}}; iv e=es[pick<int>("e",{0,1,2})]; if(ma.size()>=7) return; op("a.extrude(%d,%d)",e.l,e.u); a.extrude(e.l,e.u); na.push_back(e); break; }
        case EXPAND: { if(ma.empty()) return; int d=upto("dim",0,(int)ma.size()-1); static const iv E[]={{-2,2},{0,1},{-1,0},{1,-1},{0,0}}; iv e=E[choose(5,"by")]; na[d].l+=e.l; na[d].u+=e.u; if(!wellformed(na)) return; op("a.expand(%d,%d,%d)",d,e.l,e.u); a.expand(d,e.l,e.u); break; }
        case SHIFT: { if(ma.empty()) return; int d=upto("dim",0,(int)ma.size()-1); int s=pick<int>("by",step?ivec{-3,17}:ivec{-3,1,17,-40,-100000,70000}); na[d].l+=s; na[d].u+=s; op("a.shift(%d,%d)",d,s); a.shift(d,s); break; }
        case SET: { if(ma.empty()) return; int d=upto("dim",0,(int)ma.size()-1); static const iv E[]={{0,1},{-5,5},{3,3},{-9,-8}}; iv e=E[choose(4,"to")]; op("a.set(%d,%d,%d)",d,e.l,e.u); na[d]=e; a.set(d,e.l,e.u); break; }
        case SWAPROLE: { op("exchange a and b"); qk::range t(a); a=b; b=t; na=mb; mb=ma; break; }
        }
        if(std::llabs(mvol(na))>2000000000ll) return;
        for(int i=0;i<(int)na.size();++i) if(mstride(na,i)>2000000000ll) return;
        ma=na;
    }
    hasher h; mhash(ma,h); state(mhash(mb,h));
    observe(a,ma,"a"); observe(b,mb,"b"); pair_check(a,ma,b,mb); pair_check(b,mb,a,ma); print_check(a,ma); print_check(b,mb);
}

// all pairs of small boxes
static void pairs(){
    int na=upto("dims a",0,3), nb=upto("dims b",0,3);
    const int lo=-1, hi=thorough()?2:1;
    auto box=[&](int n, const char * what){ model m; for(int i=0;i<n;++i){ int l=upto(what,lo,hi); int u=upto(what,l,hi+1); m.push_back({l,u}); } return m; };
    model ma=box(na,"a"); shard();
    if(na!=nb && nb>1) return;
    model mb=box(nb,"b");
    qk::range a=build(ma), b=build(mb);
    op("compare %s and %s",mshow(ma).c_str(),mshow(mb).c_str());
    hasher h; mhash(ma,h); state(mhash(mb,h));
    observe(a,ma,"a"); pair_check(a,ma,b,mb); print_check(a,ma);
}

// derived quantities for long and high-dimensional ranges
static void shapes(){
    int n=upto("dims",1,thorough()?8:7);
    int lens=choose(4,"lengths"); int low=pick<int>("lower",{0,-1,7,-100000});
    shard();
    model m; static const int P[]={2,3,1,5,2,4,1,3};
    for(int i=0;i<n;++i){ int len = lens==0?P[i]: lens==1?P[7-i]: lens==2?1: (i==n/2? 65000:2); m.push_back({low+i,low+i+len}); }
    if(mvol(m)>2000000000ll) return;
    qk::range a=build(m); observe(a,m,"a"); print_check(a,m); state(hasher().add(n).add(lens).add(low).get());
    // one-at-a-time differences are seen by ==, != and includes
    for(int i=0;i<n;++i) for(int s=0;s<4;++s){ model k=m; if(s==0) k[i].l-=1; if(s==1) k[i].u+=1; if(s==2) k[i].l+=1; if(s==3) k[i].u-=1; if(!wellformed(k)) continue; op("compare"); qk::range b=build(k); pair_check(a,m,b,k); pair_check(b,k,a,m); }
    // per-dimension operations at every position
    for(int i=0;i<n;++i){ model k=m; qk::range b(a); b.shift(i,-4); k[i].l-=4;k[i].u-=4; observe(b,k,"shifted"); b.expand(i,-2,3); k[i].l-=2;k[i].u+=3; if(mvol(k)<2000000000ll) observe(b,k,"expanded"); b.set(i,1,6); k[i]={1,6}; observe(b,k,"set"); trans(3); observe(a,m,"source of copy"); }
    for(int k=0;k<3 && n+k<8;++k){ model q=m; qk::range b(a); for(int j=0;j<=k;++j){ b.extrude(-j,2); q.push_back({-j,2}); } trans(k+1); if(mvol(q)<2000000000ll) observe(b,q,"extruded"); }
}

void body(){
    switch(choose(3,"part")){ case 0: sequences(); break; case 1: pairs(); break; case 2: shapes(); break; }
}
