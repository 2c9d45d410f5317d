// C04: subdivision of ranges.
#include "ref.h"
#include "lib/range_set.h"
using namespace mc; using namespace ref;

static void check(const box & b, const ivec & parts, qk::range_set & rs, bool cells){
    int n=(int)b.lo.size();
    if(rs.num_dims()!=n) fail("set has %d dimensions instead of %d",rs.num_dims(),n);
    for(int d=0;d<n;++d) if(rs.lower(d)!=0||rs.upper(d)!=parts[d]) fail("set has [%d,%d) pieces along dimension %d instead of %d",rs.lower(d),rs.upper(d),d,parts[d]);
    ivec zero(n,0);
    // the cut points along each dimension, from pieces along the axis
    std::vector<std::vector<std::pair<int,int> > > cuts(n);
    for(int d=0;d<n;++d) for(int k=0;k<parts[d];++k){ ivec i=zero; i[d]=k; const qk::range & r=*rs.data(i.data()); if(r.num_dims()!=n) fail("piece %s has %d dimensions",show(i).c_str(),r.num_dims()); cuts[d].push_back({r.lower(d),r.upper(d)}); }
    for(int d=0;d<n;++d){
        int at=b.lo[d];
        for(int k=0;k<parts[d];++k){
            if(cuts[d][k].first>cuts[d][k].second) fail("piece %d of dimension %d is [%d,%d)",k,d,cuts[d][k].first,cuts[d][k].second);
            if(cuts[d][k].first<b.lo[d]||cuts[d][k].second>b.hi[d]) fail("piece %d of dimension %d, [%d,%d), leaves [%d,%d)",k,d,cuts[d][k].first,cuts[d][k].second,b.lo[d],b.hi[d]);
            if(cuts[d][k].first!=cuts[d][k].second){ if(cuts[d][k].first!=at) fail("piece %d of dimension %d starts at %d instead of %d",k,d,cuts[d][k].first,at); at=cuts[d][k].second; }
            else if(cuts[d][k].first<at) fail("empty piece %d of dimension %d lies before its predecessors",k,d);
        }
        if(at!=b.hi[d]) fail("dimension %d is covered up to %d instead of %d",d,at,b.hi[d]);
    }
    // every piece is the product of its cuts
    qk::indexer it=rs.indexer();
    for_box(zero,parts,[&](const ivec & i){
        const qk::range & r=rs[it]; trans(1);
        for(int d=0;d<n;++d) if(r.lower(d)!=cuts[d][i[d]].first||r.upper(d)!=cuts[d][i[d]].second) fail("piece %s is not aligned with the others",show(i).c_str());
        it.next();
    });
    if(cells){
        std::map<ivec,int> seen;
        for(qk::indexer j=rs.indexer(); j.exists(); j.next()){ const qk::range & r=rs[j]; ivec l(n),h(n); for(int d=0;d<n;++d){ l[d]=r.lower(d); h[d]=r.upper(d);} for_box(l,h,[&](const ivec & x){ seen[x]++; }); }
        size_t total=0; for_box(b.lo,b.hi,[&](const ivec & x){ ++total; if(seen[x]!=1) fail("cell %s lies in %d pieces",show(x).c_str(),seen[x]); });
        if(seen.size()!=total) fail("pieces contain foreign cells");
    }
    state(hasher().add(b.lo).add(b.hi).add(parts).get());
}
static void run(const box & b, const ivec & parts, bool cells){
    op("subdivide %s by %s",show(b).c_str(),show(parts).c_str());
    qk::range_set rs(mkrange(b.lo,b.hi),parts.data()); check(b,parts,rs,cells);
    static qk::range_set reused; // set up again over whatever it held before
    reused.setup(mkrange(b.lo,b.hi),parts.data()); check(b,parts,reused,false);
    qk::range_set copy(rs); check(b,parts,copy,false);
}
void body(){
    int part=choose(3,"part");
    if(part==0){ // every length and piece count in one dimension, and in each dimension of 2
        int n=upto("dims",1,2); int maxl=thorough()?60:(n==1?40:9), maxp=thorough()?20:(n==1?20:6); if(n==2&&thorough()){ maxl=14; maxp=8; }
        box b; ivec p; for(int d=0;d<n;++d){ int l=pick<int>("lower",n==1?ivec{0,-7,3,-40,-1000,1000000,2147483587,(int)-2147483648LL}:(d?ivec{-2}:ivec{0,4,-9,-300})); int len=upto("length",0,maxl); b.lo.push_back(l); b.hi.push_back(l+len); p.push_back(upto("pieces",1,maxp)); if(d==0) shard(); }
        run(b,p,true);
    } else if(part==1){ int n=upto("dims",3,4); box b; ivec p; int far=choose(2,"far"); for(int d=0;d<n;++d){ int l=far?(d%2?-5000:700)*(d+1):d-1; int len=pick<int>("length",n==3?ivec{1,4,5,7}:ivec{1,3,5}); b.lo.push_back(l); b.hi.push_back(l+len); p.push_back(pick<int>("pieces",n==3?ivec{1,2,3,5}:ivec{1,2,4})); if(d==1) shard(); } run(b,p,true); }
    else { // very long dimensions
        int len=pick<int>("length",{1000,65536,1000000,16777215,16777216,16777217,16777219,33554433,99999999,100000001,1073741827,2000000000}); int pc=pick<int>("pieces",{1,2,3,7,10,64,100,1000,1024,5000}); int lo=pick<int>("lower",{0,-5,100,-100000}); bool second=flag("second dim"); shard(); box b; ivec p; if(second){ b.lo={2,lo}; b.hi={3,lo+len}; p={1,pc}; } else { b.lo={lo}; b.hi={lo+len}; p={pc}; } run(b,p,false); }
}
