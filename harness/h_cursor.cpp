// C02: cursors.
#include "ref.h"
#include <climits>
using namespace mc; using namespace ref;

static long long linear(const box & sup, const ivec & x){ long long o=0; for(size_t i=0;i<x.size();++i) o=o*(sup.hi[i]-sup.lo[i])+(x[i]-sup.lo[i]); return o; }
static bool contained(const box & a, const box & b){ if(a.lo.size()!=b.lo.size()) return false; for(size_t i=0;i<a.lo.size();++i) if(b.lo[i]<a.lo[i]||b.hi[i]>a.hi[i]) return false; return true; }
static long long vol(const box & b){ if(b.lo.empty()) return 0; long long v=1; for(size_t i=0;i<b.lo.size();++i) v*=b.hi[i]-b.lo[i]; return v; }
static ivec coords(const qk::indexer & i, int n){ ivec r(n); for(int d=0;d<n;++d){ r[d]=i.index(d); if(i[d]!=r[d]) fail("index(%d) and [%d] differ",d,d); } return r; }

static void consistent(const qk::indexer & i, const box & sup){
    int n=(int)sup.lo.size(); ivec x=coords(i,n);
    if(i.linear_index()!=linear(sup,x)) fail("linear index %d at %s, expected %lld",i.linear_index(),show(x).c_str(),linear(sup,x));
}

static void full_walk(qk::indexer i, const box & sub, const box & sup, ivec from, bool from_start){
    // from `from` on, row-major to the end
    int n=(int)sup.lo.size();
    bool started=from_start; long long seen=0;
    bool use_next=true;
    for_box(sub.lo,sub.hi,[&](const ivec & x){
        if(!started){ if(x==from) started=true; else return; }
        if(!i.exists()) fail("cursor ends before %s",show(x).c_str());
        ivec c=coords(i,n);
        if(c!=x) fail("cursor is at %s instead of %s",show(c).c_str(),show(x).c_str());
        consistent(i,sup);
        trans(1); ++seen;
        if(use_next) i.next(); else { qk::indexer & r=++i; if(&r!=&i) fail("++ does not return the cursor"); }
        use_next=!use_next;
    });
    if(i.exists()) fail("cursor still exists after its last cell (%lld visited)",seen);
    (void)n;
}

static void check_final(const qk::indexer & i, const box & sub, const box & sup){
    ivec last=sub.hi; for(int & x:last) --x;
    if(i.final_linear_index()!=linear(sup,last)+1) fail("final linear index %d, expected %lld",i.final_linear_index(),linear(sup,last)+1);
}

static qk::indexer make(const box & sub, const box & sup);
static void exhausted(qk::indexer i, const box & sub, const box & sup){ // a finished cursor, copied and assigned over other cursors
    int n=(int)sup.lo.size(); while(i.exists()) i.next(); consistent(i,sup); check_final(i,sub,sup);
    box one=sup; for(int d=0;d<n;++d) one.hi[d]=one.lo[d]+1; box s2{{0},{4}}; qk::indexer t[4]={make(one,sup),make(sup,sup),make(s2,s2),qk::indexer()}; op("assign the finished cursor");
    for(auto & c:t){ c=i; if(c.exists()) fail("cursor exists after assigning a finished one"); consistent(c,sup); check_final(c,sub,sup); trans(1); } qk::indexer k(i); if(k.exists()) fail("copy of a finished cursor exists"); consistent(k,sup); check_final(k,sub,sup);
    t[0]=make(sub,sup); t[0]=t[0]; full_walk(t[0],sub,sup,sub.lo,true); i=make(one,sup); full_walk(i,one,sup,one.lo,true); check_final(i,one,sup);
}
static qk::indexer make(const box & sub, const box & sup){
    // the ranges die before the cursor is used
    std::unique_ptr<qk::range> a(new qk::range(mkrange(sub.lo,sub.hi))), b(new qk::range(mkrange(sup.lo,sup.hi)));
    qk::indexer i(*a,*b);
    return i;
}

// every sub-range of every small range
static void walks(){
    int n=upto("dims",1,4);
    static const int LEN[5][3]={{0,0,0},{1,4,7},{1,3,4},{1,2,3},{1,2,2}};
    box sup;
    int lowsel=choose(5,"lower");
    for(int d=0;d<n;++d){ int l = lowsel==0?0: lowsel==1?-2-d: lowsel==2?5+d: lowsel==3?INT_MAX-9-d: INT_MIN+2+d; int len=LEN[n][choose(n==4?2:3,"len")]; sup.lo.push_back(l); sup.hi.push_back(l+len); }
    shard();
    // margins: protruding by one on either side allowed
    box sub; bool prot=thorough()||n<=2;
    for(int d=0;d<n;++d){ int m=prot?1:0; int l=upto("sub lower",sup.lo[d]-m,sup.hi[d]); int u=upto("sub upper",l,sup.hi[d]+m); sub.lo.push_back(l); sub.hi.push_back(u); }
    op("cursor over %s in %s",(show(sub.lo)+show(sub.hi)).c_str(),(show(sup.lo)+show(sup.hi)).c_str());
    state(hasher().add(sup.lo).add(sup.hi).add(sub.lo).add(sub.hi).get());
    qk::indexer i=make(sub,sup);
    if(!contained(sup,sub)||vol(sub)==0){ if(i.exists()) fail("cursor over an empty or protruding sub-range exists"); return; }
    if(!i.exists()) fail("cursor does not exist");
    check_final(i,sub,sup);
    full_walk(i,sub,sup,sub.lo,true);
    // copies and assignments of the fresh cursor walk alike
    qk::indexer c(i); full_walk(c,sub,sup,sub.lo,true);
    qk::indexer d; d=i; full_walk(d,sub,sup,sub.lo,true); check_final(d,sub,sup);
    exhausted(i,sub,sup);
    // over cursors at the same cell of the same range that walk another sub-range
    for(int v=0;v<2*n+1;++v){ box o=sub; if(v==2*n) o=sup; else if(v<n) o.hi[v]=std::min(sup.hi[v],o.hi[v]+1); else o.hi[v-n]=o.lo[v-n]+1; qk::indexer q=make(o,sup); while(q.exists()&&coords(q,n)!=sub.lo) q.next(); if(!q.exists()) fail("cursor over %s misses %s",show(o).c_str(),show(sub.lo).c_str()); qk::indexer back(q); q=i; full_walk(q,sub,sup,sub.lo,true); check_final(q,sub,sup); q=back; full_walk(q,o,sup,sub.lo,false); check_final(q,o,sup); trans(1); }
    // over a cursor that does not exist and from one that does not
    box none=sub; none.hi=none.lo; qk::indexer e=make(none,sup); if(e.exists()) fail("empty sub-range exists"); qk::indexer k(i); k=e; if(k.exists()) fail("cursor exists after assigning one that does not"); e=i; full_walk(e,sub,sup,sub.lo,true); check_final(e,sub,sup);
}

// mid-way copies, assignments and hand steps
static void steps(){
    int n=upto("dims",1,3);
    box sup, sub;
    int shape=choose(4,"shape");
    for(int d=0;d<n;++d){
        int l = shape==0?0: shape==1?-3: shape==2? 2+d: -1;
        int len = shape==0?3: shape==1? 4-d: shape==2? 2+d : 3;
        sup.lo.push_back(l); sup.hi.push_back(l+len);
        int cut = shape==0?0:(shape==1?1:(d==n-1));
        sub.lo.push_back(l+cut); sub.hi.push_back(l+len-(shape==2?1:0));
        if(sub.lo.back()>=sub.hi.back()) sub.lo.back()=l;
    }
    long long total=vol(sub);
    int at=choose((int)total,"start"); shard();
    qk::indexer i=make(sub,sup);
    for(int k=0;k<at;++k) i.next();
    const int depth=thorough()?5:4;
    bool inside=true; // inside the sub-range
    for(int s=0;s<depth;++s){
        consistent(i,sup);
        ivec x=coords(i,n);
        int nops=2*n+5;
        int o=choose(nops,"op");
        if(o<n){ if(x[o]+1>=sup.hi[o]) return; op("increment(%d)",o); i.increment(o); ivec y=coords(i,n); x[o]++; if(y!=x) fail("increment moved to %s instead of %s",show(y).c_str(),show(x).c_str()); }
        else if(o<2*n){ int d=o-n; if(x[d]-1<sup.lo[d]) return; op("decrement(%d)",d); i.decrement(d); ivec y=coords(i,n); x[d]--; if(y!=x) fail("decrement moved to %s instead of %s",show(y).c_str(),show(x).c_str()); }
        else if(o==2*n){ op("copy construct"); qk::indexer c(i); i.increment(0); i.decrement(0); if(coords(c,n)!=x) fail("copy moved"); if(inside) full_walk(c,sub,sup,x,false); }
        else if(o==2*n+1){ op("assign to another cursor"); box s2{{0},{4}}; qk::indexer c=make(s2,s2); c.next(); c=i; if(coords(c,n)!=x) fail("assigned cursor at %s",show(coords(c,n)).c_str()); consistent(c,sup); if(c.exists()!=i.exists()) fail("assigned cursor differs in existence"); check_final(c,sub,sup); if(inside) full_walk(c,sub,sup,x,false); if(coords(i,n)!=x) fail("walking the assigned cursor moved the original"); }
        else if(o==2*n+2){ op("self assignment"); qk::indexer & r=i; i=r; if(coords(i,n)!=x) fail("self assignment moved the cursor"); }
        else if(o==2*n+3){ if(!inside) return; op("next"); i.next(); if(!i.exists()){ ivec last=sub.hi; for(int & k:last) --k; if(x!=last) fail("ended after %s",show(x).c_str()); return; }
            // expected successor in the sub-range
            ivec e=x; int d=n-1; while(d>=0&&++e[d]>=sub.hi[d]){ e[d]=sub.lo[d]; --d; } if(coords(i,n)!=e) fail("next moved from %s to %s",show(x).c_str(),show(coords(i,n)).c_str()); x=e; }
        else { op("assign from a cursor over another range"); box s2; for(int d=0;d<n+1;++d){ s2.lo.push_back(-1); s2.hi.push_back(2);} qk::indexer c=make(s2,s2); c.next(); qk::indexer j=i; j=c; consistent(j,s2); ivec q=coords(j,n+1); if(q!=coords(c,n+1)) fail("assigned cursor at %s",show(q).c_str()); full_walk(j,s2,s2,q,false); j=i; if(coords(j,n)!=coords(i,n)) fail("re-assigned cursor differs"); consistent(j,sup); }
        x=coords(i,n);
        inside=true; for(int d=0;d<n;++d) if(x[d]<sub.lo[d]||x[d]>=sub.hi[d]) inside=false;
        check_final(i,sub,sup);
        state(hasher().add(x).add(shape).add(n).add(i.linear_index()).get());
    }
    consistent(i,sup);
    if(inside&&i.exists()) full_walk(i,sub,sup,coords(i,n),false);

}

// dimension mismatch, default cursor, long and many dimensions
static void special(){
    int k=choose(5,"case");
    if(k==0){ qk::indexer i; op("default cursor"); if(i.exists()) fail("default cursor exists"); state(1); }
    else if(k==1){ int a=upto("sub dims",0,4), b=upto("sup dims",0,4); ivec l1(a,0),h1(a,1),l2(b,0),h2(b,3); op("sub %d dims in %d dims",a,b); qk::indexer i(mkrange(l1,h1),mkrange(l2,h2)); state(hasher().add(a).add(b).get()); if(i.exists()!=(a==b&&a>0)) fail("cursor of %d-dimensional sub-range in %d dimensions: exists=%d",a,b,i.exists()); }
    else if(k==2){ int n=upto("dims",5,6); int lowsel=upto("lower",-1,1); box sup,sub; for(int d=0;d<n;++d){ int len=1+(d*5+lowsel+1)%3; sup.lo.push_back(lowsel*(d+1)); sup.hi.push_back(sup.lo[d]+len); sub=sup; } op("walk %d dims",n); qk::indexer i=make(sup,sup); check_final(i,sup,sup); full_walk(i,sup,sup,sup.lo,true);
        for(int d=0;d<n;++d) for(int e=0;e<2;++e){ sub=sup; if(e) sub.lo[d]++; else sub.hi[d]--; qk::indexer j=make(sub,sup); if(vol(sub)==0){ if(j.exists()) fail("empty sub-range exists"); continue; } check_final(j,sub,sup); full_walk(j,sub,sup,sub.lo,true); state(hasher().add(sub.lo).add(sub.hi).get()); } }
    else if(k==3){ int len=pick<int>("length",{100,255,256,257,1000,4097}); int d=upto("dim",0,2); shard(); box sup{{-3,0,5},{-1,2,7}}; sup.hi[d]=sup.lo[d]+len; box sub=sup; sub.lo[d]+=1; sub.hi[d]-=1; qk::indexer i=make(sub,sup); check_final(i,sub,sup); op("long walk"); full_walk(i,sub,sup,sub.lo,true); state(hasher().add(len).add(d).get()); }
    else { // linear indices of a huge enclosing range
        int c=choose(4,"corner"); box sup{{-20000,-20000},{20000,20000}}; box sub{{(c&1)?19998:-20000,(c&2)?19997:-20000},{0,0}}; sub.hi[0]=sub.lo[0]+2; sub.hi[1]=sub.lo[1]+3; op("corner of a huge range"); qk::indexer i=make(sub,sup); check_final(i,sub,sup); full_walk(i,sub,sup,sub.lo,true); state(100+c); }
}

void body(){ switch(choose(3,"part")){ case 0: walks(); break; case 1: steps(); break; case 2: special(); break; } }
