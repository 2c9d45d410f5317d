// C03: indexed containers against arrays of values addressed by coordinates.
#include "ref.h"
using namespace mc; using namespace ref;

struct mdl {                       // reference container
    box b; dvec v;
    size_t vol() const { if(b.lo.empty()) return 0; size_t s=1; for(size_t i=0;i<b.lo.size();++i) s*=b.hi[i]-b.lo[i]; return s; }
    size_t off(const ivec & x) const { size_t o=0; for(size_t i=0;i<x.size();++i) o=o*(b.hi[i]-b.lo[i])+(x[i]-b.lo[i]); return o; }
    double & at(const ivec & x){ return v[off(x)]; }
    bool includes(const box & r) const { if(r.lo.size()!=b.lo.size()) return false; for(size_t i=0;i<r.lo.size();++i) if(r.lo[i]<b.lo[i]||r.hi[i]>b.hi[i]) return false; return true; }
};
static size_t bvol(const box & b){ if(b.lo.empty()) return 0; size_t s=1; for(size_t i=0;i<b.lo.size();++i) s*=b.hi[i]-b.lo[i]; return s; }
static std::vector<size_t> offsets(const mdl & m, const box & r){ std::vector<size_t> o; for_box(r.lo,r.hi,[&](const ivec & x){ o.push_back(m.off(x)); }); return o; }

typedef qk::indexer_interface<double> iface;

static void compare(iface & c, mdl & m, const char * who, bool paths){
    if((size_t)c.volume()!=m.vol()) fail("%s: volume %d instead of %zu",who,c.volume(),m.vol());
    if(m.vol()==0) return;
    const double * d=((const iface&)c).data();
    for(size_t i=0;i<m.v.size();++i) if(!same_bits(d[i],m.v[i])) fail("%s: element %zu is %.17g instead of %.17g",who,i,d[i],m.v[i]);
    if(!paths) return;
    // every way of addressing reaches the same element
    const iface & k=c;
    qk::indexer it=c.indexer();
    for_box(m.b.lo,m.b.hi,[&](const ivec & x){
        size_t o=m.off(x);
        if(!it.exists()) fail("%s: cursor over the container ends early",who);
        if(k.data(x.data())!=d+o||c.data(x.data())!=d+o) fail("%s: coordinates %s do not address element %zu",who,show(x).c_str(),o);
        if(&k[it]!=d+o||&c[it]!=d+o||k.data(it)!=d+o||c.data(it)!=d+o) fail("%s: cursor at %s does not address element %zu",who,show(x).c_str(),o);
        it.next();
    });
    if(it.exists()) fail("%s: cursor over the container does not end",who);
}

// a container that can be a bare interface or a data chunk
struct holder {
    bool chunk; std::unique_ptr<iface> p;
    qk::data::datachunk & dc(){ return static_cast<qk::data::datachunk&>(*p); }
};
static holder make(bool chunk, const box & b, int split){
    holder h; h.chunk=chunk;
    if(!chunk) h.p.reset(new iface(mkrange(b.lo,b.hi)));
    else {
        qk::data::datachunk * d=new qk::data::datachunk(); h.p.reset(d);
        int n=(int)b.lo.size(), s=split<n?split:n;
        d->resize(mkrange(ivec(b.lo.begin(),b.lo.begin()+s),ivec(b.hi.begin(),b.hi.begin()+s)), mkrange(ivec(b.lo.begin()+s,b.lo.end()),ivec(b.hi.begin()+s,b.hi.end())));
    }
    return h;
}
static std::vector<box> subs(const box & b){
    // a few sub-ranges, including empty ones and ones sticking out
    std::vector<box> r; int n=(int)b.lo.size();
    r.push_back(b);
    for(int d=0;d<n;++d){ box s=b; s.hi[d]=s.lo[d]+1; r.push_back(s); s=b; s.lo[d]=s.hi[d]-1; r.push_back(s); }
    { box s=b; for(int d=0;d<n;++d){ if(s.hi[d]-s.lo[d]>2){ s.lo[d]++; s.hi[d]--; } } r.push_back(s); }
    { box s=b; s.hi[0]=s.lo[0]; r.push_back(s); }
    { box s=b; s.hi[n-1]+=1; r.push_back(s); }
    { box s=b; s.lo[0]-=1; r.push_back(s); }
    { box s=b; s.lo[0]-=1; s.hi[0]-=1; r.push_back(s); }
    { box s; s.lo=b.lo; s.hi=b.hi; s.lo.push_back(0); s.hi.push_back(1); r.push_back(s); }
    return r;
}

static const std::vector<box> & menu(){
    static std::vector<box> m={ {{0},{4}}, {{-2},{2}}, {{0,0},{2,3}}, {{-1,4},{2,6}}, {{0,0,0},{2,1,2}}, {{-3,1,2},{-2,3,5}}, {{0,0,0,0},{1,2,2,1}}, {{5,-5},{6,1}}, {{2147483640},{2147483644}}, {{-2147483645,2147483641},{-2147483643,2147483644}} };
    return m;
}

static void fillvals(iface & c, mdl & m, int salt){ m.v.resize(m.vol()); for(size_t i=0;i<m.v.size();++i) m.v[i]=tagval(i,salt); if(m.vol()){ qk::indexer it=c.indexer(); for(size_t i=0;i<m.v.size();++i){ c[it]=m.v[i]; it.next(); } } }

static void sequences(){
    bool chunk=flag("datachunk");
    int ia=choose((int)menu().size(),"a"); note("a",show(menu()[ia]));
    // the sanitised quick run pairs each shape with itself and two others, everything else with all
    int ib=(thorough()||!sanitized)?choose((int)menu().size(),"b"):(ia+3*choose(3,"b"))%(int)menu().size(); note("b",show(menu()[ib]));
    shard();
    mdl ma{menu()[ia],{}}, mb{menu()[ib],{}};
    holder a=make(chunk,ma.b,1), b=make(chunk,mb.b,2);
    fillvals(*a.p,ma,1); fillvals(*b.p,mb,2);
    compare(*a.p,ma,"a",true); compare(*b.p,mb,"b",true);
    int depth=thorough()?3:2;
    for(int s=0;s<depth;++s){
        enum { WRITE, FILL, FILLR, PULL, PULLR, COPYTO, FULLCOPY, MULT, SWAP, COPYCTOR, ASSIGN, SELF, PULLSELF, NOPS };
        int o=choose(NOPS,"op");
        bool refused=false, must_refuse=false;
        switch(o){
        case WRITE: { int w=choose(3,"how"); ivec x=ma.b.lo; int cell=choose(2,"cell"); if(cell) for(size_t d=0;d<x.size();++d) x[d]=ma.b.hi[d]-1; double v=100+s; op("a[%s]=%g",show(x).c_str(),v);
            if(w==0) *a.p->data(x.data())=v; else { box q; q.lo=x; q.hi=x; for(int & k:q.hi) ++k; qk::indexer i=a.p->indexer(mkrange(q.lo,q.hi)); if(w==1) (*a.p)[i]=v; else *a.p->data(i)=v; }
            ma.at(x)=v; break; }
        case FILL: { double v=-3-s; op("a.fill(%g)",v); a.p->fill(v); for(double & d:ma.v) d=v; break; }
        case FILLR: { auto S=subs(ma.b); int k=choose((int)S.size(),"range"); note("range",show(S[k])); must_refuse=!ma.includes(S[k]); op("a.fill(range)"); refused=throws([&]{ a.p->fill(mkrange(S[k].lo,S[k].hi),55.5+s); }); if(!must_refuse) for(size_t i:offsets(ma,S[k])) ma.v[i]=55.5+s; break; }
        case PULL: { must_refuse=ma.vol()!=mb.vol(); op("a.pull(b)"); refused=throws([&]{ a.p->pull(*b.p); }); if(!must_refuse) ma.v=mb.v; break; }
        case PULLR: case COPYTO: {
            if(o==COPYTO&&!chunk) return;
            auto SA=subs(ma.b), SB=subs(mb.b); if(s<depth-1&&!(thorough()&&!sanitized)){ auto few=[](std::vector<box> v){ std::vector<box> r; for(size_t i=0;i<v.size();i+=2) r.push_back(v[i]); if(r.size()>4) r.erase(r.begin()+4,r.end()); r.push_back(v[v.size()-2]); return r; }; SA=few(SA); SB=few(SB); } int k=choose((int)SB.size(),"from"), l=choose((int)SA.size(),"to"); note("from",show(SB[k])); note("to",show(SA[l]));
            must_refuse = bvol(SB[k])!=bvol(SA[l]) || !mb.includes(SB[k]) || !ma.includes(SA[l]);
            op("copy b to a by ranges");
            refused=throws([&]{ if(o==PULLR) a.p->pull(*b.p,mkrange(SB[k].lo,SB[k].hi),mkrange(SA[l].lo,SA[l].hi)); else qk::data::copy_to(b.dc(),mkrange(SB[k].lo,SB[k].hi),a.dc(),mkrange(SA[l].lo,SA[l].hi)); });
            if(!must_refuse){ auto fo=offsets(mb,SB[k]), to=offsets(ma,SA[l]); for(size_t i=0;i<fo.size();++i) ma.v[to[i]]=mb.v[fo[i]]; }
            break; }
        case FULLCOPY: { if(!chunk) return; must_refuse=ma.vol()!=mb.vol(); op("full_copy(b,a)"); refused=throws([&]{ qk::data::full_copy(b.dc(),a.dc()); }); if(!must_refuse) ma.v=mb.v; break; }
        case MULT: { if(!chunk) return; auto S=subs(ma.b); int k=choose((int)S.size(),"range"); note("range",show(S[k])); double f=pick<double>("by",{-1.,0.5}); op("multiply"); bool out=!ma.includes(S[k]); try { a.dc().multiply_by_scalar(mkrange(S[k].lo,S[k].hi),f); } catch(const std::exception &){ if(!out) fail("multiplication of an included range refused"); } if(!out) for(size_t i:offsets(ma,S[k])) ma.v[i]*=f; break; }
        case SWAP: { must_refuse=ma.vol()!=mb.vol(); if(!must_refuse && ia!=ib) return; op("a.swap(b)"); refused=throws([&]{ a.p->swap(*b.p); }); if(!must_refuse) std::swap(ma.v,mb.v); break; }
        case COPYCTOR: { op("copy of b replaces a"); holder n; n.chunk=chunk; if(chunk) n.p.reset(new qk::data::datachunk(b.dc())); else n.p.reset(new iface(*b.p)); if(!(n.p->range()==b.p->range())) fail("copy has another range"); mdl mn=mb; compare(*n.p,mn,"copy",false); n.p->fill(9.25); compare(*b.p,mb,"source of copy",false); for(double & d:mn.v) d=9.25; compare(*n.p,mn,"copy",false); b.p->fill(-1.); for(double & d:mb.v) d=-1.; compare(*n.p,mn,"copy",false); a=std::move(n); ma=mn; ia=ib; break; }
        case ASSIGN: { op("a = b"); if(chunk) a.dc()=b.dc(); else *a.p=*b.p; ma=mb; ia=ib; if(!(a.p->range()==b.p->range())) fail("assigned container has another range"); compare(*a.p,ma,"a",false); double old=mb.v[0]; b.p->data()[0]=-77; mb.v[0]=-77; compare(*a.p,ma,"a after writing b",false); b.p->data()[0]=old; mb.v[0]=old; break; }
        case SELF: { op("a = a"); if(chunk){ qk::data::datachunk & r=a.dc(); a.dc()=r; } else { iface & r=*a.p; *a.p=r; } break; }
        case PULLSELF: { // disjoint ranges of one container
            int d=(int)ma.b.lo.size()-1; bool first=flag("first dim"); if(first) d=0; if(ma.b.hi[d]-ma.b.lo[d]<2) return; box f=ma.b,t=ma.b; f.hi[d]=f.lo[d]+1; t.lo[d]=t.hi[d]-1; bool rev=flag("reverse"); if(rev) std::swap(f,t); op("copy within a");
            auto fo=offsets(ma,f), to=offsets(ma,t); if(chunk) qk::data::copy_to(a.dc(),mkrange(f.lo,f.hi),a.dc(),mkrange(t.lo,t.hi)); else a.p->pull(*a.p,mkrange(f.lo,f.hi),mkrange(t.lo,t.hi)); for(size_t i=0;i<fo.size();++i) ma.v[to[i]]=ma.v[fo[i]]; break; }
        }
        if(must_refuse&&!refused) fail("request was not refused");
        if(!must_refuse&&refused) fail("valid request was refused");
        state(hasher().add(ma.v).add(mb.v).add(ia).add(ib).get());
        compare(*a.p,ma,"a",s==depth-1); compare(*b.p,mb,"b",false);
    }
}

// copies between all sub-boxes of equal shape, and reshaping copies
static void blocks(){
    int n=upto("dims",1,thorough()?5:4); int mid=n>3?upto("longer dim",0,n-1):0;
    box A; for(int d=0;d<n;++d){ int l=d==1?-2:d; int len=n==1?pick<int>("len",{3,6}):n==2?pick<int>("len",{1,3,4}):n==3?pick<int>("len",{2,3}):2+(d==mid); A.lo.push_back(l); A.hi.push_back(l+len); }
    box B=A; int other=choose(3,"target"); if(other==1) for(int d=0;d<n;++d){ B.lo[d]+=5; B.hi[d]+=6; } if(other==2) std::reverse(B.hi.begin(),B.hi.end()), B.lo.assign(n,-1);
    if(other==2) for(int d=0;d<n;++d) B.hi[d]=std::max(B.hi[d],0)+1;
    shard();
    box F=A,T=B; int reach=n>=3?1:100;
    for(int d=0;d<n;++d){ int l=upto("from lower",A.lo[d],std::min(A.hi[d]-1,A.lo[d]+reach)); int u=upto("from upper",l+1,A.hi[d]); F.lo[d]=l; F.hi[d]=u; int len=u-l; if(B.hi[d]-B.lo[d]<len) return; int t=upto("to lower",B.lo[d],std::min(B.hi[d]-len,B.lo[d]+reach)); T.lo[d]=t; T.hi[d]=t+len; }
    mdl ma{A,{}}, mb{B,{}}; holder a=make(true,A,1), b=make(true,B,1); fillvals(*a.p,ma,3); fillvals(*b.p,mb,4);
    bool viapull=flag("pull");
    op("copy %s to %s",show(F).c_str(),show(T).c_str());
    if(viapull) b.p->pull(*a.p,mkrange(F.lo,F.hi),mkrange(T.lo,T.hi)); else qk::data::copy_to(a.dc(),mkrange(F.lo,F.hi),b.dc(),mkrange(T.lo,T.hi));
    auto fo=offsets(ma,F), to=offsets(mb,T); for(size_t i=0;i<fo.size();++i) mb.v[to[i]]=ma.v[fo[i]];
    compare(*a.p,ma,"source",false); compare(*b.p,mb,"target",false);
    state(hasher().add(mb.v).get());
    // multiplying and filling the same sub-range
    b.dc().multiply_by_scalar(mkrange(T.lo,T.hi),-2.); trans(1); for(size_t i:to) mb.v[i]*=-2.; compare(*b.p,mb,"scaled",false);
    b.p->fill(mkrange(T.lo,T.hi),0.125); trans(1); for(size_t i:to) mb.v[i]=0.125; compare(*b.p,mb,"filled",true);
}

// element types other than double, larger containers, special values
static void other(){
    int k=choose(5,"case");
    if(k==0){ int len=pick<int>("len",{63,64,65,127,1000,1001,1003,4096,4099,70001}); int dims=upto("dims",1,2); shard(); box A; A.lo.assign(dims,-1); A.hi.assign(dims,0); A.hi[0]=len-1; if(dims==2) A.hi[1]=3; mdl ma{A,{}}, mb{A,{}}; holder a=make(true,A,1), b=make(true,A,1); fillvals(*a.p,ma,5); fillvals(*b.p,mb,6); op("large pull"); b.p->pull(*a.p); mb.v=ma.v; compare(*b.p,mb,"b",true); a.p->fill(1.5); for(double & d:ma.v) d=1.5; compare(*b.p,mb,"b",false); b.p->swap(*a.p); std::swap(ma.v,mb.v); compare(*a.p,ma,"a",false); compare(*b.p,mb,"b",true); qk::data::full_copy(a.dc(),b.dc()); mb.v=ma.v; compare(*b.p,mb,"b",false); trans(4);
        // every operation on a long sub-range, and on all of it
        int s0=A.lo[0]+1, s1=A.hi[0]-2; box S=A; S.lo[0]=s0; S.hi[0]=s1; auto so=offsets(ma,S); a.p->fill(mkrange(S.lo,S.hi),-2.25); for(size_t i:so) ma.v[i]=-2.25; compare(*a.p,ma,"long sub-range filled",false);
        b.dc().multiply_by_scalar(mkrange(S.lo,S.hi),-3.); for(size_t i:so) mb.v[i]*=-3.; compare(*b.p,mb,"long sub-range scaled",false);
        qk::data::copy_to(b.dc(),mkrange(S.lo,S.hi),a.dc(),mkrange(S.lo,S.hi)); for(size_t i:so) ma.v[i]=mb.v[i]; compare(*a.p,ma,"long sub-range copied",false);
        a.p->fill(0.75); for(double & d:ma.v) d=0.75; compare(*a.p,ma,"filled",false); holder n=make(true,A,1); n.dc()=b.dc(); compare(*n.p,mb,"assigned",false); qk::data::datachunk cc(b.dc()); b.p->fill(9.); for(size_t i=0;i<mb.v.size();++i) if(!same_bits(cc.data()[i],mb.v[i])) fail("copy of a large container differs at element %zu",i); trans(6);
        state(hasher().add(ma.v).add(len).get()); }
    else if(k==1){ // special values survive every way of copying bit for bit
        static const double S[]={0.,-0.,INFINITY,-INFINITY,NAN,5e-324,1e308,-1.}; int w=choose(5,"how"); box A{{0,-1},{2,3}}; mdl ma{A,{}}, mb{A,{}}; holder a=make(true,A,1), b=make(true,A,1); fillvals(*b.p,mb,1); ma.v.resize(8); for(int i=0;i<8;++i){ ma.v[i]=S[i]; a.p->data()[i]=S[i]; }
        op("copy special values"); if(w==0) b.p->pull(*a.p); if(w==1) qk::data::copy_to(a.dc(),a.p->range(),b.dc(),b.p->range()); if(w==2) qk::data::full_copy(a.dc(),b.dc()); if(w==3) b.dc()=a.dc(); if(w==4) b.p->swap(*a.p),std::swap(ma.v,mb.v); if(w!=4) mb.v=ma.v; compare(*a.p,ma,"a",false); compare(*b.p,mb,"b",true); state(w+1); }
    else if(k==4){ // every factor times every kind of value, as ordinary multiplication has it
        static const double S[]={0.,-0.,INFINITY,-INFINITY,NAN,5e-324,1e308,-1.,1e-200,3.}; static const double F[]={0.,-0.,1.,-1.,2.,INFINITY,NAN,1e-200,1e300,0.1,-5e-324}; double by=F[choose(11,"factor")]; int sub=choose(3,"range"); box A{{0,-1},{2,4}}; mdl ma{A,{}}; holder a=make(true,A,1); ma.v.resize(10); for(int i=0;i<10;++i){ ma.v[i]=S[i]; a.p->data()[i]=S[i]; }
        box R=A; if(sub==1) R.hi[0]=1; if(sub==2) R.lo[1]=0; op("multiply special values by %g",by); a.dc().multiply_by_scalar(mkrange(R.lo,R.hi),by); for(size_t i:offsets(ma,R)) ma.v[i]*=by; for(int i=0;i<10;++i){ double x=a.p->data()[i], y=ma.v[i]; if(std::isnan(x)!=std::isnan(y)||(!std::isnan(y)&&x!=y)) fail("element %d is %.17g instead of %.17g",i,x,y); } state(hasher().add(ma.v).add(sub).get()); }
    else if(k==2){ // containers of strings
        int ops=choose(6,"op"); typedef qk::indexer_interface<std::string> S; ivec lo={-1,2}, hi={1,5}; S a(mkrange(lo,hi)), b(mkrange(lo,hi)); std::vector<std::string> ma(6),mb(6); for(int i=0;i<6;++i){ a.data()[i]=ma[i]=std::string(30,'a'+i); b.data()[i]=mb[i]=std::string(30,'A'+i); }
        op("strings"); if(ops==0){ a.pull(b); ma=mb; } if(ops==1){ a.swap(b); std::swap(ma,mb); } if(ops==2){ a.fill("q"); ma.assign(6,"q"); } if(ops==3){ ivec h2=hi; h2[1]=3; a.fill(mkrange(lo,h2),"z"); ma[0]=ma[3]="z"; } if(ops==4){ S c(a); a.fill("changed"); for(int i=0;i<6;++i) if(c.data()[i]!=ma[i]) fail("copy of strings lost element %d",i); ma.assign(6,"changed"); } if(ops==5){ a=b; b.fill("x"); ma=mb; mb.assign(6,"x"); }
        for(int i=0;i<6;++i){ if(a.data()[i]!=ma[i]) fail("string a[%d]",i); if(b.data()[i]!=mb[i]) fail("string b[%d]",i); } state(10+ops); }
    else { // re-allocating a container
        int i1=choose((int)menu().size(),"first"), i2=choose((int)menu().size(),"second"); mdl m2{menu()[i2],{}}; iface c(mkrange(menu()[i1].lo,menu()[i1].hi)); c.fill(3.); op("resize"); c.resize(mkrange(m2.b.lo,m2.b.hi)); if(!(c.range()==mkrange(m2.b.lo,m2.b.hi))) fail("range after resize"); fillvals(c,m2,7); compare(c,m2,"resized",true); state(hasher().add(i1).add(i2).get()); }
}

// copies between boxes of different shape and equal volume, at any place of their containers
static void reshapes(){
    int vol=pick<int>("cells",{1,2,3,4,6,8,12,16,30}); int n=upto("dims",1,3), m=upto("target dims",1,3);
    auto shape=[&](int d, const char * what){ ivec l; int left=vol; for(int k=0;k<d-1;++k){ ivec div; for(int q=1;q<=left;++q) if(left%q==0) div.push_back(q); int x=pick<int>(what,div); l.push_back(x); left/=x; } l.push_back(left); return l; };
    ivec L=shape(n,"length"), K=shape(m,"target length"); shard(); int where=choose(3,"place"); bool viapull=flag("pull"); box A,B,F,T;
    for(int d=0;d<n;++d){ int a=where?1+d%2:0; F.lo.push_back(-2+d); F.hi.push_back(-2+d+L[d]); A.lo.push_back(F.lo[d]-a); A.hi.push_back(F.hi[d]+(where==2?2:0)); }
    for(int d=0;d<m;++d){ int a=where==2?0:where; T.lo.push_back(3-2*d); T.hi.push_back(3-2*d+K[d]); B.lo.push_back(T.lo[d]-a); B.hi.push_back(T.hi[d]+where); }
    mdl ma{A,{}}, mb{B,{}}; holder a=make(true,A,1), b=make(true,B,1); fillvals(*a.p,ma,3); fillvals(*b.p,mb,4); op("copy %s to %s",show(F).c_str(),show(T).c_str());
    if(viapull){ if(where==0) b.p->pull(*a.p); else b.p->pull(*a.p,mkrange(F.lo,F.hi),mkrange(T.lo,T.hi)); } else if(where==0) qk::data::full_copy(a.dc(),b.dc()); else qk::data::copy_to(a.dc(),mkrange(F.lo,F.hi),b.dc(),mkrange(T.lo,T.hi));
    auto fo=offsets(ma,F), to=offsets(mb,T); for(size_t i=0;i<fo.size();++i) mb.v[to[i]]=ma.v[fo[i]]; compare(*a.p,ma,"source",false); compare(*b.p,mb,"target",false); state(hasher().add(mb.v).add(L).get());
}
void body(){ switch(choose(4,"part")){ case 3: reshapes(); break; case 0: sequences(); break; case 1: blocks(); break; case 2: other(); break; } }
