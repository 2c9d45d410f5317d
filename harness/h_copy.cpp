// C26: copies of chunks, fields and variables.
#include "ref.h"
using namespace mc; using namespace ref;
typedef qk::variable::variable var;

struct spec { ivec lo,hi; int g,np,nc; };
static std::vector<spec> specs(){ return { {{0},{3},2,1,1}, {{-2},{2},1,2,3}, {{0,1},{2,4},2,1,5}, {{-1,-3},{0,0},0,1,2}, {{0,0,2},{2,1,4},1,1,6}, {{4,0,0},{5,2,1},2,3,1}, {{0},{40},3,1,2},
    // the same number of stored values in other arrangements
    {{0},{5},1,1,1}, {{0,0},{3,2},2,1,5}, {{-1},{3},0,6,1} }; }
struct mod { field f; std::string name; std::vector<std::string> names; std::string bname; };

static var mk(const spec & s, const std::string & name, mod & m, int salt){
    qk::basis::basis b("b"+std::to_string(s.np),s.np);
    var v(name,comps(s.nc),b,mkrange(s.lo,s.hi),s.g);
    m.f=field(s.lo,s.hi,s.g,s.np,s.nc); tag(m.f,salt); load(v,m.f); m.name=name; m.names=comps(s.nc); m.bname=b.name();
    return v;
}
static void verify(const var & v, const mod & m, const char * who){
    if(v.name()!=m.name) fail("%s: name '%s' instead of '%s'",who,v.name().c_str(),m.name.c_str());
    if(v.component_names()!=m.names) fail("%s: component names changed",who);
    if(v.basis().name()!=m.bname||v.basis().num_points()!=m.f.np) fail("%s: basis changed",who);
    const auto & c=chunk(v);
    if(c.num_ghost_layers()!=m.f.g) fail("%s: %d ghost layers instead of %d",who,c.num_ghost_layers(),m.f.g);
    qk::range in=mkrange(m.f.lo,m.f.hi); in.extrude(0,m.f.np); in.extrude(0,m.f.nc);
    if(!(c.internal_range()==in)) fail("%s: interior differs",who);
    for(int d=0;d<m.f.nd();++d){ qk::range r=in; r.set(d,m.f.lo[d]-m.f.g,m.f.lo[d]); if(!(c.lower_external_range(d)==r)) fail("%s: lower external slab",who); r=in; r.set(d,m.f.hi[d],m.f.hi[d]+m.f.g); if(!(c.upper_external_range(d)==r)) fail("%s: upper external slab",who); r=in; r.set(d,m.f.lo[d],m.f.lo[d]+m.f.g); if(!(c.lower_internal_range(d)==r)) fail("%s: lower internal slab",who); r=in; r.set(d,m.f.hi[d]-m.f.g,m.f.hi[d]); if(!(c.upper_internal_range(d)==r)) fail("%s: upper internal slab",who); }
    expect_same(v,m.f,who);
    trans(1);
}
static void scribble(var & v, mod & m, int salt){ field & f=m.f; for(size_t i=0;i<f.v.size();i+=1+i%3) f.v[i]=-tagval(i,salt); load(v,f); }

static void variables(){
    auto S=specs(); int na=choose((int)S.size(),"a"), nb=choose((int)S.size(),"b"); shard();
    mod ma,mb; std::unique_ptr<var> a(new var(mk(S[na],"a",ma,1))), b(new var(mk(S[nb],"b",mb,2)));
    verify(*a,ma,"a"); verify(*b,mb,"b");
    int depth=(thorough()?5:4)-(sanitized?1:0);
    for(int s=0;s<depth;++s){
        int o=choose(9,"op");
        switch(o){
        case 0: op("a = b"); { var & r=(*a=*b); if(&r!=a.get()) fail("assignment result"); } ma=mb; break;
        case 1: op("a = copy of b"); a.reset(new var(*b)); ma=mb; break;
        case 2: op("a = a"); { var & r=*a; *a=r; } break;
        case 3: op("modify a"); scribble(*a,ma,10+s); break;
        case 4: op("modify b"); scribble(*b,mb,20+s); break;
        case 5: op("copy b, destroy the original"); { std::unique_ptr<var> n(new var(*b)); chunk(*b).fill(-5.); b.reset(); b=std::move(n); } break;
        case 6: op("re-create a with another shape"); { mod m; *a=mk(S[(na+s+1)%S.size()],"c",m,30+s); ma=m; } break;
        case 7: op("copies through a vector"); { std::vector<var> v; v.push_back(*a); v.push_back(*b); v.push_back(*a); v.erase(v.begin()); scribble(*a,ma,40+s); *b=v[0]; mod t=ma; (void)t; var w=v[1]; *a=w; save(*a,ma.f); /* restored below */ verify(v[0],mb,"vector element"); expect_same(v[1],ma.f,"vector element"); } break;
        case 8: op("pass by value"); { auto f=[](var v){ chunk(v).fill(123.); return v; }; var r=f(*b); verify(*b,mb,"argument"); const auto & c=chunk(r); for(int i=0;i<c.volume();++i) if(c.data()[i]!=123.) fail("returned copy"); } break;
        }
        verify(*a,ma,"a"); verify(*b,mb,"b");
        state(hasher().add(ma.f.hash()).add(mb.f.hash()).get());
    }
    // ghost cells and interior of the results stay independent
    scribble(*a,ma,50); verify(*b,mb,"b after writing a"); a.reset(); verify(*b,mb,"b after destroying a");
}
static void chunks(){
    auto S=specs(); int na=choose((int)S.size(),"a"), nb=choose((int)S.size(),"b"); int how=choose(4,"how"); shard();
    typedef qk::data::extended_datachunk ch; ch * a=new ch, * b=new ch; const spec & A=S[na], & B=S[nb];
    a->resize(mkrange(A.lo,A.hi),mkrange({0,0},{A.np,A.nc}),A.g); b->resize(mkrange(B.lo,B.hi),mkrange({0,0},{B.np,B.nc}),B.g);
    field fa(A.lo,A.hi,A.g,A.np,A.nc), fb(B.lo,B.hi,B.g,B.np,B.nc); tag(fa,1); tag(fb,2); load(*a,fa); load(*b,fb);
    auto chk=[&](ch & c, const field & f, const char * w){ check_shape(c,f,w); if(c.num_ghost_layers()!=f.g) fail("%s: ghost layers",w); for(size_t i=0;i<f.v.size();++i) if(!same_bits(c.data()[i],f.v[i])) fail("%s: %s",w,where(f,i).c_str()); trans(1); };
    op("copy chunk"); ch * c=0;
    if(how==0) c=new ch(*b); if(how==1){ c=new ch; *c=*b; } if(how==2){ *a=*b; c=new ch(*a); } if(how==3){ std::vector<ch> v(2); v[0]=*b; v.resize(5); c=new ch(v[0]); }
    chk(*c,fb,"copy"); b->fill(7.); chk(*c,fb,"copy after writing the source"); delete b; chk(*c,fb,"copy after destroying the source"); b=new ch(*c); b->resize(mkrange({0},{2}),mkrange({0},{1}),1); chk(*c,fb,"copy after re-allocating the other"); b->fill(1.); chk(*c,fb,"copy"); if(how!=2) chk(*a,fa,"bystander");
    c->fill(2.); if(b->data()[0]!=1.) fail("writing the copy reached the other"); state(hasher().add(na).add(nb).add(how).get()); delete a; delete b; delete c;
    // base class copies
    qk::data::datachunk d; d.resize(mkrange(A.lo,A.hi),mkrange({0},{A.nc})); for(int i=0;i<d.volume();++i) d.data()[i]=tagval(i,4); qk::data::datachunk e; e.resize(mkrange(B.lo,B.hi),mkrange({0},{B.nc})); e=d; if(!(e.range()==d.range())) fail("chunk assignment keeps the old range"); d.fill(0.); for(int i=0;i<e.volume();++i) if(e.data()[i]!=tagval(i,4)) fail("chunk assignment lost element %d",i); qk::data::datachunk f(e); e.fill(1.); for(int i=0;i<f.volume();++i) if(f.data()[i]!=tagval(i,4)) fail("chunk copy lost element %d",i); trans(3);
    // the mesh/data split survives as well: a re-export of the copy shows the same shape
}
void body(){ if(choose(2,"part")==0) variables(); else chunks(); }
