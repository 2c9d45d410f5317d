// C33: the same problem stated differently - axes relabelled, reversed or added, cells shifted round a periodic box, other
// units - has the same solution stated differently.  No reference solution is used: the real code is run on both.
#include "programs.h"

// physical axis i of the first problem is axis to[i] of the second one, with this sign
struct turn { int to[3]; int sg[3]; int det() const { int p= (to[0]==0&&to[1]==1)||(to[0]==1&&to[1]==2)||(to[0]==2&&to[1]==0)?1:-1; return p*sg[0]*sg[1]*sg[2]; } };
static turn turn_of(int k){ static const int P[6][3]={{0,1,2},{1,2,0},{2,0,1},{1,0,2},{0,2,1},{2,1,0}}; turn t; for(int i=0;i<3;++i){ t.to[i]=P[k/8][i]; t.sg[i]=(k>>i&1)?-1:1; } return t; }
static int comp_to(int kind, int c, const turn & t){ if(kind==FLUID) return c>=1&&c<4?1+t.to[c-1]:c; if(kind==EM) return c<3?t.to[c]:3+t.to[c-3]; return c; }
static int comp_sign(int kind, int c, const turn & t){ if(kind==FLUID) return c>=1&&c<4?t.sg[c-1]:1; if(kind==EM) return c<3?t.sg[c]:t.det()*t.sg[c-3]; return 1; }

// the first problem has n dimensions and lengths len, the second one m dimensions
struct statement { int n,m; turn t; ivec extra_len; ivec shift; units u; int lower; };
static void both(const statement & s, int program, int fk, int ek, const ivec & len, int steps, const std::function<std::vector<double>(int kind, int salt, size_t cell)> & init, const char * what){
    ivec lo,hi; dvec st,wd; for(int d=0;d<s.n;++d){ lo.push_back(d-1); hi.push_back(d-1+len[d]); st.push_back(-0.5+d); wd.push_back(len[d]*(0.25+0.125*d)); }
    ivec L(s.m,0),l2,h2; dvec s2,w2(s.m,0.); ivec dims,dims2,extra; dvec vel={0.75,-1.25,0.5}, vel2(3,0.); vel.resize(s.n); for(int d=0;d<s.n;++d){ L[s.t.to[d]]=len[d]; w2[s.t.to[d]]=std::ldexp(wd[d],s.u.length); dims.push_back(d); dims2.push_back(s.t.to[d]); vel2[s.t.to[d]]=std::ldexp(s.t.sg[d]*vel[d],s.u.velocity()); }
    int e=0; for(int d=0;d<s.m;++d) if(!L[d]){ L[d]=s.extra_len[e]; w2[d]=std::ldexp(L[d]*0.5,s.u.length); extra.push_back(d); vel2[d]=std::ldexp(e++?-0.5:1.,s.u.velocity()); } for(int d=0;d<s.m;++d){ l2.push_back(s.lower+d*2); h2.push_back(l2[d]+L[d]); s2.push_back(3.+d); } vel2.resize(s.m);
    prob a(lo,hi,st,wd,program), b(l2,h2,s2,w2,program);
    auto unit=[&](size_t i, int kind, int c){ bool rate=a.w.ids[i].name()=="emr"||a.w.ids[i].name()[1]=='r'; return s.u.of(kind,c)-(rate?s.u.time:0); };
    auto image=[&](const ivec & x){ ivec y(s.m,0); for(int d=0;d<s.n;++d){ int i=x[d]-lo[d]+s.shift[d]; i%=len[d]; if(s.t.sg[d]<0) i=len[d]-1-i; y[s.t.to[d]]=l2[s.t.to[d]]+i; } return y; };
    auto each=[&](const std::function<void(const ivec &, const ivec &)> & f){ ivec z,h; for(size_t i=0;i<extra.size();++i){ z.push_back(l2[extra[i]]); h.push_back(h2[extra[i]]); } for_box(lo,hi,[&](const ivec & x){ ivec y=image(x); if(extra.empty()) f(x,y); else for_box(z,h,[&](const ivec & v){ ivec q=y; for(size_t i=0;i<extra.size();++i) q[extra[i]]=v[i]; f(x,q); }); }); };
    for(size_t i=0;i<a.kinds.size();++i){ int kind=a.kinds[i]; field & f=a.w.f[i], & g=b.w.f[i]; std::fill(f.v.begin(),f.v.end(),1e3); std::fill(g.v.begin(),g.v.end(),-2e3); size_t cell=0; ivec last; std::vector<double> q; for_box(lo,hi,[&](const ivec & x){ q=init(kind,(int)i,cell++); for(int c=0;c<ncomp(kind);++c) f.at(x,0,c)=q[c%q.size()]; });
        each([&](const ivec & x, const ivec & y){ for(int c=0;c<ncomp(kind);++c) g.at(y,0,comp_to(kind,c,s.t))=std::ldexp(comp_sign(kind,c,s.t)*f.at(x,0,c),unit(i,kind,c)); }); a.w.push((int)i); b.w.push((int)i); }
    op("%s: program %d, %d to %d dimensions, boundaries %s and %s",what,program,s.n,s.m,bcname(fk),bcname(ek)); trans(2);
    units none={0,0,0,0}; a.run(program,fk,ek,dims,ivec(),none,vel,steps); b.run(program,fk,ek,dims2,extra,s.u,vel2,steps); hasher hh; bool exact=s.n==s.m&&s.shift==ivec(s.n,0); for(int i=0;i<3;++i) exact=exact&&s.t.to[i]==i&&s.t.sg[i]==1;
    for(size_t i=0;i<a.kinds.size();++i){ int kind=a.kinds[i]; a.w.pull((int)i); b.w.pull((int)i); const field & f=a.w.f[i], & g=b.w.f[i]; double scale[6]={0,0,0,0,0,0}; for_box(lo,hi,[&](const ivec & x){ for(int c=0;c<ncomp(kind);++c){ int r= kind==FLUID?(c==0?0:c<4?1:2):kind==EM?c/3:c; double v=std::fabs(f.at(x,0,c)); if(std::isfinite(v)&&v>scale[r]) scale[r]=v; hh.add(f.at(x,0,c)); } });
        if(kind==FLUID){ scale[1]=std::max(scale[1],std::sqrt(scale[0]*scale[2])); } if(kind==EM){ double q=std::max(scale[0],scale[1]); scale[0]=scale[1]=q; } if(a.w.ids[i].name()[1]=='r'||a.w.ids[i].name()=="emr"){ double q=0; for(double v:scale) q=std::max(q,v); for(double & v:scale) v=200*(q+1); }
        each([&](const ivec & x, const ivec & y){ for(int c=0;c<ncomp(kind);++c){ double want=comp_sign(kind,c,s.t)*f.at(x,0,c), got=std::ldexp(g.at(y,0,comp_to(kind,c,s.t)),-unit(i,kind,c)); int r= kind==FLUID?(c==0?0:c<4?1:2):kind==EM?c/3:c;
            if(got==want||(std::isnan(got)&&std::isnan(want))) continue; double tol= exact?1e-12*std::fabs(want):1e-10*scale[r]; if(!(std::fabs(got-want)<=tol)) fail("%s: %s component %d at %s is %.17g, stated differently (at %s) %.17g",what,a.w.ids[i].name().c_str(),c,show(x).c_str(),want,show(y).c_str(),got); } }); }
    state(hh.get()); }
void body(){
    static const units none={0,0,0,0}; int part=choose(4,"part");
    if(part==0){ // axes relabelled, reversed, added
        int program=choose(4,"program"); int n=upto("dims",1,3), m=upto("other dims",n,3); int k=choose(48,"turn"); shard(); turn t=turn_of(k); for(int d=0;d<n;++d) if(t.to[d]>=m) return; int fk= program==0||program==2? choose(4,"wall of the gas"):0; if(fk==3) fk=FREE_SLIP; int ek= program==1||program==2? pick<int>("wall of the fields",{PERIODIC,COPY_OUT,WALL}): program==3? pick<int>("wall",{PERIODIC,COPY_OUT}):0; if(program==2&&!thorough()&&(fk+ek)%3) return; int pat=choose(thorough()?6:2,"pattern"), shape=choose(thorough()?3:2,"shape");
        static const int LEN[3][3]={{5,3,2},{2,4,3},{1,6,5}}; ivec len; for(int d=0;d<n;++d) len.push_back(n==1&&!shape?9:LEN[shape][d]); both({n,m,t,{2,3},ivec(n,0),none,4},program,fk,ek,len,program==2?2:1,[&](int kind, int salt, size_t c){ return pattern(kind,salt,c,pat); },"axes relabelled");
    } else if(part==1){ // all arrangements along one axis
        int program=pick<int>("program",{0,1,3}); int k=choose(16,"turn"); shard(); turn t=turn_of(k%8+(k/8)*32); if(t.to[0]) return; int len=thorough()?6:5; int wall=choose(3,"wall"); int fk=wall==0?PERIODIC:wall==1?COPY_OUT:FREE_SLIP, ek=wall==2?(program==1?WALL:PERIODIC):fk; if(program==3&&wall==2) return; ivec a; for(int i=0;i<len;++i) a.push_back(choose(3,"state")); static const auto G=gas(1.4); static const auto Q=ems(); static const int A[3]={0,1,2};
        both({1,1,t,{},{0},none,-7},program,fk,ek,{len},1,[&](int kind, int salt, size_t c)->std::vector<double>{ int v=a[c]; if(kind==FLUID) return G[A[v]]; if(kind==EM) return Q[v+1]; return { v==0?0.:v==1?1.:-0.5, (double)((v+salt)%3) }; },"one axis, all arrangements");
    } else if(part==2){ // shifted round a periodic box
        int program=choose(4,"program"); int n=upto("dims",1,3); int shape=choose(thorough()?2:1,"shape"); static const int LEN[2][3]={{5,4,3},{7,2,6}}; ivec len,sh; size_t vol=1; for(int d=0;d<n;++d){ len.push_back(LEN[shape][d]); sh.push_back(choose(len[d],"shift")); vol*=len[d]; } shard(); int pat=choose(thorough()?6:3,"pattern"); both({n,n,turn_of(0),{},sh,none,1},program,PERIODIC,PERIODIC,len,2,[&](int kind, int salt, size_t c){ return pattern(kind,salt,c,pat); },"shifted");
    } else { // units
        int program=choose(4,"program"); int n=upto("dims",1,3); std::vector<int> e= thorough()?ivec{0,-61,-40,-7,13,52}:ivec{0,-44,9,38}; units u; u.length=pick<int>("length",e); u.time=pick<int>("time",e); shard(); u.density=program==1||program==3?0:pick<int>("density",e); u.field=program==0?0:pick<int>("field",e); int pat=choose(thorough()?3:1,"pattern"); int wall=(u.length+u.time+u.field+200)%3; ivec len; for(int d=0;d<n;++d) len.push_back(5-d); both({n,n,turn_of(0),{},ivec(n,0),u,0},program,wall==0?PERIODIC:wall==1?COPY_OUT:NO_SLIP,wall==0?PERIODIC:wall==1?COPY_OUT:program==3?PERIODIC:WALL,len,2,[&](int kind, int salt, size_t c){ return pattern(kind,salt,c,pat); },"other units");
    }
}
