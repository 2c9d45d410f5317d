// Reference definitions of the solvers (long double, written from their formulas) and a small world of fields.
#ifndef NUM_H
#define NUM_H
#include "bcref.h"
namespace ref {
typedef long double real;
typedef std::vector<real> rvec;
typedef qk::variable::variable_id vid;

// Grids and managers of successive programs live at the same addresses (last freed, first used), as they do in a process
// that sets up one problem after another; sanitised builds keep the heap so that uses after the end are seen.
template<class T> struct slots { union slot { slot * next; alignas(T) char mem[sizeof(T)]; }; static slot *& head(){ static slot * h=0; return h; }
    template<class... A> static T * make(A &&... a){ if(mc::sanitized) return new T(std::forward<A>(a)...); slot * s=head(); if(s) head()=s->next; else s=new slot; return new(s->mem) T(std::forward<A>(a)...); }
    struct del { void operator()(T * p) const { if(mc::sanitized){ delete p; return; } p->~T(); slot * s=reinterpret_cast<slot*>(p); s->next=head(); head()=s; } }; };
template<class T> using slotted=std::unique_ptr<T,typename slots<T>::del>;

// ---------------------------------------------------------------- a mesh with fields
struct world {
    ivec lo,hi; dvec start,width,dx;
    slotted<qk::grid::rectilinear> grid; slotted<qk::variable::variable_manager> mgr;
    std::vector<vid> ids; std::vector<field> f;
    world(const ivec & l, const ivec & h, dvec s=dvec(), dvec w=dvec()) : lo(l),hi(h),start(s),width(w){
        size_t n=lo.size(); if(start.size()<n) start.resize(n,-0.5); if(width.size()<n) width.resize(n,1.);
        for(size_t i=0;i<n;++i) dx.push_back(width[i]/double(hi[i]-lo[i]));
        grid.reset(slots<qk::grid::rectilinear>::make(mkrange(lo,hi),start.data(),width.data())); mgr.reset(slots<qk::variable::variable_manager>::make(*grid)); moment(*mgr);
    }
    int nd() const { return (int)lo.size(); }
    int add(const std::string & name, int nc, int g=2, int np=1){
        qk::basis::basis b = np==1? qk::basis::basis(qk::basis::volume_average()) : qk::basis::basis("points"+std::to_string(np),np);
        vid id(name,comps(nc),b); auto & v=mgr->output_variable(id);
        if(g!=2) v=qk::variable::variable(name,comps(nc),b,mkrange(lo,hi),g);
        ids.push_back(id); f.push_back(field(lo,hi,g,np,nc)); return (int)ids.size()-1;
    }
    qk::variable::variable & out(int i){ return mgr->output_variable(ids[i]); }
    const qk::variable::variable & in(int i){ return mgr->input_variable(ids[i]); }
    void push(int i){ load(out(i),f[i]); }
    void pull(int i){ save(in(i),f[i]); }
    void unchanged(int i, const char * when){ expect_same(in(i),f[i],(ids[i].name()+" "+when).c_str()); }
};
inline void track(const world & w){ mc::hasher h; for(auto & x:w.f) h.add(x.hash()); h.add(w.start).add(w.width); mc::state(h.get()); }

// interior values with the magnitude against which a difference is judged; ok=0 where unspecified
struct expected { ivec lo,hi; int np,nc; rvec v,scale; std::vector<char> ok;
    field shape;
    explicit expected(const field & f) : lo(f.lo),hi(f.hi),np(f.np),nc(f.nc),shape(f){ v.resize(f.v.size()); scale.resize(f.v.size()); ok.assign(f.v.size(),1); for(size_t i=0;i<f.v.size();++i){ v[i]=f.v[i]; scale[i]=std::fabs(f.v[i]); } }
    void add(size_t o, real x){ v[o]+=x; scale[o]+=std::fabs(x); }
};
inline void compare(const qk::variable::variable & var, const expected & e, const char * what, double tol=1e-9, bool exact_shape=true){
    const qk::data::extended_datachunk & c=chunk(var); check_shape(c,e.shape,what); const double * d=c.data(); const field & f=e.shape;
    for_box(f.lo,f.hi,[&](const ivec & x){ for(int p=0;p<f.np;++p) for(int k=0;k<f.nc;++k){ size_t o=f.off(x,p,k); if(!e.ok[o]) continue; if(!std::isfinite(e.v[o])){ if(std::isfinite(d[o])) mc::fail("%s: %s is %.17g instead of %.17Lg",what,where(f,o).c_str(),d[o],e.v[o]); continue; }
        real diff=std::fabs((real)d[o]-e.v[o]); if(!(diff<=tol*e.scale[o]+1e-290L)) mc::fail("%s: %s is %.17g instead of %.17Lg (scale %.3Lg)",what,where(f,o).c_str(),d[o],e.v[o],e.scale[o]); } });
}
// every ghost cell with interior coordinates in all other dimensions wraps around; edge and corner ghosts are poisoned
inline void make_periodic(field & f, double corner){
    field o=f;
    for_box(f.elo(),f.ehi(),[&](const ivec & x){ int d=-1; int n=f.outside(x,&d); if(!n) return; ivec y=x;
        if(n==1){ int L=f.hi[d]-f.lo[d]; y[d]=f.lo[d]+(((x[d]-f.lo[d])%L)+L)%L; }
        for(int p=0;p<f.np;++p) for(int c=0;c<f.nc;++c) f.at(x,p,c)= n==1? o.at(y,p,c) : corner; });
}
inline void poison_corners(field & f, double corner){ for_box(f.elo(),f.ehi(),[&](const ivec & x){ if(f.outside(x)>1) for(int p=0;p<f.np;++p) for(int c=0;c<f.nc;++c) f.at(x,p,c)=corner; }); }

// ---------------------------------------------------------------- limited states
inline real va(real a, real b){ real n=a*a+b*b; return n==0? 0 : a*b*(a+b)/n; } // van Albada average of two differences
inline void faces(const field & f, const ivec & x, int d, real * ql, real * qr){ // face between x-1 and x along d
    ivec y=x; y[d]-=2; size_t nn=f.off(y); y[d]++; size_t n=f.off(y); y[d]++; size_t c=f.off(y); y[d]++; size_t p=f.off(y);
    for(int k=0;k<f.nc;++k){ real a=(real)f.v[n+k]-f.v[nn+k], b=(real)f.v[c+k]-f.v[n+k], e=(real)f.v[p+k]-f.v[c+k];
        ql[k]=f.v[n+k]+0.5L*va(a,b); qr[k]=f.v[c+k]-0.5L*va(b,e); }
}
// Euler: returns false where the flux is not specified (unphysical reconstructed state, inverted waves)
inline bool euler_flux(real gamma, const real * ql, const real * qr, int d, real * F, real * S){
    real fl[5],fr[5],P[2],u[2],a[2]; const real * q[2]={ql,qr}; real * fx[2]={fl,fr};
    for(int s=0;s<2;++s){ const real * w=q[s]; if(!(w[0]>0)) return false; P[s]=(gamma-1)*(w[4]-0.5L*(w[1]*w[1]+w[2]*w[2]+w[3]*w[3])/w[0]);
        if(!(P[s]>1e-7L*std::fabs(w[4]))) return false; u[s]=w[1+d]/w[0]; a[s]=sqrtl(gamma*P[s]/w[0]);
        fx[s][0]=w[1+d]; for(int k=0;k<3;++k) fx[s][1+k]=w[1+k]*u[s]; fx[s][1+d]+=P[s]; fx[s][4]=(w[4]+P[s])*u[s]; }
    real sl=u[0]-a[0], sr=u[1]+a[1];
    if(sl>-1e-9L*a[0] && sr<1e-9L*a[1]) return false;
    real w=std::max(std::fabs(u[0])+a[0],std::fabs(u[1])+a[1]);
    for(int k=0;k<5;++k){
        S[k]=std::fabs(fl[k])+std::fabs(fr[k])+w*(std::fabs(ql[k])+std::fabs(qr[k]));
        if(k>=1&&k<=3) S[k]+=P[0]+P[1]+w*w*(ql[0]+qr[0]);
        if(sl>=0) F[k]=fl[k]; else if(sr<=0) F[k]=fr[k]; else F[k]=(sr*fl[k]-sl*fr[k]+sl*sr*(qr[k]-ql[k]))/(sr-sl); }
    return true;
}
// adds the contribution of all dimensions to the expected right-hand side; returns the number of unspecified cells
inline int add_euler(expected & e, const field & q, real gamma, const dvec & dx){
    int bad=0;
    for_box(q.lo,q.hi,[&](const ivec & x){ size_t o=e.shape.off(x); bool ok=true;
        for(int d=0;d<q.nd();++d) for(int s=0;s<2;++s){ ivec y=x; y[d]+=s; real ql[5],qr[5],F[5],S[5]; faces(q,y,d,ql,qr);
            if(!euler_flux(gamma,ql,qr,d,F,S)){ ok=false; continue; }
            for(int k=0;k<5;++k){ e.v[o+k]+= (s?-F[k]:F[k])/(real)dx[d]; e.scale[o+k]+=S[k]/(real)dx[d]; } }
        if(!ok){ ++bad; for(int k=0;k<5;++k) e.ok[o+k]=0; } });
    return bad;
}
inline void add_maxwell(expected & e, const field & q, real c, const dvec & dx){
    for_box(q.lo,q.hi,[&](const ivec & x){ size_t o=e.shape.off(x); real ac=std::fabs(c);
        for(int d=0;d<q.nd();++d) for(int s=0;s<2;++s){ ivec y=x; y[d]+=s; real ql[6],qr[6]; faces(q,y,d,ql,qr); int j=(d+1)%3,k=(d+2)%3; real sg=(s?-1:1)/(real)dx[d];
            // along axis d, with (d,j,k) cyclic: E_j carries c^2 B_k, E_k carries -c^2 B_j, B_j carries -E_k, B_k carries E_j
            struct { int to,from; real m; } t[4]={{j,3+k,c*c},{k,3+j,-c*c},{3+j,k,-1},{3+k,j,1}};
            for(auto & r:t){ real F=0.5L*r.m*(ql[r.from]+qr[r.from])-0.5L*ac*(qr[r.to]-ql[r.to]); e.v[o+r.to]+=sg*F; e.scale[o+r.to]+=std::fabs(sg)*(0.5L*std::fabs(r.m)*(std::fabs(ql[r.from])+std::fabs(qr[r.from]))+0.5L*ac*(std::fabs(qr[r.to])+std::fabs(ql[r.to]))); }
        } });
}
inline void add_lorentz(expected & e, const field & fl, const field & em, real com){
    for_box(fl.lo,fl.hi,[&](const ivec & x){ size_t o=e.shape.off(x); const double * q=&fl.v[fl.off(x)]; const double * E=&em.v[em.off(x)]; const double * B=E+3; const double * p=q+1;
        for(int k=0;k<3;++k){ int a=(k+1)%3,b=(k+2)%3; e.add(o+1+k,com*(real)q[0]*E[k]); e.add(o+1+k,com*(real)p[a]*B[b]); e.add(o+1+k,-com*(real)p[b]*B[a]); }
        for(int k=0;k<3;++k) e.add(o+4,com*(real)p[k]*E[k]); });
}
inline void add_current(expected & e, const field & fl, real m){ for_box(fl.lo,fl.hi,[&](const ivec & x){ for(int k=0;k<3;++k) e.add(e.shape.off(x,0,k),m*fl.at(x,0,1+k)); }); }

// ---------------------------------------------------------------- advection: base + dt L(n) on the interior
inline real adv_flux(real vn, real vc, real vp, real * mag){ real a=vc-vn,b=vp-vc; real n=a*a+b*b; real t = b==0? 0.25L*a : 0.25L*a*(a+b)*(a+b)/n; *mag=std::fabs(vc)+std::fabs(vn)+std::fabs(vp); return vc+t; }
inline void add_advection(expected & e, const field & n, real dt, const dvec & vel, const dvec & dx){
    for_box(n.lo,n.hi,[&](const ivec & x){ for(int p=0;p<n.np;++p) for(int c=0;c<n.nc;++c){ size_t o=e.shape.off(x,p,c);
        for(int d=0;d<n.nd();++d){ real co=std::fabs(dt*(real)vel[d]/(real)dx[d]); if(co==0) continue; int s=vel[d]>0?1:-1; if(dt<0) { /* negative steps are not specified */ }
            for(int t=0;t<2;++t){ ivec up=x; up[d]-= t==0? s:0; ivec uu=up,dn=up; uu[d]-=s; dn[d]+=s; real mag; real F=adv_flux(n.at(uu,p,c),n.at(up,p,c),n.at(dn,p,c),&mag); e.v[o]+= t==0? co*F:-co*F; e.scale[o]+=co*mag; } } } });
}

// ---------------------------------------------------------------- palettes
inline std::vector<std::vector<double> > gas(double gamma, double s=1){ // rho, u, v, w, P -> conserved
    static const double prim[][5]={ {1,0,0,0,1},{0.125,0,0,0,0.1},{1,0.3,-0.2,0.5,0.7},{0.7,2.5,0.4,-1.1,0.6},{1.3,-3.1,0.9,0.2,0.8},{0.4,-0.6,1.7,-2.2,1.9},{2.2,0.1,-2.8,3.0,0.5},{0.9,0.2,0.1,-0.3,3.5} };
    std::vector<std::vector<double> > r;
    for(auto & w:prim){ double rho=w[0]*s; r.push_back({rho,rho*w[1],rho*w[2],rho*w[3],w[4]*s/(gamma-1)+0.5*rho*(w[1]*w[1]+w[2]*w[2]+w[3]*w[3])}); }
    return r;
}
// exactly sonic states (u = +-a without rounding; gamma 1.5, 2 or 3) along axis d, and others
inline std::vector<std::vector<double> > sonic(double gamma, int d){ std::vector<std::vector<double> > r; struct { double rho,P,u,t; } w[]={ {gamma,1,1,0},{gamma,1,-1,0},{gamma,4,2,1},{gamma*4,1,-0.5,-2},{gamma,1,0,0},{gamma,1,3,0.5},{gamma,1,-3,0.5} };
    for(auto & x:w){ std::vector<double> s={x.rho,0,0,0,0}; s[1+d]=x.rho*x.u; s[1+(d+1)%3]=x.rho*x.t; s[4]=x.P/(gamma-1)+0.5*x.rho*(x.u*x.u+x.t*x.t); r.push_back(s); } return r; }
inline std::vector<std::vector<double> > ems(){ return { {0,0,0,0,0,0},{1,-0.5,0.25,0.75,-1.5,2},{-0.3,0.9,-1.7,0.6,0.2,-0.8},{2.5,1.25,-0.4,-3.1,0.7,1.1},{1,-0.5,0.25,0.75,-1.5,2.5},{-1,0.5,-0.25,-0.75,1.5,-2},{0.1,0.2,0.3,0.4,0.5,0.6} }; }
inline void put(field & f, const ivec & x, const std::vector<double> & s){ for(int c=0;c<f.nc;++c) f.at(x,0,c)=s[c%s.size()]; }
}
#endif
