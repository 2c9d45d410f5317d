// Reference model of fields: plain boxes and row-major arrays, written without the library.
#ifndef REF_H
#define REF_H
#include "mc.h"
#include <functional>
#include <limits>
#include <memory>
#include <map>
#include <algorithm>
#include <set>

#include "lib/range.h"
#include "lib/indexer.h"
#include "lib/indexer_interface.h"
#include "lib/exception.h"
#include "data/datachunk.h"
#include "data/extended_datachunk.h"
#include "data/functions.h"
#include "basis/basis.h"
#include "basis/volume_average.h"
#include "grid/grid.h"
#include "grid/rectilinear.h"
#include "variable/variable.h"
#include "variable/variable_id.h"
#include "variable/variable_manager.h"

namespace ref {

typedef std::vector<int> ivec;
typedef std::vector<double> dvec;

inline uint64_t bits(double d){ uint64_t u; memcpy(&u,&d,8); return u; }
inline bool same_bits(double a, double b){ return bits(a)==bits(b); }
inline double poison(){ return std::numeric_limits<double>::quiet_NaN(); }

// closeness in terms of a scale given by the caller
inline bool close(double a, double b, double scale, double tol = 1e-9){
    if(a==b) return true;
    if(!(std::isfinite(a)&&std::isfinite(b))) return false;
    return std::fabs(a-b) <= tol*(std::fabs(scale)+1e-300);
}

// visit all integer points of [lo,hi) in row-major order
template<class F> inline void for_box(const ivec & lo, const ivec & hi, F f){
    size_t n=lo.size();
    for(size_t i=0;i<n;++i) if(lo[i]>=hi[i]) return;
    ivec x=lo;
    if(n==0) return;
    while(true){
        f(x);
        int d=(int)n-1;
        while(d>=0 && ++x[d]>=hi[d]){ x[d]=lo[d]; --d; }
        if(d<0) return;
    }
}

inline qk::range mkrange(const ivec & lo, const ivec & hi){ return qk::range((int)lo.size(), lo.data(), hi.data()); }

// a field: mesh box with ghost layers, points and components; row-major, components fastest
struct field {
    ivec lo, hi;           // interior mesh box
    int g=0, np=1, nc=1;
    dvec v;
    field(){}
    field(const ivec & l, const ivec & h, int g_, int np_, int nc_) : lo(l),hi(h),g(g_),np(np_),nc(nc_) { v.assign(size(),0.); }
    int nd() const { return (int)lo.size(); }
    size_t size() const { size_t s=1; for(int i=0;i<nd();++i) s*=(size_t)(hi[i]-lo[i]+2*g); return s*np*nc; }
    ivec elo() const { ivec r=lo; for(int & x:r) x-=g; return r; }
    ivec ehi() const { ivec r=hi; for(int & x:r) x+=g; return r; }
    size_t off(const ivec & x, int p=0, int c=0) const {
        size_t o=0; for(int i=0;i<nd();++i) o=o*(hi[i]-lo[i]+2*g)+(x[i]-lo[i]+g);
        return (o*np+p)*nc+c;
    }
    double & at(const ivec & x, int p=0, int c=0){ return v[off(x,p,c)]; }
    double at(const ivec & x, int p=0, int c=0) const { return v[off(x,p,c)]; }
    // number of mesh dimensions in which x lies outside the interior
    int outside(const ivec & x, int * dim=0) const { int n=0; for(int i=0;i<nd();++i) if(x[i]<lo[i]||x[i]>=hi[i]){ ++n; if(dim)*dim=i; } return n; }
    size_t cells() const { size_t s=1; for(int i=0;i<nd();++i) s*=(size_t)(hi[i]-lo[i]); return s; }
    uint64_t hash() const { mc::hasher h; h.add(lo).add(hi).add(g).add(np).add(nc).add(v); return h.get(); }
};

inline std::vector<std::string> comps(int n){ std::vector<std::string> r; for(int i=0;i<n;++i) r.push_back("c"+std::to_string(i)); return r; }

inline const qk::data::extended_datachunk & chunk(const qk::variable::variable & v){ qk::indexer i=v.indexer(); if(!i.exists()) mc::fail("field '%s' has no storage",v.name().c_str()); return v[i]; }
inline qk::data::extended_datachunk & chunk(qk::variable::variable & v){ qk::indexer i=v.indexer(); if(!i.exists()) mc::fail("field '%s' has no storage",v.name().c_str()); return v[i]; }

// geometry of an implementation field must be that of the reference before its raw data may be touched
inline void check_shape(const qk::data::extended_datachunk & c, const field & f, const char * what){
    int n=f.nd()+2;
    if(c.num_dims()!=n) mc::fail("%s: %d dimensions instead of %d",what,c.num_dims(),n);
    for(int i=0;i<n;++i){
        int l = i<f.nd()? f.lo[i]-f.g : 0, h = i<f.nd()? f.hi[i]+f.g : (i==f.nd()?f.np:f.nc);
        if(c.lower(i)!=l || c.upper(i)!=h) mc::fail("%s: dimension %d is [%d,%d) instead of [%d,%d)",what,i,c.lower(i),c.upper(i),l,h);
    }
    if((size_t)c.volume()!=f.size()) mc::fail("%s: volume %d instead of %zu",what,c.volume(),f.size());
}
inline void load(qk::data::extended_datachunk & c, const field & f){ check_shape(c,f,"field to load"); memcpy(c.data(), f.v.data(), f.v.size()*sizeof(double)); }
inline void load(qk::variable::variable & v, const field & f){ load(chunk(v),f); }
inline void save(const qk::variable::variable & v, field & f){ const qk::data::extended_datachunk & c=chunk(v); check_shape(c,f,v.name().c_str()); memcpy(f.v.data(), c.data(), f.v.size()*sizeof(double)); }

inline std::string where(const field & f, size_t o){
    int c=o%f.nc; o/=f.nc; int p=o%f.np; o/=f.np; ivec x(f.nd());
    for(int i=f.nd()-1;i>=0;--i){ int l=f.hi[i]-f.lo[i]+2*f.g; x[i]=f.lo[i]-f.g+(int)(o%l); o/=l; }
    return "cell "+mc::show(x)+" point "+std::to_string(p)+" component "+std::to_string(c);
}
// whole field, ghost cells included, bit for bit
inline void expect_same(const qk::variable::variable & v, const field & f, const char * what){
    const qk::data::extended_datachunk & c=chunk(v); check_shape(c,f,what);
    const double * d=c.data();
    if(memcmp(d,f.v.data(),f.v.size()*sizeof(double))==0) return;
    for(size_t i=0;i<f.v.size();++i) if(!same_bits(d[i],f.v[i])) mc::fail("%s: %s is %.17g instead of %.17g",what,where(f,i).c_str(),d[i],f.v[i]);
}

// a value that is different for every cell and component
inline double tagval(size_t i, int salt=0){ return 1.0 + 0.001*(double)((i*7919+salt*104729)%100003) + (double)salt*0.37; }
inline void tag(field & f, int salt=0){ for(size_t i=0;i<f.v.size();++i) f.v[i]=tagval(i,salt); }

// Expects fn to throw an exception derived from std::exception
template<class F> inline bool throws(F fn, std::string * text=0){
    try { fn(); } catch(const mc::violation &){ throw; } catch(const std::exception & e){ if(text) *text=e.what(); return true; }
    return false;
}

// mesh box helper
struct box { ivec lo, hi; };
inline std::ostream & operator<<(std::ostream & o, const box & b){ return o<<mc::show(b.lo)<<".."<<mc::show(b.hi); }

}
#endif
