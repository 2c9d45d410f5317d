// Reference boundary conditions on reference fields.
#ifndef BCREF_H
#define BCREF_H
#include "ref.h"
namespace ref {
// a time step and a time that depend only on the choices made so far: what does not use them must work at any of them
inline void moment(qk::variable::variable_manager & m){ static const double M[][2]={{0.37,11},{-2.5,-3e7},{0,4e9},{4e5,0},{1e-12,-1},{0,0},{1e-300,0.1}}; const double * t=M[mc::path_hash()%7]; m.set_dt(t[0]); m.set_time(t[1]); }
enum bckind { PERIODIC, COPY_OUT, NO_SLIP, FREE_SLIP, WALL };
inline const char * bcname(int k){ static const char * n[]={"periodic","copy-out","no-slip","free-slip","conducting wall"}; return n[k]; }
// known: 1 = defined value, 0 = unspecified, 2 = defined up to sign
typedef std::vector<char> mask;
inline void apply_bc(field & f, mask & known, int kind, const ivec & dims){
    std::vector<char> sel(f.nd(),0); for(int d:dims) sel[d]=1;
    field old=f; mask ok=known;
    for_box(f.elo(),f.ehi(),[&](const ivec & x){
        int dim=-1, out=f.outside(x,&dim);
        if(out==0) return;
        if(out==1){
            if(!sel[dim]) return;
            ivec y=x; int n=f.hi[dim]-f.lo[dim];
            bool low=x[dim]<f.lo[dim];
            if(kind==PERIODIC) y[dim]+= low? n : -n;
            else y[dim]= low? 2*f.lo[dim]-1-x[dim] : 2*f.hi[dim]-1-x[dim];
            for(int p=0;p<f.np;++p) for(int c=0;c<f.nc;++c){
                double v=old.at(y,p,c); char k=ok[f.off(y,p,c)];
                bool neg=false;
                if(kind==NO_SLIP) neg = c>=1&&c<=3;
                if(kind==FREE_SLIP) neg = c==1+dim;
                if(kind==WALL){ if(c<3){ if(c==dim) k = k?2:0; else neg=true; } else if(c<6) neg = c==3+dim; }
                f.at(x,p,c)= neg? -v : v; known[f.off(x,p,c)]=k;
            }
            return;
        }
        // corners: untouched if no dimension it sticks out of is selected, otherwise unspecified
        bool any=false; for(int d=0;d<f.nd();++d) if((x[d]<f.lo[d]||x[d]>=f.hi[d])&&sel[d]) any=true;
        if(any) for(int p=0;p<f.np;++p) for(int c=0;c<f.nc;++c) known[f.off(x,p,c)]=0;
    });
}
inline void compare_masked(const qk::variable::variable & v, const field & f, const mask & known, const char * what){
    const qk::data::extended_datachunk & c=chunk(v); check_shape(c,f,what); const double * d=c.data();
    for(size_t i=0;i<f.v.size();++i){
        if(!known[i]) continue;
        if(same_bits(d[i],f.v[i])||d[i]==f.v[i]) continue;
        if(known[i]==2&&std::fabs(d[i])==std::fabs(f.v[i])) continue;
        mc::fail("%s: %s is %.17g instead of %.17g",what,where(f,i).c_str(),d[i],f.v[i]);
    }
}
}
#endif
