// Stateless choice-sequence explorer.
//
// A harness body is an ordinary deterministic function that asks `pick`/`choose`
// for every nondeterministic decision (shape, operation, argument, fault, ...).
// The explorer runs the body once per complete choice sequence, in depth-first
// order, until the whole decision tree has been visited.  Nothing is sampled.
#ifndef MC_H
#define MC_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <sstream>
#include <exception>
#include <initializer_list>

namespace mc {

struct violation : std::exception {
    std::string msg;
    explicit violation(const std::string & m) : msg(m) {}
    const char * what() const noexcept { return msg.c_str(); }
};

[[noreturn]] void fail(const char * fmt, ...) __attribute__((format(printf, 1, 2)));

int choose(int n, const char * name);          // 0..n-1, enumerated exhaustively
void note(const char * name, const std::string & value); // value of the last choice, for traces
uint64_t path_hash();                          // of the choices made so far in this execution: spreads secondary settings over the tree
void shard();                                  // distribute the choice prefix so far over the worker processes
void op(const char * fmt, ...) __attribute__((format(printf, 1, 2)));    // one transition of the implementation
void trans(uint64_t n);                        // count n transitions without a trace line
void state(uint64_t hash);                     // record an observed (canonical) state
bool thorough();
#ifdef __SANITIZE_ADDRESS__
const bool sanitized = true;
#else
const bool sanitized = false;
#endif
const std::string & prop();                    // the property this run decides
bool verbose();
const std::string & scratch();                 // private scratch directory of this worker

template<class T> inline std::string show(const T & t){ std::ostringstream s; s.precision(17); s << t; return s.str(); }
template<class T> inline std::string show(const std::vector<T> & t){ std::string s="["; for(size_t i=0;i<t.size();++i){ if(i) s+=","; s+=show(t[i]); } return s+"]"; }

template<class T> inline T pick(const char * name, const std::vector<T> & v){
    int i = choose((int)v.size(), name);
    T r = v[i];
    note(name, show(r));
    return r;
}
template<class T> inline T pick(const char * name, std::initializer_list<T> v){ return pick(name, std::vector<T>(v)); }
inline bool flag(const char * name){ int i=choose(2,name); note(name, i?"1":"0"); return i; }
inline int upto(const char * name, int lo, int hi){ int i=lo+choose(hi-lo+1,name); note(name, show(i)); return i; }

struct hasher {
    uint64_t h = 1469598103934665603ull;
    void raw(const void * p, size_t n){ const unsigned char * c=(const unsigned char*)p; for(size_t i=0;i<n;++i){ h^=c[i]; h*=1099511628211ull; } }
    template<class T> hasher & add(const T & t){ raw(&t,sizeof t); return *this; }
    hasher & add(const std::string & s){ raw(s.data(), s.size()); return *this; }
    template<class T> hasher & add(const std::vector<T> & s){ size_t n=s.size(); raw(&n,sizeof n); if(n) raw(s.data(), n*sizeof(T)); return *this; }
    uint64_t get() const { uint64_t x=h; x^=x>>33; x*=0xff51afd7ed558ccdull; x^=x>>33; x*=0xc4ceb9fe1a85ec53ull; x^=x>>33; return x?x:1; }
};

}

// supplied by the harness
void body();

#endif
