// An OpenMP runtime under the control of the checker, and the access hooks that -fsanitize=thread inserts.
// Team members are real threads (so thread-local storage behaves as in libgomp), but exactly one runs at a
// time; the baton moves only where the schedule under exploration says so.  Every access inside a parallel
// region is recorded, and the accesses that conflict between threads become the scheduling points.
// This file is compiled without instrumentation and uses only types of its own.
#include "omp_shim.h"
#include <pthread.h>
#include <semaphore.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdint.h>
#include <time.h>
#include <dlfcn.h>
#include <new>
#include <vector>
#include <unordered_map>

namespace {
const int MAXT=32;
enum st { READY, BARRIER, BLOCKED, DONE };
struct access { uint64_t g; uint32_t ord; uint8_t tid, kind; uint32_t epoch; uint64_t locks; }; // kind: 1 write, 2 atomic
struct cell { uint32_t mask, wmask; };
struct thr { sem_t go; bool created; st s; uint32_t ord; uint64_t locks; uint32_t epoch; void * waits; };
thr T[MAXT]; pthread_mutex_t none;
__thread int me=-1;       // team member of the running region
__thread int nested=0;
__thread int busy=0;      // inside the hooks themselves
bool active=false, recording=false; int team=1, order=0, n=0, barrier_count=0; uint32_t region=0;
void (*fn)(void*); void * data;
std::vector<access> * lg=0; std::vector<shim::point> * pts=0; std::vector<void*> * dead=0;
shim::preemption pre[2]; int npre=0; unsigned fired=0; uint64_t total=0, regions=0, conflicts=0, switches=0;
struct lockrec { void * id; int owner; int depth; }; lockrec L[64]; int nl=0;
// work sharing
struct ws { long next,end,incr,chunk; int served; bool started; } W;

void fatal(const char * m){ fprintf(stderr,"omp shim: %s\n",m); _Exit(3); }
int pick(){ if(order==0){ for(int i=0;i<n;++i) if(T[i].s==READY) return i; } else for(int i=n-1;i>=0;--i) if(T[i].s==READY) return i; return -1; }
void give(int to){ ++switches; sem_post(&T[to].go); }
void hold(){ int m=me; while(sem_wait(&T[m].go)){} }
void move_to(int to){ if(to==me) return; give(to); hold(); }
void yield_to_next(){ int t=pick(); if(t<0) fatal("deadlock"); move_to(t); }
void * worker(void * p){ int t=(int)(long)p; me=t; for(;;){ hold(); fn(data); T[t].s=DONE; int k=pick(); bool all=true; for(int i=0;i<n;++i) if(T[i].s!=DONE) all=false; if(all) give(0); else { if(k<0) fatal("deadlock"); give(k); } } return 0; }
lockrec & lock_of(void * id){ for(int i=0;i<nl;++i) if(L[i].id==id) return L[i]; if(nl==64) fatal("too many locks"); L[nl].id=id; L[nl].owner=-1; L[nl].depth=0; return L[nl++]; }
void touch(const void * p, size_t size, int kind){
    if(!active||me<0||nested||busy) return; thr & t=T[me]; uint64_t a=(uint64_t)p>>2, b=((uint64_t)p+size-1)>>2; ++total; uint32_t o=++t.ord;
    busy=1; if(recording) for(uint64_t g=a;g<=b;++g){ access x; x.g=g; x.ord=o; x.tid=(uint8_t)me; x.kind=(uint8_t)kind; x.epoch=t.epoch; x.locks=t.locks; lg->push_back(x); } busy=0;
    for(int i=0;i<npre;++i) if(!(fired>>i&1)&&pre[i].region==region&&pre[i].tid==me&&pre[i].ord==o&&(i==0||(fired&1))){ fired|=1u<<i; int u=pre[i].to; if(u<n&&u!=me&&T[u].s==READY) move_to(u); }
}
void enter(void * id){ if(!active||me<0||nested) return; touch(id,4,3); int m=me; lockrec & l=lock_of(id); if(l.owner==m){ l.depth++; return; } while(l.owner>=0){ T[m].s=BLOCKED; T[m].waits=id; yield_to_next(); } l.owner=m; l.depth=1; T[m].locks|=1ull<<(&l-L); }
void leave(void * id){ if(!active||me<0||nested) return; lockrec & l=lock_of(id); if(--l.depth>0) return; l.owner=-1; T[me].locks&=~(1ull<<(&l-L)); for(int i=0;i<n;++i) if(T[i].s==BLOCKED&&T[i].waits==id) T[i].s=READY; }
void barrier(){ if(!active||me<0||nested) return; T[me].s=BARRIER; if(++barrier_count==n){ barrier_count=0; W.started=false; for(int i=0;i<n;++i){ T[i].s=READY; T[i].epoch++; } yield_to_next(); } else yield_to_next(); }
void finish_region(){
    if(recording){ // accesses of the same granule in the same epoch by different threads, at least one a write
        std::unordered_map<uint64_t,cell> m; for(auto & x:*lg){ cell & c=m[x.g*64+(x.epoch&63)]; c.mask|=1u<<x.tid; if(x.kind&1) c.wmask|=1u<<x.tid; }
        shim::point last; last.tid=-1; last.ord=0; last.region=0;
        for(auto & x:*lg){ cell & c=m[x.g*64+(x.epoch&63)]; bool conf=c.wmask&&(c.mask&(c.mask-1)); if(!conf) continue; shim::point p; p.region=region; p.tid=x.tid; p.ord=x.ord; if(p.tid==last.tid&&p.ord==last.ord&&p.region==last.region) continue; last=p; pts->push_back(p); ++conflicts; } }
    lg->clear();
}
void run_region(void (*f)(void*), void * d, unsigned want){
    if(me>=0&&active){ nested++; f(d); nested--; return; }
    int k=team; if(want&&(int)want<k) k=(int)want; if(k<1) k=1; ++regions; ++region;
    if(k==1){ int om=me; me=-1; nested=0; f(d); me=om; return; }
    if(k>MAXT) k=MAXT; n=k; fn=f; data=d; barrier_count=0; W.started=false; nl=0;
    if(!lg){ lg=new std::vector<access>; pts=new std::vector<shim::point>; dead=new std::vector<void*>; }
    for(int i=0;i<n;++i){ if(!T[i].created){ sem_init(&T[i].go,0,0); T[i].created=true; if(i){ pthread_t h; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,1<<20); if(pthread_create(&h,&at,worker,(void*)(long)i)) fatal("no thread"); } } T[i].s=READY; T[i].ord=0; T[i].locks=0; T[i].epoch=0; }
    me=0; active=true; int first=pick(); move_to(first);
    f(d);
    T[0].s=DONE; bool all=true; for(int i=0;i<n;++i) if(T[i].s!=DONE) all=false; if(!all){ int t=pick(); if(t<0) fatal("deadlock"); give(t); hold(); }
    active=false; me=-1; for(size_t i=0;i<dead->size();++i) free((*dead)[i]); dead->clear(); finish_region();
}
bool loop_start(long s, long e, long i, long c, long * a, long * b);
bool loop_next(long * a, long * b){ // one chunk at a time, handed round the team
    if(!active||me<0||nested){ if(W.next==W.end||(W.incr>0? W.next>=W.end: W.next<=W.end)) return false; *a=W.next; *b=W.end; W.next=W.end; return true; }
    // let the next member go first so that every thread gets work
    { int m=me; int t=-1; for(int k=1;k<n;++k){ int c=(m+k)%n; if(T[c].s==READY){ t=c; break; } } if(t>=0&&W.served++%2==0) move_to(t); }
    if(W.incr>0? W.next>=W.end: W.next<=W.end) return false; long c=W.chunk<1?1:W.chunk; *a=W.next; *b=W.next+c*W.incr; if(W.incr>0? *b>W.end: *b<W.end) *b=W.end; W.next=*b; return true;
}
bool loop_start(long s, long e, long i, long c, long * a, long * b){ if(!active||me<0||nested||!W.started){ W.next=s; W.end=e; W.incr=i; W.chunk=c; W.started=true; W.served=0; } return loop_next(a,b); }
}

namespace shim {
void together(void (*f)(void*), void * d, int t){ run_region(f,d,(unsigned)t); }
int self(){ return (active&&me>=0)?me:0; }
void schedule(int t, int o, const preemption * p, int k, bool rec){ team=t; order=o; npre=k; for(int i=0;i<k;++i) pre[i]=p[i]; fired=0; recording=rec; region=0; if(pts) pts->clear(); }
size_t points(){ return pts?pts->size():0; }
point get(size_t i){ return (*pts)[i]; }
uint64_t accesses(){ return total; }
uint64_t region_count(){ return regions; }
bool preempted(){ return fired!=0; }
}

// ---------------------------------------------------------------- libgomp
extern "C" {
void GOMP_parallel(void (*f)(void*), void * d, unsigned k, unsigned){ run_region(f,d,k); }
unsigned GOMP_parallel_reductions(void (*f)(void*), void * d, unsigned k, unsigned){ run_region(f,d,k); return (unsigned)n; }
int omp_get_thread_num(){ return (active&&me>=0&&!nested)?me:0; }
int omp_get_num_threads(){ return (active&&me>=0&&!nested)?n:1; }
int omp_get_max_threads(){ return team; }
int omp_get_num_procs(){ return team; }
int omp_get_thread_limit(){ return MAXT; }
int omp_in_parallel(){ return active&&me>=0; }
int omp_get_level(){ return active&&me>=0?1+nested:0; }
void omp_set_num_threads(int){}
void omp_set_dynamic(int){}
void omp_set_nested(int){}
double omp_get_wtime(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
void GOMP_barrier(){ barrier(); }
static char the_critical, the_atomic;
void GOMP_critical_start(){ enter(&the_critical); }
void GOMP_critical_end(){ leave(&the_critical); }
void GOMP_critical_name_start(void ** p){ enter(p); }
void GOMP_critical_name_end(void ** p){ leave(p); }
void GOMP_atomic_start(){ enter(&the_atomic); }
void GOMP_atomic_end(){ leave(&the_atomic); }
bool GOMP_single_start(){ static uint32_t done_region=0, done_epoch=~0u; if(!active||me<0||nested) return true; if(done_region==region&&done_epoch==T[me].epoch) return false; done_region=region; done_epoch=T[me].epoch; return true; }
void omp_init_lock(void **){} void omp_destroy_lock(void **){}
void omp_set_lock(void ** p){ enter(p); } void omp_unset_lock(void ** p){ leave(p); }
#define LOOP(kind) \
bool GOMP_loop_##kind##_start(long s,long e,long i,long c,long*a,long*b){ return loop_start(s,e,i,c,a,b); } \
bool GOMP_loop_##kind##_next(long*a,long*b){ return loop_next(a,b); } \
void GOMP_parallel_loop_##kind(void(*f)(void*),void*d,unsigned k,long s,long e,long i,long c,unsigned){ W.next=s; W.end=e; W.incr=i; W.chunk=c; W.served=0; int kk=team; if(k&&(int)k<kk) kk=(int)k; struct pre_ { long s,e,i,c; }; if(kk>1){ /* started is reset by run_region */ } struct box { void(*f)(void*); void*d; long s,e,i,c; } x={f,d,s,e,i,c}; run_region([](void*p){ box*q=(box*)p; if(!W.started){ W.next=q->s; W.end=q->e; W.incr=q->i; W.chunk=q->c; W.served=0; W.started=true; } q->f(q->d); },&x,k); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s,long e,long i,long*a,long*b){ return loop_start(s,e,i,1,a,b); }
bool GOMP_loop_runtime_next(long*a,long*b){ return loop_next(a,b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s,long e,long i,long*a,long*b){ return loop_start(s,e,i,1,a,b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long*a,long*b){ return loop_next(a,b); }
void GOMP_parallel_loop_runtime(void(*f)(void*),void*d,unsigned k,long s,long e,long i,unsigned fl){ GOMP_parallel_loop_dynamic(f,d,k,s,e,i,1,fl); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void(*f)(void*),void*d,unsigned k,long s,long e,long i,unsigned fl){ GOMP_parallel_loop_dynamic(f,d,k,s,e,i,1,fl); }
void GOMP_loop_end(){ barrier(); if(!active) W.started=false; }
void GOMP_loop_end_nowait(){ if(!active) W.started=false; }

// ---------------------------------------------------------------- locks and one-time initialisation
typedef int (*mutex_call)(pthread_mutex_t*); static mutex_call real_lock, real_unlock, real_trylock;
// a thread that waits hands the baton on instead of blocking the whole team
int pthread_mutex_lock(pthread_mutex_t * m){ if(active&&me>=0&&!busy){ enter(m); return 0; } if(!real_lock) real_lock=(mutex_call)dlsym(RTLD_NEXT,"pthread_mutex_lock"); return real_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t * m){ if(active&&me>=0&&!busy){ leave(m); return 0; } if(!real_unlock) real_unlock=(mutex_call)dlsym(RTLD_NEXT,"pthread_mutex_unlock"); return real_unlock(m); }
int pthread_mutex_trylock(pthread_mutex_t * m){ if(active&&me>=0&&!busy){ if(nested) return 0; lockrec & l=lock_of(m); if(l.owner>=0&&l.owner!=me) return 16; enter(m); return 0; } if(!real_trylock) real_trylock=(mutex_call)dlsym(RTLD_NEXT,"pthread_mutex_trylock"); return real_trylock(m); }
int pthread_once(pthread_once_t * o, void (*f)()){ enter(o); if(*(volatile int*)o!=2){ f(); *(volatile int*)o=2; } leave(o); return 0; }
int __cxa_guard_acquire(long long * g){ if(__atomic_load_n((char*)g,__ATOMIC_SEQ_CST)) return 0; enter(g); if(__atomic_load_n((char*)g,__ATOMIC_SEQ_CST)){ leave(g); return 0; } return 1; }
void __cxa_guard_release(long long * g){ __atomic_store_n((char*)g,1,__ATOMIC_SEQ_CST); leave(g); }
void __cxa_guard_abort(long long * g){ leave(g); }

// ---------------------------------------------------------------- instrumentation
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){} void __tsan_ignore_thread_begin(){} void __tsan_ignore_thread_end(){}
#define RW(n) void __tsan_read##n(void*p){ touch(p,n,0); } void __tsan_write##n(void*p){ touch(p,n,1); } void __tsan_unaligned_read##n(void*p){ touch(p,n,0); } void __tsan_unaligned_write##n(void*p){ touch(p,n,1); } void __tsan_volatile_read##n(void*p){ touch(p,n,0); } void __tsan_volatile_write##n(void*p){ touch(p,n,1); } void __tsan_unaligned_volatile_read##n(void*p){ touch(p,n,0); } void __tsan_unaligned_volatile_write##n(void*p){ touch(p,n,1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*p,size_t s){ if(s) touch(p,s,0); } void __tsan_write_range(void*p,size_t s){ if(s) touch(p,s,1); }
void __tsan_vptr_update(void**p,void*){ touch(p,8,1); } void __tsan_vptr_read(void**p){ touch(p,8,0); }
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
#define AT(b,T_) \
T_ __tsan_atomic##b##_load(const volatile T_*p,int){ touch((void*)p,sizeof(T_),2); return __atomic_load_n(p,__ATOMIC_SEQ_CST); } \
void __tsan_atomic##b##_store(volatile T_*p,T_ v,int){ touch((void*)p,sizeof(T_),3); __atomic_store_n(p,v,__ATOMIC_SEQ_CST); } \
T_ __tsan_atomic##b##_exchange(volatile T_*p,T_ v,int){ touch((void*)p,sizeof(T_),3); return __atomic_exchange_n(p,v,__ATOMIC_SEQ_CST); } \
T_ __tsan_atomic##b##_fetch_add(volatile T_*p,T_ v,int){ touch((void*)p,sizeof(T_),3); return __atomic_fetch_add(p,v,__ATOMIC_SEQ_CST); } \
T_ __tsan_atomic##b##_fetch_sub(volatile T_*p,T_ v,int){ touch((void*)p,sizeof(T_),3); return __atomic_fetch_sub(p,v,__ATOMIC_SEQ_CST); } \
T_ __tsan_atomic##b##_fetch_and(volatile T_*p,T_ v,int){ touch((void*)p,sizeof(T_),3); return __atomic_fetch_and(p,v,__ATOMIC_SEQ_CST); } \
T_ __tsan_atomic##b##_fetch_or(volatile T_*p,T_ v,int){ touch((void*)p,sizeof(T_),3); return __atomic_fetch_or(p,v,__ATOMIC_SEQ_CST); } \
T_ __tsan_atomic##b##_fetch_xor(volatile T_*p,T_ v,int){ touch((void*)p,sizeof(T_),3); return __atomic_fetch_xor(p,v,__ATOMIC_SEQ_CST); } \
T_ __tsan_atomic##b##_fetch_nand(volatile T_*p,T_ v,int){ touch((void*)p,sizeof(T_),3); return __atomic_fetch_nand(p,v,__ATOMIC_SEQ_CST); } \
bool __tsan_atomic##b##_compare_exchange_strong(volatile T_*p,T_*e,T_ v,int,int){ touch((void*)p,sizeof(T_),3); return __atomic_compare_exchange_n(p,e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); } \
bool __tsan_atomic##b##_compare_exchange_weak(volatile T_*p,T_*e,T_ v,int,int){ touch((void*)p,sizeof(T_),3); return __atomic_compare_exchange_n(p,e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); } \
T_ __tsan_atomic##b##_compare_exchange_val(volatile T_*p,T_ e,T_ v,int,int){ touch((void*)p,sizeof(T_),3); __atomic_compare_exchange_n(p,&e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); return e; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)

void * memcpy(void * d, const void * s, size_t k){ if(k&&active&&me>=0){ touch(s,k,0); touch(d,k,1); } void * r=d; __asm__ volatile("rep movsb":"+D"(d),"+S"(s),"+c"(k)::"memory"); return r; }
void * memmove(void * d, const void * s, size_t k){ if(k&&active&&me>=0){ touch(s,k,0); touch(d,k,1); } if((uintptr_t)d-(uintptr_t)s>=k){ void * r=d; __asm__ volatile("rep movsb":"+D"(d),"+S"(s),"+c"(k)::"memory"); return r; } volatile char * D=(volatile char*)d; const volatile char * S=(const volatile char*)s; while(k--) D[k]=S[k]; return d; }
void * memset(void * d, int c, size_t k){ if(k&&active&&me>=0) touch(d,k,1); void * r=d; __asm__ volatile("rep stosb":"+D"(d),"+c"(k):"a"(c):"memory"); return r; }
}
// blocks freed inside a region are kept until its end: a block of one thread is never handed to another
static void release(void * p){ if(p&&active&&me>=0&&dead&&!busy){ busy=1; dead->push_back(p); busy=0; } else free(p); }
void * operator new(size_t s){ void * p=malloc(s?s:1); if(!p) throw std::bad_alloc(); return p; }
void * operator new[](size_t s){ void * p=malloc(s?s:1); if(!p) throw std::bad_alloc(); return p; }
void operator delete(void * p) noexcept { release(p); }
void operator delete[](void * p) noexcept { release(p); }
void operator delete(void * p, size_t) noexcept { release(p); }
void operator delete[](void * p, size_t) noexcept { release(p); }
