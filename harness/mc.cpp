#include "mc.h"
#include <cstdarg>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <typeinfo>
#include <atomic>

namespace mc {

namespace {

struct skip {};

struct status_block {           // survives a crash of the worker
    volatile uint64_t executions;
    volatile uint32_t depth;
    volatile int32_t path[4000];
};

std::vector<int> path, limit;
std::vector<std::string> trace;
size_t pos = 0;
status_block dummy;
status_block * st = &dummy;
std::atomic<uint64_t> * table = 0;
const uint64_t table_slots = 1ull << 24;
uint64_t n_exec = 0, n_skipped = 0, max_depth = 0;
// shared with forked children
struct counts { std::atomic<uint64_t> states, trans; };
counts * cnt = (counts *)mmap(0,sizeof(counts),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
bool tier_thorough = false, is_verbose = false, keep_trace = false;
std::string prop_id, scratch_dir = ".";
int nshards = 1, shard_id = 0;
uint64_t shard_counter = 0; std::vector<int> last_prefix; bool have_prefix = false, last_mine = true;

void trace_line(const std::string & s){ if(is_verbose){ printf("  %s\n", s.c_str()); fflush(stdout);} if(keep_trace) trace.push_back(s); }

std::string json(const std::string & s){
    std::string r="\"";
    for(unsigned char c : s){
        if(c=='"'||c=='\\'){ r+='\\'; r+=c; }
        else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; }
        else r+=c;
    }
    return r+"\"";
}
std::string join_path(){ std::string s; for(size_t i=0;i<pos&&i<path.size();++i){ if(i) s+=","; s+=std::to_string(path[i]); } return s; }

}

bool thorough(){ return tier_thorough; }
bool verbose(){ return is_verbose; }
const std::string & prop(){ return prop_id; }
const std::string & scratch(){ return scratch_dir; }

void fail(const char * fmt, ...){
    char b[4096]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a);
    throw violation(b);
}

int choose(int n, const char * name){
    if(n<=0){ fprintf(stderr,"mc: empty choice %s\n",name); _exit(3); }
    if(pos < path.size()){
        if(limit[pos] == -1) limit[pos] = n;                 // replay
        if(limit[pos] != n || path[pos] >= n){ fprintf(stderr,"mc: harness is not deterministic at choice %s\n", name); _exit(3); }
    } else { path.push_back(0); limit.push_back(n); }
    int r = path[pos];
    if(pos < 4000){ st->path[pos]=r; st->depth=pos+1; }
    ++pos;
    return r;
}

uint64_t path_hash(){ hasher h; for(size_t i=0;i<pos;++i) h.add(path[i]); return h.get(); }

void note(const char * name, const std::string & v){ if(keep_trace||is_verbose) trace_line(std::string(name)+" = "+v); }

void op(const char * fmt, ...){
    cnt->trans.fetch_add(1,std::memory_order_relaxed);
    if(keep_trace||is_verbose){ char b[2048]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a); trace_line(std::string("op: ")+b); }
}
void trans(uint64_t n){ cnt->trans.fetch_add(n,std::memory_order_relaxed); }

void state(uint64_t h){
    if(!table) return;
    uint64_t i = h & (table_slots-1);
    for(int k=0;k<64;++k){
        uint64_t v = table[i].load(std::memory_order_relaxed);
        if(v==h) return;
        if(v==0){ if(table[i].compare_exchange_strong(v,h)){ cnt->states.fetch_add(1,std::memory_order_relaxed); return; } if(v==h) return; }
        i=(i+1)&(table_slots-1);
    }
}

void shard(){
    if(nshards<=1) return;
    std::vector<int> p(path.begin(), path.begin()+pos);
    if(!have_prefix || p!=last_prefix){
        last_mine = (shard_counter % nshards) == (uint64_t)shard_id;
        ++shard_counter; last_prefix=p; have_prefix=true;
    }
    if(!last_mine) throw skip();
}

static bool advance(){
    path.resize(pos); limit.resize(pos);
    while(!path.empty()){
        if(path.back()+1 < limit.back()){ ++path.back(); return true; }
        path.pop_back(); limit.pop_back();
    }
    return false;
}

static int run_once(std::string & msg){
    pos=0; trace.clear(); st->depth=0;
    try { body(); return 0; }
    catch(const skip &){ return 2; }
    catch(const violation & v){ msg=v.msg; return 1; }
    catch(const std::exception & e){ msg=std::string("unexpected exception ")+typeid(e).name()+": "+e.what(); return 1; }
    catch(...){ msg="unexpected exception"; return 1; }
}

}

int main(int argc, char ** argv){
    using namespace mc;
    std::string out, replay; bool do_replay=false; uint64_t max_exec=~0ull;
    for(int i=1;i<argc;++i){
        std::string a=argv[i]; auto next=[&](){ return std::string(argv[++i]); };
        if(a=="--prop") prop_id=next();
        else if(a=="--tier") tier_thorough = next()=="thorough";
        else if(a=="--shards") nshards=atoi(next().c_str());
        else if(a=="--shard") shard_id=atoi(next().c_str());
        else if(a=="--scratch") scratch_dir=next();
        else if(a=="--max-exec") max_exec=strtoull(next().c_str(),0,10);
        else if(a=="--out") out=next();
        else if(a=="--status"){ int fd=open(next().c_str(),O_RDWR|O_CREAT,0600); if(ftruncate(fd,sizeof(status_block))) return 3; st=(status_block*)mmap(0,sizeof(status_block),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd);} 
        else if(a=="--seen"){ int fd=open(next().c_str(),O_RDWR|O_CREAT,0600); if(ftruncate(fd,table_slots*8)) return 3; table=(std::atomic<uint64_t>*)mmap(0,table_slots*8,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd);} 
        else if(a=="--replay"){ do_replay=true; replay=next(); }
        else { fprintf(stderr,"bad argument %s\n",a.c_str()); return 3; }
    }
    std::string msg;
    if(do_replay){
        is_verbose=true; nshards=1;
        std::stringstream ss(replay); std::string t;
        while(std::getline(ss,t,',')) if(!t.empty()){ path.push_back(atoi(t.c_str())); limit.push_back(-1); }
        int r=run_once(msg);
        if(r==1){ printf("VIOLATED: %s\n",msg.c_str()); fflush(stdout); _exit(1); }
        printf("HELD\n"); fflush(stdout); _exit(0);
    }
    std::vector<std::vector<std::string> > samples;
    bool violated=false, capped=false;
    uint64_t next_sample=1;
    do {
        keep_trace = (n_exec+1>=next_sample && samples.size()<3);
        int r=run_once(msg);
        if(r==2){ ++n_skipped; continue; }
        ++n_exec; st->executions=n_exec;
        if(pos>max_depth) max_depth=pos;
        if(keep_trace){ samples.push_back(trace); next_sample=n_exec*40; }
        if(r==1){ violated=true; break; }
        if(n_exec>=max_exec){ capped=true; break; }
    } while(advance());
    if(!out.empty()){
        FILE * f=fopen(out.c_str(),"w");
        if(!f) return 3;
        fprintf(f,"{\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"max_depth\":%llu,\"capped\":%s,",
            (unsigned long long)n_exec,(unsigned long long)cnt->states.load(),(unsigned long long)cnt->trans.load(),(unsigned long long)max_depth,capped?"true":"false");
        fprintf(f,"\"violated\":%s,\"msg\":%s,\"path\":\"%s\",\"samples\":[",violated?"true":"false",json(msg).c_str(),violated?join_path().c_str():"");
        for(size_t i=0;i<samples.size();++i){ fprintf(f,"%s[",i?",":""); for(size_t j=0;j<samples[i].size()&&j<30;++j) fprintf(f,"%s%s",j?",":"",json(samples[i][j]).c_str()); fprintf(f,"]"); }
        fprintf(f,"]}\n"); fclose(f);
    }
    if(violated){ printf("VIOLATED: %s\n  path %s\n",msg.c_str(),join_path().c_str()); fflush(stdout); _exit(1); }
    fflush(stdout); _exit(0);
}
