// Common part of all native harnesses: sharding, counters, crumbs, violations, replay.
#ifndef VH_H
#define VH_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <fstream>
#include <iostream>
#include <sstream>
#include <functional>
#include <unordered_set>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>

namespace vh {
inline std::string tier="quick", dir=".", replay;
inline bool replaying=false;
inline size_t shard=0, nshards=1;
inline std::map<std::string,std::string> opts;
inline std::map<std::string,unsigned long long> counts;
inline std::vector<std::string> samples;
struct Viol { std::string key, text, kase; };
inline std::vector<Viol> viols;
inline char* crumbp=nullptr;
enum { CRUMBSZ=65536 };

inline std::unordered_set<unsigned long long> states;
// distinct states, merged over all shards by the driver
inline void state(const std::string& s) { states.insert(std::hash<std::string>()(s)); }
inline void state(unsigned long long h) { states.insert(h); }
inline bool thorough() { return tier=="thorough"; }

inline std::string jstr(const std::string& s) {
    std::string r="\"";
    for(unsigned char c : s) {
        if(c=='"' || c=='\\') { r+='\\'; r+=c; }
        else if(c<0x20 || c>=0x7f) { char b[8]; snprintf(b,sizeof b,"\\u%04x",c); r+=b; }
        else r+=c;
    }
    return r+"\"";
}
// a case that takes this much time hangs: CPU time for loops, five times as much wall time for deadlocks
inline int caselimit=0;
inline void arm() {
    if(!caselimit) return;
    itimerval t; t.it_interval.tv_sec=t.it_interval.tv_usec=0; t.it_value.tv_usec=0;
    t.it_value.tv_sec=caselimit; setitimer(ITIMER_PROF,&t,nullptr);
    t.it_value.tv_sec=caselimit*5; setitimer(ITIMER_REAL,&t,nullptr);
}
inline void crumb(const std::string& s) {
    static timeval last={0,0}; timeval now; gettimeofday(&now,nullptr);
    if(now.tv_sec!=last.tv_sec) { arm(); last=now; }
    size_t n=s.size()<CRUMBSZ-1?s.size():CRUMBSZ-1;
    memcpy(crumbp,s.data(),n); crumbp[n]=0;
}
inline void finish(int rc=0) {
    std::ofstream F((dir+"/result.json").c_str());
    F<<"{\"counts\":{";
    bool first=true;
    for(auto& c: counts) { F<<(first?"":",")<<jstr(c.first)<<":"<<c.second; first=false; }
    F<<"},\"samples\":[";
    for(size_t i=0;i<samples.size();i++) F<<(i?",":"")<<jstr(samples[i]);
    F<<"],\"violations\":[";
    for(size_t i=0;i<viols.size();i++)
        F<<(i?",":"")<<"{\"key\":"<<jstr(viols[i].key)<<",\"text\":"<<jstr(viols[i].text)<<",\"case\":"<<jstr(viols[i].kase)<<"}";
    F<<"]}\n";
    F.close();
    if(!states.empty()) {
        FILE* S=fopen((dir+"/states.bin").c_str(),"wb");
        for(auto h: states) fwrite(&h,8,1,S);
        fclose(S);
    }
    if(rc) _exit(rc);
}
inline void count(const char* k, unsigned long long n=1) { counts[k]+=n; }
inline void sample(const std::string& s) { if(samples.size()<2) samples.push_back(s); }
// enough is enough: stop the shard after 20 violations (shortest first by enumeration order)
inline void violation(const std::string& key, const std::string& text, const std::string& kase) {
    fprintf(stderr, "violation [%s] %s\n   case: %s\n", key.c_str(), text.c_str(), kase.c_str());
    viols.push_back(Viol{key,text,kase});
    if(viols.size()>=20) { finish(); _exit(0); }
}
[[noreturn]] inline void error(const std::string& s) { fprintf(stderr,"VH-ERROR %s\n", s.c_str()); _exit(3); }

inline void init(int argc, char** argv) {
    for(int i=1;i<argc;i++) {
        std::string a=argv[i];
        if(i+1>=argc) error("bad args");
        std::string v=argv[++i];
        if(a=="--tier") tier=v; else if(a=="--dir") dir=v;
        else if(a=="--shard") shard=strtoul(v.c_str(),0,0); else if(a=="--nshards") nshards=strtoul(v.c_str(),0,0);
        else if(a=="--replay") { std::ifstream F(v.c_str()); std::stringstream S; S<<F.rdbuf(); replay=S.str(); replaying=true; }
        else if(a.substr(0,2)=="--") opts[a.substr(2)]=v;
        else error("bad arg "+a);
    }
    std::string c=dir+"/crumb";
    int fd=open(c.c_str(),O_RDWR|O_CREAT|O_TRUNC,0644);
    if(fd<0 || ftruncate(fd,CRUMBSZ)) error("no crumb file");
    crumbp=(char*)mmap(0,CRUMBSZ,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
    if(crumbp==MAP_FAILED) error("crumb mmap");
    signal(SIGPROF,SIG_DFL); signal(SIGALRM,SIG_DFL);
    caselimit=thorough()?1200:100;
    if(opts.count("caselimit")) caselimit=atoi(opts["caselimit"].c_str());
    arm();
    close(fd);
}
// this shard's turn?
inline bool mine(unsigned long long i) { return i%nshards==shard; }
}

#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
namespace vh {
inline long live=0;
inline void hook_malloc(const volatile void* p, size_t) { if(p) live++; }
inline void hook_free(const volatile void* p) { if(p) live--; }
inline void leak_init() { static bool once=__sanitizer_install_malloc_and_free_hooks(&hook_malloc,&hook_free)!=0; if(!once) error("no malloc hooks"); }
// number of blocks fn() leaves behind, every time it is called (one-time initializations do not count)
template<typename F> long leaks(F fn, int tries=3) {
    long least=1L<<60;
    for(int i=0;i<tries;i++) { long b=live; fn(); long d=live-b; if(d<least) least=d; if(least<=0) return 0; }
    return least;
}
}
#else
namespace vh {
inline void leak_init() {}
template<typename F> long leaks(F fn, int=3) { fn(); return 0; }
}
#endif
#endif
