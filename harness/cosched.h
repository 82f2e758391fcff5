// A cooperative scheduler for real threads: exactly one managed thread runs at a time, and at every
// scheduling point (before acquiring a mutex, a file access, a callback, optionally every atomic
// access) the next one to run is chosen from a prefix of choices, then by default.
// Nothing in here is seen by the thread sanitizer, so that the hand-over orders nothing for it.
#ifndef SCHED_H
#define SCHED_H
#include <dlfcn.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <sys/stat.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <string.h>
#include <stdio.h>
#include <stdint.h>
#include <errno.h>
#define NOTSAN __attribute__((no_sanitize("thread"),noinline))

namespace sched {
enum { MAXT=4, MAXP=8192, MAXL=256, MAXTXT=60000 };
enum Kind { MUTEX, SHARED, COND, PLAIN };
struct Point { unsigned char n, chosen, still; unsigned char en[MAXT]; };
// shared between the explorer and the process which runs one execution
struct Shm {
    int npts, nprefix; unsigned short prefix[MAXP]; Point pts[MAXP];
    int status; // 0 running, 1 done, 2 deadlock, 3 divergence, 4 too long
    char why[2000]; int ntxt; char txt[MAXTXT];
};
static Shm* shm=nullptr;
struct Lock { void* p; int owner, depth, readers; };
struct Thr { volatile int go; int state; /*0 ready,1 wants,2 waiting on cond,3 done,4 until all others are idle*/ void* want; Kind kind; bool shared; };
static Lock locks[MAXL]; static int nlocks=0;
static Thr thr[MAXT]; static int nthr=0; static volatile int cur=-1;
static bool fine=true, atomics=false; // points inside steps; points at atomic accesses
static const char* watchdir=nullptr;
static __thread int self_id=-1;
static volatile int alldone=0;

NOTSAN static long fut(volatile int* p, int op, int v) { long r; register long r10 __asm__("r10")=0; __asm__ volatile("syscall":"=a"(r):"a"(SYS_futex),"D"(p),"S"(op),"d"(v),"r"(r10):"rcx","r11","memory"); return r; }
NOTSAN static void die(int st, const char* why) { shm->status=st; strncpy(shm->why,why,sizeof shm->why-1); _exit(50+st); }
NOTSAN static Lock* lockof(void* p) {
    for(int i=0;i<nlocks;i++) if(locks[i].p==p) return &locks[i];
    for(int i=0;i<nlocks;i++) if(locks[i].owner<0 && !locks[i].readers) { int used=0; for(int t=0;t<nthr;t++) if(thr[t].want==locks[i].p) used=1; if(!used) { locks[i].p=p; locks[i].depth=0; return &locks[i]; } }
    if(nlocks==MAXL) die(4,"too many locks");
    Lock* l=&locks[nlocks++]; l->p=p; l->owner=-1; l->depth=0; l->readers=0; return l;
}
NOTSAN static bool enabled(int t) {
    if(thr[t].state==0) return true;
    if(thr[t].state!=1) return false;
    Lock* l=lockof(thr[t].want);
    return thr[t].shared ? l->owner<0 : l->owner<0 && !l->readers;
}
NOTSAN static void wait_turn(int me) { while(!__atomic_load_n(&thr[me].go,__ATOMIC_ACQUIRE)) fut(&thr[me].go,FUTEX_WAIT,0); __atomic_store_n(&thr[me].go,0,__ATOMIC_RELEASE); }
NOTSAN static void give(int t) { cur=t; __atomic_store_n(&thr[t].go,1,__ATOMIC_RELEASE); fut(&thr[t].go,FUTEX_WAKE,1); }
// choose who runs next; me: the thread at the point
NOTSAN static int choose(int me) {
    int en[MAXT], n=0; bool still=false;
    if(me>=0 && enabled(me)) { en[n++]=me; still=true; }
    for(int t=0;t<nthr;t++) if(t!=me && enabled(t)) en[n++]=t;
    if(!n) { for(int t=0;t<nthr;t++) if(thr[t].state==4) { thr[t].state=0; return t; } return -1; }
    if(n==1) return en[0]; // no choice, no point
    int i=shm->npts; if(i>=MAXP) die(4,"too many scheduling points");
    int c=i<shm->nprefix?shm->prefix[i]:0;
    if(c>=n) die(3,"the execution diverges from its recorded schedule");
    Point* p=&shm->pts[i]; p->n=n; p->chosen=c; p->still=still; for(int k=0;k<n;k++) p->en[k]=en[k];
    shm->npts=i+1;
    return en[c];
}
NOTSAN static void pass(int me) {
    int t=choose(me);
    if(t<0) {
        char w[400]; int k=snprintf(w,sizeof w,"deadlock:"); 
        for(int i=0;i<nthr;i++) if(thr[i].state!=3) { Lock* l=lockof(thr[i].want); k+=snprintf(w+k,sizeof w-k," thread %d waits for %s %d",i,thr[i].state==2?"condition":"lock",l->owner>=0?l->owner:-1); }
        die(2,w);
    }
    if(t==me) return;
    give(t); wait_turn(me);
}
NOTSAN static void point() { int me=self_id; if(me<0 || !fine) return; thr[me].state=0; pass(me); }
// wait until no other thread can do anything
NOTSAN static void idle() { int me=self_id; thr[me].state=4; thr[me].want=nullptr; pass(me); thr[me].state=0; }
NOTSAN static void boundary() { int me=self_id; if(me<0) return; thr[me].state=0; pass(me); }
NOTSAN static void acquire(void* p, bool shared, bool recursive) {
    int me=self_id; Lock* l=lockof(p);
    if(!shared && l->owner==me) { if(!recursive) die(2,"deadlock: a thread locks a mutex which it holds already"); l->depth++; return; }
    thr[me].state=1; thr[me].want=p; thr[me].shared=shared;
    if(fine || !enabled(me)) pass(me); // always a point in fine mode
    l=lockof(p);
    thr[me].state=0; thr[me].want=nullptr;
    if(shared) l->readers++; else { l->owner=me; l->depth=1; }
}
NOTSAN static void release(void* p) {
    Lock* l=lockof(p);
    if(l->owner==self_id) { if(--l->depth==0) l->owner=-1; }
    else if(l->readers>0) l->readers--;
}
NOTSAN static void begin(int me) { self_id=me; wait_turn(me); }
NOTSAN static void end() {
    int me=self_id; thr[me].state=3; self_id=-1;
    for(int t=0;t<nthr;t++) if(thr[t].state!=3) { int k=choose(-1); if(k<0) pass(-1); give(k); return; }
    __atomic_store_n(&alldone,1,__ATOMIC_RELEASE); fut(&alldone,FUTEX_WAKE,100);
}
NOTSAN static void start(int n) {
    nthr=n; for(int i=0;i<n;i++) { thr[i].state=0; thr[i].want=nullptr; }
    int k=choose(-1); give(k);
    while(!__atomic_load_n(&alldone,__ATOMIC_ACQUIRE)) fut(&alldone,FUTEX_WAIT,0);
}
template<typename F> NOTSAN static F next(const char* n, F) { return (F)dlsym(RTLD_NEXT,n); }
NOTSAN static bool watched(const char* p) { return p && watchdir && !strncmp(p,watchdir,strlen(watchdir)); }
}
#define REAL(n) static decltype(&n) r_##n=nullptr; if(!r_##n) r_##n=sched::next(#n,&n);
extern "C" {
NOTSAN int pthread_mutex_lock(pthread_mutex_t* m) noexcept { REAL(pthread_mutex_lock) if(sched::self_id>=0) sched::acquire(m,false,(m->__data.__kind&3)==1); return r_pthread_mutex_lock(m); }
NOTSAN int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { REAL(pthread_mutex_unlock) int r=r_pthread_mutex_unlock(m); if(sched::self_id>=0) sched::release(m); return r; }
NOTSAN int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    REAL(pthread_mutex_trylock)
    if(sched::self_id>=0) { sched::point(); }
    int r=r_pthread_mutex_trylock(m);
    if(!r && sched::self_id>=0) { sched::Lock* l=sched::lockof(m); l->owner=sched::self_id; l->depth++; }
    return r;
}
NOTSAN int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { REAL(pthread_rwlock_rdlock) if(sched::self_id>=0) sched::acquire(m,true,false); return r_pthread_rwlock_rdlock(m); }
NOTSAN int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { REAL(pthread_rwlock_wrlock) if(sched::self_id>=0) sched::acquire(m,false,false); return r_pthread_rwlock_wrlock(m); }
NOTSAN int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { REAL(pthread_rwlock_unlock) int r=r_pthread_rwlock_unlock(m); if(sched::self_id>=0) sched::release(m); return r; }
NOTSAN int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    REAL(pthread_cond_wait)
    if(sched::self_id<0) return r_pthread_cond_wait(c,m);
    int me=sched::self_id;
    pthread_mutex_unlock(m);
    sched::thr[me].state=2; sched::thr[me].want=c; sched::pass(me);
    sched::thr[me].state=0; sched::thr[me].want=nullptr;
    return pthread_mutex_lock(m);
}
NOTSAN int pthread_cond_signal(pthread_cond_t* c) noexcept {
    REAL(pthread_cond_signal)
    if(sched::self_id>=0) for(int t=0;t<sched::nthr;t++) if(sched::thr[t].state==2 && sched::thr[t].want==c) { sched::thr[t].state=0; break; }
    return r_pthread_cond_signal(c);
}
NOTSAN int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
    REAL(pthread_cond_broadcast)
    if(sched::self_id>=0) for(int t=0;t<sched::nthr;t++) if(sched::thr[t].state==2 && sched::thr[t].want==c) sched::thr[t].state=0;
    return r_pthread_cond_broadcast(c);
}
// initialization of function-local statics, and pthread_once
int __cxa_guard_acquire(int64_t*); void __cxa_guard_release(int64_t*); void __cxa_guard_abort(int64_t*);
NOTSAN int __cxa_guard_acquire(int64_t* g) {
    REAL(__cxa_guard_acquire)
    if(sched::self_id>=0) sched::acquire(g,false,false);
    int r=r___cxa_guard_acquire(g);
    if(!r && sched::self_id>=0) sched::release(g);
    return r;
}
NOTSAN void __cxa_guard_release(int64_t* g) { REAL(__cxa_guard_release) r___cxa_guard_release(g); if(sched::self_id>=0) sched::release(g); }
NOTSAN void __cxa_guard_abort(int64_t* g) { REAL(__cxa_guard_abort) r___cxa_guard_abort(g); if(sched::self_id>=0) sched::release(g); }
NOTSAN int pthread_once(pthread_once_t* o, void (*f)(void)) {
    REAL(pthread_once)
#ifdef __SANITIZE_THREAD__
    const int done=1; // as libtsan marks it
#else
    const int done=2;
#endif
    if(__atomic_load_n(o,__ATOMIC_ACQUIRE)==done) return r_pthread_once(o,f); // done already
    if(sched::self_id>=0) sched::acquire(o,false,false);
    int r=r_pthread_once(o,f);
    if(sched::self_id>=0) sched::release(o);
    return r;
}
// file accesses below the watched directory
NOTSAN int statx(int d,const char* p,int f,unsigned m,struct statx* b) noexcept { REAL(statx) if(sched::watched(p)) sched::point(); return r_statx(d,p,f,m,b); }
NOTSAN int stat(const char* p,struct stat* b) noexcept { REAL(stat) if(sched::watched(p)) sched::point(); return r_stat(p,b); }
NOTSAN FILE* fopen(const char* p,const char* m) { REAL(fopen) if(sched::watched(p)) sched::point(); return r_fopen(p,m); }
NOTSAN FILE* fopen64(const char* p,const char* m) { REAL(fopen64) if(sched::watched(p)) sched::point(); return r_fopen64(p,m); }
NOTSAN int open(const char* p,int f,...) { va_list a; va_start(a,f); int m=va_arg(a,int); va_end(a); REAL(open) if(sched::watched(p)) sched::point(); return r_open(p,f,m); }
}
#ifdef __SANITIZE_THREAD__
// every atomic access of instrumented code is a call which can be intercepted as well
typedef int MO;
#define ATOM(bits,T) \
 extern "C" T hook##bits##_load(const volatile T* p,MO m) __asm__("__tsan_atomic" #bits "_load"); \
 NOTSAN T hook##bits##_load(const volatile T* p,MO m) { static decltype(&hook##bits##_load) r=nullptr; if(!r) r=sched::next("__tsan_atomic" #bits "_load",&hook##bits##_load); if(sched::atomics) sched::point(); return r(p,m); } \
 extern "C" void hook##bits##_store(volatile T* p,T v,MO m) __asm__("__tsan_atomic" #bits "_store"); \
 NOTSAN void hook##bits##_store(volatile T* p,T v,MO m) { static decltype(&hook##bits##_store) r=nullptr; if(!r) r=sched::next("__tsan_atomic" #bits "_store",&hook##bits##_store); if(sched::atomics) sched::point(); return r(p,v,m); } \
 extern "C" T hook##bits##_exchange(volatile T* p,T v,MO m) __asm__("__tsan_atomic" #bits "_exchange"); \
 NOTSAN T hook##bits##_exchange(volatile T* p,T v,MO m) { static decltype(&hook##bits##_exchange) r=nullptr; if(!r) r=sched::next("__tsan_atomic" #bits "_exchange",&hook##bits##_exchange); if(sched::atomics) sched::point(); return r(p,v,m); } \
 extern "C" T hook##bits##_fetch_add(volatile T* p,T v,MO m) __asm__("__tsan_atomic" #bits "_fetch_add"); \
 NOTSAN T hook##bits##_fetch_add(volatile T* p,T v,MO m) { static decltype(&hook##bits##_fetch_add) r=nullptr; if(!r) r=sched::next("__tsan_atomic" #bits "_fetch_add",&hook##bits##_fetch_add); if(sched::atomics) sched::point(); return r(p,v,m); } \
 extern "C" T hook##bits##_fetch_sub(volatile T* p,T v,MO m) __asm__("__tsan_atomic" #bits "_fetch_sub"); \
 NOTSAN T hook##bits##_fetch_sub(volatile T* p,T v,MO m) { static decltype(&hook##bits##_fetch_sub) r=nullptr; if(!r) r=sched::next("__tsan_atomic" #bits "_fetch_sub",&hook##bits##_fetch_sub); if(sched::atomics) sched::point(); return r(p,v,m); } \
 extern "C" int hook##bits##_compare_exchange_strong(volatile T* p,T* e,T v,MO m,MO f) __asm__("__tsan_atomic" #bits "_compare_exchange_strong"); \
 NOTSAN int hook##bits##_compare_exchange_strong(volatile T* p,T* e,T v,MO m,MO f) { static decltype(&hook##bits##_compare_exchange_strong) r=nullptr; if(!r) r=sched::next("__tsan_atomic" #bits "_compare_exchange_strong",&hook##bits##_compare_exchange_strong); if(sched::atomics) sched::point(); return r(p,e,v,m,f); } \
 extern "C" int hook##bits##_compare_exchange_weak(volatile T* p,T* e,T v,MO m,MO f) __asm__("__tsan_atomic" #bits "_compare_exchange_weak"); \
 NOTSAN int hook##bits##_compare_exchange_weak(volatile T* p,T* e,T v,MO m,MO f) { static decltype(&hook##bits##_compare_exchange_weak) r=nullptr; if(!r) r=sched::next("__tsan_atomic" #bits "_compare_exchange_weak",&hook##bits##_compare_exchange_weak); if(sched::atomics) sched::point(); return r(p,e,v,m,f); }
ATOM(8,uint8_t) ATOM(32,uint32_t) ATOM(64,uint64_t)
#endif
#endif
