// C22: the virtual accelerator (device support for EPICS), compiled from the repository against the stand-in
// in harness/epics, with records processed as an IOC would.
//  mode sched: every interleaving up to a number of preemptions of two clients, the simulation thread and the thread
//              which processes the records scanned after a simulation; outcomes compared with a model
//  mode seq:   all sequences of operations of one client, and links, conversions, array sizes and shell commands
#ifndef NOSCHED
#include "cosched.h"
#else
namespace sched { static void point() {} }
#endif
#include "fl.h"
#include "vpepics.h"
#include "flame/state/vector.h"
#include <sys/wait.h>
#include <sys/prctl.h>
#include <thread>
#include <atomic>
using namespace fl;

// ================================================================ the stand-in's functions
static std::string errlog; static pthread_mutex_t errlock=PTHREAD_MUTEX_INITIALIZER;
static int nextid=-1; // next managed thread, when scheduled
static void logmsg(const char* s) { if(nextid>=0) return; pthread_mutex_lock(&errlock); errlog+=s; pthread_mutex_unlock(&errlock); }
struct Callbacks { epicsEvent ev; pthread_mutex_t m=PTHREAD_MUTEX_INITIALIZER; std::vector<IOSCANPVT> q; bool stop=false; unsigned long long done=0; };
static Callbacks* cbs=nullptr;
struct Rec;
struct vpScanList { std::vector<Rec*> recs; unsigned long long requests=0; };
static std::vector<vpScanList*> scanlists;
static std::vector<std::pair<epicsExitFunc,void*>> atexits;
static std::map<std::string,std::pair<const iocshFuncDef*,iocshCallFunc>> shell;
static std::atomic<unsigned> ticks(1000);
extern "C" {
int vp_unused_decl;
int epicsTimeGetCurrent(epicsTimeStamp* t) { t->secPastEpoch=ticks.fetch_add(1,std::memory_order_relaxed)+1; t->nsec=0; return 0; }
double epicsTimeDiffInSeconds(const epicsTimeStamp* l, const epicsTimeStamp* r) { return (double)l->secPastEpoch-r->secPastEpoch+(((double)l->nsec)-r->nsec)*1e-9; }
void epicsTimeAddSeconds(epicsTimeStamp* t, double s) { t->secPastEpoch+=s; }
int epicsTimeEqual(const epicsTimeStamp* a, const epicsTimeStamp* b) { return epicsTimeDiffInSeconds(a,b)==0; }
int epicsTimeLessThan(const epicsTimeStamp* a, const epicsTimeStamp* b) { return epicsTimeDiffInSeconds(a,b)<0; }
int epicsTimeGreaterThan(const epicsTimeStamp* a, const epicsTimeStamp* b) { return epicsTimeDiffInSeconds(a,b)>0; }
unsigned int epicsThreadGetStackSize(epicsThreadStackSizeClass) { return 1<<20; }
void epicsThreadSleep(double) { sched::point(); }
int errlogVprintf(const char* f, va_list a) { char b[2000]; int r=vsnprintf(b,sizeof b,f,a); logmsg(b); return r; }
int errlogPrintf(const char* f,...) { va_list a; va_start(a,f); int r=errlogVprintf(f,a); va_end(a); return r; }
int epicsPrintf(const char* f,...) { va_list a; va_start(a,f); int r=errlogVprintf(f,a); va_end(a); return r; }
int errlogMessage(const char* s) { logmsg(s); return 0; }
void errlogFlush(void) {}
int epicsAtExit3(epicsExitFunc f, void* a, const char*) { atexits.push_back({f,a}); return 0; }
void epicsExit(int s) { _exit(s); }
int epicsSnprintf(char* b, size_t n, const char* f,...) { va_list a; va_start(a,f); int r=vsnprintf(b,n,f,a); va_end(a); return r; }
int vpSetSevr(dbCommon* p, int stat, int sevr) { if(p->nsev<sevr) { p->nsta=stat; p->nsev=sevr; return 1; } return 0; }
void scanIoInit(IOSCANPVT* p) { *p=new vpScanList; scanlists.push_back(*p); }
unsigned int scanIoRequest(IOSCANPVT p) {
    if(!cbs || !p) return 0;
    pthread_mutex_lock(&cbs->m); cbs->q.push_back(p); p->requests++; if(cbs->q.size()>100000) { fprintf(stderr,"simulations without end\n"); abort(); } pthread_mutex_unlock(&cbs->m); cbs->ev.trigger(); return 1;
}
void recGblRecordError(long, void*, const char* m) { logmsg(m); }
void recGblGetTimeStamp(void*) {}
void dbScanLock(dbCommon*) {} void dbScanUnlock(dbCommon*) {}
long devExtend(void*) { return 0; }
void iocshRegister(const iocshFuncDef* d, iocshCallFunc f) { shell[d->name]={d,f}; }
void iocshRegisterVariable(const iocshVarDef*) {}
}
bool epicsEvent::wait(double s) {
#ifndef NOSCHED
    wait(); return true; // the time never passes before the event
#else
    timespec t; clock_gettime(CLOCK_REALTIME,&t); t.tv_sec+=(time_t)s+1;
    pthread_mutex_lock(&m); while(!full) if(pthread_cond_timedwait(&c,&m,&t)==ETIMEDOUT) break; bool r=full; full=false; pthread_mutex_unlock(&m); return r;
#endif
}
epicsThread::epicsThread(epicsThreadRunable& x, const char* n, unsigned, unsigned) :r(x),nm(n),started(false),joined(false),id(-1),over(false) {}
void* epicsThread::entry(void* p) {
    epicsThread* t=(epicsThread*)p; bool managed=t->id>=0;
#ifndef NOSCHED
    if(managed) sched::begin(t->id);
#endif
    try { t->r.run(); } catch(std::exception& e) { fprintf(stderr,"epicsThread: unexpected exception %s\n",e.what()); abort(); }
    t->lk.lock(); t->over=true; t->lk.unlock();
    t->done.trigger();
#ifndef NOSCHED
    if(managed) sched::end();
#endif
    return nullptr;
}
void epicsThread::start() throw() {
    lk.lock(); bool s=started; started=true; lk.unlock(); if(s) return;
    if(nextid>=0) id=nextid++;
    if(pthread_create(&t,nullptr,&entry,this)) abort();
    if(id>=0) pthread_detach(t);
}
void epicsThread::exitWait() throw() {
    if(!started) return; // as EPICS: no start, nothing to wait for
    if(pthread_equal(t,pthread_self())) return;
    lk.lock(); bool o=over, j=joined; joined=true; lk.unlock();
    if(id>=0) { while(!o) { done.wait(); lk.lock(); o=over; lk.unlock(); } done.trigger(); }
    else if(!j) pthread_join(t,nullptr);
}
bool epicsThread::exitWait(double) throw() { exitWait(); return true; }
epicsThread::~epicsThread() throw() { exitWait(); }

// ================================================================ a small IOC
struct DevSup { const char* rec; const char* dtyp; void** dset; };
#include "c22_dbd.h" // static const DevSup devsups[]; from vaccel/flameSupport.dbd; static void registrars()
struct Dset { long num; long (*report)(int); long (*init)(int); long (*init_record)(void*); long (*ioint)(int, dbCommon*, IOSCANPVT*); long (*rw)(void*); long (*last)(void*); };
struct Rec {
    std::string type, link, lk; dbCommon* p=nullptr; Dset* d=nullptr; long initrc=0; bool inited=false, intr=false;
    pthread_mutex_t m=PTHREAD_MUTEX_INITIALIZER; std::vector<std::string> mon;
    aiRecord* ai() { return (aiRecord*)p; } aoRecord* ao() { return (aoRecord*)p; } boRecord* bo() { return (boRecord*)p; } longinRecord* li() { return (longinRecord*)p; } waveformRecord* wf() { return (waveformRecord*)p; }
    template<typename R> R* alloc() { R* r=(R*)calloc(1,sizeof(R)); p=(dbCommon*)r; return r; }
    Rec(const std::string& t, const std::string& name, const std::string& dtyp, const std::string& l) :type(t),link(l),lk(l) {
        DBLINK* L; void* b;
        if(t=="ai") { aiRecord* r=alloc<aiRecord>(); L=&r->inp; r->eslo=r->aslo=1; }
        else if(t=="ao") { aoRecord* r=alloc<aoRecord>(); L=&r->out; r->eslo=r->aslo=1; }
        else if(t=="bo") L=&alloc<boRecord>()->out; else if(t=="longin") L=&alloc<longinRecord>()->inp;
        else if(t=="waveform") { waveformRecord* r=alloc<waveformRecord>(); L=&r->inp; r->nelm=1; r->ftvl=menuFtypeSTRING; }
        else { vh::error("record type "+t); }
        (void)b;
        strncpy(p->name,name.c_str(),60); p->udf=1; p->sevr=INVALID_ALARM; p->stat=UDF_ALARM;
        L->type=INST_IO; L->value.instio.string=(char*)malloc(lk.size()+1); memcpy(L->value.instio.string,lk.c_str(),lk.size()+1);
        for(auto& x: devsups) if(t==x.rec && dtyp==x.dtyp) d=(Dset*)*x.dset;
    }
    DBLINK* linkp() { return type=="ai"?&ai()->inp:type=="ao"?&ao()->out:type=="bo"?&bo()->out:type=="longin"?&li()->inp:&wf()->inp; }
    ~Rec() { free(linkp()->value.instio.string); if(type=="waveform") free(wf()->bptr); free(p); }
    size_t elsize() { static const size_t sz[]={40,1,1,2,2,4,4,4,8,2}; return sz[wf()->ftvl]; }
    bool init(bool iointr=false) {
        if(!d) return false;
        if(type=="waveform") { size_t n=wf()->nelm*elsize(); wf()->bptr=malloc(n); memset(wf()->bptr,0x5a,n); wf()->nord=wf()->nelm==1; }
        if(d->init) d->init(0);
        initrc=d->init_record?d->init_record(p):0; inited=true;
        if(type=="ai"||type=="ao") { if(initrc==2) initrc=0; }
        if(d->init) d->init(1);
        if(iointr) {
            IOSCANPVT io=nullptr;
            if(d->num>=4 && d->ioint && d->ioint(0,p,&io)==0 && io) { io->recs.push_back(this); intr=true; }
        }
        return true;
    }
    long rc=0;
    void process() { // with the record locked
        p->pact=1;
        rc=d->rw(p);
        if(type=="ai" && rc==0) { aiRecord* r=ai(); double v=r->rval; if(r->aslo!=0) v*=r->aslo; v+=r->aoff; if(r->linr && r->eslo!=0) v=v*r->eslo+r->eoff; r->val=v; p->udf=0; }
        if(p->udf && (type=="ai")) vpSetSevr(p,UDF_ALARM,INVALID_ALARM);
        p->sevr=p->nsev; p->stat=p->nsta; p->nsev=p->nsta=0; p->pact=0;
    }
    void lock() { pthread_mutex_lock(&m); } void unlock() { pthread_mutex_unlock(&m); }
};
static const char* shellcall(const std::string& f, std::vector<std::string> a, std::vector<bool> null={}) {
    auto it=shell.find(f); if(it==shell.end()) return "not registered";
    const iocshFuncDef* d=it->second.first; if(!d->name || f!=d->name) return "name";
    std::vector<iocshArgBuf> b(d->nargs+1); memset(b.data(),0,b.size()*sizeof b[0]); std::vector<std::vector<char>> keep;
    for(int i=0;i<d->nargs;i++) {
        if(!d->arg || !d->arg[i] || !d->arg[i]->name) return "argument";
        std::string v=i<(int)a.size()?a[i]:"";
        switch(d->arg[i]->type) {
        case iocshArgInt: b[i].ival=atoi(v.c_str()); break;
        case iocshArgDouble: b[i].dval=atof(v.c_str()); break;
        default: if(i>=(int)a.size() || (i<(int)null.size() && null[i])) b[i].sval=nullptr; else { keep.push_back(std::vector<char>(v.begin(),v.end())); keep.back().push_back(0); b[i].sval=keep.back().data(); }
        }
    }
    it->second.second(b.data()); return nullptr;
}

// ================================================================ an element whose construction and simulation can fail
struct Probe : public ElementVoid {
    typedef VectorState state_t;
    double v, fail;
    Probe(const Config& c) :ElementVoid(c) { v=c.get<double>("v",0); fail=c.get<double>("fail",0); if(v<0) throw std::runtime_error("v must not be negative"); sched::point(); }
    virtual ~Probe() {}
    virtual void advance(StateBase& s) { VectorState& S=static_cast<VectorState&>(s); sched::point(); if(fail!=0) throw std::runtime_error(std::to_string((int)fail)+" is the failure"); S.state[0]+=v; s.pos+=length; sched::point(); }
    virtual void assign(const ElementVoid* o) { const Probe* x=static_cast<const Probe*>(o); ElementVoid::assign(o); v=x->v; fail=x->fail; }
    virtual const char* type_name() const { return "probe"; }
};
static const char* LAT="sim_type=\"Vector\"; initial=[1,1000,2,2000,3,3000]; S: source; m: marker; d: drift, L=1; p: probe, v=1, fail=0; l: LINE=(S,d,m,p,d,m); USE: l;\n";
static std::string LATFILE;
static void spit(const std::string& f, const std::string& t) { std::ofstream F(f.c_str()); F<<t; }
static void capture_start(); static std::string capture_end();
#ifndef NOSCHED
#include "c22_sched.h"
#endif
#include "c22_seq.h"
int main(int argc, char** argv) {
    vh::init(argc,argv);
    char* rp=realpath(vh::dir.c_str(),nullptr); LATFILE=std::string(rp)+"/x.lat"; free(rp); spit(LATFILE,LAT);
#ifndef NOSCHED
    if(vh::opts["mode"]!="seq") { schedmain(); vh::finish(); return 0; }
#endif
    seqmain(); vh::finish();
}
