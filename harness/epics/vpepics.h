// A stand-in for the parts of EPICS Base which device support uses, on POSIX threads, with the
// documented meaning of each call. Declarations only; harness/c22.cpp has the definitions.
#ifndef VPEPICS_H
#define VPEPICS_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <math.h>
#include <assert.h>
#include <pthread.h>
#include <map>
#include <string>
#include <vector>
#include <stdexcept>
#include <algorithm>
#include <memory>

// ------------------------------------------------------------------ types
typedef char epicsBoolean; typedef int8_t epicsInt8; typedef uint8_t epicsUInt8; typedef int16_t epicsInt16; typedef uint16_t epicsUInt16;
typedef int32_t epicsInt32; typedef uint32_t epicsUInt32; typedef int64_t epicsInt64; typedef uint64_t epicsUInt64; typedef uint16_t epicsEnum16;
typedef float epicsFloat32; typedef double epicsFloat64; typedef char epicsOldString[40];
#define epicsShareFunc
#define epicsShareClass
#define epicsShareExtern extern
#define epicsShareAPI
#define epicsShareDef
#ifndef OK
#define OK 0
#endif
#ifndef ERROR
#define ERROR (-1)
#endif

// ------------------------------------------------------------------ exports
#define epicsExportAddress(typ,obj) extern "C" { extern void* pvar_##typ##_##obj; void* pvar_##typ##_##obj=(void*)&obj; } extern int vp_unused_decl
#define epicsExportRegistrar(fun) extern "C" { extern void (*pvar_func_##fun)(); void (*pvar_func_##fun)()=&fun; } extern int vp_unused_decl
#define epicsRegisterFunction(fun) extern "C" { extern void* pvar_reg_##fun; void* pvar_reg_##fun=(void*)&fun; } extern int vp_unused_decl

// ------------------------------------------------------------------ time
typedef struct epicsTimeStamp { epicsUInt32 secPastEpoch, nsec; } epicsTimeStamp;
#define POSIX_TIME_AT_EPICS_EPOCH 631152000u
enum { epicsTimeOK=0, epicsTimeERROR=-1 };
enum { epicsTimeEventCurrentTime=0, epicsTimeEventBestTime=-1, epicsTimeEventDeviceTime=-2 };
extern "C" {
int epicsTimeGetCurrent(epicsTimeStamp*);
double epicsTimeDiffInSeconds(const epicsTimeStamp* l, const epicsTimeStamp* r);
void epicsTimeAddSeconds(epicsTimeStamp*, double);
int epicsTimeEqual(const epicsTimeStamp*, const epicsTimeStamp*); int epicsTimeLessThan(const epicsTimeStamp*, const epicsTimeStamp*); int epicsTimeGreaterThan(const epicsTimeStamp*, const epicsTimeStamp*);
}
class epicsTime {
    epicsTimeStamp t;
public:
    epicsTime() { memset(&t,0,sizeof t); } epicsTime(const epicsTimeStamp& x) :t(x) {}
    static epicsTime getCurrent() { epicsTimeStamp x; epicsTimeGetCurrent(&x); return x; }
    operator epicsTimeStamp() const { return t; }
    double operator-(const epicsTime& o) const { return epicsTimeDiffInSeconds(&t,&o.t); }
    bool operator<(const epicsTime& o) const { return (*this-o)<0; } bool operator==(const epicsTime& o) const { return (*this-o)==0; }
};

// ------------------------------------------------------------------ threads
class epicsMutex {
    pthread_mutex_t m; epicsMutex(const epicsMutex&); epicsMutex& operator=(const epicsMutex&);
public:
    typedef class epicsGuardMutexTag tag; class mutexCreateFailed {}; class invalidMutex {};
    epicsMutex() { pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a,PTHREAD_MUTEX_RECURSIVE); pthread_mutex_init(&m,&a); pthread_mutexattr_destroy(&a); }
    ~epicsMutex() { pthread_mutex_destroy(&m); }
    void lock() { pthread_mutex_lock(&m); } void unlock() { pthread_mutex_unlock(&m); } bool tryLock() { return pthread_mutex_trylock(&m)==0; }
    void show(unsigned) const {}
};
template<class T> class epicsGuardRelease;
template<class T> class epicsGuard {
    T* m; friend class epicsGuardRelease<T>; epicsGuard(const epicsGuard&); epicsGuard& operator=(const epicsGuard&);
public:
    typedef epicsGuardRelease<T> release_t;
    explicit epicsGuard(T& x) :m(&x) { m->lock(); } ~epicsGuard() { m->unlock(); } void assertIdenticalMutex(const T& x) const { assert(m==&x); }
};
template<class T> class epicsGuardRelease {
    epicsGuard<T>& g; T* m; epicsGuardRelease(const epicsGuardRelease&); epicsGuardRelease& operator=(const epicsGuardRelease&);
public:
    typedef epicsGuard<T> guard_t;
    explicit epicsGuardRelease(epicsGuard<T>& x) :g(x),m(x.m) { g.m=NULL; m->unlock(); } ~epicsGuardRelease() { m->lock(); g.m=m; }
};
typedef enum { epicsEventWaitOK, epicsEventWaitTimeout, epicsEventWaitError } epicsEventWaitStatus;
typedef enum { epicsEventEmpty, epicsEventFull } epicsEventInitialState;
class epicsEvent { // a binary semaphore
    pthread_mutex_t m; pthread_cond_t c; bool full; epicsEvent(const epicsEvent&); epicsEvent& operator=(const epicsEvent&);
public:
    class invalidSemaphore {};
    epicsEvent(epicsEventInitialState s=epicsEventEmpty) :full(s==epicsEventFull) { pthread_mutex_init(&m,NULL); pthread_cond_init(&c,NULL); }
    ~epicsEvent() { pthread_cond_destroy(&c); pthread_mutex_destroy(&m); }
    void trigger() { pthread_mutex_lock(&m); full=true; pthread_cond_signal(&c); pthread_mutex_unlock(&m); }
    void signal() { trigger(); }
    void wait() { pthread_mutex_lock(&m); while(!full) pthread_cond_wait(&c,&m); full=false; pthread_mutex_unlock(&m); }
    bool wait(double timeout);
    bool tryWait() { pthread_mutex_lock(&m); bool r=full; full=false; pthread_mutex_unlock(&m); return r; }
    void show(unsigned) const {}
};
typedef enum { epicsThreadStackSmall, epicsThreadStackMedium, epicsThreadStackBig } epicsThreadStackSizeClass;
enum { epicsThreadPriorityMax=99, epicsThreadPriorityMin=0, epicsThreadPriorityLow=10, epicsThreadPriorityMedium=50, epicsThreadPriorityHigh=90,
       epicsThreadPriorityScanLow=60, epicsThreadPriorityScanHigh=70, epicsThreadPriorityCAServerLow=20, epicsThreadPriorityCAServerHigh=40, epicsThreadPriorityIocsh=91 };
extern "C" { unsigned int epicsThreadGetStackSize(epicsThreadStackSizeClass); void epicsThreadSleep(double); }
class epicsThreadRunable { public: virtual ~epicsThreadRunable() {} virtual void run()=0; virtual void stop() {} virtual void show(unsigned) const {} };
class epicsThread {
    epicsThreadRunable& r; std::string nm; pthread_t t; bool started, joined; int id; epicsMutex lk; epicsEvent done; bool over;
    static void* entry(void*); epicsThread(const epicsThread&); epicsThread& operator=(const epicsThread&);
public:
    class unableToCreateThread : public std::exception {};
    epicsThread(epicsThreadRunable&, const char* name, unsigned stackSize, unsigned priority=epicsThreadPriorityLow);
    ~epicsThread() throw();
    void start() throw(); void exitWait() throw(); bool exitWait(double) throw(); bool isCurrentThread() const { return pthread_equal(t,pthread_self()); }
    void getName(char* n, size_t l) const { strncpy(n,nm.c_str(),l); }
    static void sleep(double s) { epicsThreadSleep(s); }
};

// ------------------------------------------------------------------ messages, exit
extern "C" {
int errlogPrintf(const char*,...) __attribute__((format(printf,1,2))); int errlogVprintf(const char*, va_list); int errlogMessage(const char*);
int epicsPrintf(const char*,...) __attribute__((format(printf,1,2)));
void errlogFlush(void);
typedef void (*epicsExitFunc)(void*);
int epicsAtExit3(epicsExitFunc, void*, const char*);
#define epicsAtExit(F,A) epicsAtExit3(F,A,#F)
void epicsExit(int);
int epicsSnprintf(char*, size_t, const char*,...);
}

// ------------------------------------------------------------------ records
typedef enum { NO_ALARM=0, MINOR_ALARM=1, MAJOR_ALARM=2, INVALID_ALARM=3, lastEpicsAlarmSev=INVALID_ALARM } epicsAlarmSeverity;
typedef enum { READ_ALARM=1, WRITE_ALARM, HIHI_ALARM, HIGH_ALARM, LOLO_ALARM, LOW_ALARM, STATE_ALARM, COS_ALARM, COMM_ALARM, TIMEOUT_ALARM, HW_LIMIT_ALARM, CALC_ALARM, SCAN_ALARM, LINK_ALARM, SOFT_ALARM, BAD_SUB_ALARM, UDF_ALARM, DISABLE_ALARM, SIMM_ALARM, READ_ACCESS_ALARM, WRITE_ACCESS_ALARM } epicsAlarmCondition;
enum { CONSTANT=0, PV_LINK=1, VME_IO=2, INST_IO=12 };
typedef enum { menuFtypeSTRING, menuFtypeCHAR, menuFtypeUCHAR, menuFtypeSHORT, menuFtypeUSHORT, menuFtypeLONG, menuFtypeULONG, menuFtypeFLOAT, menuFtypeDOUBLE, menuFtypeENUM } menuFtype;
enum { menuConvertNO_CONVERSION, menuConvertSLOPE, menuConvertLINEAR };
enum { menuYesNoNO, menuYesNoYES };
enum { menuScanPassive=0, menuScanEvent=1, menuScanI_O_Intr=2 };
#define SCAN_IO_EVENT 2
struct instio { char* string; };
struct link { union { struct instio instio; char* constantStr; } value; short type; };
typedef struct link DBLINK;
struct vpScanList; typedef struct vpScanList* IOSCANPVT;
struct typed_rset; struct dset;
#define VPCOMMON char name[61]; char desc[41]; void* dpvt; void* dset; epicsUInt8 tpro, proc, pact, udf, pini; epicsEnum16 scan, sevr, stat, nsev, nsta, acks, diss; epicsInt16 tse, evnt, phas, prio; epicsTimeStamp time;
#define VPCONV epicsEnum16 linr; double eguf, egul, eslo, eoff, aslo, aoff, smoo; epicsInt32 rval; epicsInt16 prec, init; 
typedef struct dbCommon { VPCOMMON } dbCommon;
typedef struct aiRecord { VPCOMMON double val; DBLINK inp; VPCONV } aiRecord;
typedef struct aoRecord { VPCOMMON double val; DBLINK out; VPCONV double oval, pval; epicsInt32 oraw, rbv; } aoRecord;
typedef struct boRecord { VPCOMMON epicsEnum16 val; DBLINK out; epicsUInt32 rval, oraw, mask, rbv; char znam[26], onam[26]; } boRecord;
typedef struct biRecord { VPCOMMON epicsEnum16 val; DBLINK inp; epicsUInt32 rval, mask; } biRecord;
typedef struct longinRecord { VPCOMMON epicsInt32 val; DBLINK inp; } longinRecord;
typedef struct longoutRecord { VPCOMMON epicsInt32 val; DBLINK out; } longoutRecord;
typedef struct waveformRecord { VPCOMMON DBLINK inp; epicsInt16 rarm, prec; epicsUInt32 nelm; epicsEnum16 ftvl; epicsInt16 busy; epicsUInt32 nord; void* bptr; } waveformRecord;
extern "C" {
int vpSetSevr(dbCommon*, int stat, int sevr);
void scanIoInit(IOSCANPVT*);
unsigned int scanIoRequest(IOSCANPVT);
void dbScanLock(dbCommon*); void dbScanUnlock(dbCommon*);
void recGblRecordError(long, void*, const char*); void recGblGetTimeStamp(void*); 
long devExtend(void*);
}
// C macros and functions of EPICS take any record type
template<typename R> inline int vpSetSevrT(R* r, int stat, int sevr) { return vpSetSevr((dbCommon*)(void*)r,stat,sevr); }
#define recGblSetSevr(R,ST,SE) vpSetSevrT(R,ST,SE)
#define S_dev_noDevice 1
#define S_db_badField 2
#define S_dev_badInpType 3
typedef long (*DEVSUPFUN)(...);
typedef struct dset { long number; DEVSUPFUN report, init, init_record, get_ioint_info; } dset_t;

// ------------------------------------------------------------------ shell
typedef enum { iocshArgInt, iocshArgDouble, iocshArgString, iocshArgPdbbase, iocshArgArgv, iocshArgPersistentString } iocshArgType;
typedef union iocshArgBuf { int ival; double dval; char* sval; void* vval; struct { int ac; char** av; } aval; } iocshArgBuf;
typedef struct iocshVarDef { const char* name; iocshArgType type; void* pval; } iocshVarDef;
typedef struct iocshArg { const char* name; iocshArgType type; } iocshArg;
typedef struct iocshFuncDef { const char* name; int nargs; const iocshArg* const* arg; } iocshFuncDef;
typedef void (*iocshCallFunc)(const iocshArgBuf*);
extern "C" { void iocshRegister(const iocshFuncDef*, iocshCallFunc); void iocshRegisterVariable(const iocshVarDef*); }
#endif
