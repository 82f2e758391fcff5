// C13: threads which use the library at the same time. Every interleaving up to a number of preemptions of every pair
// (and triple) of the operations below, each in a process of its own, on the real code under a controlled scheduler;
// run on a plain build and on one with the thread sanitizer, which the scheduler hides from.
#include "cosched.h"
#include "fl.h"
#include "flame/util.h"
#include "flame/config.h"
#include <sys/wait.h>
#include <thread>
#include <sys/prctl.h>
using namespace fl;

static std::string DIR, DATA;
static const char* VEC="sim_type=\"Vector\"; initial=[1,0.001,2,0.002,3,0.003]; G=0.5; S: source; d: drift, L=G; q: quadrupole, L=0.1, K=3; l: LINE=(S,d,q,2*d); USE: l;\n";

// ---------------------------------------------------------------- what threads do
struct Ctx {
    int id=0; std::unique_ptr<Machine> M; std::unique_ptr<StateBase> S; std::unique_ptr<Config> C; std::vector<std::string> log; bool bad=false;
    std::unique_ptr<Config> D; numeric_table_cache::table_pointer T;
};
static Ctx ctx[sched::MAXT];
static __thread Ctx* mine=nullptr;
struct Log : public Machine::Logger {
    int id; int alive=1; Log(int i) :id(i) {}
    virtual ~Log() { alive=0; }
    virtual void log(const Machine::LogRecord& r) {
        if(!alive && mine) mine->bad=true;
        sched::point();
        if(mine) { std::string t=r.strm.str(); if(t.find("mark")==0) t+=" to "+std::to_string(id); mine->log.push_back(t); }
        if(!alive && mine) mine->bad=true;
    }
};
struct MyEl : public ElementVoid {
    typedef VectorState state_t;
    MyEl(const Config& c) :ElementVoid(c) { FLAME_LOG(INFO)<<"MyEl"; sched::point(); }
    virtual ~MyEl() {}
    virtual void advance(StateBase& s) { s.pos+=length; sched::point(); }
    virtual void assign(const ElementVoid* o) { ElementVoid::assign(o); }
    virtual const char* type_name() const { return "el"; }
};
static std::string fp(StateBase* S) { // fingerprint of a state
    Snap s=snap(S); unsigned long long h=1469598103934665603ULL;
    for(double d: s.v) { unsigned long long b; memcpy(&b,&d,8); for(int i=0;i<8;i++) { h^=(b>>(8*i))&255; h*=1099511628211ULL; } }
    char t[40]; snprintf(t,sizeof t,"%zu:%016llx",s.v.size(),h); return t;
}
static Config* parse(const std::string& t) { GLPSParser P; return P.parse_byte(t,DIR.c_str()); }
static std::string prop(Ctx& c) { if(!c.M) return "no machine"; std::unique_ptr<StateBase> S(c.M->allocState()); c.M->propagate(S.get()); return fp(S.get()); }
static std::string momtext(int v) {
    Beam b=beams()[0]; Config c=bconf(b); std::ostringstream t; t.precision(17);
    t<<"sim_type=\"MomentMatrix\"; Eng_Data_Dir=\""<<DIR<<"\"; IonEs="<<b.Es<<"; IonEk="<<b.Ek<<"; IonChargeStates=["<<b.Z[0]<<"]; NCharge=[100]; moment00=[1,0.001,2,0.002,0.1,0.001,1]; initial0=[";
    V m=m1(1); for(size_t i=0;i<m.size();i++) t<<(i?",":"")<<m[i];
    t<<"]; S: source; d: drift, L=0.1;";
    if(v==0) t<<"c: rfcavity, cavtype=\"Generic\", datafile=\"gen.lat\", L=0.24, f=80.5e6, phi=-10, scl_fac=0.6; q: quadrupole, ncurve=1, CurveFile=\"curve.lat\", scl_fac0=2.0, L=0.1; l: LINE=(S,d,q,c,d);";
    else t<<"c: rfcavity, cavtype=\"0.041QWR\", L=0.24, f=80.5e6, phi=-10, scl_fac=0.6, MpoleLevel=\"2\"; l: LINE=(S,d,c);";
    return t.str()+"\n";
}
struct Op { std::string name; std::function<void(Ctx&)> setup; std::vector<std::function<std::string(Ctx&)>> steps; bool shortop; };
static std::unique_ptr<Config> shared; // a configuration whose storage all threads' copies share
static boost::shared_ptr<Config> sharedp;
static std::string shown(const Config& c) { std::ostringstream o; GLPSPrint(o,c); return o.str(); }
static void version(const std::string& f, const std::string& text, int t) {
    std::string p=DIR+"/"+f, q=DIR+"/."+f+std::to_string(t)+".new";
    FILE* F=fopen(q.c_str(),"w"); if(!F || fwrite(text.data(),1,text.size(),F)!=text.size() || fclose(F)) vh::error("cannot write "+q);
    struct timespec ts[2]={{1000000000+t,0},{1000000000+t,0}}; utimensat(AT_FDCWD,q.c_str(),ts,0);
    if(rename(q.c_str(),p.c_str())) vh::error("rename");
}
static std::string slurp(const std::string& f) { std::ifstream F(f.c_str(),std::ios::binary); std::stringstream S; S<<F.rdbuf(); return S.str(); }
static const char* CURVE[2]={"curve0=[1,2,3,2,1];\n","curve0=[2,3,4,3,2];\n"};
static const char* TABLE[2]={"%A B\n1 2\n3 4\n","%A B\n5 6\n7 8\n"};
static std::string fetch() { numeric_table_cache::table_pointer p(numeric_table_cache::get()->fetch(DIR+"/tab.txt")); std::ostringstream o; o<<p->colnames.size(); for(size_t i=0;i<p->table.size1();i++) for(size_t j=0;j<p->table.size2();j++) o<<" "<<p->table(i,j); return o.str(); }
static std::vector<Op> ops() {
    std::vector<Op> r;
    auto mk=[](const std::string& t){ return [t](Ctx& c){ std::unique_ptr<Config> C(parse(t)); c.M.reset(new Machine(*C)); return std::string("built ")+std::to_string(c.M->size()); }; };
    auto no=[](Ctx&){};
    auto end=[](Ctx& c){ c.M.reset(); return std::string("destroyed"); };
    r.push_back(Op{"vector",no,{mk(VEC),prop,end},true});
    r.push_back(Op{"moment",no,{mk(momtext(0)),prop,end},false});
    r.push_back(Op{"rf",no,{mk(momtext(1)),prop},false});
    r.push_back(Op{"reconfigure",[mk](Ctx& c){ mk(VEC)(c); },{prop,[](Ctx& c){ Config e((*c.M)[2]->conf()); e.set<double>("K",-1.0-c.id); e.set<std::string>("name","r"); c.M->reconfigure(2,e); return std::string("ok"); },prop},true});
    r.push_back(Op{"reconfigure-data",[mk](Ctx& c){ mk(momtext(0))(c); },{[](Ctx& c){ Config e((*c.M)[2]->conf()); e.set<double>("scl_fac0",-1.0-c.id); c.M->reconfigure(2,e); return std::string("ok"); },prop},false});
    r.push_back(Op{"parse",no,{[](Ctx& c){ c.C.reset(parse("x=-2*3+sin(0.5)/cos(1)-tan(2)*asin(0.1)+acos(0.2)-atan(3)+deg2rad(3)*rad2deg(4); y=\"a\"; f=file(\"tab.txt\"); g=dir(\"tab.txt\"); v=[x,2,3]; P=parse(\"sub.lat\"); "+std::string(VEC))); return shown(*c.C); },[](Ctx& c){ try { c.C.reset(parse("x=1/;")); return std::string("accepted"); } catch(std::exception& e) { return what(e); } }},true});
    r.push_back(Op{"register",no,{[](Ctx& c){ Machine::registerState<VectorState>("My"); return std::string("ok"); },[](Ctx& c){ Machine::registerElement<MyEl>("My","el"); return std::string("ok"); },mk("sim_type=\"My\"; e: el, L=1; l: LINE=(e,e);"),prop},true});
    r.push_back(Op{"register-element",no,{[](Ctx& c){ Machine::registerElement<MyEl>("Vector","el"); return std::string("ok"); },mk("sim_type=\"Vector\"; e: el, L=1; d: drift, L=2; l: LINE=(e,d,e);"),prop,end},true});
    r.push_back(Op{"cleanup",no,{[](Ctx& c){ Machine::registeryCleanup(); return std::string("ok"); },[](Ctx& c){ Machine::registerState<VectorState>("Again"); return std::string("ok"); }},true});
    r.push_back(Op{"log",no,{[](Ctx& c){ FLAME_LOG(ERROR)<<"mark 1"; return std::string("ok"); },[](Ctx& c){ FLAME_LOG(WARN)<<"mark 2"; return std::string("ok"); }},true});
    r.push_back(Op{"set-logger",no,{[](Ctx& c){ Machine::set_logger(boost::shared_ptr<Machine::Logger>(new Log(10+c.id))); return std::string("ok"); },[](Ctx& c){ FLAME_LOG(ERROR)<<"mark 3"; return std::string("ok"); },[](Ctx& c){ Machine::set_logger(boost::shared_ptr<Machine::Logger>(new Log(20+c.id))); return std::string("ok"); }},true});
    r.push_back(Op{"config-write",[](Ctx& c){ c.C.reset(new Config(*shared)); c.D.reset(new Config(shared->new_scope())); },
        {[](Ctx& c){ c.C->set<double>("G",3.0+c.id); c.D->set<double>("G",13.0+c.id); return shown(*c.C); },[](Ctx& c){ c.D->flatten(); std::ostringstream o; o<<c.D->get<double>("G")<<" "<<c.D->get<std::string>("sim_type"); c.C.reset(); c.D.reset(); return o.str(); }},true});
    r.push_back(Op{"config-read",[](Ctx& c){ c.C.reset(new Config(*shared)); },
        {[](Ctx& c){ Config x(*c.C); std::ostringstream o; o<<x.get<double>("G")<<" "<<x.get<Config::vector_t>("elements").size(); return o.str(); },[](Ctx& c){ c.D.reset(new Config); *c.D=*c.C; c.C.reset(); std::ostringstream o; GLPSPrint(o,*c.D); c.D.reset(); return o.str(); }},true});
    r.push_back(Op{"shared-machine-config",[](Ctx& c){ c.C.reset(new Config(*shared)); },{[](Ctx& c){ c.M.reset(new Machine(*c.C)); c.C.reset(); return std::string("ok"); },[](Ctx& c){ if(!c.M) return std::string("no machine"); Config e((*c.M)[1]->conf()); e.set<double>("L",5.0+c.id); c.M->reconfigure(1,e); return prop(c); },end},true});
    r.push_back(Op{"fetch",no,{[](Ctx& c){ return fetch(); },[](Ctx& c){ return fetch(); }},true});
    r.push_back(Op{"clear",no,{[](Ctx& c){ numeric_table_cache::get()->clear(); return std::string("ok"); },[](Ctx& c){ numeric_table_cache::get()->clear(); return fetch(); }},true});
    r.push_back(Op{"replace",no,{[](Ctx& c){ version("tab.txt",TABLE[1],5); return std::string("ok"); },[](Ctx& c){ return fetch(); }},true});
    r.push_back(Op{"replace-curve",no,{[](Ctx& c){ version("curve.lat",CURVE[1],5); return std::string("ok"); },mk(momtext(0)),prop},false});
    r.push_back(Op{"state",[mk](Ctx& c){ mk(VEC)(c); c.S.reset(c.M->allocState()); },{[](Ctx& c){ std::unique_ptr<StateBase> s(c.S->clone()); c.M->propagate(s.get(),0,3); c.S->assign(*s); return fp(c.S.get()); },[](Ctx& c){ std::ostringstream o; o<<*c.M<<*c.S; c.S.reset(); c.M.reset(); return o.str(); }},true});
    // every element type, and everything a machine and state can be asked
    r.push_back(Op{"elements",no,{[](Ctx& c){
            std::ostringstream o; std::vector<E> es; int n=0;
            for(auto& k: kinds()) { E e=k.base; e.name="e"+std::to_string(n++); es.push_back(e); for(auto& v: k.variants) { E f=k.base; f.name=e.name+"v"+std::to_string(es.size()); f.ps=with(f.ps,v); es.push_back(f); } }
            std::unique_ptr<MomentState> S(beam(beams()[1]));
            for(auto& e: es) { try { std::unique_ptr<Machine> M(machine("MomentMatrix",{e})); std::unique_ptr<StateBase> s(S->clone()); M->propagate(s.get()); o<<fp(s.get())<<" "; s->show(o,3); try { M->propagate(s.get(),0,-1); o<<fp(s.get()); } catch(std::exception& x) { o<<what(x); } (*M)[0]->show(o,3); } catch(std::exception& x) { o<<what(x)<<";"; } }
            std::string t=o.str(); return std::to_string(t.size())+":"+std::to_string(std::hash<std::string>()(t)); },
        [](Ctx& c){
            std::ostringstream o;
            for(const char* sim: {"Vector","TransferMatrix"}) for(auto& k: lkinds(sim[0]=='V')) { std::unique_ptr<Machine> M(machine(sim,{k.base,k.base})); std::unique_ptr<StateBase> s(M->allocState()); M->propagate(s.get()); o<<fp(s.get())<<*M; s->show(o,3); }
            return std::to_string(std::hash<std::string>()(o.str())); }},false});
    // shorter programs for three threads
    r.push_back(Op{"vector2",no,{mk(VEC),[](Ctx& c){ std::string s=prop(c); c.M.reset(); return s; }},false});
    r.push_back(Op{"register2",no,{[](Ctx& c){ Machine::registerElement<MyEl>("Vector","el"); return std::string("ok"); },mk("sim_type=\"Vector\"; e: el, L=1; d: drift, L=2; l: LINE=(e,d,e);")},false});
    r.push_back(Op{"set-logger2",no,{[](Ctx& c){ Machine::set_logger(boost::shared_ptr<Machine::Logger>(new Log(10+c.id))); return std::string("ok"); },[](Ctx& c){ FLAME_LOG(ERROR)<<"mark 3"; return std::string("ok"); }},false});
    return r;
}
static bool three(const Op& o) { return o.name.back()=='2' || (o.shortop && o.steps.size()<=2); }
static bool paired(const Op& a, const Op& b) { bool x=a.name=="elements", y=b.name=="elements"; return !(x||y) || (x&&y) || a.name=="rf" || a.name=="cleanup"; }
static bool two(const Op& o) { return o.name.back()!='2'; }

// ---------------------------------------------------------------- one execution, in its own process
static std::string g_case;
static void child(const std::vector<const Op*>& sc) {
    prctl(PR_SET_PDEATHSIG,SIGKILL);
    alarm(60);
    if(!vh::replaying || !getenv("C13_STDERR")) { int n=::open("/dev/null",O_WRONLY); dup2(n,2); dup2(n,1); }
    version("tab.txt",TABLE[0],1); version("curve.lat",CURVE[0],1); version("sub.lat",VEC,1);
    Machine::log_detail=FLAME_INFO;
    Machine::set_logger(boost::shared_ptr<Machine::Logger>(new Log(0)));
    shared.reset(parse(VEC));
    for(size_t i=0;i<sc.size();i++) { ctx[i].id=i; sc[i]->setup(ctx[i]); }
    shared.reset();
    std::vector<std::string> res(sc.size());
    std::vector<std::thread> th;
    sched::nthr=sc.size();
    for(size_t i=0;i<sc.size();i++) th.push_back(std::thread([&,i]{
        sched::begin(i);
        mine=&ctx[i];
        for(size_t k=0;k<sc[i]->steps.size();k++) {
            if(k) sched::boundary();
            std::string o;
            try { o=sc[i]->steps[k](ctx[i]); } catch(std::exception& e) { o="throws "+what(e); } catch(...) { o="throws something"; }
            res[i]+=" ["+o+"]";
        }
        if(ctx[i].bad) res[i]+=" LOGGER USED AFTER ITS DESTRUCTION";
        res[i]+=" log:"; for(auto& l: ctx[i].log) res[i]+=" <"+l+">";
        mine=nullptr;
        sched::end();
    }));
    sched::start(sc.size());
    for(auto& t: th) t.join();
    std::string out; for(size_t i=0;i<sc.size();i++) out+="thread "+std::to_string(i)+":"+res[i]+"\n";
    // afterwards
    Ctx c; mine=&c;
    std::vector<std::function<std::string()>> probes={[&]{ std::unique_ptr<Config> C(parse(VEC)); c.M.reset(new Machine(*C)); return prop(c); },fetch,
        [&]{ std::unique_ptr<Config> C(parse("sim_type=\"My\"; e: el, L=1; l: LINE=(e,e);")); c.M.reset(new Machine(*C)); return prop(c); },
        [&]{ std::unique_ptr<Config> C(parse("sim_type=\"Vector\"; e: el, L=1; l: LINE=(e,e);")); c.M.reset(new Machine(*C)); return prop(c); },
        [&]{ c.M.reset(new Machine(mconf("Again",{}))); return prop(c); },
        [&]{ FLAME_LOG(ERROR)<<"mark 9"; return c.log.empty()?std::string("lost"):c.log.back(); }};
    bool heavy=false; for(auto o: sc) if(o->name=="moment"||o->name=="replace-curve"||o->name=="reconfigure-data") heavy=true;
    if(heavy) probes.push_back([&]{ std::unique_ptr<Config> C(parse(momtext(0))); c.M.reset(new Machine(*C)); return prop(c); });
    for(auto& p: probes) { std::string o; try { o=p(); } catch(std::exception& e) { o="throws "+what(e); } out+="then ["+o+"]\n"; }
    if(c.bad) out+="LOGGER USED AFTER ITS DESTRUCTION";
    c.M.reset(); mine=nullptr;
    for(size_t i=0;i<sc.size();i++) { ctx[i].M.reset(); ctx[i].S.reset(); ctx[i].C.reset(); ctx[i].D.reset(); }
    if(out.size()>=sched::MAXTXT) out.resize(sched::MAXTXT-1);
    memcpy(sched::shm->txt,out.data(),out.size()); sched::shm->ntxt=out.size();
    sched::shm->status=1;
    _exit(0);
}
struct X { int st=0; std::string out, why; std::vector<sched::Point> pts; std::string race; bool ok() const { return st==0; } };
static X execute(const std::vector<const Op*>& sc, const std::vector<unsigned short>& prefix, bool fine) {
    sched::Shm* s=sched::shm; s->npts=0; s->status=0; s->why[0]=0; s->ntxt=0; s->nprefix=prefix.size();
    std::copy(prefix.begin(),prefix.end(),s->prefix);
    sched::fine=fine;
    pid_t p=fork(); if(p==0) { child(sc); }
    if(p<0) vh::error("fork");
    int st; while(waitpid(p,&st,0)!=p) if(errno!=EINTR) vh::error("waitpid");
    vh::count("executions");
    X x; x.st=st; x.pts.assign(s->pts,s->pts+s->npts); x.out.assign(s->txt,s->ntxt); x.why=s->why;
    if(s->status==3) vh::error("divergence "+g_case);
    if(s->status==4) vh::error(std::string(s->why)+" "+g_case);
    std::string lf=vh::dir+"/tsan."+std::to_string(p);
    if(access(lf.c_str(),F_OK)==0) { x.race=slurp(lf); unlink(lf.c_str()); }
    if(st==0 && s->status!=1) vh::error("no outcome "+g_case);
    vh::count("transitions",s->npts);
    return x;
}
static std::string schedule(const X& x) { std::string r; size_t last=0; for(size_t i=0;i<x.pts.size();i++) if(x.pts[i].chosen) last=i+1; for(size_t i=0;i<last;i++) r+=" "+std::to_string(x.pts[i].chosen); return r; }
static std::string brief(const std::string& r) { std::string o; std::istringstream S(r); std::string l; int n=0; while(std::getline(S,l)&&n<30) { if(l.find("WARNING")!=l.npos||l.find(" #")!=l.npos||l.find("ead of size")!=l.npos||l.find("rite of size")!=l.npos||l.find("SUMMARY")!=l.npos) { size_t p=l.find_first_not_of(' '); o+=l.substr(p==l.npos?0:p,160)+" | "; n++; } } return o; }
static std::string diagnose(const X& x, const std::set<std::string>& allowed, std::string& key) {
    if(!x.race.empty()) { key="race"; return brief(x.race); }
    if(WIFEXITED(x.st)&&WEXITSTATUS(x.st)==52) { key="deadlock"; return x.why; }
    if(WIFSIGNALED(x.st)&&WTERMSIG(x.st)==SIGALRM) { key="hang"; return "does not terminate"; }
    if(WIFSIGNALED(x.st)) { key="crash"; return "killed by signal "+std::to_string(WTERMSIG(x.st)); }
    if(WEXITSTATUS(x.st)) { key="crash"; return "exits with "+std::to_string(WEXITSTATUS(x.st)); }
    if(x.out.find("LOGGER USED")!=x.out.npos) { key="logger"; return x.out; }
    if(!allowed.empty() && !allowed.count(x.out)) { key="result"; return "an outcome which no sequential order of the steps has:\n"+x.out+"one that has:\n"+*allowed.begin(); }
    return "";
}
static std::string name(const std::vector<const Op*>& sc) { std::string r; for(auto o: sc) r+=(r.empty()?"":"+")+o->name; return r; }
static bool judge(const std::vector<const Op*>& sc, const X& x, const std::set<std::string>& allowed, const std::string& mode) {
    std::string key, d=diagnose(x,allowed,key);
    if(d.empty()) return true;
    // the same schedule again
    std::vector<unsigned short> pre; for(auto& p: x.pts) pre.push_back(p.chosen);
    std::string d2, k2;
    for(int i=0;i<4 && d2.empty();i++) { X y=execute(sc,pre,mode!="steps"); d2=diagnose(y,allowed,k2); }
    if(d2.empty()) vh::error("a failure which does not repeat: "+d+" in "+name(sc));
    vh::violation(key,d,name(sc)+" | "+mode+" |"+schedule(x));
    return false;
}
static std::set<std::string> sequential(const std::vector<const Op*>& sc, bool& ok) {
    std::set<std::string> r; ok=true;
    std::vector<std::vector<unsigned short>> todo(1);
    while(!todo.empty()) {
        std::vector<unsigned short> pre=todo.back(); todo.pop_back();
        X x=execute(sc,pre,false); vh::count("sequential_orders");
        if(!judge(sc,x,std::set<std::string>(),"steps")) { ok=false; return r; }
        r.insert(x.out);
        for(size_t i=pre.size();i<x.pts.size();i++) for(int a=1;a<x.pts[i].n;a++) {
            std::vector<unsigned short> p; for(size_t k=0;k<i;k++) p.push_back(x.pts[k].chosen); p.push_back(a); todo.push_back(p);
        }
    }
    return r;
}
static void explore(const std::vector<const Op*>& sc, int bound, const std::string& mode) {
    g_case=name(sc)+" "+mode; vh::crumb(g_case);
    sched::atomics=false;
    time_t t0=time(0);
    bool ok; std::set<std::string> allowed=sequential(sc,ok); if(!ok) return;
    sched::atomics=mode=="atomics";
    std::set<std::string> seen; unsigned long long n=0; size_t most=0;
    std::vector<std::vector<unsigned short>> todo(1); int bad=0;
    while(!todo.empty()) {
        std::vector<unsigned short> pre=todo.back(); todo.pop_back();
        X x=execute(sc,pre,true); n++; vh::count("schedules"); most=std::max(most,x.pts.size());
        if(!judge(sc,x,allowed,mode)) { if(++bad>=2) return; if(x.out.empty()) continue; }
        seen.insert(x.out);
        int cost=0; for(size_t k=0;k<x.pts.size() && k<pre.size();k++) if(x.pts[k].still && x.pts[k].chosen) cost++;
        for(size_t i=pre.size();i<x.pts.size();i++) {
            int c=cost+(x.pts[i].still?1:0);
            if(c>bound) continue;
            for(int a=1;a<x.pts[i].n;a++) { std::vector<unsigned short> p; for(size_t k=0;k<i;k++) p.push_back(x.pts[k].chosen); p.push_back(a); todo.push_back(p); }
        }
    }
    vh::count("scenarios"); if(seen.size()>1) vh::count("scenarios_with_several_outcomes"); vh::count("outcomes",seen.size());
    for(auto& o: seen) { vh::state(g_case+o); if(getenv("C13_STAT")) fputs(o.c_str(),stderr); }
    if(getenv("C13_STAT")) fprintf(stderr,"%ld %s bound %d: %llu schedules, %zu points, %zu outcomes of %zu\n",(long)(time(0)-t0),g_case.c_str(),bound,n,most,seen.size(),allowed.size());
}
int main(int argc, char** argv) {
    vh::init(argc,argv); vh::caselimit=0; itimerval z; memset(&z,0,sizeof z); setitimer(ITIMER_PROF,&z,nullptr); setitimer(ITIMER_REAL,&z,nullptr);
    registerMoment(); registerLinear();
    DATA=vh::opts["data"]; DIR=vh::dir+"/w"; mkdir(DIR.c_str(),0755); char* rp=realpath(DIR.c_str(),nullptr); DIR=rp; free(rp);
    // the data files, small enough to be read often
    std::string d=DIR;
    if(system(("cp -r "+DATA+"/Multipole41 "+DATA+"/axisData_41.txt "+d+"/ && cp "+DATA+"/thinlenlon_41_p.lat "+d+"/gen.lat").c_str())) vh::error("no data");
    sched::watchdir=DIR.c_str();
    sched::shm=(sched::Shm*)mmap(0,sizeof(sched::Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    std::vector<Op> O=ops();
    if(vh::replaying) {
        std::string t=vh::replay; size_t a=t.find(" | "), b=t.find(" |",a+3);
        std::vector<const Op*> sc; std::string n; std::istringstream S(t.substr(0,a));
        while(std::getline(S,n,'+')) for(auto& o: O) if(o.name==n) sc.push_back(&o);
        std::string mode=t.substr(a+3,b-a-3); std::istringstream R(t.substr(b+2)); std::vector<unsigned short> pre; int k; while(R>>k) pre.push_back(k);
        bool ok; std::set<std::string> al=sequential(sc,ok);
        sched::atomics=mode=="atomics";
        if(ok) { X x=execute(sc,pre,mode!="steps"); judge(sc,x,al,mode); }
        vh::finish(); return 0;
    }
    std::string mode=vh::opts["mode"]; int bound=atoi(vh::opts["bound"].c_str()), bound3=atoi(vh::opts["bound3"].c_str());
    unsigned long long u=0;
    std::string only=vh::opts["only"];
    // costly scenarios first, spread over the shards
    std::vector<std::vector<const Op*>> all;
    for(int pass=2;pass>=0;pass--) for(size_t i=0;i<O.size();i++) for(size_t j=i;j<O.size();j++) if(two(O[i]) && two(O[j]) && paired(O[i],O[j]) && (!O[i].shortop)+(!O[j].shortop)==pass) all.push_back({&O[i],&O[j]});
    if(bound3>=0) for(size_t i=0;i<O.size();i++) for(size_t j=i;j<O.size();j++) for(size_t k=j;k<O.size();k++) if(three(O[i])&&three(O[j])&&three(O[k])) all.push_back({&O[i],&O[j],&O[k]});
    for(auto& sc: all) {
        if(!only.empty()) { if(name(sc)!=only) continue; }
        else if(!vh::mine(u++)) continue;
        int b=sc.size()==3?bound3:bound; for(auto o: sc) if(o->name=="elements") b=0; // many points; unsynchronized accesses show in any order
        bool heavy=false; for(auto o: sc) if(!o->shortop && two(*o)) heavy=true;
        explore(sc,b,mode=="mixed"?(heavy?"locks":"atomics"):mode);
    }
    vh::sample("vector+set-logger | locks | 0 0 1 0 1");
    vh::finish();
}
