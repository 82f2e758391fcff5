// C14: data-file caching never serves superseded or damaged contents.
// Every history of fetches and replacements, with a replacement placed before every file access of a fetch.
#include <dlfcn.h>
#include <sys/stat.h>
#include <stdarg.h>
#include "fl.h"
#include "flame/util.h"
using namespace fl;

// ---- interposed file accesses of the libraries under test
static std::string g_watch; static int g_at=-1, g_seen=0; static std::function<void()> g_do; static bool g_fired=false;
static void access_point(const char* path) {
    if(g_watch.empty() || !path) return;
    const char* b=strrchr(path,'/'); b=b?b+1:path;
    if(g_watch!=b) return;
    if(g_seen++==g_at) { g_fired=true; std::string w; w.swap(g_watch); g_do(); w.swap(g_watch); }
}
template<typename F> static F real(const char* n, F) { return (F)dlsym(RTLD_NEXT,n); }
extern "C" {
int statx(int d,const char* p,int f,unsigned m,struct statx* b) { access_point(p); static auto r=real("statx",&statx); return r(d,p,f,m,b); }
int stat(const char* p,struct stat* b) { access_point(p); static auto r=real("stat",&stat); return r(p,b); }
int stat64(const char* p,struct stat64* b) { access_point(p); static auto r=real("stat64",&stat64); return r(p,b); }
int lstat(const char* p,struct stat* b) { access_point(p); static auto r=real("lstat",&lstat); return r(p,b); }
FILE* fopen(const char* p,const char* m) { access_point(p); static auto r=real("fopen",&fopen); return r(p,m); }
FILE* fopen64(const char* p,const char* m) { access_point(p); static auto r=real("fopen64",&fopen64); return r(p,m); }
int open(const char* p,int f,...) { va_list a; va_start(a,f); int m=va_arg(a,int); va_end(a); access_point(p); static auto r=(int(*)(const char*,int,...))dlsym(RTLD_NEXT,"open"); return r(p,f,m); }
int open64(const char* p,int f,...) { va_list a; va_start(a,f); int m=va_arg(a,int); va_end(a); access_point(p); static auto r=(int(*)(const char*,int,...))dlsym(RTLD_NEXT,"open64"); return r(p,f,m); }
}
// ---- versions of a file
enum Kind2 { Good, Bad, Missing };
struct Ver { int kind; int t; int id; };
struct Op { char c; int f; Ver v; int k; }; // F fetch, R replace, I fetch with replacement at access k, C clear the table cache
static std::string name(const Op& o) {
    std::ostringstream s; s<<(o.c=='F'?"fetch ":o.c=='R'?"replace ":o.c=='I'?"fetch+replace ":"clear ");
    if(o.c=='C') return s.str();
    s<<"f"<<o.f; if(o.c!='F') s<<" by "<<(o.v.kind==Good?"good":o.v.kind==Bad?"malformed":"nothing")<<" time "<<o.v.t; if(o.c=='I') s<<" at access "<<o.k;
    return s.str();
}
struct Backend {
    const char* id; const char* ext;
    std::function<std::string(int)> good; std::string bad;
    std::function<double(const std::string& path)> fetch; // value that identifies the contents; throws
    std::function<void()> hold; // check what was handed out before
    double expect[64];
};
static std::string dir; static unsigned long hist=0;
static void put(const std::string& path, const Ver& v, const Backend& B) {
    if(v.kind==Missing) { unlink(path.c_str()); return; }
    std::string tmp=path+".new";
    std::string text=v.kind==Good?B.good(v.id):B.bad;
    static auto ropen=(int(*)(const char*,int,...))dlsym(RTLD_NEXT,"open");
    int fd=ropen(tmp.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644);
    if(fd<0 || write(fd,text.data(),text.size())!=(ssize_t)text.size()) vh::error("cannot write "+tmp);
    struct timespec ts[2]={{1000000000+v.t,0},{1000000000+v.t,0}};
    if(futimens(fd,ts)) vh::error("utime"); close(fd);
    if(rename(tmp.c_str(),path.c_str())) vh::error("rename");
}
static std::string text(const std::vector<Op>& h, const Backend& B) { std::string s=std::string(B.id)+":"; for(auto& o: h) s+=" "+name(o)+";"; return s; }
// false: the last operation's replacement did not fall into the fetch
static bool run(const std::vector<Op>& h, Backend& B) {
    std::string path[2];
    std::string d=dir+"/h"+std::to_string(hist++);
    mkdir(d.c_str(),0755);
    Ver cur[2]; bool has[2]={false,false}; Ver last[2]; bool used[2]={false,false};
    for(auto& o: h) if(o.c!='C') used[o.f]=true;
    for(int i=0;i<2;i++) { path[i]=d+"/f"+std::to_string(i)+B.ext; cur[i]=Ver{Good,1,i*10}; if(used[i]) put(path[i],cur[i],B); }
    bool ok=true;
    vh::crumb(text(h,B));
    for(size_t n=0;n<h.size();n++) {
        const Op& o=h[n];
        if(o.c=='C') { numeric_table_cache::get()->clear(); continue; }
        Ver v=o.v; v.id=o.f*10+1+n;
        if(o.c=='R') { put(path[o.f],v,B); cur[o.f]=v; continue; }
        std::vector<Ver> win={cur[o.f]};
        g_fired=false; g_seen=0; g_at=-1;
        if(o.c=='I') { g_at=o.k; g_do=[&]{ put(path[o.f],v,B); }; g_watch="f"+std::to_string(o.f)+B.ext; }
        double got=0; std::string err; bool threw=false;
        try { got=B.fetch(path[o.f]); } catch(std::exception& e) { threw=true; err=e.what(); }
        g_watch.clear();
        if(o.c=='I') { if(!g_fired) { ok=false; break; } win.push_back(v); cur[o.f]=v; }
        vh::count("fetches");
        // what may come back
        bool mayfail=false; std::vector<Ver> may;
        for(auto& w: win) { if(w.kind!=Good) mayfail=true; else may.push_back(w); }
        // not to be told apart by modification time
        if(has[o.f]) for(auto& w: win) if(w.kind!=Missing && w.t==last[o.f].t) may.push_back(last[o.f]);
        if(threw) {
            vh::count("failed");
            bool anybad=mayfail;
            if(!anybad) { vh::violation("refused","fetching a good file fails: "+err,text(h,B)); break; }
            if(err.empty()) { vh::violation("refused","empty error message",text(h,B)); break; }
        } else {
            bool hit=false; Ver w{};
            for(auto& x: may) if(B.expect[x.id]==got) { hit=true; w=x; break; }
            if(!hit) {
                std::ostringstream s; s.precision(17); s<<"step "<<n+1<<" yields "; int who=-1; for(int i=0;i<40;i++) if(B.expect[i]==got) who=i;
                if(who>=0) s<<"the contents written by step "<<who%10<<" of file "<<who/10; else s<<got;
                s<<(may.empty()?", although the file is missing or malformed":", not those the file had during the call");
                vh::violation("stale",s.str(),text(h,B)); break;
            }
            has[o.f]=true; last[o.f]=w;
        }
        if(B.hold) B.hold();
    }
    for(int i=0;i<2;i++) if(used[i]) { unlink(path[i].c_str()); }
    rmdir(d.c_str());
    return ok;
}
static void histories(Backend& B, std::vector<Op> pre, const std::vector<Op>& A, size_t depth, unsigned long long& ix) {
    if(pre.size()==depth) {
        if(!vh::mine(ix++)) return;
        if(pre.back().c=='R' || pre.back().c=='C') return; // ends with a fetch
        if(run(pre,B)) { vh::count("histories"); for(auto& o: pre) vh::count("transitions"), (void)o; } else vh::count("skipped");
        return;
    }
    for(auto& o: A) { pre.push_back(o); histories(B,pre,A,depth,ix); pre.pop_back(); }
}
static std::vector<Op> alphabet(int files, int maxk, const std::vector<Ver>& vs, bool clear) {
    std::vector<Op> A;
    for(int f=0;f<files;f++) {
        A.push_back(Op{'F',f,Ver{Good,0,0},0});
        for(auto& v: vs) A.push_back(Op{'R',f,v,0});
        for(auto& v: vs) for(int k=0;k<maxk;k++) A.push_back(Op{'I',f,v,k});
    }
    if(clear) A.push_back(Op{'C',0,Ver{Good,0,0},0});
    return A;
}
int main(int argc, char** argv) {
    vh::init(argc,argv);
    registerMoment();
    { char b[4096]; dir=(vh::dir[0]=='/')?vh::dir:std::string(getcwd(b,sizeof b))+"/"+vh::dir; }
    if(vh::replaying) { vh::shard=0; vh::nshards=1; }
    bool T=vh::thorough();
    std::vector<Ver> vs={{Good,0,0},{Good,1,0},{Good,2,0},{Bad,0,0},{Bad,2,0},{Missing,0,0}};
    // --- numeric tables
    std::vector<std::pair<numeric_table_cache::table_pointer,double>> held; numeric_table scratch;
    Backend tab{"table",".txt",[](int id){ return "% a b\n"+std::to_string(id)+" 2\n3 "+std::to_string(id*id)+"\n"; },"1 2\n3\n",nullptr,nullptr,{}};
    auto value=[](const numeric_table& t)->double { if(t.table.size1()!=2 || t.table.size2()!=2 || t.colnames.size()!=2 || t.table(0,1)!=2 || t.table(1,0)!=3 || t.table(1,1)!=t.table(0,0)*t.table(0,0)) return -1; return t.table(0,0); };
    tab.fetch=[&](const std::string& p){ auto t=numeric_table_cache::get()->fetch(p); double v=value(*t); held.push_back(std::make_pair(t,v)); return v; };
    tab.hold=[&]{ for(auto& h: held) if(value(*h.first)!=h.second) vh::violation("held","a table handed out earlier has changed",vh::crumbp); };
    for(int i=0;i<64;i++) tab.expect[i]=i;
    std::vector<Op> A;
    unsigned long long ix=0;
    auto all=[&](Backend& B,const std::vector<Op>& A,size_t d){ for(size_t n=1;n<=d;n++) { histories(B,{},A,n,ix); held.clear(); numeric_table_cache::get()->clear(); } };
    // the tables handed out are looked at only within one history
    auto fetch0=tab.fetch;
    int maxk=4;
    auto A1=alphabet(1,maxk,vs,true), A2=alphabet(2,maxk,vs,false);
    // reset what is held per history
    static unsigned long lasth=~0ul;
    tab.fetch=[&](const std::string& p){ if(lasth!=hist) { held.clear(); lasth=hist; if(hist%512==0) numeric_table_cache::get()->clear(); } return fetch0(p); };
    all(tab,A1,T?4:3);
    all(tab,A2,T?4:3);
    // longer histories with the plain operations
    { std::vector<Ver> few={{Good,0,0},{Good,1,0},{Good,2,0},{Bad,2,0},{Missing,0,0}}; std::vector<Op> P=alphabet(1,0,few,false); all(tab,P,T?8:7); }
    // --- curves, as a quadrupole sees them
    auto quad=[](const Ps& extra){
        std::unique_ptr<Machine> M(machine("MomentMatrix",{E{"quadrupole","e",with(Ps{P("L",0.25),P("ncurve",1.0),P("scl_fac0",0.5)},extra)}}));
        std::unique_ptr<MomentState> S(beam(beams()[0])); M->propagate(S.get()); return S->transmat[0](1,0); };
    Backend cur{"curve",".lat",[](int id){ return "curve0=[1,2,"+std::to_string(id)+"];\n"; },"curve0=[1,2,;\n",nullptr,nullptr,{}};
    cur.fetch=[&](const std::string& p){ size_t s=p.rfind('/'); return quad(Ps{P("Eng_Data_Dir",p.substr(0,s)),P("CurveFile",p.substr(s+1))}); };
    for(int i=0;i<64;i++) cur.expect[i]=quad(Ps{P("curve0",V{1,2,(double)i})});
    all(cur,alphabet(1,6,vs,false),T?3:2);
    all(cur,alphabet(2,6,vs,false),2);
    { std::vector<Ver> few={{Good,0,0},{Good,1,0},{Good,2,0},{Bad,2,0},{Missing,0,0}}; std::vector<Op> P=alphabet(1,0,few,false); all(cur,P,T?7:6); }
    // --- cavity data files
    auto cavtext=[](int id){ std::ostringstream o; o.precision(17); o<<"Rm=17;\nEz=[-120,0, -60,"<<1e5*(1+id)<<", 0,0, 60,"<<-1e5*(1+id)<<", 120,0];\n";
        std::string at="[0,0,0,0,0,0,0,0,0,1, 0,0,0,0,0,0,0,0,0,0, 4.4,-0.5,4.7]";
        o<<"d: drift, L=60;\ng: AccGap, L=0, V0=0.01, attr="<<at<<";\ncell: LINE=(d,g,d,d,g,d);\nUSE: cell;\n"; return o.str(); };
    auto cav=[](const std::string& dir,const std::string& f){
        std::unique_ptr<Machine> M(machine("MomentMatrix",{E{"rfcavity","e",Ps{P("L",0.24),P("f",80.5e6),P("cavtype","Generic"),P("phi",-10.0),P("scl_fac",0.64),P("Eng_Data_Dir",dir),P("datafile",f)}}}));
        std::unique_ptr<MomentState> S(beam(beams()[0])); M->propagate(S.get()); return S->ref.IonEk; };
    Backend cv{"cavity",".lat",cavtext,"Rm=17; Ez=[;\n",nullptr,nullptr,{}};
    cv.fetch=[&](const std::string& p){ size_t s=p.rfind('/'); return cav(p.substr(0,s),p.substr(s+1)); };
    for(int i=0;i<40;i++) { std::string p=dir+"/ref"+std::to_string(i)+".lat"; { std::ofstream F(p.c_str()); F<<cavtext(i); } cv.expect[i]=cav(dir,"ref"+std::to_string(i)+".lat"); unlink(p.c_str()); for(int j=0;j<i;j++) if(cv.expect[j]==cv.expect[i]) vh::error("cavity versions cannot be told apart"); }
    for(int i=40;i<64;i++) cv.expect[i]=std::nan("");
    all(cv,alphabet(1,6,vs,false),T?3:2);
    { std::vector<Ver> few={{Good,0,0},{Good,1,0},{Good,2,0},{Bad,2,0},{Missing,0,0}}; std::vector<Op> P=alphabet(1,0,few,false); all(cv,P,T?6:5); }
    // relative names are refused, before and after the same file was fetched by its absolute one
    if(vh::shard==0) {
        std::string p=dir+"/rel.txt"; put(p,Ver{Good,1,5},tab);
        if(chdir(dir.c_str())) vh::error("chdir");
        for(int i=0;i<2;i++) {
            bool threw=false; try { numeric_table_cache::get()->fetch("rel.txt"); } catch(std::exception&) { threw=true; }
            if(!threw) vh::violation("relative","a relative file name is accepted","rel.txt");
            fetch0(p);
        }
        unlink(p.c_str()); held.clear();
    }
    vh::counts["evaluations"]=vh::counts["fetches"];
    vh::counts["distinct_nontrivial"]=vh::counts["histories"];
    vh::sample("fetch+replace f0 by good time 0 at access 1; fetch f0; replace f0 by malformed time 2; fetch f0");
    vh::finish();
}
