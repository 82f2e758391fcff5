// C19: the command line tool, run for every combination of the families below, against the library in this process.
#include "h5rd.h"
#include "flame/config.h"
#include <sys/stat.h>
#include <sys/wait.h>
#include <climits>
#include <boost/filesystem.hpp>
namespace fs=boost::filesystem;
typedef std::vector<std::string> SV;

static std::string TOOL, DIR;
static unsigned long long unit=0;
static bool turn(const std::string& id) {
    unsigned long long u=unit++;
    if(vh::replaying) { if(vh::replay!=id) return false; }
    else if(!vh::mine(u)) return false;
    vh::crumb(id); return true;
}
static std::string slurp(const std::string& f) { std::ifstream F(f.c_str(),std::ios::binary); std::stringstream S; S<<F.rdbuf(); return S.str(); }
static void spit(const std::string& f, const std::string& t) { std::ofstream F(f.c_str(),std::ios::binary); F<<t; }

struct Run { int status=0; std::string out, err; bool ok() const { return WIFEXITED(status)&&WEXITSTATUS(status)==0; }
    // ended in an orderly way with an error
    bool refused() const { return WIFEXITED(status)&&WEXITSTATUS(status)!=0&&WEXITSTATUS(status)!=99&&WEXITSTATUS(status)!=127; }
    std::string how() const { return WIFSIGNALED(status)? "is killed by signal "+std::to_string(WTERMSIG(status)) : "exits with "+std::to_string(WEXITSTATUS(status)); } };
static Run run(const SV& args, const std::string& in="/dev/null", const std::string& out="", const std::string& cwd="") {
    std::string o=out.empty()?DIR+"/stdout":out, e=DIR+"/stderr";
    pid_t p=fork();
    if(p==0) {
        if(chdir(cwd.empty()?DIR.c_str():cwd.c_str())) _exit(127);
        int i=open(in.c_str(),O_RDONLY), x=open(o.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644), y=open(e.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644);
        dup2(i,0); dup2(x,1); dup2(y,2);
        std::vector<char*> v; v.push_back((char*)TOOL.c_str()); for(auto& a: args) v.push_back((char*)a.c_str()); v.push_back(nullptr);
        setenv("ASAN_OPTIONS","detect_leaks=0:exitcode=99",1);
        alarm(60);
        execv(TOOL.c_str(),&v[0]); _exit(127);
    }
    Run r; if(waitpid(p,&r.status,0)!=p) vh::error("waitpid");
    if(out.empty()) r.out=slurp(o);
    r.err=slurp(e);
    vh::count("runs");
    if(WIFEXITED(r.status)&&WEXITSTATUS(r.status)==127) vh::error("can not run "+TOOL);
    return r;
}
static std::string join(const SV& a) { std::string r; for(auto& x: a) r+=(r.empty()?"":" ")+(x.empty()?"''":x); return r; }

// ---------------------------------------------------------------- lattices
struct Lat { std::string id, text; std::vector<std::pair<std::string,std::string>> el; /* name, type in beam order */ };
static std::string num(double d) { std::ostringstream o; o.precision(17); o<<d; return o.str(); }
static std::string vec(const V& v) { std::string r="["; for(size_t i=0;i<v.size();i++) r+=(i?",":"")+num(v[i]); return r+"]"; }
static std::string beamtext(const Beam& b) {
    Config c=bconf(b); std::string t="IonEs="+num(b.Es)+"; IonEk="+num(b.Ek)+"; IonChargeStates="+vec(b.Z)+"; NCharge="+vec(b.Q)+";\n";
    for(size_t i=0;i<b.Z.size();i++) { std::string n=std::to_string(i); t+="moment0"+n+"="+vec(c.get<V>("moment0"+n))+"; initial"+n+"="+vec(c.get<V>("initial"+n))+";\n"; }
    return t;
}
static std::vector<Lat> lattices() {
    std::vector<Lat> r;
    r.push_back(Lat{"vector","sim_type=\"Vector\"; initial=[1,0.001,2,0.002,3,0.003]; d: drift, L=0.5; q: quadrupole, L=0.1, K=3; m: marker; D: drift, L=1; l: LINE=(d,q,d,m,D,q); USE: l;\n",
        {{"d","drift"},{"q","quadrupole"},{"d","drift"},{"m","marker"},{"D","drift"},{"q","quadrupole"}}});
    r.push_back(Lat{"matrix","sim_type=\"TransferMatrix\"; d: drift, L=0.5; q: quadrupole, L=0.1, K=-3; d2: drift, L=2; l: LINE=(d,q,2*d2);\n",
        {{"d","drift"},{"q","quadrupole"},{"d2","drift"},{"d2","drift"}}});
    r.push_back(Lat{"moment","sim_type=\"MomentMatrix\"; "+beamtext(beams()[1])+"S: source; d: drift, L=0.3; q: quadrupole, L=0.2, B2=7; b: bpm; s: stripper, charge_model=\"off\", IonChargeStates=[0.3,0.31,0.32], NCharge=[1,2,3]; l: LINE=(S,d,q,b,d,s,d); USE: l;\n",
        {{"S","source"},{"d","drift"},{"q","quadrupole"},{"b","bpm"},{"d","drift"},{"s","stripper"},{"d","drift"}}});
    r.push_back(Lat{"single","sim_type=\"Vector\"; initial=[1,2,3,4,5,6]; drift: drift, L=0.5; l: LINE=(drift);\n",{{"drift","drift"}}});
    return r;
}

// ---------------------------------------------------------------- what the library computes
struct Rec1 { size_t index; std::string name, type; std::map<int,std::string> show; Rec arrays; std::map<std::string,std::string> ut; };
static std::map<std::string,std::string> literals(StateBase* s);
struct Capture : public Observer {
    std::vector<Rec1>* to; std::string type;
    virtual void view(const ElementVoid* e, const StateBase* s) {
        Rec1 r; r.index=e->index; r.name=e->name; r.type=e->type_name();
        for(int d: {0,1,2,3}) { std::ostringstream o; s->show(o,d); r.show[d]=o.str(); }
        r.arrays=record(const_cast<StateBase*>(s)); r.ut=literals(const_cast<StateBase*>(s));
        to->push_back(std::move(r));
    }
};
struct Lib { bool ok=false; std::string err; std::vector<Rec1> rec; std::unique_ptr<StateBase> fin; };
static void compute(const std::string& text, int max, Lib& L) {
    try {
        GLPSParser P; std::ostringstream null; P.setPrinter(&null);
        std::unique_ptr<Config> c(P.parse_byte(text,DIR.c_str()));
        Machine M(*c);
        for(size_t i=0;i<M.size();i++) { Capture* o=new Capture; o->to=&L.rec; M[i]->set_observer(o); }
        std::unique_ptr<StateBase> S(M.allocState());
        M.propagate(S.get(),0,max);
        L.fin.reset(S->clone());
        L.ok=true;
    } catch(std::exception& e) { L.err=e.what(); }
}
static std::string records(const Lib& L, const std::set<size_t>& sel, int detail) {
    std::string r;
    for(auto& x: L.rec) if(sel.count(x.index)) r+="After Element ["+std::to_string(x.index)+"] "+x.name+" "+x.show.at(detail)+"\n";
    return r;
}
static std::string shorten(const std::string& s) { return s.size()<300?s:s.substr(0,300)+"..."; }
static std::string firstdiff(const std::string& a, const std::string& b) {
    size_t i=0; while(i<a.size()&&i<b.size()&&a[i]==b[i]) i++;
    size_t f=i>40?i-40:0; return "got ..."+a.substr(f,120)+"... instead of ..."+b.substr(f,120)+"...";
}

// ---------------------------------------------------------------- families
static const char* MAXES[]={"","0","1","2","3","100","2147483647","-1","-3"};
static void selection(const Lat& l, int style) {
    SV types={"drift","quadrupole","stripper","nosuch"}, names={"d","q","d2","nosuch"};
    std::vector<SV> T={{},{"drift"},{"quadrupole"},{"drift","quadrupole"},{"nosuch","drift"},{"drift","drift"}}, N={{},{"d"},{"q","d"},{"nosuch"},{"S","d2","drift"}};
    spit(DIR+"/x.lat",l.text);
    std::map<int,std::unique_ptr<Lib>> lib;
    for(const char* mx: MAXES) for(int A=0;A<2;A++) for(auto& t: T) for(auto& n: N) for(int last=0;last<2;last++) {
        if(style && !vh::thorough() && (t.size()>1 || n.size()>1)) continue;
        SV a;
        std::string m=mx;
        if(style==0) { if(A) a.push_back("-A"); for(auto& x: t) { a.push_back("-T"); a.push_back(x); } for(auto& x: n) { a.push_back("-N"); a.push_back(x); } if(last) a.push_back("-L"); if(!m.empty()) { a.push_back("-M"); a.push_back(m); } a.push_back("x.lat"); }
        else { a.push_back("--lattice=x.lat"); if(!m.empty()) a.push_back("--max="+m); if(last) a.push_back("--select-last"); for(auto& x: n) a.push_back("--select-name="+x); for(auto& x: t) a.push_back("--select-type="+x); if(A) a.push_back("--select-all"); }
        std::string id="select "+l.id+" "+join(a);
        if(!turn(id)) continue;
        int max=m.empty()?INT_MAX:atoi(mx);
        auto& L=lib[max]; if(!L) { L.reset(new Lib); compute(l.text,max,*L); if(!L->ok) vh::error(L->err); }
        std::set<size_t> sel;
        for(size_t i=0;i<l.el.size();i++) {
            bool s=A || (last&&i+1==l.el.size());
            for(auto& x: t) if(x==l.el[i].second) s=true;
            for(auto& x: n) if(x==l.el[i].first) s=true;
            if(s) sel.insert(i);
        }
        std::string want=records(*L,sel,1);
        Run r=run(a);
        vh::count("evaluations"); if(!want.empty()) vh::count("distinct_nontrivial");
        if(!r.ok()) vh::violation("exit","a valid invocation "+r.how()+": "+shorten(r.err),id);
        else if(r.out!=want) vh::violation("records",firstdiff(r.out,want),id);
        // selections which match nothing are pointed out
        bool warn=false; for(auto& x: t) { bool hit=false; for(auto& e: l.el) hit|=e.second==x; warn|=!hit; } for(auto& x: n) { bool hit=false; for(auto& e: l.el) hit|=e.first==x; warn|=!hit; }
        if(warn!=!r.err.empty()) vh::violation("warning",warn?"no warning about a selection that matches nothing":"unexpected message "+shorten(r.err),id);
    }
}
// every attribute as '-F utest' writes it
static std::map<std::string,std::string> literals(StateBase* s) {
    std::map<std::string,std::string> r;
    for(unsigned i=0;;i++) {
        StateBase::ArrayInfo I; if(!s->getArray(i,I)) break;
        if(r.count(I.name) || I.ndim>2 || (I.type!=StateBase::ArrayInfo::Double && I.ndim)) continue;
        std::ostringstream o; char b[64];
        auto f=[&](double d,int p){ snprintf(b,sizeof b,"%.*e",p,d); return std::string(b); };
        if(I.ndim==0) { if(I.type==StateBase::ArrayInfo::Double) o<<f(*(double*)I.ptr,17); else o<<*(size_t*)I.ptr; }
        else if(I.ndim==1) { o<<"asfarray(["; for(size_t k=0;k<I.dim[0];k++) o<<(k?", ":"")<<f(*I.get<double>(&k),16); o<<"])"; }
        else { o<<"asfarray([\n"; for(size_t a=0;a<I.dim[0];a++) { o<<"                ["; for(size_t c=0;c<I.dim[1];c++) { size_t ix[2]={a,c}; o<<(c?", ":"")<<f(*I.get<double>(ix),16); } o<<"],\n"; } o<<"            ])"; }
        r[I.name]=o.str();
    }
    return r;
}
static std::string utest(const Lib& L, const std::set<size_t>& sel, const SV& attrs) {
    std::ostringstream o;
    for(auto& x: L.rec) if(sel.count(x.index)) {
        o<<"    def test_"<<x.type<<"(self):\n        # "<<x.name<<"\n        self.checkPropagate(0, {}, {\n";
        for(auto& n: attrs) if(x.ut.count(n)) o<<"            '"<<n<<"':"<<x.ut.at(n)<<",\n";
        o<<"        }, max="<<x.index+1<<")\n";
    }
    return o.str();
}
static void formats(const Lat& l) {
    spit(DIR+"/x.lat",l.text);
    struct F { std::string f; int kind, detail; std::string file; SV attrs; };
    std::vector<F> fm={{"txt",0,1,"",{}},{"txt,verbose",0,1,"",{}},{"txt,verbose=0",0,0,"",{}},{"txt,verbose=1",0,1,"",{}},{"txt,verbose=2",0,2,"",{}},{"txt,verbose=3",0,3,"",{}},
        {"txt,file=out.txt",0,1,"out.txt",{}},{"txt,verbose=2,file=out.txt",0,2,"out.txt",{}},{"txt,file=out.txt,verbose=0",0,0,"out.txt",{}},{"txt,,file=sub/o.txt",0,1,"sub/o.txt",{}},
        {"utest",1,0,"",{}},{"utest,state",1,0,"",{"state"}},{"utest,pos,next_elem",1,0,"",{"pos","next_elem"}},{"utest,moment0_env,nosuch,ref_IonEk,moment1_env",1,0,"",{"moment0_env","nosuch","ref_IonEk","moment1_env"}},{"utest,moment1,IonEk,moment0",1,0,"",{"moment1","IonEk","moment0"}},
        {"hdf5,file=out.h5",2,0,"out.h5",{}},{"hdf5,file=out.h5/g",2,0,"out.h5",{}},{"hdf5",3,0,"",{}}};
    for(auto& f: fm) for(const char* mx: MAXES) for(int A=0;A<4;A++) for(int pre=0;pre<2;pre++) {
        if(pre && (f.file.empty() || f.f=="hdf5,file=out.h5")) continue; // over the root of an existing HDF5 file: unspecified
        SV a; std::string m=mx; std::set<size_t> sel;
        if(A==1) a.push_back("-A"); else if(A==2) { a.push_back("-T"); a.push_back("drift"); } else if(A==3) a.push_back("-L");
        for(size_t i=0;i<l.el.size();i++) if(A==1 || (A==2&&l.el[i].second=="drift") || (A==3&&i+1==l.el.size())) sel.insert(i);
        if(!m.empty()) { a.push_back("-M"); a.push_back(m); }
        a.push_back("-F"); a.push_back(f.f); a.push_back("x.lat");
        std::string id="format "+l.id+" "+join(a)+(pre?" over an existing file":"");
        if(!turn(id)) continue;
        int max=m.empty()?INT_MAX:atoi(mx);
        Lib L; compute(l.text,max,L);
        fs::create_directory(DIR+"/sub"); fs::remove(DIR+"/out.txt"); fs::remove(DIR+"/out.h5"); fs::remove(DIR+"/sub/o.txt");
        if(pre && f.kind==0) spit(DIR+"/"+f.file,std::string(100000,'x'));
        if(pre && f.kind==2) { run(SV{"-A","-F",f.f,"x.lat"}); }
        Run r=run(a);
        vh::count("evaluations"); vh::count("distinct_nontrivial"); vh::count("formats");
        if(!r.ok()) { vh::violation("exit","a valid invocation "+r.how()+": "+shorten(r.err),id); continue; }
        std::string want, got=f.file.empty()||f.kind==2?r.out:slurp(DIR+"/"+f.file);
        if(f.kind==0) want=records(L,sel,f.detail); else if(f.kind==1) want=utest(L,sel,f.attrs);
        if(got!=want) vh::violation("records",firstdiff(got,want),id);
        if(!f.file.empty() && !r.out.empty()) vh::violation("records","output both to a file and the screen",id);
        if(f.kind==2) {
            std::vector<Rec> recs; for(auto& x: L.rec) if(sel.count(x.index)) recs.push_back(x.arrays);
            std::string e=compare(DIR+"/out.h5",f.f.substr(f.f.size()-2)=="/g"?"g":"",recs,{});
            if(!e.empty()) vh::violation("hdf5",e,id);
        }
    }
}
static void verbosity(const Lat& l) {
    spit(DIR+"/x.lat",l.text);
    for(int v=0;v<=7;v++) for(const char* mx: MAXES) {
        SV a={"-v",std::to_string(v),"-A"}; std::string m=mx; if(!m.empty()) { a.push_back("-M"); a.push_back(m); } a.push_back("x.lat");
        std::string id="verbose "+l.id+" "+join(a);
        if(!turn(id)) continue;
        Lib L; compute(l.text,m.empty()?INT_MAX:atoi(mx),L);
        Run r=run(a); vh::count("evaluations");
        if(!r.ok()) { vh::violation("exit","a valid invocation "+r.how()+": "+shorten(r.err),id); continue; }
        size_t p=0; bool all=true;
        for(auto& x: L.rec) { std::string w="After Element ["+std::to_string(x.index)+"] "+x.name+" "+x.show[1]+"\n"; size_t q=r.out.find(w,p); if(q==r.out.npos) { all=false; break; } p=q+w.size(); }
        size_t n=0; for(size_t q=0;(q=r.out.find("After Element [",q))!=r.out.npos;q++) n++;
        if(!all || n!=L.rec.size()) vh::violation("records","verbose output does not hold each record once in order",id);
    }
}
static void defines() {
    // definitions and lattices which use them
    const char* use[]={"d: drift, L=A; l: LINE=(d,d);","d: drift, L=2*A-1; l: LINE=(d);","B=A; d: drift, L=B; l: LINE=(d);","d: drift, L=1; l: LINE=(d);","A=0.7; d: drift, L=A; l: LINE=(d);","d: drift, L=1, K=A; l: LINE=(d);","q: quadrupole, L=0.2; l: LINE=(q);","d: drift, L=1; l: LINE=(A*d);","A: drift, L=1; l: LINE=(A);","d: drift, L=C; l: LINE=(d);"};
    struct D { std::string arg, name, lit; };
    std::vector<D> d={{"A=D:0.5","A","0.5"},{"A=double:2","A","2"},{"A=D:-1.25","A","-1.25"},{"A=D:0.10000000000000001","A","0.1"},{"A=S:0.5","A","\"0.5\""},{"A=str:","A","\"\""},{"A=S:a=b:c","A","\"a=b:c\""},{"K=D:0.3","K","0.3"},{"C=D:3","C","3"},{"sim_type=S:Vector","sim_type","\"Vector\""},{"A=D:1e3","A","1e3"}};
    for(auto& u: use) for(size_t i=0;i<=d.size();i++) for(size_t j=0;j<=d.size();j++) {
        if(i==d.size() && j<d.size()) continue;
        SV a; std::map<std::string,std::string> defs;
        for(size_t k: {i,j}) if(k<d.size()) { a.push_back("-D"); a.push_back(d[k].arg); defs[d[k].name]=d[k].lit; }
        bool own=defs.count("sim_type");
        std::string text=std::string(own?"":"sim_type=\"Vector\"; ")+"initial=[1,0.001,2,0.002,3,0.003]; "+u+"\n", front;
        for(auto& x: defs) front+=x.first+"="+x.second+"; ";
        a.push_back("-A"); a.push_back("x.lat");
        std::string id="define "+std::string(u)+" "+join(a);
        if(!turn(id)) continue;
        spit(DIR+"/x.lat",text);
        Lib L; compute(front+text,INT_MAX,L);
        Run r=run(a); vh::count("evaluations"); vh::count("distinct_nontrivial"); vh::count("defines");
        if(L.ok) {
            std::set<size_t> sel; for(size_t k=0;k<L.rec.size();k++) sel.insert(L.rec[k].index);
            if(!r.ok()) vh::violation("define","a valid invocation "+r.how()+": "+shorten(r.err),id);
            else if(r.out!=records(L,sel,1)) vh::violation("define",firstdiff(r.out,records(L,sel,1)),id);
        } else {
            vh::count("refused");
            if(!r.refused()) vh::violation("define","with the definition in front of the lattice the library says: "+L.err+"; the tool "+r.how(),id);
            else if(r.err.empty()) vh::violation("message","no message on the error stream",id);
            if(!r.out.empty()) vh::violation("define","output in spite of an error: "+shorten(r.out),id);
        }
    }
}
static void invalid(const std::vector<Lat>& ls) {
    auto bad=[&](const std::string& name, const SV& a, const std::string& text, const std::string& out="", bool stream=true, const std::string& in="/dev/null"){
        std::string id="invalid "+name+" | "+join(a)+" | "+shorten(text);
        if(!turn(id)) return;
        spit(DIR+"/x.lat",text);
        Run r=run(a,in,out); vh::count("evaluations"); vh::count("distinct_nontrivial"); vh::count("invalid");
        if(!r.refused()) vh::violation("invalid","an invocation which can't be carried out "+r.how()+" "+shorten(r.err),id);
        else if(stream? r.err.empty() : (r.err.empty()&&r.out.empty())) vh::violation("message","no message",id);
    };
    for(auto& l: ls) {
        const std::string& t=l.text;
        bad("no arguments",{},t,"",false); bad("no lattice",{"-A"},t,"",false); bad("no file",{"nosuch.lat"},t); bad("directory",{"."},t); bad("empty name",{""},t); bad("two lattices",{"x.lat","x.lat"},t); bad("stdin empty",{"-"},t);
        for(std::string o: {"--nosuch","-Z","--select-type","-T","-N","-D","-M","-F","--max","-v"}) { bad("option",{"x.lat",o},t); }
        for(std::string m: {"x","","1.5","1e3","99999999999","-99999999999","1 ","0x10","1,2","nan"}) { bad("max",{"-M",m,"x.lat"},t); bad("max",{"--max="+m,"-A","x.lat"},t); }
        for(std::string v: {"x","","1.5","99999999999"}) bad("verbose",{"--verbose="+v,"x.lat"},t);
        for(std::string d: {"A","A=","A=1","A:D=1","=D:1","A=Q:1","A=:1","A=D:","A=D:x","A=D:1x","A=D: 1","A=double:1,2","A=d:1","A=STR:x","","=",":","=:","A=D:1e999999"}) { if(d.empty()) continue; bad("define",{"-D",d,"x.lat"},t); bad("define",{"-A","--define="+d,"x.lat"},t); }
        for(std::string f: {"nosuch","","Txt","txt2","txt,verbose=x","txt,verbose=","txt,verbose=1.5","txt,file=nosuch/o.txt","txt,file=","txt,file=.","hdf5,file=x.lat/o.h5","hdf5,file=","hdf5,file=.","hdf5,file=x.lat","hdf5,file=o.h5/","json,file=x"}) { if(f=="hdf5,file=o.h5/") continue; bad("format",{"-F",f,"-A","x.lat"},t); bad("format",{"--format="+f,"x.lat"},t); }
        for(std::string f: {"txt,file=/dev/full","txt,file=/dev/full,verbose=2"}) bad("full",{"-F",f,"-A","x.lat"},t);
        for(std::string f: {"txt","utest","utest,pos","txt,verbose=3"}) for(std::string s: {"-A","-L"}) bad("full screen",{"-F",f,s,"x.lat"},t,"/dev/full");
        // every cut of the lattice text that the library refuses
        for(size_t k=0;k<t.size();k+=(t.size()>400 && !vh::thorough()? 37:1)) {
            std::string cut=t.substr(0,k);
            if(!vh::replaying && !vh::mine(unit)) { unit++; continue; }
            Lib L; compute(cut,INT_MAX,L);
            if(L.ok) { unit++; continue; }
            bad("cut",{"-A","x.lat"},cut);
        }
    }
    const char* texts[]={"","x","sim_type=\"Vector\";","sim_type=\"nosuch\"; d: drift, L=1; l: LINE=(d);","sim_type=3; d: drift, L=1; l: LINE=(d);","d: drift, L=1; l: LINE=(d);","sim_type=\"Vector\"; d: drift; l: LINE=(d);","sim_type=\"Vector\"; d: nosuch, L=1; l: LINE=(d);","sim_type=\"Vector\"; d: drift, L=\"x\"; l: LINE=(d);","sim_type=\"Vector\"; initial=[1,2,3,4,5,6,7,8]; d: drift, L=1; l: LINE=(d);","sim_type=\"Vector\"; d: drift, L=1; l: LINE=(); USE: l;","sim_type=\"Vector\"; d: drift, L=1; l: LINE=(d); USE: k;",
        "sim_type=\"MomentMatrix\"; IonChargeStates=[0.1]; d: drift, L=1; l: LINE=(d);","sim_type=\"MomentMatrix\"; d: drift, L=1; q: quadrupole, L=1; l: LINE=(d,q);","sim_type=\"MomentMatrix\"; IonEs=1; IonEk=1; IonChargeStates=[]; NCharge=[]; d: drift, L=1; l: LINE=(d);","sim_type=\"Vector\"; f=file(\"nosuch\"); d: drift, L=1; l: LINE=(d);","sim_type=\"Vector\"; a=1/0; d: drift, L=a; l: LINE=(d);","sim_type=\"Vector\"; elements=3; d: drift, L=1; l: LINE=(d);","\xff\xfe","sim_type=\"Vector\"; c=parse(\"x.lat\"); d: drift, L=1; l: LINE=(d);"};
    for(auto& t: texts) {
        // the library refuses it in this process too (recursive inclusion excepted)
        if(std::string(t).find("parse(")==std::string::npos && !vh::replaying) { Lib L; compute(t,INT_MAX,L); if(L.ok) { vh::sample(std::string("accepted: ")+t); continue; } }
        else if(std::string(t).find("parse(")!=std::string::npos) continue;
        bad("lattice",{"x.lat"},t); bad("lattice",{"-A","-v","1","x.lat"},t); bad("lattice",{"-A","-F","utest,pos","x.lat"},t);
    }
}
// the lattice from the standard input, from another directory, and with data found next to it
static void places(const Lat& l) {
    for(int k=0;k<4;k++) for(const char* mx: MAXES) {
        std::string m=mx, id="place "+l.id+" "+std::to_string(k)+" "+m;
        if(!turn(id)) continue;
        Lib L; compute(l.text,m.empty()?INT_MAX:atoi(mx),L);
        std::set<size_t> sel; for(auto& x: L.rec) sel.insert(x.index);
        SV a={"-A"}; if(!m.empty()) { a.push_back("-M"); a.push_back(m); }
        fs::create_directories(DIR+"/p/q");
        std::string data="f=file(\"data.txt\"); ";
        spit(DIR+"/p/data.txt","1"); spit(DIR+"/p/y.lat",data+l.text); spit(DIR+"/p/q/data.txt","1");
        Run r;
        if(k==0) { a.push_back("-"); r=run(a,DIR+"/p/y.lat","",DIR+"/p/q"); }
        else if(k==1) { a.push_back("../y.lat"); r=run(a,"/dev/null","",DIR+"/p/q"); }
        else if(k==2) { a.push_back(DIR+"/p/y.lat"); r=run(a,"/dev/null","","/"); }
        else { a.push_back("y.lat"); r=run(a,"/dev/null","",DIR+"/p"); }
        vh::count("evaluations"); vh::count("places");
        if(!r.ok()) vh::violation("place","a valid invocation "+r.how()+": "+shorten(r.err),id);
        else if(r.out!=records(L,sel,1)) vh::violation("place",firstdiff(r.out,records(L,sel,1)),id);
    }
}

int main(int argc, char** argv) {
    vh::init(argc,argv);
    registerMoment(); registerLinear();
    H5Eset_auto2(H5E_DEFAULT,nullptr,nullptr);
    TOOL=vh::opts["tool"]; 
    DIR=fs::canonical(vh::dir).native()+"/w"; fs::create_directories(DIR);
    std::vector<Lat> ls=lattices();
    for(auto& l: ls) { selection(l,0); selection(l,1); }
    for(auto& l: ls) formats(l);
    for(auto& l: ls) verbosity(l);
    defines();
    invalid(ls);
    for(auto& l: ls) places(l);
    fs::remove_all(DIR);
    vh::sample("-T drift -N q -N d -L -M 2 x.lat");
    vh::finish();
}
