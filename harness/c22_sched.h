// part of c22.cpp: interleavings
typedef std::vector<std::string> Prog;
struct Scen { Prog a, b; std::string name() const { std::string r; for(auto& x: a) r+=(r.empty()?"":",")+x; r+=" / "; bool f=true; for(auto& x: b) { r+=(f?"":",")+x; f=false; } return r; } };
static std::map<std::string,std::pair<double,double>> table; // settings -> expected readings at the two markers
static std::string key(int L, int v) { return "L"+std::to_string(L)+"v"+std::to_string(v); }
static void maketable() { // by the library
    for(int L=1;L<=3;L++) for(int v: {1,5}) {
        std::string t=LAT; GLPSParser P; std::unique_ptr<Config> C(P.parse_byte(t)); Machine M(*C);
        Config d(M[1]->conf()); d.set<double>("L",L); M.reconfigure(1,d); Config p(M[3]->conf()); p.set<double>("v",v); M.reconfigure(3,p);
        std::unique_ptr<StateBase> S(M.allocState()); VectorState* V=static_cast<VectorState*>(S.get());
        M.propagate(S.get(),0,3); double a=V->state[0]; M.propagate(S.get(),3,3);
        table[key(L,v)]={a,V->state[0]};
    }
    std::set<double> all; for(auto& t: table) all.insert(t.second.second); if(all.size()!=table.size()) vh::error("readings are not distinct");
}
// ---------------------------------------------------------------- the model
struct Model {
    int ia=0, ib=0, L=1, v=1, fail=0, pend=0, valid=0, has=0, ll=0, lv=0, q=0, pos=0, ph=0, stop=0, wdone=0, xstep=0, cnt=0, fin=0;
    std::string log[2], mon[4];
    std::string str() const { std::ostringstream o; o<<ia<<' '<<ib<<' '<<L<<' '<<v<<' '<<fail<<' '<<pend<<' '<<valid<<' '<<has<<' '<<ll<<' '<<lv<<' '<<q<<' '<<pos<<' '<<ph<<' '<<stop<<' '<<wdone<<' '<<xstep<<' '<<cnt<<' '<<fin<<'|'<<log[0]<<'|'<<log[1]; for(auto& m: mon) o<<'|'<<m; return o.str(); }
    std::string code() const { return !valid||!has?"inv":key(ll,lv); }
    std::string outcome() const { return "A:"+log[0]+"\nB:"+log[1]+"\nreading:"+mon[0]+"\norbit:"+mon[1]+"\nreadback:"+mon[2]+"\ncount:"+mon[3]+"\n"; }
};
static std::vector<Model> steps(const Model& s, const Scen& sc) {
    std::vector<Model> r;
    for(int c=0;c<2;c++) {
        const Prog& p=c?sc.b:sc.a; int i=c?s.ib:s.ia; if(i>=(int)p.size()) continue;
        Model n=s; const std::string& o=p[i]; std::string& l=n.log[c]; bool adv=true;
        if(o=="R") { n.pend=1; l+=" ok"; } else if(o[0]=='L') { n.L=o[1]-'0'; l+=" ok"; } else if(o[0]=='V') { n.v=o[1]-'0'; l+=" ok"; }
        else if(o=="N") l+=" inv"; else if(o[0]=='F') { n.fail=o[1]-'0'; l+=" ok"; } else if(o=="G"||o=="O") l+=" "+s.code();
        else if(o=="K") l+=" "+std::to_string(s.L); else if(o=="D"||o=="P") l+=" ok";
        else if(o=="X") { if(!s.xstep) { n.stop=1; n.xstep=1; adv=false; } else if(s.wdone) l+=" ok"; else continue; }
        if(adv) (c?n.ib:n.ia)++;
        r.push_back(n);
    }
    if(!s.wdone) {
        if(s.ph) { Model n=s; n.q++; n.ph=0; r.push_back(n); }
        else {
            if(s.stop) { Model n=s; n.wdone=1; r.push_back(n); }
            if(s.pend) { Model n=s; n.pend=0; n.ph=1; if(s.fail) n.valid=0; else { n.valid=1; n.has=1; n.ll=s.L; n.lv=s.v; } r.push_back(n); }
        }
    }
    if(s.pos) {
        Model n=s; int k=s.pos-1; if(k<2) n.mon[k]+=" "+s.code(); else if(k==2) n.mon[k]+=" "+std::to_string(s.L); else n.mon[k]+=" "+std::to_string(++n.cnt);
        n.pos=s.pos==4?0:s.pos+1; r.push_back(n);
    } else if(s.q) { Model n=s; n.q--; n.pos=1; r.push_back(n); }
    if(r.empty() && !s.fin) { Model n=s; n.fin=1; n.log[1]+=" | "+s.code()+" "+s.code()+" "+std::to_string(s.L); r.push_back(n); }
    return r;
}
static std::set<std::string> outcomes(const Scen& sc) {
    std::set<std::string> seen, out; std::vector<Model> todo(1); seen.insert(todo[0].str());
    while(!todo.empty()) {
        Model s=todo.back(); todo.pop_back(); vh::count("model_states");
        std::vector<Model> n=steps(s,sc); if(n.empty()) { out.insert(s.outcome()); continue; }
        for(auto& x: n) { vh::count("model_transitions"); if(seen.insert(x.str()).second) todo.push_back(x); }
    }
    return out;
}
// ---------------------------------------------------------------- one execution
static std::string g_case;
static std::string code1(Rec& r, bool second) {
    if(r.p->sevr==INVALID_ALARM) return "inv";
    for(auto& t: table) if(r.ai()->val==(second?t.second.second:t.second.first)) return r.p->sevr?"alarm":t.first;
    return "?"+std::to_string(r.ai()->val);
}
static std::string code2(Rec& r) {
    if(r.p->sevr==INVALID_ALARM) return "inv";
    double* b=(double*)r.wf()->bptr; if(r.wf()->nord!=2) return "?n"+std::to_string(r.wf()->nord);
    for(auto& t: table) if(b[0]==t.second.first && b[1]==t.second.second) return r.p->sevr?"alarm":t.first;
    return "?"+std::to_string(b[0])+","+std::to_string(b[1]);
}
static void child(const Scen& sc) {
    prctl(PR_SET_PDEATHSIG,SIGKILL); alarm(60);
    if(!vh::replaying) { int n=::open("/dev/null",O_WRONLY); dup2(n,2); dup2(n,1); }
    sched::nthr=4; nextid=0;
    if(shellcall("flamePrepare",{"sim",LATFILE})) _exit(90);
    if(nextid!=1) { fprintf(stderr,"threads started: %d\n",nextid); _exit(91); }
    cbs=new Callbacks;
    auto orb=[](Rec* r){ r->wf()->ftvl=menuFtypeDOUBLE; r->wf()->nelm=4; return r; };
    Rec run("bo","run","FLAME Simulate","sim"), spL("ao","spL","FLAME Setting","sim d L"), spV("ao","spV","FLAME Setting","sim p v"), spF("ao","spF","FLAME Setting","sim p fail"),
        rdX("ai","rdX","FLAME State","sim m[1] state[0]"), orbX("waveform","orbX","FLAME State Orbit","sim marker state[0]"), rbL("ai","rbL","FLAME Setting","sim d L"), cnt("longin","cnt","FLAME Run Count","sim"),
        pX("ai","pX","FLAME State","sim m[1] state[0]"), pO("waveform","pO","FLAME State Orbit","sim marker state[0]"), pK("ai","pK","FLAME Setting","sim d L");
    orb(&orbX); orb(&pO);
    for(Rec* r: {&run,&spL,&spV,&spF,&pX,&pO,&pK}) if(!r->init() || r->initrc || !r->p->dpvt) { fprintf(stderr,"init %s\n",r->p->name); _exit(92); }
    for(Rec* r: {&rdX,&orbX,&rbL,&cnt}) if(!r->init(true) || r->initrc || !r->intr) { fprintf(stderr,"init %s\n",r->p->name); _exit(92); }
    auto put=[](Rec& r, double v) { r.lock(); r.ao()->val=v; r.process(); std::string o=r.rc!=0||r.p->sevr?(r.p->sevr==INVALID_ALARM?"inv":"?alarm"):"ok"; r.unlock(); return o; };
    auto get=[](Rec& r, std::function<std::string(Rec&)> f) { r.lock(); r.process(); std::string o=f(r); r.unlock(); return o; };
    auto l=[](Rec& r) { return r.p->sevr?std::string("alarm"):std::to_string((int)r.ai()->val); };
    auto op=[&](const std::string& o) -> std::string {
        if(o=="R") { run.lock(); run.bo()->val=1; run.process(); std::string s=run.rc||run.p->sevr?"?":"ok"; run.unlock(); return s; }
        if(o[0]=='L') return put(spL,o[1]-'0'); if(o[0]=='V') return put(spV,o[1]-'0'); if(o=="N") return put(spV,-1); if(o[0]=='F') return put(spF,o[1]-'0');
        if(o=="G") return get(pX,[](Rec& r){ return code1(r,true); }); if(o=="O") return get(pO,code2); if(o=="K") return get(pK,l);
        if(o=="D") { shellcall("flameDebug",{"sim","2"}); return "ok"; } if(o=="P") { shellcall("flameShow",{"sim"}); return "ok"; }
        if(o=="X") { for(size_t i=atexits.size();i--;) atexits[i].first(atexits[i].second); return "ok"; }
        return "?op";
    };
    std::string log[2]; bool exited=false;
    std::thread tc([&]{ sched::begin(1);
        while(true) {
            pthread_mutex_lock(&cbs->m); bool st=cbs->stop; IOSCANPVT io=nullptr; if(!cbs->q.empty()) { io=cbs->q.front(); cbs->q.erase(cbs->q.begin()); } pthread_mutex_unlock(&cbs->m);
            if(!io) { if(st) break; cbs->ev.wait(); continue; }
            for(Rec* r: io->recs) { r->lock(); r->process(); r->mon.push_back(r==&rdX?code1(*r,true):r==&orbX?code2(*r):r==&rbL?l(*r):std::to_string(r->li()->val)); r->unlock(); }
        }
        sched::end(); });
    std::thread ta([&]{ sched::begin(2); for(size_t k=0;k<sc.a.size();k++) { if(k) sched::boundary(); log[0]+=" "+op(sc.a[k]); if(sc.a[k]=="X") exited=true; } sched::end(); });
    std::thread tb([&]{ sched::begin(3);
        for(size_t k=0;k<sc.b.size();k++) { if(k) sched::boundary(); log[1]+=" "+op(sc.b[k]); if(sc.b[k]=="X") exited=true; }
        sched::idle();
        sched::fine=false;
        log[1]+=" |"; for(const char* o: {"G","O","K"}) log[1]+=" "+op(o);
        if(!exited) op("X");
        pthread_mutex_lock(&cbs->m); cbs->stop=true; pthread_mutex_unlock(&cbs->m); cbs->ev.trigger();
        sched::end(); });
    sched::start(4);
    tc.join(); ta.join(); tb.join();
    auto mon=[](Rec& r) { std::string s; for(auto& x: r.mon) s+=" "+x; return s; };
    std::string out="A:"+log[0]+"\nB:"+log[1]+"\nreading:"+mon(rdX)+"\norbit:"+mon(orbX)+"\nreadback:"+mon(rbL)+"\ncount:"+mon(cnt)+"\n";
    if(out.size()>=sched::MAXTXT) out.resize(sched::MAXTXT-1);
    memcpy(sched::shm->txt,out.data(),out.size()); sched::shm->ntxt=out.size(); sched::shm->status=1;
    _exit(0);
}
struct X { int st=0; std::string out, why; std::vector<sched::Point> pts; std::string race; bool livelock=false; };
static std::string slurp(const std::string& f) { std::ifstream F(f.c_str(),std::ios::binary); std::stringstream S; S<<F.rdbuf(); return S.str(); }
static X execute(const Scen& sc, const std::vector<unsigned short>& prefix) {
    sched::Shm* s=sched::shm; s->npts=0; s->status=0; s->why[0]=0; s->ntxt=0; s->nprefix=prefix.size(); std::copy(prefix.begin(),prefix.end(),s->prefix);
    pid_t p=fork(); if(p==0) child(sc); if(p<0) vh::error("fork");
    int st; while(waitpid(p,&st,0)!=p) if(errno!=EINTR) vh::error("waitpid");
    vh::count("executions");
    X x; x.st=st; x.pts.assign(s->pts,s->pts+s->npts); x.out.assign(s->txt,s->ntxt); x.why=s->why;
    if(s->status==3) vh::error("divergence "+g_case);
    if(s->status==4 && strstr(s->why,"scheduling points")) { x.livelock=true; x.pts.resize(std::min<size_t>(x.pts.size(),200)); return x; }
    if(s->status==4) vh::error(std::string(s->why)+" "+g_case);
    std::string lf=vh::dir+"/tsan."+std::to_string(p);
    if(access(lf.c_str(),F_OK)==0) { x.race=slurp(lf); unlink(lf.c_str()); }
    if(st==0 && s->status!=1) vh::error("no outcome "+g_case);
    vh::count("transitions",s->npts);
    return x;
}
static std::string schedule(const X& x) { std::string r; size_t last=0; for(size_t i=0;i<x.pts.size();i++) if(x.pts[i].chosen) last=i+1; for(size_t i=0;i<last;i++) r+=" "+std::to_string(x.pts[i].chosen); return r; }
static std::string brief(const std::string& r) { std::string o; std::istringstream S(r); std::string l; int n=0; while(std::getline(S,l)&&n<30) { if(l.find("WARNING")!=l.npos||l.find(" #")!=l.npos||l.find("ead of size")!=l.npos||l.find("rite of size")!=l.npos||l.find("SUMMARY")!=l.npos) { size_t p=l.find_first_not_of(' '); o+=l.substr(p==l.npos?0:p,160)+" | "; n++; } } return o; }
static std::string diagnose(const X& x, const std::set<std::string>& allowed, std::string& key) {
    if(!x.race.empty()) { key="race"; return brief(x.race); }
    if(x.livelock) { key="livelock"; return "activity does not end"; }
    if(WIFEXITED(x.st)&&WEXITSTATUS(x.st)==52) { key="deadlock"; return x.why; }
    if(WIFSIGNALED(x.st)&&WTERMSIG(x.st)==SIGALRM) { key="hang"; return "does not terminate"; }
    if(WIFSIGNALED(x.st)) { key="crash"; return "killed by signal "+std::to_string(WTERMSIG(x.st)); }
    if(WEXITSTATUS(x.st)) { key="crash"; return "exits with "+std::to_string(WEXITSTATUS(x.st)); }
    if(!allowed.count(x.out)) { key="outcome"; return "an outcome which the model does not have:\n"+x.out+"one that it has:\n"+*allowed.begin(); }
    return "";
}
static bool judge(const Scen& sc, const X& x, const std::set<std::string>& allowed) {
    std::string key, d=diagnose(x,allowed,key); if(d.empty()) return true;
    std::vector<unsigned short> pre; for(auto& p: x.pts) pre.push_back(p.chosen);
    std::string d2, k2; for(int i=0;i<4 && d2.empty();i++) { X y=execute(sc,pre); d2=diagnose(y,allowed,k2); }
    if(d2.empty()) vh::error("a failure which does not repeat: "+d+" in "+sc.name());
    vh::violation(key,d,sc.name()+" |"+schedule(x)); return false;
}
static void explore(const Scen& sc, int bound) {
    g_case=sc.name(); vh::crumb(g_case);
    std::set<std::string> allowed=outcomes(sc), seen; int bad=0; unsigned long long n=0; size_t most=0;
    std::vector<std::vector<unsigned short>> todo(1);
    while(!todo.empty()) {
        std::vector<unsigned short> pre=todo.back(); todo.pop_back();
        X x=execute(sc,pre); n++; vh::count("schedules"); most=std::max(most,x.pts.size());
        if(!judge(sc,x,allowed)) { if(++bad>=2 || x.livelock) return; if(x.out.empty()) continue; }
        seen.insert(x.out);
        int cost=0; for(size_t k=0;k<x.pts.size() && k<pre.size();k++) if(x.pts[k].still && x.pts[k].chosen) cost++;
        for(size_t i=pre.size();i<x.pts.size();i++) {
            if(cost+(x.pts[i].still?1:0)>bound) continue;
            for(int a=1;a<x.pts[i].n;a++) { std::vector<unsigned short> p; for(size_t k=0;k<i;k++) p.push_back(x.pts[k].chosen); p.push_back(a); todo.push_back(p); }
        }
    }
    vh::count("scenarios"); if(seen.size()>1) vh::count("scenarios_with_several_outcomes"); vh::count("outcomes",seen.size()); vh::count("model_outcomes",allowed.size());
    for(auto& o: seen) vh::state(g_case+o);
    if(getenv("C22_STAT")) { fprintf(stderr,"%s bound %d: %llu schedules, %zu points, %zu outcomes of %zu\n",g_case.c_str(),bound,n,most,seen.size(),allowed.size()); if(*getenv("C22_STAT")=='2') for(auto& o: seen) fputs(o.c_str(),stderr); }
}
static Scen parsescen(const std::string& t) {
    Scen s; size_t a=t.find(" / "); auto sp=[](const std::string& x) { Prog p; std::istringstream S(x); std::string o; while(std::getline(S,o,',')) p.push_back(o); return p; };
    s.a=sp(t.substr(0,a)); s.b=sp(t.substr(a+3)); return s;
}
static std::vector<Prog> progs(const std::vector<std::string>& al, int n) { std::vector<Prog> r(1); for(size_t i=0;i<r.size();i++) if((int)r[i].size()<n) for(auto& o: al) { Prog p=r[i]; p.push_back(o); r.push_back(p); } return r; }
static void schedmain() {
    vh::caselimit=0; itimerval z; memset(&z,0,sizeof z); setitimer(ITIMER_PROF,&z,nullptr); setitimer(ITIMER_REAL,&z,nullptr);
    registrars(); Machine::registerElement<Probe>("Vector","probe");
    maketable();
    sched::fine=true;
    sched::shm=(sched::Shm*)mmap(0,sizeof(sched::Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    if(vh::replaying) {
        std::string t=vh::replay; size_t b=t.find(" |"); Scen sc=parsescen(t.substr(0,b)); std::vector<unsigned short> pre; if(b!=t.npos) { std::istringstream R(t.substr(b+2)); int k; while(R>>k) pre.push_back(k); }
        X x=execute(sc,pre); judge(sc,x,outcomes(sc)); return;
    }
    if(!vh::opts["only"].empty()) { explore(parsescen(vh::opts["only"]),atoi(vh::opts["bound"].c_str())); return; }
    int bound=atoi(vh::opts["bound"].c_str()), la=atoi(vh::opts["lena"].c_str()), lb=atoi(vh::opts["lenb"].c_str());
    std::vector<Scen> all;
    std::set<std::string> have;
    auto add=[&](const std::vector<Prog>& A, const std::vector<Prog>& B) { for(auto& a: A) for(auto& b: B) { Scen s{a,b}; if(std::count(a.begin(),a.end(),"X")+std::count(b.begin(),b.end(),"X")>1) continue; if(have.insert(s.name()).second) all.push_back(s); } };
    add(progs({"R","L2","F1","G"},la),progs({"R","L3","V5","N","O","X"},lb));
    std::stable_sort(all.begin(),all.end(),[](const Scen& x, const Scen& y){ return x.a.size()+x.b.size()<y.a.size()+y.b.size(); });
    unsigned long long u=0;
    int blong=vh::opts["boundlong"].empty()?bound:atoi(vh::opts["boundlong"].c_str());
    for(auto& s: all) if(vh::mine(u++)) explore(s,s.a.size()+s.b.size()>3?blong:bound);
    // longer ones of a single client, and with the other operations
    int ls=atoi(vh::opts["lens"].c_str());
    std::vector<Scen> more; for(auto& p: progs({"R","L2","V5","N","F1","F0","G","D"},ls)) more.push_back({p,{}});
    for(auto& p: progs({"D","P","K","O"},2)) more.push_back({p,{"R","L2"}});
    for(auto& s: more) if(have.insert(s.name()).second && vh::mine(u++)) explore(s,0);
    vh::sample("R,L2 / L3,X | 0 0 1 0 1");
}
