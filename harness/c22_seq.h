// part of c22.cpp: links, conversions, arrays, commands and sequences, without a controlled scheduler
#include <sys/stat.h>
static int capfd=-1, oldfd=-1; static std::string capfile;
static void capture_start() { fflush(stderr); if(capfile.empty()) capfile=vh::dir+"/stderr"; capfd=::open(capfile.c_str(),O_RDWR|O_CREAT|O_TRUNC,0644); oldfd=dup(2); dup2(capfd,2); }
static std::string capture_end() { fflush(stderr); dup2(oldfd,2); close(oldfd); std::string r; char b[4096]; lseek(capfd,0,SEEK_SET); ssize_t n; while((n=read(capfd,b,sizeof b))>0) r.append(b,n); close(capfd); return r; }
static const char* BEND="S: source; m: marker; d: drift, L=1; q: quadrupole, L=0.1, K=2, B2=3; m2: marker; l: LINE=(S,d,m,q,d,m,d,q,m2,q); USE: l;\n";
static std::string mtext() {
    return std::string("sim_type=\"MomentMatrix\"; IonEs=931.49432e6; IonEk=5e5; IonChargeStates=[0.138,0.142]; NCharge=[10,90]; BaryCenter0=[1,0.001,2,0.002,0.1,0.001,1]; BaryCenter1=[-1,0.002,1,-0.001,0.05,0,1];"
      "S0=[2,0,0,0,0,0,0, 0,1e-6,0,0,0,0,0, 0,0,3,0,0,0,0, 0,0,0,2e-6,0,0,0, 0,0,0,0,0.1,0,0, 0,0,0,0,0,1e-5,0, 0,0,0,0,0,0,0]; S1=S0; S: source, vector_variable=\"BaryCenter\", matrix_variable=\"S\";")+
      "m: marker; d: drift, L=1; q: quadrupole, L=0.1, K=2, B2=3; m2: marker; l: LINE=(S,d,m,q,d,m,d,q,m2,q); USE: l;\n";
}
struct SimRef { std::string name, text; std::unique_ptr<Machine> M; struct Ob : public Observer { std::unique_ptr<StateBase> s; void view(const ElementVoid*, const StateBase* x) { s.reset(x->clone()); } }; std::vector<Ob*> obs; // owned by the elements
    SimRef(const std::string& n, const std::string& t) :name(n),text(t) { GLPSParser P; std::unique_ptr<Config> C(P.parse_byte(t)); M.reset(new Machine(*C)); for(size_t i=0;i<M->size();i++) { obs.push_back(new Ob); (*M)[i]->set_observer(obs.back()); } }
    void run() { std::unique_ptr<StateBase> S(M->allocState()); M->propagate(S.get()); }
    std::vector<size_t> named(const std::string& n, bool type=false) { std::vector<size_t> r; for(size_t i=0;i<M->size();i++) if(type?n==(*M)[i]->type_name():n==(*M)[i]->name) r.push_back(i); return r; }
    // 0: no such parameter of this kind, 1: index out of range, 2: value
    int value(size_t el, const std::string& param, const std::vector<size_t>& idx, double& v, bool kindonly=false) {
        std::unique_ptr<StateBase> E; StateBase* s=obs[el]->s.get(); if(!s || kindonly) { E.reset(M->allocState()); s=E.get(); }
        for(unsigned k=0;;k++) { StateBase::ArrayInfo I; if(!s->getArray(k,I)) return 0; if(param!=I.name) continue;
            if(I.type!=StateBase::ArrayInfo::Double || I.ndim!=idx.size()) return 0;
            if(kindonly) return 1;
            size_t d[3]={0,0,0}; for(size_t i=0;i<idx.size();i++) { d[i]=idx[i]; if(idx[i]>=I.dim[i]) return 1; }
            v=*(double*)((char*)I.ptr+(idx.size()>0?d[0]*I.stride[0]:0)+(idx.size()>1?d[1]*I.stride[1]:0)); return 2; }
    }
};
static bool same(double a, double b) { return memcmp(&a,&b,sizeof a)==0 || (a!=a && b!=b); }
static bool digits(const std::string& s) { return !s.empty() && s.find_first_not_of("0123456789")==s.npos; }
// token "name", "name[i]" or "name[i,j]"; false: malformed
static bool token(const std::string& t, std::string& name, std::vector<std::string>& idx, size_t most) {
    size_t b=t.find('['); name=t.substr(0,b); idx.clear(); if(name.empty()) return false; if(b==t.npos) return true;
    if(t.back()!=']') return false; std::string in=t.substr(b+1,t.size()-b-2); size_t c=in.find(',');
    idx.push_back(in.substr(0,c)); if(c!=in.npos) idx.push_back(in.substr(c+1));
    for(auto& x: idx) if(!digits(x)) return false; return idx.size()<=most;
}
static bool num(const std::string& s, size_t& n) { errno=0; char* e; unsigned long long v=strtoull(s.c_str(),&e,10); n=v; return errno==0; }
static std::vector<std::string> words(const std::string& l) { std::vector<std::string> r; std::istringstream S(l); std::string w; while(S>>w) r.push_back(w); return r; }
// number of simulations asked for that have been completed
static unsigned long long settled() { pthread_mutex_lock(&cbs->m); unsigned long long n=cbs->q.size(); cbs->q.clear(); pthread_mutex_unlock(&cbs->m); cbs->done+=n; return cbs->done; }
static bool inchild=false; static std::string K; // the case
static void runsim(Rec& run) { unsigned long long b=settled(); run.bo()->val=1; run.process(); while(settled()==b) if(!cbs->ev.wait(30.0)) { if(inchild) _exit(6); vh::violation("run","the simulation asked for is never run, or its end never announced",K); vh::finish(); _exit(0); } }
static void bad(const std::string& k, const std::string& t) { vh::violation(k,t,K); }
static std::string shown(double d) { char b[40]; snprintf(b,sizeof b,"%.17g",d); return b; }

struct Lnk { std::string type, dtyp, link; };
struct Want { int ok=-1; /*-1 either*/ SimRef* s=nullptr; std::vector<size_t> el; std::string param; std::vector<size_t> idx; bool huge=false; };
static Want judge_link(const Lnk& l, std::map<std::string,SimRef*>& sims) {
    Want w; std::vector<std::string> t=words(l.link); std::string canon; for(auto& x: t) canon+=(canon.empty()?"":" ")+x;
    bool exact=canon==l.link; // otherwise stray blanks: refuse or resolve
    size_t need=l.dtyp=="FLAME Index"?2:l.dtyp=="FLAME Setting"||l.dtyp=="FLAME State"||l.dtyp.find("Orbit")!=l.dtyp.npos?3:1;
    auto no=[&]{ w.ok=0; return w; };
    if(t.size()!=need) return no();
    auto it=sims.find(t[0]); if(it==sims.end()) return no(); w.s=it->second;
    bool orbit=l.dtyp.find("Orbit")!=l.dtyp.npos;
    if(need>1) {
        std::string n; std::vector<std::string> i; if(!token(t[1],n,i,orbit?0:1)) return no();
        std::vector<size_t> e=w.s->named(n,orbit); if(e.empty()) return no();
        if(orbit) w.el=e; else { size_t k=0; if(!i.empty() && !num(i[0],k)) return no(); if(k>=e.size()) return no(); w.el={e[k]}; }
    }
    if(l.dtyp=="FLAME Setting") { w.param=t[2]; double v; bool has=false; try { has=(*w.s->M)[w.el[0]]->conf().tryGet<double>(t[2],v); } catch(std::exception&) {} if(!has) return no(); }
    else if(need==3) {
        std::vector<std::string> i; if(!token(t[2],w.param,i,2)) return no();
        for(auto& x: i) { size_t k; if(!num(x,k)) return no(); w.idx.push_back(k); }
        double v; if(w.s->value(w.el[0],w.param,w.idx,v,true)==0) return no();
    }
    w.ok=exact?1:-1; return w;
}
static std::vector<Lnk> alllinks() {
    std::vector<Lnk> r;
    std::vector<std::string> S={"vec","mom","mat","nosuch"};
    for(auto& d: std::vector<std::pair<std::string,std::string>>{{"bo","FLAME Simulate"},{"ai","FLAME Runtime"},{"longin","FLAME Run Count"},{"waveform","FLAME Last Message"}})
        for(std::string l: {"vec","mom","mat","nosuch",""," ","vec ","vec x"," vec","VEC","ve","vecc","vec[0]"}) r.push_back({d.first,d.second,l});
    std::vector<std::string> E; for(std::string n: {"S","m","m2","d","q","nosuch","marker","","M"}) for(std::string i: {"","[0]","[1]","[2]","[3]","[01]","[18446744073709551615]","[18446744073709551616]","[99999999999999999999999]","[]","[-1]","[x]","[1","1]","[0][0]","[0,0]","[0.5]"}) E.push_back(n+i);
    for(auto& s: S) for(auto& e: E) { r.push_back({"longin","FLAME Index",s+" "+e}); if(s=="vec") for(std::string b: {s+"  "+e," "+s+" "+e,s+" "+e+" ",s+"\t"+e,s+e,s+" "+e+" x",e}) r.push_back({"longin","FLAME Index",b}); }
    for(auto& s: S) for(auto& e: E) for(std::string p: {"L","K","B2","IonEk","nosuch","type","name","initial","L[0]",""}) for(std::string t: {"ao","ai"}) { if(t=="ai" && !vh::thorough() && e.find('[')!=e.npos && e.find("[1]")==e.npos) continue; r.push_back({t,"FLAME Setting",s+" "+e+" "+p}); }
    std::vector<std::string> P; for(std::string n: {"state","pos","next_elem","moment0","moment0_env","moment0_rms","IonEk","ref_IonEk","IonZ","phis","ref_phis","moment1_env","nosuch",""}) for(std::string i: {"","[0]","[1]","[5]","[6]","[7]","[0,0]","[1,1]","[6,1]","[5,6]","[1,2]","[0,18446744073709551615]","[2305843009213693952]","[18446744073709551616]","[0,0,0]","[]","[x]","[0,]","[,0]","[0","[-1]"}) P.push_back(n+i);
    for(auto& s: S) for(auto& e: E) { bool few=e.find('[')!=e.npos && e.find("[1]")==e.npos; for(auto& p: P) { if(few && p!="pos" && p!="state[0]" && p!="IonEk[1]") continue; if(s=="nosuch" && p!="pos") continue; r.push_back({"ai","FLAME State",s+" "+e+" "+p}); } }
    for(auto& s: S) for(std::string e: {"marker","drift","quadrupole","source","nosuch","m","marker[0]",""}) for(auto& p: P) { r.push_back({"waveform","FLAME State Orbit",s+" "+e+" "+p}); r.push_back({"waveform","FLAME Index Orbit",s+" "+e+" "+p}); }
    return r;
}
static void start(std::map<std::string,SimRef*>& sims, std::vector<std::unique_ptr<SimRef>>& own) {
    cbs=new Callbacks;
    auto add=[&](const std::string& n, const std::string& t) { std::string f=vh::dir+"/"+n+".lat"; spit(f,t); shellcall("flamePrepare",{n,f}); own.emplace_back(new SimRef(n,t)); sims[n]=own.back().get(); };
    add("vec",std::string("sim_type=\"Vector\"; initial=[1,0.001,2,0.002,3,0.003]; IonEk=7;")+BEND);
    add("mom",mtext());
    std::string id; for(int i=0;i<36;i++) id+=(i?",":"")+std::string(i%7==0?"1":"0");
    add("mat","sim_type=\"TransferMatrix\"; initial=["+id+"];"+BEND);
}
static void runall(std::map<std::string,SimRef*>& sims) { for(auto& s: sims) { Rec run("bo","run","FLAME Simulate",s.first); if(!run.init() || !run.p->dpvt) { bad("run","a run command is refused"); continue; } runsim(run); s.second->run(); } }
static void links() {
    std::map<std::string,SimRef*> sims; std::vector<std::unique_ptr<SimRef>> own; start(sims,own);
    std::vector<Lnk> L=alllinks(); std::vector<std::unique_ptr<Rec>> R; std::vector<Want> W; std::vector<Lnk> U;
    unsigned long long u=0;
    for(auto& l: L) {
        std::string id="link "+l.type+" "+l.dtyp+" @"+l.link; bool mine=vh::replaying?vh::replay==id:vh::mine(u++); if(!mine) continue;
        K=id; vh::crumb(K); vh::count("links");
        std::unique_ptr<Rec> r(new Rec(l.type,"rec:x",l.dtyp,l.link)); if(!r->d) { bad("device","no device support for "+l.type+" \""+l.dtyp+"\""); continue; }
        if(l.type=="waveform") { r->wf()->ftvl=l.dtyp=="FLAME Last Message"?menuFtypeCHAR:menuFtypeDOUBLE; r->wf()->nelm=l.dtyp=="FLAME Last Message"?50:5; }
        Want w=judge_link(l,sims);
        capture_start(); r->init(l.type!="ao" && l.type!="bo"); std::string msg=capture_end();
        bool up=r->p->dpvt!=nullptr;
        if(w.ok==0) { vh::count("refused"); if(up) bad("link","a link that leads nowhere is accepted"); else if(msg.find("rec:x")==msg.npos) bad("message","a bad link is not reported"); else if(r->intr) bad("scan","a record with a bad link is put on a scan list"); }
        else if(w.ok==1) { vh::count("resolved"); if(!up) bad("link","a good link is refused: "+msg); else if(!msg.empty()) bad("message","a good link is complained about: "+msg); }
        if(w.ok<0 && up==false && msg.empty()) bad("message","a refused link is not reported");
        U.push_back(l); W.push_back(w); R.push_back(std::move(r));
    }
    for(int pass=0;pass<2;pass++) {
        if(pass) runall(sims);
        for(size_t i=0;i<R.size();i++) {
            Rec& r=*R[i]; Want& w=W[i]; K="link "+U[i].type+" "+U[i].dtyp+" @"+U[i].link; vh::crumb(K);
            if(!r.d || U[i].type=="bo" || U[i].type=="ao") continue;
            bool up=r.p->dpvt!=nullptr;
            std::string dt=U[i].dtyp; vh::count("readings");
            if(!up) { // a record without device does nothing
                if(dt=="FLAME Run Count") continue;
                unsigned n=U[i].type=="waveform"?r.wf()->nord:0; r.process(); if(r.rc!=0 && r.rc!=2) {} if(U[i].type=="waveform" && r.wf()->nord!=n) bad("inert","a record with a bad link changes"); continue; }
            r.process();
            bool inv=r.p->sevr==INVALID_ALARM;
            if(dt=="FLAME Index") { if(inv || r.li()->val!=(int)w.el[0]) bad("index","the index of the element is "+std::to_string(r.li()->val)+" not "+std::to_string(w.el[0])); }
            else if(dt=="FLAME Setting") { double v=(*w.s->M)[w.el[0]]->conf().get<double>(w.param); if(inv || r.ai()->val!=v) bad("setting","the setting reads "+shown(r.ai()->val)+" not "+shown(v)); }
            else if(dt=="FLAME State") {
                double v=0; int k=pass?w.s->value(w.el[0],w.param,w.idx,v):1;
                if(k!=2) { if(!inv) bad("invalid",pass?"an element out of range reads as valid":"a reading before any simulation is valid"); }
                else if(inv || !same(r.ai()->val,v)) bad("reading","reads "+std::string(inv?"invalid ":"")+shown(r.ai()->val)+" not "+shown(v));
                else vh::count("distinct_nontrivial");
            } else if(dt=="FLAME State Orbit") {
                bool all=pass; std::vector<double> v(w.el.size()); for(size_t j=0;j<w.el.size()&&all;j++) all=w.s->value(w.el[j],w.param,w.idx,v[j])==2;
                if(inv==all) bad("orbit",all?"a good orbit is invalid":"an orbit without values is valid");
                if(all) { if(r.wf()->nord!=w.el.size()) bad("orbit","the orbit has "+std::to_string(r.wf()->nord)+" points, not "+std::to_string(w.el.size())); else for(size_t j=0;j<v.size();j++) if(!same(((double*)r.wf()->bptr)[j],v[j])) { bad("orbit","point "+std::to_string(j)+" is "+shown(((double*)r.wf()->bptr)[j])+" not "+shown(v[j])); break; } vh::count("distinct_nontrivial"); }
            } else if(dt=="FLAME Index Orbit") {
                if(inv || r.wf()->nord!=w.el.size()) bad("orbit","wrong number of indices"); else for(size_t j=0;j<w.el.size();j++) if(((double*)r.wf()->bptr)[j]!=w.el[j]) { bad("orbit","wrong index"); break; }
            } else if(dt=="FLAME Runtime") { if(inv || (pass?!(r.ai()->val>0):r.ai()->val>=0)) bad("runtime","the execution time is "+shown(r.ai()->val)); }
        }
    }
    for(size_t i=atexits.size();i--;) atexits[i].first(atexits[i].second);
}
static double conv(double v, double aslo, double aoff, int linr, double eslo, double eoff) { if(aslo!=0) v*=aslo; v+=aoff; if(linr && eslo!=0) v=v*eslo+eoff; return v; }
template<typename R> static void setconv(R* r, const double* c) { r->aslo=c[0]; r->aoff=c[1]; r->linr=(int)c[2]; r->eslo=c[3]; r->eoff=c[4]; }
static void conversions() {
    std::map<std::string,SimRef*> sims; std::vector<std::unique_ptr<SimRef>> own; start(sims,own);
    unsigned long long u=0;
    Rec run("bo","run","FLAME Simulate","vec"); run.init();
    double cur=1;
    for(double aslo: {1.0,0.0,2.0,-0.5}) for(double aoff: {0.0,3.0}) for(double linr: {0.0,1.0,2.0}) for(double eslo: {1.0,0.0,4.0}) for(double eoff: {0.0,-7.0}) {
        double c[5]={aslo,aoff,linr,eslo,eoff};
        K="conv "+shown(aslo)+" "+shown(aoff)+" "+shown(linr)+" "+shown(eslo)+" "+shown(eoff); if(vh::replaying?vh::replay!=K:!vh::mine(u++)) continue; vh::crumb(K); vh::count("conversions");
        Rec sp("ao","sp","FLAME Setting","vec d[1] L"), rb("ai","rb","FLAME Setting","vec d[1] L"), raw("ai","raw","FLAME Setting","vec d[1] L"), st("ai","st","FLAME State","vec m2 pos"), st0("ai","st0","FLAME State","vec m2 pos"), tm("ai","tm","FLAME Runtime","vec"), tm0("ai","tm0","FLAME Runtime","vec");
        setconv(sp.ao(),c); setconv(rb.ai(),c); setconv(st.ai(),c); setconv(tm.ai(),c);
        sp.init(); rb.init(); raw.init(); st.init(); st0.init(); tm.init(); tm0.init(); tm.p->tse=epicsTimeEventDeviceTime; 
        auto close=[](double a, double b) { return fabs(a-b)<=1e-12*(fabs(a)+fabs(b)+20); };
        for(Rec* r: {&sp,&rb,&raw,&st,&st0,&tm,&tm0}) if(!r->p->dpvt) bad("link","a good link is refused");
        double w=conv(cur,aslo,aoff,linr,eslo,eoff);
        if(!close(sp.ao()->val,w) || sp.p->udf || sp.p->sevr) bad("init","the initial value is "+shown(sp.ao()->val)+" not "+shown(w));
        for(double v: {0.0,1.0,2.5,1e-3,40.0}) {
            sp.ao()->val=conv(v,aslo,aoff,linr,eslo,eoff); sp.process(); rb.process(); raw.process(); cur=v;
            if(sp.rc || sp.p->sevr || rb.p->sevr) bad("set","setting "+shown(v)+" fails");
            if(!close(rb.ai()->val,sp.ao()->val)) bad("readback","set "+shown(sp.ao()->val)+" but reads back "+shown(rb.ai()->val));
            if(!close(raw.ai()->val,v)) bad("value","set "+shown(v)+" but the element has "+shown(raw.ai()->val));
            runsim(run); st.process(); st0.process(); tm.process(); tm0.process();
            if(st.p->sevr || st0.p->sevr || !close(st.ai()->val,conv(st0.ai()->val,aslo,aoff,linr,eslo,eoff)) || !close(st0.ai()->val,2+v+0.2)) bad("reading","reads "+shown(st.ai()->val)+" and "+shown(st0.ai()->val)+" after setting "+shown(v));
            if(!(tm0.ai()->val>0) || !close(tm.ai()->val,conv(tm0.ai()->val,aslo,aoff,linr,eslo,eoff)) || tm.p->time.secPastEpoch<1000 || tm.p->time.secPastEpoch>ticks) bad("runtime","execution time "+shown(tm.ai()->val)+" and "+shown(tm0.ai()->val));
            cur=raw.ai()->val;
            vh::count("readings",6);
        }
    }
    for(size_t i=atexits.size();i--;) atexits[i].first(atexits[i].second);
}
static void arrays() {
    std::map<std::string,SimRef*> sims; std::vector<std::unique_ptr<SimRef>> own; start(sims,own);
    spit(LATFILE,LAT); shellcall("flamePrepare",{"sim",LATFILE});
    Rec run("bo","run","FLAME Simulate","sim"), fail("ao","fail","FLAME Setting","sim p fail"), vrun("bo","run","FLAME Simulate","vec"); run.init(); fail.init(); vrun.init();
    unsigned long long u=0;
    for(int what=0;what<3;what++) for(int ft=0;ft<10;ft++) for(int n=1;n<=(what==2?40:6);n++) {
        K="array "+std::to_string(what)+" "+std::to_string(ft)+" "+std::to_string(n); if(vh::replaying?vh::replay!=K:!vh::mine(u++)) continue; vh::crumb(K); vh::count("arrays");
        Rec r("waveform","rec:x",what==0?"FLAME State Orbit":what==1?"FLAME Index Orbit":"FLAME Last Message",what==2?"sim":"vec drift pos"); r.wf()->ftvl=ft; r.wf()->nelm=n;
        capture_start(); r.init(); std::string msg=capture_end();
        bool good=ft==(what==2?menuFtypeCHAR:menuFtypeDOUBLE);
        if(good && !r.p->dpvt) { bad("init","a good array is refused"); continue; }
        if(what<2 && !good && (r.p->dpvt || msg.find("rec:x")==msg.npos)) bad("type","an array of a type that cannot hold the values is not reported");
        std::string before((char*)r.wf()->bptr,n*r.elsize());
        std::string wantmsg;
        int v=n%4; if(what==2) { for(int k: {(v+1)%4,v}) { fail.ao()->val=k; fail.process(); runsim(run); } } else runsim(vrun);
        r.process();
        if(!good) { if(what<2 && std::string((char*)r.wf()->bptr,n*r.elsize())!=before) bad("inert","an array without device is written"); continue; }
        if(what<2) {
            const double pos[]={1,2.1,3.1}, ix[]={1,4,6}; size_t k=std::min(n,3);
            if(r.wf()->nord!=k) bad("size",std::to_string(r.wf()->nord)+" points, not "+std::to_string(k));
            else for(size_t j=0;j<k;j++) if(fabs(((double*)r.wf()->bptr)[j]-(what?ix:pos)[j])>1e-12) { bad("value","wrong value"); break; }
            if((r.p->sevr==INVALID_ALARM)!=(n<3)) bad("invalid",n<3?"an incomplete orbit is valid":"a complete orbit is invalid");
        } else if(v) {
            std::string m(std::to_string(v)+" is the failure"); m.resize(std::min(m.size(),(size_t)n)); if(r.wf()->nord!=m.size() || std::string((char*)r.wf()->bptr,r.wf()->nord)!=m) bad("message","the message is '"+std::string((char*)r.wf()->bptr,r.wf()->nord)+"'");
        }
    }
    for(size_t i=atexits.size();i--;) atexits[i].first(atexits[i].second);
}
// settings of several elements, in every order
static void settings() {
    std::map<std::string,SimRef*> sims; std::vector<std::unique_ptr<SimRef>> own; start(sims,own);
    struct S { std::string sim, el; double v; std::string par; size_t ix; };
    std::vector<S> al={{"mom","d",0.5,"L",1},{"mom","d[2]",2,"L",6},{"mom","q",-5,"B2",3},{"mom","q[2]",7,"B2",9},{"mom","q[1]",0.3,"L",7},{"mom","S",6e5,"IonEk",0},{"vec","q[1]",4,"K",7},{"vec","d[1]",3,"L",4}};
    std::vector<std::unique_ptr<Rec>> rd; std::vector<std::tuple<SimRef*,size_t,std::string,std::vector<size_t>>> wt;
    auto add=[&](const std::string& s, const std::string& el, size_t ix, const std::string& p, std::vector<size_t> idx) { std::string l=s+" "+el+" "+p; if(idx.size()) { l+="["; for(size_t i=0;i<idx.size();i++) l+=(i?",":"")+std::to_string(idx[i]); l+="]"; } rd.emplace_back(new Rec("ai","rd","FLAME State",l)); rd.back()->init(); wt.push_back(std::make_tuple(sims[s],ix,p,idx)); };
    for(std::string s: {"mom","vec"}) for(auto& e: std::vector<std::pair<std::string,size_t>>{{"S",0},{"d",1},{"m",2},{"q",3},{"d[1]",4},{"m[1]",5},{"d[2]",6},{"q[1]",7},{"m2",8},{"q[2]",9}}) {
        add(s,e.first,e.second,"pos",{});
        if(s=="mom") { for(size_t i=0;i<7;i++) for(size_t j=0;j<2;j++) add(s,e.first,e.second,"moment0",{i,j}); add(s,e.first,e.second,"IonEk",{1}); add(s,e.first,e.second,"ref_IonEk",{}); for(size_t i=0;i<6;i++) add(s,e.first,e.second,"moment0_rms",{i}); }
        else for(size_t i=0;i<6;i++) add(s,e.first,e.second,"state",{i});
    }
    for(auto& r: rd) if(!r->p->dpvt) vh::error("reading "+r->link);
    std::vector<std::unique_ptr<Rec>> sp; for(auto& a: al) { sp.emplace_back(new Rec("ao","sp","FLAME Setting",a.sim+" "+a.el+" "+a.par)); sp.back()->init(); if(!sp.back()->p->dpvt) vh::error("setting "+sp.back()->link); }
    std::vector<double> orig; for(auto& s: sp) orig.push_back(s->ao()->val);
    Rec rm("bo","rm","FLAME Simulate","mom"), rv("bo","rv","FLAME Simulate","vec"); rm.init(); rv.init();
    unsigned long long u=0; int n=al.size(), depth=vh::thorough()?4:3;
    std::vector<std::vector<int>> seqs(1); for(size_t i=0;i<seqs.size();i++) if((int)seqs[i].size()<depth) for(int a=0;a<n;a++) { auto s=seqs[i]; s.push_back(a); seqs.push_back(s); }
    auto ref=[&](const S& a, double v) { Machine& M=*sims[a.sim]->M; Config c(M[a.ix]->conf()); c.set<double>(a.par,v); M.reconfigure(a.ix,c); };
    for(auto& s: seqs) {
        K="settings"; for(int a: s) K+=" "+std::to_string(a); if(vh::replaying?vh::replay!=K:!vh::mine(u++)) continue; vh::crumb(K); vh::count("histories");
        for(size_t k=0;k<s.size();k++) { const S& a=al[s[k]]; double v=a.v*(1+0.5*k); sp[s[k]]->ao()->val=v; sp[s[k]]->process(); if(sp[s[k]]->rc || sp[s[k]]->p->sevr) bad("set","setting "+sp[s[k]]->link+" fails"); ref(a,v); }
        runsim(rm); runsim(rv); sims["mom"]->run(); sims["vec"]->run();
        for(size_t i=0;i<rd.size();i++) { double v=0; if(std::get<0>(wt[i])->value(std::get<1>(wt[i]),std::get<2>(wt[i]),std::get<3>(wt[i]),v)!=2) vh::error("no value"); rd[i]->process(); vh::count("readings"); if(rd[i]->p->sevr || !same(rd[i]->ai()->val,v)) { bad("reading",rd[i]->link+" reads "+shown(rd[i]->ai()->val)+" not "+shown(v)); break; } }
        for(int a: s) { sp[a]->ao()->val=orig[a]; sp[a]->process(); ref(al[a],orig[a]); }
    }
    for(size_t i=atexits.size();i--;) atexits[i].first(atexits[i].second);
}
// the commands of the shell
static std::string slurpf(const std::string& f) { std::ifstream F(f.c_str(),std::ios::binary); std::stringstream S; S<<F.rdbuf(); return S.str(); }
static void commands() {
    struct C { std::string f; std::vector<std::string> a; std::vector<bool> null; int kind; /*0 good prepare,1 bad,2 needs sim*/ };
    std::string d=vh::dir; spit(d+"/v.lat",std::string("sim_type=\"Vector\"; initial=[1,0,0,0,0,0];")+BEND); spit(d+"/m.lat",mtext()); spit(d+"/syntax.lat","sim_type=\"Vector\"; S: source l: LINE=(S);\n"); spit(d+"/badtype.lat","sim_type=\"Vector\"; S: nosuch; l: LINE=(S); USE: l;\n"); spit(d+"/nosim.lat","S: source; l: LINE=(S); USE: l;\n");
    std::vector<C> al={{"flamePrepare",{"a",d+"/v.lat"},{},0},{"flamePrepare",{"b",d+"/m.lat"},{},0},{"flamePrepare",{"a",d+"/m.lat"},{},0},{"flamePrepare",{"a",d+"/none.lat"},{},1},{"flamePrepare",{"a",d+"/syntax.lat"},{},1},{"flamePrepare",{"b",d+"/badtype.lat"},{},1},{"flamePrepare",{"a",d+"/nosim.lat"},{},1},
        {"flamePrepare",{"",""},{true,true},3},{"flameDebug",{"a","3"},{},2},{"flameDebug",{"b","-1"},{},2},{"flameShow",{"a"},{},2},{"flameShowConfig",{"b"},{},2},{"flameShow",{""},{true},3},{"flameShowConfig",{""},{true},3},{"flameDebug",{"","1"},{true},3}};
    std::map<std::string,std::string> cfg, shw; for(std::string f: {"v","m"}) { GLPSParser P; std::unique_ptr<Config> C(P.parse_file((d+"/"+f+".lat").c_str())); Machine M(*C); std::ostringstream a,b; GLPSPrint(a,M.conf()); b<<M<<"\n"; cfg[f]=a.str(); shw[f]=b.str(); }
    unsigned long long u=0; int n=al.size(), depth=vh::thorough()?4:3; std::vector<std::vector<int>> seqs(1); for(size_t i=0;i<seqs.size();i++) if((int)seqs[i].size()<depth) for(int a=0;a<n;a++) { auto s=seqs[i]; s.push_back(a); seqs.push_back(s); }
    for(auto& s: seqs) {
        K="commands"; for(int a: s) K+=" "+std::to_string(a); if(vh::replaying?vh::replay!=K:!vh::mine(u++)) continue; vh::crumb(K); vh::count("histories");
        pid_t p=fork(); if(p<0) vh::error("fork");
        if(!p) {
            alarm(60); inchild=true; int so=::open((d+"/stdout").c_str(),O_RDWR|O_CREAT|O_TRUNC,0644); dup2(so,1);
            cbs=new Callbacks; std::map<std::string,std::string> have; std::string err;
            for(int i: s) {
                C& c=al[i]; if(ftruncate(so,0)) {} lseek(so,0,SEEK_SET);
                capture_start(); const char* e=shellcall(c.f,c.a,c.null); std::cout.flush(); std::string msg=capture_end(); std::string out=slurpf(d+"/stdout");
                if(e) { err=std::string("command ")+c.f+": "+e; break; }
                bool fails=c.kind==1 || (c.kind==0 && have.count(c.a[0])) || (c.kind==2 && !have.count(c.a[0]));
                if(fails && msg.empty()) err=c.f+" "+c.a[0]+": failure is not reported"; if(!fails && !msg.empty()) err=c.f+" "+c.a[0]+": reports "+msg;
                if(c.kind==0 && !fails) have[c.a[0]]=c.a[1]==d+"/v.lat"?"v":"m";
                if(!fails && c.kind==2 && c.f!="flameDebug" && out!=(c.f=="flameShow"?shw:cfg)[have[c.a[0]]]) err=c.f+" prints something else";
                if(!err.empty()) break;
            }
            for(auto& h: have) { Rec r("bo","run","FLAME Simulate",h.first); r.init(); if(!r.p->dpvt) err="simulation "+h.first+" is not there"; else runsim(r); }
            for(std::string x: {"a","b"}) if(!have.count(x)) { capture_start(); Rec r("bo","run","FLAME Simulate",x); r.init(); capture_end(); if(r.p->dpvt) err="a simulation whose preparation failed is there"; }
            for(size_t i=atexits.size();i--;) atexits[i].first(atexits[i].second);
            if(!err.empty()) { fprintf(stderr,"%s\n",err.c_str()); spit(d+"/err",err); _exit(5); }
            _exit(0);
        }
        int st; while(waitpid(p,&st,0)!=p) {}
        if(WIFEXITED(st)&&WEXITSTATUS(st)==5) bad("command",slurpf(d+"/err")); else if(WIFEXITED(st)&&WEXITSTATUS(st)==6) { bad("run","the simulation asked for is never run, or its end never announced"); return; } else if(WIFSIGNALED(st)&&WTERMSIG(st)==SIGALRM) { bad("hang","commands do not end"); return; } else if(st) bad("crash","commands end with status "+std::to_string(st));
    }
}
static void seqmain() {
    vh::caselimit=60; vh::arm();
    registrars(); Machine::registerElement<Probe>("Vector","probe");
    // each family in a process of its own, as its simulations end with it
    struct F { const char* n; void (*f)(); }; F fs[]={{"commands",&commands},{"array",&arrays},{"conv",&conversions},{"settings",&settings},{"link",&links}};
    for(auto& f: fs) if(vh::opts["family"]==f.n) f.f();
    vh::sample("link ai FLAME State @mom q[1] moment0[0,1]");
}
