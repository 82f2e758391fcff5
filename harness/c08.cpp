// C08: every sequence of reconfigurations (accepted and refused) and propagations up to a depth,
// compared with a machine built from the configuration that is then current.
#include "fl.h"
using namespace fl;

static std::vector<Beam> B;
struct Var { E e; bool nameless=false; };

struct Res { bool ok; Snap s; std::string err; };
static StateBase* start(Machine& M, const std::string& sim, int b) {
    if(sim=="MomentMatrix") return beam(B[b]);
    Config c; c.set<V>("initial", b? V{-1,.5,2,1,.25,3} : V{1,2,3,4,5,6});
    return M.allocState(c);
}
static Res run(Machine& M, const std::string& sim, int b) {
    std::unique_ptr<StateBase> S(start(M,sim,b));
    Res r;
    try { M.propagate(S.get(),0,INT_MAX); r.ok=true; r.s=snap(S.get()); }
    catch(std::exception& e) { r.ok=false; r.err=what(e); }
    return r;
}
static std::string cmp(const Res& a, const Res& b) {
    if(a.ok!=b.ok) return a.ok? "succeeds where a rebuilt machine fails with "+b.err : "fails with "+a.err+" where a rebuilt machine succeeds";
    if(!a.ok) return "";
    return diff(a.s,b.s,1e-11,1e-13);
}
static std::string conftext(const Config& c) { Config d(c); d.flatten(); std::ostringstream o; o.precision(17); o<<d; return o.str(); }
static std::string shown(const ElementVoid* e) { std::ostringstream o; o.precision(17); e->show(o,2); return o.str(); }

static E named(E e, const char* n) { e.name=n; return e; }

static void explore(const std::string& sim, const Kind& k, const std::vector<E>& vars, const std::vector<E>& bad, int depth, bool sub) {
    // ops: 0..nv-1 reconfigure, nv..nv+nb-1 refused reconfigure, then 2 propagations
    int nv=vars.size(), nb=bad.size(), nops=nv+nb+2;
    E d0{"drift","d0",Ps{P("L",0.3)}}, d1{"drift","d1",Ps{P("L",0.15)}};
    auto mk=[&](const E& e){ return machine(sim,std::vector<E>{d0,e,d1}); };
    // oracle per variant
    std::vector<Res> want[2]; std::vector<std::string> wconf, wshow;
    for(auto& v: vars) {
        for(int b=0;b<2;b++) { vh::crumb(sim+"/"+k.id+" fresh "+v.str()); std::unique_ptr<Machine> M(mk(v)); want[b].push_back(run(*M,sim,b)); if(!b) { wconf.push_back(conftext((*M)[1]->conf())); wshow.push_back(shown((*M)[1])); } }
        vh::count("variants"); vh::state(sim+v.str());
    }
    for(int d=1; d<=depth; d++) {
        std::vector<int> ix(d,0);
        while(true) {
            for(int init=0; init<(d<depth?2:1); init++) { // initial configuration: base, or the second one
                std::string seq="start="+std::to_string(init)+" ";
                for(int i=0;i<d;i++) seq+= ix[i]<nv? "reconfigure("+std::to_string(ix[i])+") " : ix[i]<nv+nb? "refused("+std::to_string(ix[i]-nv)+") " : ix[i]==nv+nb? "propA " : "propB ";
                std::string kase=sim+"/"+k.id+" "+seq;
                vh::crumb(kase);
                int cur=std::min(init,nv-1);
                std::unique_ptr<Machine> M(mk(vars[cur]));
                Count* ob=new Count; (*M)[1]->set_observer(ob);
                ElementVoid* before[3]={(*M)[0],(*M)[1],(*M)[2]};
                bool bad_accept=false;
                for(int i=0;i<d;i++) {
                    if(ix[i]<nv) {
                        try { M->reconfigure(1,vars[ix[i]].conf()); cur=ix[i]; }
                        catch(std::exception& e) { vh::violation("refuse","reconfiguring to an acceptable configuration is refused: "+what(e)+" "+vars[ix[i]].str(),kase); }
                    } else if(ix[i]<nv+nb) {
                        const E& be=bad[ix[i]-nv];
                        Config c=be.conf();
                        // pseudo entries: no name, no type
                        if(be.name=="") { Config n; put(n,be.ps); if(be.type!="") n.set<std::string>("type",be.type); c=n; }
                        try { M->reconfigure(1,c); bad_accept=true; } catch(std::exception&) { vh::count("refused"); }
                        if(bad_accept) { vh::violation("accept","an invalid configuration is accepted: "+be.str(),kase); break; }
                    } else run(*M,sim,ix[i]-nv-nb);
                }
                if(bad_accept) continue;
                vh::count("evaluations"); vh::count("transitions",d+2); vh::count("distinct_nontrivial");
                std::string w;
                if(conftext((*M)[1]->conf())!=wconf[cur]) w+="reported configuration differs: "+conftext((*M)[1]->conf())+" and "+wconf[cur]+"; ";
                if(shown((*M)[1])!=wshow[cur]) w+="element shows "+shown((*M)[1])+" and "+wshow[cur]+"; ";
                if((*M)[1]->name!=vars[cur].name || (*M)[1]->index!=1 || std::string((*M)[1]->type_name())!=vars[cur].type) w+="name, index or type wrong; ";
                for(int i=0;i<3;i++) if((*M)[i]!=before[i]) w+="element object replaced; ";
                if((*M)[1]->observer()!=ob) w+="observer lost; ";
                int n0=ob->n;
                for(int b=0;b<2;b++) {
                    Res r=run(*M,sim,b);
                    std::string df=cmp(r,want[b][cur]);
                    if(!df.empty()) w+=std::string("beam ")+(b?"B":"A")+": "+df+"; ";
                    if(want[b][cur].ok) { if(ob->n!=n0+1) w+="observer not called once; "; }
                    n0=ob->n;
                }
                if(!w.empty()) vh::violation("reconfigure",w,kase+" | now "+vars[cur].str());
            }
            int q=d-1; while(q>=0 && ++ix[q]==nops) ix[q--]=0;
            if(q<0) break;
        }
    }
}

// a reconfigured cavity holds its data like a newly built one: the files may disappear afterwards
static void vanish(const std::vector<E>& vars) {
    for(size_t a=0;a<vars.size();a++) for(size_t b=0;b<vars.size();b++) for(int used=0; used<2; used++) {
        std::string kase="vanish "+vars[a].str()+" -> "+vars[b].str()+(used?" used":"");
        vh::crumb(kase);
        std::string d=vh::dir+"/data";
        if(system(("rm -rf '"+d+"' && cp -r '"+datadir()+"' '"+d+"'").c_str())) vh::error("cp");
        E x=vars[a], y=vars[b]; x.ps=with(x.ps,Ps{P("Eng_Data_Dir",d)}); y.ps=with(y.ps,Ps{P("Eng_Data_Dir",d)});
        std::unique_ptr<Machine> M(machine("MomentMatrix",{x})), F(machine("MomentMatrix",{y}));
        if(used) run(*M,"MomentMatrix",0);
        M->reconfigure(0,y.conf());
        if(system(("rm -rf '"+d+"'").c_str())) vh::error("rm");
        std::string w=cmp(run(*M,"MomentMatrix",0),run(*F,"MomentMatrix",0));
        vh::count("evaluations"); vh::count("vanish"); vh::count("distinct_nontrivial");
        if(!w.empty()) vh::violation("vanish",w,kase);
    }
}

// construction of machines in which element k is refused: error, nothing leaked
static void ctors(const std::string& sim, const std::vector<E>& good, const std::vector<E>& bad) {
    auto build=[&](const Config& c){ try { std::unique_ptr<Machine> M(new Machine(c)); return true; } catch(std::exception&) { return false; } };
    for(auto& g: good) for(auto& b: bad) for(int pos=0;pos<3;pos++) {
        Config::vector_t l;
        for(int i=0;i<3;i++) {
            if(i==pos) { Config c; if(b.name!="") c=b.conf(); else { put(c,b.ps); if(b.type!="") c.set<std::string>("type",b.type); } l.push_back(c); }
            else l.push_back(named(g,i==0?"a":"c").conf());
        }
        Config c; c.set<std::string>("sim_type",sim); c.set<Config::vector_t>("elements",l);
        std::string kase="ctor "+sim+" good="+g.str()+" bad="+b.str()+" at "+std::to_string(pos);
        vh::crumb(kase);
        bool ok=false;
        long leak=vh::leaks([&]{ ok=build(c); });
        vh::count("evaluations"); vh::count("constructions");
        if(ok) vh::violation("accept","a machine with an invalid element is accepted",kase);
        if(leak) vh::violation("leak","a refused construction leaks "+std::to_string(leak)+" blocks",kase);
        // and reconfiguration
        std::vector<E> es={named(g,"a"),named(g,"b"),named(g,"c")};
        std::unique_ptr<Machine> M(machine(sim,es));
        bool rok=false;
        leak=vh::leaks([&]{ try { M->reconfigure(pos,l[pos]); rok=true; } catch(std::exception&) { } });
        if(leak) vh::violation("leak","a refused reconfiguration leaks "+std::to_string(leak)+" blocks",kase);
    }
    // an index beyond the end is refused
    for(auto& g: good) for(size_t idx: {(size_t)2,(size_t)3,(size_t)1000,(size_t)-1}) {
        std::string kase="ctor "+sim+" index "+std::to_string(idx)+" "+g.str(); vh::crumb(kase);
        std::unique_ptr<Machine> M(machine(sim,{named(g,"a"),named(g,"b")}));
        bool ok=true; try { M->reconfigure(idx,named(g,"c").conf()); } catch(std::exception&) { ok=false; }
        if(ok) vh::violation("accept","reconfiguring an element beyond the end is accepted",kase);
        if(M->size()!=2 || M->find("c") || M->find("a")!=(*M)[0] || M->find("b")!=(*M)[1]) vh::violation("accept","a refused index changed the machine",kase);
        vh::count("evaluations");
    }
    // accepted ones leak nothing either
    for(auto& g: good) {
        Config c=mconf(sim,{named(g,"a"),named(g,"b")});
        std::string kase="ctor "+sim+" "+g.str(); vh::crumb(kase);
        long leak=vh::leaks([&]{ std::unique_ptr<Machine> M(new Machine(c)); M->reconfigure(0,named(g,"a").conf()); });
        if(leak) vh::violation("leak","construction and reconfiguration leak "+std::to_string(leak)+" blocks",kase);
        vh::count("evaluations"); vh::count("constructions");
    }
}

int main(int argc, char** argv) {
    vh::init(argc,argv);
    registerMoment(); registerLinear();
    B.push_back(beams()[0]); B.push_back(beams()[10]);
    bool leakmode=vh::opts.count("leak");
    if(leakmode) vh::leak_init();
    unsigned long long item=0;
    for(int s=0;s<3;s++) {
        const char* sims[]={"MomentMatrix","Vector","TransferMatrix"};
        std::string sim=sims[s];
        std::vector<Kind> K = s==0? kinds() : lkinds(s==1);
        std::vector<E> allgood, allbad;
        for(auto& k: K) {
            bool rf=k.base.type=="rfcavity";
            std::vector<E> vars; vars.push_back(k.base);
            for(auto& v: k.variants) { E e=k.base; e.ps=with(e.ps,v); vars.push_back(e); }
            { E e=k.base; e.name="renamed"; vars.push_back(e); }
            if(s==0) { E e=k.base; e.ps=with(e.ps,Ps{P("skipcache",1.0)}); vars.push_back(e); }
            if(s==0) { // configurations that are accepted and fail when used
                if(k.id=="quadrupole") vars.push_back(E{"quadrupole","e",Ps{P("L",0.25)}});
                if(k.id=="sbend") vars.push_back(E{"sbend","e",Ps{P("L",0.25)}});
            }
            std::vector<E> bad;
            bad.push_back(E{"nonsense","e",k.base.ps});                     // unknown type
            bad.push_back(E{k.id=="drift"?"marker":"drift","e",k.base.ps}); // other type
            bad.push_back(E{k.base.type,"",k.base.ps});                      // no name
            bad.push_back(E{"","",k.base.ps});                               // no type
            // values of the wrong type count as absent where there is a default
            vars.push_back(E{k.base.type,"e",with(k.base.ps,Ps{P("L","long")})});
            if(s==0) vars.push_back(E{k.base.type,"e",with(k.base.ps,Ps{P("dx",V{1})})});
            if(k.id=="sbend" && s==0) bad.push_back(E{k.base.type,"e",with(k.base.ps,Ps{P("HdipoleFitMode",2.0)})});
            if(k.id=="sbend" && s) bad.push_back(E{k.base.type,"e",with(k.base.ps,Ps{P("phi")})});
            if(k.id=="generic") bad.push_back(E{k.base.type,"e",Ps{P("transfer",V(37,1.0))}});
            if(k.id=="source" && s==0) { bad.push_back(E{k.base.type,"e",with(k.base.ps,Ps{P("moment01")})}); bad.push_back(E{k.base.type,"e",with(k.base.ps,Ps{P("NCharge",V{1})})}); bad.push_back(E{k.base.type,"e",with(k.base.ps,Ps{P("cstate",2.0)})}); }
            if(rf) { bad.push_back(E{k.base.type,"e",with(k.base.ps,Ps{P("f")})}); bad.push_back(E{k.base.type,"e",with(k.base.ps,Ps{P("cavtype","other")})}); bad.push_back(E{k.base.type,"e",with(k.base.ps,Ps{P("MpoleLevel",7.0)})});
                     bad.push_back(E{k.base.type,"e",with(k.base.ps,Ps{P("Eng_Data_Dir","/nonexistent")})}); bad.push_back(E{k.base.type,"e",with(k.base.ps,Ps{P("cavtype","Generic"),P("datafile","none.lat")})}); }
            if(leakmode) {
                std::vector<E> b2; for(auto& b: bad) if(b.type!="drift" && b.type!="marker") b2.push_back(b);
                if(vh::mine(item++)) ctors(sim,{k.base},b2);
                continue;
            }
            if(rf && vh::mine(item++)) {
                std::vector<E> few;
                for(auto& v: vars) { std::string t=v.str(); if(t.find("dx=")==t.npos && t.find("dy=")==t.npos && t.find("pitch")==t.npos && t.find("yaw")==t.npos && t.find("roll")==t.npos && t.find("long")==t.npos) few.push_back(v); }
                few.push_back(E{"rfcavity","e",with(k.base.ps,Ps{P("cavtype","Generic"),P("datafile","thinlenlon_41.lat")})});
                vanish(few);
            }
            // depth 2 over everything
            if(vh::mine(item++)) explore(sim,k,vars,bad,2,false);
            // depth 3 over slices of the variants, so that every variant takes part
            size_t step = vh::thorough()? vars.size() : rf? 5 : 7;
            for(size_t a=0;a<vars.size();a+=step) {
                std::vector<E> sub; if(a) sub.push_back(k.base);
                for(size_t i=a;i<a+step && i<vars.size();i++) sub.push_back(vars[i]);
                if(vh::mine(item++)) explore(sim,k,sub,std::vector<E>(bad.begin(),bad.begin()+(vh::thorough()?bad.size():2)),3,true);
            }
        }
    }
    vh::sample("MomentMatrix/rfcavity start=0 reconfigure(7) propA refused(0) -> compared with a machine built with variant 7");
    vh::finish();
}
