// C20: every single allocation of each operation fails once (and from there on); the operation must report it,
// leave everything else as it was, lose no memory, and succeed when repeated.
#include <cstdlib>
#include <new>
#include <functional>
static long live=0, nalloc=0, failat=-1; static bool counting=false, forever=false, fired=false;
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wmismatched-new-delete"
void* operator new(size_t n) {
    if(counting) { long k=nalloc++; if(failat>=0 && (k==failat || (forever && k>failat))) { fired=true; throw std::bad_alloc(); } }
    void* p=malloc(n?n:1); if(!p) throw std::bad_alloc();
    live++; return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch(...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch(...) { return nullptr; } }
void operator delete(void* p) noexcept { if(p) live--; free(p); }
void operator delete[](void* p) noexcept { if(p) live--; free(p); }
void operator delete(void* p, size_t) noexcept { if(p) live--; free(p); }
void operator delete[](void* p, size_t) noexcept { if(p) live--; free(p); }
#pragma GCC diagnostic pop
#include "fl.h"
using namespace fl;

static unsigned long long item=0;
// A scenario: fresh objects, one operation, what must hold after it failed, what must hold after it succeeded.
struct Scen {
    virtual ~Scen() {}
    virtual void op()=0;                      // may throw
    virtual std::string failed()=0;           // after op() threw: "" if everything else is as before
    virtual std::string done()=0;             // after op() succeeded: "" if the result is the normal one
};
typedef std::function<Scen*()> Make;

static void explore(const std::string& id, const Make& mk) {
    if(!vh::mine(item++)) return;
    if(vh::replaying && vh::replay.compare(0,id.size()+1,id+" ")!=0) return;
    long N;
    { // warm up (caches, locale facets), then count
        vh::crumb(id+" warm up");
        { std::unique_ptr<Scen> S(mk()); S->op(); S->done(); S->failed(); }
        std::unique_ptr<Scen> S(mk());
        failat=-1; nalloc=0; counting=true; S->op(); counting=false; N=nalloc;
        std::string w=S->done(); if(!w.empty()) vh::violation("normal",w,id+" (no failure)");
    }
    vh::count("scenarios"); vh::count("allocations",N);
    for(int all=0;all<2;all++) for(long k=0;k<N;k++) {
        std::string kase=id+" allocation "+std::to_string(k)+(all?" and later":"");
        vh::crumb(kase);
        std::string w;
        bool reported;
        const long before=live;
        {
            std::unique_ptr<Scen> S(mk());
            bool threw=false; std::string err;
            fired=false; forever=all; failat=k; nalloc=0; counting=true;
            try { S->op(); counting=false; }
            catch(std::exception& e) { counting=false; threw=true; }
            catch(...) { counting=false; threw=true; w="raised something which is no std::exception"; }
            failat=-1;
            reported=threw;
            if(threw) {
                if(w.empty()) { w=S->failed(); if(!w.empty()) w="after the failure: "+w; }
                if(w.empty()) { try { S->op(); } catch(std::exception& e) { w=std::string("when repeated, fails: ")+e.what(); } }
                if(w.empty()) { w=S->done(); if(!w.empty()) w="when repeated: "+w; }
            } else { w=S->done(); if(!w.empty()) w="the failure was not reported, but "+w; }
        }
        const long after=live;
        if(after!=before && w.empty()) w="leaves "+std::to_string(after-before)+" blocks behind";
        if(!w.empty()) vh::violation(w.compare(0,6,"leaves")==0?"leak":w.compare(0,5,"after")==0?"damage":w.compare(0,4,"when")==0?"repeat":"report",w,kase);
        vh::count("evaluations");
        if(!fired) vh::count("unreached");
        else { vh::count("distinct_nontrivial"); vh::count(reported?"reported":"survived"); }
        vh::state(kase);
    }
}

// ---- configurations
static std::string show(const Config& c) { std::ostringstream s; s.precision(17); c.show(s); Config f(c); f.flatten(); s<<"|"; f.show(s); return s.str(); }
struct ConfScen : Scen {
    Config base, child, other; std::string sb, sc, so; int what; std::string want, got;
    Config* copy=nullptr;
    ConfScen(int w) :what(w) {
        base.set<double>("d",1.5); base.set<std::string>("s","a string which is longer than the small buffer"); base.set<V>("v",V{1,2,3});
        child=base.new_scope(); child.set<double>("d",2.5);
        Config e(base.new_scope()); e.set<std::string>("name","one");
        Config::vector_t l; l.push_back(e); l.push_back(child); base.set<Config::vector_t>("elements",l);
        other=base; // shares storage with base
        sb=show(base); sc=show(child); so=show(other);
    }
    ~ConfScen() { delete copy; }
    void op() {
        switch(what) {
        case 0: copy=new Config(base); break;
        case 1: base.set<double>("d",9); break;
        case 2: base.set<double>("newname which is longer than the small buffer",9); break;
        case 3: base.set<std::string>("s","another string which is longer than the small buffer"); break;
        case 4: base.set<V>("w",V(20,3.0)); break;
        case 5: { Config::value_t v; base.getAny("v"); if(!base.tryGetAny("s",v)) abort(); got=boost::get<std::string>(v); } break;
        case 6: child.flatten(); break;
        case 7: copy=new Config(child.new_scope()); copy->set<double>("x",1); break;
        case 8: child.push_scope(); break;
        case 9: child=base; break;
        case 10: child.swap(base); break;
        case 11: got=base.get<std::string>("s")+base.get<std::string>("nope","default value which is longer than the buffer"); break;
        case 12: { Config::vector_t l(base.get<Config::vector_t>("elements")); l.push_back(child); base.set<Config::vector_t>("elements",l); } break;
        case 13: try { base.get<double>("nothing of this name"); } catch(key_error&) {} break;
        case 14: copy=new Config; copy->set<std::string>("s",base.get<std::string>("s")); break;
        }
    }
    // what the operation is not meant to change, or must leave alone when it fails
    std::string failed() {
        delete copy; copy=nullptr;
        std::string r;
        if(show(base)!=sb) r+="the configuration changed from "+sb+" to "+show(base);
        if(what==6||what==8) { Config f(child); f.flatten(); std::ostringstream s; s.precision(17); f.show(s); if(s.str()!=sc.substr(sc.find("|")+1)) r+="what the inner configuration means changed to "+s.str(); }
        else if(show(child)!=sc) r+="the inner configuration changed from "+sc+" to "+show(child);
        if(show(other)!=so) r+="a copy changed from "+so+" to "+show(other);
        return r;
    }
    std::string done() {
        std::string r;
        if(show(other)!=so) r+="a copy changed;";
        switch(what) {
        case 0: if(show(*copy)!=sb) r+="the copy differs;"; break;
        case 1: if(base.get<double>("d")!=9) r+="value not set;"; break;
        case 2: if(base.get<double>("newname which is longer than the small buffer")!=9) r+="value not set;"; break;
        case 3: if(base.get<std::string>("s")!="another string which is longer than the small buffer") r+="value not set;"; break;
        case 4: if(base.get<V>("w")!=V(20,3.0)) r+="value not set;"; break;
        case 5: if(got!="a string which is longer than the small buffer") r+="value wrong;"; break;
        case 6: if(child.get<double>("d")!=2.5 || child.get<V>("v")!=V{1,2,3} || show(base)!=sb) r+="flattened wrongly;"; break;
        case 7: if(copy->get<double>("d")!=2.5 || show(child)!=sc) r+="scope wrong;"; break;
        case 8: if(child.get<double>("d")!=2.5 || show(base)!=sb) r+="scope wrong ;"; break;
        case 9: if(show(child)!=sb || show(base)!=sb) r+="assignment wrong;"; break;
        case 10: if(show(child)!=sb || show(base)!=sc) r+="swap wrong;"; break;
        case 11: if(got!="a string which is longer than the small bufferdefault value which is longer than the buffer") r+="value wrong;"; break;
        case 12: if(base.get<Config::vector_t>("elements").size()!=3) r+="list wrong;"; break;
        case 14: if(copy->get<std::string>("s")!=base.get<std::string>("s")) r+="value wrong;"; break;
        }
        return r;
    }
};

// ---- machines
static Config statec(const std::string& sim) {
    if(sim=="MomentMatrix") return bconf(beams()[1]);
    Config c; c.set<V>("initial",sim=="Vector"?V{1e-3,2e-3,3e-3,4e-3,5e-3,6e-3}:V(36,0.5)); return c;
}
static std::string viewcheck(Machine& M, const std::vector<std::string>& names, const std::vector<std::string>& types) {
    std::ostringstream w;
    if(M.size()!=names.size()) return "number of elements";
    for(size_t i=0;i<M.size();i++) {
        if(M[i]->index!=i) w<<"index of element "<<i<<" is "<<M[i]->index<<";";
        if(M[i]->name!=names[i]) w<<"name of element "<<i<<" is "<<M[i]->name<<" not "<<names[i]<<";";
        if(M[i]->type_name()!=types[i]) w<<"type of element "<<i<<";";
        if(M[i]->conf().get<std::string>("name","?")!=names[i]) w<<"configured name of element "<<i<<" is "<<M[i]->conf().get<std::string>("name","?")<<";";
        size_t nth=0; for(size_t k=0;k<i;k++) if(names[k]==names[i]) nth++;
        if(M.find(names[i],nth)!=M[i]) w<<"lookup of "<<names[i]<<";";
        bool hit=false; for(auto r=M.equal_range_type(types[i]); r.first!=r.second; ++r.first) if(*r.first==M[i]) hit=true;
        if(!hit) w<<"lookup of type "<<types[i]<<";";
    }
    size_t n=0; for(auto r=M.all_range(); r.first!=r.second; ++r.first) n++;
    if(n!=names.size()) w<<"all_range() gives "<<n<<" elements;";
    return w.str();
}
static Snap result(Machine& M, const std::string& sim) {
    std::unique_ptr<StateBase> S(M.allocState(statec(sim)));
    M.propagate(S.get());
    return snap(S.get());
}
struct MScen : Scen {
    std::string sim; std::vector<E> es, es2; int what; size_t idx; Config conf, sconf, nconf; std::string sconfs, confs;
    std::unique_ptr<Machine> M; std::unique_ptr<StateBase> S, T; Snap before, tbefore, want, want2;
    std::vector<std::string> names, types;
    bool keep; // the machine exists before
    MScen(const std::string& sim, const std::vector<E>& es, int what, size_t idx=0, const E* n=nullptr, bool used=false) :sim(sim),es(es),es2(es),what(what),idx(idx) {
        conf=mconf(sim,es); sconf=statec(sim); confs=show(conf); sconfs=show(sconf);
        for(auto& e: es) { names.push_back(e.name); types.push_back(e.type); }
        if(n) { es2[idx]=*n; nconf=n->conf(); }
        { std::unique_ptr<Machine> R(machine(sim,es)); want=result(*R,sim); }
        { std::unique_ptr<Machine> R(machine(sim,es2)); want2=result(*R,sim); }
        if(what!=0) {
            M.reset(machine(sim,es));
            S.reset(M->allocState(sconf)); before=snap(S.get());
            if(used) { result(*M,sim); if(what==4 && sim=="MomentMatrix") { // the caches hold another beam
                std::unique_ptr<StateBase> A(M->allocState(bconf(beams()[0]))); M->propagate(A.get()); } }
            if(what==5||what==6) { M->propagate(S.get()); before=snap(S.get()); T.reset(M->allocState(sconf)); }
        }
    }
    void op() {
        switch(what) {
        case 0: M.reset(new Machine(conf)); break;
        case 1: S.reset(); S.reset(M->allocState(sconf)); break;
        case 2: if(!S) S.reset(M->allocState(sconf)); M->propagate(S.get()); break;
        case 3: M->reconfigure(idx,nconf); break;
        case 4: if(!S) S.reset(M->allocState(sconf)); M->propagate(S.get(),0,(int)es.size()); break;
        case 5: T.reset(S->clone()); break;
        case 6: T->assign(*S); break;
        case 7: { ElementVoid* e=M->find(names.back()); if(!e) throw std::logic_error("not found"); auto r=M->equal_range_type(types[0]); if(r.first==r.second) throw std::logic_error("not found"); auto q=M->equal_range(names[0]); if(q.first==q.second) throw std::logic_error("not found"); } break;
        case 8: for(unsigned i=0;;i++) { StateBase::ArrayInfo I; if(!S->getArray(i,I)) break; } break;
        }
    }
    std::string failed() {
        std::string r;
        if(show(conf)!=confs || show(sconf)!=sconfs) r+="the configuration handed in changed;";
        if(what==0) { if(M) r+="machine;"; return r; }
        if(what==2||what==4) S.reset(); // the state was being changed: it can only be dropped
        if(what==3) { // the machine may have the old or the new configuration
            std::string v=viewcheck(*M,names,types);
            if(!v.empty()) { std::vector<std::string> n2=names; n2[idx]=es2[idx].name; std::string v2=viewcheck(*M,n2,types); if(!v2.empty()) r+="the views disagree: "+v; }
            Snap g=result(*M,sim); 
            if(!diff(g,want,1e-12,1e-13).empty() && !diff(g,want2,1e-12,1e-13).empty()) r+="a machine which was not reconfigured computes "+diff(g,want,1e-12,1e-13)+";";
            return r;
        }
        r+=viewcheck(*M,names,types);
        std::string d=diff(result(*M,sim),want,1e-12,1e-13);
        if(!d.empty()) r+="the machine now computes "+d+";";
        if(what==5||what==6||what==8) { d=diff(snap(S.get()),before); if(!d.empty()) r+="the state changed: "+d; }
        return r;
    }
    std::string done() {
        std::string r, d;
        if(show(conf)!=confs || show(sconf)!=sconfs) r+="the configuration handed in changed;";
        std::vector<std::string> n2=names; if(what==3) n2[idx]=es2[idx].name;
        r+=viewcheck(*M,n2,types);
        switch(what) {
        case 1: d=diff(snap(S.get()),before); break;
        case 2: case 4: d=diff(snap(S.get()),want,1e-12,1e-13); break;
        case 3: d=diff(result(*M,sim),want2,1e-12,1e-13); break;
        case 5: case 6: d=diff(snap(T.get()),before); break;
        }
        if(!d.empty()) r+="result "+d;
        d=diff(result(*M,sim),what==3?want2:want,1e-12,1e-13);
        if(!d.empty()) r+="the machine computes "+d;
        return r;
    }
};

int main(int argc, char** argv) {
    vh::init(argc,argv);
    registerMoment(); registerLinear();
    for(int i=0;i<15;i++) explore("config/"+std::to_string(i),[=]{ return new ConfScen(i); });
    const std::string longname="an_element_name_longer_than_the_small_buffer";
    for(const char* s: {"MomentMatrix","Vector","TransferMatrix"}) {
        std::string sim=s;
        std::vector<Kind> K= sim=="MomentMatrix"?kinds():lkinds(sim=="Vector");
        E d1{"drift","d1",Ps{P("L",0.3)}}, m2{"marker","marker_with_a_name_longer_than_the_small_buffer",Ps{}};
        for(auto& k: K) {
            for(size_t v=0; v<=k.variants.size(); v++) {
                E e=k.base; if(v) e.ps=with(e.ps,k.variants[v-1]); e.name="e";
                std::string id=sim+"/"+k.id+"/"+std::to_string(v);
                std::vector<E> es={d1,e,m2};
                try { std::unique_ptr<Machine> M(machine(sim,es)); result(*M,sim); } catch(std::exception& x) { vh::count("skipped"); fprintf(stderr,"SKIP %s %s\n",id.c_str(),x.what()); continue; }
                if(v==0 || vh::thorough()) {
                    explore(id+"/construct",[=]{ return new MScen(sim,es,0); });
                    explore(id+"/allocState",[=]{ return new MScen(sim,es,1); });
                    explore(id+"/clone",[=]{ return new MScen(sim,es,5); });
                    explore(id+"/assign",[=]{ return new MScen(sim,es,6); });
                    explore(id+"/lookup",[=]{ return new MScen(sim,es,7); });
                    explore(id+"/attributes",[=]{ return new MScen(sim,es,8); });
                }
                explore(id+"/propagate",[=]{ return new MScen(sim,es,2); });
                explore(id+"/propagate-again",[=]{ return new MScen(sim,es,4,0,nullptr,true); });
                if(v) {
                    E b=k.base; b.name="e";
                    std::vector<E> from={d1,b,m2}; E to=e;
                    explore(id+"/reconfigure",[=]{ return new MScen(sim,from,3,1,&to,true); });
                    E to2=e; to2.name=longname;
                    explore(id+"/reconfigure-rename",[=]{ return new MScen(sim,from,3,1,&to2,true); });
                }
            }
        }
    }
    vh::sample("MomentMatrix/sbend/1/reconfigure allocation 17: reported; views and results as before; repeated: as a new machine");
    vh::finish();
}
