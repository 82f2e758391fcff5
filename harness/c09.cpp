// C09: all element sequences up to a length x beams: going forward element by element and then backward
// restores the state recorded before each element; what cannot be reversed is refused.
#include "fl.h"
using namespace fl;

struct El { E e; std::string id; bool rev, src; };
static std::set<std::string> SKIP={"transmat","last_caviphi0"};

// known finding: the way back through a tilted cavity uses the tilt at the exit energy (see KNOWN_FINDINGS);
// within that small deviation it is reported as such, once
static bool tilted(const std::vector<El>& els) {
    for(auto& e: els) if(e.e.type=="rfcavity") for(auto& p: e.e.ps) if((p.k=="pitch" || p.k=="yaw") && p.d!=0) return true;
    return false;
}
static bool nearly(const Snap& a, const Snap& b, bool moments) { // within a few percent of the beam size
    if(a.n!=b.n) return false;
    std::map<std::string,double> at; for(size_t i=0;i<a.n.size();i++) at[a.n[i]]=a.v[i];
    for(size_t i=0;i<a.n.size();i++) {
        const std::string& n=a.n[i]; std::string base=n.substr(0,n.find('['));
        if(SKIP.count(base)) continue;
        double tol=1e-7*std::fabs(a.v[i])+1e-9;
        int x=0,y=0,z=0;
        if(!moments && base.compare(0,6,"moment")==0) continue;
        if(!moments && n.find("phis")!=std::string::npos) tol=1e-4; // follows the centroid in a bend
        if(base=="moment1_env" && sscanf(n.c_str(),"moment1_env[%d][%d]",&x,&y)==2)
            tol=2e-1*std::sqrt(at["moment1_env["+std::to_string(x)+"]["+std::to_string(x)+"]"]*at["moment1_env["+std::to_string(y)+"]["+std::to_string(y)+"]"]);
        else if(base=="moment1" && sscanf(n.c_str(),"moment1[%d][%d][%d]",&x,&y,&z)==3) {
            std::string k="]["+std::to_string(z)+"]";
            tol=2e-1*std::sqrt(at["moment1["+std::to_string(x)+"]["+std::to_string(x)+k]*at["moment1["+std::to_string(y)+"]["+std::to_string(y)+k]);
        } else if(base.compare(0,7,"moment0")==0) { sscanf(n.c_str()+base.size(),"[%d]",&x); tol=2e-1*at["moment0_rms["+std::to_string(x)+"]"]; }
        if(!near(a.v[i],b.v[i],0,tol)) return false;
    }
    return true;
}
static void restored(const Snap& want, const Snap& got, bool moment, double big, int tilt, const std::string& what, const std::string& kase) {
    std::string d= moment? diffm(want,got,1e-7,&SKIP) : diff(want,got,1e-7,1e-9*big,&SKIP);
    if(d.empty()) return;
    if(tilt && nearly(want,got,tilt==1)) { // 1: tilted cavity itself, 2: what lies before or after it and sees its deviation magnified
        static bool once=false; vh::count("tilted");
        if(!once) { once=true; vh::violation("rf-tilt",what+": "+d,kase); }
        return;
    }
    vh::violation("restore",what+": "+d,kase);
}

static StateBase* fresh(const std::string& sim, const Beam* b, int seed) {
    if(b) return beam(*b);
    Config c;
    if(sim=="Vector") c.set<V>("initial", seed? V{1,-2,3,.5,-1,2} : V{.3,.7,-.2,.1,.9,-.4});
    else if(seed) { V t; for(int i=0;i<36;i++) t.push_back(((i*7)%11)*.3-1); c.set<V>("initial",t); }
    c.set<std::string>("sim_type",sim);
    std::unique_ptr<Machine> M(machine(sim,{}));
    return M->allocState(c);
}

static void one(const std::string& sim, const std::vector<El>& els, const Beam* b, int seed) {
    for(size_t i=1;i<els.size();i++) if(els[i].src) return; // a source forgets what was before it
    std::vector<E> es; std::string id=sim+" ";
    for(size_t i=0;i<els.size();i++) { es.push_back(els[i].e); es.back().name="e"+std::to_string(i); id+=els[i].id+" "; }
    id+= b? "beam "+b->id : "seed "+std::to_string(seed);
    vh::crumb(id);
    std::unique_ptr<Machine> M(machine(sim,es));
    std::unique_ptr<StateBase> S(fresh(sim,b,seed));
    vh::state(id);
    size_t n=es.size();
    bool tilt=tilted(els);
    std::vector<Snap> before;
    for(size_t i=0;i<n;i++) {
        before.push_back(snap(S.get()));
        try { M->propagate(S.get(),i,1); }
        catch(std::exception& e) { vh::violation("forward","forward pass fails: "+what(e),id+" | "+str(es)); return; }
    }
    Snap after=snap(S.get());
    double big=1; for(double x: after.v) big=std::max(big,std::fabs(x));
    for(auto& q: before) for(double x: q.v) big=std::max(big,std::fabs(x));
    for(double x: after.v) if(!std::isfinite(x)) { vh::count("nonfinite"); return; }
    // two ways back: element by element, or in one call
    std::unique_ptr<StateBase> T(S->clone());
    bool refused=false, tseen=false;
    Snap cur=after;
    for(size_t i=n;i-->0;) {
        vh::count("transitions");
        bool threw=false; std::string err;
        try { M->propagate(S.get(),i,-1); } catch(std::exception& e) { threw=true; err=what(e); }
        if(threw!=!els[i].rev) {
            vh::violation("refusal", threw? "going backward through "+els[i].id+" fails: "+err : "going backward through "+els[i].id+" gives a result although it cannot be reversed",id+" | "+str(es));
            return;
        }
        if(threw) {
            vh::count("refusals"); refused=true;
            break;
        }
        Snap now=snap(S.get());
        if(els[i].src) {
            std::string d=diff(cur,now);
            if(!d.empty()) vh::violation("source","going backward through a source changes the state: "+d,id+" | "+str(es));
            break; // what was before the source is gone
        }
        restored(before[i],now,b!=nullptr,big,tseen? 2 : tilted({els[i]})? 1 : 0,"after going backward to the entrance of element "+std::to_string(i),id+" | "+str(es));
        if(tilted({els[i]})) tseen=true;
        if(S->next_elem!=i-1) vh::violation("next","next element after going backward through "+std::to_string(i)+" is "+std::to_string((long)S->next_elem),id+" | "+str(es));
        cur=now;
    }
    bool threw=false; std::string err;
    try { M->propagate(T.get(),n-1,-(int)n); } catch(std::exception& e) { threw=true; err=what(e); }
    if(threw!=refused) vh::violation("refusal-range","going backward in one call "+std::string(threw?"fails: "+err:"succeeds")+", element by element not",id+" | "+str(es));
    else if(!threw) {
        std::string d=diff(snap(S.get()),snap(T.get()),1e-12,1e-13);
        bool anysrc=false; for(auto& e: els) anysrc|=e.src;
        if(!anysrc && !d.empty()) vh::violation("range","going backward in one call differs from element by element: "+d,id+" | "+str(es));
        // and forward again gives the same output once more
        if(!anysrc) {
            try {
                M->propagate(T.get(),0,n);
                restored(after,snap(T.get()),b!=nullptr,big,tilt?2:0,"forward, backward, forward",id+" | "+str(es));
            } catch(std::exception& e) { vh::violation("again","forward, backward, forward fails: "+what(e),id+" | "+str(es)); }
        }
    }
    vh::count("evaluations"); vh::count("distinct_nontrivial");
}

int main(int argc, char** argv) {
    vh::init(argc,argv);
    registerMoment(); registerLinear();
    std::vector<Beam> bs=beams();
    // all kinds and variants
    std::vector<El> all, base;
    for(auto& k: kinds()) {
        auto add=[&](const Ps& v,const std::string& id,bool isbase){
            E e=k.base; e.ps=with(e.ps,v);
            bool rev=k.reversible, src=k.id=="source";
            if(src) rev=true;
            for(auto& p: e.ps) if(p.k=="EmitGrowth" && p.d!=0) rev=false;
            El x{e,id,rev,src};
            all.push_back(x); if(isbase) base.push_back(x);
        };
        add(Ps{},k.id,true);
        for(size_t i=0;i<k.variants.size();i++) add(k.variants[i],k.id+"/"+std::to_string(i),false);
    }
    // a matrix without inverse
    { V m=mat7(0); for(int i=0;i<7;i++) m[i]=m[14+i]; all.push_back(El{E{"tmatrix","e",Ps{P("matrix",m),P("L",0.1)}},"tmatrix/singular",false,false}); }
    unsigned long long c=0;
    auto rf=[&](const El& e){ return e.e.type=="rfcavity"; };
    // every kind and variant alone, every beam
    for(auto& e: all) for(auto& b: bs) if(vh::mine(c++)) one("MomentMatrix",{e},&b,0);
    // and many charge states
    for(int N: {4,9,10,11,12,17}) {
        Beam b=bs[1]; b.id="many"+std::to_string(N); b.Z.clear(); b.Q.clear(); b.x=0.2;
        for(int i=0;i<N;i++) { b.Z.push_back((33+(i%2?1:-1)*0.25*i)/238.0); b.Q.push_back(100-2.5*i); }
        for(auto& e: all) if(vh::mine(c++)) one("MomentMatrix",{e},&b,0);
    }
    // pairs: every variant with every base kind, both orders; thorough: with every variant
    {
        std::vector<El>& second = vh::thorough()? all : base;
        std::vector<int> bi = vh::thorough()? std::vector<int>{1,10,4,5} : std::vector<int>{1,10};
        for(auto& e: all) for(auto& f: second) for(int i: bi) if(vh::mine(c++)) { one("MomentMatrix",{e,f},&bs[i],0); if(!vh::thorough()) one("MomentMatrix",{f,e},&bs[i],0); }
    }
    // triples of base kinds, and longer lines
    for(auto& e: base) for(auto& f: base) for(auto& g: base) {
        if(vh::mine(c++)) one("MomentMatrix",{e,f,g},&bs[10],0);
        if(vh::thorough()) for(auto& h: base) if(!(rf(e)+rf(f)+rf(g)+rf(h)>2)) if(vh::mine(c++)) one("MomentMatrix",{e,f,g,h},&bs[1],0);
    }
    // a cavity only goes back for the beam that came through last
    for(auto& e: all) if(rf(e) && e.rev) for(size_t i=0;i<bs.size();i++) for(size_t j=0;j<=bs.size();j++) if(vh::mine(c++)) {
        if(j<bs.size() && (bs[j].id=="D")!=(bs[i].id=="D")) continue; // same particles with other centroids: not told apart
        std::vector<E> es={e.e};
        std::string id="other beam "+e.id+" "+bs[i].id+" "+(j<bs.size()?bs[j].id:"-");
        vh::crumb(id);
        std::unique_ptr<Machine> M(machine("MomentMatrix",es)), N(machine("MomentMatrix",es));
        std::unique_ptr<MomentState> S(beam(bs[i]));
        Snap s0=snap(S.get());
        if(j<bs.size()) { M->propagate(S.get(),0,1); std::unique_ptr<MomentState> T(beam(bs[j])); M->propagate(T.get(),0,1); }
        else N->propagate(S.get(),0,1); // a machine that has seen nothing
        vh::count("transitions",2);
        bool threw=false;
        try { M->propagate(S.get(),0,-1); } catch(std::exception&) { threw=true; }
        vh::count("evaluations"); vh::count("distinct_nontrivial"); vh::state(id);
        if(threw) { vh::count("refusals"); if(i==j) vh::violation("other-refused","the beam that came through last is refused",id+" | "+str(es)); continue; }
        if(j==bs.size()) { vh::violation("other-fresh","a cavity nothing came through goes backward",id+" | "+str(es)); continue; }
        restored(s0,snap(S.get()),true,1,tilted({e}),"going backward after another beam came through",id+" | "+str(es));
    }
    // linear simulations
    for(int sim=0;sim<2;sim++) {
        std::string s=sim?"TransferMatrix":"Vector";
        std::vector<El> le;
        for(auto& k: lkinds(!sim)) {
            le.push_back(El{k.base,k.id,true,k.id=="source"});
            for(size_t i=0;i<k.variants.size();i++) { E e=k.base; e.ps=with(e.ps,k.variants[i]); le.push_back(El{e,k.id+"/"+std::to_string(i),true,k.id=="source"}); }
        }
        { V t(36,0.0); for(int i=0;i<36;i++) t[i]=i/6; le.push_back(El{E{"generic","e",Ps{P("transfer",t)}},"generic/singular",false,false}); }
        for(auto& e: le) for(int seed=0;seed<2;seed++) if(vh::mine(c++)) one(s,{e},nullptr,seed);
        for(auto& e: le) for(auto& f: le) if(vh::mine(c++)) one(s,{e,f},nullptr,1);
        for(auto& e: le) for(auto& f: le) for(auto& g: le) if(vh::mine(c++)) one(s,{e,f,g},nullptr,1);
    }
    vh::sample("forward and backward through drift, quadrupole, rfcavity with beam K");
    vh::finish();
}
