// C10: clone/assign/attribute access of states.
//  part 1: every attribute of every state reads and writes the quantity it names, and nothing else
//  part 2: clone and assign between all pairs of states
//  part 3: all sequences of clone/assign/write/propagate over three states up to a depth, against a deep-copy
//          model; propagation must be a function of what is visible in the state
//  part 4: derived quantities after every element
//  part 5: states do not depend on what fresh memory held before
#include "fillnew.h"
#include "fl.h"
using namespace fl;

struct Src { std::string id, sim; std::function<StateBase*()> make; };

static StateBase* alloc(const std::string& sim, const Config& c) {
    std::unique_ptr<Machine> M(machine(sim,{}));
    return M->allocState(c);
}
static std::vector<Src> sources() {
    std::vector<Src> r;
    for(auto& b: beams()) r.push_back(Src{"beam "+b.id,"MomentMatrix",[b](){ return (StateBase*)beam(b); }});
    r.push_back(Src{"empty","MomentMatrix",[](){ return alloc("MomentMatrix",Config()); }});
    { // 12 charge states: more than the reserved room
        Beam b=beams()[0]; b.id="twelve"; b.Z.clear(); b.Q.clear();
        for(int i=0;i<12;i++) { b.Z.push_back((30.0+i)/238); b.Q.push_back(10+i); }
        r.push_back(Src{"beam twelve","MomentMatrix",[b](){ return (StateBase*)beam(b); }});
    }
    for(auto& k: kinds()) {
        E e=k.base;
        for(int bi: {1,10}) {
            Beam b=beams()[bi];
            r.push_back(Src{"beam "+b.id+" after "+k.id,"MomentMatrix",[b,e](){
                std::unique_ptr<Machine> M(machine("MomentMatrix",{e}));
                MomentState* S=beam(b); M->propagate(S); return (StateBase*)S; }});
        }
    }
    r.push_back(Src{"vector","Vector",[](){ Config c; c.set<V>("initial",V{1,2,3,4,5,6}); return alloc("Vector",c); }});
    r.push_back(Src{"vector empty","Vector",[](){ return alloc("Vector",Config()); }});
    r.push_back(Src{"matrix","TransferMatrix",[](){ V t; for(int i=0;i<36;i++) t.push_back(i*i-3); Config c; c.set<V>("initial",t); return alloc("TransferMatrix",c); }});
    r.push_back(Src{"matrix empty","TransferMatrix",[](){ return alloc("TransferMatrix",Config()); }});
    r.push_back(Src{"vector after drift","Vector",[](){ std::unique_ptr<Machine> M(machine("Vector",{E{"drift","d",Ps{P("L",0.3)}}}));
        Config c; c.set<V>("initial",V{1,2,3,4,5,6}); StateBase* S=M->allocState(c); M->propagate(S); return S; }});
    r.push_back(Src{"matrix after quad","TransferMatrix",[](){ std::unique_ptr<Machine> M(machine("TransferMatrix",{E{"quadrupole","d",Ps{P("L",0.3),P("K",2.0)}}}));
        StateBase* S=M->allocState(Config()); M->propagate(S); return S; }});
    return r;
}

// where the documented attributes live: name -> (dimensions, element access)
struct Attr { std::vector<size_t> dim; std::function<double(size_t*)> get; };
static std::map<std::string,Attr> spec(StateBase* S) {
    std::map<std::string,Attr> m;
    m["pos"]=Attr{{},[S](size_t*){ return S->pos; }};
    m["next_elem"]=Attr{{},[S](size_t*){ return (double)S->next_elem; }};
    if(MomentState* M=dynamic_cast<MomentState*>(S)) {
        size_t n=M->real.size();
        m["moment1_env"]=Attr{{7,7},[M](size_t* i){ return M->moment1_env(i[0],i[1]); }};
        m["moment0_env"]=Attr{{7},[M](size_t* i){ return M->moment0_env(i[0]); }};
        m["moment0_rms"]=Attr{{7},[M](size_t* i){ return M->moment0_rms(i[0]); }};
        m["moment1"]=Attr{{7,7,n},[M](size_t* i){ return M->moment1[i[2]](i[0],i[1]); }};
        m["transmat"]=Attr{{7,7,n},[M](size_t* i){ return M->transmat[i[2]](i[0],i[1]); }};
        m["moment0"]=Attr{{7,n},[M](size_t* i){ return M->moment0[i[1]](i[0]); }};
        m["last_caviphi0"]=Attr{{},[M](size_t*){ return M->last_caviphi0; }};
#define PART(N) m["ref_" #N]=Attr{{},[M](size_t*){ return M->ref.N; }}; m[#N]=Attr{{n},[M](size_t* i){ return M->real[i[0]].N; }};
        PART(IonZ) PART(IonQ) PART(IonEs) PART(IonW) PART(gamma) PART(beta) PART(bg) PART(SampleFreq) PART(SampleIonK) PART(phis) PART(IonEk)
    } else if(VectorState* W=dynamic_cast<VectorState*>(S)) {
        m["state"]=Attr{{6},[W](size_t* i){ return W->state(i[0]); }};
    } else if(MatrixState* X=dynamic_cast<MatrixState*>(S)) {
        m["state"]=Attr{{6,6},[X](size_t* i){ return X->state(i[0],i[1]); }};
    }
    return m;
}
static double rd(StateBase::ArrayInfo& I, size_t* ix) { return I.type==StateBase::ArrayInfo::Double ? *I.get<double>(ix) : (double)*I.get<size_t>(ix); }
static void wr(StateBase::ArrayInfo& I, size_t* ix, double v) { if(I.type==StateBase::ArrayInfo::Double) *I.get<double>(ix)=v; else *I.get<size_t>(ix)=(size_t)v; }
template<typename F> static void each(const std::vector<size_t>& d, F f) {
    size_t e[3]={1,1,1}; for(size_t i=0;i<d.size();i++) e[i]=d[i];
    for(size_t a=0;a<e[0];a++) for(size_t b=0;b<e[1];b++) for(size_t c=0;c<e[2];c++) { size_t ix[3]={a,b,c}; f(ix); }
}

static void attributes(const Src& s) {
    vh::crumb("attributes "+s.id);
    std::unique_ptr<StateBase> S(s.make());
    std::map<std::string,Attr> sp=spec(S.get());
    std::map<std::string,unsigned> idx;
    for(unsigned i=0;;i++) {
        StateBase::ArrayInfo I; if(!S->getArray(i,I)) break;
        if(idx.count(I.name)) vh::violation("twice","attribute "+std::string(I.name)+" is published twice",s.id);
        idx[I.name]=i;
    }
    for(auto& a: sp) {
        vh::count("attributes");
        if(!idx.count(a.first)) { vh::violation("missing","no attribute "+a.first,s.id); continue; }
        StateBase::ArrayInfo I; S->getArray(idx[a.first],I);
        std::vector<size_t> dim(I.dim,I.dim+I.ndim);
        if(dim!=a.second.dim) { vh::violation("shape","attribute "+a.first+" has the wrong shape",s.id); continue; }
        double tag=1000;
        each(dim,[&](size_t* ix){
            // reads
            double x=rd(I,ix), y=a.second.get(ix);
            if(!near(x,y,0,0)) { std::ostringstream o; o<<"attribute "<<a.first<<" reads "<<x<<" where the state holds "<<y; vh::violation("read",o.str(),s.id); }
        });
        // every entry: write it and look at everything else
        each(dim,[&](size_t* ix){
            double old=rd(I,ix);
            Snap before=snap(S.get(),true);
            tag+=1; wr(I,ix,tag);
            vh::count("evaluations"); vh::count("distinct_nontrivial");
            double got=a.second.get(ix);
            if(got!=tag) { std::ostringstream o; o<<"writing "<<tag<<" to attribute "<<a.first<<" leaves "<<got; vh::violation("write",o.str(),s.id); }
            Snap after=snap(S.get(),true);
            std::string hit;
            for(size_t i=0;i<before.v.size();i++) if(!near(before.v[i],after.v[i],0,0)) {
                std::string n=after.n[i].substr(0,after.n[i].find('['));
                std::string nn=n; if(nn.compare(0,13,"particle_ref.")==0) nn="ref_"+nn.substr(13); else if(nn.compare(0,9,"particle_")==0) nn=nn.substr(nn.find('.')+1);
                if(nn!=a.first) hit+=after.n[i]+" ";
            }
            if(!hit.empty()) vh::violation("write-other","writing attribute "+a.first+" changes "+hit,s.id);
            wr(I,ix,old);
            if(!diff(before,snap(S.get(),true)).empty()) vh::violation("write-back","writing attribute "+a.first+" twice does not restore it",s.id);
        });
    }
    // showing it changes nothing and shows something
    Snap b=snap(S.get(),true);
    for(int l=0;l<5;l++) { std::ostringstream o; S->show(o,l); if(o.str().empty()) vh::violation("show","printing the state at level "+std::to_string(l)+" gives nothing",s.id); }
    if(!diff(b,snap(S.get(),true)).empty()) vh::violation("show-changes","printing the state changes it",s.id);
}

// overwrite every published value, and those which are not published
static void scramble(StateBase* S, double f) {
    for(unsigned i=0;;i++) {
        StateBase::ArrayInfo I; if(!S->getArray(i,I)) break;
        std::vector<size_t> dim(I.dim,I.dim+I.ndim);
        each(dim,[&](size_t* ix){ wr(I,ix,std::fabs(rd(I,ix))*f+3+f); });
    }
    if(MomentState* M=dynamic_cast<MomentState*>(S)) { M->ref.SampleLambda+=f; for(auto& r: M->real) r.SampleLambda+=f; }
}
static std::vector<E> probe(const std::string& sim) {
    if(sim=="MomentMatrix") return {E{"quadrupole","q",Ps{P("L",0.2),P("B2",3.0),P("roll",0.1)}},E{"sbend","b",Ps{P("L",0.3),P("phi",10.0),P("phi1",3.0),P("phi2",-2.0)}}};
    return {E{"quadrupole","q",Ps{P("L",0.2),P("K",3.0)}},E{"solenoid","s",Ps{P("L",0.3),P("K",1.0)}}};
}
static void pairs(const Src& a, const Src& b) {
    std::string id=a.id+" -> "+b.id;
    vh::crumb("assign "+id);
    vh::count("evaluations"); vh::count("distinct_nontrivial");
    std::unique_ptr<StateBase> A(a.make()), B(b.make());
    Snap sa=snap(A.get()), sb=snap(B.get());
    if(a.sim!=b.sim) {
        bool threw=false;
        try { B->assign(*A); } catch(std::invalid_argument&) { threw=true; }
        if(!threw) vh::violation("assign-foreign","assigning a state of another kind is not refused",id);
        std::string d=diff(sb,snap(B.get())); if(!d.empty()) vh::violation("assign-foreign-changes","refused assignment changes the state: "+d,id);
        return;
    }
    B->assign(*A);
    std::string d=diff(sa,snap(B.get())); if(!d.empty()) vh::violation("assign","assigned state differs: "+d,id);
    d=diff(sa,snap(A.get())); if(!d.empty()) vh::violation("assign-source","assignment changes its source: "+d,id);
    std::unique_ptr<StateBase> C(A->clone());
    d=diff(sa,snap(C.get())); if(!d.empty()) vh::violation("clone","cloned state differs: "+d,id);
    if(typeid(*C)!=typeid(*A)) vh::violation("clone-type","clone has another type",id);
    if(C->pyptr!=nullptr) vh::violation("clone-py","clone refers to the original's Python object",id);
    // same future
    std::unique_ptr<Machine> M1(machine(a.sim,probe(a.sim))), M2(machine(a.sim,probe(a.sim))), M3(machine(a.sim,probe(a.sim)));
    auto fin=[&](StateBase* S, Machine& M){ std::string err; try { M.propagate(S,1,1); M.propagate(S,0); } catch(std::exception& e) { err=e.what(); } return std::make_pair(err,snap(S)); };
    std::unique_ptr<StateBase> A2(A->clone()), B2(B->clone());
    auto ra=fin(A.get(),*M1);
    d=diff(sa,snap(C.get())); if(!d.empty()) vh::violation("clone-alias","propagating the original changes its clone: "+d,id);
    d=diff(sa,snap(B.get())); if(!d.empty()) vh::violation("assign-alias","propagating the original changes an assigned state: "+d,id);
    auto rc=fin(C.get(),*M2);
    auto rb=fin(B.get(),*M3);
    if(ra.first!=rc.first || !(d=diff(ra.second,rc.second)).empty()) vh::violation("clone-future","clone behaves differently: "+d,id);
    if(ra.first!=rb.first || !(d=diff(ra.second,rb.second)).empty()) vh::violation("assign-future","assigned state behaves differently: "+d,id);
    // independent storage, both ways
    scramble(A2.get(),2); d=diff(sa,snap(B2.get())); if(!d.empty()) vh::violation("alias","writing one state changes its copy: "+d,id);
    Snap s2=snap(A2.get());
    scramble(B2.get(),3); d=diff(s2,snap(A2.get())); if(!d.empty()) vh::violation("alias","writing a copy changes the original: "+d,id);
    // self assignment
    A2->assign(*A2); d=diff(s2,snap(A2.get())); if(!d.empty()) vh::violation("self","assigning a state to itself changes it: "+d,id);
    // bookkeeping: a clone starts at the beginning
    d=""; { std::unique_ptr<StateBase> Q(A2->clone()); d=diff(s2,snap(Q.get())); }
    if(!d.empty()) vh::violation("clone-scrambled","clone of an edited state differs: "+d,id);
}

// ---- sequences
struct Op { int kind, i, j; std::string str() const { static const char* n[]={"clone","assign","write","prop"}; std::ostringstream o; o<<n[kind]<<i<<j; return o.str(); } };
static std::map<std::string,std::string> memo; // (machine, visible state) -> visible result
static std::string key(const Snap& s) { std::string r((const char*)s.v.data(),s.v.size()*sizeof(double)); r+=std::to_string(s.n.size()); return r; }
static void sequences(const std::string& sim, const std::vector<std::function<StateBase*()>>& init, const std::vector<std::vector<E>>& ms, int depth, unsigned long long& c) {
    std::vector<Op> ops;
    int N=init.size();
    for(int i=0;i<N;i++) for(int j=0;j<N;j++) { if(i!=j) { ops.push_back(Op{0,i,j}); ops.push_back(Op{1,i,j}); } }
    // writes: a few attributes by name
    std::vector<std::string> wn = sim=="MomentMatrix"? std::vector<std::string>{"moment0","IonEk","ref_IonEk","pos","phis"} : std::vector<std::string>{"state","pos"};
    for(int i=0;i<N;i++) for(size_t k=0;k<wn.size();k++) ops.push_back(Op{2,i,(int)k});
    for(int i=0;i<N;i++) for(size_t k=0;k<ms.size();k++) ops.push_back(Op{3,i,(int)k});
    std::vector<int> ix(depth,0);
    while(true) {
        if(vh::mine(c++)) {
            std::vector<std::unique_ptr<StateBase>> S; std::vector<Snap> model;
            for(auto& f: init) { S.emplace_back(f()); model.push_back(snap(S.back().get())); }
            std::vector<std::unique_ptr<Machine>> M; for(auto& m: ms) M.emplace_back(machine(sim,m));
            std::string seq=sim+": "; for(int d=0;d<depth;d++) seq+=ops[ix[d]].str()+" ";
            vh::crumb(seq);
            for(int d=0;d<depth;d++) {
                const Op& o=ops[ix[d]];
                vh::count("transitions");
                if(o.kind==0) { S[o.j].reset(S[o.i]->clone()); model[o.j]=model[o.i]; }
                else if(o.kind==1) { S[o.j]->assign(*S[o.i]); model[o.j]=model[o.i]; }
                else if(o.kind==2) {
                    for(unsigned k=0;;k++) {
                        StateBase::ArrayInfo I; if(!S[o.i]->getArray(k,I)) break;
                        if(wn[o.j]!=I.name) continue;
                        size_t z[3]={0,0,0}; *I.get<double>(z)*=1.25;
                    }
                    // the model: the same attribute, first entry, and the particle that holds it
                    const std::string& w=wn[o.j];
                    for(size_t q=0;q<model[o.i].n.size();q++) {
                        const std::string& n=model[o.i].n[q];
                        if(n==w || n==w+"[0]" || n==w+"[0][0]" || n==w+"[0][0][0]" || n=="particle_0."+w || (w=="ref_IonEk" && n=="particle_ref.IonEk")) model[o.i].v[q]*=1.25;
                    }
                } else {
                    std::string k=std::to_string(o.j)+key(model[o.i]);
                    std::string err;
                    try { M[o.j]->propagate(S[o.i].get()); } catch(std::exception& e) { err=what(e); vh::count("refused"); }
                    model[o.i]=snap(S[o.i].get());
                    std::string v=key(model[o.i])+err;
                    auto it=memo.insert(std::make_pair(k,v));
                    if(it.first->second!=v) vh::violation("hidden","equal states are propagated to different ones",seq);
                }
                for(int q=0;q<N;q++) {
                    Snap now=snap(S[q].get());
                    std::string df=diff(model[q],now);
                    if(!df.empty()) { vh::violation("sequence","after "+o.str()+" state "+std::to_string(q)+" is not as expected: "+df,seq); return; }
                    vh::state(std::hash<std::string>()(key(now)));
                }
            }
            vh::count("evaluations"); vh::count("distinct_nontrivial");
        }
        int k=depth-1; while(k>=0 && ++ix[k]==(int)ops.size()) ix[k--]=0;
        if(k<0) break;
    }
}

// ---- derived quantities
static void derived(const std::vector<E>& es, const Beam& b, int edit, const std::string& id) {
    vh::crumb(id);
    std::unique_ptr<Machine> M(machine("MomentMatrix",es));
    std::unique_ptr<MomentState> S(beam(b));
    if(edit==1) { S->ref.IonEk*=1.02; for(auto& r: S->real) r.IonEk*=1.02; }
    if(edit==2) { for(auto& r: S->real) { r.IonW=1; r.gamma=7; r.beta=.5; r.bg=3; r.SampleIonK=9; r.SampleLambda=3; } S->ref.gamma=3; S->ref.beta=.9; S->ref.SampleIonK=4; S->ref.bg=1; S->ref.IonW=1; }
    for(int dir=0;dir<2;dir++) {
        try { if(dir==0) M->propagate(S.get()); else M->propagate(S.get(),es.size()-1,-(int)es.size()); } catch(std::exception&) { vh::count("refused"); return; }
        auto chk=[&](const Particle& p,const std::string& w){
            vh::count("particles");
            const double c0=299792458.0;
            double W=p.IonEs+p.IonEk, g=W/p.IonEs, be=std::sqrt(1-1/(g*g)), la=c0/p.SampleFreq*1e3, k=2*M_PI/(be*la);
            auto t=[&](const char* n,double x,double y){ if(!near(x,y,1e-12,0)) { std::ostringstream o; o.precision(17); o<<n<<" of "<<w<<" is "<<x<<" where its energies give "<<y; vh::violation("derived",o.str(),id+" | "+str(es)); } };
            t("IonW",p.IonW,W); t("gamma",p.gamma,g); t("beta",p.beta,be); t("bg",p.bg,be*g); t("SampleIonK",p.SampleIonK,k); t("SampleLambda",p.SampleLambda,la);
        };
        chk(S->ref,"the reference"); for(size_t i=0;i<S->real.size();i++) chk(S->real[i],"charge state "+std::to_string(i));
    }
    vh::count("evaluations"); vh::count("distinct_nontrivial");
}

static void memory(const Src& s) {
    vh::crumb("memory "+s.id);
    Snap first;
    for(int fb: {0x00,0x40,0xff}) {
        fillbyte=fb;
        std::unique_ptr<StateBase> S(s.make());
        fillbyte=-1;
        Snap now=snap(S.get());
        if(fb==0) first=now;
        else { std::string d=diff(first,now,1e-11,1e-13); if(!d.empty()) { vh::violation("memory","depends on what fresh memory held before: "+d,s.id); return; } }
        vh::count("memory_fills");
    }
}

int main(int argc, char** argv) {
    vh::init(argc,argv);
    registerMoment(); registerLinear();
    std::vector<Src> src=sources();
    unsigned long long c=0;
    for(auto& s: src) if(vh::mine(c++)) attributes(s);
    for(auto& a: src) for(auto& b: src) if(vh::mine(c++)) pairs(a,b);
    for(auto& s: src) if(vh::mine(c++)) memory(s);
    int depth= vh::thorough()? 5:4;
    {
        Beam A=beams()[0], K=beams()[10];
        std::vector<std::vector<E>> ms={probe("MomentMatrix"),{E{"stripper","s",Ps{P("IonChargeStates",V{76.0/238,77.0/238}),P("NCharge",V{20,30}),P("charge_model","off")}}}};
        sequences("MomentMatrix",{[A](){ return (StateBase*)beam(A); },[K](){ return (StateBase*)beam(K); }},ms,depth,c);
        sequences("MomentMatrix",{[A](){ return (StateBase*)beam(A); },[K](){ return (StateBase*)beam(K); },[](){ return alloc("MomentMatrix",Config()); }},ms,depth-1,c);
        for(std::string sim: {"Vector","TransferMatrix"})
            sequences(sim,{[sim](){ return alloc(sim,Config()); },[sim](){ Config c; c.set<V>("initial",V{1,2,3,4,5,6}); return alloc(sim,c); }},{probe(sim),{E{"drift","d",Ps{P("L",1.0)}}}},depth,c);
    }
    for(auto& k: kinds()) for(auto& b: beams()) for(int edit=0;edit<3;edit++) {
        if(vh::mine(c++)) derived({k.base},b,edit,"derived "+k.id+" "+b.id+" edit "+std::to_string(edit));
        for(size_t v=0;v<k.variants.size();v++) if(vh::mine(c++)) { E e=k.base; e.ps=with(e.ps,k.variants[v]); derived({e},b,edit,"derived "+k.id+"/"+std::to_string(v)+" "+b.id+" edit "+std::to_string(edit)); }
    }
    vh::sample("write every entry of every attribute of the state behind an RF cavity");
    vh::finish();
}
