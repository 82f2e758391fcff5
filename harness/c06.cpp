// C06: every start, count, direction, observer set and redirection on small machines.
#include "fl.h"
using namespace fl;

// ---- an own simulation type which records what happens
struct TState : public StateBase {
    std::vector<std::string> log; long visits=0;
    TState(const Config& c) :StateBase(c) {}
    TState(const TState& o, clone_tag t) :StateBase(o,t), log(o.log) {}
    virtual ~TState() {}
    virtual void assign(const StateBase& o) { log=static_cast<const TState&>(o).log; StateBase::assign(o); }
    virtual StateBase* clone() const { return new TState(*this,clone_tag()); }
    virtual void show(std::ostream& s, int) const { s<<"T"<<log.size(); }
};
static std::vector<std::string> g_log; // elements and observers, in order
struct TElem : public ElementVoid {
    int to, once; bool back;
    TElem(const Config& c) :ElementVoid(c), to((int)c.get<double>("to",-1)), once((int)c.get<double>("times",0)), fail((int)c.get<double>("fail",0)) {}
    int fail;
    virtual ~TElem() {}
    virtual const char* type_name() const { return "t"; }
    virtual void advance(StateBase& s) {
        TState& S=static_cast<TState&>(s);
        if(fail) throw std::runtime_error("fail");
        S.pos += S.retreat? -length : length;
        S.log.push_back(name);
        g_log.push_back("E"+name+(S.retreat?"-":"+"));
        if(once>0) { once--; S.next_elem=to; }
    }
    virtual void assign(const ElementVoid* o) { ElementVoid::assign(o); }
};
struct TObs : public Observer {
    std::string id; TObs(const std::string& s) :id(s) {}
    virtual void view(const ElementVoid* e, const StateBase* s) {
        const TState* S=static_cast<const TState*>(s);
        std::ostringstream o; o<<"O"<<id<<":"<<e->name<<":"<<(S->log.empty()?"-":S->log.back())<<":"<<S->pos; g_log.push_back(o.str());
    }
};

struct Spec { int n; std::vector<int> to, times; unsigned obs; }; // redirections per element
static const double LENS[]={0.5,0.25,1.0,0.125,2.0};
struct Len { double operator[](int i) const { return LENS[i%5]; } };
static const Len LEN;

static Machine* build(const Spec& sp) {
    std::vector<E> es;
    for(int i=0;i<sp.n;i++) es.push_back(E{"t","e"+std::to_string(i),Ps{P("L",LEN[i]),P("to",(double)sp.to[i]),P("times",(double)sp.times[i])}});
    Machine* M=machine("Trace",es);
    for(int i=0;i<sp.n;i++) if(i<32 && (sp.obs>>i&1)) (*M)[i]->set_observer(new TObs((*M)[i]->name));
    return M;
}
// the oracle
struct Model {
    Spec sp; std::vector<std::string> log; std::vector<std::string> vis; double pos=0; long next=0;
    void prop(long start, long max) {
        long cnt= max<0? -max : max; bool back=max<0;
        next=start;
        for(long i=0; i<cnt && next>=0 && next<sp.n; i++) {
            long k=next; next+= back?-1:1;
            pos += back? -LEN[k] : LEN[k];
            std::string nm="e"+std::to_string(k);
            vis.push_back(nm);
            log.push_back("E"+nm+(back?"-":"+"));
            if(sp.times[k]>0) { sp.times[k]--; next=sp.to[k]; }
            if(k<32 && (sp.obs>>k&1)) { std::ostringstream o; o<<"O"<<nm<<":"<<nm<<":"<<nm<<":"<<pos; log.push_back(o.str()); }
        }
    }
};
static std::string join(const std::vector<std::string>& v) { std::string r; for(auto& s: v) r+=s+" "; return r; }

static void one(const Spec& sp, const std::vector<std::pair<long,int>>& props, const std::string& kase) {
    vh::crumb(kase);
    std::unique_ptr<Machine> M(build(sp));
    std::unique_ptr<TState> S(static_cast<TState*>(M->allocState()));
    Model m; m.sp=sp; g_log.clear();
    std::ostringstream tr; M->set_trace(&tr);
    bool cont=false;
    for(auto& p: props) {
        long st=p.first;
        if(st==-1) { m.prop(m.next,p.second); M->propagate(S.get(),S->next_elem,p.second); } // continue
        else { m.prop(st,p.second); M->propagate(S.get(),(size_t)st,p.second); }
        (void)cont;
    }
    vh::count("evaluations"); vh::count("distinct_nontrivial"); vh::count("visits",m.vis.size());
    std::string w;
    if(g_log!=m.log) w+="visited and observed: "+join(g_log)+" expected: "+join(m.log)+"; ";
    if(S->log!=m.vis) w+="state passed through "+join(S->log)+"; ";
    if(!near(S->pos,m.pos,1e-14,1e-14)) w+="position "+std::to_string(S->pos)+" expected "+std::to_string(m.pos)+"; ";
    if((long)S->next_elem!=m.next) w+="next element "+std::to_string((long)S->next_elem)+" expected "+std::to_string(m.next)+"; ";
    size_t lines=0; std::string t=tr.str(); for(char c: t) if(c=='\n') lines++;
    if(lines!=m.vis.size()) w+="trace has "+std::to_string(lines)+" lines; ";
    else { std::istringstream ts(t); std::string ln; for(auto& v: m.vis) { std::getline(ts,ln); std::string k=v.substr(1); if(ln.find("["+k+"] "+v+" ")==std::string::npos) { w+="trace of "+v+" says '"+ln.substr(0,60)+"'; "; break; } } }
    if(!w.empty()) vh::violation("visits",w,kase);
}

static void abstract() {
    std::vector<int> counts={0,1,2,3,4,5,INT_MAX,-1,-2,-3,-4,-5,-INT_MAX,INT_MIN};
    unsigned long long item=0;
    for(int n=0;n<=4;n++) {
        // (a) no redirection, all observers sets
        for(unsigned obs=0; obs<(1u<<n); obs++) for(long st=0; st<=n+1; st++) for(int c: counts) {
            if(!vh::mine(item++)) continue;
            Spec sp{n,std::vector<int>(n,0),std::vector<int>(n,0),obs};
            std::ostringstream k; k<<"n="<<n<<" obs="<<obs<<" propagate("<<st<<","<<c<<")";
            one(sp,{{st,c}},k.str());
            // continued by a second piece
            for(int c2: counts) { std::ostringstream k2; k2<<k.str()<<" continue("<<c2<<")"; one(sp,{{st,c},{-1,c2}},k2.str()); }
        }
        // huge starts
        for(size_t st: {(size_t)1000,(size_t)-1,(size_t)1<<40}) for(int c: {1,-1,INT_MAX}) {
            Spec sp{n,std::vector<int>(n,0),std::vector<int>(n,0),0};
            vh::crumb("huge start");
            std::unique_ptr<Machine> M(build(sp)); std::unique_ptr<TState> S(static_cast<TState*>(M->allocState()));
            M->propagate(S.get(),st,c);
            if(!S->log.empty()) vh::violation("visits","elements visited from a start beyond the end","huge start");
            vh::count("evaluations");
        }
        // (b) one or two elements redirect once or twice
        if(n>0) for(int a=0;a<n;a++) for(int ta=0;ta<=n;ta++) for(int na=1;na<=2;na++) for(int b=-1;b<n;b++) for(int tb=0;tb<(b<0?1:n+1);tb++) {
            if(b==a) continue;
            if(!vh::mine(item++)) continue;
            Spec sp{n,std::vector<int>(n,0),std::vector<int>(n,0),(1u<<n)-1};
            sp.to[a]=ta; sp.times[a]=na; if(b>=0) { sp.to[b]=tb; sp.times[b]=1; }
            for(long st=0; st<n; st++) for(int c: {1,2,3,4,7,INT_MAX,-1,-2,-3,-7,-INT_MAX}) {
                std::ostringstream k; k<<"n="<<n<<" redirect "<<a<<"->"<<ta<<"x"<<na; if(b>=0) k<<" "<<b<<"->"<<tb; k<<" propagate("<<st<<","<<c<<")";
                one(sp,{{st,c}},k.str());
                one(sp,{{st,c},{-1,2}},k.str()+" continue(2)");
            }
        }
    }
    // longer machines: every length up to 40 and some far longer ones, with starts and counts at both ends
    std::vector<int> ns; for(int n=5;n<=40;n++) ns.push_back(n); for(int n: {63,64,65,99,100,101,127,128,129,255,256,257,300,513,1000,1025}) ns.push_back(n);
    for(int n: ns) for(long st: {0l,1l,(long)n/2,(long)n-2,(long)n-1,(long)n}) for(int ct: {1,2,n/2,n-1,n,n+1,INT_MAX}) for(int sg: {1,-1}) {
        if(!vh::mine(item++)) continue;
        Spec sp{n,std::vector<int>(n,0),std::vector<int>(n,0),(1u<<std::min(n,31))-1};
        std::ostringstream k; k<<"n="<<n<<" propagate("<<st<<","<<sg*ct<<")";
        one(sp,{{st,sg*ct}},k.str());
        one(sp,{{st,sg*ct},{-1,3}},k.str()+" continue(3)");
        vh::count("long");
    }
    // a failing element ends the propagation; those before it were visited once
    for(int n=1;n<=4;n++) for(int f=0;f<n;f++) {
        std::vector<E> es; for(int i=0;i<n;i++) es.push_back(E{"t","e"+std::to_string(i),Ps{P("L",LEN[i]),P("fail",i==f?1.0:0.0)}});
        std::unique_ptr<Machine> M(machine("Trace",es)); std::unique_ptr<TState> S(static_cast<TState*>(M->allocState()));
        vh::crumb("failing element");
        bool thrown=false; try { M->propagate(S.get()); } catch(std::runtime_error&) { thrown=true; }
        if(!thrown || (int)S->log.size()!=f) vh::violation("visits","failing element","failing element "+std::to_string(f)+" of "+std::to_string(n));
        vh::count("evaluations");
    }
}

// ---- the real simulation types: splitting, positions, observers
struct RObs : public Observer {
    std::vector<std::pair<size_t,Snap>>* out; RObs(std::vector<std::pair<size_t,Snap>>* o) :out(o) {}
    virtual void view(const ElementVoid* e, const StateBase* s) { out->push_back(std::make_pair(e->index,snap(const_cast<StateBase*>(s)))); }
};
static void real() {
    unsigned long long item=0;
    for(int s=0;s<3;s++) {
        const char* sims[]={"MomentMatrix","Vector","TransferMatrix"}; std::string sim=sims[s];
        std::vector<Kind> K=s?lkinds(s==1):kinds();
        size_t N=K.size();
        std::vector<E> pool; for(auto& k: K) pool.push_back(k.base);
        if(s==0) for(auto& k: K) if(k.id=="sbend"||k.id=="quadrupole"||k.id=="solenoid") { E e=k.base; e.ps=with(e.ps,k.variants.back()); pool.push_back(e); } // misaligned
        N=pool.size();
        std::vector<Beam> B=beams();
        int len=3;
        std::vector<int> ix(len,0);
        while(true) {
            if(vh::mine(item++)) {
                std::vector<E> es; for(int i=0;i<len;i++) { E e=pool[ix[i]]; e.name="e"+std::to_string(i); es.push_back(e); }
                std::string kase=sim+" "+str(es); 
                auto st=[&](Machine& M)->StateBase*{ if(s==0) return beam(B[10]); Config c; c.set<V>("initial",V{1,2,3,4,5,6}); return M.allocState(c); };
                vh::crumb(kase);
                std::unique_ptr<Machine> M(machine(sim,es));
                std::vector<std::pair<size_t,Snap>> seen;
                for(int i=0;i<len;i++) (*M)[i]->set_observer(new RObs(&seen));
                std::unique_ptr<StateBase> W(st(*M)); double p0=W->pos;
                M->propagate(W.get());
                Snap whole=snap(W.get());
                std::string w;
                if(seen.size()!=(size_t)len) w+="observers called "+std::to_string(seen.size())+" times; ";
                for(size_t i=0;i<seen.size();i++) if(seen[i].first!=i) w+="observation order; ";
                if(!seen.empty() && !diff(seen.back().second,whole).empty()) w+="last observation differs from the result; ";
                // position: the lengths passed; a source replaces the state and with it the position (0)
                double p=p0; for(int i=0;i<len;i++) { if(es[i].type=="source") p=0; else p+=(*M)[i]->length; }
                if(!near(W->pos,p,1e-13,1e-13)) w+="position "+std::to_string(W->pos)+" expected "+std::to_string(p)+"; ";
                // splits: all 2^(len-1) ways, on the same machine and on a fresh one
                for(int cut=0; cut<(1<<(len-1)); cut++) for(int fresh=0; fresh<2; fresh++) {
                    std::unique_ptr<Machine> F(fresh?machine(sim,es):nullptr); Machine& MM=fresh?*F:*M;
                    std::unique_ptr<StateBase> S(st(MM));
                    int from=0;
                    size_t obs0=seen.size();
                    std::vector<Snap> mids;
                    for(int i=1;i<=len;i++) if(i==len || (cut>>(i-1)&1)) { MM.propagate(S.get(),from,i-from); from=i; }
                    std::string d=diff(snap(S.get()),whole,1e-11,1e-13);
                    if(!d.empty()) w+="split "+std::to_string(cut)+": "+d+"; ";
                    if(!fresh && seen.size()!=obs0+len) w+="observers in split; ";
                    vh::count("evaluations"); vh::count("splits");
                }
                vh::count("distinct_nontrivial");
                if(!w.empty()) vh::violation("split",w,kase);
                // back again, where that is defined (C09): the same elements in reverse, whole and in pieces
                for(int cut=0; cut<(1<<(len-1)); cut++) {
                    std::unique_ptr<StateBase> S(W->clone());
                    size_t obs0=seen.size(); std::string b;
                    bool refused=false;
                    try { int from=len-1; for(int i=1;i<=len;i++) if(i==len || (cut>>(i-1)&1)) { M->propagate(S.get(),from,-(i-(len-1-from))); from=len-1-i; } }
                    catch(std::exception&) { refused=true; }
                    vh::count("evaluations");
                    if(refused) { vh::count("back_refused"); break; }
                    vh::count("backward");
                    if(seen.size()!=obs0+len) b+="observers called "+std::to_string(seen.size()-obs0)+" times; ";
                    else for(int i=0;i<len;i++) if(seen[obs0+i].first!=(size_t)(len-1-i)) b+="observation order; ";
                    double q=W->pos; for(int i=0;i<len;i++) if(es[i].type!="source") q-=(*M)[i]->length;
                    if(!near(S->pos,q,1e-13,1e-13)) b+="position "+std::to_string(S->pos)+" expected "+std::to_string(q)+"; ";
                    if(!b.empty()) vh::violation("back","backward, split "+std::to_string(cut)+": "+b,kase);
                }
                // observed intermediate states equal partial propagations
                for(int i=0;i<len && i<(int)seen.size();i++) {
                    std::unique_ptr<Machine> F(machine(sim,es)); std::unique_ptr<StateBase> S(st(*F));
                    F->propagate(S.get(),0,i+1);
                    std::string d=diff(seen[i].second,snap(S.get()),1e-11,1e-13);
                    if(!d.empty()) vh::violation("observe","observer of element "+std::to_string(i)+" saw another state: "+d,kase);
                }
            }
            int q=len-1; while(q>=0 && ++ix[q]==(int)N) ix[q--]=0;
            if(q<0) break;
        }
    }
}

int main(int argc, char** argv) {
    vh::init(argc,argv);
    registerMoment(); registerLinear();
    Machine::registerState<TState>("Trace");
    Machine::registerElement<TElem>("Trace","t");
    abstract();
    if(!vh::opts.count("abstract")) real();
    vh::sample("n=3 redirect 1->0x2 propagate(0,7)");
    vh::finish();
}
