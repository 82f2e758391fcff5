// C07: every sequence of propagations up to a depth; the last result is compared with that of a fresh
// machine and of one with caching disabled.
#include "fillnew.h"
#include "fl.h"
using namespace fl;

struct Op { int mach; int beam; int start, n; bool rt=false; }; // rt: forward, then backward again
static std::vector<Beam> B;
static std::string opstr(const Op& o) { std::ostringstream s; s<<"m"<<o.mach<<":"<<B[o.beam].id<<"@"<<o.start<<(o.n<0?"":"+")<<o.n<<(o.rt?"~":""); return s.str(); }

// result of one propagation: the state, or an error
struct Res { bool ok; Snap s; std::string err; };
static Res run(Machine& M, const Op& o) {
    std::unique_ptr<MomentState> S(beam(B[o.beam]));
    Res r;
    try { M.propagate(S.get(),o.start,o.n); if(o.rt) M.propagate(S.get(),o.start+o.n-1,-o.n); r.ok=true; r.s=snap(S.get()); }
    catch(std::exception& e) { r.ok=false; r.err=what(e); }
    return r;
}
static double rtol=1e-11;
static std::string cmp(const Res& a, const Res& b) {
    if(a.ok!=b.ok) return a.ok? "succeeds where a fresh machine fails with "+b.err : "fails with "+a.err+" where a fresh machine succeeds";
    if(!a.ok) return "";
    return diff(a.s,b.s,rtol,rtol*1e-2);
}
static bool passes(const std::vector<E>& es, const Op& o, const char* type) {
    int n=std::abs(o.n);
    for(int i=0;i<n;i++) { int k=o.n<0? o.start-i : o.start+i; if(k<0||k>=(int)es.size()) break; if(es[k].type==type) return true; }
    return false;
}

// explore all sequences over ops up to depth
static void explore(const std::string& id, const std::vector<std::vector<E>>& ms, const std::vector<Op>& ops, int depth) {
    std::vector<Res> want, nocache;
    for(auto& o: ops) {
        vh::crumb(id+" fresh "+opstr(o));
        std::unique_ptr<Machine> M(machine("MomentMatrix",ms[o.mach]));
        want.push_back(run(*M,o));
        vh::state(id+opstr(o));
        // caching disabled
        std::vector<E> es=ms[o.mach];
        for(auto& e: es) e.ps=with(e.ps,Ps{P("skipcache",1.0)});
        std::unique_ptr<Machine> N(machine("MomentMatrix",es));
        nocache.push_back(run(*N,o));
        bool rfback = o.n<0 && passes(ms[o.mach],o,"rfcavity");
        if(!rfback) {
            std::string d=cmp(nocache.back(),want.back());
            if(!d.empty()) vh::violation("nocache","with caching disabled: "+d,id+" | "+str(ms[o.mach])+" | "+opstr(o));
        }
        vh::count("evaluations");
        // what the memory held before
        for(int fb: {0x00,0x40,0xff}) {
            fillbyte=fb;
            Res r;
            { std::unique_ptr<Machine> P(machine("MomentMatrix",ms[o.mach])); r=run(*P,o); }
            fillbyte=-1;
            std::string d=cmp(r,want.back());
            if(!d.empty()) vh::violation("memory","result depends on what fresh memory held before: "+d,id+" | "+str(ms[o.mach])+" | "+opstr(o));
            vh::count("memory_fills");
        }
    }
    size_t n=ops.size();
    for(int d=2; d<=depth; d++) {
        std::vector<int> ix(d,0);
        while(true) {
            const Op& last=ops[ix[d-1]];
            bool rfback = last.n<0 && passes(ms[last.mach],last,"rfcavity");
            // the last operation must follow one on the same machine somewhere, else it is a fresh machine
            bool touched=false; for(int i=0;i<d-1;i++) if(ops[ix[i]].mach==last.mach) touched=true;
            if(!rfback && touched) {
                std::string seq; for(int i=0;i<d;i++) seq+=opstr(ops[ix[i]])+" ";
                vh::crumb(id+" "+seq);
                std::vector<std::unique_ptr<Machine>> M;
                for(auto& m: ms) M.emplace_back(machine("MomentMatrix",m));
                for(int i=0;i<d-1;i++) run(*M[ops[ix[i]].mach],ops[ix[i]]);
                Res r=run(*M[last.mach],last);
                vh::count("evaluations"); vh::count("transitions",d); vh::count("distinct_nontrivial");
                if(!r.ok) vh::count("errors_compared");
                std::string df=cmp(r,want[ix[d-1]]);
                if(!df.empty()) vh::violation("history","after a history the result is different: "+df,id+" | "+str(ms[last.mach])+" | "+seq);
            }
            int k=d-1; while(k>=0 && ++ix[k]==(int)n) ix[k--]=0;
            if(k<0) break;
        }
    }
}

int main(int argc, char** argv) {
    vh::init(argc,argv);
    registerMoment();
    B=beams();
    { Beam z=B[0]; z.id="Z"; z.Ek=0; B.push_back(z); } // at rest: most elements refuse it
    std::vector<Kind> K=kinds();
    // configurations that fail when first used
    auto bad=[&](const char* id, const Ps& p){ for(auto& k: K) if(k.id==id) k.variants.push_back(p); };
    bad("quadrupole",Ps{P("B2")}); bad("quadrupole",Ps{P("ncurve",1.0)}); bad("solenoid",Ps{P("B")}); bad("equad",Ps{P("radius")});
    bad("sbend",Ps{P("phi1")}); bad("sbend",Ps{P("HdipoleFitMode",0.0)}); bad("edipole",Ps{P("spher")}); bad("edipole",Ps{P("HdipoleFitMode",3.0)});
    bad("tmatrix",Ps{P("matrix",V(48,0.0))}); bad("tmatrix",Ps{P("matrix")}); bad("sextupole",Ps{P("B3")}); bad("rfcavity",Ps{P("scl_fac")});
    unsigned long long item=0;
    int extra = vh::thorough()?1:0;
    for(auto& k: K) {
        bool rf=k.base.type=="rfcavity";
        for(size_t v=0; v<=k.variants.size(); v++) {
            E e=k.base; if(v) e.ps=with(e.ps,k.variants[v-1]);
            e.name="e";
            // a: the element alone, all beams, both directions
            {
                std::vector<Op> ops;
                int nb=B.size();
                for(int b=0;b<nb;b++) { ops.push_back(Op{0,b,0,1}); if(!rf || b==0 || b==1 || b==11) ops.push_back(Op{0,b,0,-1}); }
                if(vh::mine(item++)) explore(k.id+"/"+std::to_string(v)+"/a",{ {e} },ops,(rf||ops.size()>40)?2+extra:2+extra);
                // depth 3 (4) on the operations which differ in a way the caches could confuse
                std::vector<Op> few={Op{0,0,0,1},Op{0,0,0,-1},Op{0,1,0,1},Op{0,4,0,1},Op{0,5,0,1},Op{0,7,0,1},Op{0,11,0,1},Op{0,0,0,1,true},Op{0,1,0,1,true}};
                if(!rf) { few.push_back(Op{0,1,0,-1}); few.push_back(Op{0,3,0,-1}); }
                if(vh::mine(item++)) explore(k.id+"/"+std::to_string(v)+"/b",{ {e} },few,3+extra);
            }
            // b: between two others, partial ranges, and a second machine of another configuration
            {
                E d1{"drift","d1",Ps{P("L",0.3)}}, q2{"quadrupole","q2",Ps{P("L",0.2),P("B2",5.0)}};
                E f=k.base; size_t w=(v+1)%(k.variants.size()+1); if(w) f.ps=with(f.ps,k.variants[w-1]); f.name="f";
                std::vector<Op> ops={Op{0,0,0,3},Op{0,1,0,3},Op{0,0,1,1},Op{0,0,1,2},Op{0,1,2,-3},Op{0,0,1,-1},Op{1,0,0,2},Op{1,1,0,1},Op{0,0,0,3,true}};
                if(vh::mine(item++)) explore(k.id+"/"+std::to_string(v)+"/c",{ {d1,e,q2},{f,e} },ops,3);
            }
        }
    }
    // many charge states, growing and shrinking in number
    {
        std::vector<int> many;
        for(int N: {3,9,10,11,12,17}) {
            Beam b=B[1]; b.id="many"+std::to_string(N); b.Z.clear(); b.Q.clear(); b.x=0.2;
            for(int i=0;i<N;i++) { b.Z.push_back((33+(i%2?1:-1)*0.25*i)/238.0); b.Q.push_back(100-2.5*i); }
            many.push_back(B.size()); B.push_back(b);
        }
        for(auto& k: K) {
            E e=k.base; e.name="e";
            std::vector<Op> ops={Op{0,1,0,1}}; for(int b: many) ops.push_back(Op{0,b,0,1});
            if(vh::mine(item++)) explore(k.id+"/many",{ {e} },ops,3);
        }
    }
    // beams which are almost alike: a cache must not mistake one for the other
    const size_t near0=B.size();
    for(int b: {0,1}) for(double eps: {9e-10,1e-6}) {
        Beam x=B[b]; std::string id=x.id+(eps>1e-8?"+":"~");
        x.id=id+"k"; x.Ek*=1+eps; B.push_back(x); x=B[b];
        x.id=id+"s"; x.Es*=1+eps; B.push_back(x); x=B[b];
        x.id=id+"f"; x.freq*=1+eps; B.push_back(x); x=B[b];
        x.id=id+"p"; x.phis+=eps; B.push_back(x); x=B[b];
        x.id=id+"x"; x.x*=1+eps; B.push_back(x); x=B[b];
        for(size_t i=0;i<x.Z.size();i++) {
            x.id=id+"z"+std::to_string(i); x.Z[i]*=1+eps; x.refZ=B[b].Z[0]; B.push_back(x); x=B[b];
            x.id=id+"q"+std::to_string(i); x.Q[i]*=1+eps; B.push_back(x); x=B[b];
        }
        x.id=id+"r"; x.refZ=x.Z[0]*(1+eps); B.push_back(x);
    }
    rtol=2e-13;
    for(auto& k: K) for(size_t v=0; v<=k.variants.size(); v++) {
        E e=k.base; if(v) e.ps=with(e.ps,k.variants[v-1]);
        e.name="e";
        for(int b: {0,1}) if(vh::mine(item++)) {
            std::vector<Op> ops;
            ops.push_back(Op{0,b,0,1});
            for(size_t i=near0;i<B.size();i++) if(B[i].Z.size()==B[b].Z.size()) ops.push_back(Op{0,(int)i,0,1});
            explore(k.id+"/"+std::to_string(v)+"/n",{ {e} },ops,2);
        }
    }
    vh::sample("machine [drift, e, quadrupole] and [f, e]; sequence m0:A@0+3 m1:B@0+1 m0:A@1+1");
    vh::finish();
}
