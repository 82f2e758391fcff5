// Helpers to build configurations, machines and beams, and to compare states.
#ifndef FL_H
#define FL_H
#include <cmath>
#include <memory>
#include <boost/shared_ptr.hpp>
#include "flame/base.h"
#include "flame/moment.h"
#include "flame/linear.h"
#include "flame/state/vector.h"
#include "flame/state/matrix.h"
#include "vh.h"

namespace fl {
typedef std::vector<double> V;
struct P { // one parameter
    std::string k; int t; double d; std::string s; V v;
    P(const std::string& k, double d) :k(k),t(0),d(d) {}
    P(const std::string& k, int d) :k(k),t(0),d(d) {}
    P(const std::string& k, const std::string& s) :k(k),t(1),d(0),s(s) {}
    P(const std::string& k, const char* s) :k(k),t(1),d(0),s(s) {}
    P(const std::string& k, const V& v) :k(k),t(2),d(0),v(v) {}
    P(const std::string& k) :k(k),t(3),d(0) {} // delete (in variants)
    std::string str() const {
        std::ostringstream o; o.precision(17); o<<k<<"=";
        if(t==0) o<<d; else if(t==1) o<<'"'<<s<<'"'; else if(t==3) o<<"<none>";
        else { o<<"["; for(size_t i=0;i<v.size();i++) o<<(i?",":"")<<v[i]; o<<"]"; }
        return o.str();
    }
};
typedef std::vector<P> Ps;
inline Ps with(Ps a, const Ps& b) { // b overrides a
    for(auto& p: b) {
        bool hit=false;
        for(size_t i=0;i<a.size();i++) if(a[i].k==p.k) { hit=true; if(p.t==3) a.erase(a.begin()+i); else a[i]=p; break; }
        if(!hit && p.t!=3) a.push_back(p);
    }
    return a;
}
inline void put(Config& c, const Ps& ps) {
    for(auto& p: ps) {
        if(p.t==0) c.set<double>(p.k,p.d); else if(p.t==1) c.set<std::string>(p.k,p.s); else if(p.t==2) c.set<V>(p.k,p.v);
    }
}
struct E { // an element
    std::string type, name; Ps ps;
    Config conf() const { Config c; c.set<std::string>("type",type); c.set<std::string>("name",name); put(c,ps); return c; }
    std::string str() const { std::string r=name+":"+type; for(auto& p: ps) r+=","+p.str(); return r; }
};
inline std::string str(const std::vector<E>& es) { std::string r; for(auto& e: es) r+=e.str()+"; "; return r; }
inline Config mconf(const std::string& sim, const std::vector<E>& es, const Ps& globals=Ps()) {
    Config c; c.set<std::string>("sim_type",sim); put(c,globals);
    Config::vector_t l; for(auto& e: es) l.push_back(e.conf());
    c.set<Config::vector_t>("elements",l);
    return c;
}
inline Machine* machine(const std::string& sim, const std::vector<E>& es) { return new Machine(mconf(sim,es)); }

// ---- data directory with the repository's cavity data
inline std::string datadir() {
    auto it=vh::opts.find("data"); if(it==vh::opts.end()) vh::error("need --data"); return it->second;
}

// ---- state snapshots: every attribute the state publishes, by name
struct Snap { std::vector<std::string> n; V v; };
inline Snap snap(StateBase* S, bool bookkeeping=false) {
    Snap r;
    StateBase::ArrayInfo I;
    for(unsigned i=0;; i++) {
        StateBase::ArrayInfo I;
        if(!S->getArray(i,I)) break;
        std::string name(I.name);
        if(!bookkeeping && name=="next_elem") continue;
        size_t d[3]={1,1,1};
        for(unsigned k=0;k<I.ndim;k++) d[k]=I.dim[k];
        for(size_t a=0;a<d[0];a++) for(size_t b=0;b<d[1];b++) for(size_t c=0;c<d[2];c++) {
            size_t ix[3]={a,b,c};
            double val = I.type==StateBase::ArrayInfo::Double ? *I.get<double>(ix) : (double)*I.get<size_t>(ix);
            char buf[32]="";
            if(I.ndim==1) snprintf(buf,sizeof buf,"[%zu]",a);
            else if(I.ndim==2) snprintf(buf,sizeof buf,"[%zu][%zu]",a,b);
            else if(I.ndim==3) snprintf(buf,sizeof buf,"[%zu][%zu][%zu]",a,b,c);
            r.n.push_back(name+buf); r.v.push_back(val);
        }
    }
    // quantities the state does not publish through getArray
    if(MomentState* M=dynamic_cast<MomentState*>(S)) {
        auto add=[&](const std::string& p,const Particle& q){
            const double f[]={q.IonZ,q.IonQ,q.IonEs,q.IonW,q.gamma,q.beta,q.bg,q.SampleFreq,q.SampleLambda,q.SampleIonK,q.phis,q.IonEk};
            static const char* nm[]={"IonZ","IonQ","IonEs","IonW","gamma","beta","bg","SampleFreq","SampleLambda","SampleIonK","phis","IonEk"};
            for(int i=0;i<12;i++) { r.n.push_back(p+nm[i]); r.v.push_back(f[i]); }
        };
        add("particle_ref.",M->ref);
        for(size_t i=0;i<M->real.size();i++) add("particle_"+std::to_string(i)+".",M->real[i]);
        r.n.push_back("sizes"); r.v.push_back(M->real.size()*1e6+M->moment0.size()*1e4+M->moment1.size()*1e2+M->transmat.size());
    }
    return r;
}
inline bool near(double a, double b, double rtol, double atol) {
    if(a==b) return true;
    if(std::isnan(a)||std::isnan(b)) return std::isnan(a)&&std::isnan(b);
    if(std::isinf(a)||std::isinf(b)) return false;
    return std::fabs(a-b)<=atol+rtol*std::max(std::fabs(a),std::fabs(b));
}
// "" if equal
inline std::string diff(const Snap& a, const Snap& b, double rtol=0, double atol=0, const std::set<std::string>* skip=nullptr) {
    std::ostringstream o; o.precision(17);
    if(a.n!=b.n) { o<<"shapes differ ("<<a.n.size()<<" and "<<b.n.size()<<" values)"; return o.str(); }
    int n=0;
    for(size_t i=0;i<a.v.size();i++) {
        if(skip) { std::string base=a.n[i].substr(0,a.n[i].find('[')); if(skip->count(base)) continue; }
        if(!near(a.v[i],b.v[i],rtol,atol)) { if(n++<4) o<<a.n[i]<<": "<<a.v[i]<<" and "<<b.v[i]<<"; "; }
    }
    if(n>4) o<<"... "<<n<<" values";
    return o.str();
}
// matrices and centroids carry quantities of very different size (mm, rad, MeV/u): compare each
// entry relative to the largest entry of its row of the same attribute
inline std::string diffm(const Snap& a, const Snap& b, double rtol, const std::set<std::string>* skip=nullptr) {
    std::ostringstream o; o.precision(17);
    if(a.n!=b.n) { o<<"shapes differ ("<<a.n.size()<<" and "<<b.n.size()<<" values)"; return o.str(); }
    std::map<std::string,double> big;
    auto row=[&](const std::string& n){ size_t p=n.find(']'); return p==n.npos?n:n.substr(0,p); };
    for(size_t i=0;i<a.v.size();i++) { double& m=big[row(a.n[i])]; double x=std::max(std::fabs(a.v[i]),std::fabs(b.v[i])); if(x>m) m=x; }
    int n=0;
    for(size_t i=0;i<a.v.size();i++) {
        if(skip) { std::string base=a.n[i].substr(0,a.n[i].find('[')); if(skip->count(base)) continue; }
        if(!near(a.v[i],b.v[i],rtol,rtol*std::max(1e-3,big[row(a.n[i])]))) { if(n++<4) o<<a.n[i]<<": "<<a.v[i]<<" and "<<b.v[i]<<"; "; }
    }
    if(n>4) o<<"... "<<n<<" values";
    return o.str();
}

// ---- beams for MomentMatrix
struct Beam {
    std::string id; double Es, Ek; V Z, Q; double freq; double phis; double x; // x: scales centroids
    double refZ=0; // 0: first
};
inline V m1(double s) { // symmetric, positive definite in the first 6
    V r(49,0.0);
    const double d[6]={4.0,1e-6,3.0,2e-6,1e-3,2e-4};
    for(int i=0;i<6;i++) r[i*7+i]=d[i]*s;
    auto c=[&](int i,int j,double f){ double v=f*std::sqrt(d[i]*d[j])*s; r[i*7+j]=r[j*7+i]=v; };
    c(0,1,.3); c(2,3,-.2); c(4,5,.25); c(0,2,.1); c(1,3,.05); c(0,4,.07); c(3,5,-.06);
    return r;
}
inline Config bconf(const Beam& b) {
    Config c;
    c.set<double>("IonEs",b.Es); c.set<double>("IonEk",b.Ek); c.set<double>("SampleFreq",b.freq);
    c.set<V>("IonChargeStates",b.Z); c.set<V>("NCharge",b.Q);
    if(b.refZ!=0) c.set<double>("IonZ",b.refZ);
    for(size_t i=0;i<b.Z.size();i++) {
        double f=b.x*(1+0.3*i)*(i%2?-1:1);
        V v={1.2*f,3e-4*f,-0.8*f,2e-4*f,2e-3*f,1e-3*f,1.0};
        c.set<V>("moment0"+std::to_string(i),v);
        c.set<V>("initial"+std::to_string(i),m1(1+0.2*i));
    }
    return c;
}
inline MomentState* beam(const Beam& b) {
    MomentState* S=new MomentState(bconf(b));
    S->ref.phis+=b.phis;
    for(auto& r: S->real) r.phis+=b.phis;
    S->pos=0.5;
    return S;
}
inline std::vector<Beam> beams() {
    const double Es=931494320.0, z=33.0/238.0, z2=34.0/238.0, z3=32.0/238.0;
    std::vector<Beam> r;
    r.push_back(Beam{"A",Es,5e5,V{z},V{100},80.5e6,0.0,1.0});
    r.push_back(Beam{"B",Es,5e5,V{z,z2},V{100,70},80.5e6,0.0,1.0});
    r.push_back(Beam{"C",Es,5.2e5,V{z},V{100},80.5e6,0.0,1.0});       // other energy
    r.push_back(Beam{"D",Es,5e5,V{z},V{100},80.5e6,0.0,-0.5});        // other centroid
    r.push_back(Beam{"E",Es,5e5,V{z},V{100},80.5e6,0.4,1.0});         // other phase
    r.push_back(Beam{"F",Es,5e5,V{z},V{100},80.5e6,0.0,1.0,z2});      // other reference charge
    r.push_back(Beam{"G",Es,5e5,V{z},V{100},40.25e6,0.0,1.0});        // other sampling frequency
    r.push_back(Beam{"H",Es,5e5,V{z2,z},V{70,100},80.5e6,0.0,1.0});   // permuted
    r.push_back(Beam{"I",Es*1.01,5e5,V{z},V{100},80.5e6,0.0,1.0});    // other rest energy
    r.push_back(Beam{"J",Es,5e5,V{z},V{60},80.5e6,0.0,1.0});          // other amount
    r.push_back(Beam{"K",Es,5e5,V{z,z2,z3},V{100,70,30},80.5e6,0.2,0.7});
    return r;
}

// ---- one base configuration per element type of MomentMatrix, with parameter variants
struct Kind { std::string id; E base; std::vector<Ps> variants; bool reversible; };
inline V mat7(double eps) {
    V m(49,0.0);
    for(int i=0;i<7;i++) m[i*8]=1;
    m[1]=250; m[0*7+6]=0.3; m[1*7+0]=-1e-4*(1+eps); m[2*7+3]=200; m[3*7+2]=2e-4; m[4*7+5]=-3; m[5*7+4]=1e-2; m[3*7+6]=1e-4;
    return m;
}
inline std::vector<Kind> kinds(bool withrf=true) {
    std::vector<Kind> r;
    const Ps mis={P("dx",1e-3),P("dy",-2e-3),P("pitch",1e-3),P("yaw",2e-3),P("roll",0.1)};
    auto mv=[&](std::vector<Ps> v){ for(auto& p: mis) v.push_back(Ps{p}); v.push_back(mis); return v; };
    r.push_back(Kind{"marker",E{"marker","e",Ps{}},{},true});
    r.push_back(Kind{"bpm",E{"bpm","e",Ps{}},{},true});
    r.push_back(Kind{"drift",E{"drift","e",Ps{P("L",0.25)}},{Ps{P("L",0.0)},Ps{P("L",0.5)},Ps{P("L")}},true});
    r.push_back(Kind{"quadrupole",E{"quadrupole","e",Ps{P("L",0.25),P("B2",8.0)}},
        mv({Ps{P("B2",-8.0)},Ps{P("B2",0.0)},Ps{P("L",0.1)},
         Ps{P("ncurve",1.0),P("curve0",V{1,2,3,2,1}),P("scl_fac0",3.0)},
         Ps{P("ncurve",2.0),P("curve0",V{1,2,3}),P("curve1",V{3,2,1}),P("scl_fac0",3.0),P("scl_fac1",-2.0)},
         Ps{P("ncurve",1.0),P("curve0",V{1,2,3,2,1}),P("scl_fac0",3.0),P("use_range",V{1,4})}}),true});
    r.push_back(Kind{"solenoid",E{"solenoid","e",Ps{P("L",0.2),P("B",5.0)}},
        mv({Ps{P("B",-5.0)},Ps{P("B",0.0)},Ps{P("L",0.1)},
         Ps{P("ncurve",1.0),P("curve0",V{1,2,3,2,1}),P("scl_fac0",1.5)}}),true});
    r.push_back(Kind{"equad",E{"equad","e",Ps{P("L",0.2),P("V",2000.0),P("radius",0.05)}},
        mv({Ps{P("V",-2000.0)},Ps{P("V",0.0)},Ps{P("radius",0.06)},
         Ps{P("ncurve",1.0),P("curve0",V{1,2,3,2,1}),P("scl_fac0",1e5)}}),true});
    r.push_back(Kind{"sbend",E{"sbend","e",Ps{P("L",0.5),P("phi",20.0),P("phi1",5.0),P("phi2",-3.0)}},
        mv({Ps{P("phi",-20.0)},Ps{P("phi1",0.0)},Ps{P("phi2",10.0)},Ps{P("K",0.3)},Ps{P("K",-2.5)},
         Ps{P("HdipoleFitMode",0.0),P("bg",0.0328)},Ps{P("HdipoleFitMode","0"),P("bg",0.033)},Ps{P("L",0.4)}}),true});
    r.push_back(Kind{"edipole",E{"edipole","e",Ps{P("L",0.4),P("phi",30.0),P("ver",0.0),P("spher",0.0)}},
        mv({Ps{P("ver",1.0)},Ps{P("spher",1.0)},Ps{P("fringe_x",0.2)},Ps{P("fringe_y",-0.3)},Ps{P("asym_fac",0.05)},
         Ps{P("HdipoleFitMode",0.0),P("beta",0.033)},Ps{P("phi",-30.0)}}),true});
    r.push_back(Kind{"orbtrim",E{"orbtrim","e",Ps{P("theta_x",1e-3),P("theta_y",-5e-4)}},
        mv({Ps{P("theta_x",0.0)},Ps{P("theta_y",2e-3)},Ps{P("realpara",1.0),P("tm_xkick",1e-3),P("tm_ykick",2e-3)},Ps{P("xyrotate",30.0)},Ps{P("L",0.3)}}),true});
    r.push_back(Kind{"sextupole",E{"sextupole","e",Ps{P("L",0.1),P("B3",5.0)}},
        mv({Ps{P("B3",-5.0)},Ps{P("B3",0.0)},Ps{P("step",3.0)},Ps{P("thinlens",1.0)},Ps{P("dstkick",0.0)}}),false});
    r.push_back(Kind{"tmatrix",E{"tmatrix","e",Ps{P("matrix",mat7(0)),P("L",0.1)}},{Ps{P("matrix",mat7(1))},Ps{P("L",0.2)}},true});
    r.push_back(Kind{"stripper",E{"stripper","e",Ps{P("IonChargeStates",V{76.0/238,77.0/238,78.0/238}),P("NCharge",V{20,30,50}),P("charge_model","off")}},
        {Ps{P("charge_model","baron")},Ps{P("NCharge",V{1,2,3})},Ps{P("Stripper_IonZ",77.0/238)},Ps{P("Stripper_E1Para",1e-2)},
         Ps{P("Stripper_lambda",4.0)},Ps{P("Stripper_upara",3.0)},Ps{P("Stripper_Para",V{2,10,16e6})},Ps{P("Stripper_E0Para",V{16.3e6,1.01,-0.1})},
         Ps{P("charge_model","baron"),P("Stripper_IonMass",200.0)},Ps{P("charge_model","baron"),P("Stripper_IonProton",82.0)},
         Ps{P("IonChargeStates",V{0.3}),P("NCharge",V{7})}},false});
    {
        Beam b=beams()[1]; Config c=bconf(b);
        Ps ps={P("IonEs",b.Es),P("IonEk",b.Ek),P("IonChargeStates",b.Z),P("NCharge",b.Q)};
        for(int i=0;i<2;i++) { ps.push_back(P("moment0"+std::to_string(i),c.get<V>("moment0"+std::to_string(i)))); ps.push_back(P("initial"+std::to_string(i),c.get<V>("initial"+std::to_string(i)))); }
        V alt(7,0.1); alt[6]=1;
        r.push_back(Kind{"source",E{"source","e",ps},{Ps{P("IonEk",6e5)},Ps{P("NCharge",V{1,3})},Ps{P("cstate",1.0)},Ps{P("moment01",alt)},Ps{P("initial0",m1(2))},
            Ps{P("vector_variable","w"),P("w0",alt),P("w1",alt)},Ps{P("SampleFreq",40.25e6)}},false});
    }
    if(withrf) {
        std::string d=datadir();
        Ps rf={P("L",0.24),P("f",80.5e6),P("cavtype","0.041QWR"),P("phi",-10.0),P("scl_fac",0.64),P("Eng_Data_Dir",d)};
        r.push_back(Kind{"rfcavity",E{"rfcavity","e",rf},
            mv({Ps{P("phi",-30.0)},Ps{P("scl_fac",0.3)},Ps{P("scl_fac",0.0)},Ps{P("f",161e6)},Ps{P("cavtype","0.085QWR"),P("L",0.32)},
             Ps{P("MpoleLevel",0.0)},Ps{P("MpoleLevel","1")},Ps{P("syncflag",0.0)},Ps{P("forcettfcalc",1.0)},Ps{P("L",0.3)},
             Ps{P("cavtype","Generic"),P("datafile","thinlenlon_41.lat")},Ps{P("EmitGrowth",1.0)}}),true});
        Ps g=with(rf,Ps{P("cavtype","Generic"),P("datafile","thinlenlon_41_p.lat")});
        r.push_back(Kind{"rfgeneric",E{"rfcavity","e",g},
            mv({Ps{P("datafile","thinlenlon_41.lat")},Ps{P("datafile","thinlenlon_85_p.lat"),P("L",0.32)},Ps{P("cavtype","0.041QWR")},
             Ps{P("syncflag",2.0)},Ps{P("syncflag",0.0)},Ps{P("phi",-30.0)},Ps{P("scl_fac",0.3)}}),true});
    }
    return r;
}
// ---- linear simulations
inline std::vector<Kind> lkinds(bool vec) {
    std::vector<Kind> r;
    r.push_back(Kind{"marker",E{"marker","e",Ps{}},{Ps{P("L",0.1)}},true});
    r.push_back(Kind{"drift",E{"drift","e",Ps{P("L",0.25)}},{Ps{P("L",0.0)},Ps{P("L",0.5)}},true});
    r.push_back(Kind{"sbend",E{"sbend","e",Ps{P("L",0.5),P("phi",0.3)}},{Ps{P("phi",-0.3)},Ps{P("K",1.0)},Ps{P("K",-2.0)}},true});
    r.push_back(Kind{"quadrupole",E{"quadrupole","e",Ps{P("L",0.25),P("K",2.0)}},{Ps{P("K",-2.0)},Ps{P("K",0.0)},Ps{P("K")}},true});
    r.push_back(Kind{"solenoid",E{"solenoid","e",Ps{P("L",0.25),P("K",1.0)}},{Ps{P("K",-1.0)},Ps{P("K",0.0)}},true});
    V t; for(int i=0;i<36;i++) t.push_back((i%7==0)+0.01*i);
    V u; for(int i=0;i<12;i++) u.push_back(0.1*i);
    r.push_back(Kind{"generic",E{"generic","e",Ps{P("transfer",t)}},{Ps{P("transfer",u)},Ps{P("transfer",V())},Ps{P("L",1.0)}},true});
    r.push_back(Kind{"source",E{"source","e",Ps{P("initial",vec?V{1,2,3,4,5,6}:t)}},{Ps{P("initial",V{7,8})},Ps{P("initial")}},true});
    return r;
}
struct Count : public Observer { int n=0; virtual void view(const ElementVoid*, const StateBase*) { n++; } };
inline std::string what(std::exception& e) { return std::string(typeid(e).name())+": "+e.what(); }
}
#endif
