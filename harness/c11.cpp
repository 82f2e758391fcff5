// C11: beam aggregates, independence of charge states, initialization and stripper against references.
#include "fl.h"
using namespace fl;

struct El { E e; std::string id; };
static std::string idof(const std::vector<El>& els) { std::string r; for(auto& e: els) r+=e.id+" "; return r; }

// smallest eigenvalue of the correlation matrix (Jacobi)
static double mineig(const std::vector<std::vector<double>>& a0) {
    int n=a0.size(); std::vector<std::vector<double>> a=a0;
    for(int sweep=0;sweep<60;sweep++) {
        double off=0; for(int i=0;i<n;i++) for(int j=0;j<i;j++) off+=a[i][j]*a[i][j];
        if(off<1e-24) break;
        for(int p=0;p<n;p++) for(int q=p+1;q<n;q++) if(a[p][q]!=0) {
            double th=(a[q][q]-a[p][p])/(2*a[p][q]), t=(th>=0?1:-1)/(std::fabs(th)+std::sqrt(th*th+1)), c=1/std::sqrt(t*t+1), s=t*c;
            for(int k=0;k<n;k++) { double x=a[k][p],y=a[k][q]; a[k][p]=c*x-s*y; a[k][q]=s*x+c*y; }
            for(int k=0;k<n;k++) { double x=a[p][k],y=a[q][k]; a[p][k]=c*x-s*y; a[q][k]=s*x+c*y; }
        }
    }
    double m=1e300; for(int i=0;i<n;i++) m=std::min(m,a[i][i]); return m;
}
template<typename M> static std::string envelope(const M& m, double tol=1e-7) {
    // in a thin beam (tol>1e-7) what is left of the variances is rounding
    static const double D[6]={4.0,1e-6,3.0,2e-6,1e-3,2e-4};
    double f= tol>1e-6?1e-12:0;
    std::ostringstream o; o.precision(17);
    std::vector<double> d; std::vector<int> ix;
    for(int i=0;i<6;i++) {
        if(m(i,i)<-f*D[i]) { o<<"variance "<<i<<" is negative ("<<m(i,i)<<")"; return o.str(); }
        for(int j=0;j<i;j++) { double s=std::sqrt(std::fabs(m(i,i)*m(j,j))); if(!(std::fabs(m(i,j)-m(j,i))<=.1*tol*s+f*std::sqrt(D[i]*D[j])+1e-300)) { o<<"not symmetric: ["<<i<<"]["<<j<<"] "<<m(i,j)<<" and "<<m(j,i); return o.str(); } }
        if(m(i,i)>f*D[i]) ix.push_back(i);
        else for(int j=0;j<6;j++) { double lim=f>0? 1e-5*std::sqrt(D[i]*std::fabs(m(j,j))+D[i]*D[j]):0; if(!(std::fabs(m(i,j))<=lim && std::fabs(m(j,i))<=lim)) { o<<"covariance with a quantity that has none"; return o.str(); } }
    }
    std::vector<std::vector<double>> c(ix.size(),std::vector<double>(ix.size()));
    for(size_t a=0;a<ix.size();a++) for(size_t b=0;b<ix.size();b++) c[a][b]=.5*(m(ix[a],ix[b])+m(ix[b],ix[a]))/std::sqrt(m(ix[a],ix[a])*m(ix[b],ix[b]));
    double e= ix.empty()?0:mineig(c);
    if(!(e>=-tol)) { o<<"not positive semidefinite: smallest eigenvalue of the correlation matrix "<<e; return o.str(); }
    return "";
}
// the definition, in long double
static std::string aggregates(const MomentState& S) {
    std::ostringstream o; o.precision(17);
    size_t n=S.real.size();
    if(n<1 || S.moment0.size()!=n || S.moment1.size()!=n || S.transmat.size()!=n) { o<<"arrays have lengths "<<n<<" "<<S.moment0.size()<<" "<<S.moment1.size()<<" "<<S.transmat.size(); return o.str(); }
    for(size_t k=0;k<n;k++) if(S.moment0[k].size()!=7 || S.moment1[k].size1()!=7 || S.moment1[k].size2()!=7 || S.transmat[k].size1()!=7 || S.transmat[k].size2()!=7) return "an array has the wrong shape";
    typedef long double L;
    L Q=0; for(auto& r: S.real) Q+=r.IonQ;
    L m0[7]; for(int j=0;j<7;j++) { m0[j]=0; for(size_t k=0;k<n;k++) m0[j]+=(L)S.moment0[k][j]*S.real[k].IonQ; m0[j]/=Q; }
    L m1[7][7];
    for(int i=0;i<7;i++) for(int j=0;j<7;j++) {
        m1[i][j]=0;
        if(i<6 && j<6) for(size_t k=0;k<n;k++) m1[i][j]+=S.real[k].IonQ*((L)S.moment1[k](i,j)+((L)S.moment0[k][i]-m0[i])*((L)S.moment0[k][j]-m0[j]));
        m1[i][j]/=Q;
    }
    for(int j=0;j<7;j++) {
        L s=0; for(size_t k=0;k<n;k++) s=std::max(s,std::fabs((L)S.moment0[k][j]));
        if(!near(S.moment0_env[j],m0[j],1e-11,(double)s*1e-11)) { o<<"moment0_env["<<j<<"] is "<<S.moment0_env[j]<<", the weighted mean "<<(double)m0[j]; return o.str(); }
        L r=std::sqrt(m1[j][j]);
        // relative to the size of the terms that cancel
        if(!near(S.moment0_rms[j],r,1e-9,(double)s*1e-6*1e-3)) { o<<"moment0_rms["<<j<<"] is "<<S.moment0_rms[j]<<", should be "<<(double)r; return o.str(); }
    }
    for(int i=0;i<7;i++) for(int j=0;j<7;j++) {
        double sc=std::sqrt(std::fabs((double)m1[i][i]*(double)m1[j][j]));
        double si=0,sj=0; for(size_t k=0;k<n;k++) { si=std::max(si,std::fabs(S.moment0[k][i])); sj=std::max(sj,std::fabs(S.moment0[k][j])); }
        if(!near(S.moment1_env(i,j),m1[i][j],1e-9,sc*1e-9+si*sj*1e-26)) { o<<"moment1_env["<<i<<"]["<<j<<"] is "<<S.moment1_env(i,j)<<", the weighted covariance "<<(double)m1[i][j]; return o.str(); }
    }
    return "";
}
static bool finite(MomentState& S) { Snap s=snap(&S); for(double x: s.v) if(!std::isfinite(x)) return false; return true; }

struct Obs : public Observer { std::string* out; int n=0; virtual void view(const ElementVoid* e, const StateBase* s) {
    n++; const MomentState& M=*static_cast<const MomentState*>(s);
    if(out->empty()) { std::string a=aggregates(M); if(!a.empty()) *out="behind element "+std::to_string(e->index)+": "+a; } } };

static void walk(const std::vector<El>& els, const Beam& b, int thin=0, bool centred=false) {
    std::string id=idof(els)+"beam "+b.id; if(thin) id+=" thin "+std::to_string(thin); if(centred) id+=" centred";
    vh::crumb("walk "+id);
    std::vector<E> es; for(size_t i=0;i<els.size();i++) { es.push_back(els[i].e); es.back().name="e"+std::to_string(i); }
    std::unique_ptr<Machine> M(machine("MomentMatrix",es));
    std::unique_ptr<MomentState> S(beam(b));
    // a beam without spread in some of its coordinates
    if(thin) for(auto& m: S->moment1) for(int i=0;i<6;i++) if(thin>>i&1) for(int j=0;j<7;j++) m(i,j)=m(j,i)=0;
    if(centred) for(auto& m: S->moment0) for(int i=0;i<6;i++) m[i]=0;
    S->calc_rms();
    std::string bad=aggregates(*S);
    if(!bad.empty()) vh::violation("initial","initial state: "+bad,id);
    std::string out; // observers belong to their elements
    for(size_t i=0;i<es.size();i++) { Obs* o=new Obs; o->out=&out; (*M)[i]->set_observer(o); }
    for(size_t i=0;i<es.size();i++) {
        vh::count("transitions");
        try { M->propagate(S.get(),i,1); } catch(std::exception& e) { vh::violation("refused",what(e),id+" | "+str(es)); break; }
        bool stopped=!(S->ref.IonEk>1e5); for(auto& r: S->real) if(!(r.IonEk>1e5)) stopped=true; // a beam that has lost (nearly) all its energy, outside of the validity of cavity data
        if(stopped) { vh::count("stopped"); break; }
        if(!finite(*S)) { vh::violation("nonfinite","a value is not finite behind element "+std::to_string(i),id+" | "+str(es)); break; }
        std::string a=aggregates(*S);
        if(!a.empty()) { vh::violation("aggregate","behind element "+std::to_string(i)+": "+a,id+" | "+str(es)); break; }
        std::string q;
        for(size_t k=0;k<S->size() && q.empty();k++) { q=envelope(S->moment1[k],thin?1e-4:1e-7); if(!q.empty()) q="charge state "+std::to_string(k)+": "+q; }
        if(q.empty()) { q=envelope(S->moment1_env,thin?1e-4:1e-7); if(!q.empty()) q="overall: "+q; }
        if(!q.empty()) { vh::violation("envelope","behind element "+std::to_string(i)+": "+q,id+" | "+str(es)); break; }
        if(!out.empty()) { vh::violation("observed","as an observer sees it, "+out,id+" | "+str(es)); break; }
    }
    vh::count("evaluations"); vh::count("distinct_nontrivial"); vh::state("walk "+id);
}

// every selection of charge states in every order evolves as each does alone
static void independence(const std::vector<El>& els, const Beam& b) {
    std::vector<E> es; for(size_t i=0;i<els.size();i++) { es.push_back(els[i].e); es.back().name="e"+std::to_string(i); }
    size_t n=b.Z.size();
    double refZ=b.refZ!=0? b.refZ : b.Z[0];
    auto build=[&](const std::vector<int>& sel){
        Beam c=b; c.Z.clear(); c.Q.clear(); for(int k: sel) { c.Z.push_back(b.Z[k]); c.Q.push_back(b.Q[k]); } c.refZ=refZ;
        std::unique_ptr<MomentState> all(beam(b)), S(beam(c));
        double q=all->ref.IonQ; S->ref=all->ref; S->ref.IonZ=refZ; S->ref.IonQ=q;
        for(size_t i=0;i<sel.size();i++) { S->real[i]=all->real[sel[i]]; S->moment0[i]=all->moment0[sel[i]]; S->moment1[i]=all->moment1[sel[i]]; S->transmat[i]=all->transmat[sel[i]]; }
        S->calc_rms();
        return S;
    };
    std::vector<std::vector<int>> sels;
    std::vector<int> p; for(size_t i=0;i<n;i++) p.push_back(i);
    std::set<std::vector<int>> seen;
if(n>4) { sels.push_back(p); std::reverse(p.begin(),p.end()); sels.push_back(p); } // many: all, in both orders
    else do { for(size_t len=1;len<=n;len++) { std::vector<int> s(p.begin(),p.begin()+len); if(seen.insert(s).second) sels.push_back(s); } } while(std::next_permutation(p.begin(),p.end()));
    std::vector<std::unique_ptr<MomentState>> single;
    for(auto& s: sels) {
        std::string id="independence "+idof(els)+"beam "+b.id+" states "; for(int k: s) id+=std::to_string(k);
        vh::crumb(id); vh::state(id);
        std::unique_ptr<Machine> M(machine("MomentMatrix",es));
        std::unique_ptr<MomentState> S=build(s);
        try { M->propagate(S.get()); } catch(std::exception& e) { vh::violation("refused",what(e),id+" | "+str(es)); return; }
        vh::count("transitions",es.size()); vh::count("evaluations"); vh::count("distinct_nontrivial");
        for(size_t i=0;i<s.size();i++) {
            std::unique_ptr<Machine> N(machine("MomentMatrix",es));
            std::unique_ptr<MomentState> T=build({s[i]});
            N->propagate(T.get());
            // put this one charge state into a state of its own
            std::unique_ptr<MomentState> U(T->clone());
            U->real[0]=S->real[i]; U->moment0[0]=S->moment0[i]; U->moment1[0]=S->moment1[i]; U->transmat[0]=S->transmat[i]; U->ref=S->ref; U->calc_rms(); U->pos=S->pos; U->last_caviphi0=S->last_caviphi0;
            std::string d=diff(snap(T.get()),snap(U.get()),1e-12,1e-14);
            if(!d.empty()) vh::violation("dependent","charge state "+std::to_string(s[i])+" alone and among others: "+d,id+" | "+str(es));
        }
    }
}

// ---- initialization: what the documentation says
static void init_case(int nics, int nq, int cst, int refs, int vname, int defect, const std::string& where) {
    // nics: -1 not given; cst: -1 not given
    std::ostringstream ids; ids<<"init ics="<<nics<<" ncharge="<<nq<<" cstate="<<cst<<" refs="<<refs<<" names="<<vname<<" defect="<<defect<<" "<<where;
    std::string id=ids.str(); vh::crumb(id);
    Config c; c.set<double>("IonEs",931494320.0); c.set<double>("IonEk",500000.0);
    std::string vn=vname?"vv":"moment0", mn=vname?"mm":"initial";
    if(vname) { c.set<std::string>("vector_variable",vn); c.set<std::string>("matrix_variable",mn); }
    V Z,Q; for(int i=0;i<nics;i++) Z.push_back((33+i)/238.0); for(int i=0;i<nq;i++) Q.push_back(i<4?100-20*i:100.0/(i+1));
    if(nics>=0) c.set<V>("IonChargeStates",Z); if(nq>=0) c.set<V>("NCharge",Q);
    if(cst>=0) c.set<double>("cstate",cst);
    if(refs&1) c.set<double>("IonZ",0.25); if(refs&2) c.set<double>("IonQ",42.0);
    auto v0=[&](int i){ V v={1.0+i,1e-3*(i+1),-2.0-i,2e-3,3e-3*(i+1),1e-3*(i+2),1.0}; return v; };
    auto m0=[&](int i){ V m=m1(1+i); if(refs&1) m[48]=1; return m; }; // [6][6] is no variance: the aggregates leave it out
    int nd=std::max(nics,1);
    if(nics<0) { c.set<V>(vn,v0(7)); c.set<V>(mn,m0(7)); }
    for(int i=0;i<nd;i++) {
        V v=v0(i), m=m0(i);
        if(defect==1 && i==nd-1) v.pop_back();
        if(defect==2 && i==nd-1) m.push_back(0);
        if(!(defect==3 && i==nd-1)) c.set<V>(vn+std::to_string(i),v);
        if(!(defect==4 && i==nd-1)) c.set<V>(mn+std::to_string(i),m);
    }
    // values of a charge state which isn't there
    c.set<V>(vn+std::to_string(nd),v0(nd)); c.set<V>(mn+std::to_string(nd),m0(nd));
    // expectation
    bool err=false; std::vector<int> sel;
    if(nics<0) { if(cst>=0) err=true; }
    else {
        if(nics==0) err=true; else if(cst>=nics) err=true; else if(nq!=nics) err=true;
        if(!err) { if(cst>=0) sel.push_back(cst); else for(int i=0;i<nics;i++) sel.push_back(i); }
        if(!err && defect) for(int k: sel) if(k==nd-1) err=true;
    }
    std::unique_ptr<MomentState> S; bool threw=false; std::string ew;
    std::unique_ptr<Machine> M;
    try {
        if(where=="state") S.reset(new MomentState(c));
        else if(where=="alloc") { M.reset(machine("MomentMatrix",{})); S.reset(static_cast<MomentState*>(M->allocState(c))); }
        else { // through a source element
            Config mc; mc.set<std::string>("sim_type","MomentMatrix");
            Config e; c.set<std::string>("type","source"); c.set<std::string>("name","s");
            Config::vector_t l; l.push_back(c); mc.set<Config::vector_t>("elements",l);
            M.reset(new Machine(mc)); S.reset(static_cast<MomentState*>(M->allocState(Config()))); M->propagate(S.get());
        }
    } catch(std::exception& e) { threw=true; ew=what(e); }
    vh::count("evaluations"); vh::count("distinct_nontrivial"); vh::count("inits"); vh::state(id);
    if(threw!=err) { vh::violation("init", threw? "refused: "+ew : "not refused",id); return; }
    if(threw) return;
    std::string a=aggregates(*S); if(!a.empty()) vh::violation("init-aggregate",a,id);
    if(nics<0) { if(S->size()!=1) vh::violation("init-empty","a state without charge states has size "+std::to_string(S->size()),id); return; }
    std::ostringstream o; o.precision(17);
    if(S->size()!=sel.size()) { vh::violation("init-size","state has "+std::to_string(S->size())+" charge states",id); return; }
    double rz= refs&1? 0.25 : Z[0], rq= refs&2? 42.0 : Q[0];
    if(S->ref.IonZ!=rz) o<<"reference charge "<<S->ref.IonZ<<" not "<<rz<<"; ";
    if(S->ref.IonQ!=rq) o<<"reference IonQ "<<S->ref.IonQ<<" not "<<rq<<"; ";
    if(S->ref.IonEk!=500000.0 || S->ref.phis!=0 || S->ref.IonEs!=931494320.0) o<<"reference energy or phase; ";
    for(size_t i=0;i<sel.size();i++) {
        int k=sel[i]; V v=v0(k), m=m0(k);
        if(S->real[i].IonZ!=Z[k]) o<<"charge "<<i<<"; "; if(S->real[i].IonQ!=Q[k]) o<<"amount "<<i<<"; ";
        for(int j=0;j<7;j++) if(S->moment0[i][j]!=v[j]) o<<"moment0 "<<i<<" "<<j<<"; ";
        for(int j=0;j<49;j++) if(S->moment1[i](j/7,j%7)!=m[j]) { o<<"moment1 "<<i<<" "<<j<<"; "; break; }
        for(int j=0;j<49;j++) if(S->transmat[i](j/7,j%7)!=(j/7==j%7)) { o<<"transmat "<<i<<"; "; break; }
        if(!near(S->real[i].phis,v[4],1e-14,0)) o<<"phase "<<i<<"; ";
        if(!near(S->real[i].IonEk,500000.0+v[5]*1e6,1e-14,0)) o<<"energy "<<i<<"; ";
        if(S->real[i].IonEs!=931494320.0) o<<"rest energy "<<i<<"; ";
    }
    if(!o.str().empty()) vh::violation("init-values","initialized with "+o.str(),id);
}

// ---- stripper: independent reference
static void stripper(const Ps& ps, const Beam& b, const std::string& id0, int edit) {
    std::string id="stripper "+id0+" beam "+b.id+" edit "+std::to_string(edit); vh::crumb(id); vh::state(id);
    E e{"stripper","s",ps};
    std::unique_ptr<Machine> M(machine("MomentMatrix",{e}));
    std::unique_ptr<MomentState> S(beam(b));
    S->pos=3;
    if(edit==1) { S->real[0].IonEk*=1.01; S->real.back().phis+=.3; }
    if(edit==2) S->moment0_env[0]=77; // stale aggregates must not matter
    Config c=e.conf();
    std::unique_ptr<MomentState> I(S->clone()); I->calc_rms();
    V Z=c.get<V>("IonChargeStates"), N=c.get<V>("NCharge");
    if(Z.size()!=N.size() && c.get<std::string>("charge_model","baron")=="off") {
        bool threw=false; try { M->propagate(S.get()); } catch(std::exception&) { threw=true; }
        if(!threw) vh::violation("stripper-lengths","amounts and charge states of different number are not refused",id+" | "+e.str());
        vh::count("evaluations"); return;
    }
    M->propagate(S.get());
    double sz=c.get<double>("Stripper_IonZ",78.0/238), mass=c.get<double>("Stripper_IonMass",238.0), prot=c.get<double>("Stripper_IonProton",92.0);
    double E1=c.get<double>("Stripper_E1Para",2.8874e-3), lam=c.get<double>("Stripper_lambda",5.5740), up=c.get<double>("Stripper_upara",2.6903);
    V P1=c.get<V>("Stripper_Para",V{3.0,20.0,16.623e6}), P2=c.get<V>("Stripper_E0Para",V{16.348e6,1.00547,-0.10681});
    V amt;
    if(c.get<std::string>("charge_model","baron")=="off") amt=N;
    else {
        double Es=I->real[0].IonEs, g=(Es+I->real[0].IonEk)/Es, be=std::sqrt(1-1/(g*g));
        double q1=prot*(1-std::exp(-83.275*be/std::pow(prot,0.447)));
        double q=q1*(1-std::exp(-12.905+0.2124*prot-0.00122*prot*prot)), y=q1/prot, d=std::sqrt(q1*(0.07535+0.19*y-0.2654*y*y));
        for(double z: Z) { double u=(z*mass-q)/d; amt.push_back(std::exp(-u*u/2)/(d*std::sqrt(2*M_PI))); }
    }
    double tot=0,ph=0,ek=0; for(auto& r: I->real) { tot+=r.IonQ; ph+=r.IonQ*r.phis; ek+=r.IonQ*r.IonEk; }
    ph/=tot; ek/=tot;
    auto foil=[&](double x){ return (x-P1[2])*P2[1]+P2[0]; };
    double T[6][6]; // covariance of the whole beam, grown in the three momenta
    for(int i=0;i<6;i++) for(int j=0;j<6;j++) { T[i][j]=0; for(size_t k=0;k<I->size();k++) T[i][j]+=I->real[k].IonQ*(I->moment1[k](i,j)+(I->moment0[k][i]-I->moment0_env[i])*(I->moment0[k][j]-I->moment0_env[j])); T[i][j]/=tot; }
    double sf=std::sqrt(1.0/3)*P1[1]/100*P1[0]*P2[2], sx=std::sqrt(up)/lam*1e-3;
    double G[6]={1,std::sqrt((T[1][1]+sx*sx)/T[1][1]),1,std::sqrt((T[3][3]+sx*sx)/T[3][3]),1,std::sqrt((T[5][5]+E1*E1+sf*sf)/T[5][5])};
    std::ostringstream o; o.precision(12);
    auto eq=[&](const std::string& n,double x,double y,double a=0){ if(!near(x,y,1e-10,a)) o<<n<<" "<<x<<" not "<<y<<"; "; };
    eq("number of charge states",S->size(),Z.size());
    if(S->size()==Z.size()) {
        eq("ref IonZ",S->ref.IonZ,sz); eq("ref IonEk",S->ref.IonEk,foil(I->ref.IonEk)); eq("ref phis",S->ref.phis,I->ref.phis); eq("ref IonQ",S->ref.IonQ,I->ref.IonQ); eq("ref Es",S->ref.IonEs,I->ref.IonEs);
        eq("pos",S->pos,3);
        for(size_t k=0;k<Z.size();k++) {
            std::string w="["+std::to_string(k)+"]";
            eq("IonZ"+w,S->real[k].IonZ,Z[k]); eq("IonQ"+w,S->real[k].IonQ,amt[k]); eq("IonEk"+w,S->real[k].IonEk,foil(ek)); eq("phis"+w,S->real[k].phis,ph); eq("IonEs"+w,S->real[k].IonEs,I->ref.IonEs); eq("freq"+w,S->real[k].SampleFreq,I->ref.SampleFreq);
            for(int i=0;i<7;i++) eq("moment0"+w,S->moment0[k][i],I->moment0_env[i],1e-15);
            for(int i=0;i<6;i++) for(int j=0;j<6;j++) eq("moment1"+w,S->moment1[k](i,j),T[i][j]*G[i]*G[j],1e-13*std::sqrt(T[i][i]*T[j][j])*G[i]*G[j]);
            for(int i=0;i<7;i++) for(int j=0;j<7;j++) eq("transmat"+w,S->transmat[k](i,j),i==j);
        }
    }
    vh::count("evaluations"); vh::count("distinct_nontrivial"); vh::count("strippers");
    if(!o.str().empty()) vh::violation("stripper",o.str(),id+" | "+e.str());
}

int main(int argc, char** argv) {
    vh::init(argc,argv);
    registerMoment();
    std::vector<Beam> bs=beams();
    std::vector<El> all, base;
    Ps strip;
    std::vector<Ps> sv;
    for(auto& k: kinds()) {
        El x{k.base,k.id}; all.push_back(x); base.push_back(x);
        for(size_t i=0;i<k.variants.size();i++) { E e=k.base; e.ps=with(e.ps,k.variants[i]); all.push_back(El{e,k.id+"/"+std::to_string(i)}); }
        if(k.id=="stripper") { strip=k.base.ps; sv=k.variants; }
    }
    unsigned long long c=0;
    for(auto& e: all) for(auto& b: bs) if(vh::mine(c++)) walk({e},b);
    for(auto& e: all) for(auto& f: vh::thorough()? all:base) for(int bi: {1,10}) { if(vh::mine(c++)) { walk({e,f},bs[bi]); if(!vh::thorough()) walk({f,e},bs[bi]); } }
    for(auto& e: base) for(auto& f: base) for(auto& g: base) if(vh::mine(c++)) walk({e,f,g},bs[10]);
    for(auto& e: all) for(int thin=1;thin<64;thin++) for(int bi: {0,10}) for(int ce=0;ce<2;ce++) if(vh::mine(c++)) {
        // the thick-lens sextupole is wrong for an offset that is vertical only: C12's known finding sextupole-offset
        if(ce && e.e.type=="sextupole" && !e.e.conf().get<double>("thinlens",0.0)) continue;
        walk({e},bs[bi],thin,ce);
    }
    auto mixes=[&](const El& e){ return e.e.type=="stripper"||e.e.type=="source"; };
    for(auto& e: all) if(!mixes(e)) for(int bi: {1,7,10}) if(vh::mine(c++)) independence({e},bs[bi]);
    for(auto& e: vh::thorough()? all:base) for(auto& f: base) if(!mixes(e) && !mixes(f)) for(int bi: {1,10}) if(vh::mine(c++)) independence({e,f},bs[bi]);
    // many charge states
    for(int N: {5,9,10,11,12,16,17,33}) {
        Beam b=bs[1]; b.id="many"+std::to_string(N); b.Z.clear(); b.Q.clear(); b.x=0.2;
        for(int i=0;i<N;i++) { b.Z.push_back((33+(i%2?1:-1)*0.25*i)/238.0); b.Q.push_back(100-2.5*i); }
        for(auto& e: base) { if(vh::mine(c++)) walk({e},b); if(!mixes(e) && vh::mine(c++)) independence({e},b); }
        for(int ed=0;ed<3;ed++) if(vh::mine(c++)) stripper(strip,b,"base",ed);
        Ps many=with(strip,Ps{P("IonChargeStates",b.Z),P("NCharge",b.Q),P("charge_model","off")});
        for(int bi: {0,1,10}) if(vh::mine(c++)) stripper(many,bs[bi],"many",0);
        for(const char* w: {"state","alloc","source"}) for(int cs=-1;cs<=N+1;cs++) for(int df=0;df<5;df++) for(int nq: {N-1,N}) if(vh::mine(c++)) init_case(N,nq,cs,3,0,df,w);
    }
    for(const char* w: {"state","alloc","source"}) for(int ni=-1;ni<=4;ni++) for(int nq=-1;nq<=4;nq++) for(int cs=-1;cs<=4;cs++) for(int rf=0;rf<4;rf++) for(int vn=0;vn<2;vn++) for(int df=0;df<5;df++)
        if(vh::mine(c++)) init_case(ni,nq,cs,rf,vn,df,w);
    // stripper: every parameter alone and every pair of parameters, every beam
    for(auto& b: bs) for(int ed=0;ed<3;ed++) {
        if(vh::mine(c++)) stripper(strip,b,"base",ed);
        for(size_t i=0;i<sv.size();i++) {
            if(vh::mine(c++)) stripper(with(strip,sv[i]),b,"variant "+std::to_string(i),ed);
            for(size_t j=0;j<sv.size();j++) if(i!=j && vh::mine(c++)) stripper(with(with(strip,sv[i]),sv[j]),b,"variants "+std::to_string(i)+" "+std::to_string(j),ed);
        }
    }
    vh::sample("aggregates behind each element of quadrupole, rfcavity, stripper with beam K");
    vh::finish();
}
