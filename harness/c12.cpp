// C12: for every combination of a grid of parameter values, the map an element applies is compared with an
// independently written one: the matrix exponential of the equation of motion, thin edges, and misalignment
// written as a change of coordinates. What an element reports as its matrix is what it applied.
#include "fl.h"
#include <array>
using namespace fl;
typedef std::array<std::array<double,7>,7> M7;
typedef std::array<double,7> V7;
static const double CC=2.99792458e8, PI=3.14159265358979323846;
static M7 ident() { M7 r; for(auto& x: r) x.fill(0); for(int i=0;i<7;i++) r[i][i]=1; return r; }
static M7 zero() { M7 r; for(auto& x: r) x.fill(0); return r; }
static M7 operator*(const M7& a, const M7& b) { M7 r=zero(); for(int i=0;i<7;i++) for(int j=0;j<7;j++) for(int k=0;k<7;k++) r[i][j]+=a[i][k]*b[k][j]; return r; }
static M7 tr(const M7& a) { M7 r; for(int i=0;i<7;i++) for(int j=0;j<7;j++) r[i][j]=a[j][i]; return r; }
// natural size of the coordinates (mm, rad, mm, rad, rad, MeV/u, 1), to bring matrix entries to a common scale
static const double U[7]={1,1e-3,1,1e-3,1e-1,1e-2,1};
static M7 expm(const M7& A, double L) { // exp(A L), in scaled coordinates
    M7 B; double n=0;
    for(int i=0;i<7;i++) for(int j=0;j<7;j++) { B[i][j]=A[i][j]*L*U[j]/U[i]; n=std::max(n,std::fabs(B[i][j])); }
    int s=0; while(n>0.05 && s<60) { n/=2; s++; }
    double f=std::ldexp(1.0,-s);
    for(auto& r: B) for(auto& x: r) x*=f;
    // exp(B)-1 by series, doubled by (1+X)^2-1 = 2X+X^2
    M7 X=zero(), T=ident();
    for(int k=1;k<16;k++) { T=T*B; for(auto& r: T) for(auto& x: r) x/=k; for(int i=0;i<7;i++) for(int j=0;j<7;j++) X[i][j]+=T[i][j]; }
    for(int k=0;k<s;k++) { M7 Y=X*X; for(int i=0;i<7;i++) for(int j=0;j<7;j++) X[i][j]=2*X[i][j]+Y[i][j]; }
    for(int i=0;i<7;i++) for(int j=0;j<7;j++) { X[i][j]+=i==j; X[i][j]*=U[i]/U[j]; }
    return X;
}
static M7 affine(std::function<V7(V7)> f) { // matrix of an affine map
    M7 r=zero(); V7 o{}; V7 c=f(o);
    for(int j=0;j<6;j++) { V7 e{}; e[j]=1; V7 y=f(e); for(int i=0;i<6;i++) r[i][j]=y[i]-c[i]; }
    for(int i=0;i<6;i++) r[i][6]=c[i];
    r[6][6]=1; return r;
}
static std::string num(double x) { char b[40]; snprintf(b,sizeof b,"%.17g",x); return b; }
static std::string cmp(const M7& a, const M7& b, double tol=1e-9) {
    for(int i=0;i<7;i++) { double big=1; for(int j=0;j<7;j++) big=std::max(big,std::fabs(a[i][j]*U[j]/U[i]));
        for(int j=0;j<7;j++) if(!(std::fabs(a[i][j]-b[i][j])*U[j]/U[i]<=tol*big)) return "entry ["+std::to_string(i)+"]["+std::to_string(j)+"] is "+num(b[i][j])+", should be "+num(a[i][j]); }
    return "";
}
struct Part { double Z,Es,Ek,lam,gamma,beta,bg,k; double brho() const { return Es*bg/(CC*Z); } };
static Part part(const Particle& p) { // from the independent quantities only
    Part r; r.Z=p.IonZ; r.Es=p.IonEs; r.Ek=p.IonEk; r.lam=CC/p.SampleFreq*1e3;
    r.gamma=1+r.Ek/r.Es; r.bg=std::sqrt(r.gamma*r.gamma-1); r.beta=r.bg/r.gamma; r.k=2*PI/(r.beta*r.lam); return r;
}
struct Par { const E& e; // parameter access
    double d(const char* k,double def) const { for(auto& p: e.ps) if(p.k==k) return p.t==1? atof(p.s.c_str()) : p.d; return def; }
    const V* v(const std::string& k) const { for(auto& p: e.ps) if(p.k==k) return &p.v; return nullptr; }
};
// generator pieces
static M7 gdrift(const Part& p) { M7 A=zero(); A[0][1]=1; A[2][3]=1; A[4][5]=-2*PI/(p.lam*p.Es/1e6*p.bg*p.bg*p.bg); return A; }
static M7 gquad(const Part& p,double K) { M7 A=gdrift(p); A[1][0]=-K; A[3][2]=K; return A; }
static M7 gsol(const Part& p,double K) { // motion in the frame following the field: x'=px+Ky etc.
    M7 A=gdrift(p); A[0][2]=K; A[2][0]=-K; A[1][3]=K; A[3][1]=-K; A[1][0]=-K*K; A[3][2]=-K*K; return A; }
// misalignment: coordinates seen by an element which is displaced and rotated about its centre
static V7 rot(const V7& v,double dx,double dy,double pitch,double yaw,double roll,bool inv) {
    double r[3]={v[0],v[2],v[4]}, p[3]={v[1],v[3],v[5]};
    if(!inv) { r[0]-=dx; r[1]-=dy; }
    auto turn=[](double* a,int i,int j,double t){ double c=std::cos(t),s=std::sin(t),x=a[i],y=a[j]; a[i]=c*x+s*y; a[j]=c*y-s*x; };
    if(!inv) for(double* a: {r,p}) { turn(a,1,2,pitch); turn(a,0,2,yaw); turn(a,0,1,roll); }
    else for(double* a: {r,p}) { turn(a,0,1,-roll); turn(a,0,2,-yaw); turn(a,1,2,-pitch); }
    if(inv) { r[0]+=dx; r[1]+=dy; }
    return V7{r[0],p[0],r[1],p[1],r[2],p[2],1};
}
static M7 misal(const E& e,const Part& p,double len,bool out) {
    Par c{e};
    double dx=c.d("dx",0)*1e3,dy=c.d("dy",0)*1e3,pi=c.d("pitch",0),ya=c.d("yaw",0),ro=c.d("roll",0);
    double zs=-p.k, es=p.beta*p.beta*p.gamma*p.Es/1e6, h=len*1e3/2;
    return affine([=](V7 v){
        v[4]/=zs; v[5]/=es;
        v[4]+= out? h : -h; v[5]+=1;
        v=rot(v,dx,dy,pi,ya,ro,out);
        v[4]-= out? h : -h; v[5]-=1;
        v[4]*=zs; v[5]*=es; return v; });
}
static M7 kick(int i,int j,double v) { M7 r=ident(); r[i][j]+=v; return r; }
// the map of element e for one charge state
static M7 refmap(const E& e,const Part& r,const Part& ref,double& len) {
    Par c{e}; const std::string& t=e.type; double L=c.d("L",0)*1e3; len=c.d("L",0);
    if(t=="marker"||t=="bpm") { len=0; return ident(); }
    if(t=="drift") return expm(gdrift(r),L);
    M7 T=ident();
    int nc=c.d("ncurve",0);
    if(t=="quadrupole"||t=="solenoid"||t=="equad") {
        std::vector<double> str; // strength per slice
        if(nc) {
            const V* rg=c.v("use_range");
            for(int n=0;n<nc;n++) {
                const V& cv=*c.v("curve"+std::to_string(n)); size_t a=rg?(*rg)[0]:0,b=rg?(*rg)[1]:cv.size();
                if(!n) str.assign(b-a,0.0);
                for(size_t i=a;i<b;i++) str[i-a]+=cv[i]*c.d(("scl_fac"+std::to_string(n)).c_str(),0);
            }
        } else str.push_back(t=="quadrupole"? c.d("B2",0) : t=="solenoid"? c.d("B",0) : c.d("V",0)/(c.d("radius",0)*c.d("radius",0)));
        for(double s: str) {
            double dL=L/str.size();
            M7 A= t=="quadrupole"? gquad(r,s/r.brho()/1e6) : t=="solenoid"? gsol(r,s/(2*r.brho())/1e3) : gquad(r,2*s/(CC*r.beta)/r.brho()/1e6);
            T=expm(A,dL)*T;
        }
    } else if(t=="orbtrim") {
        len=0;
        double tx=c.d("theta_x",0),ty=c.d("theta_y",0);
        if(c.d("realpara",0)==1) { tx=c.d("tm_xkick",0)/ref.brho(); ty=c.d("tm_ykick",0)/ref.brho(); }
        T=kick(1,6,tx*r.Z/ref.Z)*kick(3,6,ty*r.Z/ref.Z);
    } else if(t=="tmatrix") {
        const V& m=*c.v("matrix"); for(int i=0;i<49;i++) T[i/7][i%7]=m[i]; return T;
    } else if(t=="sbend") {
        if(L==0) return T;
        double phi=c.d("phi",0)*PI/180, h=phi/L, K=c.d("K",0)/1e6, q=(r.Z-ref.Z)/ref.Z;
        bool fit=c.d("HdipoleFitMode",1)!=0;
        double g=ref.gamma,b=ref.beta,d=-q;
        if(!fit) { double bg=c.d("bg",0); g=std::sqrt(bg*bg+1); b=bg/g; d=(ref.gamma-g)/(b*b*g)-q; }
        double k=2*PI/(b*ref.lam), es=b*b*g*ref.Es/1e6;
        M7 A=zero(); A[0][1]=1; A[1][0]=-(K+h*h); A[1][5]=h/es; A[1][6]=h*d; A[2][3]=1; A[3][2]=K;
        A[4][0]=k*h; A[4][5]=-k/(ref.gamma*ref.gamma)/es; A[4][6]=-k/(ref.gamma*ref.gamma)*(d+q);
        auto edge=[&](double a){ return kick(1,0,std::tan(a)*h)*kick(3,2,-std::tan(a)*h); };
        T=edge(c.d("phi2",0)*PI/180)*expm(A,L)*edge(c.d("phi1",0)*PI/180);
    } else if(t=="edipole") {
        if(L==0) return T;
        double phi=c.d("phi",0)*PI/180, b=ref.beta, ka=c.d("asym_fac",0), sp=c.d("spher",0);
        if(c.d("HdipoleFitMode",1)==0) b=c.d("beta",ref.beta);
        double eta=(1/std::sqrt(1-b*b)-1)/2, g1=1+2*eta, Er=(r.beta*r.beta/r.Z)/(b*b/ref.Z), eL=Er*L, h=phi/eL;
        double dK=(Er-1)-(r.Ek-ref.Ek)/r.Ek, dZ=ref.Z/r.Z-1, scl=(r.gamma-1)*ref.Es/1e6, w=2*(1+eta)*g1;
        double Nk=(g1*g1+1)/w, Nt=1+1/(g1*g1), Nz=(g1-1)/w, ct=r.gamma/(1+r.gamma);
        M7 A=zero(); A[0][1]=1; A[1][0]=-(1-sp+g1*g1)*h*h; A[1][5]=h*Nk/scl; A[2][3]=1; A[3][2]=-sp*h*h;
        A[4][0]=r.k*ct*Nt*h; A[4][5]=-r.k*ct/w/scl;
        M7 F=expm(A,eL);
        // constant terms act on the transverse motion only
        A[4][0]=0; A[1][6]=h*(Nk*dK+Nz*dZ); M7 G=expm(A,eL); F[0][6]=G[0][6]; F[1][6]=G[1][6];
        M7 ed=ident(); ed[1][0]=c.d("fringe_x",0)/1e3; ed[1][1]=std::sqrt(1+ka); ed[3][2]=c.d("fringe_y",0)/1e3; ed[5][5]=1+ka;
        T=ed*F*ed;
        if(c.d("ver",0)==1) {
            M7 R=zero(); R[0][2]=R[1][3]=-1; R[2][0]=R[3][1]=1; for(int i=4;i<7;i++) R[i][i]=1;
            T=R*T*tr(R);
        }
    } else vh::error("no reference for "+t);
    T=misal(e,r,len,true)*T*misal(e,r,len,false);
    if(t=="orbtrim") { double a=c.d("xyrotate",0)*PI/180; if(a!=0) T=T*affine([=](V7 v){ return rot(v,0,0,0,0,a,false); }); }
    return T;
}
static M7 get7(const MomentState::matrix_t& m) { M7 r; for(int i=0;i<7;i++) for(int j=0;j<7;j++) r[i][j]=m(i,j); return r; }
static V7 get7(const MomentState::vector_t& m) { V7 r; for(int i=0;i<7;i++) r[i]=m(i); return r; }
static std::string cmpmoments(const V7& m0,const M7& m1,const MomentState& S,size_t k,double tol=1e-9) {
    V7 g=get7(S.moment0[k]); double big=1; for(int i=0;i<7;i++) big=std::max(big,std::fabs(m0[i]/U[i]));
    for(int i=0;i<7;i++) if(!(std::fabs(g[i]-m0[i])/U[i]<=tol*big)) return "moment0["+std::to_string(i)+"] of charge state "+std::to_string(k)+" is "+num(g[i])+", should be "+num(m0[i]);
    M7 h=get7(S.moment1[k]); big=1; for(int i=0;i<7;i++) big=std::max(big,std::fabs(m1[i][i]/U[i]/U[i]));
    for(int i=0;i<7;i++) for(int j=0;j<7;j++) if(!(std::fabs(h[i][j]-m1[i][j])/U[i]/U[j]<=tol*big)) return "moment1["+std::to_string(i)+"]["+std::to_string(j)+"] of charge state "+std::to_string(k)+" is "+num(h[i][j])+", should be "+num(m1[i][j]);
    return "";
}
static void times(const M7& T,V7& m0,M7& m1) { V7 o{}; for(int i=0;i<7;i++) for(int j=0;j<7;j++) o[i]+=T[i][j]*m0[j]; m0=o; m1=T*m1*tr(T); }
static MomentState* mkbeam(const Beam& b,int detune) {
    MomentState* S=beam(b);
    if(detune) for(size_t k=0;k<S->real.size();k++) S->real[k].IonEk*= 1+0.01*(k+1)*(k%2?-1:1);
    S->recalc(); S->calc_rms();
    return S;
}
// sextupole: depends on the beam, slice by slice
// known: the offset taken by the thick sextupole (see KNOWN_FINDINGS): sqrt(2)|Dx| instead of sqrt(Dx^2+Dy^2)
static void sextref(const E& e,const Part& r,V7& m0,M7& m1,M7& tot,bool known) {
    Par c{e}; double L=c.d("L",0)*1e3, K=c.d("B3",0)/r.brho()/1e9; int step=c.d("step",1);
    bool thin=c.d("thinlens",0)==1, dst=c.d("dstkick",1)==1; double dL=L/step;
    M7 Mi=misal(e,r,c.d("L",0),false), Mo=misal(e,r,c.d("L",0),true);
    tot=ident(); times(Mi,m0,m1);
    for(int i=0;i<step;i++) {
        double Dx=m0[0],Dy=m0[2]; M7 T;
        if(thin) {
            M7 D=zero(); D[0][1]=1; D[2][3]=1; D=expm(D,dL/2);
            M7 Q=ident(); Q[1][0]=-K*dL*Dx; Q[1][2]=K*dL*Dy; Q[3][0]=K*dL*Dy; Q[3][2]=K*dL*Dx;
            T=D*Q*D;
        } else if(known) {
            double R=std::sqrt(2*Dx*Dx), q=std::sqrt(std::fabs(K)*R), x=K<0?-Dx:Dx, y=K<0?-Dy:Dy;
            T=ident();
            if(q==0) { T[0][1]=T[2][3]=dL; }
            else {
                double c0=std::cos(q*dL),s0=std::sin(q*dL),c1=std::cosh(q*dL),s1=std::sinh(q*dL),a=(R+x)/(2*R),b=(R-x)/(2*R),d=y/(2*R);
                T[0][0]=T[1][1]=a*c0+b*c1; T[2][2]=T[3][3]=b*c0+a*c1; T[0][1]=(a*s0+b*s1)/q; T[2][3]=(b*s0+a*s1)/q;
                T[1][0]=q*(b*s1-a*s0); T[3][2]=q*(a*s1-b*s0);
                T[0][2]=T[2][0]=T[1][3]=T[3][1]=d*(c1-c0); T[0][3]=T[2][1]=d*(s1-s0)/q; T[1][2]=T[3][0]=d*q*(s0+s1);
            }
        } else {
            M7 A=zero(); A[0][1]=1; A[2][3]=1; A[1][0]=-K*Dx; A[1][2]=K*Dy; A[3][0]=K*Dy; A[3][2]=K*Dx;
            T=expm(A,dL);
        }
        T[4][5]=gdrift(r)[4][5]*dL;
        if(dst) { T[1][6]=-K*dL*(m1[0][0]-m1[2][2]); T[3][6]=2*K*dL*m1[0][2]; }
        times(T,m0,m1); tot=T*tot;
    }
    times(Mo,m0,m1); tot=Mo*tot*Mi;
}
static void one(const E& e,const Beam& b,int detune,bool rf) {
    std::string id=e.str()+" beam "+b.id+(detune?" detuned":"");
    vh::crumb(id);
    std::unique_ptr<Machine> M(machine("MomentMatrix",{e}));
    std::unique_ptr<MomentState> S(mkbeam(b,detune));
    std::unique_ptr<StateBase> s0(S->clone()); MomentState& I=static_cast<MomentState&>(*s0);
    try { M->propagate(S.get()); } catch(std::exception& x) { vh::violation("refused","an element with valid parameters fails: "+what(x),id); return; }
    vh::count("evaluations"); vh::count("distinct_nontrivial"); vh::count("transitions"); vh::state(id);
    Part ref=part(I.ref); double len=Par{e}.d("L",0);
    for(size_t k=0;k<S->real.size();k++) {
        Part r=part(I.real[k]);
        V7 m0=get7(I.moment0[k]), a0; M7 m1=get7(I.moment1[k]), a1; a0=m0; a1=m1;
        M7 rep=get7(S->transmat[k]); std::string d;
        // what is reported is what was applied
        if(rf) { bool fin=true; for(auto& x: rep) for(double y: x) fin&=std::isfinite(y); if(!fin) { vh::count("nonfinite"); return; } } // energy outside the range of the field data
        times(rep,a0,a1);
        if(!(d=cmpmoments(a0,a1,*S,k)).empty()) { vh::violation("reported","the state is not the reported matrix times the input: "+d,id); return; }
        if(rf) continue;
        M7 T;
        if(e.type=="sextupole") {
            V7 k0=m0; M7 k1=m1, KT; sextref(e,r,k0,k1,KT,true);
            sextref(e,r,m0,m1,T,false);
            if((!(d=cmp(T,rep)).empty() || !(d=cmpmoments(m0,m1,*S,k)).empty()) && cmp(KT,rep).empty() && cmpmoments(k0,k1,*S,k).empty()) {
                static bool once=false; vh::count("sextupole_offset");
                if(!once) { once=true; vh::violation("sextupole-offset","transfer matrix: "+d,id); }
                T=KT; m0=k0; m1=k1;
            }
        }
        else { T=refmap(e,r,ref,len); times(T,m0,m1); }
        if(!(d=cmp(T,rep)).empty()) { vh::violation("map","transfer matrix of charge state "+std::to_string(k)+": "+d,id); return; }
        if(!(d=cmpmoments(m0,m1,*S,k)).empty()) { vh::violation("moments",d,id); return; }
        // symplectic where the type demands it (in x,px,y,py,z,dp/p)
        if(e.type=="drift"||e.type=="quadrupole"||e.type=="solenoid"||e.type=="equad"||e.type=="orbtrim"||e.type=="sbend") {
            bool mis=false; for(auto& p: e.ps) if((p.k=="pitch"||p.k=="yaw") && p.d!=0) mis=true; // rotations mix z with dp/p scaled differently
            const double kz=e.type=="sbend"? ref.k:r.k, es=e.type=="sbend"? ref.beta*ref.beta*ref.gamma*ref.Es/1e6 : r.beta*r.beta*r.gamma*r.Es/1e6;
            double sc[6]={1,1e-3,1,1e-3,-kz,es*1e-3};
            bool mode0= e.type=="sbend" && Par{e}.d("HdipoleFitMode",1)==0;
            if(!mis && !mode0) {
                double J[6][6]={{0}}; for(int i=0;i<3;i++) { J[2*i][2*i+1]=1; J[2*i+1][2*i]=-1; }
                for(int i=0;i<6;i++) for(int j=0;j<6;j++) {
                    double s=0,big=1; for(int p=0;p<6;p++) for(int q=0;q<6;q++) if(J[p][q]!=0) { double t=rep[p][i]/sc[p]*sc[i]*J[p][q]*rep[q][j]/sc[q]*sc[j]; s+=t; big=std::max(big,std::fabs(t)); }
                    if(!(std::fabs(s-J[i][j])<=1e-8*big)) { vh::violation("symplectic","the matrix of charge state "+std::to_string(k)+" is not symplectic",id); return; }
                }
                vh::count("symplectic");
            }
        }
        double want=I.real[k].phis+r.k*len*1e3;
        if(e.type=="sbend") want+=m0[4]-I.moment0[k][4];
        if(!near(want,S->real[k].phis,1e-9,1e-9)) { vh::violation("phase","phase of charge state "+std::to_string(k)+" is "+num(S->real[k].phis)+", should be "+num(want),id); return; }
        if(S->real[k].IonEk!=I.real[k].IonEk || S->real[k].IonZ!=I.real[k].IonZ || S->real[k].IonQ!=I.real[k].IonQ) { vh::violation("energy","energy, charge or weight changed",id); return; }
    }
    if(rf) return;
    if(!near(I.ref.phis+ref.k*len*1e3,S->ref.phis,1e-9,1e-9)) vh::violation("phase-ref","reference phase is "+num(S->ref.phis),id);
    if(S->ref.IonEk!=I.ref.IonEk || S->ref.IonZ!=I.ref.IonZ) vh::violation("energy-ref","reference energy or charge changed",id);
    if(!near(I.pos+len,S->pos,1e-12,1e-12)) vh::violation("pos","position is "+num(S->pos),id);
}
// all combinations of one alternative from each list
static void grid(const E& base,const std::vector<std::vector<Ps> >& axes,std::function<void(const E&)> f) {
    std::vector<size_t> ix(axes.size(),0);
    for(;;) {
        E e=base; for(size_t i=0;i<axes.size();i++) e.ps=with(e.ps,axes[i][ix[i]]);
        f(e);
        size_t i=0; for(;i<axes.size();i++) { if(++ix[i]<axes[i].size()) break; ix[i]=0; }
        if(i==axes.size()) return;
    }
}
static std::vector<Ps> ax(const char* k,V v) { std::vector<Ps> r; for(double x: v) r.push_back(Ps{P(k,x)}); return r; }

// ---- linear simulations: 6x6
typedef std::array<std::array<double,6>,6> M6;
static M6 ref6(const E& e) {
    Par c{e}; double L=c.d("L",0)*1e3; M7 A=zero(); A[0][1]=1; A[2][3]=1; M7 T=ident();
    double K=c.d("K",0);
    if(e.type=="drift") T=expm(A,L);
    else if(e.type=="quadrupole") { A[1][0]=-K/1e6; A[3][2]=K/1e6; T=expm(A,L); }
    else if(e.type=="sbend") { double h=c.d("phi",0)/L; A[1][0]=-(K/1e6+h*h); A[3][2]=K/1e6; T=expm(A,L); }
    else if(e.type=="solenoid") { K/=1e3; A[0][2]=K; A[2][0]=-K; A[1][3]=K; A[3][1]=-K; A[1][0]=A[3][2]=-K*K; T=expm(A,L); }
    M6 r; for(int i=0;i<6;i++) for(int j=0;j<6;j++) r[i][j]=T[i][j];
    if(e.type=="generic") { const V& v=*c.v("transfer"); for(size_t i=0;i<v.size();i++) r[i/6][i%6]=v[i]; }
    return r;
}
static void linear(const std::vector<E>& es) {
    std::string id="linear "+str(es);
    vh::crumb(id);
    M6 T; for(int i=0;i<6;i++) for(int j=0;j<6;j++) T[i][j]=i==j;
    for(auto& e: es) { M6 m=ref6(e),r; for(int i=0;i<6;i++) for(int j=0;j<6;j++) { r[i][j]=0; for(int k=0;k<6;k++) r[i][j]+=m[i][k]*T[k][j]; } T=r; }
    double big[6]; for(int i=0;i<6;i++) { big[i]=1; for(int j=0;j<6;j++) big[i]=std::max(big[i],std::fabs(T[i][j]*U[j]/U[i])); }
    std::vector<E> named=es; for(size_t i=0;i<named.size();i++) named[i].name="e"+std::to_string(i);
    std::unique_ptr<Machine> MM(machine("TransferMatrix",named)), MV(machine("Vector",named));
    vh::count("evaluations"); vh::count("distinct_nontrivial"); vh::state(id); vh::count("transitions",named.size()*7);
    std::unique_ptr<StateBase> S(MM->allocState());
    MM->propagate(S.get());
    MatrixState& X=static_cast<MatrixState&>(*S);
    for(int i=0;i<6;i++) for(int j=0;j<6;j++) if(!(std::fabs(X.state(i,j)-T[i][j])*U[j]/U[i]<=1e-9*big[i])) { vh::violation("linear-matrix","entry ["+std::to_string(i)+"]["+std::to_string(j)+"] is "+num(X.state(i,j))+", should be "+num(T[i][j]),id); return; }
    for(int j=0;j<6;j++) {
        std::unique_ptr<StateBase> R(MV->allocState()); VectorState& v=static_cast<VectorState&>(*R);
        for(int i=0;i<6;i++) v.state[i]=i==j;
        MV->propagate(R.get());
        for(int i=0;i<6;i++) if(!(std::fabs(v.state[i]-T[i][j])*U[j]/U[i]<=1e-9*big[i])) { vh::violation("linear-vector","component "+std::to_string(i)+" of the image of unit vector "+std::to_string(j)+" is "+num(v.state[i])+", should be "+num(T[i][j]),id); return; }
    }
}

int main(int argc,char** argv) {
    vh::init(argc,argv);
    registerMoment(); registerLinear();
    std::vector<Beam> bs=beams();
    const double Es=931494320.0;
    bs.push_back(Beam{"fast",Es,2e8,V{78.0/238,79.0/238},V{1,2},80.5e6,0.3,1.0});
    bs.push_back(Beam{"slow",Es,1.2e4,V{33.0/238,34.0/238},V{3,2},80.5e6,-0.3,1.0});
    bs.push_back(Beam{"centred",Es,5e5,V{33.0/238},V{1},80.5e6,0,0.0});
    std::vector<int> few={0,10,(int)bs.size()-3};
    std::vector<std::pair<int,int> > bd; // beam, detune
    if(vh::thorough()) for(size_t i=0;i<bs.size();i++) { bd.push_back({i,0}); bd.push_back({i,1}); }
    else { for(size_t i=0;i<bs.size();i++) bd.push_back({i,0}); bd.push_back({1,1}); bd.push_back({10,1}); }
    unsigned long long c=0;
    // misalignments: none, each alone with both signs, all; thorough: every combination of signs
    std::vector<Ps> mis={Ps{}};
    const char* mk[]={"dx","dy","pitch","yaw","roll"}; const double mv[]={1e-3,2e-3,3e-3,2e-3,0.2};
    for(int i=0;i<5;i++) for(int s=-1;s<2;s+=2) mis.push_back(Ps{P(mk[i],s*mv[i])});
    mis.push_back(Ps{P("dx",1e-3),P("dy",-2e-3),P("pitch",1e-3),P("yaw",2e-3),P("roll",0.1)});
    if(vh::thorough()) {
        mis.clear();
        for(int x=0;x<243;x++) { int y=x; Ps p; for(int i=0;i<5;i++,y/=3) if(y%3) p.push_back(P(mk[i],(y%3==1?1:-1)*mv[i])); mis.push_back(p); }
    }
    auto run=[&](const E& e){ for(auto& b: bd) if(vh::mine(c++)) one(e,bs[b.first],b.second,false); };
    run(E{"marker","e",Ps{}}); run(E{"bpm","e",Ps{}}); run(E{"marker","e",Ps{P("L",0.2)}});
    grid(E{"drift","e",Ps{}},{ax("L",V{0,0.1,0.25,1,10})},run);
    const std::vector<Ps> curves={Ps{},Ps{P("ncurve",1.0),P("curve0",V{1,2,-3,2,0}),P("scl_fac0",3.0)},Ps{P("ncurve","2"),P("curve0",V{1,2,3}),P("curve1",V{3,0,1}),P("scl_fac0",3.0),P("scl_fac1",-2.0)},
        Ps{P("ncurve",1.0),P("curve0",V{1,2,3,2,1}),P("scl_fac0",3.0),P("use_range",V{1,4})},Ps{P("ncurve",2.0),P("curve0",V{1,2,3}),P("curve1",V{3,0,1}),P("scl_fac1",-2.0)}};
    grid(E{"quadrupole","e",Ps{}},{ax("L",V{0,0.1,0.25}),ax("B2",V{-17,-8,0,1e-9,3}),curves,mis},[&](const E& e){ if(Par{e}.d("ncurve",0) && Par{e}.d("B2",0)!=3) return; run(e); });
    grid(E{"solenoid","e",Ps{}},{ax("L",V{0,0.1,0.25}),ax("B",V{-6,-1,0,1e-9,3}),curves,mis},[&](const E& e){ if(Par{e}.d("ncurve",0) && Par{e}.d("B",0)!=3) return; run(e); });
    // every non-empty range of curves, with one to eleven curves
    {
        std::vector<Ps> rc;
        for(int a=0;a<=5;a++) for(int z=a+1;z<=6;z++) for(int n: {1,2}) {
            Ps p{P("ncurve",(double)n),P("curve0",V{1,2,-3,2,0.5,4}),P("scl_fac0",3.0),P("use_range",V{(double)a,(double)z})};
            if(n==2) { p.push_back(P("curve1",V{-2,0,1,5,3,-1})); p.push_back(P("scl_fac1",-2.0)); }
            rc.push_back(p);
        }
        for(int n: {3,10,11,12}) { Ps p{P("ncurve",(double)n)}; for(int i=0;i<n;i++) { p.push_back(P("curve"+std::to_string(i),V{1.0+i,2-0.3*i,-3+i*i*0.1})); p.push_back(P("scl_fac"+std::to_string(i),0.3*i-0.7)); } rc.push_back(p); }
        std::vector<Ps> few={Ps{},mis.back()};
        grid(E{"quadrupole","e",Ps{}},{ax("L",V{0.25}),ax("B2",V{3}),rc,few},run);
        grid(E{"solenoid","e",Ps{}},{ax("L",V{0.25}),ax("B",V{3}),rc,few},run);
        for(auto& p: rc) for(auto& q: p) if(q.k.compare(0,3,"scl")==0) q.d*=3e4;
        grid(E{"equad","e",Ps{}},{ax("L",V{0.2}),ax("V",V{2000}),ax("radius",V{0.04}),rc,few},run);
    }
    std::vector<Ps> ecurves=curves; for(auto& p: ecurves) for(auto& q: p) if(q.k.compare(0,3,"scl")==0) q.d*=3e4;
    grid(E{"equad","e",Ps{}},{ax("L",V{0,0.2}),ax("V",V{-4000,0,2000}),ax("radius",V{0.04,0.07}),ecurves,mis},[&](const E& e){ if(Par{e}.d("ncurve",0) && Par{e}.d("V",0)!=2000) return; run(e); });
    // K=-(phi/L)^2: no focusing at all; K below: defocusing in the bending plane
    {
        double ph=20*PI/180; double L=0.5;
        grid(E{"sbend","e",Ps{}},{ax("L",V{0,0.5}),ax("phi",V{-20,0,20}),ax("phi1",V{0,7}),ax("phi2",V{0,-11}),ax("K",V{0,0.7,-0.3,-ph*ph/L/L,-3.0}),
            {Ps{},Ps{P("HdipoleFitMode",0.0),P("bg",0.0328)},Ps{P("HdipoleFitMode","0"),P("bg",0.034)},Ps{P("HdipoleFitMode","1"),P("bg",0.05)}},mis},run);
    }
    grid(E{"edipole","e",Ps{}},{ax("L",V{0,0.4}),ax("phi",V{-30,0,30}),ax("ver",V{0,1}),ax("spher",V{0,1,2.5}),
        {Ps{},Ps{P("fringe_x",0.2)},Ps{P("fringe_y",-0.3)},Ps{P("asym_fac",0.05)},Ps{P("fringe_x",-0.1),P("fringe_y",0.1),P("asym_fac",-0.02)}},
        {Ps{},Ps{P("HdipoleFitMode",0.0),P("beta",0.033)},Ps{P("HdipoleFitMode","0")},Ps{P("beta",0.04)},Ps{P("HdipoleFitMode","1"),P("beta",0.025)}},mis},run);
    grid(E{"orbtrim","e",Ps{}},{ax("theta_x",V{0,1e-3}),ax("theta_y",V{0,-2e-3}),ax("realpara",V{0,1,2}),ax("tm_xkick",V{0,1e-3}),ax("tm_ykick",V{0,-2e-3}),ax("xyrotate",V{0,30,-90}),ax("L",V{0,0.3}),mis},run);
    grid(E{"sextupole","e",Ps{}},{ax("L",V{0,0.1,0.3}),ax("B3",V{-50,0,5,200}),ax("step",V{1,2,5}),ax("thinlens",V{0,1}),ax("dstkick",V{0,1}),mis},run);
    for(int i=0;i<3;i++) { E e{"tmatrix","e",Ps{P("matrix",mat7(i)),P("L",0.1*i)}}; run(e); }
    // cavities and the rest: what they report is what they apply
    for(auto& k: kinds()) if(k.id=="rfcavity"||k.id=="rfgeneric") {
        std::vector<E> es={k.base}; for(auto& v: k.variants) { E e=k.base; e.ps=with(e.ps,v); es.push_back(e); }
        for(auto& e: es) { if(Par{e}.d("EmitGrowth",0)) continue; for(auto& b: bd) if(vh::mine(c++)) one(e,bs[b.first],b.second,true); }
    }
    // a cavity without field is a drift (its centroid is followed to second order in the energy offset);
    // turning the phase by 360 degrees changes nothing
    for(auto& k: kinds()) if(k.id=="rfcavity"||k.id=="rfgeneric") {
        std::vector<E> es={k.base}; for(auto& v: k.variants) { E e=k.base; e.ps=with(e.ps,v); es.push_back(e); }
        es.push_back(k.base); es.back().ps=with(es.back().ps,k.id=="rfcavity"? Ps{P("cavtype","0.085QWR"),P("L",0.30)} : Ps{P("datafile","thinlenlon_85_p.lat"),P("L",0.30)});
        for(auto& e: es) for(auto& b: bd) for(int m=0;m<3;m++) if(vh::mine(c++)) {
            if(Par{e}.d("EmitGrowth",0)) continue;
            E a=e, d=e;
            if(m==0) { a.ps=with(a.ps,Ps{P("scl_fac",0.0)}); d=E{"drift","e",Ps{P("L",Par{e}.d("L",0))}}; bool mis=false; for(auto& p: e.ps) for(auto n: mk) mis|=p.k==n; double fl=0.24; for(auto& p: e.ps) if(p.s.find("85")!=std::string::npos) fl=0.30; if(bs[b.first].Z.size()>1 || b.second) continue; // real particles and centroids are made consistent by the cavity first
                if(mis || Par{e}.d("L",0)!=fl) continue; }
            else d.ps=with(d.ps,Ps{P("phi",Par{e}.d("phi",0)+(m==1?360:-720))});
            std::string id=std::string(m?"turn ":"nofield ")+a.str()+" beam "+bs[b.first].id; vh::crumb(id);
            std::unique_ptr<Machine> A(machine("MomentMatrix",{a})), B(machine("MomentMatrix",{d}));
            std::unique_ptr<MomentState> S(mkbeam(bs[b.first],b.second)), T(mkbeam(bs[b.first],b.second));
            try { A->propagate(S.get()); B->propagate(T.get()); } catch(std::exception& x) { vh::violation("rf-refused","a cavity fails: "+what(x),id); continue; }
            vh::count("evaluations"); vh::count("distinct_nontrivial"); vh::count("transitions",2); vh::state(id);
            if(bs[b.first].id=="slow") continue; // outside the range of the field data
            Snap x=snap(S.get()), y=snap(T.get());
            if(m==0) for(size_t i=0;i<x.n.size();i++) { const std::string& n=x.n[i];
                if(n.compare(0,14,"transmat[4][6]")==0 || n.compare(0,10,"moment0[4]")==0 || n=="moment0_env[4]" || n=="moment0_rms[4]") { if(near(x.v[i],y.v[i],1e-2,2e-3)) x.v[i]=y.v[i]=0; }
                else if(n.compare(0,11,"moment1_env")==0 && n.find("[4]")!=n.npos) { if(near(x.v[i],y.v[i],5e-2,5e-3)) x.v[i]=y.v[i]=0; }
                else if(n.find("phis")!=n.npos) { if(near(x.v[i],y.v[i],1e-4,2e-3)) x.v[i]=y.v[i]=0; } }
            static std::set<std::string> skip={"last_caviphi0"};
            std::string df=diffm(x,y,1e-6,&skip);
            if(!df.empty()) vh::violation(m?"rf-turn":"rf-nofield",std::string(m?"turning the phase by whole turns changes the result: ":"a cavity without field is not a drift: ")+df,id);
        }
    }
    // flags: a number and its text mean the same, anything but a value in range is refused
    {
        E cav,gen; for(auto& k: kinds()) { if(k.id=="rfcavity") cav=k.base; if(k.id=="rfgeneric") gen=k.base; }
        struct F { E e; const char* n; int top; };
        std::vector<F> fs={{E{"sbend","e",Ps{P("L",0.5),P("phi",20.0),P("phi1",7.0),P("phi2",-11.0),P("K",0.7),P("bg",0.034)}},"HdipoleFitMode",1},
            {E{"edipole","e",Ps{P("L",0.4),P("phi",30.0),P("ver",0.0),P("spher",1.0),P("beta",0.033)}},"HdipoleFitMode",1},
            {E{"quadrupole","e",Ps{P("L",0.25),P("B2",3.0),P("curve0",V{1,2,3}),P("scl_fac0",1.5)}},"ncurve",1},
            {E{"solenoid","e",Ps{P("L",0.25),P("B",3.0),P("curve0",V{1,2,3}),P("scl_fac0",1.5)}},"ncurve",1},
            {E{"equad","e",Ps{P("L",0.25),P("V",2000.0),P("radius",0.04),P("curve0",V{1,2,3}),P("scl_fac0",4e4)}},"ncurve",1},
            {cav,"MpoleLevel",2},{cav,"EmitGrowth",1},{gen,"MpoleLevel",2},{gen,"EmitGrowth",1}};
        auto go=[&](const E& e, bool& threw)->Snap{
            threw=false;
            try { std::unique_ptr<Machine> M(machine("MomentMatrix",{e})); std::unique_ptr<MomentState> S(mkbeam(bs[10],0)); M->propagate(S.get()); return snap(S.get()); }
            catch(std::bad_alloc&) { throw; } catch(std::exception&) { threw=true; return Snap(); }
        };
        for(auto& f: fs) if(vh::mine(c++)) {
            auto put=[&](const P& v){ E e=f.e; e.ps=with(e.ps,Ps{v}); return e; };
            bool a,b; Snap dx,dy;
            for(int v=0;v<=f.top;v++) {
                std::string id=std::string("flag ")+f.n+" of "+f.e.type+" = "+std::to_string(v); vh::crumb(id);
                dx=go(put(P(f.n,(double)v)),a); dy=go(put(P(f.n,std::to_string(v).c_str())),b);
                if(a||b) vh::violation("flag","a documented value is refused",id);
                else if(!diff(dx,dy).empty()) vh::violation("flag","the number and its text differ",id);
                vh::count("evaluations",2); vh::count("flags",2);
            }
            for(double v: {0.5,1.5,-1.0,-0.5,1e-9,1e10,1e300,(double)INFINITY,(double)NAN,f.top+1.0}) for(int t=0;t<2;t++) {
                if(t && !std::isfinite(v)) continue;
                std::ostringstream o; o.precision(17); o<<v;
                std::string id=std::string("flag ")+f.n+" of "+f.e.type+(t?" = text ":" = ")+o.str(); vh::crumb(id);
                go(put(t? P(f.n,o.str().c_str()) : P(f.n,v)),a);
                if(!a) vh::violation("flag","a value which isn't allowed is accepted",id);
                vh::count("evaluations"); vh::count("flags");
            }
        }
    }
    // linear: single elements over the grid, and sequences
    {
        std::vector<E> le;
        auto add=[&](const E& e){ le.push_back(e); };
        add(E{"marker","e",Ps{}});
        grid(E{"drift","e",Ps{}},{ax("L",V{0,0.25,2})},add);
        grid(E{"quadrupole","e",Ps{}},{ax("L",V{0,0.25,2}),ax("K",V{-5,0,1e-12,0.3,2})},add);
        grid(E{"solenoid","e",Ps{}},{ax("L",V{0,0.25,2}),ax("K",V{-2,0,1e-9,0.3})},add);
        grid(E{"sbend","e",Ps{}},{ax("L",V{0.25,1}),ax("phi",V{-0.3,0,0.3}),ax("K",V{-5,-0.09,0,2})},add);
        V t; for(int i=0;i<36;i++) t.push_back((i%7==0)+0.01*i);
        add(E{"generic","e",Ps{P("transfer",t)}}); add(E{"generic","e",Ps{P("transfer",V{2,3})}}); add(E{"generic","e",Ps{P("transfer",V{})}});
        for(auto& e: le) if(vh::mine(c++)) linear({e});
        for(auto& e: le) for(auto& f: le) if(vh::mine(c++)) linear({e,f});
        if(vh::thorough()) for(auto& e: le) for(auto& f: le) for(auto& g: le) if(vh::mine(c++)) linear({e,f,g});
    }
    // cutting an element into equal pieces changes nothing
    auto cut=[&](const std::string& sim,E e,int n,const Beam* b){
        std::vector<E> w={e}, p; E h=e; for(auto& q: h.ps) { if(q.k=="L") q.d/=n; if(q.k=="phi") q.d/=n; }
        for(int i=0;i<n;i++) { p.push_back(h); p.back().name="p"+std::to_string(i); }
        std::string id="cut "+std::to_string(n)+" "+sim+" "+e.str(); vh::crumb(id);
        std::unique_ptr<Machine> A(machine(sim,w)), B(machine(sim,p));
        auto st=[&](Machine* M){ return b? (StateBase*)mkbeam(*b,1) : M->allocState(); };
        std::unique_ptr<StateBase> S(st(A.get())), T(st(B.get()));
        A->propagate(S.get()); B->propagate(T.get());
        vh::count("evaluations"); vh::count("distinct_nontrivial"); vh::count("transitions",n+1); vh::state(id);
        static std::set<std::string> skip={"transmat"};
        std::string d= b? diffm(snap(S.get()),snap(T.get()),1e-8,&skip) : diff(snap(S.get()),snap(T.get()),1e-8,1e-8,&skip);
        if(!d.empty()) vh::violation("cut","an element and its "+std::to_string(n)+" equal pieces differ: "+d,id);
    };
    for(int n=2;n<(vh::thorough()?9:4);n++) {
        std::vector<E> es={E{"drift","e",Ps{P("L",0.4)}},E{"quadrupole","e",Ps{P("L",0.4),P("B2",9.0)}},E{"quadrupole","e",Ps{P("L",0.4),P("B2",-9.0)}},E{"solenoid","e",Ps{P("L",0.4),P("B",5.0)}},E{"equad","e",Ps{P("L",0.4),P("V",3000.0),P("radius",0.05)}},
            E{"quadrupole","e",Ps{P("L",0.4),P("B2",9.0),P("dx",1e-3),P("dy",2e-3),P("roll",0.3)}},E{"sbend","e",Ps{P("L",0.4),P("phi",20.0),P("phi1",0.0),P("phi2",0.0),P("K",0.5)}},E{"sbend","e",Ps{P("L",0.4),P("phi",20.0),P("phi1",0.0),P("phi2",0.0),P("K",-2.0)}}};
        for(auto& e: es) for(auto& b: bs) if(vh::mine(c++)) cut("MomentMatrix",e,n,&b);
        std::vector<E> ls={E{"drift","e",Ps{P("L",0.4)}},E{"quadrupole","e",Ps{P("L",0.4),P("K",3.0)}},E{"quadrupole","e",Ps{P("L",0.4),P("K",-3.0)}},E{"solenoid","e",Ps{P("L",0.4),P("K",2.0)}},E{"sbend","e",Ps{P("L",0.4),P("phi",0.3),P("K",0.5)}}};
        for(auto& e: ls) if(vh::mine(c++)) { cut("TransferMatrix",e,n,nullptr); }
    }
    vh::sample("sbend L=0.5 phi=20 phi1=7 phi2=-11 K=-3 HdipoleFitMode=0 bg=0.034 with each misalignment, 13 beams");
    vh::finish();
}
