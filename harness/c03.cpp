// C03: print then parse gives the configuration back, for every configuration up to a bound.
#include "vh.h"
#include "act_glps.h"
#include <flame/util.h>
#include <cfloat>
#include <memory>
namespace {
unsigned long long idx=0;
bool same(double a, double b) { return memcmp(&a,&b,sizeof a)==0; }
bool same(const Config::value_t& a, const Config::value_t& b) {
    if(a.which()!=b.which()) return false;
    switch(a.which()) {
    case 0: return same(boost::get<double>(a),boost::get<double>(b));
    case 1: { auto &x=boost::get<std::vector<double> >(a), &y=boost::get<std::vector<double> >(b);
        if(x.size()!=y.size()) return false; for(size_t i=0;i<x.size();i++) if(!same(x[i],y[i])) return false; return true; }
    case 2: return boost::get<std::string>(a)==boost::get<std::string>(b);
    }
    return true; // nested configurations have no lattice text
}
std::string diff(const Config& a, const Config& b, bool top) {
    auto i=a.begin(), j=b.begin();
    while(i!=a.end() || j!=b.end()) {
        if(i!=a.end() && i->second.which()==3) { ++i; continue; }
        if(j!=b.end() && j->second.which()==3) { ++j; continue; }
        if(top && j!=b.end() && j->first=="name" && (i==a.end() || i->first!="name")) { ++j; continue; } // a line always has a name
        if(i==a.end()) return "extra "+j->first;
        if(j==b.end()) return "missing "+i->first;
        if(i->first!=j->first) return i->first+" became "+j->first;
        if(!same(i->second,j->second)) { std::ostringstream s; s.precision(17); s<<i->first<<" changed: "; act::render(s,i->second); s<<" became "; act::render(s,j->second); return s.str(); }
        ++i; ++j;
    }
    return "";
}
void judge(const Config& C, const std::string& what)
{
    vh::count("evaluations");
    std::ostringstream s; s.precision(17); GLPSPrint(s,C);
    std::string text=s.str();
    try {
        GLPSParser P; std::ostringstream null; P.setPrinter(&null);
        std::unique_ptr<Config> D(P.parse_byte(text));
        std::string d=diff(C,*D,true);
        const Config::vector_t &x=C.get<Config::vector_t>("elements"), &y=D->get<Config::vector_t>("elements");
        if(d.empty() && x.size()!=y.size()) d="number of elements";
        for(size_t i=0;i<x.size() && d.empty();i++) { d=diff(x[i],y[i],false); if(!d.empty()) d="element "+std::to_string(i)+": "+d; }
        if(d.empty()) { // what an element sees of the globals
            for(auto& g: *D) for(size_t i=0;i<y.size();i++) { Config::value_t v,w; if(g.second.which()==3) continue;
                bool fx=x[i].tryGetAny(g.first,v), fy=y[i].tryGetAny(g.first,w);
                if(fx && (!fy || !same(v,w))) d="element sees different global "+g.first; }
        }
        std::ostringstream s2; s2.precision(17); GLPSPrint(s2,*D);
        std::ostringstream s3; s3.precision(17); GLPSPrint(s3,C);
        if(d.empty() && s3.str()!=text) d="printing twice differs";
        if(d.empty() && C.get<std::string>("name","")!="" && s2.str()!=text) d="printing the parsed text differs:\n"+s2.str();
        if(d.empty() && C.get<std::string>("name","")!="") { // with the default six digits the text is a fixpoint
            std::ostringstream a; GLPSPrint(a,C); std::unique_ptr<Config> E(P.parse_byte(a.str())); std::ostringstream b; GLPSPrint(b,*E);
            if(a.str()!=b.str()) d="six digit text changes when parsed and printed: "+b.str();
        }
        if(!d.empty()) vh::violation("roundtrip",d+" in "+what+" printed as "+text,what);
        else vh::count("distinct_nontrivial");
        if(idx>500) vh::sample(text);
    } catch(std::exception& e) {
        vh::violation("roundtrip","printed text is rejected: "+std::string(e.what())+"\n"+text,what);
    }
}
void text(const std::string& t) {
    vh::crumb(t);
    std::unique_ptr<Config> C;
    try { GLPSParser P; std::ostringstream null; P.setPrinter(&null); C.reset(P.parse_byte(t)); } catch(std::exception&) { return; }
    judge(*C,t);
}
}
int main(int argc, char** argv)
{
    vh::init(argc,argv);
    std::string mode=vh::opts["mode"]; int N=atoi(vh::opts["n"].c_str());
    if(vh::replaying) { text(vh::replay); vh::finish(); return 0; }
    std::vector<double> nums={0,1,-1,-0.0,0.5,1.0/3,-1.0/3,3.14159265358979323846,1e5,123456,1234567,999999.5,0.1,0.30000000000000004,1e-5,1.23456789e-7,-2.5e-300,
        DBL_MAX,-DBL_MAX,DBL_MIN,DBL_MIN/4,4.9406564584124654e-324,1e22,1e23,123456789012345678.0,80.5e6,931.49432e6,0.1+0.2,std::nextafter(1.0,2.0),std::nextafter(1.0,0.0),1e15,1e16,1e17,-1e100,
        2.2250738585072011e-308, 0.000123456, 12345.678901234567};
    for(int e=-320;e<308;e+=7) { nums.push_back(std::ldexp(1.0+1.0/3,e)); nums.push_back(-std::ldexp(1.0/7,e)); }
    std::vector<std::string> strs={"","s","a b","with #hash","semi;colon","x = 1","(a)","tab\there","\xc3\xa9","\x01\x7f","'","\\n","LINE","long string with many words 0123456789",std::string("nil\0inside",10),std::string(1,'\0')};
    std::vector<std::string> keys={"elements","USE","LINE","line1","x","Name","Type","END","print","pi","e:1","A_9"};
    if(mode=="values") {
        std::vector<Config::value_t> V;
        for(double d: nums) V.push_back(d);
        for(auto& s: strs) V.push_back(s);
        V.push_back(std::vector<double>());
        for(double d: nums) { V.push_back(std::vector<double>(1,d)); V.push_back(std::vector<double>{1.5,d,d*0.5}); }
        for(auto& g: V) for(int w=0;w<3;w++) if(vh::mine(idx++)) {
            vh::crumb("value "+std::to_string(idx));
            Config C; C.set<std::string>("name","line1"); C.set<std::string>("sim_type","Vector");
            if(w!=1) C.setAny("glob",g);
            Config::vector_t E;
            for(int k=0;k<2;k++) { Config x(C.new_scope()); x.set<std::string>("name",k?"b":"a"); x.set<std::string>("type","t"); if(w!=0) x.setAny("p",g); if(k) x.setAny("q",V[0]); E.push_back(x); }
            E.push_back(E[0]);
            C.set<Config::vector_t>("elements",E);
            judge(C,"value #"+std::to_string(idx));
        }
        // parameters with every kind of name
        for(auto& k1: keys) for(auto& k2: keys) for(int w=0;w<4;w++) if(vh::mine(idx++)) {
            vh::crumb("key "+k1+" "+k2);
            Config C; C.set<std::string>("name","ln"); if(w&1) { if(k1=="elements"||k1=="USE"||k1=="LINE"||k1=="pi") continue; C.set<double>(k1,2.5); }
            Config x(C.new_scope()), y(C.new_scope());
            x.set<std::string>("name","e1"); x.set<std::string>("type","drift"); x.set<double>(k1,1.5); if(w&2) x.set<std::string>(k2,"text"); else x.set<std::vector<double> >(k2,std::vector<double>{1,2});
            y.set<std::string>("name","e2"); y.set<std::string>("type","quad"); y.set<double>(k2,-3);
            Config::vector_t E; E.push_back(x); E.push_back(y); E.push_back(x);
            C.set<Config::vector_t>("elements",E);
            judge(C,"key "+k1+" "+k2+" "+std::to_string(w));
        }
        // every pair of small values as two properties and two globals
        std::vector<Config::value_t> W(V.begin(),V.begin()+12); W.push_back(std::string("x")); W.push_back(std::vector<double>{1,2.25}); W.push_back(std::vector<double>());
        for(auto& a: W) for(auto& b: W) for(auto& c: W) if(vh::mine(idx++)) {
            vh::crumb("triple "+std::to_string(idx));
            Config C; C.setAny("g1",a); C.setAny("g2",b);
            Config x(C.new_scope()), y(C.new_scope());
            x.set<std::string>("name","e:1"); x.set<std::string>("type","drift"); x.setAny("L",b); x.setAny("K",c);
            y.set<std::string>("name","e_2"); y.set<std::string>("type","quad"); y.setAny("g1",c);
            Config::vector_t E; E.push_back(x); E.push_back(y); E.push_back(x); E.push_back(x);
            C.set<Config::vector_t>("elements",E); C.set<std::string>("name","ln");
            judge(C,"triple #"+std::to_string(idx));
        }
    } else if(mode=="prog") {
        std::vector<std::string> S={"A = 1/3;","B = [A0, 2, -1e-9];","s = \"str\";","a: t, L=0.1+0.2;","a: t;","b: u, x=[1,2/7], y=\"q\", L=-2;","a = 5;","b = \"v\";",
            "l: LINE = (a);","l: LINE = (a, 2*b, -a);","m: LINE = (b, l, -l);","USE: l;","c: t, A=2;","n: LINE = (c, m);","A0 = 123456.789;","l = 2;"};
        for(int n=0;n<=N;n++) {
            std::vector<size_t> q(n,0);
            while(true) {
                if(vh::mine(idx++)) { std::string t; for(size_t x: q) t+=S[x]+"\n"; text(t); }
                int p=n-1; while(p>=0 && ++q[p]==S.size()) q[p--]=0;
                if(p<0) break;
            }
        }
    } else vh::error("mode");
    vh::finish();
}
