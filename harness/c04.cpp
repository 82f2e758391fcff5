// C04: every sequence of Config operations up to a depth, on three handles that may share storage,
// against a deep-copy reference model.
#include "vh.h"
#include <memory>
#include <flame/config.h>

namespace {
struct M;
struct V { // reference value
    int tag=0; double d=0; std::string s; std::vector<double> v; std::vector<M> c;
};
struct M { std::map<std::string,V> in, out; };

bool same(const V& a, const Config::value_t& b, std::string& why);

const V* look(const M& m, const std::string& k) {
    auto i=m.in.find(k); if(i!=m.in.end()) return &i->second;
    i=m.out.find(k); if(i!=m.out.end()) return &i->second;
    return nullptr;
}
bool deeplook=true;
const char* KEYS[]={"a","b","n","zz"};

// everything a user can observe of one handle
bool same(const M& m, const Config& c, std::string& why)
{
    for(const char* k : KEYS) {
        const V* e=look(m,k);
        Config::value_t got;
        bool f=c.tryGetAny(k,got);
        if(f!=!!e) { why=std::string("tryGetAny(")+k+") found="+(f?"1":"0"); return false; }
        if(e && !same(*e,got,why)) { why=std::string(k)+": "+why; return false; }
        // typed access (throws a lot, hence only on the shorter sequences)
        if(!deeplook) continue;
        int ok=0, bad=0;
        for(int t=0;t<4;t++) {
            try {
                switch(t) {
                case 0: c.get<double>(k); break;
                case 1: c.get<std::string>(k); break;
                case 2: c.get<std::vector<double> >(k); break;
                case 3: c.get<Config::vector_t>(k); break;
                }
                ok|=1<<t;
            } catch(key_error&) { bad++; }
        }
        if(ok!=(e?1<<e->tag:0)) { why=std::string("typed get of ")+k; return false; }
        try { const Config::value_t& any=c.getAny(k); if(!e || !same(*e,any,why)) { why=std::string("getAny ")+k+why; return false; } }
        catch(key_error&) { if(e) { why=std::string("getAny throws for ")+k; return false; } }
        double dd=c.get<double>(k,-77.0);
        if(dd!=(e&&e->tag==0?e->d:-77.0)) { why=std::string("get default ")+k; return false; }
        std::string ds="unset"; bool fs=c.tryGet<std::string>(k,ds);
        if(fs!=(e&&e->tag==1) || ds!=(fs?e->s:std::string("unset"))) { why=std::string("tryGet string ")+k; return false; }
    }
    auto i=m.in.begin(); auto j=c.begin();
    for(;i!=m.in.end() && j!=c.end();++i,++j) {
        if(i->first!=j->first) { why="iteration key "+j->first+" expected "+i->first; return false; }
        if(!same(i->second,j->second,why)) { why="iteration of "+i->first+" "+why; return false; }
    }
    if(i!=m.in.end() || j!=c.end()) { why="iteration length"; return false; }
    return true;
}
bool same(const V& a, const Config::value_t& b, std::string& why)
{
    static const int which[]={0,2,1,3}; // tag -> variant index
    if(which[a.tag]!=b.which()) { why="type"; return false; }
    switch(a.tag) {
    case 0: if(a.d!=boost::get<double>(b)) { why="number value"; return false; } break;
    case 1: if(a.s!=boost::get<std::string>(b)) { why="string value"; return false; } break;
    case 2: if(a.v!=boost::get<std::vector<double> >(b)) { why="vector value"; return false; } break;
    case 3: {
        const Config::vector_t& w=boost::get<Config::vector_t>(b);
        if(w.size()!=a.c.size()) { why="nested count"; return false; }
        for(size_t i=0;i<w.size();i++) if(!same(a.c[i],w[i],why)) { why="nested: "+why; return false; }
    }}
    return true;
}
void shown(const M& m, std::ostream& o, unsigned ind) {
    std::string sp(ind,' ');
    for(auto& p : m.in) {
        o<<sp<<p.first<<" = ";
        switch(p.second.tag) {
        case 0: o<<p.second.d<<"\n"; break;
        case 1: o<<"\""<<p.second.s<<"\"\n"; break;
        case 2: o<<"["; for(size_t i=0;i<p.second.v.size();i++) o<<(i?", ":"")<<p.second.v[i]; o<<"]\n"; break;
        case 3: o<<"[\n"; for(size_t i=0;i<p.second.c.size();i++) { o<<sp<<"  ["<<i<<"] = {\n"; shown(p.second.c[i],o,ind+4); o<<sp<<"  },\n"; } o<<sp<<"]\n";
        }
    }
}

V num(double d) { V v; v.tag=0; v.d=d; return v; }
V str(const char* s) { V v; v.tag=1; v.s=s; return v; }
V vec() { V v; v.tag=2; v.v={1.0,2.0}; return v; }
V VALS[]={num(1),num(2),str("s"),vec()};
Config::value_t conv(const V& v) {
    switch(v.tag) { case 0: return v.d; case 1: return v.s; default: return v.v; }
}

struct Op { const char* what; int i,j,k,v; };
std::vector<Op> ops;
enum {NH=3};

std::string desc(const Op& o) {
    std::ostringstream s; s<<o.what<<"("<<o.i<<","<<o.j;
    if(o.k>=0) s<<","<<KEYS[o.k]; if(o.v>=0) s<<",v"<<o.v; s<<")"; return s.str();
}
void build_ops(bool full) {
    for(int i=0;i<NH;i++) for(int k=0;k<2;k++) for(int v=0;v<(full?4:2);v++) {
        if(!full && k==1 && v==1) continue;
        ops.push_back(Op{"set",i,i,k,v});
    }
    for(int i=0;i<NH;i++) ops.push_back(Op{"setAny",i,i,0,2});
    for(int i=0;i<NH;i++) for(int k=0;k<(full?2:1);k++) ops.push_back(Op{"swapAny",i,i,k,3});
    for(int i=0;i<NH;i++) ops.push_back(Op{"swapStr",i,i,0,2});
    for(int i=0;i<NH;i++) for(int j=0;j<NH;j++) if(full || i!=j || i==0) ops.push_back(Op{"assign",i,j,-1,-1});
    for(int i=0;i<NH;i++) for(int j=0;j<NH;j++) if(full || i!=j) ops.push_back(Op{"copy",i,j,-1,-1});
    for(int i=0;i<NH;i++) for(int j=i;j<NH;j++) if(full || i!=j) ops.push_back(Op{"swap",i,j,-1,-1});
    for(int i=0;i<NH;i++) for(int j=0;j<NH;j++) ops.push_back(Op{"new_scope",i,j,-1,-1});
    for(int i=0;i<NH;i++) ops.push_back(Op{"push_scope",i,i,-1,-1});
    for(int i=0;i<NH;i++) ops.push_back(Op{"flatten",i,i,-1,-1});
    for(int i=0;i<NH;i++) for(int j=0;j<NH;j++) if(full || i!=j) ops.push_back(Op{"nest",i,j,2,-1});
    for(int i=0;i<NH;i++) for(int j=0;j<NH;j++) if(full || i!=j) ops.push_back(Op{"unnest",i,j,2,-1});
    for(int i=0;i<NH;i++) ops.push_back(Op{"reset",i,i,-1,-1});
}

// apply to both; returns problem or ""
std::string apply(const Op& o, std::vector<std::unique_ptr<Config> >& C, std::vector<M>& R)
{
    std::string w(o.what), why;
    Config& c=*C[o.i]; M& m=R[o.i];
    if(w=="set") {
        const V& v=VALS[o.v];
        switch(v.tag) {
        case 0: c.set<double>(KEYS[o.k],v.d); break;
        case 1: c.set<std::string>(KEYS[o.k],v.s); break;
        case 2: c.set<std::vector<double> >(KEYS[o.k],v.v); break;
        }
        m.in[KEYS[o.k]]=v;
    } else if(w=="setAny") { c.setAny(KEYS[o.k],conv(VALS[o.v])); m.in[KEYS[o.k]]=VALS[o.v]; }
    else if(w=="swapAny") {
        Config::value_t v(conv(VALS[o.v]));
        c.swapAny(KEYS[o.k],v);
        auto it=m.in.find(KEYS[o.k]);
        V old=num(0); if(it!=m.in.end()) old=it->second;
        m.in[KEYS[o.k]]=VALS[o.v];
        if(!same(old,v,why)) return "swapAny() returned wrong value: "+why;
    } else if(w=="swapStr") {
        std::string v("s");
        c.swap<std::string>(KEYS[o.k],v);
        m.in[KEYS[o.k]]=VALS[2];
    } else if(w=="assign") { c=*C[o.j]; M t=R[o.j]; m=t; }
    else if(w=="copy") { C[o.i].reset(new Config(*C[o.j])); M t=R[o.j]; R[o.i]=t; }
    else if(w=="swap") { c.swap(*C[o.j]); if(o.i!=o.j) std::swap(R[o.i],R[o.j]); }
    else if(w=="new_scope") {
        Config t(C[o.j]->new_scope()); c=t;
        M n; n.out=R[o.j].in; n.out.insert(R[o.j].out.begin(),R[o.j].out.end()); m=n;
    } else if(w=="push_scope") { c.push_scope(); m.in.insert(m.out.begin(),m.out.end()); m.out=m.in; m.in.clear(); }
    else if(w=="flatten") { c.flatten(); m.in.insert(m.out.begin(),m.out.end()); m.out.clear(); }
    else if(w=="nest") {
        Config::vector_t v; v.push_back(*C[o.j]);
        V n; n.tag=3; n.c.push_back(R[o.j]);
        c.set<Config::vector_t>("n",v); m.in["n"]=n;
    } else if(w=="unnest") {
        const V* e=look(m,"n"); bool has=e && e->tag==3;
        try { Config t(c.get<Config::vector_t>("n").at(0)); *C[o.j]=t; if(!has) return "unnest succeeded"; M x=e->c[0]; R[o.j]=x; }
        catch(key_error&) { if(has) return "unnest failed"; }
    } else if(w=="reset") { C[o.i].reset(new Config); m=M(); }
    else vh::error("op");
    return "";
}

std::set<std::string> outcomes;
void run(const std::vector<int>& seq)
{
    std::string d;
    for(int x: seq) d+=std::to_string(x)+" ";
    vh::crumb(d);
    std::vector<std::unique_ptr<Config> > C; std::vector<M> R(NH);
    for(int i=0;i<NH;i++) C.push_back(std::unique_ptr<Config>(new Config));
    std::string bad;
    deeplook=seq.size()<=2;
    for(int x: seq) bad=apply(ops[x],C,R);      // earlier ops were judged as shorter sequences
    for(int pass=0;pass<(deeplook?2:1) && bad.empty();pass++) { // observing must not change anything: twice
        for(int i=0;i<NH && bad.empty();i++) if(!same(R[i],*C[i],bad)) bad="handle "+std::to_string(i)+": "+bad;
        if(pass==0 && bad.empty() && deeplook) for(int i=0;i<NH;i++) {
            std::ostringstream a,b; a<<*C[i]; shown(R[i],b,0);
            if(a.str()!=b.str()) { bad="handle "+std::to_string(i)+" printed:\n"+a.str()+"expected:\n"+b.str(); break; }
        }
    }
    vh::count("transitions",seq.size());
    vh::count("traces_validated_against_impl");
    { std::ostringstream b; for(int i=0;i<NH;i++) { shown(R[i],b,0); b<<"|"; M t; t.in=R[i].out; shown(t,b,0); b<<"#"; } vh::state(b.str()); }
    if(!bad.empty()) {
        std::string t; for(int x: seq) t+=desc(ops[x])+"; ";
        vh::violation("config",bad+" after "+t,d);
    }
}
}

int main(int argc, char** argv)
{
    vh::init(argc,argv);
    bool full=vh::opts["ops"]=="full";
    int depth=atoi(vh::opts["depth"].c_str());
    build_ops(full);
    if(vh::replaying) {
        std::istringstream S(vh::replay); std::vector<int> q; int x; while(S>>x) q.push_back(x);
        run(q); vh::finish(); return 0;
    }
    size_t n=ops.size();
    unsigned long long idx=0;
    for(int d=1;d<=depth;d++) {
        std::vector<int> q(d,0);
        while(true) {
            if(vh::mine(idx++)) {
                run(q);
                if(idx>100000) { std::string t; for(int x: q) t+=desc(ops[x])+"; "; vh::sample(t); }
            }
            int p=d-1;
            while(p>=0 && ++q[p]==(int)n) q[p--]=0;
            if(p<0) break;
        }
    }
    vh::counts["alphabet"]=vh::shard==0?n:0;
    vh::finish();
}
