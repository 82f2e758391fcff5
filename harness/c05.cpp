// C05: every small lattice, every sequence of reconfigurations; all views compared with a plain list.
#include "fl.h"
using namespace fl;

struct Mod { std::vector<std::string> type, name; };
static const char* names[]={"a","b","ab",""};

static std::string views(Machine& M, const Mod& m) {
    std::ostringstream w;
    size_t n=m.type.size();
    if(M.size()!=n) { w<<"size "<<M.size(); return w.str(); }
    const Machine& CM=M;
    size_t i=0;
    for(Machine::iterator it=M.begin(); it!=M.end(); ++it,++i) {
        if(i>=n) { w<<"iteration too long;"; break; }
        if(*it!=M[i] || M[i]!=M.at(i) || CM[i]!=M[i] || CM.at(i)!=M[i]) w<<"accessors disagree at "<<i<<";";
        if((*it)->index!=i) w<<"element "<<i<<" has index "<<(*it)->index<<";";
        if((*it)->name!=m.name[i]) w<<"element "<<i<<" has name "<<(*it)->name<<" not "<<m.name[i]<<";";
        if((*it)->type_name()!=m.type[i]) w<<"element "<<i<<" has type "<<(*it)->type_name()<<";";
        std::string cn=(*it)->conf().get<std::string>("name","?"), ct=(*it)->conf().get<std::string>("type","?");
        if(cn!=m.name[i] || ct!=m.type[i]) w<<"element "<<i<<" reports configuration of "<<cn<<":"<<ct<<";";
    }
    if(i!=n) w<<"iteration visits "<<i<<" of "<<n<<";";
    { size_t j=0; for(Machine::const_iterator it=CM.begin(); it!=CM.end(); ++it,++j) if(j<n && *it!=M[j]) w<<"const iteration differs;"; if(j!=n) w<<"const iteration length;"; }
    try { M.at(n); w<<"at(size) does not throw;"; } catch(std::exception&) {}
    auto list=[&](std::pair<Machine::lookup_iterator,Machine::lookup_iterator> r){ std::vector<ElementVoid*> v; size_t guard=0; for(;r.first!=r.second && guard<10000;++r.first,++guard) v.push_back(*r.first); return v; };
    std::set<std::string> nn(m.name.begin(),m.name.end()); for(auto s: names) nn.insert(s); nn.insert("zz"); nn.insert("aa"); nn.insert("a\x01");
    for(auto& s: nn) {
        std::vector<ElementVoid*> want; for(size_t k=0;k<n;k++) if(m.name[k]==s) want.push_back(M[k]);
        if(list(M.equal_range(s))!=want) w<<"lookup by name '"<<s<<"' gives "<<list(M.equal_range(s)).size()<<" elements, wrong or in wrong order;";
        for(size_t k=0;k<=want.size()+1;k++) { ElementVoid* e=M.find(s,k); if(e!=(k<want.size()?want[k]:nullptr)) w<<"find("<<s<<","<<k<<") wrong;"; }
        if(M.find(s)!=(want.empty()?nullptr:want[0])) w<<"find("<<s<<") wrong;";
        if(M.find(s,(size_t)-1)) w<<"find(-1);";
    }
    std::set<std::string> tt(m.type.begin(),m.type.end()); for(auto t: {"drift","marker","quadrupole","source","nonsense","drif","driftt",""}) tt.insert(t);
    for(auto& t: tt) {
        std::vector<ElementVoid*> want; for(size_t k=0;k<n;k++) if(m.type[k]==t) want.push_back(M[k]);
        if(list(M.equal_range_type(t))!=want) w<<"lookup by type '"<<t<<"' wrong;";
    }
    std::vector<ElementVoid*> all=list(M.all_range()), want(M.begin(),M.end());
    std::sort(all.begin(),all.end()); std::sort(want.begin(),want.end());
    if(all!=want) w<<"all_range() is not every element once;";
    std::ostringstream show; show<<M; (void)show;
    return w.str();
}
struct Op { int kind; size_t idx; int name; };  // kind 0 rename, 1 same name other length, 2.. refused
static std::string ostr(const Op& o) { std::ostringstream s; s<<(o.kind==0?"rename":o.kind==1?"relength":o.kind==2?"retype":o.kind==3?"unknown-type":o.kind==4?"no-name":o.kind==5?"out-of-range":o.kind==6?"bad-parameter":"no-type")<<"("<<o.idx<<","<<names[o.name]<<")"; return s.str(); }
static const char* T[]={"drift","marker","quadrupole"};
static Config ec(const std::string& t, const std::string& n, double L) { Config c; c.set<std::string>("type",t); c.set<std::string>("name",n); c.set<double>("L",L); return c; }

static bool apply(Machine& M, Mod& m, const Op& o) { // returns whether accepted
    std::string t=o.idx<m.type.size()?m.type[o.idx]:"drift", nm=o.idx<m.name.size()?m.name[o.idx]:"a", ns=names[o.name];
    Config c; size_t idx=o.idx;
    switch(o.kind) {
    case 0: c=ec(t,ns,0.2); break;
    case 1: c=ec(t,nm,0.7); break;
    case 2: c=ec(t=="drift"?"marker":"drift",ns,0.2); break;
    case 3: c=ec("nonsense",ns,0.2); break;
    case 4: { c.set<std::string>("type",t); c.set<double>("L",0.2); } break;
    case 5: c=ec("drift",ns,0.2); idx=m.type.size()+o.idx%2*1000; break;
    case 6: { c.set<std::string>("type",t); c.set<double>("name",3.0); } break;
    case 7: { c.set<std::string>("name",ns); } break;
    }
    bool ok;
    try { M.reconfigure(idx,c); ok=true; } catch(std::exception&) { ok=false; }
    if(o.kind==0) m.name[o.idx]=ns;
    return ok;
}

static void lattice(const std::string& sim, const std::vector<int>& l, int depth, int nnames) {
    size_t n=l.size();
    std::vector<Op> ops;
    for(size_t i=0;i<n;i++) { for(int k=0;k<nnames;k++) ops.push_back(Op{0,i,k}); ops.push_back(Op{1,i,0}); }
    for(size_t i=0;i<n;i++) { ops.push_back(Op{2,i,1}); ops.push_back(Op{3,i,1}); ops.push_back(Op{4,i,0}); ops.push_back(Op{6,i,0}); ops.push_back(Op{7,i,1}); }
    ops.push_back(Op{5,0,0}); ops.push_back(Op{5,1,0});
    Mod m0; std::vector<E> es;
    for(int x: l) { m0.type.push_back(T[x%3]); m0.name.push_back(names[x/3]); es.push_back(E{T[x%3],names[x/3],Ps{P("L",0.1)}}); }
    for(int d=0; d<=depth; d++) {
        std::vector<int> ix(d,0);
        while(true) {
            std::string kase=sim+" "+str(es)+" :"; for(int i: ix) kase+=" "+ostr(ops[i]);
            vh::crumb(kase);
            std::unique_ptr<Machine> M(machine(sim,es));
            Mod m=m0; std::string w;
            for(int i=0;i<d;i++) {
                bool ok=apply(*M,m,ops[ix[i]]);
                if(ok!=(ops[ix[i]].kind<2)) w+=ok?"accepted an invalid reconfiguration;":"refused a valid reconfiguration;";
                vh::count(ok?"accepted":"refused");
            }
            w+=views(*M,m);
            vh::count("evaluations"); vh::count("distinct_nontrivial"); vh::count("transitions",d);
            std::string st; for(size_t i=0;i<n;i++) st+=m.type[i]+m.name[i]+" "; vh::state(st);
            if(!w.empty()) vh::violation("views",w,kase);
            if(d==0) break;
            int q=d-1; while(q>=0 && ++ix[q]==(int)ops.size()) ix[q--]=0;
            if(q<0) break;
        }
    }
}

int main(int argc, char** argv) {
    vh::init(argc,argv);
    registerMoment(); registerLinear();
    unsigned long long item=0;
    int maxn = vh::thorough()?5:4;
    for(int s=0;s<2;s++) {
        std::string sim=s?"MomentMatrix":"Vector";
        for(int n=0;n<=maxn;n++) {
            std::vector<int> l(n,0);
            int base=9; // 3 types x names a, b, ab
            while(true) {
                if(vh::mine(item++)) {
                    int depth = n<=1? 3 : n==2 ? 2 : n==3 ? 1 : 0;
                    if(vh::thorough()) depth++;
                    if(s && n>2) depth=std::min(depth,1);
                    lattice(sim,l,depth,n<=2?4:3);
                }
                if(n==0) break;
                int q=n-1; while(q>=0 && ++l[q]==base) l[q--]=0;
                if(q<0) break;
            }
        }
        // deeper sequences on few lattices
        std::vector<std::vector<int>> few={{0,0},{0,3},{0,1,0},{0,4,3}};
        for(auto& l: few) if(vh::mine(item++)) lattice(sim,l,l.size()==2?3+(vh::thorough()?1:0):2+(vh::thorough()?1:0),3);
    }
    // every two element types of every simulation type, before and after every renaming
    for(int s=0;s<3;s++) {
        std::string sim= s==2?"MomentMatrix":s?"TransferMatrix":"Vector";
        std::vector<Kind> K= s==2?kinds():lkinds(s==0);
        for(auto& a: K) for(auto& b: K) for(int nm=0;nm<8;nm++) {
            if(!vh::mine(item++)) continue;
            E es[3]={a.base,b.base,a.base}; Mod m; std::vector<E> l;
            for(int i=0;i<3;i++) { es[i].name=names[nm>>i&1]; l.push_back(es[i]); m.type.push_back(es[i].type); m.name.push_back(es[i].name); }
            std::string kase=sim+" types "+str(l); vh::crumb(kase);
            std::unique_ptr<Machine> M(machine(sim,l));
            std::string w=views(*M,m);
            for(int at=0;at<3 && w.empty();at++) for(int to=0;to<3 && w.empty();to++) {
                E e=es[at]; e.name=names[to]; m.name[at]=e.name;
                try { M->reconfigure(at,e.conf()); } catch(std::exception& x) { w=std::string("renaming refused: ")+x.what(); break; }
                w=views(*M,m);
                if(!w.empty()) w="after renaming "+std::to_string(at)+" to "+e.name+": "+w;
            }
            vh::count("evaluations",10); vh::count("type_pairs");
            if(!w.empty()) vh::violation("views",w,kase);
        }
    }
    // long lattices: every length up to 70, and some far longer ones
    std::vector<int> lens; for(int n=5;n<=70;n++) lens.push_back(n);
    for(int n: {100,127,128,129,255,256,257,300,511,513,1000,1001,1025,2049,3000}) lens.push_back(n);
    for(int s=0;s<2;s++) for(int n: lens) for(int per=1;per<=3;per++) {
        if(!vh::mine(item++)) continue;
        std::string sim=s?"MomentMatrix":"Vector";
        Mod m; std::vector<E> es;
        for(int i=0;i<n;i++) { int x=per==1?0:per==2?(i%9):(i*i/7)%9; std::string nm=per==3&&n>20&&i%5==0?"n"+std::to_string(i):names[x/3]; m.type.push_back(T[x%3]); m.name.push_back(nm); es.push_back(E{T[x%3],nm,Ps{P("L",0.1)}}); }
        std::string kase=sim+" long "+std::to_string(n)+" period "+std::to_string(per);
        vh::crumb(kase);
        std::unique_ptr<Machine> M(machine(sim,es));
        std::string w=views(*M,m);
        for(size_t at: {(size_t)0,(size_t)n/2,(size_t)n-1,(size_t)n/2}) {
            for(int k: {3,0,2}) { Op o{k==3?1:k==2?2:0,at,int(at%3)}; bool ok=apply(*M,m,o); if(ok!=(o.kind<2)) w+="reconfiguration of "+std::to_string(at)+" wrong;"; }
            if(w.empty()) w=views(*M,m);
        }
        vh::count("evaluations"); vh::count("long_lattices");
        if(!w.empty()) vh::violation("views",w.substr(0,300),kase);
    }
    vh::sample("Vector a:drift; b:marker; : rename(1,a) retype(0,b) -> views");
    vh::finish();
}
