// Reference interpreter of the lattice language, written from the documentation
// (documentation/mainpage.h, "Lattice file syntax" and "Lattice File Expressions").
#ifndef REF_GLPS_H
#define REF_GLPS_H
#include <string>
#include <vector>
#include <map>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <strings.h>
#include <sstream>
#include <limits>
#include <cerrno>
#include <memory>

namespace ref {
enum Type { Num, Vec, Str, Line, Cfg };
struct Out;
struct Val { Type t=Num; double d=0; std::vector<double> v; std::string s; std::vector<std::string> l; std::shared_ptr<Out> c; };
struct Elem { std::string name, type; std::map<std::string,Val> props; };

struct Out {
    bool ok=false;
    // on failure: the lines that may be named (0,0: an error without a place)
    int lo=0, hi=0;
    std::string why;
    std::map<std::string,Val> vars;
    std::vector<Elem> elements;  // expanded
    std::string line;
    std::string printed;
};

enum Kind { KW, NUM, STR, CH, END, BAD };
struct Tok { Kind k; std::string s; double d; int line; char c; };

inline bool alpha(unsigned char c) { return (c>='A'&&c<='Z')||(c>='a'&&c<='z'); }
inline bool digit(unsigned char c) { return c>='0'&&c<='9'; }
inline bool word(unsigned char c) { return alpha(c)||digit(c)||c=='_'; }

inline std::vector<Tok> lex(const std::string& in)
{
    std::vector<Tok> T; int line=1; size_t i=0, n=in.size();
    while(i<n) {
        unsigned char c=in[i];
        if(c==' '||c=='\t') { i++; }
        else if(c=='\n') { line++; i++; }
        else if(c=='#') {
            size_t e=in.find('\n',i);
            if(e==in.npos) { T.push_back(Tok{BAD,"#",0,line,'#'}); break; } // a comment ends with a newline
            line++; i=e+1;
        } else if(alpha(c)) {
            size_t e=i+1;
            while(e<n && (word(in[e])||in[e]==':')) e++;
            while(e>i+1 && in[e-1]==':') e--; // does not end in ':'
            T.push_back(Tok{KW,in.substr(i,e-i),0,line,0}); i=e;
        } else if(digit(c)) {
            size_t e=i; while(e<n && digit(in[e])) e++;
            if(e<n && in[e]=='.') { e++; while(e<n && digit(in[e])) e++; }
            if(e<n && (in[e]=='e'||in[e]=='E')) {
                size_t f=e+1; if(f<n && (in[f]=='+'||in[f]=='-')) f++;
                if(f<n && digit(in[f])) { while(f<n && digit(in[f])) f++; e=f; }
            }
            std::string s=in.substr(i,e-i);
            errno=0;
            double d=strtod(s.c_str(),0);
            if(errno==ERANGE && (d==0||std::isinf(d))) { T.push_back(Tok{BAD,s,0,line,0}); break; }
            T.push_back(Tok{NUM,s,d,line,0}); i=e;
        } else if(c=='"') {
            size_t e=i+1; while(e<n && in[e]!='"' && in[e]!='\n' && in[e]!='\r') e++;
            if(e>=n || in[e]!='"') { T.push_back(Tok{BAD,"\"",0,line,0}); break; }
            T.push_back(Tok{STR,in.substr(i+1,e-i-1),0,line,0}); i=e+1;
        } else if(c && strchr("=:;()[],+*/-",c)) { T.push_back(Tok{CH,std::string(1,c),0,line,(char)c}); i++; }
        else { T.push_back(Tok{BAD,std::string(1,c),0,line,0}); break; }
    }
    if(T.empty() || T.back().k!=BAD) T.push_back(Tok{END,"",0,line,0});
    return T;
}

struct Fail { int lo, hi; std::string why; };

struct Interp {
    std::vector<Tok> T; size_t p=0;
    std::vector<std::pair<std::string,Val> > vars; std::map<std::string,size_t> vi;
    std::vector<Elem> elems; std::map<std::string,size_t> ei;
    std::vector<std::pair<std::string,std::vector<std::string> > > lines; std::map<std::string,size_t> li;
    std::string printed;
    bool failed=false; Fail first{0,0,""};
    // string functions (paths) are resolved by the harness; NULL: no such function
    int (*strfun)(const std::string& name, const std::string& arg, Val& r)=nullptr; // 1 ok, 0 fails, -1 unknown

    const Tok& t() const { return T[p]; }
    int lineat(size_t i) const { return T[i<T.size()?i:T.size()-1].line; }
    bool is(char c) const { return t().k==CH && t().c==c; }
    // a construct completed at the token before p has no meaning: the error is noticed there or at the next token
    [[noreturn]] void sem(const std::string& w) { throw Fail{lineat(p?p-1:0), lineat(p), w}; }
    [[noreturn]] void syn() { throw Fail{lineat(p), lineat(p), "syntax"}; }
    void note(const std::string& w) { if(!failed) { failed=true; first=Fail{lineat(p?p-1:0),lineat(p),w}; } }
    void want(char c) { if(!is(c)) syn(); p++; }

    Val var(const std::string& n) {
        Val r;
        if(vi.count(n)) return vars[vi[n]].second;
        if(ei.count(n)) { r.t=Line; r.l.push_back(n); return r; }
        if(li.count(n)) { r.t=Line; r.l=lines[li[n]].second; return r; }
        if(n=="pi") { r.d=3.14159265358979323846; return r; }
        sem("undefined "+n);
    }
    Val neg(const Val& a) {
        Val r;
        if(a.t==Num) { r.d=-a.d; return r; }
        if(a.t==Line) { r.t=Line; r.l.assign(a.l.rbegin(),a.l.rend()); return r; }
        sem("negation");
    }
    Val bin(char o, const Val& a, const Val& b) {
        Val r;
        if(a.t==Num && b.t==Num) {
            switch(o) {
            case '+': r.d=a.d+b.d; break;
            case '-': r.d=a.d-b.d; break;
            case '*': r.d=a.d*b.d; break;
            case '/': r.d=a.d/b.d; if(!std::isfinite(r.d)) sem("division"); break;
            }
            return r;
        }
        if(o=='*' && ((a.t==Num && b.t==Line)||(a.t==Line && b.t==Num))) {
            double f=a.t==Num?a.d:b.d; const Val& l=a.t==Num?b:a;
            if(!(f>=0 && f<=4294967295.0)) sem("repetition count");
            r.t=Line;
            unsigned n=(unsigned)f;
            if(double(n)*l.l.size()>1e6) sem("too big");
            for(unsigned i=0;i<n;i++) r.l.insert(r.l.end(),l.l.begin(),l.l.end());
            return r;
        }
        sem("operand types");
    }
    Val fun(const std::string& n, const Val& a) {
        Val r;
        if(a.t==Num) {
            double x=a.d;
            if(n=="sin") r.d=sin(x); else if(n=="cos") r.d=cos(x); else if(n=="tan") r.d=tan(x);
            else if(n=="asin"||n=="arcsin") r.d=asin(x); else if(n=="acos"||n=="arccos") r.d=acos(x); else if(n=="atan"||n=="arctan") r.d=atan(x);
            else if(n=="deg2rad") r.d=x*3.14159265358979323846/180; else if(n=="rad2deg") r.d=x*180/3.14159265358979323846;
            else sem("unknown function");
            return r;
        }
        if(a.t==Str && strfun) { int k=strfun(n,a.s,r); if(k==1) return r; }
        sem("function of type");
    }
    Val prim() {
        Val r;
        const Tok k=t();
        if(k.k==NUM) { p++; r.d=k.d; return r; }
        if(k.k==STR) { p++; r.t=Str; r.s=k.s; return r; }
        if(k.k==KW) {
            p++;
            if(is('(')) { p++; Val a=expr(0); want(')'); return fun(k.s,a); }
            return var(k.s);
        }
        if(is('[')) {
            p++;
            std::vector<Val> l=list();
            for(size_t i=l.size();i--;) if(l[i].t!=Num) sem("vector of non-number");
            want(']');
            r.t=Vec; for(auto& x: l) r.v.push_back(x.d);
            return r;
        }
        if(is('(')) { p++; r=expr(0); want(')'); return r; }
        if(is('-')) { p++; Val a=prim(); return neg(a); }
        syn();
    }
    static int prec(const Tok& k) { if(k.k!=CH) return 0; return (k.c=='+'||k.c=='-')?1:(k.c=='*'||k.c=='/')?2:0; }
    Val expr(int min) {
        Val a=prim();
        while(prec(t())>min) { char o=t().c; int q=prec(t()); p++; Val b=expr(q); a=bin(o,a,b); }
        return a;
    }
    bool startsexpr() const { return t().k==NUM||t().k==STR||t().k==KW||is('[')||is('(')||is('-'); }
    std::vector<Val> list() { // zero or more, optional trailing comma
        std::vector<Val> l;
        if(!startsexpr()) return l;
        while(true) {
            l.push_back(expr(0));
            if(!is(',')) break;
            p++;
            if(!startsexpr()) break;
        }
        return l;
    }
    static std::string num(double d) { std::ostringstream s; s<<d; return s.str(); }
    void stmt() {
        if(t().k!=KW) syn();
        std::string n=t().s; p++;
        if(is('=')) {
            p++; Val v=expr(0); want(';');
            if(v.t==Line) note("line assigned"); else if(vi.count(n)) note("redefined "+n);
            else { vi[n]=vars.size(); vars.push_back(std::make_pair(n,v)); }
        } else if(is(':')) {
            p++; if(t().k!=KW) syn();
            std::string ty=t().s; p++;
            if(is('=')) {
                p++; want('(');
                std::vector<Val> l=list();
                for(size_t i=l.size();i--;) if(l[i].t!=Line) sem("line of non-element");
                want(')'); want(';');
                std::vector<std::string> all; for(auto& x: l) all.insert(all.end(),x.l.begin(),x.l.end());
                if(strcasecmp(ty.c_str(),"LINE")!=0) note("not LINE");
                else if(li.count(n)) note("line redefined");
                else { li[n]=lines.size(); lines.push_back(std::make_pair(n,all)); }
            } else {
                Elem e; e.name=n; e.type=ty;
                while(is(',')) {
                    p++; if(t().k!=KW) syn();
                    std::string k=t().s; p++; want('=');
                    Val v=expr(0);
                    e.props.insert(std::make_pair(k,v)); // the first of several counts
                }
                want(';');
                if(ei.count(n)) note("element redefined"); else { ei[n]=elems.size(); elems.push_back(e); }
            }
        } else if(is('(')) {
            p++; Val v=expr(0); want(')'); int line=t().line; want(';');
            if(n!="print") note("unknown function");
            else {
                std::ostringstream s; s<<"On line "<<line<<" : ";
                switch(v.t) {
                case Num: s<<v.d; break;
                case Str: s<<'"'<<v.s<<'"'; break;
                case Vec: s<<"["; for(double d: v.v) s<<d<<", "; s<<"]"; break;
                case Line: s<<"("; for(auto& x: v.l) s<<x<<", "; s<<")"; break;
                case Cfg: s<<"?? <Config> ??"; break;
                }
                printed+=s.str()+"\n";
            }
        } else if(is(';')) { p++; if(n!="END") note("unknown command"); }
        else syn();
    }
    Out run(const std::string& in, bool lattice=true) {
        Out o;
        T=lex(in);
        try { while(t().k!=END) stmt(); }
        catch(Fail& f) { if(!failed) { failed=true; first=f; } }
        o.printed=printed;
        if(failed) { o.lo=first.lo; o.hi=first.hi; o.why=first.why; return o; }
        for(auto& v: vars) o.vars[v.first]=v.second;
        if(lattice) {
            if(lines.empty()) { o.why="no lines"; return o; }
            const std::pair<std::string,std::vector<std::string> >* L=&lines.back();
            if(ei.count("USE")) {
                const std::string& u=elems[ei["USE"]].type;
                if(!li.count(u)) { o.why="USE undefined"; return o; }
                L=&lines[li[u]];
            }
            if(L->second.empty()) { o.why="empty line"; return o; }
            for(auto& n: L->second) {
                const Elem& e=elems[ei[n]];
                for(auto& q: e.props) if(q.second.t==Line) { o.why="line valued property"; return o; }
                o.elements.push_back(e);
            }
            o.line=L->first;
        }
        o.ok=true;
        return o;
    }
};

inline void fmt(std::ostream& s, double d) { char b[40]; if(std::isnan(d)) s<<"nan"; else { snprintf(b,sizeof b,"%.15g",d); s<<b; } }
// equal texts, numbers being compared to 1e-9 (a value may be computed in another order)
inline bool alike(const std::string& a, const std::string& b, double abstol=0) {
    if(a==b) return true;
    const char *p=a.c_str(), *q=b.c_str();
    while(*p && *q) {
        bool dp=digit(*p), dq=digit(*q);
        if(dp && dq) {
            char *pe,*qe; double x=strtod(p,&pe), y=strtod(q,&qe);
            if(std::fabs(x-y)>1e-9*std::fabs(x)+abstol) return false;
            p=pe; q=qe;
        } else if(*p!=*q) return false;
        else { p++; q++; }
    }
    return *p==*q;
}
std::string render(const Out& o);
inline void render(std::ostream& s, const Val& v) {
    switch(v.t) {
    case Num: fmt(s,v.d); break;
    case Str: s<<'"'<<v.s<<'"'; break;
    case Vec: s<<"["; for(double d: v.v) { fmt(s,d); s<<" "; } s<<"]"; break;
    case Cfg: s<<"{"; if(v.c) s<<render(*v.c); s<<"}"; break;
    default: s<<"?";
    }
}
// canonical text of everything observable in the result
inline std::string render(const Out& o) {
    std::ostringstream s;
    std::map<std::string,Val> g(o.vars);
    g.erase("name"); g.erase("elements");
    for(auto& v: g) { s<<v.first<<"="; render(s,v.second); s<<";"; }
    s<<"name="<<o.line<<"; ";
    for(auto& e: o.elements) {
        std::map<std::string,Val> pr(e.props); // type and name are what the definition says
        Val v; v.t=Str; v.s=e.type; pr["type"]=v; v.s=e.name; pr["name"]=v;
        s<<"<";
        for(auto& q: pr) { s<<q.first<<"="; render(s,q.second); s<<","; }
        s<<"| ";
        for(auto& q: o.vars) if(!pr.count(q.first)) { s<<q.first<<"="; render(s,q.second); s<<","; }
        s<<">";
    }
    return s.str();
}
}
#endif
