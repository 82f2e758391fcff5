// C02: every token string and byte string up to a bound, through all entry points, under the
// address sanitizer with exact accounting of allocations; then pairs of consecutive parses.
#include "vh.h"
#include "act_glps.h"
#include <flame/util.h>
#include <memory>

namespace {
unsigned long long idx=0; bool inside=false;
std::string fname;
struct Res { bool ok=false; std::string text; };
bool operator==(const Res& a, const Res& b) { return a.ok==b.ok && a.text==b.text; }
std::ostringstream devnull;

Res outcome(const std::function<Config*(GLPSParser&)>& f, GLPSParser* use=nullptr)
{
    Res r;
    try {
        std::unique_ptr<GLPSParser> own; if(!use) { own.reset(new GLPSParser); use=own.get(); }
        std::ostringstream out; use->setPrinter(&out);
        std::unique_ptr<Config> C(f(*use));
        use->setPrinter(nullptr);
        if(!C.get()) { r.text="NULL result"; return r; }
        r.ok=true; r.text=act::render(*C)+"\n"+out.str();
    } catch(std::exception& e) { r.text=e.what(); }
    return r;
}
Config* entry(int k, GLPSParser& P, const std::string& t) {
    switch(k) {
    case 0: { // an exactly sized heap block: reading beyond is caught
        std::unique_ptr<char[]> b(new char[t.size()?t.size():1]); memcpy(b.get(),t.data(),t.size());
        return P.parse_byte(b.get(),t.size()); }
    case 1: return P.parse_byte(t);
    case 2: return P.parse_file(fname.c_str());
    default: {
        FILE* fp=fopen(fname.c_str(),"r"); if(!fp) vh::error("fopen");
        try { Config* c=P.parse_file(true,fp,"."); fclose(fp); return c; } catch(...) { fclose(fp); throw; } }
    }
}
const char* ENTRY[]={"parse_byte(bytes)","parse_byte(string)","parse_file(name)","parse_file(FILE)"};
void write(const std::string& t) { FILE* f=fopen(fname.c_str(),"w"); if(!f) vh::error("write"); fwrite(t.data(),1,t.size(),f); fclose(f); }

void judge(const std::string& t, int entries, bool oracle=true)
{
    vh::crumb(t);
    vh::count("evaluations");
    if(entries>2) write(t);
    Res r0;
    for(int k=0;k<entries;k++) {
        Res r;
        long n=vh::leaks([&]{ r=outcome([&](GLPSParser& P){return entry(k,P,t);}); std::string().swap(r.text); });
        if(n>0) vh::violation("leak",std::string(ENTRY[k])+" leaves "+std::to_string(n)+" blocks behind for "+vh::jstr(t),t);
        r=outcome([&](GLPSParser& P){return entry(k,P,t);});
        if(!r.ok && r.text.empty()) vh::violation("message","no error message for "+vh::jstr(t),t);
        if(k==0) r0=r;
        else if(!(r==r0)) vh::violation("entry",std::string(ENTRY[k])+" gives "+r.text+" but parse_byte gives "+r0.text+" for "+vh::jstr(t),t);
    }
    if(!r0.ok) {
        vh::count("distinct_nontrivial"); // rejected inputs are the interesting ones here
        if(vh::samples.size()<2 && idx>3000) vh::sample(t+"  =>  "+r0.text);
    }
    if(oracle) {
        ref::Interp I; ref::Out R=I.run(t);
        if(R.why!="too big" && (inside || t.find('(')==t.npos)) {
            if(R.ok && r0.ok && !ref::alike(ref::render(R)+"\n"+R.printed,r0.text,0)) vh::violation("value",vh::jstr(t)+" gives "+r0.text+" instead of "+ref::render(R),t);
            if(R.ok!=r0.ok) vh::violation("accept",std::string(R.ok?"rejected a valid text: ":"accepted an invalid text: ")+vh::jstr(t)+" "+r0.text,t);
            else if(!R.ok && R.lo>0) { int l=act::line(r0.text); if(l<R.lo||l>R.hi) vh::violation("line","error on line "+std::to_string(R.lo)+" reported as "+r0.text+" for "+vh::jstr(t),t); }
        }
    }
}
void strings(const std::vector<std::string>& A, int max, const std::string& pre, const std::string& sep, int entries, const std::string& post="")
{
    for(int n=0;n<=max;n++) {
        std::vector<size_t> q(n,0);
        while(true) {
            if(vh::mine(idx++)) { std::string t=pre; for(size_t x: q) { t+=A[x]; t+=sep; } judge(t+post,entries); }
            int p=n-1;
            while(p>=0 && ++q[p]==A.size()) q[p--]=0;
            if(p<0) break;
        }
    }
}
std::vector<std::string> TOK={"a","7",";",":","=","(",")","[","]",",","-","*","\"s\"","cos","\"","$","l"};
std::vector<std::string> CTX={
  "a: t; ","a: t, L=1","a: t, L=1, M=[1,2], N=","a: t, L","x = cos(","x = [1, 2,","x = [\"s\",","x = (1+","x = 2*(3-","x = \"s\"+",
  "a: t; l: LINE = (a,","a: t; l: LINE = (2*a, -","a: t; l: LINE = (1,","a: t; l: LINE","a: t; l: OTHER = (a","print(","print(1","x = 1; x = ","x = 1; y = x/0",
  "a: t, L=1, L=","a: t; a: u, K=\"z\"","USE","USE: l","x = -","x = --","x = nosuch(1","x = cos(\"s\"","x = [[1],","x = file(\"","a: t; x = a","a: t, L=nosuch, M=","a: t, L=1/0, M="};
}

int main(int argc, char** argv)
{
    vh::init(argc,argv); vh::leak_init();
    fname=vh::dir+"/in.lat";
    std::string mode=vh::opts["mode"]; int N=atoi(vh::opts["n"].c_str());
    if(vh::replaying) { inside=mode=="inside"; write(vh::replay); judge(vh::replay,4); vh::finish(); return 0; }
    if(mode=="tokens") strings(TOK,N,"","\n",N>4?1:4);
    else if(mode=="ctx") { for(auto& c: CTX) strings(TOK,N,c,"\n",N>2?1:4); }
    else if(mode=="bytes") strings({"a","1",".","e","+","\"","#","\n","\r"," ",";","=",":",std::string(1,'\0'),"\xff","\x80","\t","("},N,"","",N>3?1:4);
    else if(mode=="inside") { inside=true; // bytes within a string, a name, a number and a comment of a valid text
        std::vector<std::string> B={"a","1",".","e","+","#","\n","\r"," ","=",":",std::string(1,'\0'),"\xff","\x80","\t","\\","_"};
        for(const char* c: {"x = \"|\"; a: t; l: LINE=(a);","x|y = 1; a: t; l: LINE=(a);","x = 1|2; a: t; l: LINE=(a);","x = 1; # |z\na: t; l: LINE=(a);","a: t, s=\"b|c\", u=2; l: LINE=(a);"}) {
            std::string C(c); size_t at=C.find('|');
            strings(B,N,C.substr(0,at),"",4,C.substr(at+1));
        }
    }
    else if(mode=="pairs") {
        // parse t1 (by the same and by another parser), then t2: t2 must give what it gives at first
        std::vector<std::string> S;
        for(auto& c: CTX) { S.push_back(c); S.push_back(c+" 1; b: t; m: LINE = (b);"); }
        for(auto& x: {"","a: t; l: LINE=(a);","A = 1; a: t, L=A; l: LINE=(2*a); USE: l;","\n\n\nx = zz;","x = \"unterminated","x=\"two\nlines\"; ","#c\n#d\na: t; l: LINE=(a);\n\n","print(1);\n a: t; l: LINE=(a);"}) S.push_back(x);
        GLPSParser* share=new GLPSParser;
        std::vector<Res> base(S.size());
        for(size_t i=0;i<S.size();i++) base[i]=outcome([&](GLPSParser& P){return P.parse_byte(S[i]);});
        for(size_t i=0;i<S.size();i++) for(size_t j=0;j<S.size();j++) for(int e=0;e<4;e++) if(vh::mine(idx++)) {
            vh::crumb(S[i]+" /// "+S[j]); vh::count("pairs"); vh::count("evaluations");
            write(S[i]);
            outcome([&](GLPSParser& P){return entry(e,P,S[i]);},share);
            write(S[j]);
            Res r=outcome([&](GLPSParser& P){return entry((e+j)%4,P,S[j]);},share);
            if(!(r==base[j])) vh::violation("contaminated","after parsing "+vh::jstr(S[i])+" the text "+vh::jstr(S[j])+" gives "+r.text+" instead of "+base[j].text,S[j]);
            // predefined variables persist, and only those
        }
        delete share;
    } else if(mode=="buffer") {
        // tokens lying across the boundaries of the scanner's buffers, in every alignment
        std::string prog="longername:x: type_of_it, Len = 12.25e-1, name2 = \"a quoted string\"; # comment\nL: LINE = (longername:x, 2*longername:x);";
        std::vector<int> pads;
        for(int b: {1024,2048,4096,8192,16384}) for(int k=-int(prog.size())-4;k<6;k++) pads.push_back(b+k);
        for(int p: pads) for(int kind=0;kind<3;kind++) if(vh::mine(idx++)) {
            std::string pad=kind==0?std::string(p,' '):kind==1?"#"+std::string(p-2,'c')+"\n":"";
            if(kind==2) { pad="v = \""+std::string(p-8,'q')+"\";\n"; }
            judge(pad+prog,4,kind!=2);
        }
    } else if(mode=="big") {
        // many statements, long lists, long names, deep nesting: accepted and complete, at any size
        std::vector<int> NS={1,10,100,199,200,201,1000,3000,9000,11000,30000};
        for(int n: NS) for(int kind=0;kind<8;kind++) if(vh::mine(idx++)) {
            std::ostringstream s; size_t expect=1;
            switch(kind) {
            case 0: for(int i=0;i<n;i++) s<<"v"<<i<<" = "<<i<<";\n"; s<<"a: t; l: LINE=(a);"; break;
            case 1: s<<"v = ["; for(int i=0;i<n;i++) s<<i<<","; s<<"]; a: t; l: LINE=(a);"; break;
            case 2: s<<"a: t; l: LINE=("; for(int i=0;i<n;i++) s<<(i?",":"")<<"a"; s<<");"; expect=n; break;
            case 3: s<<"a: t"; for(int i=0;i<n;i++) s<<", p"<<i<<"="<<i; s<<"; l: LINE=(a);"; break;
            case 4: s<<"a: t; l: LINE=("<<n<<"*a);"; expect=n; break;
            case 5: s<<"v = 0"; for(int i=0;i<n;i++) s<<"+1"; s<<"; a: t; l: LINE=(a);"; break;
            case 6: s<<std::string(n,'x')<<": t, s=\""<<std::string(n,'y')<<"\"; l: LINE=("<<std::string(n,'x')<<");"; break;
            case 7: s<<"v = "<<std::string(n,'(')<<"1"<<std::string(n,')')<<"; a: t; l: LINE=(a);"; break;
            }
            std::string t=s.str();
            vh::crumb("big kind "+std::to_string(kind)+" n "+std::to_string(n)); vh::count("evaluations");
            for(int e=0;e<4;e++) {
                write(t);
                try {
                    GLPSParser P; std::unique_ptr<Config> C(entry(e,P,t));
                    size_t got=C->get<Config::vector_t>("elements").size();
                    bool good=got==expect;
                    const Config& E0=C->get<Config::vector_t>("elements")[0];
                    if(kind==0) good&=C->get<double>("v"+std::to_string(n-1),-1)==n-1 && C->get<double>("v0",-1)==0;
                    if(kind==1) { const std::vector<double>& v=C->get<std::vector<double> >("v"); good&=v.size()==(size_t)n && v[0]==0 && v.back()==n-1; }
                    if(kind==3) good&=E0.get<double>("p"+std::to_string(n-1),-1)==n-1;
                    if(kind==5) good&=C->get<double>("v")==n;
                    if(kind==6) good&=E0.get<std::string>("name").size()==(size_t)n && E0.get<std::string>("s").size()==(size_t)n;
                    if(!good) vh::violation("big","kind "+std::to_string(kind)+" size "+std::to_string(n)+" is parsed wrongly",t.substr(0,200));
                } catch(std::exception& x) {
                    vh::violation("big",std::string(ENTRY[e])+" refuses a valid lattice (kind "+std::to_string(kind)+", size "+std::to_string(n)+"): "+x.what(),t.substr(0,200));
                }
            }
        }
    } else vh::error("mode");
    vh::finish();
}
