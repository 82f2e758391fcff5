// C01: every lattice program up to a bound, against the reference interpreter.
#include "vh.h"
#include "act_glps.h"
#include <flame/util.h>
#include <memory>
#include <filesystem>

namespace {
unsigned long long idx=0;
std::map<std::string,Config::value_t> predef;
std::string base; // scratch directory with files, for path functions
namespace fs=std::filesystem;

int strfun(const std::string& n, const std::string& a, ref::Val& r)
{
    if(n!="file" && n!="dir" && n!="parse") return -1;
    std::error_code ec;
    fs::path p=fs::canonical(fs::path(base)/a,ec);
    if(ec) return 0;
    if(n!="parse") { r.t=ref::Str; r.s=p.native(); return 1; }
    if(fs::is_directory(p)) return 0;
    std::ifstream F(p); std::stringstream S; S<<F.rdbuf();
    ref::Interp I; I.strfun=strfun; // relative to that file's directory
    std::string keep=base; base=p.parent_path().native();
    r.c.reset(new ref::Out(I.run(S.str()))); base=keep;
    if(!r.c->ok) return 0;
    r.t=ref::Cfg; return 1;
}

std::string esc(const std::string& s) { return vh::jstr(s); }

void judge(const std::string& text)
{
    vh::crumb(text);
    vh::count("evaluations");
    ref::Interp I; I.strfun=strfun;
    for(auto& v: predef) {
        ref::Val x;
        switch(v.second.which()) {
        case 0: x.d=boost::get<double>(v.second); break;
        case 1: x.t=ref::Vec; x.v=boost::get<std::vector<double> >(v.second); break;
        case 2: x.t=ref::Str; x.s=boost::get<std::string>(v.second); break;
        }
        I.vi[v.first]=I.vars.size(); I.vars.push_back(std::make_pair(v.first,x));
    }
    ref::Out R=I.run(text);
    if(R.why=="too big") return; // outside the alphabet's intent: would only consume memory
    std::string got, err, printed; bool ok=false;
    try {
        GLPSParser P; std::ostringstream out; P.setPrinter(&out);
        for(auto& v: predef) P.setVar(v.first,v.second);
        std::unique_ptr<Config> C(P.parse_byte(text, base.empty()?NULL:base.c_str()));
        ok=true; got=act::render(*C); printed=out.str();
    } catch(std::exception& e) { err=e.what(); }
    if(R.ok) vh::count("distinct_nontrivial");
    if(ok!=R.ok) {
        vh::violation("meaning", ok?"accepted, but has no meaning ("+R.why+"): "+esc(text)+" gave "+got
                               :"rejected ("+err+") although it means "+ref::render(R)+": "+esc(text), text);
    } else if(ok) {
        std::string want=ref::render(R);
        if(!ref::alike(want,got,vh::opts["mode"]=="funs"||vh::opts["mode"].substr(0,4)=="expr"?1e-14:0)) vh::violation("meaning","program "+esc(text)+"\n gives "+got+"\n means "+want,text);
        else if(printed!=R.printed) vh::violation("print","program "+esc(text)+" prints "+esc(printed)+" expected "+esc(R.printed),text);
        if(!vh::samples.size() && idx>5000) vh::sample(text+"  =>  "+got);
    } else {
        vh::count("rejected");
        if(err.empty()) vh::violation("message","empty error message for "+esc(text),text);
        int l=act::line(err);
        if(R.lo>0 && (l<R.lo || l>R.hi))
            vh::violation("line","error on line "+std::to_string(R.lo)+" ("+R.why+") reported as \""+err+"\" for "+esc(text),text);
        if(vh::samples.size()==1 && R.lo>2) vh::sample(text+"  =>  "+err);
    }
}

void strings(const std::vector<std::string>& A, int max, const std::string& pre, const std::string& post, const std::string& sep)
{
    for(int n=0;n<=max;n++) {
        std::vector<size_t> q(n,0);
        while(true) {
            if(vh::mine(idx++)) {
                std::string t=pre;
                for(size_t x: q) { t+=A[x]; t+=sep; }
                judge(t+post);
            }
            int p=n-1;
            while(p>=0 && ++q[p]==A.size()) q[p--]=0;
            if(p<0) break;
        }
    }
}
void put(const std::string& f, const std::string& s) { std::ofstream F(f); F<<s; }
}

int main(int argc, char** argv)
{
    vh::init(argc,argv);
    std::string mode=vh::opts["mode"];
    int N=atoi(vh::opts["n"].c_str());
    std::string tail="\n; a: t; L: LINE = (a);";
    if(mode=="files") {
        base=vh::dir+"/files"; fs::create_directories(base+"/sub/deep");
        base=fs::canonical(base).native();
        put(base+"/x.lat","q: u; M: LINE=(q,q);");
        put(base+"/bad.lat","q: u\n");
        put(base+"/empty.lat","");
        put(base+"/sub/y.lat","w = 5; q: u, n=parse(\"z.lat\"); M: LINE=(q);");
        put(base+"/sub/z.lat","r: v, f=file(\"../x.lat\"); M: LINE=(r);");
        put(base+"/sub/deep/up.lat","r: v, f=file(\"../../sub/./y.lat\"); M: LINE=(2*r);");
    }
    if(vh::replaying) {
        if(mode=="predef") { predef["A"]=7.0; predef["s"]=std::string("p"); }
        judge(vh::replay); vh::finish(); return 0;
    }
    if(mode=="expr")
        strings({"1","2","v","+","-","*","/","(",")","0","s","cos"}, N, "v = 3; s = \"t\"; x =\n", tail, "\n");
    else if(mode=="exprtypes") // fewer operators, all types
        strings({"v","-","*","+","[","]",",","a","LL","s","(",")","sin","\"t\"","vv"}, N,
                "v = 2; vv = [1,v]; s = \"t\"; a: t; b: t; LL: LINE = (a,b); x =\n", "\n; L: LINE = (a);", "\n");
    else if(mode=="line")
        strings({"a","b","M","2","-","*",",","(",")","1.9","0"}, N, "a: t; b: u, L=2; M: LINE=(a,b,b); L: LINE =\n(\n", "\n);", "\n");
    else if(mode=="lines2") {
        for(int n: {127,128,255,256,257,1000,32767,32768,65535,65536,65537}) for(const char* x: {"a","M","-M"}) if((n<1001 || *x=='a') && vh::mine(idx++)) judge("a: t;\nb: u;\nM: LINE = (a, b);\nN: LINE = (b, "+std::to_string(n)+"*"+x+");\n"); // two composed lines
        std::vector<std::string> E={"a","b","-a","2*a","a,b","-M","2*M","M*2","M","M,a","b,-M","-(2*M)","2*-M","-(-M)","0*M","(M)","3*(2*a)","a,2*b,-M","2*3*b"};
        for(auto& e1: E) for(auto& e2: E) for(auto& e3: E) for(int u=0;u<4;u++) if(vh::mine(idx++)) {
            std::string f2=e2, f3=e3; // M in the first refers to the previous line
            judge("a: t;\nb: u;\nM: LINE = (a, b);\nN: LINE = ("+e1+");\n"
                  +std::string(u==1?"USE: N;\n":u==2?"USE: P;\n":u==3?"USE: none;\n":"")
                  +"O: LINE = (N, "+e2+", -N);\nP: LINE = ("+e3+", 2*O);\n");
        }
    }
    else if(mode=="prog") {
        std::vector<std::string> S={
            "A = 1;","B = A+1;","A = 2*B;","B = \"s\";","A = [1,B];","A = a;","x = A;",
            "a: t, L=A;","a: u;","b: t, L=B, A=7;","b: line, x=[A, 2];","a: t, L=1, L=2;",
            "l: LINE = (a);","l: LINE = (a, 2*b);","m: line = (l, -l, a);","m: LINE = ();","l: other = (a);","m: LINE = (A*a, b);",
            "USE: l;","USE: m;","print(A);","print(l);","print(B);","END;","STOP;","pi = 3;","A = pi*2;"};
        strings(S,N,"","","\n");
    } else if(mode=="nums") {
        strings({"0","1","9",".","e","E","+","-"}, N, "x = ", tail, "");
    } else if(mode=="names") {
        strings({"a","Z","_",":","9","-"}, N, "v = 3; ", " = 4; a: t; L: LINE = (a);", "");
        strings({"a","Z","_",":","9"}, N, "", ": t;\n L: LINE = (a);", "");
        // names with a meaning of their own, and names close to keywords
        strings({"type = \"g\";","name = \"h\";","name = 5;","elements = 3;","sim_type = \"x\";","a: t, type=\"u\";","a: t, name=\"z\", type=4;","a: t, elements=[1];","b: LINE;","LINE: t;","L: LINE = (a);","L: LINE = (a, b, LINE);",
                 "USE: L;","END;","ENDX;","EN;","end;","USE = 1;","print = 2;","file: t;"}, 3, "", "\nQ: LINE = (a);\n", "\n");
    } else if(mode=="strs") {
        strings({"a","\\","\"","'"," ","\n","\x01","\xc3","#",std::string(1,'\0'),"\t"}, N, "x = \"", "\";\n a: t; L: LINE = (a);", "");
    } else if(mode=="space") {
        strings({" ","\t","\n","#c\n","#\"\n","##;","\r","x"}, N, "x=1 ;", "a : t ;\n L: LINE = (a);", "");
        strings({" ","\t","\n","#c\n","#"}, N, "x = zz", "; a : t ;\n L: LINE = (a);", "");
    } else if(mode=="funs") {
        std::vector<std::string> F={"sin","cos","tan","asin","acos","atan","arcsin","arccos","arctan","deg2rad","rad2deg","-","nope","Sin","file","","print"};
        std::vector<std::string> X={"0","1","-1","0.5","-0.5","2","pi","pi/2","-pi/3","180","1e3","-1e-8","45","v","a","M","s","[1]","\"q\"","-\"q\"","-[1]","0-0"};
        for(auto& f: F) for(auto& g: F) for(auto& x: X) if(vh::mine(idx++)) {
            std::string pre="v = 0.25; s = \"str\"; a: t; M: LINE = (a);\n";
            judge(pre+"x = "+f+"("+g+"("+x+"));");
            if(f=="sin") { judge(pre+"x =\n "+g+"("+x+");"); judge(pre+"a2: t, p = 2*"+g+"("+x+")-1; L: LINE = (a2);"); judge(pre+"x = ["+g+"("+x+"), 1, "+x+"]; "); }
        }
        std::vector<std::string> O={"+","-","*","/"};
        for(auto& o: O) for(auto& x: X) for(auto& y: X) if(vh::mine(idx++)) judge("v = 0.25; s = \"str\"; a: t; M: LINE = (a);\nx =\n"+x+"\n"+o+"\n"+y+"\n;");
        for(auto& x: X) if(vh::mine(idx++)) {
            judge("v = 0.25; s = \"str\"; a: t; M: LINE = (a, a);\nL: LINE = (acos(2)*M);");
            judge("v = 0.25; s = \"str\"; a: t; M: LINE = (a, a);\nprint("+x+"); print(2*"+x+");");
        }
    } else if(mode=="predef") {
        predef["A"]=7.0; predef["s"]=std::string("p");
        std::vector<std::string> S={"A = 1;","B = A+1;","x = s;","B = \"s\";","a: t, L=A;","b: t, A=1;","l: LINE = (a);","l: LINE = (a, A*b);","print(A);","print(s);"};
        strings(S,N,"","","\n");
    } else if(mode=="files") {
        std::vector<std::string> P={"x.lat","./x.lat","sub/../x.lat","sub/y.lat","sub/deep/up.lat","sub","missing","missing/x.lat","","bad.lat","empty.lat",base+"/x.lat",base+"/sub/y.lat","/nonexistent","sub/deep/../z.lat","."};
        for(auto& f: {"file","dir","parse"}) for(auto& p: P) for(auto& q: P) if(vh::mine(idx++)) {
            judge("v = "+std::string(f)+"(\""+p+"\");\na: t, w=parse(\""+q+"\"), u=file(\""+p+"\"); L: LINE = (a);");
            judge("v =\n"+std::string(f)+"(\""+p+"\");\na: t; L: LINE = (a);");
        }
    } else if(mode=="ast") { // every expression with N operators
        std::vector<std::vector<std::string> > E(N+1);
        E[0]=N>3?std::vector<std::string>{"3","v"}:std::vector<std::string>{"3","v","0.5"};
        for(int k=1;k<=N;k++) {
            for(auto& x: E[k-1]) E[k].push_back("-"+x);
            for(int i=0;i<k;i++) for(auto& x: E[i]) for(auto& y: E[k-1-i]) for(const char* o: {"+","-","*","/"}) {
                E[k].push_back(x+o+y); E[k].push_back("("+x+o+y+")");
            }
        }
        for(auto& v: E) for(auto& x: v) if(vh::mine(idx++)) judge("v = 7; x = "+x+";\na: t; L: LINE = (a);");
    } else vh::error("mode");
    if(mode=="files") fs::remove_all(base);
    vh::finish();
}
