// C16: numeric data files are read exactly or rejected.
#include "fl.h"
#include "flame/util.h"
#include <boost/filesystem.hpp>
using namespace fl;
namespace fs=boost::filesystem;

// ---- reference reader, written from the format description
struct Tab { bool ok, odd=false; std::map<std::string,size_t> names; std::vector<V> rows; };
static bool number(const std::string& s, double& v) {
    size_t i=0, d=0;
    if(i<s.size() && (s[i]=='+'||s[i]=='-')) i++;
    while(i<s.size() && isdigit((unsigned char)s[i])) { i++; d++; }
    if(i<s.size() && s[i]=='.') { i++; while(i<s.size() && isdigit((unsigned char)s[i])) { i++; d++; } }
    if(!d) return false;
    if(i<s.size() && (s[i]=='e'||s[i]=='E')) {
        i++; if(i<s.size() && (s[i]=='+'||s[i]=='-')) i++;
        size_t x=0; while(i<s.size() && isdigit((unsigned char)s[i])) { i++; x++; }
        if(!x) return false;
    }
    if(i!=s.size()) return false;
    v=strtod(s.c_str(),0);
    return std::isfinite(v);
}
static std::vector<std::string> words(const std::string& s) {
    std::vector<std::string> r; std::string w;
    for(char c: s) { if(isspace((unsigned char)c)) { if(!w.empty()) r.push_back(w); w.clear(); } else w+=c; }
    if(!w.empty()) r.push_back(w);
    return r;
}
static Tab ref(const std::string& text) {
    Tab t; t.ok=true;
    size_t p=0;
    while(p<text.size()) {
        size_t e=text.find('\n',p); std::string line=text.substr(p,e==text.npos?e:e-p); p= e==text.npos?text.size():e+1;
        std::vector<std::string> w=words(line);
        if(w.empty()) continue;
        if(line[0]=='%') {
            size_t cr=line.find('\r'); if(cr!=line.npos && line.find_first_not_of('\r',cr)!=line.npos) t.odd=true; // a carriage return inside a name: either reading is fine
            t.names.clear(); size_t n=0; for(auto& x: words(line.substr(1))) t.names[x]=n++; continue; }
        V r; for(auto& x: w) { double v; if(!number(x,v)) { t.ok=false; return t; } r.push_back(v); }
        if(!t.rows.empty() && t.rows.back().size()!=r.size()) { t.ok=false; return t; }
        t.rows.push_back(r);
    }
    return t;
}
static std::string same(const numeric_table& a, const Tab& r) {
    std::ostringstream o; o.precision(17);
    size_t n1=r.rows.size(), n2=n1?r.rows[0].size():0;
    if(a.table.size1()!=n1 || (n1 && a.table.size2()!=n2) || (!n1 && a.table.size1()*a.table.size2()!=0)) { o<<"table is "<<a.table.size1()<<"x"<<a.table.size2()<<", should be "<<n1<<"x"<<n2; return o.str(); }
    for(size_t i=0;i<n1;i++) for(size_t j=0;j<n2;j++) if(memcmp(&a.table(i,j),&r.rows[i][j],8)) { o<<"entry ["<<i<<"]["<<j<<"] is "<<a.table(i,j)<<", the file says "<<r.rows[i][j]; return o.str(); }
    if(std::map<std::string,size_t>(a.colnames.begin(),a.colnames.end())!=r.names) { o<<"column names are"; for(auto& c: a.colnames) o<<" "<<c.first<<":"<<c.second; o<<", should be"; for(auto& c: r.names) o<<" "<<c.first<<":"<<c.second; return o.str(); }
    return "";
}
static std::string show(const std::string& s) { std::string r; for(char c: s) { if(c=='\n') r+="\\n"; else if(c=='\r') r+="\\r"; else if(c=='\t') r+="\\t"; else r+=c; } return r; }
static void one(const std::string& text) {
    vh::crumb("file: "+show(text));
    Tab r=ref(text);
    numeric_table t; std::string err; bool threw=false;
    std::istringstream S(text);
    try { t.read(S); } catch(std::exception& e) { threw=true; err=e.what(); }
    vh::count("evaluations");
    if(threw!=!r.ok) { vh::violation(threw?"refused":"accepted",threw?"a well-formed table is refused: "+err:"a malformed table is accepted","file: "+show(text)); return; }
    if(r.ok) { vh::count("tables"); std::string d=r.odd?std::string():same(t,r); if(!d.empty()) vh::violation("table",d,"file: "+show(text)); }
    else { vh::count("rejected"); if(err.empty()) vh::violation("table","empty error message","file: "+show(text)); }
}
static void strings(const std::vector<std::string>& A, size_t len) {
    unsigned long long total=1; for(size_t i=0;i<len;i++) total*=A.size();
    for(unsigned long long k=vh::shard;k<total;k+=vh::nshards) {
        std::string s; unsigned long long x=k;
        for(size_t i=0;i<len;i++) { s+=A[x%A.size()]; x/=A.size(); }
        one(s);
    }
}
static void tables() {
    bool T=vh::thorough(), asan=vh::opts["part"]=="asan";
    // every text over a byte alphabet
    std::vector<std::string> A={"1","7",".","e","-","+"," ","\t","\n","\r","%","a"};
    for(size_t n=0;n<=size_t(asan?4:T?7:6);n++) strings(A,n);
    // every sequence of words, separators and line ends
    std::vector<std::string> B={"1 ","-2.5e-3\t",".5 ","x ","1x ","% ","%a b","\n"," \n","\r\n"};
    for(size_t n=0;n<=size_t(asan?4:T?7:6);n++) strings(B,n);
    // every spelling of a number alone, first, middle and last in a row and in a table
    std::vector<std::string> N={"0","-0","1","+5","5.","-.5","1e5","1E5","1e+5","1e-05","0.1","123456789012345678","3.141592653589793238","2.2250738585072014e-308","1.7976931348623157e308","1e22","1e23","0.30000000000000004","9007199254740993","00012","1e00005",
        "-","+","e5","1e","1e+","1.2.3","1-2","1e999","nan","inf","-inf","0x10","1d5","1,2","1_0","1f","--1","+-1","1;","\"1\"","%","1%","NaN","Infinity"};
    unsigned long long ix=0;
    for(auto& n: N) for(const char* f: {"@","@\n"," @ ","\t@\t2","1 @ 2\n3 4 5\n","1 2\n3 @","% a b\n@ 2\r\n\r\n3 4\r\n","1 2 @\n4 5 6\n\n7 8 9\n","@@"}) {
        std::string s; for(const char* c=f;*c;c++) if(*c=='@') s+=n; else s+=*c;
        if(vh::mine(ix++)) one(s);
    }
    for(auto& a: N) for(auto& b: N) if(vh::mine(ix++)) { one(a+" "+b+"\n"); one(a+"\n"+b+"\n"); one(a+b); }
    // every shape, separator, line end, position of header and blank lines, and end of file
    for(size_t r=0;r<=3;r++) for(size_t c=1;c<=3;c++) for(const char* sep: {" ","\t","   "," \t "}) for(const char* eol: {"\n","\r\n"," \n","\t\r\n"})
        for(const char* lead: {""," ","\t"}) for(int last=0;last<2;last++) for(size_t hdr=0;hdr<=r+1;hdr++) for(size_t blank=0;blank<=r+1;blank++) for(const char* bl: {"","  ","\t"}) {
            if(!vh::mine(ix++)) continue;
            std::string s; double v=0.1;
            for(size_t i=0;i<=r;i++) {
                if(hdr==i) s+=std::string("% x y\tz")+eol;
                if(blank==i) s+=std::string(bl)+eol;
                if(i<r) { s+=lead; for(size_t j=0;j<c;j++) { char b[40]; snprintf(b,sizeof b,"%.17g",v); v*=-1.37; s+=(j?sep:"")+std::string(b); } if(i+1<r || !last) s+=eol; }
            }
            one(s);
        }
    // rows of different lengths at every place
    for(size_t r=1;r<=4;r++) for(size_t bad=0;bad<r;bad++) for(size_t c=1;c<=3;c++) for(size_t c2=1;c2<=4;c2++) if(vh::mine(ix++)) {
        std::string s; for(size_t i=0;i<r;i++) { for(size_t j=0;j<(i==bad?c2:c);j++) s+="1.25 "; s+="\n"; } one(s);
    }
    // one table object used for several files: every pair and triple
    std::vector<std::string> F={"","\n","% a b\n1 2\n","1 2\n3 4\n","5\n","% q\n","% b a\n9 8\n7 6\n5 4\n","% a\nx\n","1 2\n3\n","1 2 3 4\n","% c d\n%\n1 2\n"};
    for(auto& a: F) for(auto& b: F) for(auto& c: F) if(vh::mine(ix++)) {
        std::string id="one table object, files: ["+show(a)+"] ["+show(b)+"] ["+show(c)+"]"; vh::crumb(id);
        numeric_table t; Tab want; want.ok=true; bool stop=false;
        for(auto* f: {&a,&b,&c}) {
            Tab r=::ref(*f); bool threw=false; std::istringstream S(*f);
            try { t.read(S); } catch(std::exception&) { threw=true; }
            if(threw==r.ok) { vh::violation("reuse","a reused table "+std::string(threw?"refuses a good":"accepts a malformed")+" file",id); stop=true; break; }
            if(r.ok) want=r; // a refused file leaves the table as it was
            std::string d=same(t,want); if(!d.empty()) { vh::violation("reuse",d,id); stop=true; break; }
        }
        vh::count("reuse"); (void)stop;
    }
    // tables made from a vector
    std::vector<int> vn; for(int n=0;n<=12;n++) vn.push_back(n);
    for(int n: {60,126,127,128,129,255,256,257,258,510,768,1000,1024,1026,32767,32768,65535,65536,65538,100000}) vn.push_back(n);
    for(int n: vn) for(int c=-1;c<=5;c++) for(int used=0;used<2;used++) if(vh::mine(ix++)) {
        std::string id="readvec of "+std::to_string(n)+" values in "+std::to_string(c)+" columns"+(used?", used table":""); vh::crumb(id);
        numeric_table t; if(used) { std::istringstream S("1 2 3\n4 5 6\n"); t.read(S); }
        V v; for(int i=0;i<n;i++) v.push_back(i*1.5+.1);
        bool threw=false; try { t.readvec(v,c); } catch(std::exception&) { threw=true; }
        vh::count("vectors");
        bool good= c>0 && n%c==0;
        if(threw==good) { vh::violation("readvec",good?"refused":"accepted although the last row is not filled",id); continue; }
        if(good) { Tab r; r.ok=true; for(int i=0;i<n;i+=c) r.rows.push_back(V(v.begin()+i,v.begin()+i+c)); t.colnames.clear(); std::string d=same(t,r); if(!d.empty()) vh::violation("readvec",d,id); }
    }
    // long ones
    if(vh::shard==0) {
        std::string s; for(int i=0;i<20000;i++) { s+=std::to_string(i)+".5\t"+std::to_string(-i)+"\r\n"; } one(s);
        s.clear(); for(int i=0;i<20000;i++) s+=std::to_string(i)+" "; one(s+"\n"+s+"\n"); one(s+"\n"+s+"1");
    }
}
// ---- files behind RF cavities
static std::string slurp(const std::string& f) { std::ifstream F(f.c_str(),std::ios::binary); std::stringstream S; S<<F.rdbuf(); if(!F) vh::error("cannot read "+f); return S.str(); }
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> r; size_t p=0; while(p<s.size()) { size_t e=s.find('\n',p); std::string l=s.substr(p,e==s.npos?e:e-p); while(!l.empty() && l.back()=='\r') l.pop_back(); r.push_back(l); p=e==s.npos?s.size():e+1; } return r; }
static std::string join(const std::vector<std::string>& l, const std::string& eol, bool last=true) { std::string s; for(size_t i=0;i<l.size();i++) { s+=l[i]; if(i+1<l.size()||last) s+=eol; } return s; }
struct CavSet { std::string id, type; double f; std::vector<std::string> files; Ps extra; };
static unsigned long caseno=0;
// build and propagate with some of the files replaced; "" and the resulting state, or the error
static bool withfiles(const CavSet& c, const std::map<std::string,std::string>& repl, Snap& out, std::string& err, const std::set<std::string>& missing=std::set<std::string>()) {
    fs::path d=fs::path(vh::dir)/("data"+std::to_string(caseno++));
    d=fs::absolute(d);
    fs::create_directories(d);
    for(auto& f: c.files) {
        fs::create_directories((d/f).parent_path());
        if(missing.count(f)) continue;
        auto it=repl.find(f);
        if(it==repl.end()) fs::create_symlink(fs::path(datadir())/f,d/f);
        else { std::ofstream F((d/f).c_str(),std::ios::binary); F<<it->second; }
    }
    Ps ps={P("L",0.24),P("f",c.f),P("cavtype",c.type),P("phi",-10.0),P("scl_fac",0.64),P("Eng_Data_Dir",d.string())};
    ps=with(ps,c.extra);
    bool ok=false;
    try {
        std::unique_ptr<Machine> M(machine("MomentMatrix",{E{"rfcavity","e",ps}}));
        std::unique_ptr<MomentState> S(beam(beams()[1]));
        M->propagate(S.get());
        out=snap(S.get()); ok=true;
    } catch(std::exception& e) { err=e.what(); }
    fs::remove_all(d);
    vh::count("cavities");
    return ok;
}
static void cavity(const CavSet& c, unsigned long long& ix) {
    Snap good; std::string err;
    vh::crumb("cavity "+c.id);
    if(!withfiles(c,{},good,err)) { vh::violation("cavity","the cavity's own data is refused: "+err,"cavity "+c.id); return; }
    auto expect=[&](const std::string& what, const std::map<std::string,std::string>& repl, bool accept, bool samestate, const std::set<std::string>& missing=std::set<std::string>()) {
        if(!vh::mine(ix++)) return;
        std::string id="cavity "+c.id+": "+what; vh::crumb(id);
        Snap s; std::string err;
        bool ok=withfiles(c,repl,s,err,missing);
        if(ok!=accept) vh::violation("cavity",ok?"is accepted":"is refused: "+err,id);
        else if(!ok && err.empty()) vh::violation("cavity","empty error message",id);
        else if(ok && samestate) { std::string d=diff(good,s); if(!d.empty()) vh::violation("cavity","other result: "+d,id); }
    };
    for(auto& f: c.files) {
        std::string text=slurp(datadir()+"/"+f);
        std::vector<std::string> L=lines(text);
        bool lat=f.find(".lat")!=f.npos, line=f.find("thinlenlon")!=f.npos && !lat;
        expect(f+" is missing",{},false,false,{f});
        for(const char* eol: {"\n","\r\n"}) for(int last=0;last<2;last++) if(!lat || eol[0]=='\n') expect(f+" with other line ends",{{f,join(L,eol,last)}},true,true);
        if(lat) continue;
        for(const char* eol: {"\n\n","\r\n\r\n","\n \t\n"}) expect(f+" with blank lines",{{f,join(L,eol)}},true,true);
        // blanks
        { std::vector<std::string> M=L; for(auto& l: M) { std::string n; for(char ch: l) { if(ch==' '||ch=='\t') n+="\t "; else n+=ch; } l=n; } expect(f+" with other blanks",{{f,join(M,"\n")}},true,true); }
        size_t step= line?1:std::max<size_t>(1,L.size()/ (vh::thorough()?60:12));
        for(size_t i=0;i<L.size();i+= step) {
            std::vector<std::string> w=words(L[i]);
            if(w.empty() || w[0][0]=='%') continue;
            size_t need= line?(w[0]=="drift"||w[0]=="AccGap"?4:5):w.size();
            for(size_t k=1;k<need;k++) { std::vector<std::string> M=L; std::string n; for(size_t j=0;j<k;j++) n+=w[j]+" "; M[i]=n; expect(f+" line "+std::to_string(i+1)+" cut to "+std::to_string(k)+" words",{{f,join(M,"\n")}},false,false); }
            for(size_t k=line?2:0;k<need;k++) { if(!line && k!=need-1 && k!=0) continue; std::vector<std::string> M=L; std::string n; for(size_t j=0;j<w.size();j++) n+=(j==k?"x1":w[j])+" "; M[i]=n; expect(f+" line "+std::to_string(i+1)+" word "+std::to_string(k+1)+" is not a number",{{f,join(M,"\n")}},false,false); }
            if(line) { std::vector<std::string> M=L; M[i]="Unknown"+L[i].substr(w[0].size()); expect(f+" line "+std::to_string(i+1)+" of unknown type",{{f,join(M,"\n")}},false,false); }
            if(line && w[0]=="AccGap") { std::vector<std::string> M=L; M.insert(M.begin()+i,L[i]); expect(f+" third gap",{{f,join(M,"\n")}},false,false); }
        }
        expect(f+" is empty",{{f,""}},false,false);
        expect(f+" has comments only",{{f,"% a\n\n% b\n"}},false,false);
        if(f.find("axisData")!=f.npos) expect(f+" has one row",{{f,L.back()+"\n"}},false,false);
    }
}
// Generic data files, with every vector cut short
static void generic(unsigned long long& ix) {
    struct El { std::string type; double L; double V0; int attr; };
    auto text=[&](const std::vector<El>& es, int nez, double rm, int sync, int ek, int nr, bool refnorm){
        std::ostringstream o; o.precision(17);
        auto vec=[&](const char* n,int k,double a){ if(k<0) return; o<<n<<"=["; for(int i=0;i<k;i++) o<<(i?",":"")<<a*(i+1); o<<"];\n"; };
        if(!std::isnan(rm)) o<<"Rm="<<rm<<";\n";
        if(refnorm) o<<"RefNorm=0.138;\n";
        vec("SyncFit",sync,0.01); vec("EnergyLimit",ek,0.3); vec("NormLimit",nr,0.2); vec("Ez",nez,1.0);
        std::string line;
        for(size_t i=0;i<es.size();i++) {
            o<<"e"<<i<<": "<<es[i].type<<", L="<<es[i].L;
            if(!std::isnan(es[i].V0)) o<<", V0="<<es[i].V0;
            if(es[i].attr>=0) { o<<", attr=["; for(int k=0;k<es[i].attr;k++) o<<(k?",":"")<<(k%10==9?1.0:0.0)+(k>=20?0.5:0); o<<"]"; }
            o<<";\n"; line+=(i?",e":"e")+std::to_string(i);
        }
        o<<"cell: LINE=("<<line<<");\nUSE: cell;\n";
        return o.str();
    };
    double none=std::nan("");
    std::vector<El> base={{"drift",10,none,-1},{"EFocus",0,0.1,20},{"AccGap",0,0.3,23},{"drift",10,none,-1}};
    CavSet c{"generic","Generic",80.5e6,{"g.lat"},Ps{P("datafile","g.lat")}};
    auto expect=[&](const std::string& what, const std::string& t, bool accept, const Ps& extra=Ps()) {
        if(!vh::mine(ix++)) return;
        std::string id="cavity generic: "+what; vh::crumb(id);
        CavSet cc=c; cc.extra=with(c.extra,extra);
        Snap s; std::string err; bool ok=withfiles(cc,{{"g.lat",t}},s,err);
        if(ok!=accept) vh::violation("generic",ok?"is accepted":"is refused: "+err,id);
        vh::count("generics");
    };
    expect("complete",text(base,8,17,20,2,2,true),true);
    for(const char* type: {"EFocus","EDipole","EQuad","HMono","HDipole","HQuad"}) for(int n=-1;n<=22;n++) { auto b=base; b[1]=El{type,0,0.1,n}; expect(std::string(type)+" with "+std::to_string(n)+" attr",text(b,8,17,20,2,2,true),n>=20); }
    for(int n=-1;n<=24;n++) for(int sync=-1;sync<=11;sync++) for(int sf=0;sf<=2;sf++) for(int rn=0;rn<2;rn++) {
        auto b=base; b[2].attr=n;
        bool complex=sync>=0 && rn && sf==1;
        bool good= n>=20 && (sf==0 || (complex? sync%5==0 : n>=23));
        expect("AccGap with "+std::to_string(n)+" attr, SyncFit "+std::to_string(sync)+", syncflag "+std::to_string(sf)+(rn?", RefNorm":""),text(b,8,17,sync,2,2,rn),good,Ps{P("syncflag",(double)sf)});
    }
    for(int n=-1;n<=9;n++) expect("Ez with "+std::to_string(n),text(base,n,17,20,2,2,true),n>=4 && n%2==0);
    for(int n=-1;n<=3;n++) for(int m=-1;m<=3;m++) expect("EnergyLimit with "+std::to_string(n)+", NormLimit with "+std::to_string(m),text(base,8,17,20,n,m,true),n!=0&&n!=1&&m!=0&&m!=1);
    for(double rm: {none,0.0,-1.0,17.0}) for(int given=0;given<2;given++) expect("Rm",text(base,8,rm,20,2,2,true),rm>0 || (std::isnan(rm) && given),given?Ps{P("Rm",15.0)}:Ps());
    { auto b=base; b[1].V0=none; expect("no V0",text(b,8,17,20,2,2,true),false); b=base; b[1].type="Nothing"; expect("unknown type",text(b,8,17,20,2,2,true),false);
      b=base; b.erase(b.begin()+2); expect("no gap, needs one",text(b,8,17,-1,2,2,false),false); expect("no gap, needs none",text(b,8,17,20,2,2,true),true);
      b.push_back(base[2]); b.push_back(base[2]); b.push_back(base[2]); expect("three gaps",text(b,8,17,20,2,2,true),true); }
    std::string t=text(base,8,17,20,2,2,true);
    std::string cl="cell: LINE"; size_t stop=t.find(cl);
    for(size_t i=0;i<stop;i+= vh::thorough()?1:7) expect("cut after "+std::to_string(i)+" bytes",t.substr(0,i),false);
    for(size_t i=0;i<stop;i+= vh::thorough()?1:7) expect("junk at byte "+std::to_string(i),t.substr(0,i)+"$"+t.substr(i),false);
}
int main(int argc, char** argv) {
    vh::init(argc,argv);
    if(vh::replaying) {
        if(vh::replay.compare(0,6,"file: ")==0) {
            std::string s; const std::string& r=vh::replay; for(size_t i=6;i<r.size();i++) { if(r[i]=='\\' && i+1<r.size() && strchr("nrt",r[i+1])) { s+=r[i+1]=='n'?'\n':r[i+1]=='r'?'\r':'\t'; i++; } else s+=r[i]; }
            one(s); vh::finish(); return 0;
        }
        vh::shard=0; vh::nshards=1;
    }
    registerMoment(); tables();
    if(vh::opts["part"]=="asan") {
        unsigned long long ix=0;
        for(auto& n: {"41","85","29","53"}) {
            std::string s(n);
            CavSet c{s,s=="41"?"0.041QWR":s=="85"?"0.085QWR":s=="29"?"0.29HWR":"0.53HWR",80.5e6,{"axisData_"+s+".txt","Multipole"+s+"/thinlenlon_"+s+".txt","Multipole"+s+"/CaviMlp_"+s+".txt"},Ps()};
            cavity(c,ix);
            CavSet g{"Generic "+s,"Generic",80.5e6,{"thinlenlon_"+s+"_p.lat"},Ps{P("datafile","thinlenlon_"+s+"_p.lat")}};
            cavity(g,ix);
        }
        generic(ix);
    }
    vh::counts["distinct_nontrivial"]=vh::counts["evaluations"]+vh::counts["reuse"]+vh::counts["vectors"]+vh::counts["cavities"]+vh::counts["generics"];
    vh::sample("every text of up to 6 of 12 bytes and of 10 words");
    vh::finish();
}
