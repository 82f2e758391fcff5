// C15: HDF5 output and input, read back with the plain HDF5 C interface.
//  part 1: all sequences of recordings, group and file changes up to a depth, against a list of what was recorded
//  part 2: string attributes of every length
//  part 3: all file/group paths up to a depth, for reading, for the lattice language and for writing
//  part 4: data sets of every rank
#include "fl.h"
#include "flame/h5writer.h"
#include "flame/h5loader.h"
#include "flame/config.h"
#include "h5rd.h"
#include <sys/stat.h>
#include <boost/filesystem.hpp>
using namespace fl;
namespace fs=boost::filesystem;

static std::string cwd0;
static unsigned long long unit=0;
static bool turn(const std::string& id) {
    unsigned long long u=unit++;
    if(vh::replaying) { if(vh::replay!=id) return false; }
    else if(!vh::mine(u)) return false;
    vh::crumb(id); return true;
}
static std::string fresh() {
    static int n=0; std::string d=cwd0+"/w"+std::to_string(n++);
    fs::create_directory(d); return d;
}

// no file may stay open behind the caller's back
static void closed(const std::string& id) {
    if(H5Fget_obj_count(H5F_OBJ_ALL,H5F_OBJ_FILE)>0) { vh::violation("open","a file stays open after the reader or writer is gone",id); vh::finish(); _exit(0); }
}
// ---------------------------------------------------------------- part 1
static StateBase* mk(int i) {
    switch(i) {
    case 0: return beam(beams()[0]);
    case 1: return beam(beams()[1]);
    case 2: { // more charge states than the library keeps room for from the start
        Beam b=beams()[10]; b.Z.clear(); b.Q.clear(); for(int i=0;i<12;i++) { b.Z.push_back((33+i)/238.0); b.Q.push_back(100-5*i); } return beam(b); }
    case 3: { std::unique_ptr<Machine> M(machine("MomentMatrix",{})); return M->allocState(Config()); }
    case 4: { std::unique_ptr<Machine> M(machine("Vector",{})); Config c; c.set<V>("initial",V{1,2,3,4,5,6}); return M->allocState(c); }
    case 5: { std::unique_ptr<Machine> M(machine("TransferMatrix",{})); Config c; V t; for(int i=0;i<36;i++) t.push_back(i*1.5-3); c.set<V>("initial",t); return M->allocState(c); }
    }
    return nullptr;
}
static bool same_kind(int a, int b) { auto k=[](int i){ return i<4?0:i; }; return k(a)==k(b); }
static void scramble(StateBase* S, double by) { // change every value of the state
    for(unsigned i=0;; i++) {
        StateBase::ArrayInfo I; if(!S->getArray(i,I)) break;
        size_t d[3]={1,1,1}; for(unsigned k=0;k<I.ndim;k++) d[k]=I.dim[k];
        int n=0;
        for(size_t x=0;x<d[0];x++) for(size_t y=0;y<d[1];y++) for(size_t z=0;z<d[2];z++) { size_t ix[3]={x,y,z}; n++;
            if(I.type==StateBase::ArrayInfo::Double) *I.get<double>(ix)+=by*(1+i)+n*1e-3; else *I.get<size_t>(ix)+=(size_t)by+1; }
    }
}
// ops: '0'..'5' record that state; g/h: open group g/h of the first file; r: open its root; G: group g of a second file; c: close
static void history(const std::string& h) {
    if(!turn("hist "+h)) return;
    std::string d=fresh();
    const std::string F[2]={d+"/a.h5",d+"/b.h5"};
    std::unique_ptr<StateBase> S[6];
    for(char c: h) if(c>='0'&&c<='5'&&!S[c-'0']) S[c-'0'].reset(mk(c-'0'));
    typedef std::pair<int,std::string> Loc;
    std::map<Loc,std::vector<Rec>> model; std::map<Loc,int> kind;
    bool open=false, failed=false; Loc at; std::string err;
    {
        H5StateWriter W;
        int step=0;
        for(char c: h) {
            step++; vh::count("transitions");
            bool threw=false; std::string what;
            try {
                if(c=='g'||c=='h') W.open(F[0]+"/"+c);
                else if(c=='r') W.open(F[0]);
                else if(c=='G') W.open(F[1]+"/g");
                else if(c=='c') W.close();
                else W.append(S[c-'0'].get());
            } catch(std::exception& e) { threw=true; what=e.what(); }
            auto bad=[&](const std::string& t){ if(err.empty()) err="step "+std::to_string(step)+": "+t; };
            if(c=='g'||c=='h'||c=='r'||c=='G') {
                if(threw) { bad("open fails: "+what); break; }
                at=Loc(c=='G'?1:0, c=='r'?"":c=='G'?"g":std::string(1,c)); open=true;
                if(c!='r') { model[at].clear(); kind.erase(at); } else { model[at]; }
                // the root is not cleared: recording there again can not work
                failed=c=='r' && !model[at].empty();
            } else if(c=='c') { if(threw) bad("close fails: "+what); open=false; }
            else {
                int k=c-'0';
                bool canwork=open && !failed && (!kind.count(at) || same_kind(kind[at],k));
                if(canwork && threw) { bad("recording fails: "+what); break; }
                if(!canwork && !threw && !(open && failed)) { bad(open?"a state of another type is recorded without an error":"recording while closed is not reported"); break; }
                if(!threw && canwork) { model[at].push_back(record(S[k].get())); kind[at]=k; vh::count("records"); }
                if(!canwork) vh::count("refused");
                scramble(S[k].get(),step); // what happens to the state later must not matter
            }
        }
    }
    if(err.empty()) for(auto& kv: model) {
        std::set<std::string> others;
        if(kv.first.second.empty()) for(auto& o: model) if(o.first.first==kv.first.first) others.insert(o.first.second);
        std::string e=compare(F[kv.first.first],kv.first.second,kv.second,others);
        if(!e.empty()) { err="group '"+kv.first.second+"': "+e; break; }
        vh::count("groups");
    }
    fs::remove_all(d);
    closed("hist "+h);
    vh::count("histories");
    if(!err.empty()) vh::violation("records","records are not what was recorded; "+err,"hist "+h);
}
static void rec1(std::string h, const std::string& alpha, size_t depth) {
    bool rec=false; for(char c: h) rec|=c>='0'&&c<='5';
    if(rec && h.size()) history(h);
    if(h.size()==depth) return;
    for(char c: alpha) rec1(h+c,alpha,depth);
}
static void part1() {
    size_t D=vh::thorough()?5:4;
    // moment states with changing numbers of charge states
    rec1("g","0123",D+1);
    rec1("r","02",D);
    // other state types and mixtures
    rec1("g","045",D);
    rec1("r","45",D-1);
    // reopening
    rec1("","0g",D+1); rec1("","12ghGc",D); rec1("","02gr",D); rec1("","4gc",D); rec1("","5ghc",D);
    // across the chunk size
    for(std::string x: {"0","12","4","5"}) { std::string h="g"; while(h.size()<1030) h+=x; history(h); }
}

// ---------------------------------------------------------------- part 2
static void part2() {
    int N=vh::thorough()?80:40;
    for(int first=0;first<=N;first++) {
        if(!turn("attr "+std::to_string(first))) continue;
        std::string d=fresh();
        for(int second=-1;second<=N;second+=(vh::thorough()?1:3)) {
            std::string a, b; for(int i=0;i<first;i++) a+=char('a'+i%26); for(int i=0;i<second;i++) b+=char('A'+i%26);
            std::string f=d+"/f.h5"; fs::remove(f);
            std::string err;
            try {
                H5StateWriter W(f+"/g");
                // exact heap copies, so that the memory checker sees every read beyond the end
                std::unique_ptr<char[]> pa(new char[a.size()+1]), pb(new char[b.size()+1]);
                strcpy(pa.get(),a.c_str()); strcpy(pb.get(),b.c_str());
                W.setAttr("one",pa.get()); W.setAttr("two","fixed");
                if(second>=0) W.setAttr("one",pb.get());
            } catch(std::exception& e) { err=std::string("raises ")+e.what(); }
            if(err.empty()) {
                hid_t F=H5Fopen(f.c_str(),H5F_ACC_RDONLY,H5P_DEFAULT), G=H5Gopen2(F,"g",H5P_DEFAULT);
                for(std::string n: {"one","two"}) {
                    hid_t A=H5Aopen(G,n.c_str(),H5P_DEFAULT);
                    if(A<0) { err="attribute "+n+" is missing"; continue; }
                    hid_t T=H5Aget_type(A); size_t sz=H5Tget_size(T);
                    std::vector<char> buf(sz+1,0); H5Aread(A,T,&buf[0]);
                    std::string got(&buf[0]), want=n=="two"?"fixed":second>=0?b:a;
                    // read back the way other programs do, which expect a terminator
                    hid_t T2=H5Tcopy(H5T_C_S1); H5Tset_size(T2,300); char big[301]={0}; H5Aread(A,T2,big);
                    if(got!=want || want!=big) err="attribute "+n+" is '"+got+"' ('"+big+"') instead of '"+want+"'";
                    H5Tclose(T2); H5Tclose(T); H5Aclose(A);
                }
                H5Gclose(G); H5Fclose(F);
            }
            closed("attr "+std::to_string(first));
        vh::count("attributes");
            if(!err.empty()) { vh::violation("attribute",err,"attr "+std::to_string(first)); break; }
        }
        fs::remove_all(d);
    }
}

// ---------------------------------------------------------------- part 3
static void mkset(hid_t g, const char* name, double v) {
    hsize_t dim[2]={1,2}; hid_t s=H5Screate_simple(2,dim,nullptr);
    hid_t d=H5Dcreate2(g,name,H5T_NATIVE_DOUBLE,s,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT);
    double x[2]={v,v+0.5}; H5Dwrite(d,H5T_NATIVE_DOUBLE,H5S_ALL,H5S_ALL,H5P_DEFAULT,x);
    H5Dclose(d); H5Sclose(s);
}
static void tree(const std::string& d) { // d/f.h5 d/s/f.h5 d/s/t/f.h5, each with groups / g g/g g/s; d/s/x is no HDF5 file
    fs::create_directories(d+"/s/t");
    double v=1;
    for(std::string p: {"/f.h5","/s/f.h5","/s/t/f.h5","/h"}) { // one file has a name of one character
        hid_t f=H5Fcreate((d+p).c_str(),H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT);
        hid_t g=H5Gcreate2(f,"g",H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT), gg=H5Gcreate2(g,"g",H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT), gs=H5Gcreate2(g,"s",H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT);
        mkset(f,"m",v++); mkset(g,"m",v++); mkset(gg,"m",v++); mkset(gs,"m",v++);
        H5Gclose(gs); H5Gclose(gg); H5Gclose(g); H5Fclose(f);
    }
    std::ofstream((d+"/s/x").c_str())<<"text\n";
}
static std::string join(const std::vector<std::string>& v, size_t a, size_t b, const char* sep="/") { std::string r; for(size_t i=a;i<b;i++) r+=(i>a?sep:"")+v[i]; return r; }
struct Shape { std::string pre, sep, post; };
static void path(const std::vector<std::string>& c, int shape) {
    // relative, absolute, with ./, doubled separators, trailing separators
    std::string base=cwd0+"/tree";
    std::string p=join(c,0,c.size(),shape==3?"//":"/");
    if(shape==1) p=base+"/"+p; else if(shape==2) p="./"+p; else if(shape==4) p+="/"; else if(shape==5) p=base+"/"+p+"/";
    // oracle: the file is the longest leading part that is a regular file
    size_t k=0; std::string file;
    for(size_t i=1;i<=c.size();i++) { std::string f=base+"/"+join(c,0,i); if(fs::is_regular_file(f)) { k=i; file=f; } }
    std::string group=join(c,k,c.size());
    double want=-1; bool hdf=false;
    if(k && H5Fis_hdf5(file.c_str())>0) { hdf=true;
        hid_t f=H5Fopen(file.c_str(),H5F_ACC_RDONLY,H5P_DEFAULT);
        hid_t g=H5Gopen2(f,group.empty()?"/":group.c_str(),H5P_DEFAULT);
        if(g>=0) { Arr a; bool i; if(readset(g,"m",a,i)) want=a.v[0]; H5Gclose(g); }
        H5Fclose(f);
    }
    std::string id="path "+p;
    auto load=[&](const std::string& q, std::string& err) {
        double got=-1;
        try { H5Loader L(q); auto m=L.load("m"); if(m.size1()!=1||m.size2()!=2) err="wrong shape"; else { got=m(0,0); if(m(0,1)!=got+0.5) err="wrong contents"; } }
        catch(std::exception& e) { if(want>=0) err=std::string("raises ")+e.what(); }
        return got;
    };
    std::string err; double got=load(p,err);
    closed(id);
    vh::count("paths"); if(want>=0) vh::count("paths_found");
    if(!err.empty() || got!=want) {
        std::ostringstream o; o<<"reading "<<p<<" gives "<<got<<" instead of "<<want<<" (-1: an error) "<<err; vh::violation("path",o.str(),id); }
    // a loader that was refused must work afterwards
    { H5Loader L; try { L.open(p); } catch(std::exception&) {}
      try { L.open(base+"/f.h5/g"); if(L.load("m")(0,0)!=2) vh::violation("path","loader gives wrong data after "+p,id); } catch(std::exception& e) { vh::violation("path",std::string("loader is unusable after ")+p+": "+e.what(),id); } }
    // the lattice language
    std::string out, perr; bool ok=false;
    try { GLPSParser P; std::unique_ptr<Config> C(P.parse_byte("sim_type=\"V\"; x=h5file(\""+p+"\"); a: drift; l: LINE=(a); USE: l;",base.c_str())); out=C->get<std::string>("x"); ok=true; }
    catch(std::exception& e) { perr=e.what(); }
    if(ok!=(k>0)) vh::violation("h5file","h5file(\""+p+"\") "+(ok?"gives \""+out+"\" but there is no such file":"is refused but the file exists: "+perr),id);
    else if(ok) {
        std::string canon=fs::canonical(file).native(), rest;
        if(out.compare(0,canon.size(),canon)!=0) vh::violation("h5file","h5file(\""+p+"\") gives \""+out+"\", not in "+canon,id);
        else if(hdf) { std::string e2; double g2=load(out,e2); if(!e2.empty()||g2!=want) vh::violation("h5file","h5file(\""+p+"\") gives \""+out+"\" which does not denote the same group "+e2,id); }
    }
}
static void wpath(const std::vector<std::string>& c, int shape) {
    std::string id; std::string base=fresh(); tree(base);
    if(chdir(base.c_str())) vh::error("chdir");
    std::string p=join(c,0,c.size(),shape==3?"//":"/");
    if(shape==1) p=base+"/"+p; else if(shape==2) p="./"+p; else if(shape==4) p+="/"; else if(shape==5) p=base+"/"+p+"/";
    id="wpath "+join(c,0,c.size())+" shape "+std::to_string(shape);
    // oracle: the longest leading part that is an HDF5 file or can be created
    size_t k=0; bool hdf=false;
    for(size_t i=c.size();i>=1;i--) {
        std::string f=base+"/"+join(c,0,i), dir=fs::path(f).parent_path().native();
        // with a trailing separator the whole path can not name a new file
        if(i==c.size() && shape>=4 && !fs::exists(f)) { if(fs::is_directory(dir)) { k=i; break; } continue; }
        if(fs::is_directory(f)) continue;
        if(fs::exists(f)) { if(H5Fis_hdf5(f.c_str())>0) { k=i; hdf=true; break; } continue; }
        if(fs::is_directory(dir)) { k=i; break; }
    }
    std::string file=base+"/"+join(c,0,k), group=join(c,k,c.size());
    std::unique_ptr<StateBase> S(mk(1));
    std::string err; bool threw=false;
    try { H5StateWriter W(p); W.append(S.get()); } catch(std::exception& e) { threw=true; err=e.what(); }
    bool nested=group.find('/')!=group.npos;
    // the root of an existing file keeps what it holds, and here it holds no records, so recording works
    closed(id);
    vh::count("write_paths");
    if(threw) {
        vh::count("write_refused");
        if(k && !nested) vh::violation("wpath","writing to "+p+" fails: "+err,id);
    } else if(!k) vh::violation("wpath","writing to "+p+" is not reported to be impossible",id);
    else {
        std::set<std::string> others; if(hdf && group.empty()) others={"g","m"};
        std::string e=compare(file,group,{record(S.get())},others);
        if(!e.empty()) vh::violation("wpath","writing to "+p+": "+e,id);
    }
    // nothing else may change
    double v=1;
    for(std::string q: {"/f.h5","/s/f.h5","/s/t/f.h5"}) for(std::string g: {"","g","g/g","g/s"}) {
        double want=v++;
        bool target=k && base+q==file && !group.empty() && (g==group || g.compare(0,group.size()+1,group+"/")==0);
        if(target) continue;
        hid_t f=H5Fopen((base+q).c_str(),H5F_ACC_RDONLY,H5P_DEFAULT); Arr a; bool i;
        hid_t h=f<0?-1:H5Gopen2(f,g.empty()?"/":g.c_str(),H5P_DEFAULT);
        if(h<0 || !readset(h,"m",a,i) || a.v.at(0)!=want) vh::violation("wpath","writing to "+p+" changed group '"+g+"' of "+q,id);
        if(h>=0) H5Gclose(h);
        if(f>=0) H5Fclose(f);
    }
    std::string t; std::ifstream((base+"/s/x").c_str())>>t; if(t!="text") vh::violation("wpath","writing to "+p+" damaged a text file",id);
    if(chdir((cwd0+"/tree").c_str())) vh::error("chdir");
    fs::remove_all(base);
}
static void paths(std::vector<std::string> c, const std::vector<std::string>& alpha, size_t depth, void (*fn)(const std::vector<std::string>&,int), const char* tag) {
    if(!c.empty()) for(int s=0;s<6;s++) if(turn(std::string(tag)+" "+join(c,0,c.size())+" shape "+std::to_string(s))) fn(c,s);
    if(c.size()==depth) return;
    for(auto& a: alpha) { auto n=c; n.push_back(a); paths(n,alpha,depth,fn,tag); }
}
static void part3() {
    tree(cwd0+"/tree");
    if(chdir((cwd0+"/tree").c_str())) vh::error("chdir");
    paths({},{"f.h5","s","t","g","x","no","h"},vh::thorough()?5:4,&path,"path");
    paths({},{"f.h5","s","g","x","no","h"},vh::thorough()?4:3,&wpath,"wpath");
    // nothing at all
    for(std::string p: {"","/","//","/no","/no/no","/no/no/no","no","no/","."}) if(turn("none "+p)) {
        bool t=false; try { H5Loader L(p); } catch(std::exception&) { t=true; }
        if(!t) vh::violation("path","opening '"+p+"' succeeds","none "+p);
        t=false; try { GLPSParser P; std::unique_ptr<Config> C(P.parse_byte("sim_type=\"V\"; x=h5file(\""+p+"\"); a: drift; l: LINE=(a); USE: l;")); } catch(std::exception&) { t=true; }
        if(!t) vh::violation("h5file","h5file(\""+p+"\") succeeds","none "+p);
        vh::count("paths");
    }
    if(chdir(cwd0.c_str())) vh::error("chdir");
}

// ---------------------------------------------------------------- part 4
static void part4() {
    int n=vh::thorough()?5:3;
    for(int rank=0;rank<=4;rank++) for(int a=0;a<=n;a++) for(int b=0;b<=n;b++) for(int type=0;type<4;type++) for(int one=0;one<2;one++) {
        if((rank==0&&a)||(rank<2&&b)||(rank<3&&one)) continue; // further extents of one element: as many values as a matrix
        std::string id="set "+std::to_string(rank)+" "+std::to_string(a)+" "+std::to_string(b)+" "+std::to_string(type)+(one?" one":"");
        if(!turn(id)) continue;
        std::string d=fresh(), f=d+"/f.h5";
        hsize_t dim[4]={(hsize_t)a,(hsize_t)b,one?1u:2u,one?1u:2u};
        hid_t F=H5Fcreate(f.c_str(),H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT);
        hid_t s=rank?H5Screate_simple(rank,dim,nullptr):H5Screate(H5S_SCALAR);
        hid_t strt=H5Tcopy(H5T_C_S1); H5Tset_size(strt,8);
        hid_t t=type==0?H5T_IEEE_F64BE:type==1?H5T_STD_I32LE:type==2?H5T_IEEE_F32LE:strt;
        hid_t D=H5Dcreate2(F,"m",t,s,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT);
        size_t tot=1; for(int i=0;i<rank;i++) tot*=dim[i];
        V x; for(size_t i=0;i<tot;i++) x.push_back(type==1?i*3.0-4:i*0.25-1);
        if(tot && type<3) H5Dwrite(D,H5T_NATIVE_DOUBLE,H5S_ALL,H5S_ALL,H5P_DEFAULT,&x[0]);
        H5Dclose(D); H5Tclose(strt); H5Sclose(s); H5Fclose(F);
        std::string err;
        bool can=rank<=2 && type<3;
        try {
            H5Loader L(f);
            bool t1=false; try { L.load("nosuch"); } catch(std::exception&) { t1=true; }
            if(!t1) err="a missing data set is not reported";
            try {
                auto m=L.load("m");
                size_t r=rank>=1?a:1, c=rank>=2?b:1;
                if(!can) { if(tot) err="a set that is no matrix of numbers is loaded as one"; }
                else if(m.size1()!=r || m.size2()!=c) err="wrong shape";
                else for(size_t i=0;i<r;i++) for(size_t j=0;j<c;j++) { if(m(i,j)!=x[i*c+j]) err="wrong value"; vh::count("values"); }
            } catch(std::exception& e) { if(can) err=std::string("raises ")+e.what(); }
        } catch(std::exception& e) { err=std::string("open raises ")+e.what(); }
        closed(id);
        vh::count("sets");
        if(!err.empty()) vh::violation("load",err,id);
        fs::remove_all(d);
    }
}

int main(int argc, char** argv) {
    vh::init(argc,argv);
    registerMoment(); registerLinear();
    H5Eset_auto2(H5E_DEFAULT,nullptr,nullptr); H5StateWriter::dontPrint(); H5Loader::dontPrint();
    char b[4096]; if(!getcwd(b,sizeof b)) vh::error("cwd"); cwd0=b;
    part4(); part3(); part2(); part1();
    vh::finish(); return 0;
}
