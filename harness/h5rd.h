// reading back recorded states with the plain HDF5 C interface
#ifndef H5RD_H
#define H5RD_H
#include "fl.h"
#include <hdf5.h>
using namespace fl;
struct Arr { std::vector<size_t> dim; V v; bool ok=true; };
typedef std::map<std::string,Arr> Rec;      // one record: every attribute
inline Rec record(StateBase* S) {
    Rec r;
    for(unsigned i=0;; i++) {
        StateBase::ArrayInfo I;
        if(!S->getArray(i,I)) break;
        Arr& a=r[I.name];
        size_t d[3]={1,1,1};
        for(unsigned k=0;k<I.ndim;k++) { d[k]=I.dim[k]; a.dim.push_back(d[k]); }
        for(size_t x=0;x<d[0];x++) for(size_t y=0;y<d[1];y++) for(size_t z=0;z<d[2];z++) {
            size_t ix[3]={x,y,z};
            a.v.push_back(I.type==StateBase::ArrayInfo::Double ? *I.get<double>(ix) : (double)*I.get<size_t>(ix));
        }
    }
    return r;
}
inline herr_t lister(hid_t, const char* name, const H5L_info_t*, void* p) { ((std::vector<std::string>*)p)->push_back(name); return 0; }
inline bool readset(hid_t g, const std::string& name, Arr& a, bool& integer) {
    H5O_info_t oi; if(H5Oget_info_by_name(g,name.c_str(),&oi,H5P_DEFAULT)<0 || oi.type!=H5O_TYPE_DATASET) return false;
    hid_t d=H5Dopen2(g,name.c_str(),H5P_DEFAULT); if(d<0) return false;
    hid_t s=H5Dget_space(d), t=H5Dget_type(d); integer=H5Tget_class(t)==H5T_INTEGER;
    int n=H5Sget_simple_extent_ndims(s); hsize_t dims[8]; H5Sget_simple_extent_dims(s,dims,nullptr);
    size_t tot=1; a.dim.clear();
    for(int i=0;i<n;i++) { a.dim.push_back(dims[i]); tot*=dims[i]; }
    a.v.assign(tot,0);
    bool ok=!tot || H5Dread(d,H5T_NATIVE_DOUBLE,H5S_ALL,H5S_ALL,H5P_DEFAULT,&a.v[0])>=0;
    H5Sclose(s); H5Tclose(t); H5Dclose(d);
    return ok;
}
// compare the contents of a group with the list of what was recorded in it; "" if equal
inline std::string compare(const std::string& file, const std::string& group, const std::vector<Rec>& want, const std::set<std::string>& others) {
    hid_t f=H5Fopen(file.c_str(),H5F_ACC_RDONLY,H5P_DEFAULT); if(f<0) return "can not open "+file;
    hid_t g=H5Gopen2(f,group.empty()?"/":group.c_str(),H5P_DEFAULT);
    std::string err;
    if(g<0) err="group "+group+" is missing";
    else {
        std::vector<std::string> names; H5Literate(g,H5_INDEX_NAME,H5_ITER_NATIVE,nullptr,&lister,&names);
        std::set<std::string> have(names.begin(),names.end());
        for(auto& o: others) have.erase(o);
        std::set<std::string> exp;
        if(!want.empty()) for(auto& kv: want[0]) exp.insert(kv.first);
        for(auto& n: have) if(!exp.count(n)) err="unexpected object "+n;
        for(auto& n: exp) if(!have.count(n)) err="attribute "+n+" is missing";
        if(err.empty()) for(auto& n: exp) {
            Arr a; bool integer;
            if(!readset(g,n,a,integer)) { err="can not read "+n; break; }
            if(a.dim.empty() || a.dim[0]!=want.size()) { err=n+" has "+std::to_string(a.dim.empty()?-1:(int)a.dim[0])+" records instead of "+std::to_string(want.size()); break; }
            size_t nd=a.dim.size()-1;
            if(nd!=want[0].at(n).dim.size()) { err=n+" has the wrong rank"; break; }
            std::vector<size_t> big(nd,0);
            for(auto& w: want) for(size_t k=0;k<nd;k++) big[k]=std::max(big[k],w.at(n).dim[k]);
            for(size_t k=0;k<nd;k++) if(a.dim[k+1]!=big[k]) err=n+" has the wrong extent";
            if(!err.empty()) break;
            size_t D[3]={1,1,1}; for(size_t k=0;k<nd;k++) D[k]=big[k];
            size_t tot=D[0]*D[1]*D[2];
            for(size_t r=0;r<want.size() && err.empty();r++) {
                const Arr& w=want[r].at(n);
                size_t W[3]={1,1,1}; for(size_t k=0;k<nd;k++) W[k]=w.dim[k];
                for(size_t x=0;x<W[0];x++) for(size_t y=0;y<W[1];y++) for(size_t z=0;z<W[2];z++) {
                    double got=a.v[r*tot+(x*D[1]+y)*D[2]+z], ex=w.v[(x*W[1]+y)*W[2]+z];
                    if(!(got==ex || (std::isnan(got)&&std::isnan(ex))) && err.empty()) {
                        std::ostringstream o; o.precision(17); o<<n<<"["<<x<<"]["<<y<<"]["<<z<<"] of record "<<r<<" is "<<got<<" instead of "<<ex; err=o.str();
                    }
                    vh::count("values");
                }
            }
        }
        H5Gclose(g);
    }
    H5Fclose(f);
    return err;
}

#endif
