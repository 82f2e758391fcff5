// The same rendering for what the real parser produced.
#ifndef ACT_GLPS_H
#define ACT_GLPS_H
#include <flame/config.h>
#include "ref_glps.h"
namespace act {
inline std::string render(const Config& c, const Config* outer=nullptr);
inline void render(std::ostream& s, const Config::value_t& v) {
    switch(v.which()) {
    case 0: ref::fmt(s,boost::get<double>(v)); break;
    case 1: s<<"["; for(double d: boost::get<std::vector<double> >(v)) { ref::fmt(s,d); s<<" "; } s<<"]"; break;
    case 2: s<<'"'<<boost::get<std::string>(v)<<'"'; break;
    case 3: s<<"{"; for(auto& x: boost::get<Config::vector_t>(v)) s<<render(x); s<<"}"; break;
    }
}
inline std::string render(const Config& c, const Config*) {
    std::ostringstream s;
    for(auto& v: c) {
        if(v.first=="elements"||v.first=="name") continue;
        s<<v.first<<"="; render(s,v.second); s<<";";
    }
    s<<"name="<<c.get<std::string>("name","")<<"; ";
    Config::value_t ev;
    std::set<std::string> names;
    for(auto& q: c) names.insert(q.first);
    if(c.tryGetAny("elements",ev)) for(auto& e: boost::get<Config::vector_t>(ev)) for(auto& q: e) names.insert(q.first);
    if(c.tryGetAny("elements",ev)) for(auto& e: boost::get<Config::vector_t>(ev)) {
        s<<"<";
        std::set<std::string> own;
        for(auto& q: e) { s<<q.first<<"="; render(s,q.second); s<<","; own.insert(q.first); }
        s<<"| ";
        for(auto& q: names) { // what it inherits, which is from the globals only
            if(own.count(q)) continue;
            Config::value_t w;
            if(e.tryGetAny(q,w)) { s<<q<<"="; render(s,w); s<<","; }
        }
        s<<">";
    }
    return s.str();
}
// "On line N: ..." -> N, or -1
inline int line(const std::string& msg) {
    int n=-1; if(sscanf(msg.c_str(),"On line %d",&n)==1) return n; return -1;
}
}
#endif
