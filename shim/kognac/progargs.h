// Stand-in for the (absent) KOGNAC library: command line options.
#ifndef KOGNAC_SHIM_PROGARGS_H
#define KOGNAC_SHIM_PROGARGS_H
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <iostream>
class ProgramArgs {
    struct Param { std::string shortName, name, value, def, desc; bool set, isBool; };
    template<class T> static std::string str(const T &v) { std::ostringstream o; o << std::boolalpha << v; return o.str(); }
public:
    struct Value {
        const Param *p;
        bool empty() const { return !p || p->value.empty(); }
        template<class T> T as() const { T v = T(); if (p) { std::istringstream i(p->value); i >> std::boolalpha >> v; } return v; }
    };
    class GroupArgs {
        friend class ProgramArgs; std::string name; ProgramArgs *owner;
    public:
        template<class T> GroupArgs &add(std::string s, std::string n, T def, const char *d, bool) { return add2(s, n, str(def), d, std::is_same<T, bool>::value); }
        GroupArgs &add2(std::string s, std::string n, std::string def, const char *d, bool b) {
            Param p; p.shortName = s; p.name = n; p.value = p.def = def; p.desc = d ? d : ""; p.set = false; p.isBool = b;
            owner->params[n] = p; if (!s.empty()) owner->shorts[s] = n; return *this; }
        template<class T> GroupArgs &add(std::string s, std::string n, T def, std::string d, bool r) { return add<T>(s, n, def, d.c_str(), r); }
        std::string tostring() const { return name; }
    };
private:
    friend class GroupArgs;
    std::map<std::string, Param> params; std::map<std::string, std::string> shorts;
    std::vector<std::unique_ptr<GroupArgs>> groups;
public:
    GroupArgs *newGroup(std::string n) { groups.emplace_back(new GroupArgs()); groups.back()->name = n; groups.back()->owner = this; return groups.back().get(); }
    int count(std::string n) const { auto i = params.find(n); return i != params.end() && i->second.set ? 1 : 0; }
    Value operator[](std::string n) const { auto i = params.find(n); Value v; v.p = i == params.end() ? NULL : &i->second; return v; }
    void check() {}
    std::string tostring() const { std::string o; for (auto &p : params) o += "--" + p.first + "\n"; return o; }
    void parse(int argc, const char **argv) {
        for (int i = 2; i < argc; ++i) {
            std::string a = argv[i], n, v; bool hasv = false;
            if (a.compare(0, 2, "--") == 0) { n = a.substr(2); size_t e = n.find('='); if (e != std::string::npos) { v = n.substr(e + 1); n = n.substr(0, e); hasv = true; } }
            else if (a.compare(0, 1, "-") == 0) { auto s = shorts.find(a.substr(1)); if (s == shorts.end()) { std::cerr << "unknown option " << a << std::endl; throw 10; } n = s->second; }
            else { std::cerr << "unknown argument " << a << std::endl; throw 10; }
            auto p = params.find(n); if (p == params.end()) { std::cerr << "unknown option " << a << std::endl; throw 10; }
            if (!hasv) { if (p->second.isBool && (i + 1 >= argc || argv[i + 1][0] == '-')) v = "true"; else if (i + 1 < argc) v = argv[++i]; else throw 10; }
            p->second.value = v; p->second.set = true;
        }
    }
};
template<> inline std::string ProgramArgs::Value::as<std::string>() const { return p ? p->value : std::string(); }
#endif
