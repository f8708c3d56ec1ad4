// Support code for the drivers: script reading and JSON event writing.
#ifndef VT_H
#define VT_H
#ifdef VT_PAR
#include "par_shim.h"
#endif
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <iostream>
#include <map>
#include <cstdint>
extern "C" int __lsan_do_recoverable_leak_check() __attribute__((weak));
namespace vt {
// whether memory that nothing refers to any more was found (only asked in runs that look for it)
inline bool Lost() { volatile char stale[20000]; memset(const_cast<char*>(stale), 0, sizeof stale); return getenv("VT_LOST") && __lsan_do_recoverable_leak_check && __lsan_do_recoverable_leak_check() != 0; }
typedef std::vector<std::string> Tok;
// tokens are separated by single spaces; "%" alone is the empty string; %XX is a byte in hex
inline std::string Unesc(const std::string& s) {
    if (s == "%") return "";
    std::string r;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '%' && i + 2 < s.size()) {
            r += static_cast<char>(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2;
        } else r += s[i];
    }
    return r;
}
inline Tok Split(const std::string& l) {
    Tok t; std::string c;
    for (size_t i = 0; i < l.size(); i++) { if (l[i] == ' ') { t.push_back(c); c.clear(); } else c += l[i]; }
    t.push_back(c);
    return t;
}
struct Args {
    Tok t; size_t p;
    explicit Args(const std::string& l) : t(Split(l)), p(0) {}
    bool more() const { return p < t.size(); }
    std::string raw() { if (p >= t.size()) { fprintf(stderr, "HARNESS-ERROR missing arg in: "); for (auto& x : t) fprintf(stderr, "%s ", x.c_str()); fprintf(stderr, "\n"); exit(70); } return t[p++]; }
    std::string str() { return Unesc(raw()); }
    int i() { return atoi(raw().c_str()); }
    long long ll() { return atoll(raw().c_str()); }
    double d() { return strtod(raw().c_str(), nullptr); }
    bool b() { return i() != 0; }
};
struct Ev {
    std::string s; bool first;
    explicit Ev(const std::string& op) : s("{\"op\":\"" + op + "\""), first(false) {}
    Ev& raw(const std::string& k, const std::string& v) { s += ",\"" + k + "\":" + v; return *this; }
    Ev& i(const std::string& k, long long v) {
        if (v > 2147483647LL || v < -2147483647LL) { fprintf(stderr, "HARNESS-NOTE wide int %s=%lld\n", k.c_str(), v); return raw(k, v > 0 ? "2147483646" : "-2147483646"); }
        return raw(k, std::to_string(v)); }
    Ev& b(const std::string& k, bool v) { return raw(k, v ? "true" : "false"); }
    Ev& txt(const std::string& k, const std::string& v) { return raw(k, "\"" + v + "\""); } // ASCII, no quotes
    template <typename C> Ev& seq(const std::string& k, const C& v) {
        std::string r = "[";
        bool f = true;
        for (auto it = v.begin(); it != v.end(); ++it) { if (!f) r += ","; f = false; r += std::to_string(static_cast<long long>(*it)); }
        return raw(k, r + "]");
    }
    Ev& codes(const std::string& k, const std::string& v) { return raw(k, Codes(v)); }
    Ev& codeseq(const std::string& k, const std::vector<std::string>& v) {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += Codes(v[i]); }
        return raw(k, r + "]");
    }
    static std::string Codes(const std::string& v) {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += std::to_string(static_cast<int>(static_cast<unsigned char>(v[i]))); }
        return r + "]";
    }
    // a double as a sequence of five 13-bit words (exact): <<b64..>>
    static std::string Bits(double d) {
        uint64_t u; memcpy(&u, &d, 8);
        std::string r = "[";
        for (int k = 0; k < 3; k++) { if (k) r += ","; r += std::to_string(static_cast<long long>((u >> (44 - 22 * k)) & 0x3fffff)); }
        return r + "]";
    }
    Ev& bits(const std::string& k, double v) { return raw(k, Bits(v)); }
};
struct Out {
    FILE* f;
    explicit Out(const char* p) { f = fopen(p, "w"); if (!f) { fprintf(stderr, "HARNESS-ERROR cannot open trace\n"); exit(70); } }
#ifdef VT_PAR
    void put(const Ev& e) { fputs((e.s + ",\"par\":" + par::Take() + "}\n").c_str(), f); fflush(f); }
#else
    void put(const Ev& e) { fputs((e.s + "}\n").c_str(), f); fflush(f); }
#endif
};
inline std::vector<std::string> ReadScript(const char* p) {
    std::ifstream in(p); std::string l; std::vector<std::string> v;
    while (std::getline(in, l)) if (!l.empty()) v.push_back(l);
    return v;
}
}
#endif
