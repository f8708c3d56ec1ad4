// Texts, numbers in texts, IP addresses and option maps.  Texts are given to the specification as byte codes.
#include "vt.h"
#include "basic.h"
#include "utils_string.h"
#include <algorithm>
using namespace vt; using namespace ccgl; using namespace ccgl::utils_string;
typedef std::vector<std::string> Texts;
// a number as [sign, digits, exponent]: 0.d1d2d3... * 10^exponent, at most 15 digits, no zeros at the ends
static std::string Norm(double v) {
    if (std::isnan(v)) return "[2,[],0]";
    if (std::isinf(v)) return v > 0 ? "[3,[],0]" : "[-3,[],0]";
    if (v == 0) return "[0,[],0]";
    char b[64]; snprintf(b, sizeof b, "%.14e", std::fabs(v)); std::string s = b, d; size_t e = s.find('e');
    for (size_t i = 0; i < e; i++) if (s[i] != '.') d += s[i];
    int ex = atoi(s.c_str() + e + 1) + 1; while (!d.empty() && d[d.size() - 1] == '0') d.resize(d.size() - 1);
    std::string r = std::string("[") + (v < 0 ? "-1" : "1") + ",["; for (size_t i = 0; i < d.size(); i++) { if (i) r += ","; r += d[i]; }
    return r + "]," + std::to_string(ex) + "]"; }
template <typename T> static std::string Norms(const std::vector<T>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += Norm(static_cast<double>(v[i])); } return r + "]"; }
static std::wstring W(const std::string& s) { return std::wstring(s.begin(), s.end()); }
static std::string N(const std::wstring& s) { std::string r; for (wchar_t c : s) r += static_cast<char>(c); return r; }
static void OutMap(Ev& e, const char* k, const STRING_MAP& m) { std::string r = "["; bool f = true; for (auto& x : m) { r += std::string(f ? "" : ",") + "[" + Ev::Codes(x.first) + "," + Ev::Codes(x.second) + "]"; f = false; } e.raw(k, r + "]"); }
template <typename F> static void Parsed(Ev& e, const char* k, F f) { bool ok = false; auto v = f(ok); e.b(k, ok).codes(std::string(k) + "v", ok ? std::to_string(v) : ""); }
int main(int argc, char** argv) {
    std::vector<std::string> script = ReadScript(argv[1]); Out out(argv[2]); STRING_MAP opts;
    for (auto& line : script) {
        Args a(line); std::string op = a.raw(); Ev e(op);
        if (op == "reset") opts.clear();
        else if (op == "split") { char d = a.str()[0]; std::string s = a.str(); e.i("d", d).codes("s", s).codeseq("f", SplitString(s, d)); }
        else if (op == "words") { std::string s = a.str(); e.codes("s", s).codeseq("f", SplitString(s)); }
        else if (op == "trim") { std::string s = a.str(), t = s, u = s; std::string& r = Trim(t); TrimSpaces(u); e.codes("s", s).codes("t", t).codes("r", r).b("same", &r == &t).codes("u", u); }
        else if (op == "upper") { std::string s = a.str(); std::string r = GetUpper(s); e.codes("s", s).codes("u", r); }
        else if (op == "match") { std::string s = a.str(), t = a.str(); e.codes("s", s).codes("t", t).b("m", StringMatch(s, t)).b("mc", StringMatch(s.c_str(), t.c_str())).b("back", StringMatch(t, s)); }
        else if (op == "int") { std::string s = a.str(); std::wstring w = W(s); e.codes("s", s);
            Parsed(e, "i", [&](bool& ok) { return static_cast<long long>(IsInt(s, ok)); }); Parsed(e, "iw", [&](bool& ok) { return static_cast<long long>(IsInt(w, ok)); });
            Parsed(e, "l", [&](bool& ok) { return static_cast<long long>(IsInt64(s, ok)); }); Parsed(e, "lw", [&](bool& ok) { return static_cast<long long>(IsInt64(w, ok)); });
            Parsed(e, "u", [&](bool& ok) { return static_cast<unsigned long long>(IsUInt(s, ok)); }); Parsed(e, "uw", [&](bool& ok) { return static_cast<unsigned long long>(IsUInt(w, ok)); });
            Parsed(e, "m", [&](bool& ok) { return static_cast<unsigned long long>(IsUInt64(s, ok)); }); Parsed(e, "mw", [&](bool& ok) { return static_cast<unsigned long long>(IsUInt64(w, ok)); });
            bool ok; e.b("toi", ToInt(s) == IsInt(s, ok) && ToInt64(w) == IsInt64(w, ok) && ToUInt(s) == IsUInt(s, ok) && ToUInt64(s) == IsUInt64(s, ok)); }
        else if (op == "dbl") { std::string s = a.str(); std::wstring w = W(s); bool ok = false, okw = false; double d = IsDouble(s, ok), dw = IsDouble(w, okw); double td = ToDouble(s);
            e.codes("s", s).b("d", ok).raw("v", Norm(d)).b("dw", okw).raw("vw", Norm(dw)).b("num", IsNumber(s)).b("numw", IsNumber(w)).raw("to", Norm(td)); }
        else if (op == "vals") { char d = a.str()[0]; std::string s = a.str(); std::vector<double> v(2, 7.); std::vector<int> vi(1, 7); bool ok = SplitStringForValues(s, d, v), oki = SplitStringForValues(s, d, vi);
            e.i("d", d).codes("s", s).b("ok", ok).raw("v", Norms(v)).b("oki", oki).raw("vi", Norms(vi)); }
        else if (op == "fmt") { // the integer named by the text, in every type that holds it
            std::string s = a.str(); e.codes("s", s); bool neg = s[0] == '-'; unsigned long long u = neg ? 0 : strtoull(s.c_str(), nullptr, 10); long long l = neg || u <= 9223372036854775807ULL ? strtoll(s.c_str(), nullptr, 10) : 0; Texts t;
            if (neg || u <= 9223372036854775807ULL) { t.push_back(i64toa(l)); t.push_back(N(i64tow(l))); t.push_back(ValueToString(l)); t.push_back(itoa(static_cast<vint>(l))); t.push_back(N(itow(static_cast<vint>(l)))); if (l >= -2147483648LL && l <= 2147483647LL) t.push_back(ValueToString(static_cast<int>(l))); }
            if (!neg) { t.push_back(u64toa(u)); t.push_back(N(u64tow(u))); t.push_back(ValueToString(u)); t.push_back(utoa(static_cast<vuint>(u))); t.push_back(N(utow(static_cast<vuint>(u)))); }
            e.codeseq("t", t); }
        else if (op == "ftoa") { std::string s = a.str(); double d = strtod(s.c_str(), nullptr); e.codes("s", s).codes("t", ftoa(d)).codes("tw", N(ftow(d))).codes("wide", wtoa(atow(s))); }
        else if (op == "ip") { std::string s = a.str(); e.codes("s", s).b("ip", IsIpAddress(s.c_str())); }
        else if (op == "put") { std::string k = a.str(), v = a.str(); UpdateStringMap(opts, k, v); e.codes("k", k).codes("v", v); OutMap(e, "m", opts); }
        else if (op == "copy") { STRING_MAP in; while (a.more()) { std::string k = a.str(), v = a.str(); in[k] = v; } CopyStringMap(in, opts); OutMap(e, "in", in); OutMap(e, "m", opts); }
        else { fprintf(stderr, "HARNESS-ERROR op %s\n", op.c_str()); return 70; }
        out.put(e);
    }
    return 0;
}
