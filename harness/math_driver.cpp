// Statistics, comparison and approximate functions. Values are whole numbers times a power of two.
#include "vt.h"
#include "basic.h"
#include "utils_math.h"
using namespace vt; using namespace ccgl; using namespace ccgl::utils_math;
static std::vector<int> Ints(Args& a) { std::vector<int> v; int n = a.i(); for (int i = 0; i < n; i++) v.push_back(a.i()); return v; }
static long long R(double v) { return std::isnan(v) || std::fabs(v) > 2e9 ? -2000000001 : llround(v); }
template <typename T> static std::vector<T> Vals(const std::vector<int>& v, int e) { std::vector<T> r; for (int x : v) r.push_back(static_cast<T>(std::ldexp(static_cast<double>(x), e))); return r; }
static std::string Row(const double* r, int e) {
    double s = std::ldexp(1., -e); // extremes must be exact: anything else is shown as no whole number
    auto ex = [&](double v) { double q = v * s; return q == std::floor(q) && std::fabs(q) < 1e9 ? static_cast<long long>(q) : -2000000001LL; };
    return "[" + std::to_string(R(r[0])) + "," + std::to_string(R(r[1] * s * 1000)) + "," + std::to_string(ex(r[2])) + "," + std::to_string(ex(r[3])) + "," + std::to_string(R(r[4] * s * 100)) + "," + std::to_string(ex(r[5])) + "]"; }
template <typename T> static void Do(const std::string& op, Args& a, Ev& e) {
    int ex = a.i(); double back = std::ldexp(1., -ex);
    if (op == "stat2") { int c = a.i(); int x = a.i(); bool dflt = a.b(); std::vector<int> s = Ints(a); int n = static_cast<int>(s.size()) / c; std::vector<T> v = Vals<T>(s, ex), w = v; std::vector<const T*> p; for (int i = 0; i < n; i++) p.push_back(v.data() + i * c); if (p.empty()) p.push_back(nullptr);
        double** r = nullptr; if (dflt) BasicStatistics(static_cast<const T* const*>(p.data()), n, c, &r); else BasicStatistics(static_cast<const T* const*>(p.data()), n, c, &r, Vals<T>(std::vector<int>(1, x), ex)[0]);
        std::string o = "[", q = "["; for (int i = 0; i < n; i++) { q += i ? ",[" : "["; for (int j = 0; j < c; j++) q += (j ? "," : "") + std::to_string(s[i * c + j]); q += "]"; }
        for (int j = 0; j < c; j++) { double t[6]; for (int k = 0; k < 6; k++) t[k] = r[k][j]; o += (j ? "," : "") + Row(t, ex); }
        for (int k = 0; k < 6; k++) delete[] r[k]; delete[] r;
        e.i("c", c).i("x", x).raw("rows", q + "]").raw("r", o + "]").b("kept", v == w); return; }
    if (op == "stat") { int x = a.i(); bool dflt = a.b(); std::vector<int> s = Ints(a); std::vector<T> v = Vals<T>(s, ex), w = v; double* r = nullptr;
        if (dflt) BasicStatistics(v.data(), static_cast<int>(v.size()), &r); else BasicStatistics(v.data(), static_cast<int>(v.size()), &r, Vals<T>(std::vector<int>(1, x), ex)[0]);
        e.i("x", x).seq("s", s).raw("r", Row(r, ex)).b("kept", v == w); delete[] r; return; }
    std::vector<int> s = Ints(a); std::vector<T> v = Vals<T>(s, ex); e.seq("s", s); int n = static_cast<int>(v.size());
    if (op == "max") e.i("max", R(MaxInArray(v.data(), n) * back)).i("min", R(MinInArray(v.data(), n) * back));
    else if (op == "sum") e.i("sum", R(Sum(n, v.data()) * back));
    else if (op == "sumidx") { std::vector<int> x = Ints(a); int* p = x.data(); e.seq("idx", x).i("sum", R(Sum(static_cast<int>(x.size()), p, v.data()) * back)); }
    else { fprintf(stderr, "HARNESS-ERROR unknown op %s\n", op.c_str()); exit(70); } }
template <typename T, typename S> static void Eq(Ev& e, T a, S b) { e.b("eq", FloatEqual(a, b)).b("qe", FloatEqual(b, a)); }
int main(int argc, char** argv) {
    std::vector<std::string> script = ReadScript(argv[1]); Out out(argv[2]);
    for (auto& line : script) {
        Args a(line); std::string op = a.raw(); Ev e(op);
        if (op == "reset") {}
        else if (op == "eq") { int x = a.i(), y = a.i(); bool tiny = a.b(); int ty = a.i(); e.i("a", x).i("b", y).b("tiny", tiny); double s = tiny ? 1e-33 : .25;
            if (tiny || ty == 0) Eq(e, x * s, y * s); else if (ty == 1) Eq(e, static_cast<float>(x * s), static_cast<float>(y * s)); else if (ty == 2) Eq(e, static_cast<float>(x * s), y * s); else Eq(e, x / 4, y * s); }
        else if (op == "near") { std::string f = a.raw(); double x = a.d(), y = a.more() ? a.d() : 0, dev; float xf = static_cast<float>(x), yf = static_cast<float>(y);
            if (f == "sqrtf") dev = (ApprSqrt(xf) / std::sqrt(static_cast<double>(xf)) - 1) * 1e9;
            else if (f == "sqrt") dev = (ApprSqrt(x) / std::sqrt(x) - 1) * 1e12;
            else if (f == "expf") dev = (ApprExp(xf) / std::exp(static_cast<double>(xf)) - 1) * 1e9;
            else if (f == "exp") dev = (ApprExp(x) / std::exp(x) - 1) * 1e9;
            else if (f == "lnf") dev = (ApprLn(xf) - std::log(static_cast<double>(xf))) * 1e9;
            else if (f == "ln") dev = (ApprLn(x) - std::log(x)) * 1e9;
            else dev = (ApprPow(xf, yf) / std::pow(static_cast<double>(xf), static_cast<double>(yf)) - 1) * 1e9;
            e.txt("f", f).i("dev", R(dev)); }
        else if (op == "expo") { int x = a.i(); bool dflt = a.b(); int up = a.i(), lo = a.i(); float r = dflt ? Expo(x / 4.f) : Expo(x / 4.f, up / 4.f, lo / 4.f); long long g = R(std::log(static_cast<double>(r)) * 4);
            e.i("x", x).i("up", dflt ? 80 : up).i("lo", dflt ? -80 : lo).i("got", g).b("exact", std::fabs(r / std::exp(g / 4.) - 1) < 1e-6); }
        else if (op == "power") { int x = a.i(), n = a.i(); e.i("a", x).i("n", n).i("got", R(Power(static_cast<float>(x), static_cast<float>(n)))); }
        else if (op == "cal") { int k = a.i(), n = a.i(); e.i("k", k).i("n", n).i("sqrt", R(CalSqrt(static_cast<double>(k) * k))).i("pow", R(CalPow(k, n))).i("lnexp", R(CalLn(CalExp(static_cast<double>(k))))); }
        else if (op == "macro") { int x = a.i(), y = a.i(); e.i("a", x).i("b", y).i("max", Max(x, y)).i("min", Min(x, y)).i("abs", Abs(x)); }
        else { std::string t = a.raw(); if (t == "i") Do<int>(op, a, e); else if (t == "s") Do<short>(op, a, e); else if (t == "f") Do<float>(op, a, e); else Do<double>(op, a, e); }
        out.put(e);
    }
    return 0; }
