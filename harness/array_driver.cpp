// Arrays behind handles and the array class, for four element types; values in quarters.
#include "vt.h"
#include "basic.h"
#include "utils_array.h"
#include <algorithm>
#include <new>
#include <unistd.h>
using namespace vt; using namespace ccgl; using namespace ccgl::utils_array;
static bool counting = false; static long blocks = 0; static int failat = 0, nth = 0;
struct Counted { bool old; Counted(bool on) : old(counting) { counting = on; } ~Counted() { counting = old; } };
// blocks made by the code under test are counted wherever they are freed
static std::map<void*, int>* live() { static std::map<void*, int>* m = new std::map<void*, int>; return m; }
static void* Make(size_t n) {
    if (counting && ++nth == failat) return nullptr;
    void* p = malloc(n ? n : 1); if (counting) { counting = false; (*live())[p] = 1; counting = true; blocks++; } return p; }
static void Free(void* p) { if (!p) return; bool c = counting; counting = false; if (live()->erase(p)) blocks--; counting = c; free(p); }
void* operator new[](size_t n) { void* p = Make(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Make(n); }
void operator delete[](void* p) noexcept { Free(p); }
void operator delete[](void* p, size_t) noexcept { Free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Free(p); }
template <typename T> static T Val(int q) { return static_cast<T>(q / 4.0); }
template <typename T> static int Q(T v) { return static_cast<int>(static_cast<double>(v) * 4); }
template <typename T> struct Regs {
    T* one[4]; int n1[4]; T** two[4]; std::vector<int> c2[4]; Array2D<T> cls[4];
    Regs() { for (int i = 0; i < 4; i++) { one[i] = nullptr; two[i] = nullptr; n1[i] = 0; } }
    void clear() { for (int i = 0; i < 4; i++) { Release1DArray(one[i]); Release2DArray(two[i]); cls[i] = Array2D<T>(); } } };
static Regs<int> ri; static Regs<short> rs; static Regs<float> rf; static Regs<double> rd;
template <typename T> static void Dump(Regs<T>& r, const char* t, std::string& a, std::string& b, std::string& c) {
    for (int i = 1; i < 4; i++) {
        std::string h = std::string("[\"") + t + "\"," + std::to_string(i) + ",[";
        if (r.one[i]) { std::string s; for (int k = 0; k < r.n1[i]; k++) s += (k ? "," : "") + std::to_string(Q(r.one[i][k])); a += (a.empty() ? "" : ",") + h + s + "]]"; }
        if (r.two[i]) { std::string s; for (size_t k = 0; k < r.c2[i].size(); k++) { s += k ? ",[" : "["; for (int j = 0; j < r.c2[i][k]; j++) s += (j ? "," : "") + std::to_string(Q(r.two[i][k][j])); s += "]"; } b += (b.empty() ? "" : ",") + h + s + "]]"; }
        if (r.cls[i].data()) { std::string s; const Array2D<T>& x = r.cls[i]; for (unsigned k = 0; k < x.get_rows(); k++) { s += k ? ",[" : "["; for (unsigned j = 0; j < x.get_cols(); j++) s += (j ? "," : "") + std::to_string(Q(x[k][j])); s += "]"; } c += (c.empty() ? "" : ",") + h + s + "]]"; }
    } }
static std::vector<int> Ints(Args& a) { std::vector<int> v; int n = a.i(); for (int i = 0; i < n; i++) v.push_back(a.i()); return v; }
template <typename T> static std::vector<T> Vals(const std::vector<int>& v) { std::vector<T> r; for (int x : v) r.push_back(Val<T>(x)); return r; }
template <typename T, typename S> static bool From1(Regs<T>& r, int h, int n, const std::vector<int>& src, bool null) { std::vector<S> v = Vals<S>(src); Counted c(true); return Initialize1DArray(n, r.one[h], null ? static_cast<S*>(nullptr) : v.data()); }
template <typename T, typename S> static bool From2(Regs<T>& r, int h, int n, int m, const std::vector<int>& src, bool null) {
    std::vector<S> v = Vals<S>(src); std::vector<S*> p; for (int i = 0; i < n; i++) p.push_back(v.data() + i * (m > 0 ? m : 0)); if (p.empty()) p.push_back(v.data());
    Counted c(true); return Initialize2DArray(n, m, r.two[h], null ? static_cast<S**>(nullptr) : p.data()); }
template <typename T, typename S> static bool Rag(Regs<T>& r, int h, int& n, int& m, const std::vector<int>& src, bool null) { std::vector<S> v = Vals<S>(src); Counted c(true); return Initialize2DArray(null ? static_cast<S*>(nullptr) : v.data(), n, m, r.two[h]); }
template <typename T, typename S> static bool Init1(Regs<T>& r, int h, int n, int q) { S v = Val<S>(q); Counted c(true); return Initialize1DArray(n, r.one[h], v); }
template <typename T, typename S> static bool Init2(Regs<T>& r, int h, int n, int m, int q) { S v = Val<S>(q); Counted c(true); return Initialize2DArray(n, m, r.two[h], v); }
template <typename T, typename S> static bool Copy1(Regs<T>& r, int h, Regs<S>& s, int g) { int n = s.n1[g]; Counted c(true); return Initialize1DArray(n, r.one[h], s.one[g]); }
template <typename T, typename S> static bool Copy2(Regs<T>& r, int h, Regs<S>& s, int g) { int n = static_cast<int>(s.c2[g].size()), m = n ? s.c2[g][0] : 0; Counted c(true); return Initialize2DArray(n, m, r.two[h], s.two[g]); }
#define BY(ft, CALL) (ft == "i" ? CALL(int, ri) : ft == "s" ? CALL(short, rs) : ft == "f" ? CALL(float, rf) : CALL(double, rd))
static void ReadBack(Ev& e, const char* f) {
    std::ifstream in(f); std::string l, o; bool first = true;
    while (std::getline(in, l)) { std::istringstream s(l); double d; std::string w; while (s >> d) w += (w.empty() ? "" : ",") + std::to_string(Q(d)); o += std::string(first ? "" : ",") + "[" + w + "]"; first = false; }
    e.raw("rows", "[" + o + "]"); unlink(f); }
static void Text(Ev& e, Regs<float>& r, const std::string& op, int h) {
    if (op == "text1") Output1DArrayToTxtFile(r.n1[h], r.one[h], "o.txt");
    else { int c = 1 << 30; for (int x : r.c2[h]) c = std::min(c, x); e.i("c", c); Output2DArrayToTxtFile(static_cast<int>(r.c2[h].size()), c, const_cast<const float**>(r.two[h]), "o.txt"); }
    ReadBack(e, "o.txt"); }
template <typename T> static void Text(Ev&, Regs<T>&, const std::string&, int) { fprintf(stderr, "HARNESS-ERROR text of this type\n"); exit(70); }
template <typename T> static void Do(const std::string& op, const std::string& t, Args& a, Ev& e, Regs<T>& r) {
    e.txt("t", t);
    if (op == "value" || op == "remove") { int q = a.i(); std::vector<int> s = Ints(a); std::vector<T> v = Vals<T>(s); T x = Val<T>(q); e.i("v", Q(x)); std::vector<int> b; for (T y : v) b.push_back(Q(y)); e.seq("s", b);
        if (op == "value") e.b("ok", ValueInVector(x, v)); else { RemoveValueInVector(x, v); std::vector<int> o; for (T y : v) o.push_back(Q(y)); e.seq("out", o); } return; }
    int h = 0;
    if (op != "batch1" && op != "batch2") { h = a.i(); e.i("h", h); }
    if (op == "init1") { int n = a.i(); std::string ft = a.raw(); int q = a.i(); e.i("n", n).txt("ft", ft).i("v", q);
#define C(S, R) Init1<T, S>(r, h, n, q)
        bool ok = BY(ft, C); if (ok) r.n1[h] = n; e.b("ok", ok); }
#undef C
    else if (op == "from1") { int n = a.i(); std::string ft = a.raw(); bool null = a.b(); std::vector<int> s = Ints(a); e.i("n", n).txt("ft", ft).b("null", null).seq("src", s);
#define C(S, R) From1<T, S>(r, h, n, s, null)
        bool ok = BY(ft, C); if (ok) r.n1[h] = n; e.b("ok", ok); }
#undef C
    else if (op == "copy1") { std::string ft = a.raw(); int g = a.i(); e.txt("ft", ft).i("g", g);
#define C(S, R) Copy1<T, S>(r, h, R, g)
        bool ok = BY(ft, C);
#undef C
        if (ok) r.n1[h] = ft == "i" ? ri.n1[g] : ft == "s" ? rs.n1[g] : ft == "f" ? rf.n1[g] : rd.n1[g]; e.b("ok", ok); }
    else if (op == "set1") { int i = a.i(), q = a.i(); r.one[h][i - 1] = Val<T>(q); e.i("i", i).i("v", q); }
    else if (op == "rel1") Release1DArray(r.one[h]);
    else if (op == "batch1") { std::vector<int> s = Ints(a); e.seq("hs", s); T* n = nullptr;
        T* x[3] = {nullptr, nullptr, nullptr}; for (size_t i = 1; i < s.size(); i++) x[i] = r.one[s[i]];
        if (s.size() == 1) BatchRelease1DArray(r.one[s[0]], n); else if (s.size() == 2) BatchRelease1DArray(r.one[s[0]], x[1], n); else BatchRelease1DArray(r.one[s[0]], x[1], x[2], n);
        e.b("empty", r.one[s[0]] == nullptr); for (int i : s) r.one[i] = nullptr; }
    else if (op == "init2") { int n = a.i(), m = a.i(); std::string ft = a.raw(); int q = a.i(); e.i("r", n).i("c", m).txt("ft", ft).i("v", q);
#define C(S, R) Init2<T, S>(r, h, n, m, q)
        bool ok = BY(ft, C); if (ok) r.c2[h] = std::vector<int>(n, m); e.b("ok", ok); }
#undef C
    else if (op == "from2") { int n = a.i(), m = a.i(); std::string ft = a.raw(); bool null = a.b(); std::vector<int> s = Ints(a); e.i("r", n).i("c", m).txt("ft", ft).b("null", null).seq("src", s);
#define C(S, R) From2<T, S>(r, h, n, m, s, null)
        bool ok = BY(ft, C); if (ok) r.c2[h] = std::vector<int>(n, m); e.b("ok", ok); }
#undef C
    else if (op == "copy2") { std::string ft = a.raw(); int g = a.i(); e.txt("ft", ft).i("g", g);
#define C(S, R) Copy2<T, S>(r, h, R, g)
        bool ok = BY(ft, C);
#undef C
        if (ok) r.c2[h] = ft == "i" ? ri.c2[g] : ft == "s" ? rs.c2[g] : ft == "f" ? rf.c2[g] : rd.c2[g]; e.b("ok", ok); }
    else if (op == "rag") { std::string ft = a.raw(); bool null = a.b(); std::vector<int> s = Ints(a); e.txt("ft", ft).b("null", null).seq("src", s); int n = -7, m = -7;
#define C(S, R) Rag<T, S>(r, h, n, m, s, null)
        bool ok = BY(ft, C);
#undef C
        if (ok) { r.c2[h].clear(); size_t p = 1; for (int i = 0; i < n; i++) { int k = s[p] / 4; r.c2[h].push_back(k + 1); p += k + 1; } } e.b("ok", ok).i("r", n).i("c", m); }
    else if (op == "set2") { int i = a.i(), j = a.i(), q = a.i(); r.two[h][i - 1][j - 1] = Val<T>(q); e.i("i", i).i("j", j).i("v", q); }
    else if (op == "rel2") Release2DArray(r.two[h]);
    else if (op == "batch2") { std::vector<int> s = Ints(a); e.seq("hs", s); T** n = nullptr;
        T** x[3] = {nullptr, nullptr, nullptr}; for (size_t i = 1; i < s.size(); i++) x[i] = r.two[s[i]]; int rows = static_cast<int>(r.c2[s[0]].size());
        if (s.size() == 1) BatchRelease2DArray(rows, r.two[s[0]], n); else if (s.size() == 2) BatchRelease2DArray(rows, r.two[s[0]], x[1], n); else BatchRelease2DArray(rows, r.two[s[0]], x[1], x[2], n);
        e.b("empty", r.two[s[0]] == nullptr); for (int i : s) r.two[i] = nullptr; }
    else if (op == "text1" || op == "text2") Text(e, r, op, h);
    else if (op == "new") { int n = a.i(), m = a.i(), q = a.i(), how = a.i(); T v = Val<T>(q); e.i("r", n).i("c", m).i("v", Q(v)); bool ok = true; Counted c(true);
        try { if (how == 0) r.cls[h].create(n, m, v); else if (how == 1) r.cls[h] = Array2D<T>(n, m, v); else { Array2D<T> x(n, m, v); r.cls[h] = x; } } catch (std::invalid_argument&) { ok = false; } e.b("ok", ok); }
    else if (op == "ccopy") { int g = a.i(), how = a.i(); e.txt("ft", t).i("g", g); Counted c(true); if (how == 0) r.cls[h] = r.cls[g]; else { Array2D<T> x(r.cls[g]); r.cls[h] = std::move(x); } }
    else if (op == "cmove") { int g = a.i(); bool ctor = a.b(); e.txt("ft", t).i("g", g).b("ctor", ctor); Counted c(true); if (!ctor) r.cls[h] = std::move(r.cls[g]); else { Array2D<T> x(std::move(r.cls[g])); r.cls[h] = std::move(x); } }
    else if (op == "cself") { int how = a.i(); Counted c(true); Array2D<T>& y = r.cls[h]; if (how == 0) r.cls[h] = y; else if (how == 1) r.cls[h] = std::move(y); else y.swap(y, r.cls[h]); }
    else if (op == "cswap") { int g = a.i(); e.txt("ft", t).i("g", g); r.cls[1].swap(r.cls[h], r.cls[g]); }
    else if (op == "cset") { int i = a.i(), j = a.i(), q = a.i(); T v = Val<T>(q); r.cls[h][i - 1][j - 1] = v; e.i("i", i).i("j", j).i("v", Q(v)); }
    else if (op == "cdel") { Array2D<T> x(std::move(r.cls[h])); }
    else if (op == "cshape") e.i("r", r.cls[h].get_rows()).i("c", r.cls[h].get_cols());
    else { fprintf(stderr, "HARNESS-ERROR unknown op %s\n", op.c_str()); exit(70); } }
int main(int argc, char** argv) {
    std::vector<std::string> script = ReadScript(argv[1]); Out out(argv[2]);
    for (auto& line : script) {
        Args a(line); std::string op = a.raw(); Ev e(op); failat = 0;
        if (op == "reset") { ri.clear(); rs.clear(); rf.clear(); rd.clear(); }
        else { std::string t = a.raw(); failat = atoi(t.c_str() + 1); nth = 0; t = t.substr(0, 1);
            if (t == "i") Do(op, t, a, e, ri); else if (t == "s") Do(op, t, a, e, rs); else if (t == "f") Do(op, t, a, e, rf); else Do(op, t, a, e, rd);
            e.i("fault", failat && nth >= failat ? failat : 0); failat = 0; }
        std::string x, y, z; Dump(ri, "i", x, y, z); Dump(rs, "s", x, y, z); Dump(rf, "f", x, y, z); Dump(rd, "d", x, y, z);
        e.raw("one", "[" + x + "]").raw("two", "[" + y + "]").raw("cls", "[" + z + "]").i("mem", blocks); out.put(e);
    }
    return 0; }
