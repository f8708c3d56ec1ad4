// Interpreter of raster scripts. Registers 0..3 hold integer rasters (they serve as masks), 4..7 rasters of type VT.
#include "raster_common.h"
#include <set>
#include <cstring>
#ifndef VT
#define VT float
#endif
typedef clsRasterData<int> MR;
typedef clsRasterData<VT, int> DR;
static MR* M[4]; static DR* D[4];
static std::string last[8];
// the registers whose projection differs from the one logged last
static std::string St() {
    List l;
    for (int i = 0; i < 8; i++) { std::string p = i < 4 ? Proj(M[i]) : Proj(D[i - 4]); if (p == last[i]) continue; last[i] = p; l.add("{\"i\":" + I(i) + ",\"p\":" + p + "}"); }
    return l.end(); }
static void Del(int r) { if (r < 4) { delete M[r]; M[r] = nullptr; } else { delete D[r - 4]; D[r - 4] = nullptr; } }
static MR* MaskOf(int m) { return m < 0 ? nullptr : M[m]; }
template <typename T> static T Val(long long q) { return static_cast<T>(q / 4.0); }
template <typename T> T* Arr(const std::vector<long long>& q) { T* a = nullptr; Initialize1DArray(static_cast<int>(q.size()), a, static_cast<T>(0)); for (size_t i = 0; i < q.size(); i++) a[i] = Val<T>(q[i]); return a; }
template <typename T> T** Arr2(const std::vector<long long>& q, int n, int L) { T** a = nullptr; Initialize2DArray(n, L, a, static_cast<T>(0)); for (int i = 0; i < n; i++) for (int k = 0; k < L; k++) a[i][k] = Val<T>(q[i * L + k]); return a; }
static std::vector<long long> Rest(Args& a) { std::vector<long long> v; while (a.more()) v.push_back(a.ll()); return v; }
static std::map<vint, std::vector<double> > ReadRecls(Args& a, Ev& e) {
    std::map<vint, std::vector<double> > m; int n = a.i(); List l;
    for (int i = 0; i < n; i++) { int k = a.i(); int L = a.i(); std::vector<double> v; List x; for (int j = 0; j < L; j++) { long long q = a.ll(); v.push_back(q / 4.0); x.add(q); } m[k] = v; l.add("{\"k\":" + I(k) + ",\"v\":" + x.end() + "}"); }
    e.raw("recls", l.end()); return m;
}
#ifdef USE_MONGODB
#include "fake_mongoc.h"
using namespace ccgl::db_mongoc;
static MongoClient* client; static MongoGridFs* gfs; static std::set<int> bad; static std::map<string, int> before;
static const char* HDRS[8] = {HEADER_RS_NCOLS, HEADER_RS_NROWS, HEADER_RS_XLL, HEADER_RS_YLL, HEADER_RS_CELLSIZE, HEADER_RS_NODATA, HEADER_RS_LAYERS, HEADER_RS_CELLSNUM};
// what an option text stands for: the number it spells, or itself
static string Canon(const string& s) { char* e = nullptr; double d = strtod(s.c_str(), &e); if (!s.empty() && *e == 0 && !isalpha(s[0])) return "n:" + Num(d); return "s:" + s; }
static string Pair(const string& k, const string& v) { return "[\"" + k + "\",\"" + Esc1(v) + "\"]"; }
static string Pairs(const STRING_MAP& m) { List l; for (auto& kv : m) l.add(Pair(kv.first, Canon(kv.second))); return l.end(); }
static STRING_MAP MOpts(Args& a) { STRING_MAP m; int n = a.i(); for (int i = 0; i < n; i++) { string k = a.str(); m[k] = a.str(); } return m; }
static double Elem(const char* p, int t) {
    switch (t) { case RDT_UInt8: return *reinterpret_cast<const vuint8_t*>(p); case RDT_Int8: return *reinterpret_cast<const vint8_t*>(p);
#define E1(RT, TY) case RT: { TY x; memcpy(&x, p, sizeof x); return static_cast<double>(x); }
        E1(RDT_UInt16, vuint16_t) E1(RDT_Int16, vint16_t) E1(RDT_UInt32, vuint32_t) E1(RDT_Int32, vint32_t) E1(RDT_UInt64, vuint64_t) E1(RDT_Int64, vint64_t) E1(RDT_Float, float) E1(RDT_Double, double)
        default: return 0; } }
static int Size(int t) { switch (t) { case RDT_UInt8: case RDT_Int8: return 1; case RDT_UInt16: case RDT_Int16: return 2; case RDT_UInt32: case RDT_Int32: case RDT_Float: return 4; case RDT_UInt64: case RDT_Int64: case RDT_Double: return 8; default: return 0; } }
// everything the store holds, read without the code under test
static string Db() {
    List l;
    for (auto& d : fake::dbs) for (auto& g : d.second.gfs) for (auto& f : g.second) {
        std::map<string, double> h; List o; string ty, srs; bson_iter_t it;
        if (f.has_meta && bson_iter_init(&it, f.meta)) while (bson_iter_next(&it)) {
            string k = bson_iter_key(&it), v; double x = 0;
            if (BSON_ITER_HOLDS_INT32(&it)) x = bson_iter_int32(&it); else if (BSON_ITER_HOLDS_INT64(&it)) x = static_cast<double>(bson_iter_int64(&it)); else if (BSON_ITER_HOLDS_DOUBLE(&it)) x = bson_iter_double(&it);
            else if (BSON_ITER_HOLDS_UTF8(&it)) { v = bson_iter_utf8(&it, nullptr); if (k == HEADER_RSOUT_DATATYPE) ty = v; if (k == HEADER_RS_SRS) srs = v; o.add(Pair(k, "s:" + v)); continue; }
            bool head = false; for (auto n : HDRS) if (k == n) head = true;
            if (head) h[k] = x; else o.add(Pair(k, "n:" + Num(x)));
        }
        string s = "{\"id\":" + I(f.id) + ",\"name\":\"" + f.name + "\",\"opts\":" + o.end() + ",\"bad\":" + (bad.count(f.id) ? "true" : "false");
        if (!bad.count(f.id)) {
            auto H = [&](int i) { return h.count(HDRS[i]) ? h[HDRS[i]] : -77777.0; };
            int n = static_cast<int>(H(7)), L = static_cast<int>(H(6)), t = StringToRasterDataType(ty), z = Size(t);
            bool fits = z > 0 && n > 0 && L > 0 && f.data.size() == static_cast<size_t>(n) * L * z;
            s += ",\"rows\":" + I(static_cast<int>(H(1))) + ",\"cols\":" + I(static_cast<int>(H(0))) + ",\"L\":" + I(L) + ",\"n\":" + I(n) + ",\"geo\":[" + I(X8(H(2))) + "," + I(X8(H(3))) + "," + I(X8(H(4))) + "],\"nod\":" + I(Q(H(5)))
                + ",\"ot\":\"" + ty + "\",\"srs\":\"" + Esc1(srs) + "\",\"fits\":" + (fits ? "true" : "false");
            List v; if (fits) for (int i = 0; i < n; i++) { List c; for (int k = 0; k < L; k++) c.add(Q(Elem(f.data.data() + (static_cast<size_t>(i) * L + k) * z, t))); v.add(c.end()); }
            s += ",\"v\":" + v.end();
        }
        l.add(s + "}");
    }
    return l.end();
}
static void AfterDb(Ev& e) { int n = 0; for (auto& f : fake::faults) n += f.second - before[f.first]; e.i("faults", n); e.raw("db", Db()); }
template <typename R, typename T> static bool MOp(const string& op, R*& r, Args& a, Ev& e) {
    before = fake::faults;
    if (op == "mout" || op == "moutsub") { // name inc org [comb dflt recls] opts
        string name = a.str(); bool empty = a.b(), inc = a.b(), org = a.b(), comb = true; e.txt("name", name).txt("vt", RasterDataTypeToString(TypeToRasterDataType(typeid(T)))).b("inc", inc).b("org", org);
        std::map<vint, std::vector<double> > m; long long dflt = Q(NODATA_VALUE);
        if (op == "moutsub") { comb = a.b(); dflt = a.ll(); m = ReadRecls(a, e); } else e.raw("recls", "[]");
        e.b("comb", comb).i("dflt", dflt);
        STRING_MAP o = MOpts(a); if (empty) r->SetCoreName(name);
        string nm = empty ? string() : name; bool ok;
        if (op == "mout") ok = !org ? r->OutputToMongoDB(gfs, nm, o, inc, org) : !inc ? r->OutputToMongoDB(gfs, nm, o, inc) : !o.empty() ? r->OutputToMongoDB(gfs, nm, o) : empty ? r->OutputToMongoDB(gfs) : r->OutputToMongoDB(gfs, nm);
        else ok = dflt != Q(NODATA_VALUE) ? r->OutputSubsetToMongoDB(gfs, nm, o, inc, org, comb, m, dflt / 4.0) : !m.empty() ? r->OutputSubsetToMongoDB(gfs, nm, o, inc, org, comb, m) : !comb ? r->OutputSubsetToMongoDB(gfs, nm, o, inc, org, comb)
            : org ? r->OutputSubsetToMongoDB(gfs, nm, o, inc, org) : !inc ? r->OutputSubsetToMongoDB(gfs, nm, o, inc) : r->OutputSubsetToMongoDB(gfs, nm, o);
        e.b("ok", ok).raw("given", Pairs(o)).raw("mopts", Pairs(r->GetOptions()));
    } else if (op == "mread") { // how name calc mask ext dflt opts
        int how = a.i(); string name = a.str(); int calc = a.i(), mask = a.i(), ext = a.i(); long long dflt = a.ll(); STRING_MAP o = MOpts(a);
        e.i("how", how).txt("name", name).txt("vt", RasterDataTypeToString(TypeToRasterDataType(typeid(T)))).b("calc", calc).i("m", mask).b("ext", ext).i("dflt", dflt);
        STRING_MAP f = o; if (!f.count(HEADER_INC_NODATA)) f[HEADER_INC_NODATA] = "TRUE"; e.raw("filter", Pairs(f));
        bool ok; MR* mk = MaskOf(mask); bool bare = o.empty(); int given = dflt != Q(NODATA_VALUE) ? 4 : !ext ? 3 : mk ? 2 : calc ? 1 : 0;
#define ASKM(F, P) (given == 4 ? F(gfs, P, calc, mk, ext, dflt / 4.0) : given == 3 ? F(gfs, P, calc, mk, ext) : given == 2 ? F(gfs, P, calc, mk) : given == 1 ? F(gfs, P, calc) : F(gfs, P))
        if (bare && how == 0) { r = ASKM(R::Init, name.c_str()); ok = r != nullptr; }
        else if (bare && how == 1) { r = ASKM(new R, name.c_str()); ok = r->ValidateRasterData(); }
        else if (bare) { if (!r) r = new R(); ok = ASKM(r->ReadFromMongoDB, name); }
        else if (how == 0) { r = R::Init(gfs, name.c_str(), calc, MaskOf(mask), ext, dflt / 4.0, o); ok = r != nullptr; }
        else if (how == 1) { r = new R(gfs, name.c_str(), calc, MaskOf(mask), ext, dflt / 4.0, o); ok = r->ValidateRasterData(); }
        else { if (!r) r = new R(); ok = r->ReadFromMongoDB(gfs, name, calc, MaskOf(mask), ext, dflt / 4.0, o); }
        e.b("ok", ok);
        if (!ok) { bool left = !r || !r->ValidateRasterData(); e.b("left", left); if (r) { r->GetValue(0, 0); r->GetValueByIndex(0); r->GetStatistics("MEAN"); if (r->OutputToFile("./never.asc") || r->BuildSubSet() || r->SetCalcPositions()) e.s += ",\"never\":true"; delete r; r = nullptr; } }
        else e.b("left", false);
    } else if (op == "mpre") { // src name opts: a header and positions lent by an integer raster, then the values
        int src = a.i(); string name = a.str(); STRING_MAP o = MOpts(a); MR* m = M[src]; e.i("src", src).txt("name", name).txt("vt", RasterDataTypeToString(TypeToRasterDataType(typeid(T))));
        STRING_MAP f = o; if (!f.count(HEADER_INC_NODATA)) f[HEADER_INC_NODATA] = "TRUE"; e.raw("filter", Pairs(f));
        r = new R(); r->SetHeader(m->GetRasterHeader());
        bool lend = f[HEADER_INC_NODATA] == "FALSE"; // the positions go with values of valid cells only
        if (lend && m->GetRasterPositionDataPointer()) r->SetPositions(m->GetCellNumber(), m->GetRasterPositionDataPointer());
        if (lend && m->GetRasterPositionIndexPointer()) r->SetPositions(m->GetCellNumber(), m->GetRasterPositionIndexPointer());
        bool ok = r->ReadFromMongoDB(gfs, name, false, nullptr, true, NODATA_VALUE, o); e.b("ok", ok);
        if (!ok) { e.b("left", !r->ValidateRasterData()); delete r; r = nullptr; } else e.b("left", false);
    } else if (op == "submread") { int id = a.i(); string name = a.str(); STRING_MAP o = MOpts(a); e.i("id", id).txt("name", name).raw("filter", Pairs(o));
        auto& s = r->GetSubset(); bool found = s.find(id) != s.end(); e.b("found", found).b("ok", found && s.at(id)->ReadFromMongoDB(gfs, name, o));
    } else return false;
    AfterDb(e);
    return true;
}
static void MBad(Args& a, Ev& e) { // a stored file that is no raster
    string name = a.str(); int k = a.i(); e.txt("name", name).i("kind", k); bson_t b = BSON_INITIALIZER;
    double h[8] = {3, 2, 0, 0, 1, -9999, 1, 6}; if (k == 4) h[7] = 0; if (k == 5) h[6] = 0; if (k == 6) h[7] = 5; if (k == 9) { h[0] = 0; h[7] = 0; }
    for (int i = 0; i < 8; i++) if (!(k == 1 && i == 1) && !(k == 10 && i == 7) && !(k == 11 && i == 6)) bson_append_double(&b, HDRS[i], -1, h[i]);
    if (k != 3) bson_append_utf8(&b, HEADER_RSOUT_DATATYPE, -1, k == 12 ? "NOTYPE" : k == 13 ? "DOUBLE" : "FLOAT", -1);
    bson_append_utf8(&b, HEADER_INC_NODATA, -1, "TRUE", -1); bson_append_int32(&b, "SCEN", -1, a.i());
    std::vector<char> d(24); float f = 1.5f; for (int i = 0; i < 6; i++) memcpy(&d[i * 4], &f, 4);
    if (k == 2) d.pop_back(); if (k == 7) d.push_back('x'); if (k == 8) d.clear(); if (k == 6) d.resize(20); if (k == 14) d.resize(20);
    std::set<int> had; for (auto& db : fake::dbs) for (auto& g : db.second.gfs) for (auto& x : g.second) had.insert(x.id);
    char dummy = 0; char* p = d.empty() ? &dummy : d.data(); e.b("ok", gfs->WriteStreamData(name, p, static_cast<vint>(d.size()), k == 0 ? nullptr : &b)); bson_destroy(&b);
    for (auto& db : fake::dbs) for (auto& g : db.second.gfs) for (auto& x : g.second) if (!had.count(x.id)) bad.insert(x.id);
    AfterDb(e);
}
#endif
template <typename R, typename T> static void Op(const std::string& op, R*& r, int reg, Args& a, Ev& e) {
    e.i("r", reg);
#ifdef USE_MONGODB
    if (MOp<R, T>(op, r, a, e)) return;
#endif
    if (op == "arr") {
        int kind = a.i(), rows = a.i(), cols = a.i(), L = a.i(); long long nod = a.ll(), xll = a.ll(), yll = a.ll(), cs = a.ll(); int mode = a.i();
        std::vector<long long> v = Rest(a);
        e.i("two", kind).i("rows", rows).i("cols", cols).i("lyrs", L).i("nod", nod).seq("geo", std::vector<long long>{xll, yll, cs}).i("mode", mode).seq("v", v);
        STRING_MAP o; if (mode == 2) { o[HEADER_RS_SRS] = "SRSX"; o[HEADER_RSOUT_DATATYPE] = "DOUBLE"; }
        if (mode >= 10) { o[HEADER_RSOUT_DATATYPE] = RasterDataTypeToString(mode - 10 + 1); e.txt("ot", o[HEADER_RSOUT_DATATYPE]); }
        if (!kind) { T* d = Arr<T>(v);
            r = mode == 1 ? new R(d, cols, rows, Val<T>(nod), cs / 8.0, xll / 8.0, yll / 8.0, string("SRSX")) : new R(d, cols, rows, Val<T>(nod), cs / 8.0, xll / 8.0, yll / 8.0, o);
        } else { T** d = Arr2<T>(v, rows * cols, L);
            r = mode == 1 ? new R(d, cols, rows, L, Val<T>(nod), cs / 8.0, xll / 8.0, yll / 8.0, string("SRSX")) : new R(d, cols, rows, L, Val<T>(nod), cs / 8.0, xll / 8.0, yll / 8.0, o); }
    } else if (op == "read") {
        int how = a.i(), n = a.i(); std::vector<string> f; std::string fl = "[";
        for (int i = 0; i < n; i++) { f.push_back(a.str()); fl += (i ? ",\"" : "\"") + f[i] + "\""; }
        int calc = a.i(), mask = a.i(), ext = a.i(); long long dflt = a.ll();
        bool dir = false; for (auto& x : f) { struct stat sb; if (stat(x.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) dir = true; }
        std::string ex = "["; for (int i = 0; i < n; i++) { struct stat sb; ex += std::string(i ? "," : "") + (stat(f[i].c_str(), &sb) == 0 ? "true" : "false"); }
        e.i("how", how).raw("files", fl + "]").raw("exist", ex + "]").b("dir", dir).b("calc", calc).i("m", mask).b("ext", ext).i("dflt", dflt);
        std::vector<string> p; for (auto& x : f) p.push_back("./" + x);
        bool ok; MR* mk = MaskOf(mask);
        int given = dflt != Q(NODATA_VALUE) ? 4 : !ext ? 3 : mk ? 2 : calc ? 1 : 0; // what need not be given is left out
#define ASK(F, P) (given == 4 ? F(P, calc, mk, ext, dflt / 4.0) : given == 3 ? F(P, calc, mk, ext) : given == 2 ? F(P, calc, mk) : given == 1 ? F(P, calc) : F(P))
        if (how == 0) { r = n == 1 ? ASK(R::Init, p[0]) : ASK(R::Init, p); ok = r != nullptr; }
        else if (how == 1) { r = n == 1 ? ASK(new R, p[0]) : ASK(new R, p); ok = r->ValidateRasterData(); }
        else if (how == 2) { r = n > 1 ? new R(true) : new R(); ok = n == 1 ? ASK(r->ReadFromFile, p[0]) : ASK(r->ReadFromFiles, p); }
        else if (how == 3) { r = ASK(R::Init, p); ok = r != nullptr; }
        else if (how == 4) { r = ASK(new R, p); ok = r->ValidateRasterData(); }
        else { if (!r) r = new R(); ok = n == 1 ? ASK(r->ReadFromFile, p[0]) : ASK(r->ReadFromFiles, p); } // into what the register holds
        e.b("ok", ok);
        if (!ok && how != 0 && how != 3) { // a failed object: ask it everything, then let it go
            e.s += ",\"fail\":" + Proj(r); r->GetValue(0, 0); r->GetPosition(0, 0); r->GetPosition(1.0, 1.0); r->GetValueByIndex(0); r->GetStatistics("MEAN"); r->SetValue(0, 0, 1);
            bool o1 = r->OutputToFile("./never.asc"), o2 = r->BuildSubSet(), o3 = r->SetCalcPositions(), o4 = r->SetUseMaskExt();
            e.b("refused", !o1 && !o2 && !o3 && !o4);
            delete r; r = nullptr; }
        else if (!ok) e.b("refused", true).raw("fail", "{\"has\":false}");
    } else if (op == "maskvals") {
        int mask = a.i(), len = a.i(), L = a.i(), two = a.i(), mode = a.i(); std::vector<long long> v = Rest(a); if (!two) L = 1;
        if (len < 0) { len = MaskOf(mask) && MaskOf(mask)->ValidateRasterData() ? 0 : 1; MR* mm = MaskOf(mask); // as many as the mask has valid cells
            if (mm) for (int i = 0; i < mm->GetRows(); i++) for (int j = 0; j < mm->GetCols(); j++) if (mm->GetPosition(i, j) >= 0 && (mm->PositionsCalculated() || !mm->IsNoData(i, j))) len++; }
        v.resize(static_cast<size_t>(len) * L, 4); if (len == 0) { len = 1; v.resize(L, 4); } // one value is too many for a mask without cells
        e.i("m", mask).i("len", len).i("lyrs", L).i("two", two).i("mode", mode).seq("v", v);
        STRING_MAP o; if (mode == 2) { o[HEADER_RS_SRS] = "SRSX"; o[HEADER_RSOUT_DATATYPE] = "DOUBLE"; }
        if (!two) { T* d = Arr<T>(v); r = new R(MaskOf(mask), d, len, o); Release1DArray(d); }
        else { T** d = Arr2<T>(v, len, L); r = new R(MaskOf(mask), d, len, L, o); Release2DArray(d); }
        bool ok = r->Initialized(); e.b("ok", ok);
        if (!ok) { e.b("has", r->ValidateRasterData()); r->GetValue(0, 0); delete r; r = nullptr; }
    } else if (op == "empty") { bool two = a.b(); e.b("two", two); r = new R(two); }
    else if (op == "del") { delete r; r = nullptr; }
    else if (op == "setv") {
        int row = a.i(), col = a.i(), lyr = a.i(); long long v = a.ll();
        e.i("row", row).i("col", col).i("lyr", lyr).i("v", v);
        r->SetValue(row, col, Val<T>(v), lyr);
    } else if (op == "calcpos") { e.b("ok", r->SetCalcPositions()); }
    else if (op == "useext") { e.b("ok", r->SetUseMaskExt()); }
    else if (op == "setdflt") { long long v = a.ll(); e.i("v", v); r->SetDefaultValue(v / 4.0); }
    else if (op == "replnod") { long long v = a.ll(); e.i("v", v); r->ReplaceNoData(Val<T>(v)); }
    else if (op == "recls") {
        std::map<int, T> m; int n = a.i(); List l;
        for (int i = 0; i < n; i++) { int k = a.i(); long long v = a.ll(); m[k] = Val<T>(v); l.add("[" + I(k) + "," + I(v) + "]"); }
        e.raw("map", l.end()); r->Reclassify(m);
    } else if (op == "stats" || op == "updstats") {
        bool byname = a.b();
        if (op == "updstats") r->UpdateStatistics();
        List l; int L = r->GetLayers(); bool valid = r->ValidateRasterData();
        std::vector<double> arr[6];
        const char* nm[6] = {"valid_cellnumber", "Mean", "MIN", "max", "Range", "std"};
        bool two = r->Is2DRaster(); bool arrok = true;
        if (two && byname) for (int k = 0; k < 6; k++) {
            int n = -1; double* v = nullptr;
            if (k == 0) r->GetValidNumber(&n, &v); else if (k == 1) r->GetAverage(&n, &v); else if (k == 2) r->GetMinimum(&n, &v);
            else if (k == 3) r->GetMaximum(&n, &v); else if (k == 4) r->GetRange(&n, &v); else r->GetStd(&n, &v);
            if (n != L || !v) arrok = false; else arr[k].assign(v, v + n);
        }
        for (int k = 1; k <= L && valid; k++) {
            double c = byname ? r->GetStatistics(nm[0], k) : r->GetValidNumber(k), me = byname ? r->GetStatistics(nm[1], k) : r->GetAverage(k), mi = byname ? r->GetStatistics(nm[2], k) : r->GetMinimum(k),
                   ma = byname ? r->GetStatistics(nm[3], k) : r->GetMaximum(k), ra = byname ? r->GetStatistics(nm[4], k) : r->GetRange(k), sd = byname ? r->GetStatistics(nm[5], k) : r->GetStd(k);
            if (k == 1) { double f[6] = {static_cast<double>(r->GetValidNumber()), r->GetAverage(), r->GetMinimum(), r->GetMaximum(), r->GetRange(), r->GetStd()}, x[6] = {c, me, mi, ma, ra, sd}; // the first layer, when none is named
                for (int q = 0; q < 6; q++) if (!(f[q] == x[q] || (std::isnan(x[q]) && std::isnan(f[q])))) arrok = false; }
            if (two && byname && arrok) { double x[6] = {c, me, mi, ma, ra, sd}; for (int q = 0; q < 6; q++) if (!(arr[q][k - 1] == x[q] || (std::isnan(x[q]) && std::isnan(arr[q][k - 1])))) arrok = false; }
            List x; x.add(static_cast<long long>(c));
            if (c > 0) { double s = me * c * 4, w = sd * sd * c * c * 16; // rounded: the sums are whole numbers
                long long sr = std::fabs(s) < 1e9 && std::fabs(s - std::floor(s + .5)) < 1e-2 ? static_cast<long long>(std::floor(s + .5)) : BADV;
                long long wr = w < 1.9e9 && w > -1 && std::fabs(w - std::floor(w + .5)) < 1e-2 + 1e-6 * w ? static_cast<long long>(std::floor(w + .5)) : BADV;
                x.add(sr).add(Q(mi)).add(Q(ma)).add(Q(ra)).add(wr); }
            l.add(x.end());
        }
        e.raw("s", l.end()).b("arrok", arrok).b("done", r->StatisticsCalculated() || !valid);
    } else if (op == "probe") {
        int rows = r->GetRows(), cols = r->GetCols(), L = r->GetLayers(), n = r->GetCellNumber();
        List grid, idx, nd, cen; bool arrok = true, lookup = true;
        for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) {
            List x, y; for (int k = 1; k <= L; k++) { x.add(Q(static_cast<double>(r->GetValue(i, j, k)))); y.add(r->IsNoData(i, j, k) ? 1 : 0); }
            T* v = nullptr; if ((i + j) % 2 && L > 0) Initialize1DArray(L, v, static_cast<T>(77)); /* in a buffer of the caller's own */ r->GetValue(i, j, v); if (!v) arrok = false; else { for (int k = 1; k <= L; k++) if (v[k - 1] != r->GetValue(i, j, k)) arrok = false; Release1DArray(v); }
            if (L > 0 && r->GetValue(i, j) != r->GetValue(i, j, 1)) arrok = false; // the first layer, when none is named
            grid.add(x.end()); nd.add(y.end()); idx.add(r->GetPosition(i, j));
            XY_COOR c = r->GetCoordinateByRowCol(i, j); List cc; cc.add(X8(c.first)).add(X8(c.second)); cen.add(cc.end());
            ROW_COL rc = r->GetPositionByCoordinate(c.first, c.second); if (rc.first != i || rc.second != j) lookup = false;
            if (r->GetPosition(c.first, c.second) != r->GetPosition(i, j)) lookup = false;
        }
        e.raw("grid", grid.end()).raw("nd", nd.end()).raw("idx", idx.end()).raw("cen", cen.end()).b("arrok", arrok).b("lookup", lookup);
        List bi; for (int i = -1; i <= n; i++) { List x; for (int k = 0; k <= L + 1; k++) x.add(Q(static_cast<double>(r->GetValueByIndex(i, k)))); bi.add(x.end()); }
        bool ba = true;
        for (int i = -1; i <= n; i++) { T* v = nullptr; if (i % 2 && L > 0) Initialize1DArray(L, v, static_cast<T>(77)); if (L > 0 && r->GetValueByIndex(i) != r->GetValueByIndex(i, 1)) ba = false; r->GetValueByIndex(i, v); if (i < 0 || i >= n) { if (v) ba = false; } else { if (!v) ba = false; else for (int k = 1; k <= L; k++) if (v[k - 1] != r->GetValueByIndex(i, k)) ba = false; } if (v) Release1DArray(v); }
        e.raw("byidx", bi.end()).b("byarr", ba);
        List oob; int o[8][2] = {{-1, 0}, {0, -1}, {rows, 0}, {0, cols}, {rows, cols}, {-1, -1}, {rows - 1, cols}, {rows, cols - 1}};
        bool on = true;
        for (auto& q : o) { oob.add(r->GetPosition(q[0], q[1])); if (r->GetValue(q[0], q[1]) != r->GetNoDataValue()) on = false;
            T* v = nullptr; Initialize1DArray(L > 0 ? L : 1, v, static_cast<T>(1)); r->GetValue(q[0], q[1], v); if (v) { on = false; Release1DArray(v); } }
        if (rows > 0 && cols > 0) if (r->GetValue(0, 0, 0) != r->GetNoDataValue() || r->GetValue(0, 0, L + 1) != r->GetNoDataValue() || r->GetValue(rows - 1, cols - 1, -1) != r->GetNoDataValue()) on = false;
        e.raw("oob", oob.end()).b("oobnod", on);
        int c1 = -5, c2 = -5; T* d1 = nullptr; T** d2 = nullptr; int l2 = -5;
        bool g1 = r->GetRasterData(&c1, &d1), g2 = r->Get2DRasterData(&c2, &l2, &d2);
        e.b("get", r->Is2DRaster() ? (!g1 && g2 && c2 == n && l2 == L && d2 == r->Get2DRasterDataPointer()) : (g1 && !g2 && c1 == n && d1 == r->GetRasterDataPointer()));
    } else if (op == "xy") {
        long long x = a.ll(), y = a.ll(); e.i("x", x).i("y", y);
        ROW_COL rc = r->GetPositionByCoordinate(x / 8.0, y / 8.0);
        e.i("row", rc.first).i("col", rc.second).i("p", r->GetPosition(x / 8.0, y / 8.0)).i("pf", r->GetPosition(static_cast<float>(x / 8.0), static_cast<float>(y / 8.0)));
    } else if (op == "getpos") {
        int n1 = -5, n2 = -5; int** p = nullptr; int* q = nullptr; int which = a.i(); e.i("which", which);
        if (which != 1) r->GetRasterPositionData(&n1, &p);
        if (which != 0) r->GetRasterPositionData(&n2, &q);
        bool ok = true;
        if (which != 1) ok = ok && p && p == r->GetRasterPositionDataPointer() && n1 == r->GetCellNumber();
        if (which != 0) ok = ok && q && q == r->GetRasterPositionIndexPointer() && n2 == r->GetCellNumber();
        e.b("ok", ok);
    } else if (op == "build" || op == "rebuild") {
        int n = a.i(); std::map<int, int> g; List l;
        for (int i = 0; i < n; i++) { int k = a.i(), v = a.i(); g[k] = v; l.add("[" + I(k) + "," + I(v) + "]"); }
        e.raw("map", l.end()).b("ok", op == "build" ? (n ? r->BuildSubSet(g) : r->BuildSubSet()) : n ? r->RebuildSubSet(g) : r->RebuildSubSet());
    } else if (op == "relsub") { e.b("ok", r->ReleaseSubset()); }
    else if (op == "subdata") {
        int id = a.i(), n = a.i(), L = a.i(), as2 = a.i(); std::vector<long long> v = Rest(a);
        auto& s = r->GetSubset(); bool ok = false, found = s.find(id) != s.end();
        if (n < 0) { n = found ? s.at(id)->n_cells : 1; std::vector<long long> w; for (int i = 0; i < n * L; i++) w.push_back(v[i % v.size()]); v = w; } // as many as the subset has cells
        e.i("id", id).i("n", n).i("lyrs", L).seq("v", v);
        if (found) { if (L == 1 && !as2) { double* d = Arr<double>(v); ok = s.at(id)->SetData(n, d); Release1DArray(d); } else { double** d = Arr2<double>(v, n, L); ok = s.at(id)->Set2DData(n, L, d); Release2DArray(d); } }
        e.b("found", found).b("ok", ok);
    } else if (op == "subuse") { int id = a.i(); bool u = a.b(); e.i("id", id).b("u", u); auto& s = r->GetSubset(); if (s.find(id) != s.end()) s.at(id)->usable = u; }
    else if (op == "subout") { // full-size layers of one subset
        int id = a.i(); long long nod = a.ll(); e.i("id", id).i("nod", nod); auto& s = r->GetSubset(); List l;
        if (s.find(id) != s.end()) { std::vector<double*> v; s.at(id)->Output(nod / 4.0, v); int w = (s.at(id)->g_erow - s.at(id)->g_srow + 1) * (s.at(id)->g_ecol - s.at(id)->g_scol + 1);
            for (double* d : v) { List x; for (int i = 0; i < w; i++) x.add(Q(d[i])); l.add(x.end()); Release1DArray(d); } }
        e.raw("v", l.end());
    } else if (op == "out" || op == "outsub") {
        std::string core = a.str(), sfx = a.str(), f = core + "." + sfx; e.txt("core", core).txt("sfx", sfx).txt("vt", RasterDataTypeToString(TypeToRasterDataType(typeid(T))));
        mkdir("./o", 0777);
        for (auto& x : ListDir("./o")) unlink(("./o/" + x).c_str());
        bool ok;
        if (op == "out") { bool org = a.b(); e.b("org", org); e.raw("recls", "[]").i("dflt", Q(NODATA_VALUE)).b("comb", true); ok = org ? r->OutputToFile("./o/" + f) : r->OutputToFile("./o/" + f, false); }
        else { bool org = a.b(), comb = a.b(); long long dflt = a.ll(); e.b("org", org).b("comb", comb).i("dflt", dflt); auto m = ReadRecls(a, e);
            
            ok = dflt != Q(NODATA_VALUE) ? r->OutputSubsetToFile(org, comb, "./o/" + f, m, dflt / 4.0) : m.empty() ? r->OutputSubsetToFile(org, comb, "./o/" + f) : r->OutputSubsetToFile(org, comb, "./o/" + f, m); }
        e.b("ok", ok);
        std::string fs = "["; bool first = true;
        for (auto& x : ListDir("./o")) { if (!ok) { unlink(("./o/" + x).c_str()); continue; }
            if (!first) fs += ","; first = false; fs += "{\"name\":\"" + x + "\",\"c\":" + ProjFile("./o/" + x) + "}";
            if (ReadRaw("./o/" + x).ok) rename(("./o/" + x).c_str(), ("./" + x).c_str()); else unlink(("./o/" + x).c_str()); } // written files can be read again
        e.raw("files", fs + "]");
    } else { fprintf(stderr, "HARNESS-ERROR unknown op %s\n", op.c_str()); exit(70); }
}
#ifdef USE_APP
#include <sanitizer/lsan_interface.h>
int app_main(const int argc, const char** argv);
// the tool run as a process would: its own arguments, its answer, what it leaves in ./o
static int Run(const std::vector<string>& args) {
    std::vector<const char*> v; v.push_back("./mask_rasterio"); for (auto& x : args) v.push_back(x.c_str()); v.push_back(nullptr);
    __lsan_disable(); int rc = app_main(static_cast<int>(args.size()) + 1, v.data()); __lsan_enable();
    std::cout.flush(); return rc;
}
static string Files(const string& dir, const string& only, bool keep) {
    string fs = "["; bool first = true;
    for (auto& x : ListDir(dir)) {
        if (!only.empty() && x.find(only) == string::npos) continue;
        string p = dir + "/" + x;
        if (!first) fs += ","; first = false; fs += "{\"name\":\"" + x + "\",\"c\":" + ProjFile(p) + "}";
        if (dir == ".") continue;
        if (keep && ReadRaw(p).ok) rename(p.c_str(), ("./" + x).c_str()); else unlink(p.c_str());
    }
    return fs + "]";
}
static string G15(double d) { char b[64]; snprintf(b, sizeof b, "%.15g", d); return b; }
struct Ent { std::vector<string> in; string out; long long dflt, nod; bool upd; string ot; std::map<int, std::vector<double> > rec; };
static void App(Args& a, Ev& e) {
    unsigned lay = static_cast<unsigned>(a.ll()); string mode = a.raw(), maskfmt = a.raw(), mask = a.str(), infmt = a.raw(), outfmt = a.raw(); bool inc = a.b(); int n = a.i();
    auto bit = [&](int i) { return (lay >> i & 1) != 0; };
    std::vector<Ent> es; List el;
    for (int i = 0; i < n; i++) {
        Ent x; int k = a.i(); List in, ids; for (int j = 0; j < k; j++) { x.in.push_back(a.str()); in.add("\"" + x.in[j] + "\"");
            char* q = nullptr; long id = strtol(x.in[j].c_str(), &q, 10); ids.add(q != x.in[j].c_str() && (*q == '_' || *q == '.' || *q == 0) ? id : -99999L); }
        x.out = a.str(); x.dflt = a.ll(); x.upd = a.b(); x.nod = a.ll(); x.ot = a.raw(); int m = a.i(); List rl;
        for (int j = 0; j < m; j++) { int key = a.i(), L = a.i(); List y; std::vector<double> v; for (int t = 0; t < L; t++) { long long q = a.ll(); v.push_back(q / 4.0); y.add(q); } x.rec[key] = v; rl.add("{\"k\":" + I(key) + ",\"v\":" + y.end() + "}"); }
        size_t dot = x.out.find_last_of('.');
        el.add("{\"in\":" + in.end() + ",\"ids\":" + ids.end() + ",\"core\":\"" + x.out.substr(0, dot) + "\",\"sfx\":\"" + (dot == string::npos ? "" : x.out.substr(dot + 1)) + "\",\"dflt\":" + I(x.dflt) + ",\"upd\":" + (x.upd ? "true" : "false") + ",\"nod\":" + I(x.nod)
            + ",\"ot\":\"" + x.ot + "\",\"rec\":" + rl.end() + "}");
        es.push_back(x);
    }
    // the same request in one of the forms the tool takes
    auto W = [&](const string& s) { if (!bit(3)) return s; string t = s; for (size_t i = 0; i < t.size(); i++) t[i] = static_cast<char>((i + lay / 7) % 3 ? tolower(t[i]) : toupper(t[i])); return t; };
    auto Fmt = [&](const string& f) { return W(f == "gfs" ? (bit(9) ? "GRIDFS" : "GFS") : (bit(9) ? "SFILE" : "FILE")); };
    auto Mode = [&](const string& m) { return W(m == "DEC" && bit(9) ? "DECOMPOSE" : m == "COM" && bit(9) ? "COMBINE" : m == "MASKDEC" && !bit(9) ? "MASK&DEC" : m); };
    auto Path = [&](const string& f, const string& fmt, bool out) { return fmt == "gfs" ? f : (out ? "./o/" : "./") + f; };
    auto Ins = [&](const Ent& x) { string t; for (size_t i = 0; i < x.in.size(); i++) t += (i ? "," : "") + Path(x.in[i], infmt, false); return t; };
    auto Rec = [&](const Ent& x) { string t; for (auto& kv : x.rec) { t += (t.empty() ? "" : ",") + I(kv.first) + ":"; for (size_t i = 0; i < kv.second.size(); i++) t += (i ? "|" : "") + G15(kv.second[i]); } return t; };
    std::vector<std::vector<string> > opt; // -key values
    if (!(mode == "MASK" && bit(5))) opt.push_back({W("-mode"), Mode(mode)});
    if (maskfmt != "none") { if (bit(7) && maskfmt == "file") opt.push_back({W("-mask"), Path(mask, maskfmt, false)}); else opt.push_back({W("-mask"), Fmt(maskfmt), Path(mask, maskfmt, false)}); }
    if (maskfmt == "gfs" || infmt == "gfs" || outfmt == "gfs" || bit(10)) opt.push_back({W("-mongo"), "127.0.0.1", "27017", "d", "SPATIAL"});
    if (bit(8)) opt.push_back({W("-thread"), I(static_cast<int>(1 + lay % 4))});
    if (!inc) opt.push_back({W("-include_nodata"), "0"}); else if (bit(11)) opt.push_back({W("-include_nodata"), "1"});
    bool cmd = n == 1 && bit(0), lone = !cmd && bit(1), incfg = lone || bit(2), same = bit(6) && !es.empty(); string omitted;
    for (auto& x : es) if (x.ot != es[0].ot) same = false;
    if (cmd) { Ent& x = es[0];
        if (bit(7) && infmt == "file") opt.push_back({W("-in"), Ins(x)}); else opt.push_back({W("-in"), Fmt(infmt), Ins(x)});
        if (bit(12) && infmt == "file" && outfmt == "file" && x.in.size() == 1) { size_t d = x.in[0].find_last_of('.'); omitted = x.in[0].substr(0, d) + "_masked"; for (auto& f : ListDir(".")) if (f.find(omitted) != string::npos) unlink(f.c_str()); x.out = omitted + x.in[0].substr(d); if (infmt != outfmt || bit(10)) opt.push_back({W("-out"), Fmt(outfmt)}); }
        else opt.push_back({W("-out"), Fmt(outfmt), Path(x.out, outfmt, true)});
        if (!(bit(5) && x.dflt == Q(NODATA_VALUE))) opt.push_back({W("-default"), G15(x.dflt / 4.0)});
        if (x.upd) opt.push_back({W("-nodata"), G15(x.nod / 4.0)});
        if (!(bit(5) && x.ot == "DOUBLE")) opt.push_back({W("-outdatatype"), W(x.ot)});
        if (!x.rec.empty()) opt.push_back({W("-reclass"), Rec(x)});
    } else { opt.push_back({W("-in"), Fmt(infmt)}); opt.push_back({W("-out"), Fmt(outfmt)}); if (same) opt.push_back({W("-outdatatype"), W(es[0].ot)}); }
    std::vector<string> args; string cfg, eol = bit(13) ? "\r\n" : "\n";
    if (bit(4)) cfg += "# requests" + eol + eol;
    for (auto& o : opt) { if (incfg && !cmd) { for (size_t i = 0; i < o.size(); i++) cfg += (i ? "\t" : "") + o[i]; cfg += eol; if (bit(4)) cfg += "#-mode\tnone" + eol; } else for (auto& w : o) args.push_back(w); }
    if (!cmd) {
        for (auto& x : es) {
            std::vector<string> f{Ins(x), Path(x.out, outfmt, true), bit(5) && x.dflt == Q(NODATA_VALUE) ? "" : G15(x.dflt / 4.0), x.upd ? G15(x.nod / 4.0) : "", same || (bit(5) && x.ot == "DOUBLE") ? "" : W(x.ot), Rec(x)};
            if (bit(5)) while (f.size() > 2 && f.back().empty()) f.pop_back();
            if (bit(4)) cfg += "  "; for (size_t i = 0; i < f.size(); i++) cfg += (i ? ";" : "") + f[i]; cfg += eol; if (bit(4)) cfg += eol;
        }
        { std::ofstream o("./app.cfg"); o << cfg; }
        if (lone) args.assign(1, "./app.cfg"); else { if (bit(14)) args.insert(args.begin(), {W("-configfile"), "./app.cfg"}); else { args.push_back(W("-configfile")); args.push_back("./app.cfg"); } }
    }
    mkdir("./o", 0777); for (auto& x : ListDir("./o")) unlink(("./o/" + x).c_str());
    int rc = Run(args);
    if (getenv("VT_APP_TRACE")) { for (auto& x : args) fprintf(stderr, "%s ", x.c_str()); fprintf(stderr, "=> %d\n%s\n", rc, cfg.c_str()); }
    string ents = el.end();
    if (!omitted.empty()) { size_t b = ents.find("\"core\":"), d = ents.find(",\"dflt\""); ents = ents.substr(0, b) + "\"core\":\"" + omitted + "\",\"sfx\":\"" + es[0].out.substr(es[0].out.find_last_of('.') + 1) + "\"" + ents.substr(d); }
    e.i("layout", lay).txt("mode", mode).txt("maskfmt", maskfmt).txt("mask", mask).txt("infmt", infmt).txt("outfmt", outfmt).b("inc", inc).raw("ents", ents).i("exit", rc).txt("omitted", omitted);
    e.raw("files", omitted.empty() ? Files("./o", "", rc == 0) : Files(".", omitted, true));
    if (!omitted.empty() && rc != 0) for (auto& f : ListDir(".")) if (f.find(omitted) != string::npos) unlink(f.c_str());
}
static void AppBad(Args& a, Ev& e) { // requests that are none
    int k = a.i(); std::vector<string> args; e.i("kind", k);
    if (k == 1) args = {"./nothere.cfg"}; else if (k == 2) args = {"-configfile", "./nothere.cfg"}; else if (k == 3) args = {"-mode", "MASK", "-configfile"}; else if (k == 4) args = {"-mongo", "127.0.0.1", "27017", "d"};
    else if (k == 5) args = {"-mode", "NONE"}; else if (k == 6) args = {"-in", "FILE", "./nothere.tif", "-out", "FILE", "./o/x.tif"}; else if (k == 7) args = {"-mask", "FILE", "./nothere.tif"}; else if (k == 8) args = {"-in", "./nothere.tif", "-out", "./o/x.tif"};
    else if (k == 9) args = {"-mask", "FILE"}; else if (k == 10) args = {"-configfile"}; else if (k == 11) { std::ofstream o("./app.cfg"); o << "./nothere.asc;./o/x.tif\n"; args = {"-configfile", "./app.cfg"}; }
    mkdir("./o", 0777); for (auto& x : ListDir("./o")) unlink(("./o/" + x).c_str());
    e.i("exit", Run(args)).raw("files", Files("./o", "", false));
}
#endif
int main(int argc, char** argv) {
    std::vector<std::string> script = ReadScript(argv[1]);
    Out out(argv[2]);
    for (int i = 0; i < 8; i++) last[i] = Proj(static_cast<MR*>(nullptr));
    GDALAllRegister();
    CPLPushErrorHandler(CPLQuietErrorHandler);
    for (auto& line : script) {
        Args a(line); std::string op = a.raw(); Ev e(op);
        if (op == "drop") { // everything given back: what is left?
            for (int i = 7; i >= 0; i--) Del(i);
            GDALDatasetH* ds; int open = 0, live = 0; GDALGetOpenDatasets(&ds, &open);
#ifdef USE_MONGODB
            delete gfs; gfs = nullptr; if (client) { client->Destroy(); delete client; client = nullptr; }
            live = fake::Live(); fake::Reset(); bad.clear(); fake::plan.clear();
#endif
            e.i("open", open).i("live", live).b("lost", Lost());
        } else if (op == "reset") {
            for (int i = 7; i >= 0; i--) Del(i);
#ifdef USE_MONGODB
            delete gfs; if (client) { client->Destroy(); delete client; }
            fake::Reset(); bad.clear(); client = MongoClient::Init("127.0.0.1", 27017); gfs = client->GridFs("d", "SPATIAL"); e.raw("db", Db());
#endif
            for (auto& x : ListDir(".")) if (x.size() > 4 && x[x.size() - 4] == '.') { unlink(x.c_str()); rmdir(x.c_str()); }
#ifdef VT_PAR
        } else if (op == "threads") { // as many workers from now on, under the schedules of a seed
            int n = a.i(); par::Seed(a.ll()); if (n == 0) SetDefaultOpenMPThread(); else SetOpenMPThread(n);
            e.i("n", n).i("half", GetAvailableThreadNum() / 2);
#endif
        } else if (op == "wfile") {
            std::string f = a.str(); RawFile w; w.rows = a.i(); w.cols = a.i(); long long nod = a.ll(), xll = a.ll(), yll = a.ll(), cs = a.ll(); w.type = a.raw(); w.hasnod = true;
            std::vector<long long> v = Rest(a); w.nod = nod / 4.0; w.xll = xll / 8.0; w.yll = yll / 8.0; w.cs = cs / 8.0; for (long long q : v) w.v.push_back(q / 4.0);
            unlink(f.c_str()); rmdir(f.c_str());
            bool ok = f.substr(f.size() - 4) == ".asc" ? WriteAscRaw(f, w) : WriteTifRaw(f, w);
            if (!ok) { fprintf(stderr, "HARNESS-ERROR cannot write %s\n", f.c_str()); exit(70); }
            e.txt("f", f).txt("ot", f.substr(f.size() - 4) == ".asc" ? std::string("Unknown") : RasterDataTypeToString(w.type == "byte" ? RDT_UInt8 : StringToRasterDataType(w.type == "float32" ? "FLOAT" : w.type == "float64" ? "DOUBLE" : w.type))).i("rows", w.rows).i("cols", w.cols).i("nod", nod).seq("geo", std::vector<long long>{xll, yll, cs}).seq("v", v);
        } else if (op == "ascfile") { // any text: lines of tokens h:KEY n:VALUE x:TEXT, lines ended by |, set out as `layout` says
            std::string f = a.str(); unsigned lay = static_cast<unsigned>(a.ll()); unlink(f.c_str()); rmdir(f.c_str());
            std::string text, eol = lay & 1 ? "\r\n" : "\n", sep = lay & 2 ? "\t" : lay & 4 ? "   " : " "; List ls, cur; std::string line; bool first = true, whole = true;
            if (lay & 32) text += "# made by hand" + eol;
            while (a.more()) {
                std::string t = a.raw();
                if (t == "|") { text += (lay & 8 ? "  " : "") + line + (lay & 64 ? " " : "") + eol; if (lay & 16) text += eol; if (lay & 32) text += "#" + eol; line.clear(); ls.add(cur.end()); cur = List(); first = true; continue; }
                std::string v = t.substr(2), w = v;
                if (t[0] == 'h') { if (lay & 128) for (auto& c : w) c = static_cast<char>(tolower(c)); if (lay & 256) w[0] = static_cast<char>(toupper(w[0])); whole = v == "NCOLS" || v == "NROWS"; }
                else if (t[0] == 'n') { char b[64]; double d = strtod(v.c_str(), nullptr) / 4; snprintf(b, sizeof b, whole ? "%.15g" : lay & 512 ? "%.3f" : lay & 1024 ? "%.9e" : lay & 2048 ? "%+.15g" : "%.15g", d); w = b; }
                if (line.empty() && t[0] != 'h') whole = false;
                line += (line.empty() ? "" : sep) + w;
                cur.add("[\"" + std::string(1, t[0]) + "\"," + (t[0] == 'n' ? v : "\"" + v + "\"") + "]");
            }
            if (lay & 4096 && text.size() > 2) text = text.substr(0, text.size() - eol.size());
            { std::ofstream o(f.c_str()); o << text; }
            e.txt("f", f).i("layout", lay).raw("lines", ls.end());
        } else if (op == "badfile") { // a file no reader can take: kind 0 missing, 1 garbage, 2 empty, 3 directory, 4 short asc, 5 non-numeric
            std::string f = a.str(); int k = a.i(); e.txt("f", f); unlink(f.c_str()); rmdir(f.c_str());
            if (k == 1) { std::ofstream o(f.c_str()); o << "\x01\x02garbage\nxx yy\n"; for (int i = 0; i < 20; i++) o << "zz\n"; }
            else if (k == 2) { std::ofstream o(f.c_str()); } else if (k == 3) mkdir(f.c_str(), 0777);
            else if (k == 4) { std::ofstream o(f.c_str()); o << "NCOLS 2\nNROWS 2\nXLLCENTER 0\nYLLCENTER 0\nCELLSIZE 1\nNODATA_VALUE -9\n1 2\n3\n"; }
            else if (k == 6) { std::ofstream o(f.c_str()); o << "NCOLS 2\nNROWS 0\nXLLCENTER 0\nYLLCENTER 0\nCELLSIZE 1\nNODATA_VALUE -9\n1 2\n3 4\n"; }
            else if (k == 5) { std::ofstream o(f.c_str()); o << "NCOLS 2\nNROWS 2\nXLLCENTER 0\nYLLCENTER 0\nCELLSIZE 1\nNODATA_VALUE -9\n1 2\n3 x\n"; }
        } else if (op == "copy" || op == "copyctor") {
            int to = a.i(), from = a.i();
            if ((from < 4 ? static_cast<void*>(M[from]) : static_cast<void*>(D[from - 4])) == nullptr) { Ev k("skip"); k.i("r", from); k.raw("st", St()); out.put(k); continue; }
            e.i("r", to).i("from", from);
            if (to < 4) { if (op == "copyctor") { Del(to); M[to] = new MR(M[from]); } else { if (!M[to]) M[to] = new MR(); M[to]->Copy(M[from]); } }
            else { if (op == "copyctor") { Del(to); D[to - 4] = new DR(D[from - 4]); } else { if (!D[to - 4]) D[to - 4] = new DR(); D[to - 4]->Copy(D[from - 4]); } }
        } else if (op == "setpos") { // positions and header lent by another raster
            int r = a.i(), from = a.i(), which = a.i(); e.i("r", r).i("from", from).i("which", which);
            MR* s = M[from]; bool ok = true; int n = s->GetCellNumber();
            if (r < 4) { if (which != 1) ok = M[r]->SetPositions(n, s->GetRasterPositionDataPointer()) && ok; if (which != 0) ok = M[r]->SetPositions(n, s->GetRasterPositionIndexPointer()) && ok; }
            else { if (which != 1) ok = D[r - 4]->SetPositions(n, s->GetRasterPositionDataPointer()) && ok; if (which != 0) ok = D[r - 4]->SetPositions(n, s->GetRasterPositionIndexPointer()) && ok; }
            e.b("ok", ok);
#ifdef USE_MONGODB
        } else if (op == "mplan") { string k = a.raw(); fake::plan[k] = a.str();
        } else if (op == "mbad") { MBad(a, e);
#ifdef USE_APP
        } else if (op == "app") { before = fake::faults; App(a, e); AfterDb(e);
        } else if (op == "appbad") { before = fake::faults; AppBad(a, e); AfterDb(e);
#endif
#endif
        } else {
            int r = a.i();
            if (op == "mpre" && !M[atoi(a.t[2].c_str())]) { Ev k("nop"); k.raw("st", St()); out.put(k); continue; }
            if (op == "maskvals" && a.t[2] != "-1" && !M[atoi(a.t[2].c_str())]) op = "nomask";
            if (op == "nomask") { Ev k("nop"); k.raw("st", St()); out.put(k); continue; } // a mask is given
            if (op != "arr" && op != "read" && op != "maskvals" && op != "empty" && op != "mread" && op != "mpre" && (r < 4 ? static_cast<void*>(M[r]) : static_cast<void*>(D[r - 4])) == nullptr) { e.i("r", r).b("skip", true); e.s.replace(0, e.s.find(','), "{\"op\":\"skip\""); e.raw("st", St()); out.put(e); continue; }
            if (op == "arr" || ((op == "read" || op == "mread") && a.t[2] != "5") || op == "mpre" || op == "maskvals" || op == "empty") Del(r);
            if (r < 4) Op<MR, int>(op, M[r], r, a, e); else Op<DR, VT>(op, D[r - 4], r, a, e);
        }
        e.raw("st", St());
        out.put(e);
    }
    return 0;
}
