// Element types against file types: writes GeoTIFF files of every type from rasters of every type and
// reads them back; the tables of type names, codes and default no-data values.
#include "raster_common.h"
// a number as [sign, [limbs of six decimal digits, most significant first], quarters]; quarters 9: not a multiple of 1/4
static std::string Limbs(const std::string& digits) {
    std::string d = digits; size_t z = d.find_first_not_of('0'); d = z == std::string::npos ? "" : d.substr(z);
    List l; size_t head = d.size() % 6; if (head) l.add(I(atoi(d.substr(0, head).c_str())));
    for (size_t i = head; i < d.size(); i += 6) l.add(I(atoi(d.substr(i, 6).c_str())));
    return l.end(); }
static std::string Num3(bool neg, const std::string& digits, int q) {
    std::string l = Limbs(digits); bool zero = l == "[]" && q == 0;
    return "[" + std::string(zero ? "0" : neg ? "-1" : "1") + "," + l + "," + I(q) + "]"; }
static std::string NumOf(double v) { if (std::isnan(v)) return "[2,[],0]"; if (std::isinf(v)) return v > 0 ? "[1,[9,999999,999999,999999,999999,999999,999999,999999,999999,999999,999999,999999],0]" : "[-1,[9,999999,999999,999999,999999,999999,999999,999999,999999,999999,999999,999999],0]";
    double a = std::fabs(v), w = std::floor(a), f = (a - w) * 4; char b[400]; snprintf(b, sizeof b, "%.0f", w); return Num3(v < 0, b, f == std::floor(f) ? static_cast<int>(f) : 9); }
static std::string NumOf(long long v) { std::string s = std::to_string(v); return Num3(v < 0, v < 0 ? s.substr(1) : s, 0); }
static std::string NumOf(unsigned long long v) { return Num3(false, std::to_string(v), 0); }
template <typename T> static std::string NumT(T v) { return std::is_floating_point<T>::value ? NumOf(static_cast<double>(v)) : std::is_signed<T>::value ? NumOf(static_cast<long long>(v)) : NumOf(static_cast<unsigned long long>(v)); }
template <typename T> static T Parse(const std::string& s) { return std::is_floating_point<T>::value ? static_cast<T>(strtod(s.c_str(), nullptr)) : std::is_signed<T>::value ? static_cast<T>(strtoll(s.c_str(), nullptr, 10)) : static_cast<T>(strtoull(s.c_str(), nullptr, 10)); }
static std::string FileProj(const std::string& f) {
    struct stat sb; if (stat(f.c_str(), &sb) != 0) return "{\"ok\":false}";
    GDALDataset* ds = static_cast<GDALDataset*>(GDALOpen(f.c_str(), GA_ReadOnly)); if (!ds) return "{\"ok\":false}";
    GDALRasterBand* b = ds->GetRasterBand(1); int rows = b->GetYSize(), cols = b->GetXSize(), n = rows * cols, has = 0; GDALDataType t = b->GetRasterDataType();
    List v; std::string nod;
    if (t == GDT_Int64) { std::vector<GInt64> d(n); b->RasterIO(GF_Read, 0, 0, cols, rows, d.data(), cols, rows, GDT_Int64, 0, 0); for (auto x : d) v.add(NumOf(static_cast<long long>(x))); long long q = b->GetNoDataValueAsInt64(&has); nod = NumOf(q); }
    else if (t == GDT_UInt64) { std::vector<GUInt64> d(n); b->RasterIO(GF_Read, 0, 0, cols, rows, d.data(), cols, rows, GDT_UInt64, 0, 0); for (auto x : d) v.add(NumOf(static_cast<unsigned long long>(x))); unsigned long long q = b->GetNoDataValueAsUInt64(&has); nod = NumOf(q); }
    else { std::vector<double> d(n); b->RasterIO(GF_Read, 0, 0, cols, rows, d.data(), cols, rows, GDT_Float64, 0, 0); for (auto x : d) v.add(NumOf(x)); nod = NumOf(b->GetNoDataValue(&has)); }
    double gt[6]; ds->GetGeoTransform(gt);
    std::string o = "{\"ok\":true,\"type\":\"" + std::string(GDALGetDataTypeName(t)) + "\",\"rows\":" + I(rows) + ",\"cols\":" + I(cols) + ",\"geo\":[" + I(X8(gt[0] + gt[1] / 2)) + "," + I(X8(gt[3] + gt[5] * rows - gt[5] / 2)) + "," + I(X8(gt[1])) + "," + I(X8(-gt[5])) + "],\"hasnod\":" + (has ? "true" : "false") + ",\"nod\":" + nod + ",\"v\":" + v.end() + "}";
    GDALClose(ds); return o; }
template <typename T> static void Write(Args& a, Ev& e, const std::string& tn) { // f out rows cols x y cs mode nod vals
    std::string f = a.str(), out = a.str(); int rows = a.i(), cols = a.i(); long long x = a.ll(), y = a.ll(), cs = a.ll(); int mode = a.i(); T nod = Parse<T>(a.raw());
    T* d = nullptr; Initialize1DArray(rows * cols, d, nod); List l; for (int i = 0; i < rows * cols; i++) { d[i] = Parse<T>(a.raw()); l.add(NumT(d[i])); }
    e.txt("t", tn).txt("f", f).txt("out", out).i("rows", rows).i("cols", cols).seq("geo", std::vector<long long>{x, y, cs}).raw("nod", NumT(nod)).raw("v", l.end());
    STRING_MAP o; if (out != "") o[HEADER_RSOUT_DATATYPE] = out;
    unlink(f.c_str()); bool ok;
    { clsRasterData<T> r(d, cols, rows, nod, cs / 8.0, x / 8.0, y / 8.0, o);
      e.txt("ot", RasterDataTypeToString(r.GetOutDataType()));
      if (mode) r.SetCalcPositions();
      ok = r.OutputToFile("./" + f); }
    e.b("ok", ok).raw("file", FileProj(f)); }
template <typename T> static void Raw(Args& a, Ev& e, GDALDataType gt) { // f type rows cols hasnod nod vals: a file made by others
    std::string f = a.str(); int rows = a.i(), cols = a.i(); bool has = a.b(); std::string ns = a.raw(); std::vector<T> v; List l; for (int i = 0; i < rows * cols; i++) { v.push_back(Parse<T>(a.raw())); l.add(NumT(v[i])); }
    unlink(f.c_str());
    GDALDataset* ds = GetGDALDriverManager()->GetDriverByName("GTiff")->Create(f.c_str(), cols, rows, 1, gt, nullptr);
    double g[6] = {0, 1, 0, static_cast<double>(rows), 0, -1}; ds->SetGeoTransform(g);
    T nod = Parse<T>(ns);
    if (has) { if (gt == GDT_Int64) ds->GetRasterBand(1)->SetNoDataValueAsInt64(static_cast<GInt64>(nod)); else if (gt == GDT_UInt64) ds->GetRasterBand(1)->SetNoDataValueAsUInt64(static_cast<GUInt64>(nod)); else ds->GetRasterBand(1)->SetNoDataValue(static_cast<double>(nod)); }
    CPLErr er = ds->GetRasterBand(1)->RasterIO(GF_Write, 0, 0, cols, rows, v.data(), cols, rows, gt, 0, 0); (void)er; GDALClose(ds);
    e.txt("f", f).i("rows", rows).i("cols", cols).b("hasnod", has).raw("nod", NumT(nod)).raw("v", l.end()).txt("type", GDALGetDataTypeName(gt)).raw("file", FileProj(f)); }
template <typename T> static void Read(Args& a, Ev& e, const std::string& tn) {
    std::string f = a.str(); bool calc = a.b(); e.txt("t", tn).txt("f", f).b("calc", calc);
    clsRasterData<T>* r = clsRasterData<T>::Init("./" + f, calc, static_cast<clsRasterData<T>*>(nullptr), false);
    e.b("ok", r != nullptr); if (!r) return;
    List l, n; for (int i = 0; i < r->GetRows(); i++) for (int j = 0; j < r->GetCols(); j++) { l.add(NumT(r->GetValue(i, j))); n.add(I(r->IsNoData(i, j) ? 1 : 0)); }
    e.i("rows", r->GetRows()).i("cols", r->GetCols()).raw("v", l.end()).raw("nd", n.end()).raw("nod", NumOf(static_cast<double>(r->GetNoDataValue()))).txt("in", RasterDataTypeToString(r->GetDataType())).txt("ot", RasterDataTypeToString(r->GetOutDataType()));
    delete r; }
#define EACH(X) X("UINT8", unsigned char, GDT_Byte) X("INT8", signed char, GDT_Int8) X("UINT16", vuint16_t, GDT_UInt16) X("INT16", vint16_t, GDT_Int16) X("UINT32", vuint32_t, GDT_UInt32) \
    X("INT32", vint32_t, GDT_Int32) X("UINT64", vuint64_t, GDT_UInt64) X("INT64", vint64_t, GDT_Int64) X("FLOAT", float, GDT_Float32) X("DOUBLE", double, GDT_Float64)
int main(int argc, char** argv) {
    std::vector<std::string> script = ReadScript(argv[1]); Out out(argv[2]); GDALAllRegister(); CPLPushErrorHandler(CPLQuietErrorHandler);
    for (auto& line : script) {
        Args a(line); std::string op = a.raw(); Ev e(op);
        if (op == "drop") { GDALDatasetH* ds; int open = 0; GDALGetOpenDatasets(&ds, &open); e.i("open", open).b("lost", Lost()); }
        else if (op == "reset") { for (auto& x : ListDir(".")) unlink(x.c_str()); }
        else if (op == "gt" || op == "raw" || op == "rd") {
            std::string t = a.raw(); bool known = false;
#define ONE(N, T, G) if (t == N) { known = true; if (op == "gt") Write<T>(a, e, t); else if (op == "raw") Raw<T>(a, e, G); else Read<T>(a, e, t); }
            EACH(ONE)
            if (!known) { fprintf(stderr, "HARNESS-ERROR type %s\n", t.c_str()); return 70; }
        } else if (op == "name") { std::string s = a.str(); e.txt("s", s); RasterDataType t = StringToRasterDataType(s); e.txt("name", RasterDataTypeToString(t)).i("code", t); }
        else if (op == "code") { int c = a.i(); e.i("c", c); std::string n = RasterDataTypeToString(c); e.txt("name", n).i("back", StringToRasterDataType(n)); double d = DefaultNoDataByType(static_cast<RasterDataType>(c)); e.raw("nod", NumOf(d)).txt("gdal", GDALGetDataTypeName(CvtToGDALDataType(static_cast<RasterDataType>(c))) ? GDALGetDataTypeName(CvtToGDALDataType(static_cast<RasterDataType>(c))) : "none"); }
        else if (op == "cpp") { std::string n = "["; bool first = true; std::vector<std::pair<std::string, RasterDataType> > v;
#define CPP(N, T) v.push_back(std::make_pair(std::string(N), TypeToRasterDataType(typeid(T))));
            CPP("unsigned char", unsigned char) CPP("char", char) CPP("signed char", signed char) CPP("short", short) CPP("unsigned short", unsigned short) CPP("int", int) CPP("unsigned int", unsigned int)
            CPP("int64", vint64_t) CPP("uint64", vuint64_t) CPP("float", float) CPP("double", double) CPP("string", std::string) CPP("bool", bool)
            for (auto& x : v) { n += std::string(first ? "" : ",") + "[\"" + x.first + "\",\"" + RasterDataTypeToString(x.second) + "\"]"; first = false; } e.raw("m", n + "]"); }
        else if (op == "opts") { // pairs of key and value
            STRING_MAP o; std::string l = "["; bool first = true; while (a.more()) { std::string k = a.str(), v = a.str(); o[k] = v; l += std::string(first ? "" : ",") + "[\"" + k + "\",\"" + v + "\"]"; first = false; }
            e.raw("o", l + "]").txt("name", RasterDataTypeToString(RasterDataTypeInOptionals(o))); }
        else { fprintf(stderr, "HARNESS-ERROR op %s\n", op.c_str()); return 70; }
        out.put(e);
    }
    return 0;
}
