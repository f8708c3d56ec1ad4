// Shared by the raster drivers: value encoding, projections of rasters, independent file readers and writers.
#ifndef RASTER_COMMON_H
#define RASTER_COMMON_H
#include "vt.h"
#include "data_raster.hpp"
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
#include <algorithm>
using namespace ccgl;
using namespace ccgl::data_raster;
using namespace vt;
static const long long BADV = -1999999999LL;
// a number scaled by k to an exact integer, or a value no specification gives
static long long Scaled(double v, double k) {
    if (std::isnan(v)) return 2000000001LL;
    double s = v * k;
    if (!(std::fabs(s) < 2.0e9)) return s > 0 ? 2000000002LL : -2000000002LL;
    double r = std::floor(s + 0.5);
    if (std::fabs(r - s) > 1e-6 * (1 + std::fabs(s))) return BADV;
    return static_cast<long long>(r);
}
static long long Q(double v) { return Scaled(v, 4); }
static long long X8(double v) { return Scaled(v, 8); }
static std::string I(long long v) { return std::to_string(v); }
struct List { std::string s; bool f; List() : s("["), f(true) {}
    List& add(const std::string& x) { if (!f) s += ","; f = false; s += x; return *this; }
    List& add(long long x) { return add(I(x)); }
    std::string end() const { return s + "]"; } };
static std::string Esc1(const std::string& v) { std::string r; for (char c : v) { if (c == '"' || c == '\\' || static_cast<unsigned char>(c) < 32) r += '?'; else r += c; } return r; }
static std::string Proj(SubsetPositions* s, int id) {
    std::string o = "{\"id\":" + I(id) + ",\"n\":" + I(s->n_cells) + ",\"box\":[" + I(s->g_srow) + "," + I(s->g_erow) + "," + I(s->g_scol) + "," + I(s->g_ecol) + "]";
    List g, l, lp;
    int w = s->g_ecol - s->g_scol + 1;
    bool ok = true;
    for (int i = 0; i < s->n_cells; i++) {
        g.add(s->global_ ? s->global_[i] : -7); l.add(s->local_posidx_ ? s->local_posidx_[i] : -7);
        if (s->local_pos_ && s->local_posidx_ && s->local_pos_[i][0] * w + s->local_pos_[i][1] != s->local_posidx_[i]) ok = false;
        if (s->local_pos_ && (s->local_pos_[i][1] < 0 || s->local_pos_[i][1] >= w)) ok = false;
    }
    if (!s->local_pos_) ok = false;
    o += ",\"glob\":" + g.end() + ",\"loc\":" + l.end() + ",\"lpok\":" + (ok ? "true" : "false") + ",\"use\":" + (s->usable ? "true" : "false");
    List d;
    if (s->data2d_ && s->n_lyrs >= 1) { for (int i = 0; i < s->n_cells; i++) { List e; for (int k = 0; k < s->n_lyrs; k++) e.add(Q(s->data2d_[i][k])); d.add(e.end()); } }
    else if (s->data_ && s->n_lyrs == 1) { for (int i = 0; i < s->n_cells; i++) { List e; e.add(Q(s->data_[i])); d.add(e.end()); } }
    o += ",\"data\":" + d.end() + "}";
    return o;
}
template <typename R> static std::string Proj(R* r, bool subs = true) {
    if (!r) return "{\"live\":false}";
    std::string o = "{\"live\":true,\"init\":"; o += r->Initialized() ? "true" : "false";
    bool val = r->ValidateRasterData();
    o += std::string(",\"has\":") + (val ? "true" : "false");
    o += std::string(",\"two\":") + (r->Is2DRaster() ? "true" : "false");
    o += ",\"rows\":" + I(r->GetRows()) + ",\"cols\":" + I(r->GetCols());
    o += ",\"geo\":[" + I(X8(r->GetXllCenter())) + "," + I(X8(r->GetYllCenter())) + "," + I(X8(r->GetCellWidth())) + "]";
    int n = r->GetCellNumber(), L = r->GetLayers();
    o += ",\"lyrs\":" + I(L) + ",\"n\":" + I(n) + ",\"len\":" + I(r->GetDataLength());
    o += ",\"nod\":" + I(Q(static_cast<double>(r->GetNoDataValue()))) + ",\"dflt\":" + I(Q(r->GetDefaultValue()));
    const STRDBL_MAP& h = r->GetRasterHeader();
    o += ",\"hdr\":[" + I(X8(h.at(HEADER_RS_CELLSNUM)) / 8) + "," + I(X8(h.at(HEADER_RS_LAYERS)) / 8) + "," + I(Q(h.at(HEADER_RS_NODATA))) + "]";
    o += std::string(",\"calc\":") + (r->PositionsCalculated() ? "true" : "false") + ",\"ext\":" + (r->MaskExtented() ? "true" : "false");
    o += std::string(",\"mask\":") + (r->GetMask() ? "true" : "false");
    o += ",\"srs\":\"" + Esc1(r->GetOptions().count(HEADER_RS_SRS) ? r->GetOptions().at(HEADER_RS_SRS) : std::string("-")) + "\"";
    o += ",\"ot\":\"" + RasterDataTypeToString(r->GetOutDataType()) + "\"";
    int** pd = r->GetRasterPositionDataPointer(); int* pi = r->GetRasterPositionIndexPointer();
    o += std::string(",\"pos\":{\"has\":") + ((pd || pi) ? "true" : "false");
    List p; bool ok = true;
    if (pi) for (int i = 0; i < n; i++) {
        p.add(pi[i]);
        if (!pd || pd[i][0] * r->GetCols() + pd[i][1] != pi[i] || pd[i][1] < 0 || pd[i][1] >= r->GetCols()) ok = false; }
    if (!pi && pd) ok = false;
    o += ",\"i\":" + p.end() + ",\"ok\":" + (ok ? "true" : "false") + "}";
    List v;
    if (val && n > 0 && L > 0) for (int i = 0; i < n; i++) {
        List e;
        if (r->Is2DRaster()) for (int k = 0; k < L; k++) e.add(Q(static_cast<double>(r->Get2DRasterDataPointer()[i][k])));
        else e.add(Q(static_cast<double>(r->GetRasterDataPointer()[i])));
        v.add(e.end());
    }
    o += ",\"vals\":" + v.end();
    List sl;
    if (subs) for (auto& kv : r->GetSubset()) sl.add(Proj(kv.second, kv.first));
    o += ",\"subs\":" + sl.end() + "}";
    return o;
}
// ---- independent file access
struct RawFile { int rows, cols, lyrs; double xll, yll, cs, nod; bool hasnod; std::string type, srs; std::vector<double> v; bool ok; };
static std::string Num(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
static bool WriteAscRaw(const std::string& f, const RawFile& r) {
    std::ofstream o(f.c_str());
    o << "NCOLS " << r.cols << "\nNROWS " << r.rows << "\nXLLCENTER " << Num(r.xll) << "\nYLLCENTER " << Num(r.yll) << "\nCELLSIZE " << Num(r.cs) << "\nNODATA_VALUE " << Num(r.nod) << "\n";
    for (int i = 0; i < r.rows; i++) { for (int j = 0; j < r.cols; j++) o << (j ? " " : "") << Num(r.v[i * r.cols + j]); o << "\n"; }
    return o.good();
}
static GDALDataType GType(const std::string& t) {
    if (t == "byte") return GDT_Byte; if (t == "int8") return GDT_Int8; if (t == "int16") return GDT_Int16; if (t == "uint16") return GDT_UInt16;
    if (t == "int32") return GDT_Int32; if (t == "uint32") return GDT_UInt32; if (t == "int64") return GDT_Int64; if (t == "uint64") return GDT_UInt64;
    if (t == "float64") return GDT_Float64; return GDT_Float32;
}
static bool WriteTifRaw(const std::string& f, const RawFile& r) {
    GDALDriver* d = GetGDALDriverManager()->GetDriverByName("GTiff");
    GDALDataset* ds = d->Create(f.c_str(), r.cols, r.rows, 1, GType(r.type), nullptr);
    if (!ds) return false;
    double gt[6] = {r.xll - r.cs / 2, r.cs, 0, r.yll + (r.rows - 0.5) * r.cs, 0, -r.cs};
    ds->SetGeoTransform(gt);
    std::vector<double> v = r.v;
    if (r.hasnod) ds->GetRasterBand(1)->SetNoDataValue(r.nod);
    CPLErr e = ds->GetRasterBand(1)->RasterIO(GF_Write, 0, 0, r.cols, r.rows, v.data(), r.cols, r.rows, GDT_Float64, 0, 0);
    (void)e;
    GDALClose(ds);
    return true;
}
static RawFile ReadRaw(const std::string& f) {
    RawFile r; r.ok = false; r.lyrs = 1; r.hasnod = false; r.nod = 0; r.rows = r.cols = 0; r.xll = r.yll = r.cs = 0;
    struct stat sb;
    if (stat(f.c_str(), &sb) != 0) return r;
    if (f.size() > 4 && f.substr(f.size() - 4) == ".asc") {
        std::ifstream in(f.c_str()); std::string k; r.type = "asc";
        for (int i = 0; i < 6; i++) { std::string val; if (!(in >> k >> val)) return r; double d = strtod(val.c_str(), nullptr);
            if (k == "NCOLS") r.cols = static_cast<int>(d); else if (k == "NROWS") r.rows = static_cast<int>(d); else if (k == "XLLCENTER") r.xll = d; else if (k == "YLLCENTER") r.yll = d;
            else if (k == "CELLSIZE") r.cs = d; else if (k == "NODATA_VALUE") { r.nod = d; r.hasnod = true; } else return r; }
        std::string val; std::vector<double> v; bool bad = false;
        while (in >> val) { char* e; double d = strtod(val.c_str(), &e); if (*e) bad = true; v.push_back(d); }
        r.v = v; r.ok = !bad && r.v.size() == static_cast<size_t>(r.rows) * r.cols;
        return r;
    }
    GDALDataset* ds = static_cast<GDALDataset*>(GDALOpen(f.c_str(), GA_ReadOnly));
    if (!ds) return r;
    GDALRasterBand* b = ds->GetRasterBand(1);
    r.rows = b->GetYSize(); r.cols = b->GetXSize(); r.type = GDALGetDataTypeName(b->GetRasterDataType());
    int has = 0; r.nod = b->GetNoDataValue(&has); r.hasnod = has != 0;
    double gt[6]; ds->GetGeoTransform(gt); r.cs = gt[1]; r.xll = gt[0] + gt[1] / 2; r.yll = gt[3] + gt[5] * r.rows + gt[1] / 2;
    r.v.resize(static_cast<size_t>(r.rows) * r.cols);
    r.ok = b->RasterIO(GF_Read, 0, 0, r.cols, r.rows, r.v.data(), r.cols, r.rows, GDT_Float64, 0, 0) == CE_None;
    const char* pr = ds->GetProjectionRef(); r.srs = pr ? pr : "";
    GDALClose(ds);
    return r;
}
static std::string ProjFile(const std::string& f, bool withType = false) {
    RawFile r = ReadRaw(f);
    if (!r.ok) return "{\"ok\":false}";
    List v; for (double d : r.v) v.add(Q(d));
    std::string o = "{\"ok\":true,\"rows\":" + I(r.rows) + ",\"cols\":" + I(r.cols) + ",\"geo\":[" + I(X8(r.xll)) + "," + I(X8(r.yll)) + "," + I(X8(r.cs)) + "],\"nod\":" + I(r.hasnod ? Q(r.nod) : BADV) + ",\"v\":" + v.end();
    if (withType) o += ",\"type\":\"" + r.type + "\"";
    return o + "}";
}
static std::vector<std::string> ListDir(const std::string& d) {
    std::vector<std::string> v; DIR* p = opendir(d.c_str()); if (!p) return v;
    while (struct dirent* e = readdir(p)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); }
    closedir(p); std::sort(v.begin(), v.end()); return v;
}
#endif
