// The file store: calls of MongoClient, MongoGridFs and the readers of document values over the stand-in for the
// server. Every event carries what the store holds afterwards.
#include "vt.h"
#include "data_raster.hpp"
#include "fake_mongoc.h"
using namespace ccgl;
using namespace ccgl::db_mongoc;
using namespace ccgl::data_raster;
using namespace vt;
using std::string; using std::vector;
static string Hex(const string& s) { static const char* h = "0123456789abcdef"; string r; for (unsigned char c : s) { r += h[c >> 4]; r += h[c & 15]; } return r; }
static string CanonNum(double d) { char b[64]; if (d == 0) d = 0; snprintf(b, sizeof b, "n:%.17g", d); return b; }
static string Canon(const bson_value_t* v) {
    switch (v->value_type) {
        case BSON_TYPE_INT32: return CanonNum(v->value.v_int32);
        case BSON_TYPE_INT64: return CanonNum(static_cast<double>(v->value.v_int64));
        case BSON_TYPE_DOUBLE: return CanonNum(v->value.v_double);
        case BSON_TYPE_UTF8: return "s:" + Hex(string(v->value.v_utf8.str, v->value.v_utf8.len));
        case BSON_TYPE_BOOL: return v->value.v_bool ? "b:1" : "b:0";
        case BSON_TYPE_DATE_TIME: return "t:" + std::to_string(v->value.v_datetime);
        case BSON_TYPE_NULL: return "null";
        default: return "other";
    }
}
// what an option text stands for: the number it spells, or itself
static string CanonText(const string& s) { char* e = nullptr; double d = strtod(s.c_str(), &e); return !s.empty() && *e == 0 && !isspace(s[0]) && !isalpha(s[0]) && s.find_first_of("xX") == string::npos ? CanonNum(d) : "s:" + Hex(s); }
static string Q(const string& s) { return "\"" + s + "\""; }
static string Meta(const bson_t* b) {
    string r = "["; bson_iter_t it; bool first = true;
    if (b && bson_iter_init(&it, b)) while (bson_iter_next(&it)) { r += (first ? "[" : ",[") + Q(bson_iter_key(&it)) + "," + Q(Canon(bson_iter_value(&it))) + "]"; first = false; }
    return r + "]";
}
static string Store() {
    string r = "["; bool first = true;
    for (auto& d : fake::dbs) for (auto& g : d.second.gfs) for (auto& f : g.second) {
        r += string(first ? "" : ",") + "{\"st\":" + Q(d.first + "/" + g.first) + ",\"id\":" + std::to_string(f.id) + ",\"name\":" + Q(f.name) + ",\"meta\":" + Meta(f.has_meta ? f.meta : nullptr) + ",\"data\":" + Q(Hex(f.data)) + "}"; first = false; }
    return r + "]";
}
static string Strs(const vector<string>& v) { string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + Q(v[i]); return r + "]"; }
static std::map<string, int> before;
static void Faults(Ev& e) { for (const char* k : {"find", "read", "write", "save", "remove", "list"}) e.i(k, fake::faults[k] - before[k]); }
static STRING_MAP Opts(Args& a, Ev& e) { int n = a.i(); STRING_MAP m; string r = "["; for (int i = 0; i < n; i++) { string k = a.str(), v = a.str(); m[k] = v; r += (i ? ",[" : "[") + Q(k) + "," + Q(CanonText(v)) + "]"; } e.raw("opts", r + "]"); return m; }
static void AppendTyped(bson_t* b, const string& k, const string& t, const string& v) {
    if (t == "i") bson_append_int32(b, k.c_str(), -1, atoi(v.c_str()));
    else if (t == "l") bson_append_int64(b, k.c_str(), -1, atoll(v.c_str()));
    else if (t == "d") bson_append_double(b, k.c_str(), -1, strtod(v.c_str(), nullptr));
    else if (t == "s") bson_append_utf8(b, k.c_str(), -1, v.c_str(), -1);
    else if (t == "b") bson_append_bool(b, k.c_str(), -1, v == "1");
    else if (t == "t") bson_append_date_time(b, k.c_str(), -1, atoll(v.c_str()));
    else if (t == "n") bson_append_null(b, k.c_str(), -1);
    else { fprintf(stderr, "HARNESS-ERROR type %s\n", t.c_str()); exit(70); }
}
static MongoClient* client; static std::map<string, MongoGridFs*> stores; static MongoGridFs* nullstore;
static void Drop() { for (auto& s : stores) delete s.second; stores.clear(); }
// mode 0: an object over the store; 1: an object over nothing, the store given; 2: neither
struct At { MongoGridFs* o; mongoc_gridfs_t* g; };
static At Where(const string& st, int mode) {
    string db = st.substr(0, st.find('/')), g = st.substr(st.find('/') + 1);
    if (!stores.count(st)) { string keep = fake::plan["list"]; fake::plan["list"] = ""; stores[st] = client->GridFs(db, g); fake::plan["list"] = keep; }
    if (mode == 0) return At{stores[st], NULL};
    return At{nullstore, mode == 1 ? stores[st]->GetGridFs() : NULL};
}
template <typename T> static void PutA(const string& st, Args& a, Ev& e) { // name n vals nheader (key value) opts
    string name = a.str(); int n = a.i(); vector<T> v(n); for (auto& x : v) x = static_cast<T>(a.d());
    int h = a.i(); STRDBL_MAP hd; string hs = "["; for (int i = 0; i < h; i++) { string k = a.str(); double d = a.d(); hd[k] = d; hs += (i ? ",[" : "[") + Q(k) + "," + Q(CanonNum(d)) + "]"; }
    e.txt("name", name).raw("hdr", hs + "]"); STRING_MAP o = Opts(a, e);
    string dt = RasterDataTypeToString(TypeToRasterDataType(typeid(T))), want = o.count(HEADER_RSOUT_DATATYPE) ? o[HEADER_RSOUT_DATATYPE] : dt;
    e.txt("own", Q(dt).substr(1, dt.size())).b("typed", o.count(HEADER_RSOUT_DATATYPE) > 0).b("known", StringToRasterDataType(want) != RDT_Unknown);
    // the bytes of the values in the type asked for
    string bytes; auto add = [&](const void* p, size_t k) { bytes.append(static_cast<const char*>(p), k); };
    for (T x : v) switch (StringToRasterDataType(want)) {
        case RDT_UInt8: { vuint8_t y = static_cast<vuint8_t>(x); add(&y, sizeof y); break; } case RDT_Int8: { vint8_t y = static_cast<vint8_t>(x); add(&y, sizeof y); break; }
        case RDT_UInt16: { vuint16_t y = static_cast<vuint16_t>(x); add(&y, sizeof y); break; } case RDT_Int16: { vint16_t y = static_cast<vint16_t>(x); add(&y, sizeof y); break; }
        case RDT_UInt32: { vuint32_t y = static_cast<vuint32_t>(x); add(&y, sizeof y); break; } case RDT_Int32: { vint32_t y = static_cast<vint32_t>(x); add(&y, sizeof y); break; }
        case RDT_UInt64: { vuint64_t y = static_cast<vuint64_t>(x); add(&y, sizeof y); break; } case RDT_Int64: { vint64_t y = static_cast<vint64_t>(x); add(&y, sizeof y); break; }
        case RDT_Float: { float y = static_cast<float>(x); add(&y, sizeof y); break; } case RDT_Double: { double y = static_cast<double>(x); add(&y, sizeof y); break; } default: break; }
    e.txt("data", Hex(bytes)).txt("owntype", CanonText(dt));
    T* d = new T[n + 1]; for (int i = 0; i < n; i++) d[i] = v[i]; d[n] = T();
    bool ok = WriteStreamDataAsGridfs(Where(st, 0).o, name, hd, d, n, o);
    bool kept = true; for (int i = 0; i < n; i++) if (d[i] != v[i]) kept = false;
    delete[] d; e.b("ok", ok).b("kept", kept);
}
int main(int argc, char** argv) {
    vector<string> script = ReadScript(argv[1]); Out out(argv[2]);
    for (auto& line : script) {
        Args a(line); string op = a.raw(); Ev e(op);
        before = fake::faults;
        if (op == "drop") { // everything given back: what is left?
            Drop(); delete nullstore; nullstore = nullptr; if (client) { client->Destroy(); delete client; client = nullptr; }
            e.i("live", fake::Live()); fake::Reset(); before.clear(); e.b("lost", Lost());
        } else if (op == "reset") {
            Drop(); delete nullstore; if (client) { client->Destroy(); delete client; }
            fake::Reset(); before.clear();
            client = MongoClient::Init("127.0.0.1", 27017); nullstore = new MongoGridFs();
            e.b("ok", client && client->GetConn());
        } else if (op == "plan") { string k = a.raw(); fake::plan[k] = a.str(); e.txt("kind", k);
        } else if (op == "mkcoll") { string d = a.str(), c = a.str(); int n = a.i(); auto& v = fake::dbs[d].colls; if (std::find(v.begin(), v.end(), c) == v.end()) v.push_back(c); fake::dbs[d].docs[c] = n; e.txt("db", d).txt("c", c).i("n", n);
        } else if (op == "open") { string st = a.str(); e.txt("store", st); string db = st.substr(0, st.find('/')), g = st.substr(st.find('/') + 1);
            bool over = stores.count(st) > 0; MongoGridFs* s = client->GridFs(db, g); e.b("ok", s && s->GetGridFs()); if (over || !s->GetGridFs()) delete s; else stores[st] = s;
        } else if (op == "put") { // store mode name data nmeta (key type value)
            string st = a.str(); int mode = a.i(); string name = a.str(), data = a.str(); int n = a.i(); bson_t b = BSON_INITIALIZER;
            for (int i = 0; i < n; i++) { string k = a.str(), t = a.raw(), v = a.str(); AppendTyped(&b, k, t, v); }
            e.txt("store", st).i("mode", mode).txt("name", name).txt("data", Hex(data)).raw("meta", n < 0 ? "[]" : Meta(&b));
            At w = Where(st, mode); char* buf = const_cast<char*>(data.data());
            e.b("ok", w.o->WriteStreamData(name, buf, static_cast<vint>(data.size()), n < 0 ? nullptr : &b, w.g)); bson_destroy(&b);
        } else if (op == "puta") { string st = a.str(), t = a.raw(); e.txt("store", st);
            if (t == "f") PutA<float>(st, a, e); else if (t == "d") PutA<double>(st, a, e); else if (t == "i") PutA<int>(st, a, e); else if (t == "s") PutA<vint16_t>(st, a, e); else PutA<vuint8_t>(st, a, e);
        } else if (op == "get") {
            string st = a.str(); int mode = a.i(); string name = a.str(); e.txt("store", st).i("mode", mode).txt("name", name); STRING_MAP o = Opts(a, e);
            At w = Where(st, mode); char* buf = reinterpret_cast<char*>(8); vint len = -3; bool ok = w.o->GetStreamData(name, buf, len, w.g, o.empty() ? nullptr : &o);
            e.b("ok", ok).txt("data", ok ? Hex(string(len > 0 ? buf : "", len > 0 ? len : 0)) : string()).b("none", mode == 2 || ok || buf == nullptr); if (ok) delete[] buf; // delete[]: as its caller ReadGridFsFile does
        } else if (op == "meta") {
            string st = a.str(); int mode = a.i(); string name = a.str(); e.txt("store", st).i("mode", mode).txt("name", name); STRING_MAP o = Opts(a, e);
            At w = Where(st, mode); bson_t* b = w.o->GetFileMetadata(name, w.g, o); e.b("ok", b != nullptr).raw("meta", Meta(b)); if (b) bson_destroy(b);
        } else if (op == "has") {
            string st = a.str(); int mode = a.i(); string name = a.str(); e.txt("store", st).i("mode", mode).txt("name", name); STRING_MAP o = Opts(a, e);
            At w = Where(st, mode); mongoc_gridfs_file_t* f = w.o->GetFile(name, w.g, o); e.b("ok", f != nullptr); if (f) mongoc_gridfs_file_destroy(f);
        } else if (op == "del") {
            string st = a.str(); int mode = a.i(); string name = a.str(); e.txt("store", st).i("mode", mode).txt("name", name); STRING_MAP o = Opts(a, e);
            At w = Where(st, mode); e.b("ok", w.o->RemoveFile(name, w.g, o));
        } else if (op == "names") {
            string st = a.str(); int mode = a.i(); e.txt("store", st).i("mode", mode); vector<string> v; At w = Where(st, mode);
            if (mode < 3) w.o->GetFileNames(v, w.g); else client->GetGridFsFileNames(st.substr(0, st.find('/')), st.substr(st.find('/') + 1), v);
            e.raw("v", Strs(v));
        } else if (op == "dbs") { vector<string> v(1, "old"); client->GetDatabaseNames(v); e.raw("v", Strs(v));
        } else if (op == "colls") { string d = a.str(); e.txt("db", d); vector<string> v(1, "old"); client->GetCollectionNames(d, v); e.raw("v", Strs(v));
        } else if (op == "coll") { string d = a.str(), c = a.str(); e.txt("db", d).txt("c", c); mongoc_collection_t* k = client->GetCollection(d, c); e.b("ok", k != nullptr); vint n = -7;
            if (k) { MongoCollection mc(k); n = mc.QueryRecordsCount(); } e.i("n", n);
        } else if (op == "val") { // key n (key type value): reading one value of a document
            string key = a.str(); int n = a.i(); bson_t b = BSON_INITIALIZER; string ty = "-", tx; double num = 0;
            for (int i = 0; i < n; i++) { string k = a.str(), t = a.raw(), v = a.str(); AppendTyped(&b, k, t, v); if (k == key && ty == "-") { ty = t; tx = v; } }
            e.txt("key", key).txt("t", ty);
            char* end = nullptr; num = strtod(tx.c_str(), &end); bool isnum = !tx.empty() && *end == 0;
            bool digits = tx.find_first_of("0123456789") != string::npos;
            string up = tx; for (auto& c : up) c = static_cast<char>(toupper(c));
            e.b("isnum", isnum).b("digits", digits).txt("num", CanonNum(num)).b("zero", num == 0).b("true", up == "TRUE").codes("txt", tx);
            double d = -77.5; float f = -77.5f; int i32 = -77; bool inint = std::fabs(num) < 2147483648.0;
            bool od = GetNumericFromBson(&b, key.c_str(), d), of = GetNumericFromBson(&b, key.c_str(), f), oi = inint || ty == "t" || ty == "n" ? GetNumericFromBson(&b, key.c_str(), i32) : od;
            e.b("okd", od).b("okf", of).b("oki", oi).txt("d", CanonNum(d)).b("untouched", d == -77.5 && f == -77.5f && i32 == -77).b("f", f == static_cast<float>(d)).b("i", !inint || i32 == static_cast<int>(d));
            string s = GetStringFromBson(&b, key.c_str()); e.codes("s", s); char* se = nullptr; double sd = strtod(s.c_str(), &se);
            e.b("snum", !s.empty() && *se == 0 && std::fabs(sd - num) <= 5.0000001e-6 * std::fabs(num));
            e.b("bool", GetBoolFromBson(&b, key.c_str()));
            long long ms = ty == "t" ? atoll(tx.c_str()) : 0; time_t tm = GetDatetimeFromBson(&b, key.c_str());
            // seconds in two words, so that no instant leaves the integers of the model
            long long sec = ms / 1000; e.seq("want", vector<long long>{sec / 1000000, sec % 1000000}).seq("got", vector<long long>{static_cast<long long>(tm) / 1000000, static_cast<long long>(tm) % 1000000});
            bson_destroy(&b);
        } else { fprintf(stderr, "HARNESS-ERROR unknown op %s\n", op.c_str()); exit(70); }
        Faults(e); e.raw("files", Store());
        string cs = "["; bool first = true; for (auto& d : fake::dbs) for (auto& c : d.second.colls) { cs += (first ? "[" : ",[") + Q(d.first) + "," + Q(c) + "," + std::to_string(d.second.docs.count(c) ? d.second.docs[c] : 0) + "]"; first = false; } e.raw("colls", cs + "]");
        out.put(e);
    }
    return 0;
}
