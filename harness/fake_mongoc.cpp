#include <mongoc.h>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "fake_mongoc.h"
using std::string; using std::vector; using std::map;
namespace fake {
map<string, Db> dbs; map<string, string> plan; map<string, int> faults;
static int next_id = 1, live = 0;
int Live() { return live; }
void Reset() {
    for (auto& d : dbs) for (auto& g : d.second.gfs) for (auto& f : g.second) if (f.has_meta) bson_destroy(f.meta);
    dbs.clear(); plan.clear(); faults.clear(); next_id = 1;
}
static char Next(const string& k) {
    string& p = plan[k];
    if (p.empty()) return '0';
    char c = p[0];
    if (!(p.size() == 2 && p[1] == '*')) p.erase(0, 1); // "1*": for ever
    if (c != '0') faults[k]++;
    return c;
}
static void Err(bson_error_t* e, const char* m) { if (e) { e->domain = 1; e->code = 1; snprintf(e->message, sizeof(e->message), "%s", m); } }
static bool Num(const bson_value_t* v, double* d) {
    switch (v->value_type) {
        case BSON_TYPE_INT32: *d = v->value.v_int32; return true;
        case BSON_TYPE_INT64: *d = static_cast<double>(v->value.v_int64); return true;
        case BSON_TYPE_DOUBLE: *d = v->value.v_double; return true;
        default: return false;
    }
}
static bool Same(const bson_value_t* a, const bson_value_t* b) {
    double x, y;
    if (Num(a, &x) && Num(b, &y)) return x == y || (std::isnan(x) && std::isnan(y));
    if (a->value_type != b->value_type) return false;
    if (a->value_type == BSON_TYPE_UTF8)
        return a->value.v_utf8.len == b->value.v_utf8.len && !memcmp(a->value.v_utf8.str, b->value.v_utf8.str, a->value.v_utf8.len);
    if (a->value_type == BSON_TYPE_BOOL) return a->value.v_bool == b->value.v_bool;
    if (a->value_type == BSON_TYPE_DATE_TIME) return a->value.v_datetime == b->value.v_datetime;
    if (a->value_type == BSON_TYPE_OID) return bson_oid_equal(&a->value.v_oid, &b->value.v_oid);
    return a->value_type == BSON_TYPE_NULL;
}
static bool Matches(const File& f, const bson_t* filter) {
    bson_iter_t it;
    if (!filter || !bson_iter_init(&it, filter)) return true;
    while (bson_iter_next(&it)) {
        const string key = bson_iter_key(&it); const bson_value_t* want = bson_iter_value(&it);
        if (key == "filename") {
            if (want->value_type != BSON_TYPE_UTF8 || f.name != want->value.v_utf8.str) return false;
        } else if (key == "contentType") {
            if (want->value_type != BSON_TYPE_UTF8 || f.type != want->value.v_utf8.str) return false;
        } else if (key == "length") {
            double d; if (!Num(want, &d) || d != f.data.size()) return false;
        } else if (key == "_id") {
            if (want->value_type != BSON_TYPE_OID || !bson_oid_equal(&want->value.v_oid, &f.oid)) return false;
        } else if (key.compare(0, 9, "metadata.") == 0) {
            bson_iter_t m, sub; bool found = false;
            if (f.has_meta && bson_iter_init(&m, f.meta) && bson_iter_find_descendant(&m, key.c_str() + 9, &sub))
                found = Same(bson_iter_value(&sub), want);
            if (!found) return false;
        } else { fprintf(stderr, "HARNESS-ERROR fake: filter on %s\n", key.c_str()); exit(70); }
    }
    return true;
}
}
using namespace fake;

struct _mongoc_uri_t { string host; uint16_t port; };
struct _mongoc_client_t { int x; };
struct _mongoc_database_t { string name; };
struct _mongoc_collection_t { string db, name; };
struct _mongoc_cursor_t { int x; };
struct _mongoc_gridfs_t { string db, prefix; };
struct _mongoc_gridfs_file_t {
    mongoc_gridfs_t g; File f; bson_value_t id; bool failed; size_t pos; string err;
};
struct _mongoc_gridfs_file_list_t { mongoc_gridfs_t g; vector<File> fs; size_t p; bool failed; };
struct FakeStream { mongoc_stream_t s; mongoc_gridfs_file_t* f; };

static bson_t* CopyMeta(const bson_t* b) { return b ? bson_copy(b) : nullptr; }
static mongoc_gridfs_file_t* NewFile(const mongoc_gridfs_t* g, const File& f) {
    mongoc_gridfs_file_t* r = new mongoc_gridfs_file_t();
    live++;
    r->g = *g; r->f = f; r->f.meta = f.has_meta ? CopyMeta(f.meta) : nullptr; r->failed = false; r->pos = 0;
    r->id.value_type = BSON_TYPE_OID; bson_oid_copy(&f.oid, &r->id.value.v_oid);
    return r;
}
static vector<File>& Files(const mongoc_gridfs_t& g) { return dbs[g.db].gfs[g.prefix]; }
static void AddColl(const string& db, const string& c) {
    vector<string>& v = dbs[db].colls;
    if (std::find(v.begin(), v.end(), c) == v.end()) v.push_back(c);
}

extern "C" {
void mongoc_init(void) {}
void mongoc_cleanup(void) {}
mongoc_uri_t* mongoc_uri_new_for_host_port(const char* h, uint16_t p) { live++; mongoc_uri_t* u = new mongoc_uri_t(); u->host = h; u->port = p; return u; }
void mongoc_uri_destroy(mongoc_uri_t* u) { if (u) { live--; delete u; } }
mongoc_client_t* mongoc_client_new_from_uri(const mongoc_uri_t* u) { if (!u) return nullptr; live++; return new mongoc_client_t(); }
void mongoc_client_destroy(mongoc_client_t* c) { if (c) { live--; delete c; } }
mongoc_database_t* mongoc_client_get_database(mongoc_client_t*, const char* n) { live++; mongoc_database_t* d = new mongoc_database_t(); d->name = n; return d; }
void mongoc_database_destroy(mongoc_database_t* d) { if (d) { live--; delete d; } }
const char* mongoc_database_get_name(mongoc_database_t* d) { return d->name.c_str(); }
bool mongoc_database_has_collection(mongoc_database_t* d, const char* n, bson_error_t* e) {
    if (e) memset(e, 0, sizeof(*e));
    if (Next("list") != '0') { Err(e, "no server"); return false; }
    auto it = dbs.find(d->name);
    return it != dbs.end() && std::find(it->second.colls.begin(), it->second.colls.end(), n) != it->second.colls.end();
}
static char** Strv(const vector<string>& v) {
    char** r = static_cast<char**>(bson_malloc0(sizeof(char*) * (v.size() + 1)));
    for (size_t i = 0; i < v.size(); i++) r[i] = bson_strdup(v[i].c_str());
    return r;
}
char** mongoc_client_get_database_names_with_opts(mongoc_client_t*, const bson_t*, bson_error_t* e) {
    if (Next("list") != '0') { Err(e, "no server"); return nullptr; }
    vector<string> v; for (auto& d : dbs) if (!d.second.colls.empty()) v.push_back(d.first);
    return Strv(v);
}
char** mongoc_client_get_database_names(mongoc_client_t* c, bson_error_t* e) { return mongoc_client_get_database_names_with_opts(c, nullptr, e); }
char** mongoc_database_get_collection_names_with_opts(mongoc_database_t* d, const bson_t*, bson_error_t* e) {
    if (Next("list") != '0') { Err(e, "no server"); return nullptr; }
    auto it = dbs.find(d->name);
    return Strv(it == dbs.end() ? vector<string>() : it->second.colls);
}
char** mongoc_database_get_collection_names(mongoc_database_t* d, bson_error_t* e) { return mongoc_database_get_collection_names_with_opts(d, nullptr, e); }
mongoc_collection_t* mongoc_client_get_collection(mongoc_client_t*, const char* d, const char* n) { live++; mongoc_collection_t* c = new mongoc_collection_t(); c->db = d; c->name = n; return c; }
void mongoc_collection_destroy(mongoc_collection_t* c) { if (c) { live--; delete c; } }
mongoc_cursor_t* mongoc_collection_find_with_opts(mongoc_collection_t*, const bson_t*, const bson_t*, const mongoc_read_prefs_t*) { live++; return new mongoc_cursor_t(); }
void mongoc_cursor_destroy(mongoc_cursor_t* c) { if (c) { live--; delete c; } }
int64_t mongoc_collection_count_documents(mongoc_collection_t* c, const bson_t*, const bson_t*, const mongoc_read_prefs_t*, bson_t*, bson_error_t* e) {
    if (Next("list") != '0') { Err(e, "no server"); return -1; }
    auto it = dbs.find(c->db); if (it == dbs.end()) return 0;
    auto k = it->second.docs.find(c->name); return k == it->second.docs.end() ? 0 : k->second;
}
mongoc_gridfs_t* mongoc_client_get_gridfs(mongoc_client_t*, const char* db, const char* prefix, bson_error_t* e) {
    if (Next("list") != '0') { Err(e, "no server"); return nullptr; }
    live++; mongoc_gridfs_t* g = new mongoc_gridfs_t(); g->db = db; g->prefix = prefix;
    AddColl(db, string(prefix) + ".chunks"); AddColl(db, string(prefix) + ".files"); Files(*g);
    return g;
}
void mongoc_gridfs_destroy(mongoc_gridfs_t* g) { if (g) { live--; delete g; } }
mongoc_gridfs_file_list_t* mongoc_gridfs_find_with_opts(mongoc_gridfs_t* g, const bson_t* filter, const bson_t*) {
    live++; mongoc_gridfs_file_list_t* l = new mongoc_gridfs_file_list_t(); l->g = *g; l->p = 0; l->failed = false;
    for (auto& f : Files(*g)) if (Matches(f, filter)) { l->fs.push_back(f); l->fs.back().meta = f.has_meta ? CopyMeta(f.meta) : nullptr; }
    return l;
}
mongoc_gridfs_file_list_t* mongoc_gridfs_find(mongoc_gridfs_t* g, const bson_t* q) { return mongoc_gridfs_find_with_opts(g, q, nullptr); }
mongoc_gridfs_file_t* mongoc_gridfs_file_list_next(mongoc_gridfs_file_list_t* l) {
    if (l->failed) return nullptr;
    if (Next("find") != '0') { l->failed = true; return nullptr; }
    if (l->p >= l->fs.size()) return nullptr;
    return NewFile(&l->g, l->fs[l->p++]);
}
bool mongoc_gridfs_file_list_error(mongoc_gridfs_file_list_t* l, bson_error_t* e) { if (l->failed) Err(e, "connection lost"); return l->failed; }
void mongoc_gridfs_file_list_destroy(mongoc_gridfs_file_list_t* l) {
    if (!l) return;
    for (auto& f : l->fs) if (f.has_meta) bson_destroy(f.meta);
    live--; delete l;
}
mongoc_gridfs_file_t* mongoc_gridfs_find_one_with_opts(mongoc_gridfs_t* g, const bson_t* filter, const bson_t* o, bson_error_t* e) {
    mongoc_gridfs_file_list_t* l = mongoc_gridfs_find_with_opts(g, filter, o);
    mongoc_gridfs_file_t* f = mongoc_gridfs_file_list_next(l);
    if (!mongoc_gridfs_file_list_error(l, e) && e) memset(e, 0, sizeof(*e));
    mongoc_gridfs_file_list_destroy(l);
    return f;
}
mongoc_gridfs_file_t* mongoc_gridfs_find_one(mongoc_gridfs_t* g, const bson_t* q, bson_error_t* e) { return mongoc_gridfs_find_one_with_opts(g, q, nullptr, e); }
mongoc_gridfs_file_t* mongoc_gridfs_create_file(mongoc_gridfs_t* g, mongoc_gridfs_file_opt_t* o) {
    File f; f.id = next_id++; f.has_meta = false; f.meta = nullptr; bson_oid_init(&f.oid, nullptr);
    if (o) {
        if (o->filename) f.name = o->filename;
        if (o->content_type) f.type = o->content_type;
        if (o->metadata) { f.has_meta = true; f.meta = const_cast<bson_t*>(o->metadata); }
    }
    return NewFile(g, f);
}
ssize_t mongoc_gridfs_file_writev(mongoc_gridfs_file_t* f, const mongoc_iovec_t* v, size_t n, uint32_t) {
    string all;
    for (size_t i = 0; i < n; i++) if (v[i].iov_len) all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
    if (Next("write") != '0') { // the connection breaks part of the way
        f->f.data.replace(std::min(f->pos, f->f.data.size()), string::npos, all.substr(0, all.size() / 2));
        f->pos += all.size() / 2; f->failed = true; return -1;
    }
    f->f.data.replace(std::min(f->pos, f->f.data.size()), all.size(), all); f->pos += all.size();
    return static_cast<ssize_t>(all.size());
}
static void Put(mongoc_gridfs_file_t* f) {
    File c = f->f; c.meta = c.has_meta ? CopyMeta(c.meta) : nullptr;
    for (auto& x : Files(f->g)) if (x.id == c.id) { if (x.has_meta) bson_destroy(x.meta); x = c; return; }
    Files(f->g).push_back(c);
}
bool mongoc_gridfs_file_save(mongoc_gridfs_file_t* f) {
    char c = Next("save");
    if (c == '0' || c == 'L') Put(f);
    if (c != '0') { f->failed = true; return false; }
    return true;
}
bool mongoc_gridfs_file_error(mongoc_gridfs_file_t* f, bson_error_t* e) { if (f->failed) Err(e, "connection lost"); return f->failed; }
bool mongoc_gridfs_file_remove(mongoc_gridfs_file_t* f, bson_error_t* e) {
    if (Next("remove") != '0') { Err(e, "connection lost"); return false; }
    vector<File>& v = Files(f->g);
    for (size_t i = 0; i < v.size(); i++) if (v[i].id == f->f.id) { if (v[i].has_meta) bson_destroy(v[i].meta); v.erase(v.begin() + i); break; }
    return true;
}
bool mongoc_gridfs_remove_by_filename(mongoc_gridfs_t* g, const char* n, bson_error_t* e) {
    if (Next("remove") != '0') { Err(e, "connection lost"); return false; }
    vector<File>& v = Files(*g);
    for (size_t i = v.size(); i-- > 0;) if (v[i].name == n) { if (v[i].has_meta) bson_destroy(v[i].meta); v.erase(v.begin() + i); }
    return true;
}
void mongoc_gridfs_file_destroy(mongoc_gridfs_file_t* f) { if (!f) return; if (f->f.has_meta) bson_destroy(f->f.meta); live--; delete f; }
const bson_value_t* mongoc_gridfs_file_get_id(mongoc_gridfs_file_t* f) { return &f->id; }
int64_t mongoc_gridfs_file_get_length(mongoc_gridfs_file_t* f) { return static_cast<int64_t>(f->f.data.size()); }
const char* mongoc_gridfs_file_get_filename(mongoc_gridfs_file_t* f) { return f->f.name.c_str(); }
const char* mongoc_gridfs_file_get_content_type(mongoc_gridfs_file_t* f) { return f->f.type.c_str(); }
const bson_t* mongoc_gridfs_file_get_metadata(mongoc_gridfs_file_t* f) { return f->f.has_meta ? f->f.meta : nullptr; }
ssize_t mongoc_gridfs_file_readv(mongoc_gridfs_file_t* f, mongoc_iovec_t* v, size_t n, size_t min_bytes, uint32_t) {
    if (Next("read") != '0') { f->failed = true; return -1; }
    ssize_t got = 0; const size_t chunk = 16; // small pages, so that a reader that takes less than it needs is seen
    for (size_t i = 0; i < n; i++) {
        size_t at = 0;
        while (at < v[i].iov_len) {
            if (f->pos >= f->f.data.size()) return got;
            if (at > 0 && static_cast<size_t>(got) >= min_bytes) return got;
            size_t k = std::min(v[i].iov_len - at, std::min(chunk - f->pos % chunk, f->f.data.size() - f->pos));
            memcpy(static_cast<char*>(v[i].iov_base) + at, f->f.data.data() + f->pos, k);
            at += k; f->pos += k; got += k;
        }
    }
    return got;
}
int mongoc_gridfs_file_seek(mongoc_gridfs_file_t* f, int64_t d, int w) { f->pos = w == SEEK_SET ? d : w == SEEK_CUR ? f->pos + d : f->f.data.size() + d; return 0; }
uint64_t mongoc_gridfs_file_tell(mongoc_gridfs_file_t* f) { return f->pos; }
mongoc_stream_t* mongoc_stream_gridfs_new(mongoc_gridfs_file_t* f) { live++; FakeStream* s = new FakeStream(); memset(&s->s, 0, sizeof(s->s)); s->f = f; return &s->s; }
ssize_t mongoc_stream_readv(mongoc_stream_t* s, mongoc_iovec_t* v, size_t n, size_t min_bytes, int32_t t) { return mongoc_gridfs_file_readv(reinterpret_cast<FakeStream*>(s)->f, v, n, min_bytes, t); }
ssize_t mongoc_stream_read(mongoc_stream_t* s, void* b, size_t c, size_t m, int32_t t) { mongoc_iovec_t v; v.iov_base = b; v.iov_len = c; return mongoc_stream_readv(s, &v, 1, m, t); }
void mongoc_stream_destroy(mongoc_stream_t* s) { if (s) { live--; delete reinterpret_cast<FakeStream*>(s); } }
}
