// A stand-in for the MongoDB C driver: databases with plain collections and GridFS buckets kept in memory.  Documents
// are real BSON (libbson); every handle handed out is accounted for; every call may be made to fail.
#ifndef MONGO_STUB_HPP
#define MONGO_STUB_HPP
#include "mc.hpp"
#include <mongoc.h>
#include <functional>
#include <memory>
#include <algorithm>
#include <cmath>

namespace mg {
struct File { std::string name; bool named; std::string meta; bool has_meta; std::string data; bson_oid_t oid; bool foreign_id; };
struct Db { std::map<std::string, std::vector<File>> gfs; std::map<std::string, int> colls; };
static std::map<std::string, Db> store;
static std::map<const void*, const char*> live;           // handles not released yet
static std::vector<std::string> misuse;                   // calls that would crash the real driver
static std::function<int(const char*, int)> fault;        // (call, number of ways to fail) -> 0 or the way to fail
static int faults_hit = 0, calls = 0, inits = 0;
static void bad(const char* fmt, const char* a, const char* b = "") { char t[300]; snprintf(t, sizeof t, fmt, a, b); if (misuse.size() < 20) misuse.push_back(t); }
static void* open(void* p, const char* kind) { live[p] = kind; return p; }
static bool close(const void* p, const char* kind) {
    if (!p) return false;
    std::map<const void*, const char*>::iterator i = live.find(p);
    if (i == live.end() || strcmp(i->second, kind)) { bad("%s released that is not in use", kind); return false; }
    live.erase(i); return true;
}
static bool use(const void* p, const char* kind, const char* call) {
    calls++;
    std::map<const void*, const char*>::iterator i = live.find(p);
    if (!p || i == live.end() || strcmp(i->second, kind)) { bad(p ? "%s called with a %s that is not in use" : "%s called with a null %s", call, kind); return false; }
    return true;
}
static int fails(const char* call, int ways = 1) { int f = fault ? fault(call, ways) : 0; if (f) faults_hit++; return f; }
static bool err(bson_error_t* e, const char* call) { if (e) { memset(e, 0, sizeof *e); e->code = 11; snprintf(e->message, sizeof e->message, "%s failed", call); } return false; }
static void ok(bson_error_t* e) { if (e) memset(e, 0, sizeof *e); }
static void reset() { store.clear(); live.clear(); misuse.clear(); fault = nullptr; faults_hit = calls = 0; }
static bool num(const bson_value_t* v, double& d) {
    if (v->value_type == BSON_TYPE_INT32) d = v->value.v_int32; else if (v->value_type == BSON_TYPE_INT64) d = (double)v->value.v_int64; else if (v->value_type == BSON_TYPE_DOUBLE) d = v->value.v_double; else return false;
    return true;
}
static bool same(const bson_value_t* a, const bson_value_t* b) {
    double x, y; if (num(a, x) && num(b, y)) return x == y || (std::isnan(x) && std::isnan(y));
    if (a->value_type != b->value_type) return false;
    if (a->value_type == BSON_TYPE_UTF8) return a->value.v_utf8.len == b->value.v_utf8.len && !memcmp(a->value.v_utf8.str, b->value.v_utf8.str, a->value.v_utf8.len);
    if (a->value_type == BSON_TYPE_BOOL) return a->value.v_bool == b->value.v_bool;
    if (a->value_type == BSON_TYPE_DATE_TIME) return a->value.v_datetime == b->value.v_datetime;
    return false;
}
// the server's matching of a query by equality of "filename" and of fields of the metadata
static bool match(const File& f, const bson_t* q) {
    bson_iter_t it; if (!q || !bson_iter_init(&it, q)) return true;
    while (bson_iter_next(&it)) {
        std::string k = bson_iter_key(&it); const bson_value_t* v = bson_iter_value(&it);
        if (k == "filename") { if (!f.named || v->value_type != BSON_TYPE_UTF8 || f.name != std::string(v->value.v_utf8.str, v->value.v_utf8.len)) return false; continue; }
        if (k.compare(0, 9, "metadata.")) { bad("query of the unknown field %s", k.c_str()); return false; }
        bson_t m; bson_iter_t mi; if (!f.has_meta || !bson_init_static(&m, (const uint8_t*)f.meta.data(), f.meta.size())) return false;
        if (!bson_iter_init_find(&mi, &m, k.c_str() + 9) || !same(bson_iter_value(&mi), v)) return false;
    }
    return true;
}
static File make(const std::string& name, const std::string& data, const bson_t* meta) {
    static unsigned n = 0; File f; f.name = name; f.named = true; f.data = data; f.has_meta = meta != 0; f.foreign_id = false; if (meta) f.meta.assign((const char*)bson_get_data(meta), meta->len);
    memset(&f.oid, 0, sizeof f.oid); n++; memcpy(&f.oid.bytes[0], &n, sizeof n); return f;
}
static std::string handles() { std::string s; for (std::map<const void*, const char*>::iterator i = live.begin(); i != live.end(); ++i) { s += s.empty() ? "" : ", "; s += i->second; } return s; }
}
// ---- the driver's types
struct _mongoc_uri_t { int x; };
struct _mongoc_client_t { int x; };
struct _mongoc_database_t { std::string name; };
struct _mongoc_collection_t { std::string db, name; };
struct _mongoc_gridfs_t { std::string db, prefix; };
struct _mongoc_gridfs_file_t { std::string db, prefix; mg::File f; bool saved; size_t pos; bson_error_t error; bson_t meta; bson_value_t id; };
struct _mongoc_gridfs_file_list_t { std::string db, prefix; std::vector<mg::File> files; size_t next; bson_error_t error; };
struct StubStream { _mongoc_gridfs_file_t* file; };
static inline mongoc_gridfs_file_t* stub_file(const std::string& db, const std::string& prefix, const mg::File& f) {
    mongoc_gridfs_file_t* r = new mongoc_gridfs_file_t(); r->db = db; r->prefix = prefix; r->f = f; r->saved = true; r->pos = 0; memset(&r->error, 0, sizeof r->error);
    if (f.has_meta && !bson_init_static(&r->meta, (const uint8_t*)r->f.meta.data(), r->f.meta.size())) abort();
    memset(&r->id, 0, sizeof r->id); if (f.foreign_id) { r->id.value_type = BSON_TYPE_UTF8; r->id.value.v_utf8.str = (char*)"id"; r->id.value.v_utf8.len = 2; } else { r->id.value_type = BSON_TYPE_OID; r->id.value.v_oid = f.oid; }
    mg::open(r, "file"); return r;
}
static inline char** stub_names(const std::vector<std::string>& v) { char** r = (char**)bson_malloc0((v.size() + 1) * sizeof(char*)); for (size_t i = 0; i < v.size(); i++) r[i] = bson_strdup(v[i].c_str()); return r; }
static inline std::vector<std::string> stub_colls(const std::string& db) {
    std::vector<std::string> v; if (!mg::store.count(db)) return v; mg::Db& d = mg::store[db];
    for (auto& c : d.colls) v.push_back(c.first);
    for (auto& g : d.gfs) if (!g.second.empty()) { v.push_back(g.first + ".chunks"); v.push_back(g.first + ".files"); }
    return v;
}
extern "C" {
void mongoc_init(void) { mg::inits++; }
void mongoc_cleanup(void) { mg::inits--; }
mongoc_uri_t* mongoc_uri_new_for_host_port(const char* h, uint16_t p) { mg::calls++; if (!h || !p) { mg::bad("%s without a host or port", "mongoc_uri_new_for_host_port"); return NULL; } if (mg::fails("uri_new")) return NULL; return (mongoc_uri_t*)mg::open(new mongoc_uri_t(), "uri"); }
void mongoc_uri_destroy(mongoc_uri_t* u) { if (mg::close(u, "uri")) delete u; }
mongoc_client_t* mongoc_client_new_from_uri(const mongoc_uri_t* u) { if (!mg::use(u, "uri", "mongoc_client_new_from_uri")) return NULL; if (mg::fails("client_new")) return NULL; return (mongoc_client_t*)mg::open(new mongoc_client_t(), "client"); }
void mongoc_client_destroy(mongoc_client_t* c) { if (mg::close(c, "client")) delete c; }
mongoc_database_t* mongoc_client_get_database(mongoc_client_t* c, const char* n) { if (!mg::use(c, "client", "mongoc_client_get_database")) return NULL; mongoc_database_t* d = new mongoc_database_t(); d->name = n; return (mongoc_database_t*)mg::open(d, "database"); }
mongoc_collection_t* mongoc_client_get_collection(mongoc_client_t* c, const char* db, const char* n) { if (!mg::use(c, "client", "mongoc_client_get_collection")) return NULL; mongoc_collection_t* k = new mongoc_collection_t(); k->db = db; k->name = n; return (mongoc_collection_t*)mg::open(k, "collection"); }
mongoc_gridfs_t* mongoc_client_get_gridfs(mongoc_client_t* c, const char* db, const char* p, bson_error_t* e) {
    if (!mg::use(c, "client", "mongoc_client_get_gridfs")) return NULL; if (mg::fails("get_gridfs")) { mg::err(e, "get_gridfs"); return NULL; }
    mg::ok(e); mongoc_gridfs_t* g = new mongoc_gridfs_t(); g->db = db; g->prefix = p ? p : "fs"; return (mongoc_gridfs_t*)mg::open(g, "gridfs"); }
char** mongoc_client_get_database_names_with_opts(mongoc_client_t* c, const bson_t*, bson_error_t* e) {
    if (!mg::use(c, "client", "mongoc_client_get_database_names_with_opts")) return NULL; if (mg::fails("get_database_names")) { mg::err(e, "get_database_names"); return NULL; }
    std::vector<std::string> v; for (auto& d : mg::store) if (!stub_colls(d.first).empty()) v.push_back(d.first); return stub_names(v); }
char** mongoc_client_get_database_names(mongoc_client_t* c, bson_error_t* e) { return mongoc_client_get_database_names_with_opts(c, NULL, e); }
const char* mongoc_database_get_name(mongoc_database_t* d) { return mg::use(d, "database", "mongoc_database_get_name") ? d->name.c_str() : ""; }
void mongoc_database_destroy(mongoc_database_t* d) { if (mg::close(d, "database")) delete d; }
bool mongoc_database_has_collection(mongoc_database_t* d, const char* n, bson_error_t* e) {
    if (!mg::use(d, "database", "mongoc_database_has_collection")) return false; if (mg::fails("has_collection")) return mg::err(e, "has_collection");
    mg::ok(e); std::vector<std::string> v = stub_colls(d->name); return std::find(v.begin(), v.end(), std::string(n)) != v.end(); }
char** mongoc_database_get_collection_names_with_opts(mongoc_database_t* d, const bson_t*, bson_error_t* e) {
    if (!mg::use(d, "database", "mongoc_database_get_collection_names_with_opts")) return NULL; if (mg::fails("get_collection_names")) { mg::err(e, "get_collection_names"); return NULL; } return stub_names(stub_colls(d->name)); }
char** mongoc_database_get_collection_names(mongoc_database_t* d, bson_error_t* e) { return mongoc_database_get_collection_names_with_opts(d, NULL, e); }
struct StubCursor { int x; };
mongoc_cursor_t* mongoc_collection_find_with_opts(mongoc_collection_t* c, const bson_t* q, const bson_t*, const mongoc_read_prefs_t*) { if (!mg::use(c, "collection", "mongoc_collection_find_with_opts")) return NULL; if (!q) mg::bad("%s without a filter", "mongoc_collection_find_with_opts"); return (mongoc_cursor_t*)mg::open(new StubCursor(), "cursor"); }
void mongoc_cursor_destroy(mongoc_cursor_t* c) { if (mg::close(c, "cursor")) delete (StubCursor*)c; }
void mongoc_collection_destroy(mongoc_collection_t* c) { if (mg::close(c, "collection")) delete c; }
int64_t mongoc_collection_count_documents(mongoc_collection_t* c, const bson_t* q, const bson_t*, const mongoc_read_prefs_t*, bson_t*, bson_error_t* e) {
    if (!mg::use(c, "collection", "mongoc_collection_count_documents")) return -1; if (!q) mg::bad("%s without a filter", "mongoc_collection_count_documents");
    if (mg::fails("count_documents")) { mg::err(e, "count_documents"); return -1; } mg::Db& d = mg::store[c->db]; if (d.colls.count(c->name)) return d.colls[c->name];
    size_t n = c->name.size(); if (n > 6 && c->name.substr(n - 6) == ".files" && d.gfs.count(c->name.substr(0, n - 6))) return (int64_t)d.gfs[c->name.substr(0, n - 6)].size(); return 0; }
void mongoc_gridfs_destroy(mongoc_gridfs_t* g) { if (mg::close(g, "gridfs")) delete g; }
mongoc_gridfs_file_list_t* mongoc_gridfs_find_with_opts(mongoc_gridfs_t* g, const bson_t* q, const bson_t*) {
    if (!mg::use(g, "gridfs", "mongoc_gridfs_find_with_opts")) return NULL; if (!q) mg::bad("%s without a filter", "mongoc_gridfs_find_with_opts");
    mongoc_gridfs_file_list_t* l = new mongoc_gridfs_file_list_t(); l->db = g->db; l->prefix = g->prefix; l->next = 0; memset(&l->error, 0, sizeof l->error); for (mg::File& f : mg::store[g->db].gfs[g->prefix]) if (mg::match(f, q)) l->files.push_back(f); return (mongoc_gridfs_file_list_t*)mg::open(l, "file list"); }
mongoc_gridfs_file_t* mongoc_gridfs_find_one_with_opts(mongoc_gridfs_t* g, const bson_t* q, const bson_t*, bson_error_t* e) {
    if (!mg::use(g, "gridfs", "mongoc_gridfs_find_one_with_opts")) return NULL; if (!q) mg::bad("%s without a filter", "mongoc_gridfs_find_one_with_opts");
    if (mg::fails("find_one")) { mg::err(e, "find_one"); return NULL; } mg::ok(e); for (mg::File& f : mg::store[g->db].gfs[g->prefix]) if (mg::match(f, q)) return stub_file(g->db, g->prefix, f); return NULL; }
mongoc_gridfs_file_t* mongoc_gridfs_file_list_next(mongoc_gridfs_file_list_t* l) {
    if (!mg::use(l, "file list", "mongoc_gridfs_file_list_next") || l->error.code) return NULL; if (mg::fails("file_list_next")) { mg::err(&l->error, "file_list_next"); return NULL; }
    if (l->next >= l->files.size()) return NULL; return stub_file(l->db, l->prefix, l->files[l->next++]); }
bool mongoc_gridfs_file_list_error(mongoc_gridfs_file_list_t* l, bson_error_t* e) { if (!mg::use(l, "file list", "mongoc_gridfs_file_list_error")) return false; if (e) *e = l->error; return l->error.code != 0; }
void mongoc_gridfs_file_list_destroy(mongoc_gridfs_file_list_t* l) { if (mg::close(l, "file list")) delete l; }
void mongoc_gridfs_file_destroy(mongoc_gridfs_file_t* f) { if (mg::close(f, "file")) delete f; }
const bson_value_t* mongoc_gridfs_file_get_id(mongoc_gridfs_file_t* f) { return mg::use(f, "file", "mongoc_gridfs_file_get_id") ? &f->id : NULL; }
const char* mongoc_gridfs_file_get_filename(mongoc_gridfs_file_t* f) { return mg::use(f, "file", "mongoc_gridfs_file_get_filename") && f->f.named ? f->f.name.c_str() : NULL; }
const bson_t* mongoc_gridfs_file_get_metadata(mongoc_gridfs_file_t* f) { return mg::use(f, "file", "mongoc_gridfs_file_get_metadata") && f->f.has_meta ? &f->meta : NULL; }
int64_t mongoc_gridfs_file_get_length(mongoc_gridfs_file_t* f) { return mg::use(f, "file", "mongoc_gridfs_file_get_length") ? (int64_t)f->f.data.size() : 0; }
bool mongoc_gridfs_file_error(mongoc_gridfs_file_t* f, bson_error_t* e) { if (!mg::use(f, "file", "mongoc_gridfs_file_error")) return false; if (f->error.code) { if (e) *e = f->error; return true; } return false; }
bool mongoc_gridfs_file_remove(mongoc_gridfs_file_t* f, bson_error_t* e) {
    if (!mg::use(f, "file", "mongoc_gridfs_file_remove")) return false; if (mg::fails("file_remove")) return mg::err(e, "file_remove");
    std::vector<mg::File>& v = mg::store[f->db].gfs[f->prefix]; for (size_t i = 0; i < v.size(); i++) if (bson_oid_equal(&v[i].oid, &f->f.oid)) { v.erase(v.begin() + i); break; } mg::ok(e); return true; }
mongoc_gridfs_file_t* mongoc_gridfs_create_file(mongoc_gridfs_t* g, mongoc_gridfs_file_opt_t* o) {
    if (!mg::use(g, "gridfs", "mongoc_gridfs_create_file")) return NULL; if (mg::fails("create_file")) return NULL;
    mg::File f = mg::make(o && o->filename ? o->filename : "", "", o ? o->metadata : NULL); f.named = o && o->filename; mongoc_gridfs_file_t* r = stub_file(g->db, g->prefix, f); r->saved = false; return r; }
ssize_t mongoc_gridfs_file_writev(mongoc_gridfs_file_t* f, const mongoc_iovec_t* iov, size_t n, uint32_t) {
    if (!mg::use(f, "file", "mongoc_gridfs_file_writev")) return -1; size_t len = 0; for (size_t i = 0; i < n; i++) { if (!iov[i].iov_base && iov[i].iov_len) { mg::bad("%s with a null buffer", "mongoc_gridfs_file_writev"); return -1; } len += iov[i].iov_len; }
    int w = mg::fails("file_writev", len ? 2 : 1); if (w == 1) { mg::err(&f->error, "file_writev"); return -1; }
    std::string all; for (size_t i = 0; i < n; i++) all.append((const char*)iov[i].iov_base, iov[i].iov_len); if (w == 2) all.resize(len / 2);
    if (f->f.data.size() < f->pos + all.size()) f->f.data.resize(f->pos + all.size()); f->f.data.replace(f->pos, all.size(), all); f->pos += all.size(); return (ssize_t)all.size(); }
bool mongoc_gridfs_file_save(mongoc_gridfs_file_t* f) {
    if (!mg::use(f, "file", "mongoc_gridfs_file_save")) return false; if (mg::fails("file_save")) { return mg::err(&f->error, "file_save"); }
    std::vector<mg::File>& v = mg::store[f->db].gfs[f->prefix]; for (mg::File& o : v) if (bson_oid_equal(&o.oid, &f->f.oid)) { o = f->f; return true; } v.push_back(f->f); f->saved = true; return true; }
mongoc_stream_t* mongoc_stream_gridfs_new(mongoc_gridfs_file_t* f) { if (!mg::use(f, "file", "mongoc_stream_gridfs_new")) return NULL; StubStream* s = new StubStream(); s->file = f; return (mongoc_stream_t*)mg::open(s, "stream"); }
ssize_t mongoc_stream_readv(mongoc_stream_t* s_, mongoc_iovec_t* iov, size_t n, size_t least, int32_t) {
    if (!mg::use(s_, "stream", "mongoc_stream_readv")) return -1; StubStream* s = (StubStream*)s_; if (!mg::use(s->file, "file", "mongoc_stream_readv")) return -1;
    size_t want = 0; for (size_t i = 0; i < n; i++) want += iov[i].iov_len; size_t have = s->file->f.data.size() - s->file->pos; if (want > have) want = have;
    // as the driver: a read ends at the first chunk boundary (255 KB) behind which the least number of bytes is reached
    for (size_t b = (s->file->pos / 261120 + 1) * 261120 - s->file->pos; b < want; b += 261120) if (b >= least) { want = b; break; }
    int w = mg::fails("stream_readv", want ? 2 : 1); if (w == 1) { mg::err(&s->file->error, "stream_readv"); return -1; } if (w == 2) want /= 2;
    size_t done = 0; for (size_t i = 0; i < n && done < want; i++) { size_t k = std::min((size_t)iov[i].iov_len, want - done); memcpy(iov[i].iov_base, s->file->f.data.data() + s->file->pos, k); s->file->pos += k; done += k; } return (ssize_t)done; }
ssize_t mongoc_stream_read(mongoc_stream_t* s, void* b, size_t n, size_t m, int32_t t) { mongoc_iovec_t v; v.iov_base = (char*)b; v.iov_len = n; return mongoc_stream_readv(s, &v, 1, m, t); }
ssize_t mongoc_gridfs_file_readv(mongoc_gridfs_file_t* f, mongoc_iovec_t* iov, size_t n, size_t m, uint32_t t) { StubStream s; s.file = f; mg::open(&s, "stream"); ssize_t r = mongoc_stream_readv((mongoc_stream_t*)&s, iov, n, m, (int32_t)t); mg::close(&s, "stream"); return r; }
void mongoc_stream_destroy(mongoc_stream_t* s) { if (mg::close(s, "stream")) delete (StubStream*)s; }
mongoc_gridfs_file_t* mongoc_gridfs_find_one_by_filename(mongoc_gridfs_t* g, const char* n, bson_error_t* e) { bson_t q = BSON_INITIALIZER; BSON_APPEND_UTF8(&q, "filename", n); mongoc_gridfs_file_t* f = mongoc_gridfs_find_one_with_opts(g, &q, NULL, e); bson_destroy(&q); return f; }
bool mongoc_gridfs_remove_by_filename(mongoc_gridfs_t* g, const char* n, bson_error_t* e) {
    if (!mg::use(g, "gridfs", "mongoc_gridfs_remove_by_filename")) return false; if (mg::fails("remove_by_filename")) return mg::err(e, "remove_by_filename");
    std::vector<mg::File>& v = mg::store[g->db].gfs[g->prefix]; for (size_t i = 0; i < v.size();) if (v[i].named && v[i].name == n) v.erase(v.begin() + i); else i++; return true; }
int64_t mongoc_gridfs_file_get_upload_date(mongoc_gridfs_file_t* f) { return mg::use(f, "file", "mongoc_gridfs_file_get_upload_date") ? 0 : -1; }
const char* mongoc_gridfs_file_get_content_type(mongoc_gridfs_file_t* f) { mg::use(f, "file", "mongoc_gridfs_file_get_content_type"); return NULL; }
int __wrap_usleep(useconds_t) { return 0; }
}
#endif
