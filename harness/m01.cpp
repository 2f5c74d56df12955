// M01: histories of storing, removing and reading files in GridFS against a plain list of stored versions; names of
// databases, collections and files.
#include "db_mongoc.h"
#include "mongo_stub.hpp"
using namespace ccgl; using namespace ccgl::db_mongoc;
using std::string; using std::vector; using std::map;

static string bson_of(int m) {           // metadata variants; 0: none
    bson_t b = BSON_INITIALIZER; if (m == 1) BSON_APPEND_INT32(&b, "K", 1); else if (m == 2) { BSON_APPEND_UTF8(&b, "K", "x"); BSON_APPEND_DOUBLE(&b, "L", 2.5); } else if (m == 3) BSON_APPEND_UTF8(&b, "K", "1x");
    string s((const char*)bson_get_data(&b), b.len); bson_destroy(&b); return s;
}
struct V { string name, data; int meta; bool named; };                       // a stored version
static STRING_MAP filter(int f) { STRING_MAP o; if (f == 1) o["K"] = "1"; else if (f == 2) o["K"] = "x"; else if (f == 3) { o["K"] = "x"; o["L"] = "2.5"; } else if (f == 4) o["Z"] = "1"; else if (f == 5) { o["K"] = "1"; o["L"] = "2.5"; } return o; }
static bool matches(const V& v, const string& n, int f) { return v.named && v.name == n && (f == 0 || (f == 1 && v.meta == 1) || ((f == 2 || f == 3) && v.meta == 2)); }
static const vector<string>& names() { static vector<string> v = {"a", "ab", "0_a.x", "b"}; return v; }       // the last is never stored
static const vector<string>& datas() { static vector<string> v = {string("ab\0c", 4), string(), string(1, '\0')}; return v; }
static const char* FNAME[6] = {"", "K=1", "K=x", "K=x,L=2.5", "Z=1", "K=1,L=2.5"};

static void read_all(mc::X& x, MongoGridFs* g, mongoc_gridfs_t* extra, const vector<V>& model, const char* where) {
    for (size_t n = 0; n < names().size(); n++) for (int f = 0; f < 6; f++) {
        const string& nm = names()[n]; vector<const V*> c; for (const V& v : model) if (matches(v, nm, f)) c.push_back(&v);
        string w = string(where) + nm + " {" + FNAME[f] + "}"; STRING_MAP o = filter(f); x.step(3);
        mongoc_gridfs_file_t* h = g->GetFile(nm, extra, o);
        if ((h != NULL) != !c.empty()) x.fail("getfile", "GetFile %s %s", w.c_str(), h ? "found a file that is not stored" : "did not find the stored file");
        if (h) { if (h->f.name != nm) x.fail("getfile", "GetFile %s returned the file %s", w.c_str(), h->f.name.c_str()); mongoc_gridfs_file_destroy(h); }
        char* buf = nullptr; vint len = -7; bool r = f == 0 && (n & 1) ? g->GetStreamData(nm, buf, len, extra) : g->GetStreamData(nm, buf, len, extra, &o);
        if (r != !c.empty()) x.fail("read", "GetStreamData %s reported %s with %zu stored versions", w.c_str(), r ? "success" : "failure", c.size());
        else if (r) {
            bool hit = false; for (const V* v : c) hit = hit || (buf && len == (vint)v->data.size() && !memcmp(buf, v->data.data(), len));
            if (!hit) x.fail("read", "GetStreamData %s returned %d bytes that are no stored version", w.c_str(), (int)len);
        } else if (buf) x.fail("read", "GetStreamData %s failed and returned a buffer", w.c_str());
        delete[] buf;
        bson_t* m = g->GetFileMetadata(nm, extra, o); bool hit = false;
        string got = m ? string((const char*)bson_get_data(m), m->len) : string();
        if (m) bson_destroy(m);
        for (const V* v : c) hit = hit || (m ? (v->meta ? got == bson_of(v->meta) : got == bson_of(-1)) : v->meta == 0);
        if (c.empty() ? m != NULL : !hit) x.fail("metadata", "GetFileMetadata %s returned %s", w.c_str(), m ? "other metadata than stored" : "nothing");
    }
    vector<string> l; g->GetFileNames(l, extra); std::set<string> got(l.begin(), l.end()), want; for (const V& v : model) if (v.named) want.insert(v.name);
    if (got != want) { string t; for (const string& s : got) t += s + " "; x.fail("list", "%sGetFileNames: %s", where, t.c_str()); }
}
static void balance(mc::X& x, const char* what) {
    for (const string& m : mg::misuse) x.fail("misuse", "%s: %s", what, m.c_str());
    if (!mg::live.empty()) x.fail("leak", "%s: not released: %s", what, mg::handles().c_str());
}
static void quiet() {                      // once per process: no output, and what is allocated once and kept
    static bool once = false; if (once) return; once = true; std::cout.setstate(std::ios::failbit); mg::reset(); names(); datas();
    MongoClient* c = MongoClient::Init("127.0.0.1", 27017); if (!c) return; MongoGridFs* g = c->GridFs("db", "fs"); char t[2] = "q"; char* p = t; vint n; vector<string> l;
    if (g) { for (int i = 0; i < 2; i++) { g->WriteStreamData("a", p, 1, NULL); g->GetFileNames(l); char* b = nullptr; if (g->GetStreamData("a", b, n)) delete[] b; b = nullptr; g->GetStreamData("zz", b, n, NULL, nullptr); bson_destroy(g->GetFileMetadata("a")); g->RemoveFile("a"); } delete g; }
    c->Destroy(); delete c; mg::reset();
}

static void history(mc::X& x, int depth, bool rich) {
    quiet(); mg::reset(); size_t b0 = 0;
    int how = x.choose(2); int n = depth; vector<V> one, two;
    if (depth > 1) n = depth; x.note("%s:", how ? "gridfs given per call" : "gridfs held");
    b0 = mc::live_blocks();
    {
        MongoClient* c = MongoClient::Init("127.0.0.1", 27017); if (!c) { x.fail("init", "no client"); return; }
        MongoGridFs* g = how ? new MongoGridFs() : c->GridFs("db", "fs"); mongoc_gridfs_t* extra = how ? c->GetGridFs("db", "fs") : NULL; MongoGridFs* g2 = c->GridFs("db", "fs2");
        if (!g || !g2) { x.fail("init", "no GridFS"); return; }
        bool foreign = false; int nn = 3, nd = rich ? 3 : 2, nm = rich ? 4 : 3, nw = nn * nd * nm, nr = 4 * 4, total = nw + nr + 3;
        for (int i = 0; i < n; i++) {
            int op = x.choose(total); if (i == 0 && !x.mine()) { foreign = true; break; }
            if (op < nw) {
                string nmv = names()[op % nn], d = datas()[op / nn % nd]; int m = op / nn / nd; x.also(" store %s/%zu/m%d;", nmv.c_str(), d.size(), m);
                string raw = m ? bson_of(m) : string(); bson_t b; if (m && !bson_init_static(&b, (const uint8_t*)raw.data(), raw.size())) abort();
                string copy = d; char* p = d.empty() ? (char*)"" : &copy[0]; x.step();
                if (!g->WriteStreamData(nmv, p, (vint)d.size(), m ? &b : NULL, extra)) x.fail("store", "storing failed"); else one.push_back(V{nmv, d, m, true});
                if (copy != d) x.fail("store", "the given buffer was changed");
            } else if (op < nw + nr) {
                int k = op - nw; string nmv = names()[k % 4]; int f = k / 4; if (f == 3) f = 4; x.also(" remove %s{%s};", nmv.c_str(), FNAME[f]); x.step();
                if (!g->RemoveFile(nmv, extra, filter(f))) x.fail("remove", "removing failed");
                for (size_t j = 0; j < one.size();) if (matches(one[j], nmv, f)) one.erase(one.begin() + j); else j++;
            } else if (op == nw + nr) { x.also(" another client stores a file without a name;"); mg::File f = mg::make("", "zz", NULL); f.named = false; mg::store["db"].gfs["fs"].push_back(f); one.push_back(V{"", "zz", 0, false}); }
            else if (op == nw + nr + 1) { x.also(" another client stores a without metadata under an id of its own;"); mg::File f = mg::make("a", "foreign", NULL); f.foreign_id = true; mg::store["db"].gfs["fs"].push_back(f); one.push_back(V{"a", "foreign", 0, true}); }
            else { x.also(" store a in another bucket;"); char t[3] = "q"; char* p = t; x.step(); if (!g2->WriteStreamData("a", p, 1, NULL)) x.fail("store", "storing in the other bucket failed"); else two.push_back(V{"a", "q", 0, true}); }
        }
        if (!foreign) { read_all(x, g, extra, one, ""); read_all(x, g2, NULL, two, "other bucket: ");
            vector<string> l; c->GetGridFsFileNames("db", "fs", l); std::set<string> got(l.begin(), l.end()), want; for (const V& v : one) if (v.named) want.insert(v.name);
            if (got != want) x.fail("list", "GetGridFsFileNames returned %zu names", l.size()); }
        delete g; delete g2; if (extra) mongoc_gridfs_destroy(extra); c->Destroy(); delete c;
    }
    balance(x, "at the end"); mg::reset(); uint64_t h = two.size(); for (const V& v : one) h = h * 131 + v.name.size() * 7 + v.data.size() * 31 + v.meta;
    { vector<V>().swap(one); vector<V>().swap(two); }
    size_t b1 = mc::live_blocks();
    if (b1 > b0) x.fail("memory", "%zu memory blocks not released", b1 - b0);
    x.outcome(h);
}
MC_BODY(history0, 1) { x.mine(); history(x, 0, true); }
MC_BODY(history1, 1) { history(x, 1, true); }
MC_BODY(history2, 8) { history(x, 2, true); }
MC_BODY(history3, 64) { history(x, 3, x.thorough); }
static void history4(mc::X& x) { history(x, 4, false); }
static mc::Reg reg_history4("history4", history4, 256, 60, true);

// ---- names of databases, collections and buckets
MC_BODY(listing, 8) {
    quiet(); mg::reset(); static const vector<string> plain = {"c", "files", "a.files", "a.chunks", "d.e", "x.y.files"}, bucket = {"fs", "p.q", "a"};
    int set = x.choose(64), bs = x.choose(8), other = x.choose(2); if (!x.mine()) return;
    for (int i = 0; i < 6; i++) if (set >> i & 1) mg::store["db"].colls[plain[i]] = i;
    for (int i = 0; i < 3; i++) if (bs >> i & 1) for (int k = 0; k <= i; k++) mg::store["db"].gfs[bucket[i]].push_back(mg::make("f" + std::to_string(k), "1", NULL));
    if (other) mg::store["other"].colls["o"] = 3;
    x.note("collections %d buckets %d other %d", set, bs, other);
    size_t b0 = mc::live_blocks(), b1; 
    {
        MongoClient* c = MongoClient::Init("localhost", 27017); if (!c) { x.fail("init", "no client"); return; }
        vector<string> v = {"old"}, w; c->GetDatabaseNames(v); x.step(); std::set<string> got(v.begin(), v.end()), want; if (set || bs) want.insert("db"); if (other) want.insert("other");
        if (got != want || v.size() != got.size()) x.fail("databases", "GetDatabaseNames returned %zu names", v.size());
        std::set<string> raw; { vector<string> r = stub_colls("db"); raw.insert(r.begin(), r.end()); } want = raw;
        for (const string& s : raw) if (s.size() > 6 && s.substr(s.size() - 6) == ".files" && raw.count(s.substr(0, s.size() - 6) + ".chunks")) want.insert(s.substr(0, s.size() - 6));
        for (int i = 0; i < 3; i++) {
            v = {"old"}; if (i == 0) c->GetCollectionNames("db", v); else if (i == 1) { MongoDatabase d(c->GetDatabase("db")); d.GetCollectionNames(v); } else { string n = "db"; MongoDatabase d(c->GetConn(), n); d.GetCollectionNames(v); }
            x.step(); got = std::set<string>(v.begin(), v.end()); string t; for (const string& s : v) t += s + " ";
            if (got != want) x.fail("collections", "GetCollectionNames: %s", t.c_str());
        }
        for (const string& n : plain) for (int db = 0; db < 2; db++) {
            string dn = db ? "other" : "db"; bool has = !db && raw.count(n); mongoc_collection_t* k = c->GetCollection(dn, n); x.step();
            if ((k != NULL) != has) x.fail("collection", "GetCollection(%s, %s) %s", dn.c_str(), n.c_str(), k ? "found" : "not found");
            if (k) { MongoCollection mc_(k); size_t i = 0; while (plain[i] != n) i++; bool colls = set >> i & 1; vint cnt = mc_.QueryRecordsCount(); vint exp = colls ? (vint)i : -5; if (exp >= 0 && cnt != exp) x.fail("count", "%d records in %s", (int)cnt, n.c_str());
                bson_t q = BSON_INITIALIZER; mongoc_cursor_t* cur = mc_.ExecuteQuery(&q); if (!cur) x.fail("query", "no cursor"); mongoc_cursor_destroy(cur); bson_destroy(&q); }
        }
        for (int i = 0; i < 3; i++) { vector<string> l; c->GetGridFsFileNames("db", bucket[i], l); x.step(); std::set<string> g(l.begin(), l.end()), wn; if (bs >> i & 1) for (int k = 0; k <= i; k++) wn.insert("f" + std::to_string(k)); if (g != wn) x.fail("list", "GetGridFsFileNames of %s: %zu names", bucket[i].c_str(), l.size()); }
        c->Destroy(); delete c;
    }
    // the store itself may have gained empty entries
    balance(x, "at the end"); b1 = mc::live_blocks(); (void)b0; (void)b1; mg::reset();
}
// ---- contents around and beyond the size of a chunk
MC_BODY(large, 8) {
    quiet(); mg::reset(); static const int N[] = {255, 256, 32767, 32768, 65535, 65536, 70000, 261119, 261120, 261121, 522239, 522240, 522241, 800000, 3000001}; int n = N[x.choose(15)], fill = x.choose(3), older = x.choose(4), how = x.choose(2); if (!x.mine()) return;
    x.note("%d bytes, fill %d, older version %d, gridfs %s", n, fill, older, how ? "given per call" : "held"); string d((size_t)n, '\0'), o = older ? d.substr(0, older == 1 ? n / 2 : n) : string(); if (older == 3) o += "tail";
    for (int i = 0; i < n; i++) d[i] = fill == 0 ? (char)(i * 31 + i / 256) : fill == 1 ? (char)0 : (char)(i % 2 ? 0xff : '\n');
    MongoClient* c = MongoClient::Init("127.0.0.1", 27017); if (!c) { x.fail("init", "no client"); return; }
    MongoGridFs* g = how ? new MongoGridFs() : c->GridFs("db", "fs"); mongoc_gridfs_t* extra = how ? c->GetGridFs("db", "fs") : NULL;
    if (older) { char* p = &o[0]; if (!g->WriteStreamData("a", p, (vint)o.size(), NULL, extra)) x.fail("store", "storing failed"); STRING_MAP none; g->RemoveFile("a", extra, none); }
    { string w = d; char* p = &w[0]; x.step(); if (!g->WriteStreamData("a", p, n, NULL, extra)) x.fail("store", "storing failed"); if (w != d) x.fail("store", "the given buffer was changed"); }
    { string w = "other"; char* p = &w[0]; if (!g->WriteStreamData("b", p, 5, NULL, extra)) x.fail("store", "storing failed"); }
    for (int k = 0; k < 2; k++) { char* buf = nullptr; vint len = -7; bool r = g->GetStreamData("a", buf, len, extra); x.step(); if (!r) x.fail("read", "the stored file was not read"); else if (len != n || memcmp(buf, d.data(), (size_t)n)) x.fail("read", "%d bytes or other contents read", (int)len); delete[] buf; }
    vector<string> l; g->GetFileNames(l, extra); MC_EQ(x, "list-large", l.size(), (size_t)2);
    delete g; if (extra) mongoc_gridfs_destroy(extra); c->Destroy(); delete c; balance(x, "at the end"); mg::reset(); x.outcome(n);
}
