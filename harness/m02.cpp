// M02: every operation on the document store with every call of the driver failing (once, twice, or from then on).
#include "db_mongoc.h"
#include "mongo_stub.hpp"
#include "raster.hpp"
using namespace ccgl::db_mongoc;

static const string TWO("ab\0c", 4);
static void quiet() { static bool once = false; if (!once) { once = true; std::cout.setstate(std::ios::failbit); } }
static string meta() { bson_t b = BSON_INITIALIZER; BSON_APPEND_INT32(&b, "K", 1); string s((const char*)bson_get_data(&b), b.len); bson_destroy(&b); return s; }
static void add(const char* name, const string& data, bool m) { string raw = meta(); bson_t b; if (!bson_init_static(&b, (const uint8_t*)raw.data(), raw.size())) abort(); mg::store["db"].gfs["fs"].push_back(mg::make(name, data, m ? &b : NULL)); }
static int count(const char* name, bool k_only = false) { int n = 0; for (mg::File& f : mg::store["db"].gfs["fs"]) n += f.named && f.name == name && (!k_only || f.has_meta); return n; }
static void setup() { mg::reset(); mg::store["db"].colls["c"] = 3; add("a", TWO, true); add("a", "second", false); add("b", "", true); add("long", string(1000, 'L'), false); }

// faults: at most `budget` of the calls fail; a failure may also be permanent
struct Faults {
    mc::X& x; int budget; bool sticky; int sticky_way;
    Faults(mc::X& x_, int b): x(x_), budget(b), sticky(false), sticky_way(0) { mg::fault = [this](const char* call, int ways) { return at(call, ways); }; }
    ~Faults() { mg::fault = nullptr; }
    int at(const char* call, int ways) {
        if (sticky) return std::min(sticky_way, ways);
        if (!budget) return 0;
        int c = x.choose(1 + 2 * ways); if (!c) return 0;
        budget--; int w = (c - 1) % ways + 1; if (c > ways) { sticky = true; sticky_way = w; }
        x.also(" %s fails%s%s;", call, w == 2 ? " halfway" : "", sticky ? " from then on" : ""); return w;
    }
};
static void settle(mc::X& x, const char* op) {
    for (const string& m : mg::misuse) x.fail(string("misuse:") + op, "%s: %s", op, m.c_str());
    if (!mg::live.empty()) x.fail(string("leak:") + op, "%s: not released: %s", op, mg::handles().c_str());
}
// result of an operation: ok means success was reported
static void judge(mc::X& x, const char* op, bool ok, bool right) {
    x.step(); x.outcome(string(op) + (ok ? "1" : "0") + std::to_string(std::min(mg::faults_hit, 9)));
    if (ok && !right) x.fail(string("fabricated:") + op, "%s reported success with a wrong result", op);
    if (!ok && !mg::faults_hit) x.fail(string("refused:") + op, "%s failed although no call failed", op);
}
// ---- 1. connections and names
MC_BODY(client, 1) {
    quiet(); setup(); int op = x.choose(11); x.note("op %d:", op); const char* OP[] = {"Init", "GetDatabaseNames", "GetCollectionNames", "GetCollection", "GetGridFs", "GridFs", "GetGridFsFileNames", "QueryRecordsCount", "MongoDatabase", "Init twice", "absent collection"};
    x.also(" %s:", OP[op]);
    {
        MongoClient* c = nullptr; bool early = op == 0 || op == 9;
        if (!early) { c = MongoClient::Init("127.0.0.1", 27017); if (!c) abort(); mg::faults_hit = 0; }
        {
            Faults f(x, x.thorough ? 4 : 3);
            if (early) { c = MongoClient::Init("127.0.0.1", 27017); judge(x, "Init", c != nullptr, c && c->GetConn() != NULL); if (op == 9) { MongoClient* d = MongoClient::Init("127.0.0.1", 27017); judge(x, "Init", d != nullptr, d && d->GetConn() != NULL); if (d) { d->Destroy(); delete d; } } }
            else if (op == 1) { vector<string> l; c->GetDatabaseNames(l); judge(x, OP[op], !l.empty(), l == vector<string>{"db"}); }
            else if (op == 2) { vector<string> l; c->GetCollectionNames("db", l); std::set<string> g(l.begin(), l.end()); judge(x, OP[op], !l.empty(), g == std::set<string>{"c", "fs", "fs.chunks", "fs.files"}); }
            else if (op == 8) { vector<string> l; { MongoDatabase d(c->GetDatabase("db")); d.GetCollectionNames(l); } std::set<string> g(l.begin(), l.end()); judge(x, OP[op], !l.empty(), g == std::set<string>{"c", "fs", "fs.chunks", "fs.files"}); }
            else if (op == 3) { mongoc_collection_t* k = c->GetCollection("db", "c"); judge(x, OP[op], k != NULL, true); if (k) mongoc_collection_destroy(k); }
            else if (op == 10) { mongoc_collection_t* k = c->GetCollection("db", "none"); if (k) { x.fail("fabricated:GetCollection", "a collection that does not exist"); mongoc_collection_destroy(k); } }
            else if (op == 4) { mongoc_gridfs_t* g = c->GetGridFs("db", "fs"); judge(x, OP[op], g != NULL, true); if (g) mongoc_gridfs_destroy(g); }
            else if (op == 5) {
                MongoGridFs* g = c->GridFs("db", "fs"); bool ok = g && g->GetGridFs(); judge(x, OP[op], ok, true);
                if (g && !ok) {                // an object without a bucket refuses everything
                    Faults none(x, 0); char* b = nullptr; vint n = 0; vector<string> l; char t[2] = "t"; char* p = t; g->GetFileNames(l); bson_t* m = g->GetFileMetadata("a");
                    if (g->GetFile("a") || g->RemoveFile("a") || !l.empty() || m || g->GetStreamData("a", b, n) || g->WriteStreamData("a", p, 1, NULL)) x.fail("fabricated:GridFs", "an operation without a bucket succeeded");
                }
                delete g;
            }
            else if (op == 6) { vector<string> l; c->GetGridFsFileNames("db", "fs", l); std::set<string> g(l.begin(), l.end()); judge(x, OP[op], !l.empty(), g == std::set<string>{"a", "b", "long"}); }
            else if (op == 7) { mongoc_collection_t* k = c->GetCollection("db", "c"); if (k) { vint n; { MongoCollection q(k); n = q.QueryRecordsCount(); } judge(x, OP[op], n >= 0, n == 3); } else judge(x, OP[op], false, false); }
        }
        if (c) { c->Destroy(); delete c; }
    }
    settle(x, OP[op]); mg::reset();
}
// ---- 2. files
MC_BODY(files, 8) {
    quiet(); setup(); int op = x.choose(6), name = x.choose(4), filt = x.choose(2), held = x.choose(2); if (!x.mine()) return;
    static const char* OP[] = {"GetFile", "RemoveFile", "GetFileNames", "GetFileMetadata", "GetStreamData", "WriteStreamData"}; static const char* NAME[] = {"a", "b", "long", "none"};
    if ((op == 2 && (name || filt)) || (op == 5 && filt > 1)) return;
    x.note("%s %s%s%s:", OP[op], NAME[name], filt ? " {K=1}" : "", held ? "" : ", bucket per call"); string nm = NAME[name]; STRING_MAP o; if (filt) o["K"] = "1";
    { MongoClient* c = MongoClient::Init("127.0.0.1", 27017); if (!c) abort(); mongoc_gridfs_t* raw = c->GetGridFs("db", "fs");
        MongoGridFs* g = held ? new MongoGridFs(raw) : new MongoGridFs(); mongoc_gridfs_t* e = held ? NULL : raw;
        vector<string> want; for (mg::File& f : mg::store["db"].gfs["fs"]) if (f.name == nm && (!filt || f.has_meta)) want.push_back(f.data);
        bool exists = !want.empty(); size_t total = mg::store["db"].gfs["fs"].size();
        for (int round = 0; round < 2; round++) {          // with failures, then without
            Faults f(x, round ? 0 : (x.thorough ? 4 : 3)); mg::faults_hit = 0;
            if (op == 0) { mongoc_gridfs_file_t* h = g->GetFile(nm, e, o); if (exists) judge(x, OP[op], h != NULL, h && h->f.name == nm); else if (h) x.fail("fabricated:GetFile", "a file that does not exist"); if (h) mongoc_gridfs_file_destroy(h); }
            else if (op == 1) {
                bool ok = g->RemoveFile(nm, e, o); judge(x, OP[op], ok, count(NAME[name], filt) == 0);
                size_t left = mg::store["db"].gfs["fs"].size(); if (left < total - want.size()) x.fail("removed-others", "other files were removed"); if (round && ok && left != total - want.size()) x.fail("removed-others", "%zu of %zu files are left", left, total);
            }
            else if (op == 2) { vector<string> l; g->GetFileNames(l, e); std::set<string> s(l.begin(), l.end()); judge(x, OP[op], !l.empty(), s == std::set<string>{"a", "b", "long"}); }
            else if (op == 3) {
                bson_t* m = g->GetFileMetadata(nm, e, o); bool should = false; for (mg::File& q : mg::store["db"].gfs["fs"]) if (q.name == nm && (!filt || q.has_meta)) { should = q.has_meta; break; }
                if (exists && should) judge(x, OP[op], m != NULL, m && (string((const char*)bson_get_data(m), m->len) == meta() || (!filt && m->len == 5))); else if (m && m->len > 5) x.fail("fabricated:GetFileMetadata", "metadata of a file without"); if (m) bson_destroy(m);
            }
            else if (op == 4) {
                char* b = nullptr; vint n = -7; bool ok = g->GetStreamData(nm, b, n, e, filt ? &o : nullptr); bool right = false; for (const string& w : want) right = right || (b && n == (vint)w.size() && !memcmp(b, w.data(), n));
                if (exists) judge(x, OP[op], ok, right); else if (ok) x.fail("fabricated:GetStreamData", "data of a file that does not exist");
                if (!ok && b) x.fail("fabricated:GetStreamData", "a buffer after a failure"); delete[] b;
            }
            else {
                string nn = nm + (round ? "2" : "1"); string d = name == 1 ? string() : TWO; char* p = d.empty() ? (char*)"" : &d[0]; bson_t q = BSON_INITIALIZER; BSON_APPEND_INT32(&q, "K", 1); vector<mg::File>& v = mg::store["db"].gfs["fs"]; size_t n0 = v.size();
                bool ok = g->WriteStreamData(nn, p, (vint)d.size(), filt ? &q : NULL, e); bool right = v.size() == n0 + 1 && v.back().name == nn && v.back().data == (name == 1 ? string() : TWO) && v.back().has_meta == (filt != 0); judge(x, OP[op], ok, right);
                if (!ok && v.size() > n0 && v.back().data != (name == 1 ? string() : TWO)) x.fail("partial:WriteStreamData", "a file with other contents was stored after a failure"); bson_destroy(&q);
            }
        }
        delete g; if (!held) mongoc_gridfs_destroy(raw); c->Destroy(); delete c; }
    settle(x, OP[op]); mg::reset();
}
// ---- memory: the same with the balance of memory blocks (operations repeated, so that nothing is allocated for good)
MC_BODY(memory, 8) {
    quiet(); setup(); int op = x.choose(12), nf = x.choose(9); if (!x.mine()) return; x.note("op %d, call %d fails:", op, nf);
    MongoClient* c = MongoClient::Init("127.0.0.1", 27017); if (!c) abort(); mongoc_gridfs_t* raw = c->GetGridFs("db", "fs"); 
    for (int round = 0; round < 4; round++) {
        setup(); mg::open(c->GetConn(), "client"); mg::open(raw, "gridfs"); int n = 0; mg::fault = [&](const char*, int) { return ++n == nf ? 1 : 0; }; size_t m0 = mc::live_blocks();
        { MongoGridFs g; STRING_MAP o; o["K"] = "1"; vector<string> l; char* b = nullptr; vint len = 0; char t[4] = "abc"; char* p = t;
          if (op == 0) { mongoc_gridfs_file_t* h = g.GetFile("a", raw, o); mongoc_gridfs_file_destroy(h); } else if (op == 1) { g.GetFileNames(l, raw); } else if (op == 2) { bson_t* m = g.GetFileMetadata("a", raw, o); bson_destroy(m); }
          else if (op == 3) { g.GetStreamData("a", b, len, raw, &o); delete[] b; } else if (op == 4) { c->GetDatabaseNames(l); } else if (op == 5) { c->GetCollectionNames("db", l); } else if (op == 6) { mongoc_collection_t* k = c->GetCollection("db", "c"); if (k) { MongoCollection q(k); q.QueryRecordsCount(); } }
          else if (op == 7) { c->GetGridFsFileNames("db", "fs", l); } else if (op == 8) { g.GetStreamData("none", b, len, raw); delete[] b; } else if (op == 9) g.RemoveFile("a", raw, o); else if (op == 10) g.RemoveFile("a", raw); else g.WriteStreamData("new", p, 3, NULL, raw); }
        mg::fault = nullptr; string left = mg::live.size() > 2 ? mg::handles() : string(); setup(); mg::open(c->GetConn(), "client"); mg::open(raw, "gridfs"); size_t m1 = mc::live_blocks(); x.step();
        if (round == 3 && !left.empty()) x.fail("leak", "operation %d with call %d failing: not released: %s", op, nf, left.c_str()); else if (round == 3 && m1 > m0 + (left.empty() ? 0 : 1)) x.fail("memory", "operation %d with call %d failing keeps %zu memory blocks", op, nf, m1 - m0);
    }
    mongoc_gridfs_destroy(raw); c->Destroy(); delete c; mg::reset();
}
