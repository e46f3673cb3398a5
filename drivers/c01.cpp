// Random histories on memory pools (the controllers, the recycling pool itself, plain device memory).
#include "fakedev.h"
#include "core/controller.h"
#include "core/hard_memory.h"
#include "memory/flow.h"
#include "memory/orz/vat.h"
using namespace ts;
using namespace vf;
typedef std::vector<int> VI;
struct Pool { int kind; std::shared_ptr<MemoryController> c; std::shared_ptr<Vat> v; int dev; };
struct Handle { int k; Memory m; void *p; size_t n; int refs; int tag; std::vector<Memory> copies; };
static std::map<int, Pool> pools;
static std::map<int, Handle> hs;
static std::map<int, std::shared_ptr<HardMemory>> hm;
static char *base(Handle &h) { return h.p ? static_cast<char *>(h.p) : h.copies.empty() ? nullptr : h.copies[0].data<char>(); }
static void emit(J j) {
    std::vector<Raw> obs, objs;
    for (auto &x : hs) {
        char *p = base(x.second); int got = -1;
        if (x.second.n && p) { got = (unsigned char) p[0]; for (size_t i = 0; i < x.second.n; ++i) if ((unsigned char) p[i] != got) { got = -2; break; } }
        obs.push_back(J().f("m", x.first).f("got", got).f("b", p ? fake().block(p) : 0).raw());
    }
    for (auto &x : hm) {
        auto &o = *x.second; const char *p = o.data<char>(); int run = 0; int first = -1;
        if (p && o.capacity()) { first = (unsigned char) p[0]; for (size_t i = 0; i < o.capacity() && (unsigned char) p[i] == first; ++i) ++run; }
        objs.push_back(J().f("o", x.first).f("first", first).f("run", run).f("b", p ? fake().block(p) : 0).f("cap", p ? o.capacity() : 0).raw());
    }
    j.f("hard", fake().take()).f("obs", obs).f("objs", objs).f("held", fake().held()).emit();
}
int main(int argc, char **argv) {
    vf::open(argv[1]);
    Rng r(atoi(argv[2]));
    int rounds = atoi(argv[3]), steps = atoi(argv[4]);
    install_fake();
    auto sz = [&]() -> size_t { return r.p(5) ? 0 : r.p(50) ? r.in(1, 8) : r.in(1, 40); };
    for (int round = 0; round < rounds; ++round) {
        int nk = 0, nm = 0, no = 0; pools.clear(); hs.clear(); hm.clear(); fake().take();
        J("reset").f("hard", std::vector<int>()).emit();
        std::map<int, void *> gone; int mix = r(3);                                    // which kinds this round uses
        auto pick_pool = [&](int kind) { VI c; for (auto &x : pools) if (kind < 0 || x.second.kind == kind) c.push_back(x.first); return c.empty() ? 0 : r.pick(c); };
        auto pick_h = [&]() { VI c; for (auto &x : hs) c.push_back(x.first); return c.empty() ? 0 : r.pick(c); };
        auto pick_o = [&]() { VI c; for (auto &x : hm) c.push_back(x.first); return c.empty() ? 0 : r.pick(c); };
        auto drop = [&](int m) {
            Handle &h = hs[m]; int k = h.k;
            bool last = h.refs == 1; std::string e;
            if (h.p) { void *p = h.p; gone[k] = p; e = guard([&] { pools[k].v->free(p); }); }
            else h.copies.pop_back();
            if (--h.refs == 0) hs.erase(m);
            emit(J("drop").f("m", m).f("last", last).f("err", e));
        };
        for (int s = 0; s < steps; ++s) {
            int op = r(20);
            if (pools.empty() || op == 0) {
                if (pools.size() >= 3) continue;
                int k = ++nk, kind = mix == 2 ? r(3) : mix == 1 ? 1 : 0; Pool p; p.kind = kind; p.dev = r(2);
                MemoryDevice d("fake", p.dev);
                if (kind == 0) p.c = std::make_shared<FlowMemoryController>(d);
                else if (kind == 2) p.c = std::make_shared<DynamicMemoryController>(d);
                else { int dev = p.dev; p.v = std::make_shared<Vat>([dev](size_t n) { return std::shared_ptr<void>(fake_malloc(dev, n), [dev](void *q) { fake_free(dev, q); }); }); }
                pools[k] = p;
                emit(J("new").f("k", k).f("kind", kind).f("d", p.dev));
            } else if (op < 7) {
                int k = pick_pool(-1), m = ++nm; size_t n = sz(); bool fl = r.p(6);
                Pool &p = pools[k]; Handle h; h.k = k; h.p = nullptr; h.n = n; h.refs = 1; h.tag = 0;
                if (fl) fake().fail = 1;
                std::string e = guard([&] { if (p.v) h.p = p.v->malloc(n); else { h.copies.push_back(p.c->alloc(n)); } });
                bool failed = fl && fake().fail == 0; fake().fail = 0;
                int b = 0, off = 0; size_t size = 0; int dev = p.dev;
                if (e.empty()) {
                    void *q = p.v ? h.p : h.copies[0].data(); size = p.v ? n : h.copies[0].size();
                    b = q ? fake().block(q) : 0; off = q ? int(fake().offset(q)) : 0; dev = p.v ? p.dev : h.copies[0].device().id();
                    if (!p.v || h.p) hs[m] = h;
                }
                emit(J("alloc").f("k", k).f("m", m).f("n", n).f("failed", failed).f("err", e).f("b", b).f("off", off).f("size", size).f("d", dev).f("keep", hs.count(m) > 0));
            } else if (op < 10) {
                int m = pick_h(); if (!m) continue;
                Handle &h = hs[m]; int tag = r.in(1, 200); char *p = base(h); if (p) std::memset(p, tag, h.n); h.tag = tag;
                emit(J("write").f("m", m).f("tag", tag));
            } else if (op < 11) {
                int m = pick_h(); if (!m || hs[m].p) continue;
                hs[m].copies.push_back(hs[m].copies[0]); ++hs[m].refs;
                emit(J("share").f("m", m));
            } else if (op < 15) {
                int m = pick_h(); if (!m) continue;
                drop(m);
            } else if (op < 16) {
                int k = pick_pool(-1); if (!k || pools[k].kind == 2) continue;
                auto sum = pools[k].v ? pools[k].v->summary() : pools[k].c->summary();
                emit(J("summary").f("k", k).f("sum", sum));
            } else if (op < 17) {
                int k = pick_pool(1);
                if (!k || r.p(40)) {                          // release a pool
                    k = pick_pool(-1); Pool p = pools[k];
                    if (p.v) {
                        for (auto it = hs.begin(); it != hs.end();) if (it->second.k == k) it = hs.erase(it); else ++it;   // its blocks go with it
                    }
                    pools.erase(k); p.c.reset(); p.v.reset();
                    emit(J("release").f("k", k));
                } else switch (r(7)) {
                    case 0: { for (auto it = hs.begin(); it != hs.end();) if (it->second.k == k) it = hs.erase(it); else ++it;
                        pools[k].v->reset(); emit(J("vreset").f("k", k)); break; }
                    case 1: { for (auto it = hs.begin(); it != hs.end();) if (it->second.k == k) it = hs.erase(it); else ++it;
                        pools[k].v->dispose(); emit(J("vdispose").f("k", k)); break; }
                    case 2: pools[k].v->clean(); emit(J("vclean").f("k", k)); break;
                    case 3: { char c; int m = pick_h(); void *p = m && r.p(50) ? base(hs[m]) + 1 : &c; if (m && !base(hs[m])) p = &c;
                        if (gone.count(k) && r.p(50)) { p = gone[k]; for (auto &x : hs) if (base(x.second) == p) p = &c; }   // released already   // not a block of this pool
                        std::string e = guard([&] { pools[k].v->free(p); }); emit(J("foreign").f("k", k).f("err", e)); break; }
                    case 4: { int j = pick_pool(1); if (j == k) break; pools[k].v->swap(*pools[j].v); std::swap(pools[k].dev, pools[j].dev);
                        for (auto &x : hs) if (x.second.k == k) x.second.k = j; else if (x.second.k == j) x.second.k = k;
                        emit(J("vswap").f("k", k).f("j", j)); break; }
                    case 5: { auto v = std::make_shared<Vat>(std::move(*pools[k].v)); pools[k].v = v; emit(J("vmove").f("k", k)); break; }
                    case 6: { VI own; for (auto &x : hs) if (x.second.k == k) own.push_back(x.first);
                        // the pool stays for its blocks only
                        pools[k].v->deprecated(); emit(J("vdeprecated").f("k", k));
                        while (!own.empty()) { int i = r(int(own.size())); drop(own[i]); own.erase(own.begin() + i); }
                        pools.erase(k); emit(J("release").f("k", k)); break; }
                }
            } else {                                       // plain device memory
                int o = pick_o();
                if (!o || r.p(20)) {
                    if (hm.size() >= 3) continue;
                    o = ++no; int d = r(2); size_t n = r.p(20) ? 0 : sz(); hm[o] = r.p(50) ? std::make_shared<HardMemory>(MemoryDevice("fake", d), n) : [&] { auto x = std::make_shared<HardMemory>(MemoryDevice("fake", d)); x->resize(n); return x; }();
                    emit(J("hnew").f("o", o).f("n", n).f("d", d));
                    continue;
                }
                HardMemory &x = *hm[o]; size_t n = sz(); bool fl = r.p(8); int w = r(9); std::string e; bool failed;
                auto run = [&](std::function<void()> f) { if (fl) fake().fail = 1; e = guard(f); failed = fl && fake().fail == 0; fake().fail = 0; };
                if (w == 0) { run([&] { x.resize(n); }); emit(J("hresize").f("o", o).f("n", n).f("failed", failed).f("err", e)); }
                else if (w == 1) { run([&] { x.expect(n); }); emit(J("hexpect").f("o", o).f("n", n).f("failed", failed).f("err", e)); }
                else if (w == 2) { if (n == 0) n = 1; run([&] { x.shrink(n); }); emit(J("hshrink").f("o", o).f("n", n).f("failed", failed).f("err", e)); }
                else if (w == 3) { x.dispose(); emit(J("hdispose").f("o", o)); }
                else if (w == 4) { hm.erase(o); emit(J("hdelete").f("o", o)); }
                else if (w == 5) { int p = pick_o(); if (r.p(50)) x.swap(*hm[p]); else ts::swap(x, *hm[p]); emit(J("hswap").f("o", o).f("p", p)); }
                else if (w == 6) { int p = pick_o(); if (p == o) continue; x = std::move(*hm[p]); hm.erase(p); emit(J("hassign").f("o", o).f("p", p)); }
                else if (w == 7) { int p = ++no; hm[p] = std::make_shared<HardMemory>(std::move(x)); hm.erase(o); emit(J("hmove").f("o", o).f("p", p)); }
                else { int tag = r.in(1, 200); if (x.data() && x.capacity()) { std::memset(x.data(), tag, x.capacity()); } emit(J("hwrite").f("o", o).f("tag", tag)); }
            }
        }
        // pools and blocks go in random order; nothing may be left
        while (!pools.empty() || !hs.empty()) {
            int k = pick_pool(-1), m = pick_h();
            if (m && (k == 0 || r.p(50))) { drop(m); continue; }
            if (pools[k].v) { bool own = false; for (auto &x : hs) if (x.second.k == k) own = true; if (own) continue; }
            Pool p = pools[k]; pools.erase(k); p.c.reset(); p.v.reset();
            emit(J("release").f("k", k));
        }
        hm.clear();
        emit(J("end"));
    }
    return 0;
}
