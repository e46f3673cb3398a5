// Random histories on memory shared between devices.
#include "fakedev.h"
#include <thread>
#include "perturb.h"
#include "core/tensor.h"
#include "core/tensor_builder.h"
#include "core/sync/sync_memory.h"
#include "core/sync/sync_controller.h"
#include "memory/flow.h"
using namespace ts;
using namespace vf;
typedef std::vector<int> VI;
// device 0: the host, 1, 2: devices of ours
static MemoryDevice dev(int d) { return d == 0 ? MemoryDevice(CPU, 0) : MemoryDevice("fake", d - 1); }
static int num(const MemoryDevice &d) { return d.type() == DeviceType(CPU) ? 0 : d.id() + 1; }
struct H { int g; bool tensor; SyncMemory m; Tensor t; size_t n; };
static std::map<int, H> hs;
static std::vector<Tensor> parts(const H &h) { return h.t.unpack(); }
static VI content(const H &h) {
    VI r;
    auto one = [&](const unsigned char *p, size_t n) { for (size_t i = 0; i < n; ++i) r.push_back(p[i]); };
    if (!h.tensor) one(h.m.data<unsigned char>(), h.n);
    else for (auto &f : parts(h)) one(f.data<unsigned char>(), size_t(f.count()));
    return r;
}
static int device(const H &h) { return num(h.tensor ? h.t.device() : h.m.device()); }
static std::map<void *, int> cpu_names; static int next_cpu;
// storage of each part: ours by block number, the host's by address
static VI where(const H &h) {
    VI r;
    auto one = [&](void *p) { int b = fake().block(p); if (b == 0) { if (!cpu_names.count(p)) cpu_names[p] = --next_cpu; b = cpu_names[p]; } r.push_back(b); };
    if (!h.tensor) one(const_cast<void *>(h.m.data())); else for (auto &f : parts(h)) one(const_cast<void *>(f.data()));
    return r;
}
static void emit(J j) {
    std::vector<Raw> obs;
    for (auto &x : hs) obs.push_back(J().f("h", x.first).f("d", device(x.second)).f("c", content(x.second)).f("w", where(x.second)).raw());
    j.f("hard", fake().take()).f("obs", obs).emit();
}
static void *at(H &h, size_t off) { return static_cast<char *>(h.tensor ? h.t.data() : h.m.data()) + off; }
int main(int argc, char **argv) {
    vf::open(argv[1]);
    Rng r(atoi(argv[2]));
    int rounds = atoi(argv[3]), steps = atoi(argv[4]);
    install_fake();
    for (int round = 0; round < rounds; ++round) {
        int ng = 0, nh = 0; hs.clear(); fake().take();
        std::vector<SyncMemoryController::shared> ctl; std::vector<bool> pooled;
        for (int i = 0; i < 3; ++i) {
            int k = r(3); bool lock = r.p(60); pooled.push_back(k == 0);
            if (k == 0) ctl.push_back(HypeSyncMemoryController<FlowMemoryController>::Make(dev(r(3)), lock));
            else if (k == 1) ctl.push_back(DynamicSyncMemoryController::Make(dev(r(3)), lock));
            else ctl.push_back(nullptr);
        }
        cpu_names.clear(); next_cpu = 0;
        J("reset").emit();
        auto pick = [&]() { VI c; for (auto &x : hs) c.push_back(x.first); return c.empty() ? 0 : r.pick(c); };
        auto put = [&](H &h, Rng &r) { size_t k = 0; VI c; auto fill = [&](unsigned char *p, size_t n) { for (size_t i = 0; i < n; ++i) { p[i] = (unsigned char) r.in(1, 99); c.push_back(p[i]); } ++k; };
            if (!h.tensor) fill(h.m.data<unsigned char>(), h.n); else for (auto &f : parts(h)) fill(const_cast<Tensor &>(f).data<unsigned char>(), size_t(f.count())); return c; };
        for (int s = 0; s < steps; ++s) {
            int op = r(23);
            if (hs.empty() || op < 2) {
                if (hs.size() >= 7) continue;
                int g = ++ng, id = ++nh, d = r(3), c = r(3); H h; h.g = g; h.n = size_t(r.in(1, 6));
                bool lock = r.p(50); int np = 1;
                h.tensor = r.p(60);
                if (h.tensor) {
                    np = r.p(35) ? r.in(2, 3) : 1;
                    std::vector<Tensor> f;
                    for (int i = 0; i < np; ++i) {
                        Shape sh = {int(h.n)};
                        f.push_back(ctl[c] ? Tensor(ctl[c], UINT8, sh, dev(d)) : Tensor(dev(d), UINT8, sh));
                    }
                    h.t = Tensor::Pack(f);
                } else h.m = ctl[c] ? ctl[c]->alloc(dev(d), h.n) : r.p(50) ? SyncMemory(dev(d), h.n, lock) : SyncMemory(Memory(dev(d), h.n), lock);
                VI v = put(h, r); hs[id] = h;
                h = H(); fake().take();
                emit(J("new").f("h", id).f("g", g).f("d", d).f("c", v).f("n", hs[id].n).f("parts", np).f("pooled", bool(ctl[c] && pooled[c])));
            } else if (op < 8) {
                int i = pick(); H &h = hs[i]; int d = r(3), id = ++nh;
                if (hs.size() >= 9) continue;
                H v; v.g = h.g; v.n = h.n; v.tensor = h.tensor;
                std::string e = guard([&] { if (h.tensor) v.t = h.t.view(dev(d)); else v.m = h.m.view(dev(d)); });
                hs[id] = v;
                emit(J("view").f("h", i).f("to", id).f("d", d).f("err", e));
            } else if (op < 9) {
                int i = pick(), id = ++nh; if (hs.size() >= 9) continue;
                hs[id] = hs[i];
                emit(J("copy").f("h", i).f("to", id));
            } else if (op < 12) {
                int i = pick(); VI v = put(hs[i], r);
                emit(J("write").f("h", i).f("c", v));
            } else if (op < 14) {
                int i = pick(), d = device(hs[i]), g = hs[i].g; VI gone;
                for (auto &x : hs) if (x.second.g == g && device(x.second) != d) gone.push_back(x.first);
                if (hs[i].tensor) hs[i].t.broadcast(); else hs[i].m.broadcast();
                for (int x : gone) hs.erase(x);             // these see nothing any more
                emit(J("broadcast").f("h", i).f("gone", gone));
            } else if (op < 15) {
                int i = pick(); hs.erase(i);
                emit(J("drop").f("h", i));
            } else if (op < 18) {                          // copy between memories
                int i = pick(), j = pick(); if (!i) continue;
                H &a = hs[i], &b = hs[j]; int w = r(4), n = r.in(0, 7), oa = r.in(0, int(a.n)), ob = r.in(0, int(b.n)), got = -1; std::string e;
                if (i == j || where(a)[0] == where(b)[0]) { continue; }
                if (w == 0) { oa = ob = 0; e = guard([&] { Memory d = a.tensor ? a.t.weak_memory() : a.m.weak_memory(), s = b.tensor ? b.t.weak_memory() : b.m.weak_memory(); ts::memcpy(d, s, size_t(n)); }); }
                else if (w == 1) { oa = ob = 0; n = int(b.n); e = guard([&] { Memory d = a.tensor ? a.t.weak_memory() : a.m.weak_memory(), s = b.tensor ? b.t.weak_memory() : b.m.weak_memory(); ts::memcpy(d, s); }); }
                else if (w == 2) { n = -1; int ca = r.in(0, int(a.n) - oa), cb = r.in(0, int(b.n) - ob); if (r.p(50)) { ca = int(a.n) - oa; }
                    e = guard([&] { got = int(ts::memcpy(at(a, oa), dev(device(a)), size_t(ca), at(b, ob), dev(device(b)), size_t(cb))); }); n = std::min(ca, cb); if (got != n) e = "wrong count"; }
                else { int ca = r.in(0, int(a.n) - oa), cb = r.in(0, int(b.n) - ob);
                    e = guard([&] { ts::memset(at(a, oa), dev(device(a)), size_t(ca), at(b, ob), dev(device(b)), size_t(cb)); });
                    emit(J("memset").f("h", i).f("src", j).f("oa", oa).f("ob", ob).f("n", ca).f("m", cb).f("err", e)); continue; }
                emit(J("memcpy").f("h", i).f("src", j).f("oa", oa).f("ob", ob).f("n", n).f("err", e));
            } else if (op < 19) {                          // clone: another memory with the same content
                int i = pick(); if (!hs[i].tensor || hs.size() >= 9) continue;
                int g = ++ng, id = ++nh, d = r(3), c = r(3), w = r(3); H h; h.g = g; h.n = hs[i].n; h.tensor = true;
                if (w == 0 || !ctl[c]) { h.t = hs[i].t.clone(); d = device(hs[i]); }
                else if (w == 1) h.t = hs[i].t.clone(ctl[c], dev(d));
                else { h.t = hs[i].t.clone(ctl[c]); d = num(h.t.device()); }
                int np = int(h.t.fields_count()); hs[id] = h; h = H(); fake().take();
                emit(J("new").f("h", id).f("g", g).f("d", d).f("c", content(hs[i])).f("n", hs[id].n).f("parts", np).f("pooled", true));
            } else if (op < 20) {                          // threads on one table of copies
                int T = r.in(2, 6), keys = r.in(1, 3), own = r(3), each = r.in(1, 3), reps = 6;
                for (int k = 0; k < reps; ++k) {
                    std::atomic<int> inside(0), clash(0), go(0); std::mutex m; VI made; int pause = r(4) * 60;
                    SyncBlock<int, int> b(own, 7, [&](const int &v, const int &from, const int &to) {
                        if (++inside > 1) ++clash;
                        { std::lock_guard<std::mutex> _(m); made.push_back(from * 10 + to); }
                        if (pause) usleep(useconds_t(pause));
                        --inside; return v * 100 + to; }, true);
                    std::vector<std::vector<J>> saw(T); std::vector<std::thread> th; std::map<int *, int> names; std::vector<std::vector<int *>> at(T);
                    std::vector<std::vector<int>> ask(T), how(T);
                    for (int t = 0; t < T; ++t) for (int q = 0; q < each; ++q) { ask[t].push_back(r(keys)); how[t].push_back(r(4)); }
                    perturb_seed() = r.g(); perturb_level() = r(4);
                    std::vector<VI> val(T);
                    for (int t = 0; t < T; ++t) th.emplace_back([&, t] { ++go; while (go < T) {}
                        for (int q = 0; q < each; ++q) {
                            int key = ask[t][q];
                            if (how[t][q] == 0) { auto v = b.view(key); val[t].push_back(v->value()); at[t].push_back(const_cast<int *>(&v->value())); }
                            else { int &v = b.sync(key); val[t].push_back(v); at[t].push_back(&v); }
                        } });
                    for (auto &x : th) x.join();
                    perturb_level() = 0;
                    std::vector<J> out; for (int t = 0; t < T; ++t) for (int q = 0; q < each; ++q) { if (!names.count(at[t][q])) { int nn = int(names.size()) + 1; names[at[t][q]] = nn; } out.push_back(J().f("k", ask[t][q]).f("v", val[t][q]).f("p", names[at[t][q]])); }
                    VI all; b.foreach([&](const int &k, const int &v) { all.push_back(k); all.push_back(v); });
                    emit(J("table").f("own", own).f("made", made).f("clash", int(clash)).f("saw", out).f("all", all));
                }
            } else {                                       // several threads ask for one memory at once
                int i = pick(); H &h = hs[i]; int T = r.in(2, 4) * 2, where = r(3), wide = r(2);
                if (hs.size() >= 8) continue;
                if (h.tensor) continue;                     // its locking is the controller's choice
                VI to, ds; std::vector<H> got(T); std::vector<std::thread> th;
                if (!h.tensor) {
                    SyncMemory locked(Memory(dev(device(h)), h.n), true); std::memcpy(locked.data(), h.m.data(), h.n);
                    int g = ++ng, id = ++nh; H nhd; nhd.g = g; nhd.n = h.n; nhd.tensor = false; nhd.m = locked; hs[id] = nhd; fake().take();
                    VI c = content(nhd); int d0 = device(nhd);
                    for (int t = 0; t < T; ++t) { ds.push_back(wide ? r(3) : where); got[t].g = g; got[t].n = h.n; got[t].tensor = false; }
                    std::atomic<int> go(0); perturb_seed() = r.g(); perturb_level() = r(4); fake().slow = r(3) * 400;
                    for (int t = 0; t < T; ++t) th.emplace_back([&, t] { ++go; while (go < T) {} got[t].m = locked.view(dev(ds[t])); });
                    for (auto &x : th) x.join();
                    perturb_level() = 0; fake().slow = 0;
                    for (int t = 0; t < T; ++t) { int q = ++nh; to.push_back(q); hs[q] = got[t]; }
                    got.clear(); nhd = H();
                    emit(J("race").f("h", id).f("g", g).f("d", d0).f("c", c).f("n", hs[id].n).f("to", to).f("ds", ds));
                    for (int q : to) { hs.erase(q); }
                    fake().take();
                    emit(J("forget").f("hs", to));
                }
            }
        }
        hs.clear(); ctl.clear();
        J("end").f("held", fake().held()).f("bad", [&] { int n = 0; for (auto &x : fake().take()) if (x.s.find("\"k\":\"bad") != std::string::npos || x.s.find("spoilt") != std::string::npos) ++n; return n; }()).emit();
    }
    return 0;
}
