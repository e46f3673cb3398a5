// Random histories of tensor handles: who shares what with whom, what stays alive.
#include "fakedev.h"
#include "tensorio.h"
#include "core/ieee754_float.h"
#include <numeric>
#include <set>
#include <thread>
#include <atomic>
using namespace ts;
using namespace vf;
typedef std::vector<int> VI;
typedef std::pair<int, int> Ctr;
// what we must know to tell which handles must not be touched any more
struct F { Ctr c; bool weak, bor; int cell; };
struct H { Tensor t; std::vector<F> f; };
static std::map<int, H> hs;
static bool dead(const F &f) {
    if (f.c == Ctr(0, 0)) return false;
    if (f.weak) {
        bool held = false;
        for (auto &x : hs) for (auto &g : x.second.f) if (g.c == f.c && !g.weak) held = true;
        if (!held) return true;
    }
    if (f.bor && f.cell) { bool live = false; for (auto &b : fake().live) if (b.second.id == f.cell) live = true; return !live; }
    return false;
}
// handles something of which is gone: dropped here, without being looked at
static VI expire() {
    VI gone; bool more = true;
    while (more) {
        more = false; VI now;
        for (auto &x : hs) for (auto &f : x.second.f) if (dead(f)) { now.push_back(x.first); break; }
        for (int i : now) { hs.erase(i); gone.push_back(i); more = true; }
    }
    std::sort(gone.begin(), gone.end());
    return gone;
}
static Raw field(const Tensor &t) {
    VI s(t.sizes().begin(), t.sizes().end()), v;
    int n = t.dtype() == VOID ? 0 : t.count(), w = type_bytes(t.dtype());
    for (int i = 0; i < n; ++i) v.push_back(int(element(t, i)));
    const void *p = n ? t.data() : nullptr;
    return J().f("s", s).f("t", dts(t.dtype())).f("v", v).f("b", n ? fake().block(p) : 0).f("o", n ? int(fake().offset(p)) / w : 0).raw();
}
static void emit(J j) {
    VI gone = expire();
    std::vector<Raw> obs; VI live;
    for (auto &x : hs) {
        const Tensor &t = x.second.t; std::vector<Raw> f;
        for (size_t i = 0; i < t.fields_count(); ++i) f.push_back(field(t.field(i)));
        obs.push_back(J().f("h", x.first).f("f", f).f("top", field(t)).f("n", t.count()).f("bytes", t.count() * t.proto().type_bytes())
                      .f("dims", t.dims()).f("weak", t.is_weak()).f("packed", t.packed()).f("empty", t.empty()).raw());
    }
    for (auto &b : fake().live) live.push_back(b.second.id);
    std::sort(live.begin(), live.end());
    j.f("gone", gone).f("obs", obs).f("live", live).emit();
}
static const std::vector<DTYPE> types = {UINT8, INT32, FLOAT32, INT64, FLOAT64, INT16};
static void set(Tensor &t, int i, int v) {
    switch (t.dtype()) {
        case UINT8: t.data<uint8_t>(i) = uint8_t(v); break; case INT32: t.data<int32_t>(size_t(i)) = v; break;
        case FLOAT32: t.data<float>()[i] = float(v); break; case INT64: t.data<int64_t>(i) = v; break;
        case INT16: static_cast<int16_t *>(t.data())[i] = int16_t(v); break; default: t.data<double>()[i] = v;
    }
}
static int next_block() { return fake().next; }
static Shape sh(const VI &v) { Shape s; for (int x : v) s.push_back(x); return s; }
static VI factor(Rng &r, int n) {                       // a shape with n elements
    VI s; while (n > 1 && r.p(70)) { VI d; for (int i = 1; i <= n; ++i) if (n % i == 0) d.push_back(i); int k = r.pick(d); s.push_back(k); n /= k; }
    if (n != 1 || r.p(20)) s.push_back(n);
    return s;
}
static VI rand_shape(Rng &r, int cap) { while (true) { VI s; int n = r.in(0, 4); for (int i = 0; i < n; ++i) s.push_back(r.p(4) ? 0 : r.in(1, 4)); if (prod(s) <= cap) return s; } }
static VI all(const Tensor &t) { VI v; int n = t.dtype() == VOID ? 0 : t.count(); for (int i = 0; i < n; ++i) v.push_back(int(element(t, i))); return v; }
template <typename T> static int idx(T &&h, const VI &c) {
    switch (c.size()) {
        case 1: return h.to_index(c[0]); case 2: return h.to_index(c[0], c[1]); case 3: return h.to_index(c[0], c[1], c[2]);
        case 4: return h.to_index(c[0], c[1], c[2], c[3]); case 5: return h.to_index(c[0], c[1], c[2], c[3], c[4]);
        case 6: return h.to_index(c[0], c[1], c[2], c[3], c[4], c[5]); case 7: return h.to_index(c[0], c[1], c[2], c[3], c[4], c[5], c[6]);
    }
    return 0;
}
static bool has(const Tensor &t, const VI &c) {
    switch (c.size()) {
        case 1: return t.has_shape(c[0]); case 2: return t.has_shape(c[0], c[1]); case 3: return t.has_shape(c[0], c[1], c[2]);
        case 4: return t.has_shape(c[0], c[1], c[2], c[3]); case 5: return t.has_shape(c[0], c[1], c[2], c[3], c[4]);
        case 6: return t.has_shape(c[0], c[1], c[2], c[3], c[4], c[5]);
    }
    return t.has_shape(sh(c));
}
static void shapes(Rng &r) {                              // indices and coordinates
    VI s; int n = r.in(1, 7); for (int i = 0; i < n; ++i) s.push_back(r.in(1, n > 4 ? 3 : 5));
    HypeShape hp(sh(s)); VI c; for (int x : s) c.push_back(r(x));
    int k = r.in(1, n); VI tail(c.end() - k, c.end());     // leading coordinates may be left out
    int i = r(prod(s)); HypeShape cp(hp), mv(std::move(cp)); VI w; for (int j = 0; j < n; ++j) w.push_back(mv.weight(j));
    VI before = c, after, two;
    ShapeIterator it(sh(s), sh(c)); ++it; { Shape q = it.coordinate(); after = VI(q.begin(), q.end()); }
    ShapeIterator b(sh(s), sh(c)); --b; VI back; { Shape q = b.coordinate(); back = VI(q.begin(), q.end()); }
    ShapeIterator p(sh(s), sh(c)); const ShapeIterator old = p++; ShapeIterator o2 = old; { Shape q = o2.coordinate(); two = VI(q.begin(), q.end()); }
    VI pn; { Shape q = p.coordinate(); pn = VI(q.begin(), q.end()); }
    ShapeIterator z(std::move(p)); z--; VI zz; { Shape q = z.coordinate(); zz = VI(q.begin(), q.end()); } z.rewind(); VI rw; { Shape q = z.coordinate(); rw = VI(q.begin(), q.end()); }
    ShapeIterator walk(sh(s)); std::vector<VI> ws; for (int j = 0; j < std::min(prod(s), 30); ++j) { Shape q = walk.coordinate(); ws.push_back(VI(q.begin(), q.end())); ++walk; }
    J("shape").f("s", s).f("c", c).f("k", k).f("i1", mv.to_index(tail)).f("i2", idx(mv, tail)).f("i3", mv.to_index(sh(tail)))
        .f("i", i).f("ci", mv.to_coordinate(i)).f("count", mv.count()).f("w", w).f("pc", Tensor::Prototype(INT32, sh(s)).count())
        .f("next", after).f("prev", back).f("old", two).f("pn", pn).f("zz", zz).f("rw", rw).f("walk", ws).emit();
}
template <typename T> static Raw vec(const std::vector<T> &v) { VI o; for (auto x : v) o.push_back(int(x)); return Raw{js(o)}; }
static void builders(Rng &r) {
    VI s = rand_shape(r, 20); if (s.empty()) s.push_back(1);
    int n = prod(s); std::vector<double> v; VI q; for (int i = 0; i < n; ++i) { q.push_back(r.in(-60, 60)); v.push_back(q.back() / 4.0); }
    static const std::vector<DTYPE> to = {INT8, INT16, INT32, INT64, FLOAT32, FLOAT64, FLOAT16};
    DTYPE a = r.pick(to), b = r.pick(to);
    Tensor ta = tensor::build(a, sh(s), v), tb = tensor::cast(b, ta), tc = tensor::clone(b, ta);
    VI keep = all(tc); bool own = true;
    if (n && b != FLOAT16) { set(tc, 0, 77); own = js(ta) == js(tensor::build(a, sh(s), v)); }
    J j("build"); j.f("s", s).f("q", q).f("ta", dts(a)).f("tb", dts(b)).f("a", tj1(ta, 4)).f("b", tj1(tb, 4)).f("own", own);
    j.f("ints", vec(tensor::array::to_int(tb))).f("longs", vec(tensor::array::to_long(tb)));
    VI fl, db; for (float x : tensor::array::to_float(tb)) fl.push_back(int(x * 4)); for (double x : tensor::array::to_double(tb)) db.push_back(int(x * 4));
    j.f("floats", fl).f("doubles", db);
    std::string e, e2; int one = 0, of = 0; e = guard([&] { one = tensor::to_int(tb); }); e2 = guard([&] { of = int(tensor::to_float(tb) * 4); });
    j.f("err", e).f("one", one).f("err2", e2).f("onef", of);
    std::string text; int len = r(6); for (int i = 0; i < len; ++i) text += char(r.in(32, 126));
    Tensor st = tensor::from(text); VI chars, back; for (char c : text) chars.push_back(c); for (char c : tensor::to_string(st)) back.push_back(c);
    int num = r.in(-9999, 9999); bool flag = r.p(50);
    j.f("text", chars).f("back", back).f("tl", st.count()).f("num", num).f("parsed", tensor::to_int(tensor::from(std::to_string(num))))
     .f("flag", flag).f("fl2", tensor::to_bool(tensor::from(std::string(flag ? (r.p(50) ? "true" : "TruE") : (r.p(50) ? "false" : "yes")))))
     .f("fl3", tensor::to_bool(tensor::from(flag))).emit();
}
int main(int argc, char **argv) {
    vf::open(argv[1]);
    Rng r(atoi(argv[2]));
    int rounds = atoi(argv[3]), steps = atoi(argv[4]);
    install_fake();
    MemoryDevice D("fake", 0);
    for (int round = 0; round < rounds; ++round) {
        hs.clear(); fake().take(); int nh = 0;
        J("reset").emit();
        { std::vector<Raw> ty; for (int t = 0; t < 64; ++t) { std::string n = type_str(DTYPE(t)); if (n != "unknown") ty.push_back(J().f("t", t).f("n", n).f("b", type_bytes(DTYPE(t))).raw()); }
          J("types").f("all", ty).f("ok", std::vector<bool>{sizeof(dtype<INT16>::declare) == 2, sizeof(dtype<UINT64>::declare) == 8, sizeof(dtype<FLOAT16>::declare) == 2, dtypeid<float>::id == FLOAT32, dtypeid<int16_t>::id == INT16, dtypeid<uint32_t>::id == UINT32, dtypeid<int64_t>::id == INT64, dtypeid<double>::id == FLOAT64}).emit(); }
        auto pick = [&]() { VI c; for (auto &x : hs) c.push_back(x.first); return c.empty() ? 0 : r.pick(c); };
        auto plain = [&]() { VI c; for (auto &x : hs) if (!x.second.t.packed()) c.push_back(x.first); return c.empty() ? 0 : r.pick(c); };
        auto fresh = [&](int id, const Tensor &t, int cell) { H h; h.t = t; h.f = {F{Ctr(id, 1), false, false, cell}}; hs[id] = h; };
        auto controller = std::make_shared<DynamicMemoryController>(D);
        auto sync = DynamicSyncMemoryController::Make(D, false);
        for (int st = 0; st < steps; ++st) {
            if (hs.size() >= 9) { int i = pick(); hs.erase(i); emit(J("drop").f("h", i)); continue; }
            int op = r(40), i = pick();
            if (op < 4 || hs.empty()) {
                VI s = rand_shape(r, 16); DTYPE dt = r.pick(types); int id = ++nh, b = next_block(), how = r(4);
                Tensor t = how == 0 ? Tensor(D, dt, sh(s)) : how == 1 ? Tensor(controller, dt, sh(s)) : how == 2 ? Tensor(sync, dt, sh(s), D) : Tensor(SyncMemory(D, size_t(prod(s) * type_bytes(dt))), Tensor::Prototype(dt, sh(s)));
                int n = t.count(); VI v; for (int k = 0; k < n; ++k) { v.push_back(r.in(1, 99)); set(t, k, v.back()); }
                fresh(id, t, n ? b : 0); t = Tensor();
                emit(J("new").f("h", id).f("b", n ? b : 0).f("s", s).f("t", dts(dt)).f("v", v).f("z", next_block() - b));
            } else if (op < 5) {
                int id = ++nh; H h; h.f = {F{Ctr(0, 0), true, false, 0}}; hs[id] = h;
                emit(J("void").f("h", id));
            } else if (op < 8) {                             // copy, copy assignment
                bool assign = r.p(40); int id = assign ? pick() : ++nh; H &h = hs[i];
                if (assign) { hs[id].t = h.t; hs[id].f = std::vector<F>(h.f); } else { Tensor c(h.t); hs[id] = H{c, h.f}; }
                emit(J("copy").f("h", i).f("to", id).f("over", assign));
            } else if (op < 10) {                            // move
                bool assign = r.p(50); int id = assign ? pick() : ++nh; if (id == i) continue;
                if (assign) { hs[id].t = std::move(hs[i].t); hs[id].f = hs[i].f; } else { Tensor c(std::move(hs[i].t)); hs[id].t = std::move(c); hs[id].f = hs[i].f; }
                hs.erase(i);
                emit(J("move").f("h", i).f("to", id));
            } else if (op < 14) {                            // reshape
                H &h = hs[i]; VI s; int n = h.t.count();
                if (r.p(60)) { s = factor(r, std::max(n, 1)); if (n == 0) s.push_back(0); if (!s.empty() && r.p(40)) s[r(s.size())] = -r.in(1, 3); }
                else { s = rand_shape(r, 20); for (auto &x : s) if (r.p(25)) x = -1; }
                int id = ++nh; Tensor t; std::string e = guard([&] { t = h.t.reshape(sh(s)); });
                if (e == "") hs[id] = H{t, h.f};
                t = Tensor();
                emit(J("reshape").f("h", i).f("to", id).f("s", s).f("err", e));
            } else if (op < 16) {
                int d = r.in(-1, 5), id = ++nh; H &h = hs[i];
                hs[id] = H{h.t.flatten(d), h.f};
                emit(J("flatten").f("h", i).f("to", id).f("d", d));
            } else if (op < 20) {                            // slice
                H &h = hs[i]; if (h.t.dtype() == VOID) continue;
                int n = h.t.dims() ? h.t.size(0) : 0; bool one = r.p(50); int a = r.in(r.p(10) ? -1 : 0, n), b = r.in(r.p(15) ? -1 : std::min(a + 1, n), n + (r.p(8) ? 1 : 0)), id = ++nh;
                if (one && !r.p(8) && n) a = r(n);
                Tensor t; std::string e = guard([&] { t = one ? h.t.slice(a) : h.t.slice(a, b); });
                // a view of nothing has no storage to watch
                if (e == "" && t.count() == 0) { t = Tensor(); continue; }
                if (e == "") hs[id] = H{t, {F{Ctr(id, 1), false, true, h.f[0].cell}}};
                t = Tensor();
                emit(J("slice").f("h", i).f("to", id).f("one", one).f("b", a).f("e", b).f("err", e));
            } else if (op < 22) {                            // clone
                H &h = hs[i]; int id = ++nh, b = next_block(), how = r(4); std::vector<F> f; VI cells;
                bool vacant = false; for (size_t k = 0; k < h.t.fields_count(); ++k) if (h.t.field(k).dtype() == VOID || h.t.field(k).count() == 0) vacant = true;
                if (vacant && r.p(70)) continue;
                if (h.t.dtype() == VOID && h.t.packed()) continue;      // a clone goes to the first field's device
                Tensor t = how == 0 ? h.t.clone() : how == 1 ? h.t.clone(controller) : how == 2 ? *h.t.clone_shared() : h.t.clone(sync, D);
                for (size_t k = 0; k < t.fields_count(); ++k) { Tensor x = t.field(k); bool w = x.dtype() == VOID; int cell = !w && x.count() ? fake().block(x.data()) : 0; cells.push_back(cell);
                    f.push_back(w && x.dims() == 0 ? F{Ctr(0, 0), true, false, 0} : F{Ctr(id, int(k) + 1), false, false, cell}); }
                hs[id] = H{t, f}; t = Tensor();
                emit(J("clone").f("h", i).f("to", id).f("cells", cells).f("base", b));
            } else if (op < 25) {                            // pack
                int n = r.in(r.p(10) ? 0 : 1, 3); VI from; std::vector<Tensor> ts; std::vector<F> f; bool over = r.p(30); int id = over ? i : ++nh, how = r(2);
                for (int k = 0; k < n; ++k) { int x = plain(); if (!x) break; from.push_back(x); ts.push_back(hs[x].t); f.push_back(hs[x].f[0]); }
                if (from.empty()) f.push_back(F{Ctr(id, 1), false, false, 0});
                if (over) hs[id].t.pack(ts); else if (how) hs[id].t = Tensor::Pack(ts); else { Tensor t; t.pack(ts); hs[id].t = t; }
                hs[id].f = f; ts.clear();
                emit(J("pack").f("from", from).f("to", id));
            } else if (op < 29) {                            // field
                H &h = hs[i]; int n = int(h.t.fields_count()), k = r.p(20) ? r.in(-5, 5) : r.in(-n, n - 1), id = ++nh; Tensor t; std::string e;
                e = guard([&] { t = k >= 0 && r.p(50) ? h.t.field(size_t(k)) : h.t.field(k); });
                int w = k < 0 ? k + n : k;
                if (e == "") hs[id] = H{t, {w >= 0 && w < n ? h.f[w] : h.f[0]}};
                t = Tensor();
                emit(J("field").f("h", i).f("to", id).f("k", k).f("err", e));
            } else if (op < 31) {                            // set a field
                H &h = hs[i]; int j = plain(); if (!j) continue; int n = int(h.t.fields_count()), k = r.p(20) ? r.in(-5, 5) : r.in(-n, n - 1);
                Tensor v = hs[j].t; F vf_ = hs[j].f[0]; std::string e = guard([&] { if (k >= 0 && r.p(50)) h.t.field(size_t(k), v); else h.t.field(k, v); }); v = Tensor();
                int w = k < 0 ? k + n : k;
                if (e == "" && w >= 0 && w < n) h.f[w] = vf_;
                emit(J("put").f("h", i).f("from", j).f("k", k).f("err", e));
            } else if (op < 32) {
                H &h = hs[i]; int n = r.in(0, 4); h.t.refield(size_t(n));
                h.f.resize(std::max(n, 1), F{Ctr(0, 0), true, false, 0}); if (n == 0) h.f[0] = F{Ctr(0, 0), true, false, 0};
                emit(J("refield").f("h", i).f("n", n));
            } else if (op < 33) {                            // view on the same device
                H &h = hs[i]; bool vacant = false; for (size_t k = 0; k < h.t.fields_count(); ++k) if (h.t.field(k).dtype() == VOID || h.t.field(k).count() == 0) vacant = true;
                if (vacant) continue;
                int id = ++nh; std::vector<F> f; for (size_t k = 0; k < h.f.size(); ++k) f.push_back(F{Ctr(id, int(k) + 1), false, h.f[k].bor, h.f[k].cell});
                hs[id] = H{h.t.view(D), f};
                emit(J("view").f("h", i).f("to", id));
            } else if (op < 36) {                            // weak, strong
                H &h = hs[i]; bool weak = r.p(60); int id = ++nh; std::vector<F> f = h.f; for (auto &x : f) x.weak = weak;
                hs[id] = H{weak ? h.t.weak() : h.t.strong(), f};
                emit(J(weak ? "weak" : "strong").f("h", i).f("to", id));
            } else if (op < 37) {                            // questions
                H &h = hs[i]; VI s(h.t.sizes().begin(), h.t.sizes().end()); int j = pick();
                if (r.p(30)) s = rand_shape(r, 50); for (auto &x : s) if (r.p(30)) x = r.p(70) ? -r.in(1, 3) : x + 1; if (r.p(10) && s.size() < 6) s.push_back(-1);
                bool a = has(h.t, s), b = h.t.has_shape(sh(s));
                Tensor::Prototype p = h.t.proto(), q = hs[j].t.proto(); TensorPrototype P(h.t), Q(hs[j].t);
                std::ostringstream o; o << P;
                TensorPrototype PF; PF.pack(P.unpack()); TensorPrototype PC(PF), PM(std::move(PC));
                emit(J("ask").f("h", i).f("j", j).f("s", s).f("has", a).f("has2", b).f("eq", p == q).f("ne", p != q).f("EQ", P == Q).f("NE", P != Q).f("pQ", p == Q).f("Pq", P == q)
                         .f("again", PM == P && P.fields_count() == h.t.fields_count()).f("none", h.t.has_empty_shape()).f("text", o.str()));
            } else if (op < 38) { if (r.p(50)) shapes(r); else builders(r); }
            else if (op < 39 && r.p(60)) { hs.erase(i); emit(J("drop").f("h", i)); }
            else if (op < 39) {                              // several threads copying and dropping at once
                H &h = hs[i]; if (h.t.dtype() == VOID) continue;
                std::vector<std::thread> th; std::atomic<int> ready(0);
                for (int k = 0; k < 4; ++k) th.emplace_back([&, k] {
                    ++ready; while (ready < 4);
                    Tensor mine; for (int q = 0; q < 4000; ++q) { Tensor a(h.t); if ((q + k) % 3 == 0) mine = a; else if ((q + k) % 7 == 0) mine = Tensor(); else { Tensor b = a; a = b; } } });
                for (auto &x : th) x.join();
                emit(J("crowd").f("h", i));
            }
            else {                                           // write one element
                for (int k = 0; k < 2; ++k) {
                    i = pick(); H &h = hs[i]; int f = r(h.f.size()); Tensor t = h.t.field(size_t(f)); if (t.dtype() == VOID || t.count() == 0) { continue; }
                    int at = r(t.count()), v = r.in(1, 99);
                    if (f == 0) set(h.t, at, v); else set(t, at, v);
                    t = Tensor();
                    emit(J("write").f("h", i).f("f", f).f("at", at).f("v", v));
                }
            }
        }
        hs.clear();
        J("end").f("live", int(fake().live.size())).emit();
    }
    return 0;
}
