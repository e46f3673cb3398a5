// Calls of the C interface, valid and not, from several threads, with a failing plug-in.  c19 TRACE SEED SEGMENTS STEPS
#include "session.h"
#include <condition_variable>
#include <functional>
#include <fstream>
#include <mutex>
#include <set>
#include <thread>
#include <sys/stat.h>
#include <unistd.h>
#include "api/tennis.h"
#include "api/operator.h"
#include "api/intime.h"
#include "api/plugin.h"
#include "api/declare_tensor.h"
#include "core/tensor_builder.h"
using namespace vf;
using namespace ts;
typedef std::vector<int> VI;
typedef std::vector<std::string> VS;

// ---- the plug-in: out = in + k
struct Modes { std::string make = "ok", init = "ok", infer = "ok", run = "ok", release = "ok"; };
static Modes g_mode;
static std::string g_text = "vf says";
struct Plug { int k = 0; VI fmt; };
// true: the callback is to return its failure value
static bool trouble(const std::string &m) {
    if (m == "null") return true;
    if (m == "say") { ts_set_error_message(g_text.c_str()); return true; }
    if (m == "throw") ts_Operator_Throw(g_text.c_str());
    if (m == "throw2") TS_C_THROW(g_text.c_str());
    if (m == "std") throw std::runtime_error(g_text);
    if (m == "int") throw 42;
    if (m == "inner" || m == "inner0") { ts_Tensor_cast(nullptr, TS_INT32); ts_free_Tensor(nullptr); ts_Tensor_reshape(nullptr, nullptr, 0); }
    return m == "inner0";
}
static void *plug_new() { return trouble(g_mode.make) ? nullptr : new Plug; }
static void plug_free(const void *o) { delete static_cast<const Plug *>(o); trouble(g_mode.release); }
static void take(void *o, const ts_OperatorParams *d) {
    auto &p = *static_cast<Plug *>(o);
    p.k = 0; p.fmt.clear();
    if (ts_Tensor *k = ts_OperatorParams_get(d, "k")) { p.k = static_cast<int32_t *>(ts_Tensor_data(k))[0]; ts_free_Tensor(k); }
    if (ts_Tensor *f = ts_OperatorParams_get(d, "fmt")) { auto n = ts_Tensor_shape(f)[0]; auto x = static_cast<int32_t *>(ts_Tensor_data(f)); p.fmt.assign(x, x + n); ts_free_Tensor(f); }
}
static void plug_init(void *o, const ts_OperatorParams *d, ts_OperatorContext *) { take(o, d); trouble(g_mode.init); }
static ts_bool plug_init_ex(void *o, const ts_OperatorParams *d, ts_OperatorContext *) { take(o, d); return trouble(g_mode.init) ? 0 : 1; }
static ts_Tensor *plug_infer(void *o, int32_t, ts_Tensor **, ts_OperatorContext *) {
    if (trouble(g_mode.infer)) return nullptr;
    auto &f = static_cast<Plug *>(o)->fmt;
    int32_t n = int32_t(f.size());
    ts_Tensor *t = ts_new_Tensor(&n, 1, TS_INT32, f.data());
    if (n % 2) { ts_Tensor *c = ts_Tensor_cast(t, TS_INT64); ts_free_Tensor(t); t = c; }
    return t;
}
static ts_Tensor *plug_run(void *o, int32_t argc, ts_Tensor **argv, ts_OperatorContext *) {
    if (argc != 1) return nullptr;
    if (trouble(g_mode.run)) return nullptr;
    ts_Tensor *x = argv[0];
    ts_Tensor *y = ts_new_Tensor_in_flow(TS_HOST, ts_Tensor_shape(x), ts_Tensor_shape_size(x), ts_Tensor_dtype(x), ts_Tensor_data(x));
    int n = 1; for (int i = 0; i < ts_Tensor_shape_size(x); ++i) n *= ts_Tensor_shape(x)[i];
    int k = static_cast<Plug *>(o)->k;
    if (ts_Tensor_dtype(x) == TS_INT32) for (int i = 0; i < n; ++i) static_cast<int32_t *>(ts_Tensor_data(y))[i] += k;
    if (ts_Tensor_dtype(x) == TS_FLOAT32) for (int i = 0; i < n; ++i) static_cast<float *>(ts_Tensor_data(y))[i] += float(k);
    trouble(g_mode.run == "inner" ? "inner" : "ok");
    return y;
}

// ---- threads that do one thing at a time
class Hand {
public:
    Hand() : th([this] { loop(); }) {}
    ~Hand() { start([this] { done = true; }); wait(); th.join(); }
    void start(std::function<void()> f) { std::unique_lock<std::mutex> l(m); job = std::move(f); busy = true; c.notify_all(); }
    void wait() { std::unique_lock<std::mutex> l(m); c.wait(l, [this] { return !busy; }); }
    void run(std::function<void()> f) { start(std::move(f)); wait(); }
    std::string last;           // the message this thread saw after its last call
private:
    void loop() {
        while (!done) {
            std::function<void()> f;
            { std::unique_lock<std::mutex> l(m); c.wait(l, [this] { return bool(job); }); f.swap(job); }
            f();
            { std::unique_lock<std::mutex> l(m); busy = false; c.notify_all(); }
        }
    }
    std::mutex m; std::condition_variable c; std::function<void()> job; bool busy = false, done = false;
    std::thread th;
};

struct Net { VS ins; VI src; std::vector<VS> pl; bool plain, ex; };
static std::string js(const Net &n) {
    std::vector<Raw> pl; for (auto &x : n.pl) pl.push_back(Raw{js(x)});
    return J().f("ins", n.ins).f("src", n.src).f("pl", pl).f("plain", n.plain).f("ex", n.ex).str();
}
static const std::vector<Net> NETS = {
    {{"a", "b"}, {1, 2}, {{}, {}}, false, false},
    {{"a", "b"}, {1, 2}, {{"y1"}, {"y2"}}, true, true},
    {{"a", "b"}, {2, 1}, {{"y1"}, {}}, false, true},
    {{"a"}, {1}, {{"m", "y1"}}, true, true},
};
static Module::shared build(int which) {
    Graph g; ctx::bind<Graph> _g(g);
    auto a = bubble::param("a"), b = bubble::param("b");
    std::vector<Node> outs, ins = {a, b};
    switch (which) {
        case 0: outs = {bubble::op("y1", name::layer::copy(), {a}), bubble::op("y2", name::layer::copy(), {b})}; break;
        case 1: outs = {bubble::op("y1", "vf_plug", {a}), bubble::op("y2", "vf_plugx", {b})}; break;
        case 2: outs = {bubble::op("y1", "vf_plugx", {b}), bubble::op("y2", name::layer::copy(), {a})}; break;
        default: { auto m = bubble::op("m", "vf_plug", {a}); outs = {bubble::op("y1", "vf_plugx", {m})}; ins = {a}; }
    }
    auto m = std::make_shared<Module>(); m->load(g, outs); m->sort_inputs(ins); return m;
}

struct Obj { char kind; void *p; std::set<int> grp; bool slice, packed; Obj(char k = 0, void *q = nullptr, std::set<int> g = {}) : kind(k), p(q), grp(g), slice(false), packed(false) {} };
static std::map<int, Obj> objs;
static std::set<int> sealed;
static int next_h = 1, next_g = 1;
static std::vector<std::unique_ptr<Hand>> hands;
static std::vector<int> at;                                    // the session set up as context of each thread
static Tensor &T(void *p) { return **static_cast<ts_Tensor *>(p); }
static int put(char kind, void *p, std::set<int> grp = {}) {
    int h = next_h++; if (kind == 'T' && grp.empty()) grp.insert(next_g++);
    objs[h] = Obj{kind, p, grp}; if (kind == 'T') objs[h].packed = T(p).packed();
    return h;
}
static VI of(char kind) { VI v; for (auto &o : objs) if (o.second.kind == kind) v.push_back(o.first); return v; }
static void *P(int h) { return h ? objs.at(h).p : nullptr; }
static ts_Tensor *PT(int h) { return static_cast<ts_Tensor *>(P(h)); }

// what a call gave
struct Out { bool fail = false; void *p = nullptr; char kind = 0; std::vector<Raw> o; VI i; };
static J *pending;
// performs a call in a thread and tells what can be seen of it; a new object becomes a handle
static Out call(int t, J &j, const std::function<Out()> &f, std::set<int> grp = {}) {
    Out out; std::string esc, what; bool kept = false, lem = false, says = false;
    Hand &hd = *hands[t];
    hd.run([&] {
        kept = std::string(ts_last_error_message()) == hd.last;
        try { out = f(); } catch (const Exception &) { esc = "ts"; } catch (const std::exception &) { esc = "std"; } catch (...) { esc = "other"; }
        hd.last = ts_last_error_message();
        lem = !hd.last.empty(); says = hd.last.find(g_text) != std::string::npos;
    });
    if (out.kind == 'v') out.fail = lem;                        // nothing is returned
    int r = 0;
    if (out.p) { r = put(out.kind, out.p, grp); if (out.kind == 'T') out.o = tjs(T(out.p)); }
    j.f("t", t + 1).f("fail", out.fail).f("lem", lem).f("kept", kept).f("esc", esc).f("says", says).f("r", r).f("o", out.o).f("i", out.i);
    j.emit();
    out.i.insert(out.i.begin(), r);
    return out;
}
static Out made(char kind, const void *p) { Out o; o.kind = kind; o.p = const_cast<void *>(p); o.fail = p == nullptr; return o; }
static Out flag(ts_bool b) { Out o; o.fail = !b; return o; }
static Out none() { Out o; o.kind = 'v'; return o; }
static Out number(int n) { Out o; o.i = {n}; o.fail = n == 0; return o; }

static std::string dir;
struct File { std::string kind; int net; std::string path, bytes; };
static std::vector<File> files;
struct Source { std::string s; size_t at = 0; bool throws = false; };
static uint64_t source_read(void *o, char *d, uint64_t n) {
    auto &s = *static_cast<Source *>(o);
    if (s.throws && s.at > 20) throw std::runtime_error("vf stream");
    size_t k = std::min<size_t>(n, s.s.size() - s.at); std::memcpy(d, s.s.data() + s.at, k); s.at += k; return k;
}
static void source_rewind(void *o) { static_cast<Source *>(o)->at = 0; }
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()); }
static void spill(const std::string &p, const std::string &s) { std::ofstream f(p, std::ios::binary); f << s; }

static const std::vector<std::pair<std::string, int>> TYPES = {{"int32", TS_INT32}, {"float32", TS_FLOAT32}, {"int32", TS_INT32}, {"float32", TS_FLOAT32}, {"uint8", TS_UINT8}, {"int8", TS_INT8}, {"int16", TS_INT16}, {"uint16", TS_UINT16}, {"uint32", TS_UINT32}, {"int64", TS_INT64}, {"uint64", TS_UINT64}, {"float64", TS_FLOAT64}, {"char8", TS_CHAR8}};

static ts_Device dev_of(const std::string &d) { ts_Device x; x.type = d == "cpu" ? "cpu" : d == "bad" ? "xpu" : d == "long" ? "a_very_long_device_name" : nullptr; x.id = 0; return x; }

static void release(Rng &r, int h, int t) {
    auto o = objs.at(h);
    if (o.kind == 'T') {                                        // slices are only good while their origin is
        for (;;) {
            int s = 0;
            for (auto &x : objs) if (x.first != h && x.second.slice) for (int g : x.second.grp) if (o.grp.count(g)) s = x.first;
            if (!s || o.slice) break;
            release(r, s, t);
        }
    }
    objs.erase(h);
    J j; j.f("ev", "call").f("fn", std::string("free_") + (o.kind == 'O' ? 'M' : o.kind == 'Q' ? 'P' : o.kind)).f("h", h).f("a", VI()).f("hs", VI()).f("n", "").f("d", VI()).f("b", false);
    call(t, j, [&] {
        switch (o.kind) {
            case 'T': ts_free_Tensor(static_cast<ts_Tensor *>(o.p)); break;
            case 'M': case 'O': ts_free_Module(static_cast<ts_Module *>(o.p)); break;
            case 'P': case 'Q': ts_free_Program(static_cast<ts_Program *>(o.p)); break;
            case 'B': ts_free_Workbench(static_cast<ts_Workbench *>(o.p)); break;
            default: ts_free_ImageFilter(static_cast<ts_ImageFilter *>(o.p)); break;
        }
        return none();
    });
}

int main(int argc, char **argv) {
    if (argc < 5) return 77;
    vf::open(argv[1]); Rng r(std::strtoull(argv[2], nullptr, 10)); int segs = atoi(argv[3]), steps = atoi(argv[4]);
    setup_session();
    ts_setup();
    ts_Operator_Register("cpu", "vf_plug", plug_new, plug_free, plug_init, plug_infer, plug_run);
    ts_Operator_RegisterEx("cpu", "vf_plugx", plug_new, plug_free, plug_init_ex, plug_infer, plug_run);
    dir = std::string(argv[1]) + ".d";
    if (mkdir(dir.c_str(), 0700)) { if (access(dir.c_str(), W_OK)) internal("scratch"); }
    int serial = 0;
    for (int seg = 0; seg < segs; ++seg) {
        objs.clear(); sealed.clear(); next_h = 1; next_g = 1; files.clear();
        g_mode = Modes();
        hands.clear(); for (int i = 0; i < 3; ++i) hands.emplace_back(new Hand); at.assign(3, 0);
        for (int i = 0; i < int(NETS.size()); ++i) {
            std::string p = dir + "/net" + std::to_string(i); Module::Save(p, build(i)); files.push_back({"net", i + 1, p, slurp(p)});
        }
        std::string good = files[1].bytes, half = good.substr(0, r.in(1, int(good.size()) - 1)), junk; for (int i = 0; i < 200; ++i) junk += char(r(256));
        for (auto &x : std::vector<std::pair<std::string, std::string>>{{"half", half}, {"junk", junk}, {"empty", ""}}) { std::string p = dir + "/" + x.first; spill(p, x.second); files.push_back({"bad", 0, p, x.second}); }
        files.push_back({"bad", 0, dir + "/missing", ""}); files.push_back({"bad", 0, dir, ""});
        for (int i = 0; i < 2; ++i) { std::string p = dir + "/ten" + std::to_string(i); unlink(p.c_str()); files.push_back({"ten", 0, p, ""}); }
        files.push_back({"noway", 0, dir + "/no/way", ""});
        { std::vector<Raw> fs; for (auto &f : files) fs.push_back(Raw{J().f("k", f.kind).f("net", f.net).str()}); J().f("ev", "reset").f("nets", NETS).f("files", fs).emit(); }

        auto any = [&](char k, int null_pct) { VI v = of(k); if (v.empty() || r.p(null_pct)) return 0; return r.pick(v); };
        auto whole = [&](int null_pct) { VI v; for (int h : of('T')) if (!objs[h].slice) v.push_back(h); if (v.empty() || r.p(null_pct)) return 0; return r.pick(v); };
        auto plain = [&](int null_pct) { VI v; for (int h : of('T')) if (!objs[h].slice && !objs[h].packed) v.push_back(h); if (v.empty() || r.p(null_pct)) return 0; return r.pick(v); };
        auto seal = [&](int h) { if (h) for (int g : objs[h].grp) sealed.insert(g); };
        auto ev = [&](const std::string &fn, int h, const VI &a, const VI &hs, const std::string &n, const VI &d, bool b) {
            J j; j.f("ev", "call").f("fn", fn).f("h", h).f("a", a).f("hs", hs).f("n", n).f("d", d).f("b", b); return j; };
        const VI no;
        auto device = [&]() -> std::string { int k = r(20); return k == 0 ? "null" : k == 1 ? "bad" : k == 2 ? "nulltype" : k == 3 ? "long" : "cpu"; };
        auto options = [&]() -> std::string { int k = r(6); return k == 0 ? "null" : k == 1 ? "--no-pack" : k == 2 ? "--filter" : k == 3 ? "--what else" : ""; };
        for (int s = 0; s < steps; ++s) {
            int t = r(3), what = r(100);
            if (of('T').size() > 14) { VI v = of('T'); release(r, r.pick(v), t); continue; }
            if (of('B').size() > 5) { VI v; for (int h : of('B')) if (std::find(at.begin(), at.end(), h) == at.end()) v.push_back(h); if (!v.empty()) { release(r, r.pick(v), t); continue; } }
            if (what < 8 || of('T').size() < 2) {                                        // new tensors
                VI shape; int dims = r.p(85) ? r.in(1, 4) : r.in(0, 5); for (int i = 0; i < dims; ++i) shape.push_back(r.p(95) ? r.in(1, 3) : 0);
                bool nullshape = r.p(5); VI tell = nullshape ? VI() : shape;
                if (!nullshape && dims && r.p(4)) { for (auto &x : shape) if (x == 0) x = 2; shape[r(dims)] = -r.in(1, 3); tell = shape; }
                auto ty = r.pick(TYPES); if (r.p(4)) ty = {"wrong", 99};
                bool flow = r.p(25), data = ty.second == 99 ? !flow : r.p(85); int where = r(2);
                if (flow && ty.second == 99) ty = TYPES[0];
                if (ty.second == 99) { for (auto &x : shape) if (x == 0) x = 2; tell = nullshape ? VI() : shape; }
                int n = 1; for (int x : tell) n *= x < 0 ? 1 : x;
                VI d; for (int i = 0; i < n; ++i) d.push_back(r(100));
                Tensor src = tensor_of(ty.second == 99 ? INT32 : DTYPE(ty.second), {n}, d);
                J j = ev(flow ? "new_in_flow" : "new", 0, tell, no, ty.first, d, data);
                const int32_t *sp = nullshape ? nullptr : shape.data(); static int32_t none_[1]; if (!nullshape && shape.empty()) sp = none_;
                int len = nullshape ? r(3) : dims;
                auto o = call(t, j, [&] { ts_Tensor *y = flow ? ts_new_Tensor_in_flow(ts_InFlow(where), sp, len, ts_DTYPE(ty.second), data ? src.data() : nullptr) : ts_new_Tensor(sp, len, ts_DTYPE(ty.second), data ? src.data() : nullptr);
                    if (y && !data && T(y).count() == src.count()) std::memcpy(T(y).data(), src.data(), size_t(src.count() * src.proto().type_bytes())); return made('T', y); });
                if (flow) seal(o.i[0]);
            } else if (what < 12) {                                                      // looking at tensors
                int h = any('T', 8); std::string fn = r.pick(VS{"shape", "data", "dtype", "shape_size", "packed", "fields_count"});
                J j = ev(fn, h, no, no, "", no, false);
                ts_Tensor *p = PT(h);
                call(t, j, [&]() -> Out {
                    Out o;
                    if (fn == "shape") { auto q = ts_Tensor_shape(p); o.fail = !q; if (q && p) for (size_t i = 0; i < T(p).dims(); ++i) o.i.push_back(q[i]); if (p && T(p).dims() == 0) o.fail = false; }
                    else if (fn == "data") { auto q = ts_Tensor_data(p); o.fail = !q; if (q) { Tensor w(Memory(MemoryDevice(CPU), q, size_t(T(p).count() * T(p).proto().type_bytes())), T(p).proto()); o.o = {tj1(w)}; } else if (p) o.o = {tj1(T(p).field(0))}; }
                    else if (fn == "dtype") { auto q = ts_Tensor_dtype(p); o.fail = q == TS_VOID; o.o = {Raw{J().f("t", dts(DTYPE(q))).f("s", VI()).f("d", VI()).str()}}; }
                    else if (fn == "shape_size") o = number(ts_Tensor_shape_size(p));
                    else if (fn == "packed") o = number(ts_Tensor_packed(p) ? 1 : 0);
                    else o = number(ts_Tensor_fields_count(p));
                    return o;
                });
            } else if (what < 26) {                                                      // tensors of tensors
                std::string fn = r.pick(VS{"clone", "clone", "cast", "cast", "reshape", "reshape", "field", "field", "pack", "pack", "slice", "slice2", "view", "sync"});
                bool sl = fn == "slice" || fn == "slice2";
                int h = fn == "clone" ? any('T', 6) : fn == "field" ? whole(6) : plain(6);
                ts_Tensor *p = PT(h); VI sz; if (p) for (int x : T(p).sizes()) sz.push_back(x);
                VI a, hs; std::string n; bool b = false; auto ty = r.pick(TYPES); if (r.p(6)) ty = {"wrong", 99};
                std::set<int> grp; if (h) grp = objs[h].grp;
                std::vector<ts_Tensor *> ps;
                if (fn == "cast") n = ty.first;
                if (fn == "reshape") { if (r.p(15)) b = true; else { int c = 1; for (int x : sz) c *= x; int k = r(5); a = k == 0 ? VI{c} : k == 1 ? VI{1, c} : k == 2 ? VI{-1, r.in(1, 3)} : k == 3 ? VI{-1, r.in(-1, 2)} : VI{r.in(0, 3), r.in(1, 3)}; } }
                if (fn == "field") a = {r.in(-2, 3)};
                if (sl) a = {r.in(-1, 3), r.in(-1, 3)};
                if (fn == "view") a = {r(2)};
                if (fn == "pack") { h = 0; grp.clear(); int k = r.in(1, 3); b = r.p(5); for (int i = 0; i < k; ++i) { int x = plain(4); hs.push_back(x); ps.push_back(PT(x)); if (x) grp.insert(objs[x].grp.begin(), objs[x].grp.end()); } }
                if (fn == "clone" || fn == "cast") grp.clear();
                J j = ev(fn, h, a, hs, n, no, b);
                if (fn == "sync") { call(t, j, [&] { return flag(ts_Tensor_sync_cpu(p)); }); seal(h); continue; }
                auto o = call(t, j, [&] {
                    return made('T', fn == "clone" ? ts_Tensor_clone(p) : fn == "cast" ? ts_Tensor_cast(p, ts_DTYPE(ty.second)) : fn == "reshape" ? ts_Tensor_reshape(p, b ? nullptr : a.data(), b ? 2 : int(a.size()))
                        : fn == "field" ? ts_Tensor_field(p, a[0]) : fn == "pack" ? ts_Tensor_pack(b ? nullptr : ps.data(), int(ps.size())) : fn == "slice" ? ts_Tensor_slice(p, a[0]) : fn == "slice2" ? ts_Tensor_slice_v2(p, a[0], a[1]) : ts_Tensor_view_in_flow(p, ts_InFlow(a[0])));
                }, grp);
                if (sl && o.i[0]) objs[o.i[0]].slice = true;
                if (fn == "view" || fn == "cast") { seal(h); seal(o.i[0]); }
            } else if (what < 29) {                                                      // writing through the data pointer
                VI v; for (int h : of('T')) { bool ok = T(P(h)).count() > 0 && (T(P(h)).dtype() == INT32 || T(P(h)).dtype() == FLOAT32); for (int g : objs[h].grp) if (sealed.count(g)) ok = false; if (ok) v.push_back(h); }
                if (v.empty()) continue;
                int h = r.pick(v), i = r(T(P(h)).count()), x = r(100);
                if (T(P(h)).dtype() == INT32) static_cast<int32_t *>(T(P(h)).data())[i] = x; else static_cast<float *>(T(P(h)).data())[i] = float(x);
                J().f("ev", "poke").f("h", h).f("i", i).f("x", x).emit();
            } else if (what < 32) {                                                      // files of tensors
                bool save = r.p(60); int f = r.in(1, int(files.size())); if (r.p(75)) { VI v; for (size_t i = 0; i < files.size(); ++i) if (files[i].kind == "ten") v.push_back(int(i) + 1); f = r.pick(v); }
                if (files[f - 1].kind == "net" || (save && files[f - 1].kind == "bad" && f != 9)) continue;
                int h = save ? plain(6) : 0; bool b = r.p(5);
                J j = ev(save ? "save" : "load", h, {f}, no, "", no, b); const char *path = b ? nullptr : files[f - 1].path.c_str();
                if (save) call(t, j, [&] { return flag(ts_Tensor_save(path, PT(h))); }); else call(t, j, [&] { return made('T', ts_Tensor_load(path)); });
            } else if (what < 39 || of('M').empty()) {                                   // modules
                int f = r.p(70) ? r.in(1, int(NETS.size())) : r.in(1, int(NETS.size()) + 5), k = r(6); int fmt = r.p(5) ? 1 : 0; auto &file = files[f - 1];
                std::string mode = r.p(70) ? "good" : r.pick(VS{"short", "throws", "nullobj", "nullread", "nullrewind"});
                if (mode == "nullrewind" && k < 3) mode = "nullobj";
                Source src; src.s = mode == "short" ? file.bytes.substr(0, file.bytes.size() / 2) : file.bytes; src.throws = mode == "throws";
                if (k < 2) { if (mode != "nullobj") mode = "good"; }
                std::string key = "0123456789abcdef";
                J j = ev(k < 2 ? "module" : "module_stream", 0, {f, fmt}, no, mode, no, false);
                void *so = mode == "nullobj" ? nullptr : static_cast<void *>(&src); auto rd = mode == "nullread" ? nullptr : source_read; auto rw = mode == "nullrewind" ? nullptr : source_rewind;
                const char *path = mode == "nullobj" ? nullptr : file.path.c_str();
                call(t, j, [&] { return made('M', k == 0 ? ts_Module_Load(path, ts_SerializationFormat(fmt)) : k == 1 ? ts_Module_LoadV2(path, key.data(), 16, ts_SerializationFormat(fmt))
                    : k < 5 - (mode == "nullrewind") ? ts_Module_LoadFromStream(so, rd, ts_SerializationFormat(fmt)) : ts_Module_LoadFromStreamV2(so, rd, rw, key.data(), 16, ts_SerializationFormat(fmt))); });
            } else if (what < 42) {                                                      // modules of modules
                int h = any('M', 8);
                { int g = any('M', 8); VI a = {r.in(-1, 2), r.in(-1, 2)}; J j = ev("fusion", h, a, {g}, "", no, false); call(t, j, [&] { return made('O', ts_Module_Fusion(static_cast<ts_Module *>(P(h)), a[0], static_cast<ts_Module *>(P(g)), a[1])); }); }
            } else if (what < 47) {                                                      // programs
                bool odd = !of('O').empty() && r.p(20); char pk = odd ? 'Q' : 'P';
                int m = any(odd ? 'O' : 'M', 6), k = r(4); auto d = device(); auto o = options(); ts_Device x = dev_of(d); auto dp = d == "null" ? nullptr : &x; auto op = o == "null" ? nullptr : o.c_str();
                auto mp = static_cast<ts_Module *>(P(m));
                if (k < 2) { J j = ev("compile", m, no, no, d, no, k == 1 && o == "null"); call(t, j, [&] { return made(pk, k ? ts_Program_Compile_v2(mp, dp, op) : ts_Program_Compile(mp, dp)); }); }
                else { int b = any('B', 6); auto bp = static_cast<ts_Workbench *>(P(b)); J j = ev("bench_compile", b, no, {m}, "", no, k == 3 && o == "null"); call(t, j, [&] { return made(pk, k == 3 ? ts_Workbench_compile_v2(bp, mp, op) : ts_Workbench_compile(bp, mp)); }); }
            } else if (what < 52) {
                int h = any('P', 6), k = r(4); auto p = static_cast<ts_Program *>(P(h));
                if (k < 2) { J j = ev("program_clone", h, no, no, "", no, false); call(t, j, [&] { return made('P', ts_Program_clone(p)); }); }
                else { J j = ev(k == 2 ? "input_count" : "output_count", h, no, no, "", no, false); call(t, j, [&] { return number(k == 2 ? ts_Program_input_count(p) : ts_Program_output_count(p)); }); }
            } else if (what < 58 || of('B').empty()) {                                   // sessions
                int k = r(5);
                if (k < 3) { int m = any('M', 6); auto d = device(); auto o = options(); ts_Device x = dev_of(d); auto dp = d == "null" ? nullptr : &x; auto op = o == "null" ? nullptr : o.c_str(); auto mp = static_cast<ts_Module *>(P(m));
                    J j = ev("bench_load", m, no, no, d, no, k == 2 && o == "null"); call(t, j, [&] { return made('B', k == 2 ? ts_Workbench_Load_v2(mp, dp, op) : ts_Workbench_Load(mp, dp)); }); }
                else if (k == 3) { auto d = device(); ts_Device x = dev_of(d); J j = ev("bench_new", 0, no, no, d, no, false); call(t, j, [&] { return made('B', ts_new_Workbench(d == "null" ? nullptr : &x)); }); }
                else { int b = any('B', 6); J j = ev("bench_clone", b, no, no, "", no, false); call(t, j, [&] { return made('B', ts_Workbench_clone(static_cast<ts_Workbench *>(P(b)))); }); }
            } else if (what < 84) {
                int b = any('B', 3); auto bp = static_cast<ts_Workbench *>(P(b));
                std::string fn = r.pick(VS{"setup", "setup_context", "input", "input", "input", "input_by_name", "input_by_name", "feed", "feed", "feed", "run", "run", "run", "run", "output", "output", "output", "output_by_name", "output_by_name", "hook", "bench_inputs", "bench_outputs", "threads", "summary", "set_param", "set_param", "set_param", "bind", "bind_by_name", "cpu_mode"});
                if (fn == "setup") { int p = any('P', 6); J j = ev(fn, b, no, {p}, "", no, false); call(t, j, [&] { return flag(ts_Workbench_setup(bp, static_cast<ts_Program *>(P(p)))); }); }
                else if (fn == "setup_context") { J j = ev(fn, b, no, no, "", no, false); auto o = call(t, j, [&] { return flag(ts_Workbench_setup_context(bp)); }); if (!o.fail) at[t] = b; }
                else if (fn == "input") { int x = plain(5), i = r.in(-1, 2); J j = ev(fn, b, {i}, {x}, "", no, false); call(t, j, [&] { return flag(ts_Workbench_input(bp, i, PT(x))); }); seal(x); }
                else if (fn == "feed") { if (!b) continue; int c = ts_Workbench_input_count(bp); for (int i = 0; i < c; ++i) { int x = plain(0); if (!x) continue; J j = ev("input", b, {i}, {x}, "", no, false); call(t, j, [&] { return flag(ts_Workbench_input(bp, i, PT(x))); }); seal(x); }
                    J j = ev("run", b, no, no, "", no, false); call(t, j, [&] { return flag(ts_Workbench_run(bp)); }); }
                else if (fn == "input_by_name") { int x = plain(5); std::string n = r.pick(VS{"a", "b", "a", "zz", "null"}); J j = ev(fn, b, no, {x}, n, no, false); call(t, j, [&] { return flag(ts_Workbench_input_by_name(bp, n == "null" ? nullptr : n.c_str(), PT(x))); }); seal(x); }
                else if (fn == "run") { J j = ev(fn, b, no, no, "", no, false); call(t, j, [&] { return flag(ts_Workbench_run(bp)); }); }
                else if (fn == "hook") { VS names; int k = r.in(0, 2); bool bad = false; for (int i = 0; i < k; ++i) { names.push_back(r.pick(VS{"m", "y1", "y2", "zz"})); } std::vector<const char *> cs; for (auto &n : names) cs.push_back(n.c_str()); cs.push_back(nullptr); bad = r.p(8); bool nul = r.p(5);
                    J j = ev(fn, b, no, no, "", no, bad || nul); j.f("ns", names); call(t, j, [&] { return flag(ts_Workbench_run_hook(bp, nul ? nullptr : cs.data(), int(names.size()) + (bad ? 1 : 0))); }); }
                else if (fn == "output" || fn == "output_by_name") {
                    bool by = fn == "output_by_name"; int x = whole(5), i = r.in(-1, 2); std::string n = r.pick(VS{"y1", "y2", "y1", "m", "a", "zz", "null"});
                    if (x) { bool has = false; for (auto &o : objs) if (o.second.slice) for (int g : o.second.grp) if (objs[x].grp.count(g)) has = true; if (has) continue; }
                    J j = ev(fn, b, {i}, {x}, by ? n : "", no, false);
                    auto o = call(t, j, [&] { Out o = flag(by ? ts_Workbench_output_by_name(bp, n == "null" ? nullptr : n.c_str(), PT(x)) : ts_Workbench_output(bp, i, PT(x))); if (!o.fail && x) o.o = tjs(T(P(x))); return o; });
                    if (x && !o.fail) { objs[x].grp = {next_g++}; objs[x].packed = T(P(x)).packed(); seal(x); }
                }
                else if (fn == "bench_inputs" || fn == "bench_outputs") { J j = ev(fn, b, no, no, "", no, false); call(t, j, [&] { return number(fn == "bench_inputs" ? ts_Workbench_input_count(bp) : ts_Workbench_output_count(bp)); }); }
                else if (fn == "threads") { int k = r.in(1, 3); J j = ev(fn, b, {k}, no, "", no, false); call(t, j, [&] { return flag(ts_Workbench_set_computing_thread_number(bp, k)); }); }
                else if (fn == "summary") { J j = ev(fn, b, no, no, "", no, false); call(t, j, [&] { auto q = ts_Workbench_summary(bp); Out o; o.fail = !q; o.i = {q && q[0] == '{'}; return o; }); }
                else if (fn == "cpu_mode") { J j = ev(fn, 0, no, no, "", no, false); call(t, j, [&] { return flag(ts_Workbench_set_cpu_mode(nullptr, TS_CPU_BALANCE)); }); }
                else if (fn == "set_param") {
                    bool prog = r.p(40); int h = prog ? any('P', 5) : b; std::string n = r.pick(VS{"y1", "y2", "m", "y1", "zz", "null"}); int x = r(50); bool nul = r.p(5);
                    if (n == "y1" || n == "y2" || n == "m") { }                          // only of plug-ins: the others know no such value
                    int32_t one = 1; ts_Tensor *v = new ts_Tensor(tensor_of(INT32, {1}, {x})); (void) one;
                    J j = ev(prog ? "program_set_param" : "bench_set_param", h, {x}, no, n, no, nul);
                    const char *np = n == "null" ? nullptr : n.c_str(); bool noparam = nul && r.p(50);
                    call(t, j, [&] { auto vp = nul && !noparam ? nullptr : v; auto kp = noparam ? nullptr : "k"; return flag(prog ? ts_Program_set_operator_param(static_cast<ts_Program *>(P(h)), np, kp, vp) : ts_Workbench_set_operator_param(bp, np, kp, vp)); });
                    delete v;
                }
                else { bool by = fn == "bind_by_name"; int f = any('F', 8), i = r.in(-1, 2); std::string n = r.pick(VS{"a", "b", "zz", "null"}); J j = ev(fn, b, {i}, {f}, by ? n : "", no, false); auto fp = static_cast<ts_ImageFilter *>(P(f));
                    call(t, j, [&] { return flag(by ? ts_Workbench_bind_filter_by_name(bp, n == "null" ? nullptr : n.c_str(), fp) : ts_Workbench_bind_filter(bp, i, fp)); }); }
            } else if (what < 88) {                                                      // filters
                int f = any('F', 5); auto fp = static_cast<ts_ImageFilter *>(P(f)); std::string fn = of('F').empty() || r.p(12) ? "filter_new" : r.pick(VS{"to_float", "to_float", "scale2", "scale2", "filter_clear", "filter_compile", "filter_run", "filter_run", "filter_run", "filter_module", "filter_null"});
                if (fn == "filter_new") { auto d = r.p(90) ? "cpu" : std::string("null"); ts_Device x = dev_of(d); J j = ev(fn, 0, no, no, d, no, false); call(t, j, [&] { return made('F', ts_new_ImageFilter(d == "null" ? nullptr : &x)); }); }
                else if (fn == "filter_run") { VI v = {0}; for (int h : of('T')) if (!objs[h].slice && !objs[h].packed && T(P(h)).dims() == 4 && T(P(h)).count()) v.push_back(h); int x = r.pick(v); J j = ev(fn, f, no, {x}, "", no, false); auto o = call(t, j, [&] { return made('T', ts_ImageFilter_run(fp, PT(x))); }); seal(x); seal(o.i[0]); }
                else if (fn == "filter_module") { J j = ev(fn, f, no, no, "", no, false); call(t, j, [&] { return made('O', ts_ImageFilter_module(fp)); }); }
                else if (fn == "filter_null") { float one[3] = {1, 1, 1}; int32_t idx[3] = {2, 1, 0}; int k = r(16); J j = ev(fn, 0, {k}, no, "", no, false); bool args = r.p(40); auto q = args ? fp : nullptr;
                    if (args && !fp) continue;
                    if (args && k > 3) k = r(4);
                    call(t, j, [&] { return flag(k == 0 ? ts_ImageFilter_sub_mean(q, args ? nullptr : one, 3) : k == 1 ? ts_ImageFilter_div_std(q, args ? nullptr : one, 3) : k == 2 ? ts_ImageFilter_channel_swap(q, args ? nullptr : idx, 3) : k == 3 ? ts_ImageFilter_force_gray_v2(q, args ? nullptr : one, 3)
                        : k == 4 ? ts_ImageFilter_resize(q, 2, 2) : k == 5 ? ts_ImageFilter_resize_scalar(q, 2) : k == 6 ? ts_ImageFilter_center_crop(q, 2, 2) : k == 7 ? ts_ImageFilter_to_chw(q) : k == 8 ? ts_ImageFilter_prewhiten(q) : k == 9 ? ts_ImageFilter_letterbox(q, 2, 2, 0) : k == 10 ? ts_ImageFilter_divided(q, 2, 2, 0)
                        : k == 11 ? ts_ImageFilter_resize_v2(q, 2, 2, TS_RESIZE_BILINEAR) : k == 12 ? ts_ImageFilter_letterbox_v2(q, 2, 2, 0, TS_RESIZE_BILINEAR) : k == 13 ? ts_ImageFilter_force_color(q) : k == 14 ? ts_ImageFilter_force_gray(q) : ts_ImageFilter_norm_image(q, 1)); }); }
                else { J j = ev(fn, f, no, no, "", no, false); call(t, j, [&] { return flag(fn == "to_float" ? ts_ImageFilter_to_float(fp) : fn == "scale2" ? ts_ImageFilter_scale(fp, 2) : fn == "filter_clear" ? ts_ImageFilter_clear(fp) : ts_ImageFilter_compile(fp)); }); }
            } else if (what < 91) {                                                      // operators done at once
                std::string fn = r.pick(VS{"it_transpose", "it_transpose", "it_concat", "it_cast", "it_sigmoid", "it_softmax"});
                int x = plain(6); if (x && (fn == "it_sigmoid" || fn == "it_softmax") && T(P(x)).dtype() != FLOAT32) continue;
                if (x && T(P(x)).count() == 0) continue;
                VI a, hs; auto ty = r.pick(TYPES); if (ty.second == TS_CHAR8) ty = TYPES[0];
                if (fn == "it_transpose") { int n = x ? int(T(P(x)).dims()) : 2; for (int i = n; i > 0; --i) a.push_back(i - 1); if (a.empty()) continue; }
                if (fn == "it_concat") hs = {x, r.p(90) ? x : 0};
                if (x && T(P(x)).dims() == 0) continue;
                bool nul = fn == "it_transpose" && r.p(6);
                std::vector<const ts_Tensor *> ps; for (int h : hs) ps.push_back(PT(h));
                J j = ev(fn, x, a, hs, fn == "it_cast" ? ty.first : "", no, nul);
                auto o = call(t, j, [&] { return made('T', fn == "it_transpose" ? ts_intime_transpose(PT(x), nul ? nullptr : a.data(), int(a.size())) : fn == "it_concat" ? ts_intime_concat(ps.data(), int(ps.size()), 0) : fn == "it_cast" ? ts_intime_cast(PT(x), ts_DTYPE(ty.second)) : fn == "it_sigmoid" ? ts_intime_sigmoid(PT(x)) : ts_intime_softmax(PT(x), 0, 1)); });
                seal(x); seal(o.i[0]);
            } else if (what < 94) {                                                      // the plug-in changes its mind
                static const VS ms = {"ok", "ok", "ok", "ok", "ok", "ok", "ok", "null", "say", "throw", "throw2", "std", "int", "inner", "inner0"};
                auto mode = [&](bool can_null) { for (;;) { auto m = r.pick(ms); if (!can_null && (m == "null" || m == "say" || m == "inner0")) continue; return m; } };
                bool calm = r.p(55);
                g_mode = Modes(); if (!calm) { if (r.p(30)) g_mode.make = mode(true); if (r.p(40)) g_mode.init = mode(true); if (r.p(40)) g_mode.infer = mode(true); if (r.p(60)) g_mode.run = mode(true); if (r.p(40)) g_mode.release = mode(false); }
                g_text = "vf says " + std::to_string(++serial) + ".";
                J().f("ev", "plug").f("make", g_mode.make).f("init", g_mode.init).f("infer", g_mode.infer).f("run", g_mode.run).emit();
            } else if (what < 96) {                                                      // messages, registration, plain nulls
                int k = r(12); std::string n; const char *m = nullptr; std::string fn = k < 3 ? "set_message" : "bad_call";
                std::string m1 = "hello " + std::to_string(r(1000));
                if (k == 0) { n = "some"; m = m1.c_str(); } if (k == 1) { n = "empty"; m = ""; } if (k == 2) n = "null";
                J j = ev(fn, 0, {k}, no, n, no, false);
                call(t, j, [&]() -> Out {
                    Out o = none();
                    switch (k) {
                        case 0: case 1: case 2: ts_set_error_message(m); break;
                        case 3: ts_Operator_Register(nullptr, "vf_x", plug_new, plug_free, plug_init, nullptr, plug_run); break;
                        case 4: ts_Operator_Register("cpu", nullptr, plug_new, plug_free, plug_init, nullptr, plug_run); break;
                        case 5: ts_Operator_Register("cpu", "vf_x", nullptr, plug_free, plug_init, nullptr, plug_run); break;
                        case 6: ts_Operator_RegisterEx("cpu", "vf_x", plug_new, plug_free, nullptr, nullptr, plug_run); break;
                        case 7: ts_Operator_RegisterEx(nullptr, nullptr, plug_new, plug_free, plug_init_ex, nullptr, plug_run); break;
                        case 8: o = made('T', ts_OperatorParams_get(nullptr, "k")); break;
                        case 9: ts_plugin_flush_creator(nullptr); break;
                        case 10: ts_plugin_bind_device_context(nullptr); break;
                        default: o.kind = 0; o.fail = ts_plugin_initial_device_context(nullptr) == nullptr; break;
                    }
                    return o;
                });
            } else if (what < 98) {                                                      // shapes told by the plug-in
                VI fmt; int n = r.p(80) ? r.in(1, 3) : r.in(-1, 4); fmt.push_back(n);
                for (int i = 0; i < std::max(n, 1); ++i) { fmt.push_back(r.pick(VI{1, 2, 5, 10, 11})); int d = r.in(0, 3); fmt.push_back(r.p(92) ? d : r.pick(VI{-1, 7, 1000000})); for (int q = 0; q < d; ++q) fmt.push_back(r.in(1, 9)); }
                if (r.p(20)) fmt.resize(r.in(1, int(fmt.size()))); if (r.p(5)) fmt[0] = r.pick(VI{0, 1000000000, -5});
                std::vector<Raw> got; std::string err, op = r.p(50) ? "vf_plug" : "vf_plugx";
                hands[t]->run([&] {
                    err = guard([&] {
                        Workbench bench(ComputingDevice(CPU, 0)); Bubble b(op, "x"); b.set("fmt", tensor::build(INT32, Shape({int(fmt.size())}), fmt));
                        auto o = bench.offline_create(b, false);
                        std::vector<Tensor::Prototype> ps; bench.offline_infer(o, {tensor_of(INT32, {2}, {1, 2})}, ps);
                        for (auto &p : ps) got.push_back(Raw{J().f("t", int(p.dtype())).f("s", VI(p.sizes().begin(), p.sizes().end())).str()});
                    });
                    ts_free_Tensor(nullptr); hands[t]->last = ts_last_error_message();
                });
                J().f("ev", "infer").f("op", op).f("fmt", fmt).f("err", err).f("got", got).emit();
            } else if (what < 99) { VI v; for (auto &o : objs) if (o.second.kind != 'B' || std::find(at.begin(), at.end(), o.first) == at.end()) v.push_back(o.first); if (!v.empty() && r.p(60)) release(r, r.pick(v), t); else { int k = r(5); J j = ev(std::string("free_") + "TMPBF"[k], 0, no, no, "", no, false); call(t, j, [&] { switch (k) { case 0: ts_free_Tensor(nullptr); break; case 1: ts_free_Module(nullptr); break; case 2: ts_free_Program(nullptr); break; case 3: ts_free_Workbench(nullptr); break; default: ts_free_ImageFilter(nullptr); } return none(); }); } }
            else {                                                                       // all at once, each minding its own messages
                Modes keep = g_mode; g_mode = Modes();
                std::vector<int> bad(3, 0); std::vector<uint64_t> seeds; for (int i = 0; i < 3; ++i) seeds.push_back(r(1000000));
                // sessions of their own, or clones of one that shares what it holds; all look at one tensor
                std::string from = files[r(int(NETS.size()))].path; ts_Device cpu = dev_of("cpu"); bool own = r.p(50);
                ts_Module *m = ts_Module_Load(from.c_str(), TS_BINARY); ts_Workbench *root = ts_Workbench_Load(m, &cpu), *bs[3]; ts_free_Module(m);
                for (auto &b : bs) b = own ? nullptr : ts_Workbench_clone(root);
                int32_t one_shape[2] = {2, 2}, one_data[4] = {r(9), r(9), r(9), r(9)}; ts_Tensor *one = ts_new_Tensor(one_shape, 2, TS_INT32, one_data);
                for (int i = 0; i < 3; ++i) hands[i]->start([&, i] {
                    Rng q(seeds[i]); auto silent = [&] { if (*ts_last_error_message()) ++bad[i]; };
                    ts_Workbench *b = bs[i];
                    if (!b) { ts_Module *mine = ts_Module_Load(from.c_str(), TS_BINARY); b = ts_Workbench_Load(mine, &cpu); silent(); ts_free_Module(mine); }
                    if (!b) { ++bad[i]; return; }
                    for (int k = 0; k < 30; ++k) {
                        if (q.p(50)) {
                            std::string n = dir + "/none_" + std::to_string(i) + "_" + std::to_string(k);
                            if (q.p(50)) { if (ts_Module_Load(n.c_str(), TS_BINARY)) ++bad[i]; } else if (ts_Tensor_load(n.c_str())) ++bad[i];
                            if (q.p(50)) std::this_thread::yield();
                            if (std::string(ts_last_error_message()).find(n) == std::string::npos) ++bad[i];
                        } else {
                            bool same = q.p(50); int32_t shape[2] = {2, 2}, d[4] = {q(9), q(9), q(9), i}; if (same) std::memcpy(d, one_data, sizeof(d));
                            ts_Tensor *x = same ? one : ts_new_Tensor(shape, 2, TS_INT32, d), *y = ts_new_Tensor(nullptr, 0, TS_INT32, nullptr); silent();
                            for (int s2 = 0; s2 < ts_Workbench_input_count(b); ++s2) ts_Workbench_input(b, s2, x);
                            if (!ts_Workbench_run(b)) ++bad[i]; silent();
                            if (q.p(50)) std::this_thread::yield();
                            if (!ts_Workbench_output(b, 0, y) || ts_Tensor_shape_size(y) != 2 || std::memcmp(ts_Tensor_data(y), d, sizeof(d))) ++bad[i];
                            silent(); if (!same) ts_free_Tensor(x); ts_free_Tensor(y);
                        }
                    }
                    ts_free_Workbench(b); silent(); hands[i]->last = "";
                });
                for (auto &h : hands) h->wait();
                ts_free_Tensor(one); ts_free_Workbench(root); g_mode = keep;
                J().f("ev", "storm").f("bad", bad[0] + bad[1] + bad[2]).emit();
            }
        }
        // what is left is still good, whatever became of its origin
        { VI v = of('T'); for (int h : v) { J j = ev("data", h, no, no, "", no, false); ts_Tensor *p = PT(h); call(r(3), j, [&]() -> Out { Out o; auto q = ts_Tensor_data(p); o.fail = !q; o.o = {tj1(T(p).field(0))}; return o; }); } }
        hands.clear();
        { hands.emplace_back(new Hand); hands.emplace_back(new Hand); hands.emplace_back(new Hand); VI v; for (auto &o : objs) v.push_back(o.first); std::shuffle(v.begin(), v.end(), r.g);
          J().f("ev", "threads").emit();
          while (!objs.empty()) { int h = v.back(); v.pop_back(); if (objs.count(h)) release(r, h, r(3)); } }
        hands.clear();
    }
    for (auto &f : files) if (f.path != dir) unlink(f.path.c_str());
    rmdir(dir.c_str());
    return 0;
}
