// Image filters built, compiled, cloned, bound and run; every step also done by hand.  c21 TRACE SEED SEGMENTS STEPS
#include "ops.h"
#include "session.h"
#include "runtime/image_filter.h"
#include "compiler/compiler.h"
using namespace vf;
using namespace ts;
// a step: numbers a over d
struct Step { std::string k; VI a; int d; int m; };
static std::string js(const Step &s) { return J().f("k", s.k).f("a", s.a).f("d", s.d).f("m", s.m).str(); }
static std::vector<float> fl(const Step &s, size_t from = 0) { std::vector<float> v; for (size_t i = from; i < s.a.size(); ++i) v.push_back(float(s.a[i]) / float(s.d)); return v; }
static void apply(ImageFilter &f, const Step &s) {
    auto m = ImageFilter::ResizeMethod(s.m);
    if (s.k == "to_float") f.to_float();
    else if (s.k == "scale") f.scale(fl(s)[0]);
    else if (s.k == "sub_mean") f.sub_mean(fl(s));
    else if (s.k == "div_std") f.div_std(fl(s));
    else if (s.k == "resize") { if (s.m || s.a[0] % 2) f.resize(s.a[0], s.a[1], m); else f.resize(s.a[0], s.a[1]); }
    else if (s.k == "resize_short") { if (s.m || s.a[0] % 2) f.resize(s.a[0], m); else f.resize(s.a[0]); }
    else if (s.k == "center_crop") { if (s.a[0] == s.a[1]) f.center_crop(s.a[0]); else f.center_crop(s.a[0], s.a[1]); }
    else if (s.k == "channel_swap") f.channel_swap(s.a);
    else if (s.k == "to_chw") f.to_chw();
    else if (s.k == "prewhiten") f.prewhiten();
    else if (s.k == "norm_image") f.norm_image(1e-7f);
    else if (s.k == "letterbox") f.letterbox(s.a[0], s.a[1], float(s.a[2]), m);
    else if (s.k == "divided") f.divided(s.a[0], s.a[1], float(s.a[2]));
    else if (s.k == "force_color") f.force_color();
    else if (s.k == "force_gray") { if (s.a.empty()) f.force_gray(); else f.force_gray(fl(s)); }
    else internal("step " + s.k);
}
static std::vector<Tensor> vals;                              // token k is vals[k - 1]
static int token(const Tensor &t) {
    for (size_t i = 0; i < vals.size(); ++i) if (same_bytes(vals[i], t)) return int(i) + 1;
    vals.push_back(t.clone()); return int(vals.size());
}
static Step random_step(Rng &r, bool plain) {
    static const std::vector<std::string> ks = {"to_float", "scale", "scale", "sub_mean", "sub_mean", "div_std", "resize", "resize", "resize_short", "resize_short", "center_crop", "center_crop", "channel_swap", "channel_swap", "to_chw", "prewhiten", "norm_image", "letterbox", "letterbox", "divided", "force_color", "force_gray", "force_gray"};
    Step s; s.k = r.pick(ks); s.d = 1; s.m = 0; static const VI meth = {0, 0, 0, 2, 2, 1};
    int c = r.p(75) ? 3 : r.p(50) ? 1 : r.in(2, 4);
    auto many = [&](int lo, int hi) { for (int i = 0; i < c; ++i) s.a.push_back(r.in(lo, hi)); };
    auto size = [&]() { return !plain && r.p(4) ? r.in(-1, 0) : r.in(1, 9); };
    if (s.k == "scale") { s.d = r.p(50) ? 4 : 1; s.a = {r.in(-3, 8)}; }
    else if (s.k == "sub_mean") { s.d = r.p(40) ? 4 : 1; many(-9, 40); }
    else if (s.k == "div_std") { s.d = r.p(50) ? 4 : 1; many(1, 12); }
    else if (s.k == "resize" || s.k == "center_crop") { s.a = {size(), size()}; if (r.p(15)) s.a[1] = s.a[0]; }
    else if (s.k == "resize_short") s.a = {size()};
    else if (s.k == "letterbox") s.a = {size(), size(), r.p(50) ? 0 : r.in(0, 200)};
    else if (s.k == "divided") { s.a = {r.in(1, 5), r.in(1, 5), r.p(50) ? 0 : r.in(0, 200)}; }
    else if (s.k == "channel_swap") { if (c == 3 && r.p(50)) s.a = {2, 1, 0}; else many(0, r.p(85) ? c - 1 : c); }
    else if (s.k == "force_gray" && r.p(50)) { s.d = 4; c = r.p(85) ? 3 : r.in(1, 4); int left = 4; for (int i = 0; i < c; ++i) { s.a.push_back(r.in(0, left)); left -= s.a.back(); } }   // in all at most 1
    if (s.k.substr(0, 6) == "resize" || s.k == "letterbox") s.m = r.pick(meth);
    return s;
}
int main(int argc, char **argv) {
    if (argc < 5) return 77;
    vf::open(argv[1]); Rng r(std::strtoull(argv[2], nullptr, 10)); int segs = atoi(argv[3]), steps = atoi(argv[4]);
    setup_session();
    ComputingDevice cpu(CPU, 0);
    for (int seg = 0; seg < segs; ++seg) {
        vals.clear();
        J("reset").emit();
        Workbench bench(cpu); bench.runtime().set_computing_thread_number(r.p(50) ? 1 : r.in(2, 4));
        ctx::bind<Workbench> b1(bench); ctx::bind<DeviceContext> b2(bench.device()); ctx::bind<RuntimeContext> b3(bench.runtime());
        std::map<int, ImageFilter::shared> fs; std::map<int, std::vector<Step>> has; int nf = 0;
        std::set<std::pair<int, std::string>> known; std::vector<std::pair<Tensor, int>> held;
        bool small = r.p(50), plain = r.p(70); int hi = small ? 9 : 255;
        // one step, alone in a filter
        auto one = [&](int x, const Step &s) -> int {
            std::string key = js(s); Tensor in = vals[x - 1]; Tensor y; std::string e = guard([&] { ImageFilter f(cpu); apply(f, s); y = f.run(in); });
            int t = e == "" ? token(y) : 0;
            if (!known.insert(std::make_pair(x, key)).second && r.p(90)) return t;
            J j("one"); j.f("x", x).f("s", s).f("err", e).f("y", t);
            bool quart = s.k == "scale" || s.k == "sub_mean" || s.k == "div_std"; int q = quart ? 4 : 1; double most = 0; bool told = in.count() <= 260 && in.dims() >= 1;
            for (int i = 0; told && i < in.count(); ++i) { double v = element(in, i) * q; if (v != std::floor(v)) told = false; most = std::max(most, std::fabs(element(in, i))); }
            if (most > 300 || ((s.k == "prewhiten" || s.k == "norm_image") && (most > 15 || in.count() > 64 * in.size(0)))) told = false;
            int sc = quart || s.k == "prewhiten" || s.k == "norm_image" || s.k == "force_gray" ? 1000 : s.k == "letterbox" || s.k.substr(0, 6) == "resize" ? (s.m == 1 ? 10 : 1000) : 1;
            if (e == "" && y.count() > 600) told = false;
            j.f("told", told); if (told) { j.f("in", tj1(in, q)).f("sc", sc).f("q", q); if (e == "") j.f("out", tj1(y, sc)); }
            j.emit();
            return t;
        };
        auto chain = [&](int x, const std::vector<Step> &ss) { for (auto &s : ss) { x = one(x, s); if (!x) return; } };
        auto image = [&](bool bad) -> Tensor {
            int c = r.p(70) ? 3 : r.p(70) ? 1 : r.in(2, 4), h = r.in(1, 7), w = r.p(25) ? h : r.in(1, 7), n = r.p(50) ? 1 : r.in(2, 3); VI s;
            int k = r(100); if (k < 50) s = {n, h, w, c}; else if (k < 85 || !bad) s = {h, w, c}; else if (k < 92) s = {h, w}; else if (k < 95) s = {h}; else if (k < 97) s = {}; else s = {n, h, w, c, 1};
            DTYPE t = r.p(55) ? UINT8 : r.p(80) ? FLOAT32 : r.p(50) ? INT32 : FLOAT64; Tensor x = random_tensor(r, t, s, t == UINT8 || r.p(50) ? 0 : -hi, hi);
            if (t == FLOAT32 && r.p(35)) { for (int i = 0; i < x.count(); ++i) x.data<float>()[i] += float(r(4)) / 4; }
            return x;
        };
        Module::shared net; std::shared_ptr<Workbench> sess; bool bound = false; std::vector<Step> at_bind;
        for (int t = 0; t < steps; ++t) {
            int w = r(100);
            auto some = [&]() { auto it = fs.begin(); std::advance(it, r(int(fs.size()))); return it->first; };
            if (fs.empty() || (w < 8 && fs.size() < 4)) { int f = ++nf; fs[f] = r.p(50) ? std::make_shared<ImageFilter>() : std::make_shared<ImageFilter>(cpu); has[f]; J("new").f("f", f).emit(); }
            else if (w < 48) {
                int f = some(); if (has[f].size() >= 5) continue; Step s = random_step(r, plain);
                if (s.k != "to_float" && s.k != "force_color" && has[f].empty() && r.p(40)) { s = Step(); s.k = "to_float"; s.d = 1; s.m = 0; }
                std::string e = guard([&] { apply(*fs[f], s); }); if (e == "") has[f].push_back(s); J("add").f("f", f).f("s", s).f("err", e).emit();
            }
            else if (w < 52) { int f = some(); std::string e = guard([&] { fs[f]->compile(); }); J("compile").f("f", f).f("err", e).emit(); }
            else if (w < 56) { int f = some(); fs[f]->clear(); has[f].clear(); J("clear").f("f", f).emit(); }
            else if (w < 62) { int f = some(), g = ++nf; if (fs.size() > 4) { J("drop").f("f", f).emit(); fs.erase(f); has.erase(f); continue; } ImageFilter::shared c; std::string e = guard([&] { c = fs[f]->clone(); }); if (e == "") { fs[g] = c; has[g] = has[f]; } J("clone").f("f", f).f("g", g).f("err", e).emit(); }
            else if (w < 82) {
                int f = some(), x = token(image(true)), y = 0; chain(x, has[f]); Tensor o; std::string e = guard([&] { o = fs[f]->run(vals[x - 1]); });
                if (e == "") { y = token(o); if (held.size() < 6) held.push_back(std::make_pair(o, y)); }
                J("run").f("f", f).f("x", x).f("shape", shape_of(vals[x - 1])).f("err", e).f("y", y).emit();
            }
            else if (w < 88) {                                        // a batch, and every image of it
                int f = some(); Tensor im = image(false); if (im.dims() != 4 || im.size(0) < 2) continue; int x = token(im); Tensor o; std::string e = guard([&] { o = fs[f]->run(im); });
                if (e != "" || o.dims() != 4 || o.size(0) != im.size(0)) continue;
                VI each, cut; for (int i = 0; i < im.size(0); ++i) { Tensor p = im.slice(i).reshape({1, im.size(1), im.size(2), im.size(3)}), q; std::string e2 = guard([&] { q = fs[f]->run(p.clone()); }); each.push_back(e2 == "" ? token(q) : 0); cut.push_back(token(o.slice(i).reshape({1, o.size(1), o.size(2), o.size(3)}))); }
                J("batch").f("f", f).f("x", x).f("each", each).f("cut", cut).emit();
            }
            else if (w < 92) {                                        // as a network of its own
                int f = some(), x = 0, y = 0; Tensor im = image(false); if (im.dims() != 4) continue; x = token(im); chain(x, has[f]);
                std::string e = guard([&] { auto m = fs[f]->module(); auto b = std::make_shared<Workbench>(cpu); b->setup(b->compile(m)); b->input(0, im); b->run(); y = token(b->output(0)); });
                J("module").f("f", f).f("x", x).f("err", e).f("y", y).emit();
            }
            else if (!sess || w < 93) {
                sess = std::make_shared<Workbench>(cpu); bound = false; J("session").emit();
                std::string e = guard([&] { Graph g; ctx::bind<Graph> _g(g); auto p = bubble::param("in"); auto o = bubble::op("out", name::layer::copy(), {p}); net = std::make_shared<Module>(); net->load(g, {o}); sess->setup(sess->compile(net)); }, nullptr);
                if (e != "") internal("session");
            }
            else if (w < 96) { int f = some(); std::string e = guard([&] { if (r.p(50)) sess->bind_filter(0, fs[f]); else sess->bind_filter("in", fs[f]); }); if (e == "") { bound = true; at_bind = has[f]; } J("bind").f("f", f).f("err", e).emit(); }
            else {
                if (r.p(15)) { std::shared_ptr<Workbench> c; std::string e = guard([&] { c = sess->clone(); }); if (e == "") sess = c; J("sclone").f("err", e).emit(); }
                int x = token(image(true)), y = 0; Tensor o;
                if (bound) { auto im = vals[x - 1]; auto s = im.sizes(); if (s.size() >= 2 && s.size() <= 3) im = im.reshape(s.size() == 2 ? Shape({1, s[0], s[1], 1}) : Shape({1, s[0], s[1], s[2]})); chain(token(im), at_bind); }
                std::string e = guard([&] { sess->input(0, vals[x - 1]); sess->run(); o = sess->output(0); y = token(o); });
                auto im = vals[x - 1]; int x4 = x; auto s = im.sizes(); if (s.size() >= 2 && s.size() <= 3) x4 = token(im.reshape(s.size() == 2 ? Shape({1, s[0], s[1], 1}) : Shape({1, s[0], s[1], s[2]})));
                J("srun").f("x", x).f("x4", x4).f("dims", int(s.size())).f("err", e).f("y", y).emit();
            }
        }
        bool still = true; for (auto &h : held) still = still && same_bytes(h.first, vals[h.second - 1]);
        J("end").f("still", still).emit();
    }
    return 0;
}
