// Generators of calls of operators that compute.
#ifndef VF_OPS_MATH_H
#define VF_OPS_MATH_H
#include "ops_move.h"
namespace vf {
    inline bool is_float(DTYPE t) { return t == ts::FLOAT32 || t == ts::FLOAT64; }
    inline bool is_unsigned(DTYPE t) { return t == ts::UINT8 || t == ts::UINT16 || t == ts::UINT32 || t == ts::UINT64; }
    // random tensor with elements lo .. hi; those of floating point type are divided by q
    inline Tensor over(Rng &r, DTYPE t, const VI &s, int lo, int hi, int q = 1) {
        Tensor x = random_tensor(r, t, s, is_unsigned(t) ? std::max(0, lo) : lo, hi);
        if (q > 1 && t == ts::FLOAT32) for (int i = 0; i < x.count(); ++i) x.data<float>()[i] /= q;
        if (q > 1 && t == ts::FLOAT64) for (int i = 0; i < x.count(); ++i) x.data<double>()[i] /= q;
        return x;
    }
    inline DTYPE math_type(Rng &r) { return r.p(50) ? ts::FLOAT32 : any_type(r); }
    inline DTYPE float_type(Rng &r) { return r.p(70) ? ts::FLOAT32 : r.p(85) ? ts::FLOAT64 : any_type(r); }
    // a shape that broadcasts with s (mostly)
    inline VI partner(Rng &r, VI s) {
        switch (r(8)) {
            case 0: return {};
            case 1: return {1};
            case 2: { VI b(s.size(), 1); int k = r(int(s.size())); b[k] = s[k]; return b; }                    // one axis
            case 3: { VI b(s.begin() + r(int(s.size())), s.end()); return b; }                                  // the last axes
            case 4: { VI b = s; for (auto &d : b) if (r.p(50)) d = 1; return b; }
            case 5: { VI b = s; for (auto &d : b) if (r.p(50)) d = 1; b.erase(b.begin(), b.begin() + r(int(b.size()))); return b; }
            case 6: { VI b = s; if (r.p(60)) b[r(int(b.size()))] += r.in(0, 1); return b; }
            default: return s;
        }
    }
    // shapes: runs of every length around multiples of 4
    inline VI run_shape(Rng &r, int lo = 1, int hi = 4) { VI s = any_shape(r, lo, hi, 60); if (r.p(40)) s.back() = r.in(1, 13); while (prod(s) > 130) s[r(int(s.size()))] = 1; return s; }
    inline std::vector<std::pair<std::string, Gen>> math_gens() {
        std::vector<std::pair<std::string, Gen>> g;
        auto add = [&](const char *n, Gen f) { g.push_back({n, f}); };
        auto binary = [=](Rng &r, bool ints_only, bool divisor) {
            Case c; int qs[] = {1, 1, 2, 4}; c.q = qs[r(4)]; c.scale = 64; if (divisor) { c.scale = 1000; }
            more(r, c, [&] {
                VI s = run_shape(r), b = partner(r, s);
                if (r.p(20)) { s = partner(r, s); if (s.empty()) b = s.empty() && b.empty() ? VI{2, 3} : b; }       // both sides have ones
                DTYPE t = ints_only ? r.pick(std::vector<DTYPE>{ts::INT32, ts::INT32, ts::INT8, ts::UINT8, ts::INT16, ts::UINT16, ts::INT64, ts::UINT32, ts::UINT64}) : math_type(r);
                DTYPE u = r.p(75) ? t : ints_only ? r.pick(std::vector<DTYPE>{ts::INT32, ts::UINT8, ts::INT16, ts::INT64}) : any_type(r);
                int hi = r.p(80) ? 20 : 99;
                Tensor x = over(r, t, s, -hi, hi, c.q), y = over(r, u, b, divisor && ints_only ? 1 : divisor ? -9 : -hi, divisor ? 9 : hi, c.q);
                if (!divisor && r.p(50)) std::swap(x, y);
                return std::vector<Tensor>{x, y};
            });
            return c;
        };
        for (const char *n : {"add", "sub", "mul", "maximum"}) add(n, [=](Rng &r) { return binary(r, false, false); });
        add("div", [=](Rng &r) { return binary(r, false, true); });
        add("mod", [=](Rng &r) { return binary(r, true, true); });
        add("equal", [=](Rng &r) {
            Case c; c.q = r.p(50) ? 1 : 2;
            more(r, c, [&] { VI s = run_shape(r), b = partner(r, s); DTYPE t = math_type(r), u = r.p(70) ? t : any_type(r); Tensor x = over(r, t, s, -3, 3, c.q), y = over(r, u, b, -3, 3, c.q); if (r.p(50)) std::swap(x, y); return std::vector<Tensor>{x, y}; });
            return c;
        });
        add("where", [=](Rng &r) {
            Case c;
            more(r, c, [&] {
                VI s = run_shape(r); DTYPE t = math_type(r); VI a = r.p(50) ? s : partner(r, s), b = r.p(50) ? s : partner(r, s), k = r.p(50) ? s : partner(r, s);
                return std::vector<Tensor>{over(r, r.p(50) ? ts::UINT8 : any_type(r), k, 0, 1), over(r, t, a, -99, 99), over(r, r.p(96) ? t : any_type(r), b, -99, 99)};
            });
            return c;
        });
        auto unary = [=](const char *n, std::function<void(Rng &, Case &)> par, int lo, int hi, std::vector<int> qs, int sc, bool flt) {
            add(n, [=](Rng &r) {
                Case c; c.q = r.pick(qs); c.scale = sc; if (par) par(r, c);
                more(r, c, [&] { DTYPE t = flt ? float_type(r) : math_type(r); return std::vector<Tensor>{over(r, t, run_shape(r), lo * c.q, hi * c.q, c.q)}; });
                return c;
            });
        };
        unary("abs", nullptr, -30, 30, {1, 2, 4}, 64, false);
        unary("square", nullptr, -20, 20, {1, 2, 4}, 64, false);
        unary("relu", nullptr, -30, 30, {1, 2, 4}, 64, false);
        unary("relu_max", [](Rng &r, Case &c) { if (r.p(85)) c.p.r("max", r.in(0, 12), 1); }, -30, 30, {1, 2, 4}, 64, false);
        unary("leaky_relu", [](Rng &r, Case &c) { if (r.p(85)) c.p.r("scale", r.p(60) ? r.in(-6, 6) : 4 * r.in(-2, 2), 4); }, -20, 20, {1, 2, 4}, 64, false);
        unary("hard_sigmoid", [](Rng &r, Case &c) { if (r.p(85)) c.p.r("alpha", r.in(-4, 4), 4); if (r.p(85)) c.p.r("beta", r.in(-4, 8), 4); }, -6, 6, {1, 2, 4}, 1000, true);
        unary("ceil", nullptr, -9, 9, {1, 2, 4, 8}, 1, false);
        unary("floor", nullptr, -9, 9, {1, 2, 4, 8}, 1, false);
        unary("sqrt", nullptr, 0, 90, {1, 2, 4}, 1000, false);
        unary("rsqrt", nullptr, 1, 90, {1, 2, 4}, 10000, true);
        unary("exp", nullptr, -8, 8, {1, 2}, 100000, true);
        unary("sigmoid", nullptr, -8, 8, {1, 2}, 1000000, true);
        unary("tanh", nullptr, -8, 8, {1, 2}, 1000000, true);
        unary("erf", nullptr, -8, 8, {1, 2}, 1000000, true);
        unary("softplus", nullptr, -8, 8, {1, 2}, 100000, true);
        unary("pow", [](Rng &r, Case &c) { c.p.r("y", r.in(-1, 3), 1); }, -9, 9, {1, 2, 4}, 1000, true);
        for (const char *n : {"reduce_sum", "max", "argmax"}) add(n, [=](Rng &r) {
            Case c; std::string op = n; c.q = r.p(50) ? 1 : 4; c.scale = 64; int k = r.in(1, 5), d = r.p(92) ? r.in(-k, k - 1) : r.in(-k - 1, k);
            c.p.i(op == "reduce_sum" ? "dims" : "dim", d); if (op != "argmax" && r.p(70)) { if (op == "max") c.p.i("keep_dims", r.p(50)); else c.p.b("keep_dims", r.p(50)); }
            bool vary = r.p(20);
            more(r, c, [&] { return std::vector<Tensor>{over(r, math_type(r), any_shape(r, vary ? 1 : k, vary ? 5 : k), r.p(50) ? -40 : -3, r.p(50) ? 40 : 3, c.q)}; });
            return c;
        });
        add("reduce_mean", [](Rng &r) {
            Case c; c.q = r.p(50) ? 1 : 4; c.scale = 1000; int k = r.in(1, 5), a = r(k), n = r.in(1, k - a); VI d;
            for (int i = 0; i < n; ++i) d.push_back(a + i);
            if (r.p(30)) for (auto &v : d) v -= k;
            if (r.p(6)) d[r(int(d.size()))] += r.in(-2, 2);
            if (r.p(6)) d.push_back(r.in(-1, k));
            if (r.p(3)) d.clear();
            if (d.size() == 1 && r.p(30)) c.p.i("dims", d[0]), c.p.j = J().f("dims", d); else c.p.il("dims", d);
            if (r.p(70)) c.p.b("keep_dims", r.p(50));
            bool vary = r.p(15);
            more(r, c, [&] { return std::vector<Tensor>{over(r, math_type(r), any_shape(r, vary ? 1 : k, vary ? 5 : k), -40, 40, c.q)}; });
            return c;
        });
        add("topkv2", [](Rng &r) {
            Case c; c.q = r.p(50) ? 1 : 4; c.scale = 64; c.p.i("number", r.in(1, 7)); if (r.p(50)) c.p.i("sorted", r.p(50));
            more(r, c, [&] {
                VI s = any_shape(r, 1, 4, 60); if (r.p(30)) s.back() = r.in(1, 12); DTYPE t = math_type(r); int w = s.back(), n = prod(s) / w; VI d;
                for (int i = 0; i < n; ++i) { VI v = shuffled(r, 3 * w); for (int k = 0; k < w; ++k) d.push_back(is_unsigned(t) ? v[k] : v[k] - w); }
                Tensor x = tensor_of(t, s, d);
                if (t == ts::FLOAT32) for (int i = 0; i < x.count(); ++i) x.data<float>()[i] /= c.q;
                if (t == ts::FLOAT64) for (int i = 0; i < x.count(); ++i) x.data<double>()[i] /= c.q;
                return std::vector<Tensor>{x};
            });
            return c;
        });
        add("softmax", [](Rng &r) {
            Case c; c.scale = 1000; int k = r.in(1, 4); c.p.i("dim", r.p(94) ? r.in(-k, k - 1) : r.in(-k - 1, k)); bool smooth = r.p(60); if (!smooth || r.p(70)) c.p.b("smooth", smooth); else smooth = true;
            more(r, c, [&] { VI s = any_shape(r, k, k, 60); int w = smooth && r.p(40) ? 1200 : 6; return std::vector<Tensor>{over(r, r.p(70) ? ts::FLOAT32 : ts::FLOAT64, s, -w, w)}; });
            return c;
        });
        add("l2_norm", [](Rng &r) {
            Case c; c.scale = 1000; int k = r.in(1, 4); if (r.p(85)) c.p.i("dim", r.p(94) ? r.in(-k, k - 1) : r.in(-k - 1, k)); if (r.p(60)) c.p.r("epsilon", r.in(0, 3), 1);
            more(r, c, [&] { return std::vector<Tensor>{over(r, r.p(70) ? ts::FLOAT32 : ts::FLOAT64, any_shape(r, k, k, 60), r.p(90) ? -9 : 0, r.p(90) ? 9 : 0)}; });
            return c;
        });
        auto channel = [=](const char *n, int extra) {
            add(n, [=](Rng &r) {
                Case c; std::string op = n; c.scale = op == "batch_norm" || op == "fused_batch_norm" ? 1000 : 1; int k = r.in(1, 4), d = r.p(94) ? r(k) : r.in(0, k + 1);
                if (op == "add_bias" && r.p(40)) { bool a = r.p(50); c.p.s("format", a ? "NCHW" : "NHWC"); d = a ? 1 : 3; k = 4; if (r.p(15)) c.p.i("dim", d = r(4)); } else c.p.i("dim", d);
                if (c.scale == 1000 && r.p(60)) c.p.r("epsilon", r.in(0, 3), 1);
                more(r, c, [&] {
                    VI s = any_shape(r, k, k, 60); if (r.p(50)) s.back() = r.in(1, 11); while (prod(s) > 130) s[r(k)] = 1; DTYPE t = c.scale == 1000 ? float_type(r) : math_type(r);
                    std::vector<Tensor> v{over(r, t, s, -9, 9)}; int ch = d < k ? s[d] : 2;
                    for (int i = 0; i < extra; ++i) { VI z{ch}; if (r.p(2)) z[0] += 1; if (r.p(1)) z.push_back(1); v.push_back(over(r, r.p(98) ? t : any_type(r), z, c.scale == 1000 && i == 1 ? 1 : c.scale == 1000 && i == 2 ? -3 : -4, c.scale == 1000 && i == 1 ? 16 : c.scale == 1000 && i == 2 ? 3 : 4)); }
                    return v;
                });
                return c;
            });
        };
        channel("add_bias", 1); channel("batch_scale", 2); channel("prelu", 1); channel("batch_norm", 2); channel("fused_batch_norm", 4);
        for (const char *n : {"norm_image", "prewhiten"}) add(n, [=](Rng &r) {
            Case c; c.scale = 1000; if (std::string(n) == "norm_image" && r.p(20)) c.p.r("epsilon", 0, 1);
            bool zero = !c.p.t.empty();
            more(r, c, [&] { VI s = any_shape(r, 1, 4, 40); if (prod(s) == s[0]) s.push_back(r.in(2, 6)); Tensor x = over(r, float_type(r), s, -9, zero ? 9 : r.p(90) ? 9 : -9); if (zero && is_float(x.dtype())) { int m = x.count() / x.size(0); for (int b = 0; b < x.size(0); ++b) { if (x.dtype() == ts::FLOAT32) { x.data<float>()[b * m] = 20; } else x.data<double>()[b * m] = 20; } } return std::vector<Tensor>{x}; });
            return c;
        });
        add("force_color", [](Rng &r) { Case c; c.q = r.p(50) ? 1 : 4; c.scale = 64; more(r, c, [&] { VI s = any_shape(r, 1, 4, 40); s.back() = r.p(60) ? 1 : r.p(80) ? 3 : r.in(2, 4); return std::vector<Tensor>{over(r, math_type(r), s, -40, 40, c.q)}; }); return c; });
        add("force_gray", [](Rng &r) {
            Case c; c.scale = 1000; int k = r.p(70) ? 3 : r.in(1, 4); VI w; bool has = r.p(70); for (int i = 0; i < k; ++i) w.push_back(r.in(0, 4)); if (has) c.p.rl("scale", w, 4);
            more(r, c, [&] { VI s = any_shape(r, 1, 4, 30); s.back() = r.p(80) ? k : r.p(50) ? 1 : r.in(2, 4); DTYPE t = has ? math_type(r) : float_type(r); if (!has && !is_float(t)) t = ts::FLOAT32; return std::vector<Tensor>{over(r, t, s, has ? 0 : -40, 30)}; });
            return c;
        });
        add("quantize", [](Rng &r) {
            Case c; int n = r.in(1, 3); VI w; for (int i = 0; i < n; ++i) w.push_back(r.in(1, 12)); c.p.rl("quantize_scale", w, 5);
            more(r, c, [&] { VI s = any_shape(r, 1, 4, 60); s[0] = r.p(92) ? n : r.in(1, 3); if (r.p(50)) s.back() = r.in(6, 20); while (prod(s) > 130 && s.size() > 1) s[1 + r(int(s.size()) - 1)] = 1; return std::vector<Tensor>{over(r, float_type(r), s, -99, 99)}; });
            return c;
        });
        add("non_max_suppression_v3", [](Rng &r) {
            Case c; c.p.i("max_output_size", r.in(1, 6)).r("iou_threshold", r.in(0, 8), 10).r("score_threshold", r.in(-3, 8), 1).s("mode", r.p(60) ? "xyxy" : "xywh");
            more(r, c, [&] {
                int n = r.in(1, 9), m = r.p(95) ? n : r.in(1, 9); VI sc = shuffled(r, 2 * std::max(n, m)); sc.resize(m); for (auto &v : sc) v -= 4;
                return std::vector<Tensor>{random_tensor(r, r.p(95) ? ts::FLOAT32 : any_type(r), {n, r.p(97) ? 4 : 3}, 0, 8), tensor_of(r.p(97) ? ts::FLOAT32 : ts::FLOAT64, {m}, sc)};
            });
            return c;
        });
        return g;
    }
}
#endif
