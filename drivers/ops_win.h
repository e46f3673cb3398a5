// Generators of calls of windowed operators, matrix products and resampling.
#ifndef VF_OPS_WIN_H
#define VF_OPS_WIN_H
#include "ops_math.h"
namespace vf {
    inline DTYPE win_type(Rng &r) { return r.p(66) ? ts::FLOAT32 : r.p(96) ? ts::FLOAT64 : any_type(r); }
    inline std::vector<std::pair<std::string, Gen>> win_gens() {
        std::vector<std::pair<std::string, Gen>> g;
        auto add = [&](const char *n, Gen f) { g.push_back({n, f}); };
        auto pads = [](Rng &r, int hi) {                   // before and after, per axis
            VI p(8, 0);
            if (r.p(30)) return p;
            if (r.p(50)) { int k = r.in(0, hi); for (int i = 4; i < 8; ++i) p[i] = k; }
            else for (int i = 4; i < 8; ++i) p[i] = r.in(0, hi);
            if (r.p(2)) p[r(4)] = 1;
            return p;
        };
        auto four = [](Rng &r, int h, int w) { VI s = {1, 1, h, w}; if (r.p(2)) s[r(2)] = 2; return s; };
        auto size = [](Rng &r) { return r.p(15) ? 1 : r.in(1, 9); };
        // kind: 0 convolution, 1 depthwise, 2 transposed; v2: padding is an input
        auto conv = [=](Rng &r, int kind, bool v2) {
            Case c;
            int kh = r.p(30) ? 1 : r.p(55) ? 3 : r.in(1, 5), kw = r.p(80) ? kh : r.in(1, 4);
            int sh = r.p(60) ? 1 : r.in(1, 3), sw = r.p(80) ? sh : r.in(1, 3);
            int dh = r.p(75) ? 1 : r.in(1, 2), dw = r.p(85) ? dh : r.in(1, 2);
            bool nhwc = r.p(2);
            c.p.s("format", nhwc ? "NHWC" : r.p(98) ? "NCHW" : "ABC");
            VI pad = pads(r, kind == 2 ? 1 : 2);
            if (!v2) c.p.il2("padding", pad, {4, 2});
            c.p.il("stride", four(r, sh, sw));
            if (r.p(97)) c.p.il(r.p(80) ? "dilation" : "dialations", four(r, dh, dw));
            if (kind != 2 && r.p(25)) c.p.i("padding_value", r.in(-3, 3));
            VI wcnt = {kind == 1 ? (r.p(97) ? 1 : 2) : r.p(40) ? r.in(1, 9) : r.in(1, 4), kind == 1 && r.p(60) ? r.in(1, 6) : r.in(1, 4)};
            more(r, c, [&] {
                DTYPE t = win_type(r);
                VI xs = {r.p(70) ? 1 : 2, kind == 2 ? wcnt[0] : wcnt[1], size(r), size(r)};
                VI ws = {wcnt[0], wcnt[1], kh, kw};
                if (kind == 2) { xs[2] = r.in(1, 4); xs[3] = r.in(1, 4); }
                if (kind != 2 && r.p(92)) {                   // the window fits
                    xs[2] = std::max(xs[2], dh * (kh - 1) + 1 - pad[4] - pad[5]); xs[3] = std::max(xs[3], dw * (kw - 1) + 1 - pad[6] - pad[7]);
                }
                if (r.p(2)) xs[1] += 1;
                while (prod(xs) > 260) { int i = r(2) + 2; xs[i] = std::max(1, xs[i] - 2); xs[0] = 1; }
                if (r.p(1)) xs.erase(xs.begin());
                if (r.p(1)) ws.erase(ws.begin());
                std::vector<Tensor> in = {over(r, t, xs, -3, 3)};
                if (v2) { VI q = pad; if (r.p(50)) q = pads(r, 2); in.push_back(tensor_of(r.p(80) ? ts::INT32 : ts::INT64, {4, 2}, q)); }
                in.push_back(over(r, r.p(98) ? t : any_type(r), ws, -3, 3));
                return in;
            });
            c.host = v2 ? std::vector<bool>{false, true, false} : std::vector<bool>{};
            return c;
        };
        add("conv2d", [=](Rng &r) { return conv(r, 0, false); });
        add("conv2d_v2", [=](Rng &r) { return conv(r, 0, true); });
        add("depthwise_conv2d", [=](Rng &r) { return conv(r, 1, false); });
        add("depthwise_conv2d_v2", [=](Rng &r) { return conv(r, 1, true); });
        add("transpose_conv2d", [=](Rng &r) { return conv(r, 2, false); });
        auto winograd = [=](Rng &r, bool v2) {
            Case c; c.scale = 100;
            c.p.s("format", "NCHW");
            VI pad = pads(r, 1); for (int i = 0; i < 4; ++i) pad[i] = 0;
            if (!v2) c.p.il2("padding", pad, {4, 2});
            if (r.p(25)) c.p.i("padding_value", r.in(-2, 2));
            VI ws = {r.in(1, 9), r.in(1, 5), 3, 3};
            if (r.p(4)) ws[2] = ws[3] = r.in(1, 5);
            more(r, c, [&] {
                VI xs = {r.p(70) ? 1 : 2, ws[1], r.in(3, 10), r.in(3, 10)};
                if (r.p(40)) { int k = r.in(8, 18); xs = {1, std::min(2, ws[1]), k, r.p(60) ? k : r.in(3, 8)}; ws[0] = std::min(ws[0], 3); ws[1] = xs[1]; }
                if (r.p(2)) xs[1] += 1;
                if (r.p(2)) xs.erase(xs.begin());
                DTYPE t = r.p(96) ? ts::FLOAT32 : any_type(r);
                std::vector<Tensor> in = {over(r, t, xs, -3, 3)};
                if (v2) { VI q = pad; if (r.p(50)) { q = pads(r, 1); } in.push_back(tensor_of(ts::INT32, {4, 2}, q)); }
                in.push_back(over(r, t, ws, -3, 3));
                return in;
            });
            c.host = v2 ? std::vector<bool>{false, true, false} : std::vector<bool>{};
            return c;
        };
        add("conv2d_winograd", [=](Rng &r) { return winograd(r, false); });
        add("conv2d_winograd_v2", [=](Rng &r) { return winograd(r, true); });
        auto pool = [=](Rng &r, bool v2) {
            Case c; c.scale = 360;
            c.p.s("format", r.p(97) ? "NCHW" : r.p(70) ? "NHWC" : "ABC");
            if (r.p(98)) c.p.i("type", r.p(95) ? r(2) : r.in(-1, 4));
            if (r.p(35)) c.p.i("padding_type", r.p(90) ? 3 * r(2) : r.in(0, 4));
            struct K { VI pad, k, s; };
            auto set = [=](Rng &r) {
                K q; int kh = r.p(60) ? r.in(2, 3) : r.in(1, 5), kw = r.p(75) ? kh : r.in(1, 4), sh = r.p(55) ? 2 : r.in(1, 4), sw = r.p(80) ? sh : r.in(1, 3);
                q.k = four(r, kh, kw); q.s = four(r, sh, sw); q.pad = pads(r, 2);
                if (r.p(10)) q.pad[5] = -1;
                if (r.p(10)) q.pad[7] = -1;
                return q;
            };
            K q = set(r);
            if (!v2) c.p.il2("padding", q.pad, {4, 2}).il("ksize", q.k).il("stride", q.s);
            more(r, c, [&] {
                VI xs = {r.p(70) ? 1 : 2, r.in(1, 3), size(r), size(r)};
                if (v2 && r.p(50)) q = set(r);
                if (r.p(92)) { xs[2] = std::max(xs[2], q.k[2] - q.pad[4] - q.pad[5]); xs[3] = std::max(xs[3], q.k[3] - q.pad[6] - q.pad[7]); }
                if (r.p(1)) xs.erase(xs.begin());
                std::vector<Tensor> in = {over(r, win_type(r), xs, -20, 20)};
                if (v2) { in.push_back(tensor_of(ts::INT32, {4, 2}, q.pad)); in.push_back(ints(r, q.k)); in.push_back(ints(r, q.s)); }
                return in;
            });
            if (v2) c.host = {false, true, true, true};
            return c;
        };
        add("pooling2d", [=](Rng &r) { return pool(r, false); });
        add("pooling2d_v2", [=](Rng &r) { return pool(r, true); });
        add("global_pooling2d", [=](Rng &r) {
            Case c; c.scale = 1000;
            c.p.s("format", r.p(97) ? "NCHW" : "NHWC").i("type", r(2));
            more(r, c, [&] { VI xs = {r.in(1, 2), r.in(1, 4), size(r), size(r)}; if (r.p(3)) xs.pop_back(); return std::vector<Tensor>{over(r, win_type(r), xs, -20, 20)}; });
            return c;
        });
        // products of matrices; sizes around those of blocks
        auto msz = [](Rng &r) { return r.p(70) ? r.in(1, 5) : r.in(6, 17); };
        add("gemm", [=](Rng &r) {
            Case c; c.scale = 16;
            bool ta = r.p(40), tb = r.p(40);
            if (ta || r.p(50)) c.p.b("transA", ta);
            if (tb || r.p(50)) c.p.b("transB", tb);
            if (r.p(50)) c.p.r("alpha", r.in(-4, 4), 2);
            if (r.p(60)) c.p.r("beta", r.p(30) ? 0 : r.in(-4, 4), 2);
            more(r, c, [&] {
                DTYPE t = win_type(r); int m = msz(r), n = msz(r), k = msz(r);
                VI a = ta ? VI{k, m} : VI{m, k}, b = tb ? VI{n, k} : VI{k, n}, s;
                switch (r(6)) { case 0: s = {}; break; case 1: s = {1}; break; case 2: s = {n}; break; case 3: s = {m, 1}; break; case 4: s = {1, n}; break; default: s = {m, n}; }
                if (r.p(3)) s = {m + 1, n};
                if (r.p(2)) s = {1, 1, n};
                if (r.p(3)) b[r(2)] += 1;
                if (r.p(2)) a.insert(a.begin(), 1);
                return std::vector<Tensor>{over(r, t, a, -4, 4), over(r, r.p(98) ? t : any_type(r), b, -4, 4), over(r, r.p(96) ? t : any_type(r), s, -4, 4)};
            });
            return c;
        });
        add("inner_prod", [=](Rng &r) {
            Case c; bool tb = r.p(40);
            if (tb || r.p(50)) c.p.b("transpose", tb);
            more(r, c, [&] {
                DTYPE t = win_type(r); int m = msz(r), n = msz(r), k = msz(r);
                VI a = {m, k}, b = tb ? VI{n, k} : VI{k, n};
                if (r.p(35)) { a = factor(r, k); a.insert(a.begin(), m); }
                if (r.p(3)) b[r(2)] += 1;
                if (r.p(2)) b.insert(b.begin() + r(3), 1);
                if (r.p(2)) a = {};
                return std::vector<Tensor>{over(r, t, a, -4, 4), over(r, r.p(98) ? t : any_type(r), b, -4, 4)};
            });
            return c;
        });
        add("matmul", [=](Rng &r) {
            Case c;
            more(r, c, [&] {
                DTYPE t = win_type(r); int m = msz(r), n = msz(r), k = msz(r);
                VI a = {m, k}, b = {k, n};
                switch (r(5)) {
                    case 0: a = {1, 1, m, k}; b = {1, 1, k, n}; if (r.p(10)) { a[r(2)] = 2; } if (r.p(10)) b[r(2)] = 2; break;
                    case 1: a = factor(r, m); a.push_back(k); break;
                    case 2: if (r.p(10)) a = {k}; if (r.p(10)) b = {k}; if (r.p(10)) b = {1, k, n}; if (r.p(5)) b = {1, 1, k, n}; break;
                }
                if (r.p(5)) b[r(int(b.size()))] += 1;
                return std::vector<Tensor>{over(r, t, a, -4, 4), over(r, r.p(98) ? t : any_type(r), b, -4, 4)};
            });
            return c;
        });
        // resampling
        auto image = [=](Rng &r, int h, int w, int &at) {                 // a shape with h, w at two adjacent axes
            VI s; int n = r.in(2, 4); at = n == 2 ? 0 : r.p(60) ? 1 : r(n - 1);
            if (n == 4 && r.p(50)) at = 2;
            for (int i = 0; i < n; ++i) s.push_back(i == at ? h : i == at + 1 ? w : r.in(1, 3));
            return s;
        };
        auto lens = [](Rng &r) { return r.p(12) ? 1 : r.in(1, 8); };
        auto rtype = [](Rng &r) { return r.p(55) ? ts::FLOAT32 : any_type(r); };
        add("_resize2d", [=](Rng &r) {
            Case c; c.scale = 100; int type = r.p(94) ? r(4) : r.in(-1, 5);
            if (type != 0 || r.p(60)) c.p.i("type", type);
            more(r, c, [&] {
                int at, h = lens(r), w = lens(r), H = r.p(10) ? h : lens(r), W = r.p(10) ? w : lens(r);
                if (type == 1) { h = r.in(r.p(60) ? 4 : 1, 8); w = r.in(r.p(60) ? 4 : 1, 8); int k[] = {1, 2, 2, 4}; auto to = [&](int n) { return r.p(50) ? n * k[r(3)] : n % 2 == 0 ? n / 2 : n; }; H = to(h); W = to(w); }
                VI s = image(r, h, w, at), z(s.size(), -1);
                z[at] = H; z[at + 1] = W;
                if (r.p(20)) { for (int i = 0; i < int(z.size()); ++i) if (i != at && i != at + 1 && r.p(60)) z[i] = s[i]; }
                if (r.p(4)) z[r(int(z.size()))] = r.in(-1, 3);
                if (r.p(2)) z.push_back(-1);
                if (r.p(2)) s[at + r(2)] = 0;
                DTYPE t = rtype(r);
                // the cubic overshoots
                bool wide = type == 1 && (t == ts::UINT8 || t == ts::INT8) && r.p(70);
                return std::vector<Tensor>{over(r, t, s, wide ? -128 : -50, !wide ? 50 : t == ts::INT8 ? 127 : 255), ints(r, z)};
            });
            c.host = {false, true};
            return c;
        });
        add("resize_nearest_neighbor", [=](Rng &r) {
            Case c; int at = r(3); c.p.i("dim", r.p(95) ? at : r.in(-2, 4));
            if (r.p(30)) c.p.i("align_corners", 0);
            more(r, c, [&] {
                VI s(r.in(at + 2, 4)); for (auto &d : s) d = r.in(1, 3); s[at] = lens(r); s[at + 1] = lens(r);
                VI z = {lens(r), lens(r)}; if (r.p(4)) z[r(2)] = r.in(-1, 0); if (r.p(2)) z.push_back(1);
                return std::vector<Tensor>{over(r, rtype(r), s, -50, 50), ints(r, z)};
            });
            c.host = {false, true};
            return c;
        });
        add("sample2d", [=](Rng &r) {
            Case c; c.scale = 100; int dim = -2; if (r.p(70)) c.p.i("dim", dim = r.p(90) ? r.in(-2, 1) : r.in(-5, 4));
            int sc[] = {2, 4, 8, 16, 1, 3}; int num = sc[r(4)]; c.p.r("scale", num, 4);
            int type = 2; if (r.p(50)) c.p.i("type", type = r.p(50) ? 2 : r.p(70) ? 3 : 0);
            more(r, c, [&] {
                int n = r.in(2, 4); VI s(n); for (auto &d : s) d = r.in(1, 3);
                int at = dim < 0 ? n + dim : dim; if (at >= 0 && at + 1 < n) { s[at] = r.in(2, 6); s[at + 1] = r.in(2, 6); }
                return std::vector<Tensor>{over(r, rtype(r), s, -50, 50)};
            });
            return c;
        });
        add("sample2d_v2", [=](Rng &r) {
            Case c; int type = 3; if (r.p(40)) c.p.i("type", type = 2 + r(2));
            more(r, c, [&] {
                int at; VI s = image(r, r.in(1, 6), r.in(1, 6), at); VI z(s.size(), 4); int sc[] = {2, 4, 8, 12, 16}; z[at] = sc[r(5)]; z[at + 1] = sc[r(5)];
                if (r.p(4)) z[r(int(z.size()))] = sc[r(5)];
                if (r.p(3)) z.pop_back();
                Tensor f = tensor_of(ts::FLOAT32, {int(z.size())}, z); for (int i = 0; i < f.count(); ++i) f.data<float>()[i] /= 4;
                return std::vector<Tensor>{over(r, rtype(r), s, -50, 50, 4), f};
            });
            c.q = 4; c.scale = 4; c.host = {false, true};
            return c;
        });
        add("affine_sample2d", [=](Rng &r) {
            Case c; c.q = 4; c.scale = 64; int type = r.p(95) ? r.pick(VI{0, 0, 1, 2, 3}) : r.in(-1, 4);
            int dim = r.p(95) ? r.in(-3, 1) : r.in(-5, 4);
            c.p.i("type", type).i("dim", dim);
            if (r.p(50)) c.p.i("outer_value", r.in(-9, 9));
            more(r, c, [&] {
                int n = r.in(2, 4); VI s(n); for (auto &d : s) d = r.in(1, 3);
                int at = dim < 0 ? n + dim : dim; if (at >= 0 && at + 1 < n) { int most = type == 1 ? 8 : 6, none = r.p(3) ? 1 : 0; s[at] = r.p(15) ? 1 : r.in(1, most); s[at + 1] = r.p(15) ? 1 : r.in(1, most); if (none) s[at + r(2)] = 0; }
                VI z = {r.in(1, 6), r.in(1, 6)}; if (r.p(2)) z.push_back(1);
                VI a = {4, 0, 0, 0, 4, 0, 0, 0, 4};
                if (r.p(60)) { int k[] = {1, 2, 4, 8, -4}; a[0] = k[r(5)]; a[4] = k[r(5)]; a[2] = r.in(-6, 20); a[5] = r.in(-6, 20); }
                if (r.p(30)) for (int i = 0; i < 6; ++i) a[i] = r.in(-6, 8);
                if (r.p(20)) { std::swap(a[0], a[1]); std::swap(a[3], a[4]); }
                Tensor m = tensor_of(ts::FLOAT32, r.p(98) ? VI{3, 3} : VI{9}, a); for (int i = 0; i < 9; ++i) m.data<float>()[i] /= 4;
                DTYPE t = rtype(r); bool wide = type == 1 && (t == ts::UINT8 || t == ts::INT8) && r.p(70);
                return std::vector<Tensor>{over(r, t, s, wide ? -128 : -50, !wide ? 50 : t == ts::INT8 ? 127 : 255, 4), ints(r, z), m};
            });
            c.host = {false, true};
            return c;
        });
        // paddings that make up a window's output size
        auto padding = [=](Rng &r, Case &c, const char *fmt, bool any_static) {
            VI p(8, 0); if (any_static) for (int i = 4; i < 8; ++i) p[i] = r.in(0, 2);
            if (std::string(fmt) == "NHWC") p = VI{0, 0, p[4], p[5], p[6], p[7], 0, 0};
            c.p.il2("padding", p, {4, 2});
        };
        auto wh = [](const char *fmt, int n, int ch, int h, int w) { return std::string(fmt) == "NHWC" ? VI{n, h, w, ch} : VI{n, ch, h, w}; };
        add("_tf_conv2d_padding", [=](Rng &r) {
            Case c; const char *f = r.p(85) ? "NCHW" : "NHWC"; c.p.s("format", f).s("padding_method", r.p(60) ? "SAME" : r.p(96) ? "VALID" : "FULL");
            c.p.il("stride", wh(f, 1, 1, r.in(1, 3), r.in(1, 3))).il("dilation", wh(f, 1, 1, r.in(1, 2), r.in(1, 2)));
            if (r.p(40)) padding(r, c, f, true);
            more(r, c, [&] { return std::vector<Tensor>{over(r, ts::FLOAT32, wh(f, 1, 2, r.in(1, 9), r.in(1, 9)), 0, 1), over(r, ts::FLOAT32, f[1] == 'H' ? VI{1, r.in(1, 4), r.in(1, 4), 2} : VI{1, 2, r.in(1, 4), r.in(1, 4)}, 0, 1)}; });
            return c;
        });
        auto pool_pad = [=](const char *n, std::function<void(Rng &, Case &, const char *)> par, bool nhwc) {
            add(n, [=](Rng &r) {
                Case c; const char *f = nhwc && r.p(20) ? "NHWC" : "NCHW"; par(r, c, f);
                more(r, c, [&] {
                    VI xs = wh(f, r.in(1, 2), r.in(1, 2), r.in(1, 9), r.in(1, 9));
                    return std::vector<Tensor>{over(r, ts::FLOAT32, xs, 0, 1), ints(r, wh(f, 1, 1, r.in(1, 4), r.in(1, 4))), ints(r, wh(f, 1, 1, r.in(1, 3), r.in(1, 3)))};
                });
                c.host = {false, true, true};
                return c;
            });
        };
        pool_pad("_tf_pooling2d_padding", [=](Rng &r, Case &c, const char *f) { c.p.s("format", f).s("padding_method", r.p(60) ? "SAME" : r.p(96) ? "VALID" : "FULL"); if (r.p(40)) padding(r, c, f, true); }, true);
        pool_pad("_mx_pooling2d_padding", [=](Rng &r, Case &c, const char *f) { c.p.s("format", f).i("valid", r(2)); padding(r, c, f, r.p(50)); }, true);
        pool_pad("_onnx_pooling2d_padding", [=](Rng &r, Case &c, const char *f) { VI k; if (r.p(85)) c.p.s("auto_pad", r.pick(std::vector<std::string>{"NOTSET", "VALID", "SAME_UPPER", "SAME_LOWER", "SAME_UPPER", "SAME_LOWER", "OTHER"})); if (r.p(50)) padding(r, c, f, true); }, false);
        pool_pad("_dragon_pooling2d_padding", [=](Rng &r, Case &c, const char *f) { if (r.p(85)) c.p.s("auto_pad", r.pick(std::vector<std::string>{"NOTSET", "VALID", "SAME_UPPER", "SAME_LOWER", "SAME", "SAME_UPPER", "OTHER"})); if (r.p(50)) c.p.b("ceil", r.p(50)); if (r.p(50)) padding(r, c, f, true); }, false);
        return g;
    }
}
#endif
