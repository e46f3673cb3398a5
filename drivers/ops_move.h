// Generators of calls of operators that move data.
#ifndef VF_OPS_MOVE_H
#define VF_OPS_MOVE_H
#include "ops.h"
#include <algorithm>
namespace vf {
    inline const std::vector<DTYPE> &types() {
        static const std::vector<DTYPE> t = {ts::INT8, ts::UINT8, ts::INT16, ts::UINT16, ts::INT32, ts::UINT32, ts::INT64, ts::UINT64, ts::FLOAT32, ts::FLOAT64, ts::FLOAT32, ts::FLOAT32};
        return t;
    }
    inline DTYPE any_type(Rng &r) { return r.pick(types()); }
    inline DTYPE signed_type(Rng &r) { static const std::vector<DTYPE> t = {ts::INT8, ts::INT16, ts::INT32, ts::INT64, ts::FLOAT32, ts::FLOAT64, ts::FLOAT32}; return r.pick(t); }
    inline VI any_shape(Rng &r, int lo = 1, int hi = 5, int maxel = 120) {
        for (;;) {
            VI s(r.in(lo, hi));
            for (auto &d : s) d = r.p(25) ? 1 : r.in(1, s.size() > 3 ? 4 : 6);
            if (prod(s) <= maxel) return s;
        }
    }
    inline Tensor data(Rng &r, DTYPE t, const VI &s) {
        bool u = t == ts::UINT8 || t == ts::UINT16 || t == ts::UINT32 || t == ts::UINT64;
        return random_tensor(r, t, s, u ? 0 : -99, 99);
    }
    inline Tensor ints(Rng &r, const VI &v) { return tensor_of(r.p(70) ? ts::INT32 : ts::INT64, {int(v.size())}, v); }
    inline VI shuffled(Rng &r, int n) { VI v(n); for (int i = 0; i < n; ++i) v[i] = i; std::shuffle(v.begin(), v.end(), r.g); return v; }
    typedef std::function<Case(Rng &)> Gen;
    // another input of the same rank, sometimes of another one
    inline void more(Rng &r, Case &c, std::function<std::vector<Tensor>()> f) { int n = 1 + r(3); for (int i = 0; i < n; ++i) c.xs.push_back(f()); }
    inline VI factor(Rng &r, int n) {              // a shape with n elements
        VI s;
        while (n > 1 && s.size() < 3) { VI d; for (int k = 2; k <= n; ++k) if (n % k == 0) d.push_back(k); int k = r.pick(d); s.push_back(k); n /= k; }
        if (n > 1 || s.empty()) s.push_back(n);
        if (r.p(30)) s.insert(s.begin() + r(int(s.size()) + 1), 1);
        return s;
    }
    inline std::vector<std::pair<std::string, Gen>> move_gens() {
        std::vector<std::pair<std::string, Gen>> g;
        auto add = [&](const char *n, Gen f) { g.push_back({n, f}); };
        auto target = [](Rng &r, const VI &s) {
            VI t = factor(r, prod(s));
            if (r.p(50)) t[r(int(t.size()))] = -1;
            if (r.p(20)) for (size_t i = 0; i < t.size() && i < s.size(); ++i) if (t[i] == s[i]) t[i] = 0;
            if (r.p(8)) t[r(int(t.size()))] += 1;
            if (r.p(4)) t.push_back(-1);
            return t;
        };
        add("_reshape", [=](Rng &r) { Case c; auto s = any_shape(r); c.p.il("shape", target(r, s)); auto t = any_type(r); more(r, c, [&] { auto q = s; if (r.p(20)) q = any_shape(r); else std::shuffle(q.begin(), q.end(), r.g); return std::vector<Tensor>{data(r, t, q)}; }); return c; });
        add("_reshape_v2", [=](Rng &r) { Case c; c.host = {false, true}; more(r, c, [&] { auto s = any_shape(r); return std::vector<Tensor>{data(r, any_type(r), s), ints(r, target(r, s))}; }); return c; });
        add("flatten", [](Rng &r) { Case c; if (r.p(80)) c.p.i("dim", r.in(-2, 5)); more(r, c, [&] { return std::vector<Tensor>{data(r, any_type(r), any_shape(r))}; }); return c; });
        add("flatten2d", [](Rng &r) { Case c; if (r.p(80)) c.p.i("dim", r.in(-2, 5)); more(r, c, [&] { return std::vector<Tensor>{data(r, any_type(r), any_shape(r))}; }); return c; });
        add("squeeze", [](Rng &r) {
            Case c; VI s = any_shape(r, 1, 4); VI ax;
            for (int i = 0; i <= int(s.size()) && s.size() < 6; ++i) if (r.p(30)) { s.insert(s.begin() + i, 1); }
            for (int i = 0; i < int(s.size()); ++i) if (s[i] == 1 && r.p(60)) ax.push_back(i);
            if (r.p(10)) ax.push_back(r.in(-8, 8));
            else if (r.p(25) && ax.size() == 1) ax[0] -= int(s.size());
            if (!ax.empty() && r.p(80)) c.p.il("axes", ax);
            more(r, c, [&] { auto q = s; for (auto &d : q) if (d > 1 && r.p(50)) d = r.in(1, 4); if (r.p(10)) q = any_shape(r); return std::vector<Tensor>{data(r, any_type(r), q)}; });
            return c;
        });
        add("unsqueeze", [](Rng &r) {
            Case c; VI ax; int n = r.in(1, 2), k = r.in(1, 4);
            for (int i = 0; i < n; ++i) ax.push_back(r.p(90) ? r.in(-k, k) : r.in(-8, 8));
            c.p.il("axes", ax);
            more(r, c, [&] { return std::vector<Tensor>{data(r, any_type(r), any_shape(r, k, k))}; });
            return c;
        });
        add("_transpose", [](Rng &r) {
            Case c; int n = r.in(1, 5); bool chw = r.p(30); VI p;
            if (chw) { n = 4; p = r.p(50) ? VI{0, 3, 1, 2} : VI{0, 2, 3, 1}; } else p = shuffled(r, n);
            if (r.p(6)) p[r(n)] = r.in(-1, n);
            bool has = chw || r.p(80);
            if (has) c.p.il("permute", p);
            more(r, c, [&] {
                VI s;
                if (chw) { s = VI{r.in(1, 2), r.in(1, 6), r.in(1, 9), r.in(1, 4)}; if (r.p(70)) { if (p[1] == 3) s[3] = 3; else { s = VI{r.in(1, 2), 3, r.in(1, 6), r.in(1, 9)}; } } }
                else s = any_shape(r, has && r.p(20) ? 1 : n, r.p(95) ? n : 5);
                return std::vector<Tensor>{data(r, any_type(r), s)};
            });
            return c;
        });
        add("_dimshuffle", [](Rng &r) {
            Case c; int n = r.in(1, 4), d = r.p(95) ? r(n) : r.in(-1, n), m = r.in(1, 5); VI sh(r.in(1, 6));
            for (auto &x : sh) x = r.p(98) ? r(m) : r.in(-1, m);
            c.p.i("dim", d).il("shuffle", sh);
            more(r, c, [&] { auto s = any_shape(r, n, n, 60); if (d >= 0 && d < n) s[d] = r.p(80) ? m : r.in(1, 6); return std::vector<Tensor>{data(r, any_type(r), s)}; });
            return c;
        });
        add("concat", [](Rng &r) {
            Case c; int n = r.in(1, 4), d = r.p(92) ? r.in(-n, n - 1) : r.in(-n - 1, n); c.p.i("dim", d);
            more(r, c, [&] {
                auto s = any_shape(r, n, n, 40); auto t = any_type(r); std::vector<Tensor> v; int k = r.in(1, 4);
                for (int i = 0; i < k; ++i) {
                    auto q = s; int a = d < 0 ? d + n : d; if (a >= 0 && a < n) q[a] = r.in(1, 4);
                    if (i && r.p(3)) q[r(n)] += 1;
                    v.push_back(data(r, i && r.p(3) ? any_type(r) : t, q));
                }
                return v;
            });
            return c;
        });
        add("stack", [](Rng &r) {
            Case c; int n = r.in(1, 4), d = r.p(92) ? r.in(-n - 1, n) : r.in(-n - 2, n + 1); if (r.p(85)) c.p.i("axis", d);
            more(r, c, [&] {
                auto s = any_shape(r, n, n, 40); auto t = any_type(r); std::vector<Tensor> v; int k = r.in(1, 4);
                for (int i = 0; i < k; ++i) { auto q = s; if (i && r.p(3)) q[r(n)] += 1; v.push_back(data(r, i && r.p(3) ? any_type(r) : t, q)); }
                return v;
            });
            return c;
        });
        add("chunk", [](Rng &r) {
            Case c; int n = r.in(1, 4), d = r.p(92) ? r.in(-n, n - 1) : r.in(-n - 1, n), k = r.in(1, 5); c.p.i("chunks", r.p(97) ? k : 0); if (r.p(85)) c.p.i("dim", d);
            more(r, c, [&] { auto s = any_shape(r, n, n, 60); int a = d < 0 ? d + n : d; if (a >= 0 && a < n) s[a] = k * r.in(1, 3) + (r.p(50) ? r(k) : 0); return std::vector<Tensor>{data(r, any_type(r), s)}; });
            return c;
        });
        add("split", [](Rng &r) {
            Case c; c.host = {false, true}; int n = r.in(1, 4), d = r.p(94) ? r.in(-n, n - 1) : r.in(-n - 1, n); c.p.i("axis", d);
            more(r, c, [&] {
                auto s = any_shape(r, n, n, 60); VI sp; int k = r.in(1, 4), sum = 0; for (int i = 0; i < k; ++i) { sp.push_back(r.in(1, 3)); sum += sp.back(); }
                int a = d < 0 ? d + n : d; if (a >= 0 && a < n) s[a] = r.p(92) ? sum : std::max(1, sum + r.in(-1, 1));
                return std::vector<Tensor>{data(r, any_type(r), s), ints(r, sp)};
            });
            return c;
        });
        auto begin_size = [](Rng &r, const VI &s, VI &b, VI &z) {
            b.clear(); z.clear();
            for (int d : s) { int x = r(d); b.push_back(x); z.push_back(r.p(20) ? -1 : r.in(1, d - x)); }
            if (r.p(12)) { int i = r(int(s.size())); switch (r(5)) { case 0: b[i] = -1; break; case 1: b[i] = s[i]; break; case 2: z[i] = s[i] - b[i] + 1; break; case 3: z[i] = 2147483647; break; default: z[i] = 0; } }
            if (r.p(3)) { b.pop_back(); z.pop_back(); }
        };
        add("slice", [=](Rng &r) {
            Case c; auto s = any_shape(r); VI b, z; begin_size(r, s, b, z); if (b.empty()) { b = {0}; z = {1}; } c.p.il("begin", b).il("size", z);
            more(r, c, [&] { auto q = s; for (auto &d : q) if (r.p(10)) d += r.in(0, 2); if (prod(q) > 200) q = s; return std::vector<Tensor>{data(r, any_type(r), q)}; });
            return c;
        });
        add("slice_v2", [=](Rng &r) {
            Case c; c.host = {false, true, true};
            more(r, c, [&] { auto s = any_shape(r); VI b, z; begin_size(r, s, b, z); if (b.empty()) { b = {0}; z = {1}; } return std::vector<Tensor>{data(r, any_type(r), s), ints(r, b), ints(r, z)}; });
            return c;
        });
        auto bound = [](Rng &r, int d) { return r.p(6) ? (r.p(50) ? 2000000000 : -2000000000) : r.in(-d - 2, d + 2); };
        add("slice_v3", [=](Rng &r) {
            Case c; c.host = {false, true, true, true, true};
            more(r, c, [&] {
                auto s = any_shape(r); int n = int(s.size()); VI ax, st, en, sp; bool neg = r.p(25);
                int form = r(3);                 // no axes; axes; axes and steps
                for (int i = 0; i < n; ++i) {
                    if (form == 0 ? (i && r.p(30)) : r.p(40)) { if (form == 0) break; continue; }
                    ax.push_back(neg && r.p(60) ? i - n : i); st.push_back(bound(r, s[i])); en.push_back(bound(r, s[i])); sp.push_back(r.p(3) ? 0 : r.p(50) ? r.in(1, 3) : -r.in(1, 3));
                }
                if (ax.empty()) { ax = {0}; st = {0}; en = {1}; sp = {1}; }
                if (form && r.p(4)) ax[r(int(ax.size()))] = r.p(50) ? n : -n - 1;
                std::vector<Tensor> v = {data(r, any_type(r), s), ints(r, st), ints(r, en)};
                if (form) v.push_back(ints(r, ax));
                if (form == 2) v.push_back(ints(r, sp));
                return v;
            });
            return c;
        });
        add("strided_slice", [=](Rng &r) {
            Case c; auto s = any_shape(r); int n = int(s.size()), k = r.in(1, n); VI b, e, st; int bm = 0, em = 0, sm = 0, nm = 0, el = 0;
            bool ell = r.p(25); int ei = ell ? r(k) : -1, extra = 0;
            // specification positions: a run of source axes with an optional ellipsis and new axes
            int after = ell ? k - 1 - ei : 0;
            for (int i = 0, a = 0; i < k; ++i) {
                if (i == ei) { el = 1 << i; b.push_back(0); e.push_back(0); st.push_back(1); a = n - after; continue; }
                if (r.p(8) && n + extra < 6 && !ell) { nm |= 1 << i; b.push_back(0); e.push_back(1); st.push_back(1); ++extra; continue; }
                int d = s[std::min(a, n - 1)]; ++a;
                if (r.p(15)) { int x = r.in(0, d - 1); if (r.p(30) && x > 0 && x < d - 0 && x - d != -1) { x -= d; } sm |= 1 << i; b.push_back(x); e.push_back(x + 1); st.push_back(1); continue; }
                b.push_back(bound(r, d)); e.push_back(bound(r, d)); st.push_back(r.p(3) ? 0 : r.p(60) ? r.in(1, 3) : -r.in(1, 3));
                if (r.p(20)) bm |= 1 << i; if (r.p(20)) em |= 1 << i;
            }
            c.p.il("begin", b).il("end", e); if (r.p(85)) c.p.il("stride", st);
            if (bm) c.p.i("begin_mask", bm); if (em) c.p.i("end_mask", em); if (sm) c.p.i("shrink_axis_mask", sm); if (nm) c.p.i("new_axis_mask", nm); if (el) c.p.i("ellipsis_mask", el);
            c.xs.push_back({data(r, any_type(r), s)});
            if (r.p(40)) { auto q = s; for (auto &d : q) if (r.p(30)) d = std::max(1, d + r.in(0, 2)); if (prod(q) < 200) c.xs.push_back({data(r, any_type(r), q)}); }
            return c;
        });
        add("gather", [](Rng &r) {
            Case c; int n = r.in(1, 4), a = r.p(94) ? r.in(-n, n - 1) : r.in(-n - 1, n); if (r.p(80)) c.p.i("axis", a); else a = 0;
            more(r, c, [&] {
                auto s = any_shape(r, n, n, 40); int k = a < 0 ? a + n : a; int d = k >= 0 && k < n ? s[k] : 1; auto is = any_shape(r, 1, 2, 6); VI ix(prod(is));
                for (auto &x : ix) x = r.p(98) ? r.in(-d, d - 1) : r.in(-d - 2, d + 1);
                return std::vector<Tensor>{data(r, any_type(r), s), tensor_of(r.p(70) ? ts::INT32 : ts::INT64, is, ix)};
            });
            return c;
        });
        add("gatherv2", [](Rng &r) {
            Case c;
            more(r, c, [&] {
                auto s = any_shape(r, 1, 4, 60); int k = r.p(96) ? r.in(1, int(s.size())) : int(s.size()) + 1; auto is = any_shape(r, 0, 2, 6); int m = prod(is); is.push_back(k); VI ix;
                for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) { int d = j < int(s.size()) ? s[j] : 1; ix.push_back(r.p(99) ? r(d) : r.p(50) ? d : -d - 1); }
                return std::vector<Tensor>{data(r, any_type(r), s), tensor_of(r.p(70) ? ts::INT32 : ts::INT64, is, ix)};
            });
            return c;
        });
        add("gather_elements", [](Rng &r) {
            Case c; int n = r.in(1, 4), a = r.p(94) ? r.in(-n, n - 1) : r.in(-n - 1, n); if (r.p(80)) c.p.i("axis", a); else a = 0;
            more(r, c, [&] {
                auto s = any_shape(r, n, n, 60); int k = a < 0 ? a + n : a; auto is = s; int d = 1; if (k >= 0 && k < n) { d = s[k]; is[k] = r.in(1, 4); } VI ix(prod(is));
                for (auto &x : ix) x = r.p(99) ? r.in(-d, d - 1) : r.in(-d - 2, d + 1);
                if (r.p(3)) { is.push_back(1); }
                return std::vector<Tensor>{data(r, any_type(r), s), tensor_of(r.p(70) ? ts::INT32 : ts::INT64, is, ix)};
            });
            return c;
        });
        add("scatter_nd", [](Rng &r) {
            Case c;
            more(r, c, [&] {
                auto s = any_shape(r, 1, 4, 60); int m = r.in(1, s[0]); auto pm = shuffled(r, s[0]); pm.resize(m);
                if (r.p(4)) pm[r(m)] = s[0] + r(2); if (r.p(3)) pm[r(m)] = -s[0] - 1;
                auto us = s; us[0] = m; if (r.p(3)) us[r(int(us.size()))] += 1; auto t = any_type(r);
                return std::vector<Tensor>{data(r, t, s), tensor_of(r.p(97) ? ts::INT32 : ts::INT64, {m, 1}, pm), data(r, r.p(97) ? t : any_type(r), us)};
            });
            return c;
        });
        auto reps = [](Rng &r, int n) { VI v(n); for (auto &x : v) x = r.p(3) ? 0 : r.p(2) ? -1 : r.in(1, 3); return v; };
        add("tile", [=](Rng &r) { Case c; int n = r.in(1, 4); c.p.il("repeats", reps(r, n)); more(r, c, [&] { return std::vector<Tensor>{data(r, any_type(r), any_shape(r, 1, 4, 16))}; }); return c; });
        add("tile_v2", [=](Rng &r) { Case c; c.host = {false, true}; more(r, c, [&] { return std::vector<Tensor>{data(r, any_type(r), any_shape(r, 1, 4, 16)), ints(r, reps(r, r.in(1, 4)))}; }); return c; });
        add("broadcast", [](Rng &r) {
            Case c; c.host = {false, true};
            more(r, c, [&] {
                auto t = any_shape(r, 1, 5, 100); VI s(t.end() - r.in(1, int(t.size())), t.end()); for (auto &d : s) if (r.p(45)) d = 1;
                if (r.p(20)) { VI u(t); for (auto &d : u) if (r.p(40)) d = 1; t = u; }
                if (r.p(4)) s[r(int(s.size()))] += 1;
                return std::vector<Tensor>{data(r, any_type(r), s), ints(r, t)};
            });
            return c;
        });
        add("pad", [](Rng &r) {
            Case c; c.host = {false, true}; int v = r.p(50) ? r.in(-9, 9) : 0; if (v || r.p(70)) c.p.r("padding_value", v, 1);
            more(r, c, [&] {
                auto s = any_shape(r, 1, 5, 40); VI p; bool hw = s.size() == 4 && r.p(60);
                for (int i = 0; i < int(s.size()); ++i) for (int k = 0; k < 2; ++k) p.push_back((hw && i < 2) || r.p(30) ? 0 : r.p(80) ? r.in(0, 2) : -r.in(0, s[i] - 1) / 2);
                VI ps{int(s.size()), 2}; if (r.p(3)) { p.resize(p.size() - 2); ps[0] -= 1; if (!ps[0]) { ps[0] = 2; p = {0, 0, 0, 0}; } }
                return std::vector<Tensor>{data(r, v < 0 ? signed_type(r) : any_type(r), s), tensor_of(ts::INT32, ps, p)};
            });
            return c;
        });
        add("crop_nd", [](Rng &r) {
            Case c; c.host = {false, true}; int n = r.in(1, 4); bool sh = r.p(40); VI shift(n); for (auto &x : shift) x = r.in(-2, 2); if (sh) c.p.il("shift", shift);
            more(r, c, [&] { auto s = any_shape(r, n, n, 40); VI z; for (int d : s) z.push_back(r.p(25) && !sh ? -1 : std::max(1, d + r.in(-2, 2))); return std::vector<Tensor>{data(r, any_type(r), s), ints(r, z)}; });
            return c;
        });
        add("crop_to", [](Rng &r) {
            Case c; int n = r.in(2, 4); int a = r.p(94) ? r.in(-n, n - 1) : r.in(-n - 1, n); if (r.p(80)) c.p.i("axis", a); else a = 2;
            int k = a < 0 ? a + n : a; VI off; if (k >= 0 && k < n) for (int i = k; i < n; ++i) off.push_back(r.in(0, 2)); if (!off.empty() && r.p(50)) c.p.il("offset", off); else off.clear();
            bool vary = r.p(30);
            more(r, c, [&] {
                int m = vary ? r.in(2, 4) : n;
                auto y = any_shape(r, m, m, 30), x = y; for (int i = 0; i < m; ++i) x[i] = y[i] + r.in(0, 3); if (prod(x) > 200) x = y;
                return std::vector<Tensor>{data(r, any_type(r), x), data(r, any_type(r), y)};
            });
            return c;
        });
        add("_limit", [](Rng &r) {
            Case c; int n = r.in(1, 4); VI z(r.in(1, n)); for (auto &d : z) d = r.p(40) ? -1 : r.in(1, 4); c.p.il("shape", z);
            more(r, c, [&] { return std::vector<Tensor>{data(r, any_type(r), any_shape(r, n, 5, 80))}; });
            return c;
        });
        add("divided", [](Rng &r) {
            Case c; int n = r.in(1, 4); VI z(n); for (auto &d : z) d = r.p(40) ? 1 : r.in(1, 4); c.p.il("size", z); int v = r.p(50) ? r.in(-5, 5) : 0; if (v || r.p(50)) c.p.r("padding_value", v, 1);
            more(r, c, [&] { auto s = any_shape(r, n, n, 40); return std::vector<Tensor>{data(r, v < 0 ? signed_type(r) : any_type(r), s)}; });
            return c;
        });
        add("space_to_batch4d", [](Rng &r) {
            Case c; VI b{r.in(1, 3), r.in(1, 3)}, p{r(3), r(3), r(3), r(3)}; c.p.il2("padding", p, {2, 2}).il("block_shape", b);
            more(r, c, [&] {
                VI s{r.in(1, 2), r.in(1, 3), r.in(1, 4), r.in(1, 4)};
                if (r.p(90)) { while ((s[2] + p[0] + p[1]) % b[0]) ++s[2]; while ((s[3] + p[2] + p[3]) % b[1]) ++s[3]; }
                return std::vector<Tensor>{data(r, any_type(r), s)};
            });
            return c;
        });
        add("batch_to_space4d", [](Rng &r) {
            Case c; VI b{r.in(1, 3), r.in(1, 3)}, p{r(2), r(2), r(2), r(2)}; c.p.il2("crop", p, {2, 2}).il("block_shape", b);
            more(r, c, [&] { VI s{r.in(1, 2) * b[0] * b[1] + (r.p(8) ? 1 : 0), r.in(1, 2), r.in(2, 4), r.in(2, 4)}; return std::vector<Tensor>{data(r, any_type(r), s)}; });
            return c;
        });
        add("_cast", [](Rng &r) { Case c; c.p.i("dtype", any_type(r)); more(r, c, [&] { return std::vector<Tensor>{random_tensor(r, any_type(r), any_shape(r), 0, 99)}; }); return c; });
        add("to_float", [](Rng &r) { Case c; more(r, c, [&] { return std::vector<Tensor>{data(r, any_type(r), any_shape(r))}; }); return c; });
        add("_copy", [](Rng &r) { Case c; more(r, c, [&] { return std::vector<Tensor>{data(r, any_type(r), any_shape(r))}; }); return c; });
        add("_shape", [](Rng &r) { Case c; more(r, c, [&] { return std::vector<Tensor>{data(r, any_type(r), any_shape(r))}; }); return c; });
        add("_dims", [](Rng &r) { Case c; more(r, c, [&] { return std::vector<Tensor>{data(r, any_type(r), any_shape(r))}; }); return c; });
        add("_expand", [](Rng &r) {
            Case c; c.host = {false, true}; if (r.p(50)) c.p.i("front", r.in(-1, 2)); if (r.p(50)) c.p.i("end", r.in(-1, 2)); if (r.p(50)) c.p.b("inverse", r.p(50));
            more(r, c, [&] { auto s = any_shape(r, 1, 4); return std::vector<Tensor>{data(r, any_type(r), s), tensor_of(ts::INT32, {}, {r.in(1, 6)})}; });
            return c;
        });
        add("constant_of_shape", [](Rng &r) {
            Case c; c.host = {true}; if (r.p(70)) c.p.tensor("value", tensor_of(any_type(r), {1}, {r.in(0, 99)}));
            more(r, c, [&] { auto s = any_shape(r, 1, 4); return std::vector<Tensor>{ints(r, s)}; });
            return c;
        });
        add("range", [](Rng &r) { Case c; c.host = {true, true, true}; more(r, c, [&] { auto q = [&](int v) { return tensor_of(ts::INT32, r.p(50) ? VI{1} : VI{}, {v}); }; int b = r.in(-5, 5), d = r.p(50) ? r.in(1, 3) : -r.in(1, 3); return std::vector<Tensor>{q(b), q(b + d * r.in(1, 6) + r.in(0, 1)), q(d)}; }); return c; });
        return g;
    }
}
#endif
