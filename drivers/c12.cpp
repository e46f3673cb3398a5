// One network loaded again and again with different options, its results and what is left of the source; text options.
// c12 TRACE SEED SEGMENTS STEPS
#include "ops.h"
#include "session.h"
#include "compiler/argparse.h"
#include "compiler/option/translator_option.h"
#include "compiler/option/zipper_option.h"
#include "compiler/option/converter_option.h"
#include "compiler/option/winograd_zipper_option.h"
#include "global/fp16_operator_factory.h"
using namespace vf;
using namespace ts;
static bool on_square, on_sub, on_wrap, on_conv, on_win;
// --- rewriters of our own, through the points of extension
struct SquareOption : public TranslatorOption {
    bool translate(const ComputingDevice &, const Node node, Node &out, const std::string &, bool) const override {
        if (!on_square || node->op() != "square") return false;
        out = bubble::op(node->name(), name::layer::mul(), {node.input(0), node.input(0)});
        return true;
    }
};
static Node copy_of(const Node &n, std::unordered_map<Node, Node> &m) {
    auto it = m.find(n); if (it != m.end()) return it->second;
    auto c = bubble::bubble(n.bubble()); std::vector<Node> i; for (auto &x : n.inputs()) i.push_back(copy_of(x, m));
    if (!i.empty()) Node::Link(c, i);
    m.insert(std::make_pair(n, c)); return c;
}
struct WrapOption : public TranslatorV2Option {
    Module::shared translate(const ComputingDevice &, Module::shared m) const override {
        if (!on_wrap) return m;
        std::unordered_map<Node, Node> cs; std::vector<Node> outs, ins;
        for (auto &o : m->outputs()) { auto c = copy_of(o, cs); outs.push_back(Bubble::IsEndPoint(o->op()) ? c : bubble::op(o->name(), name::layer::add(), {c, bubble::data("zero", tensor::from<float>(0))})); }
        for (auto &i : m->inputs()) ins.push_back(copy_of(i, cs));
        auto n = Module::Load(ctx::ref<Graph>(), outs);
        n->sort_inputs(ins);
        return n;
    }
};
struct SubOption : public ZipperOption {
    bool zip(const ComputingDevice &, Node node, Node &out) const override {
        if (!on_sub || node->op() != "sub") return false;
        auto neg = bubble::op(node->name() + "_neg", name::layer::mul(), {bubble::data("minus", tensor::from<float>(-1)), node.input(1)});
        out = bubble::op(node->name(), name::layer::add(), {node.input(0), neg});
        return true;
    }
};
struct WinOption : public ZipperOption {
    Conv2dZipperOption inner;
    bool zip(const ComputingDevice &d, Node node, Node &out) const override { return on_win && inner.zip(d, node, out); }
};
struct CopyConverter : public ConverterOption {
    std::shared_ptr<Module> convert(const ComputingDevice &, const std::vector<Node> &outs, const std::vector<Node> &ins) const override {
        std::unordered_map<Node, Node> m;
        std::vector<Node> o, i; for (auto &x : outs) o.push_back(copy_of(x, m)); for (auto &x : ins) i.push_back(copy_of(x, m));
        auto mod = std::make_shared<Module>(); mod->load(ctx::ref<Graph>(), o); mod->sort_inputs(i); return mod;
    }
};
// --- operators of half precision: they take float16, as well as float32
class HalfAbs : public Operator {
public:
    int infer(Stack &s, std::vector<Tensor::Prototype> &o) override { o = {s[0].proto()}; return 1; }
    int run(Stack &s) override {
        Tensor x = s[0]; DTYPE t = x.dtype(); Tensor y = tensor::cast(FLOAT64, x).clone();
        for (int i = 0; i < y.count(); ++i) y.data<double>()[i] = std::fabs(y.data<double>()[i]);
        s.push(tensor::cast(t, y)); return 1;
    }
};
class AnyNorm : public Operator {
public:
    using supper = Operator;
    Operator::shared in;
    explicit AnyNorm(const Operator::shared &o) : in(o) { field(name::dim, REQUIRED); field(name::epsilon, OPTIONAL, tensor::from<float>(1e-3f)); }
    void init() override { supper::init(); in->set(name::dim, get(name::dim)); in->set(name::epsilon, tensor::cast(FLOAT32, get(name::epsilon))); in->set("#op", get("#op")); in->set("#name", get("#name")); in->init(); }
    int infer(Stack &s, std::vector<Tensor::Prototype> &o) override { return in->infer(s, o); }
    int run(Stack &s) override { for (int i = 0; i < int(s.size()); ++i) if (s[i].dtype() == FLOAT16) s[i] = tensor::cast(FLOAT32, s[i]); return in->run(s); }
};
// --- networks
struct RN { std::string k, op; P p; VI ins, s; DTYPE t = FLOAT32; long b = 0; int sc = 1; bool last = false; Tensor v; std::map<std::string, Tensor> more; DTYPE want = VOID; };
struct Net { std::vector<RN> g; VI outs, ins; bool half = false; DTYPE t = FLOAT32; };
static std::string js(const RN &n) {
    J j; j.f("k", n.k).f("op", n.op).f("p", n.p.j).f("ins", n.ins).f("sc", n.sc).f("t", n.want == VOID ? std::string("") : dts(n.want));
    if (n.k == "const") j.f("v", vf::tj1(n.v, n.sc)); else j.f("v", 0);
    return j.str();
}
struct Maker {
    Rng &r; Net n;
    explicit Maker(Rng &r) : r(r) {}
    int put(const RN &x) { n.g.push_back(x); return int(n.g.size()); }
    int cst(const Tensor &v, long b) { RN x; x.k = "const"; x.v = v; x.t = v.dtype(); x.s = shape_of(v); x.b = b; return put(x); }
    int par(const VI &s, DTYPE t) { RN x; x.k = "param"; x.s = s; x.t = t; x.b = 3; if (r.p(25)) x.want = t; return put(x); }
    std::vector<int> like(std::function<bool(const RN &)> f) { std::vector<int> v; for (size_t i = 0; i < n.g.size(); ++i) if (!n.g[i].last && f(n.g[i])) v.push_back(int(i) + 1); return v; }
    // an earlier node or constant of this shape, or a new constant, or a parameter
    int operand(const VI &s, DTYPE t, int old, int fresh) {
        auto c = like([&](const RN &x) { return x.s == s && x.t == t && x.b <= 50; });
        if (!c.empty() && r.p(old)) return r.pick(c);
        if (r.p(fresh)) return cst(random_tensor(r, t, s, -2, 2), 2);
        return par(s, t);
    }
    int any(int rank, int old = 75) {
        auto c = like([&](const RN &x) { return int(x.s.size()) == rank && x.t == n.t && x.b <= 200000; });
        if (!c.empty() && r.p(old)) return r.p(60) ? c.back() : r.pick(c);
        VI s = rank == 4 ? VI{r.in(1, 2), r.in(1, 3), r.in(2, 5), r.in(2, 5)} : VI{r.in(1, 4), r.in(1, 9)};
        return r.p(12) ? cst(random_tensor(r, n.t, s, -3, 3), 3) : par(s, n.t);
    }
    void op(const std::string &name, const P &p, const VI &ins, const VI &s, long b) { if (b > (n.half ? 1500 : 4000000)) return; RN x; x.k = "op"; x.op = name; x.p = p; x.ins = ins; x.s = s; x.t = n.t; x.b = b; put(x); }
    const RN &at(int i) const { return n.g[size_t(i) - 1]; }
    void conv() {
        int xi = any(4); RN x = at(xi); int kh = r.p(50) ? 3 : r.in(1, 3), kw = r.p(70) ? kh : r.in(1, 3); VI ws;
        auto old = like([&](const RN &w) { return w.s.size() == 4 && w.k == "const" && w.s[1] == x.s[1] && w.t == n.t && w.b <= 50; });
        int w = 0; if (!old.empty() && r.p(45)) { w = r.pick(old); ws = at(w).s; } else { ws = {r.p(60) ? r.in(1, 4) : r.in(7, 17), x.s[1], kh, kw}; }
        VI pad = {0, 0, 0, 0, r(2), r(2), r(2), r(2)}, st = {1, 1, r.p(70) ? 1 : 2, r.p(70) ? 1 : 2}, di = {1, 1, r.p(80) ? 1 : 2, r.p(80) ? 1 : 2}, s = {x.s[0], ws[0], 0, 0};
        for (int a = 0; a < 2; ++a) { int m = x.s[2 + a] + pad[4 + 2 * a] + pad[5 + 2 * a] - di[2 + a] * (ws[2 + a] - 1) - 1; if (m < 0) return; s[2 + a] = m / st[2 + a] + 1; }
        if (prod(s) > 260) return;
        if (!w) w = operand(ws, n.t, 0, 88);
        P p; p.s("format", "NCHW").il("stride", st).il(r.p(90) || n.half ? "dilation" : "dialations", di); if (r.p(20)) p.i("padding_value", r.in(-1, 2));
        VI in = {xi, w}; std::string name = "conv2d";
        if (r.p(50)) p.il2("padding", pad, {4, 2}); else { name = "conv2d_v2"; auto z = like([&](const RN &c) { return c.k == "const" && c.t == INT32 && c.s == VI({4, 2}) && same_bytes(c.v, tensor_of(INT32, {4, 2}, pad)); }); int q = !z.empty() && r.p(60) ? r.pick(z) : cst(tensor_of(INT32, {4, 2}, pad), 1); in = {xi, q, w}; }
        op(name, p, in, s, std::max(x.b, 2L) * at(w).b * ws[1] * ws[2] * ws[3]);
    }
    void prodn() {
        int xi = any(r.p(40) ? 4 : 2); RN x = at(xi); int K = prod(x.s) / x.s[0], N = r.p(60) ? r.in(1, 5) : r.in(7, 17); bool tr = r.p(45);
        auto old = like([&](const RN &w) { return w.s.size() == 2 && w.t == n.t && w.s[tr ? 1 : 0] == K && w.b <= 50; });
        int w = !old.empty() && r.p(45) ? r.pick(old) : operand(tr ? VI{N, K} : VI{K, N}, n.t, 0, 85);
        P p; if (tr || r.p(50)) p.b("transpose", tr);
        op("inner_prod", p, {xi, w}, {x.s[0], at(w).s[tr ? 0 : 1]}, x.b * at(w).b * K);
    }
    void gemm() {
        bool ta = r.p(30), tb = r.p(40); int a = any(2, 65), b; RN A = at(a); int M = A.s[ta ? 1 : 0], K = A.s[ta ? 0 : 1], N = r.p(60) ? r.in(1, 5) : r.in(7, 12);
        auto old = like([&](const RN &w) { return w.s.size() == 2 && w.t == n.t && w.s[tb ? 1 : 0] == K && w.b <= 50; });
        b = !old.empty() && r.p(45) ? r.pick(old) : operand(tb ? VI{N, K} : VI{K, N}, n.t, 0, 75); N = at(b).s[tb ? 0 : 1];
        int w = r(5); VI cs = w == 0 ? VI{} : w == 1 ? VI{N} : w == 2 ? VI{M, 1} : w == 3 ? VI{1, N} : VI{M, N};
        int c = operand(cs, n.t, 40, 70); P p;
        if (ta || r.p(75)) p.b("transA", ta);
        if (tb || r.p(75)) p.b("transB", tb);
        if (r.p(75)) { static const VI al = {1, 1, 2, -1, 3, 0}; p.r("alpha", r.pick(al), 1); }
        if (r.p(75)) { static const VI be = {0, 0, 1, 1, 2, -2}; p.r("beta", r.pick(be), 1); }
        op("gemm", p, {a, b, c}, {M, N}, 3 * (A.b * at(b).b * K + at(c).b));
    }
    void elem() {
        int xi = any(r.p(50) ? 4 : 2); RN x = at(xi); int w = r(n.half ? 9 : 6);
        if (w >= 5 && n.half) { op("abs", P().b("vf", true), {xi}, x.s, x.b); return; }
        if (w == 5) { op("square", P(), {xi}, x.s, x.b * x.b); return; }
        if (w == 0) { op("relu", P(), {xi}, x.s, x.b); return; }
        if (w == 1) { op("abs", P(), {xi}, x.s, x.b); return; }
        int yi = operand(x.s, n.t, 60, 60); op(w == 2 ? "add" : w == 3 ? "sub" : "mul", P(), {xi, yi}, x.s, w == 4 ? x.b * at(yi).b : x.b + at(yi).b);
    }
    void norm() {
        int xi = any(r.p(50) ? 4 : 2); RN x = at(xi); if (x.b > 20) return; int d = r(int(x.s.size())), ch = x.s[size_t(d)];
        int v = cst(random_tensor(r, n.t, {ch}, 1, 9), 9), m = cst(random_tensor(r, n.t, {ch}, -2, 2), 2);
        if (r.p(50)) { RN q; q.k = "op"; q.op = r.p(50) ? "square" : "abs"; q.ins = {v}; q.s = {ch}; q.t = n.t; q.b = 81; v = put(q); }
        P p; p.i("dim", d); if (r.p(85)) p.r("epsilon", r.in(0, 3), 1); else p.r("epsilon", 1, 1);
        RN y; y.k = "op"; y.op = "batch_norm"; y.p = p; y.ins = {xi, m, v}; y.s = x.s; y.t = n.t; y.sc = 1000; y.last = true; put(y);
    }
    void tiny() {
        RN x; x.k = "const"; x.sc = 1 << 30; x.last = true; x.t = r.p(80) ? FLOAT32 : FLOAT64; x.s = {6}; static const VI js = {0, 1, -1, 100, -100, 127, -127, 128, -128, 129, 200, -200, 1000};
        x.v = Tensor(x.t, Shape({6})); for (int i = 0; i < 6; ++i) { double q = double(r.pick(js)) / double(1 << 30); if (x.t == FLOAT32) x.v.data<float>()[i] = float(q); else x.v.data<double>()[i] = q; }
        put(x);
    }
};
static Net random_net(Rng &r) {
    Maker m(r); m.n.half = r.p(25); if (!m.n.half && r.p(15)) m.n.t = FLOAT64;
    for (int i = r.in(2, 7); i > 0; --i) { int w = r(100); if (w < 30) m.conv(); else if (w < 55) m.prodn(); else if (w < 75) m.gemm(); else if (w < 90) m.elem(); else if (w < 96) m.norm(); else m.tiny(); }
    if (m.n.g.empty()) m.par({2, 2}, m.n.t);
    auto &n = m.n; int N = int(n.g.size()); auto used = std::vector<bool>(size_t(N) + 1);
    for (auto &x : n.g) for (int i : x.ins) used[size_t(i)] = true;
    for (int i = 1; i <= N; ++i) if (!used[size_t(i)] && (n.g[size_t(i) - 1].k == "op" || n.g[size_t(i) - 1].last) && r.p(85)) n.outs.push_back(i);
    for (int i = r.p(50) ? 1 : n.outs.empty() ? 1 : 0; i > 0; --i) n.outs.push_back(r.in(1, N));
    std::shuffle(n.outs.begin(), n.outs.end(), r.g);
    std::vector<bool> need(size_t(N) + 1); std::function<void(int)> go = [&](int i) { need[size_t(i)] = true; for (int j : n.g[size_t(i) - 1].ins) go(j); }; for (int o : n.outs) go(o);
    for (int i = 1; i <= N; ++i) if (n.g[size_t(i) - 1].k == "param" && (need[size_t(i)] || r.p(30))) n.ins.push_back(i);
    std::shuffle(n.ins.begin(), n.ins.end(), r.g);
    return n;
}
static Module::shared build(const Net &n) {
    Graph graph; ctx::bind<Graph> _g(graph); std::vector<Node> v;
    for (int i = 1; i <= int(n.g.size()); ++i) {
        auto &x = n.g[size_t(i) - 1]; std::vector<Node> in; for (int j : x.ins) in.push_back(v[size_t(j) - 1]);
        if (x.k == "param") v.push_back(x.want == VOID ? bubble::param(nm(i)) : bubble::param(nm(i), x.want));
        else if (x.k == "const") v.push_back(bubble::data(nm(i), x.v.clone()));
        else { auto o = bubble::op(nm(i), x.p.t.count("vf") ? "vf_abs" : x.op, in); for (auto &p : x.p.t) if (p.first != "vf") o->set(p.first, p.second.clone()); v.push_back(o); }
    }
    std::vector<Node> outs, ins; for (int o : n.outs) outs.push_back(v[size_t(o) - 1]); for (int i : n.ins) ins.push_back(v[size_t(i) - 1]);
    auto m = std::make_shared<Module>(); m->load(graph, outs); m->sort_inputs(ins); return m;
}
// --- what a network is: its nodes with their parameters, links both ways, inputs and outputs
static std::string hex(const void *p, size_t n) { static const char *d = "0123456789abcdef"; std::string s; auto c = static_cast<const unsigned char *>(p); for (size_t i = 0; i < n; ++i) { s += d[c[i] >> 4]; s += d[c[i] & 15]; } return s; }
static std::string what(const Tensor &t) { std::string s; for (auto &f : t.unpack()) { s += dts(f.dtype()) + "["; for (int i = 0; i < f.dims(); ++i) s += std::to_string(f.size(i)) + ","; s += "]" + hex(f.data(), size_t(f.count()) * size_t(type_bytes(f.dtype()))); } return s; }
static std::string what(const Module::shared &m) {
    std::vector<Node> order; std::map<void *, int> id;
    std::function<void(const Node &)> go = [&](const Node &n) { if (id.count(n.ptr())) return; int k = int(id.size()); id[n.ptr()] = k; order.push_back(n); for (auto &i : n.inputs()) go(i); };
    for (auto &o : m->outputs()) go(o); for (auto &i : m->inputs()) go(i);
    std::string s;
    for (auto &n : order) {
        s += n->op() + ":" + n->name() + "("; std::map<std::string, std::string> ps; for (auto &p : n->params()) ps[p.first] = what(p.second); for (auto &p : ps) s += p.first + "=" + p.second + ",";
        s += ")<"; for (auto &i : n.inputs()) s += std::to_string(id[i.ptr()]) + ","; s += ">";
        VI o; for (auto &x : n.outputs()) o.push_back(id.count(x.ptr()) ? id[x.ptr()] : -1); std::sort(o.begin(), o.end()); for (int x : o) s += std::to_string(x) + ","; s += ";";
    }
    s += "in"; for (auto &i : m->inputs()) s += std::to_string(id[i.ptr()]) + ","; s += "out"; for (auto &o : m->outputs()) s += std::to_string(id[o.ptr()]) + ",";
    return s;
}
static std::vector<std::string> tokens(Rng &r, bool win) {
    static const std::vector<std::string> w = {"--pack", "--no-pack", "--no-pack", "--float16", "-fp16", "--no-float16", "-no-fp16", "--filter", "-flt", "--no-filter", "-no-flt", "--winograd", "-no-win", "--bogus", "pack", "-v:a:b", "--pack=1"};
    std::vector<std::string> t; for (int i = r(5); i > 0; --i) t.push_back(r.pick(w));
    if (win) { t.erase(std::remove_if(t.begin(), t.end(), [](const std::string &s) { return s == "--pack"; }), t.end()); t.insert(t.begin() + r(int(t.size()) + 1), "--no-pack"); }
    return t;
}
static std::string text(Rng &r, const std::vector<std::string> &t) {
    static const std::vector<std::string> sep = {" ", "  ", "\t", " \n", "\r\n"}; std::string s = r.p(20) ? " " : "";
    for (size_t i = 0; i < t.size(); ++i) s += (i ? r.pick(sep) : "") + t[i]; if (r.p(20)) s += " ";
    return s;
}
static void args(Rng &r) {
    std::string pos[3] = {"--a", "--b", "-c"}, pos2[3] = {"-a", "-bb", "cc"}, neg[3] = {"--no-a", "-nb", "-no-c"};
    ArgParser p; std::vector<Raw> decl; int k = r.in(1, 3);
    for (int i = 0; i < k; ++i) {
        bool d = r.p(50), two = r.p(70), no = r.p(80); p.add(two ? std::vector<std::string>{pos[i], pos2[i]} : std::vector<std::string>{pos[i]}, no ? std::vector<std::string>{neg[i]} : std::vector<std::string>{}, d);
        decl.push_back(J().f("name", pos[i]).f("pos", two ? std::vector<std::string>{pos[i], pos2[i]} : std::vector<std::string>{pos[i]}).f("neg", no ? std::vector<std::string>{neg[i]} : std::vector<std::string>{}).f("d", d).raw());
    }
    std::vector<std::string> all; std::vector<std::string> dv = {"cpu", "cuda", "gpu", "x1", "x2", "x3", ""};
    for (int t = r.in(1, 2); t > 0; --t) {
        std::vector<std::string> tok;
        for (int i = r(6); i > 0; --i) { int w = r(10); tok.push_back(w < 3 ? pos[r(3)] : w < 5 ? pos2[r(3)] : w < 7 ? neg[r(3)] : w < 9 ? std::string(r.p(50) ? "-v:" : "-V:") + r.pick(dv) + ":" + r.pick(dv) : r.p(50) ? "--zz" : "-v:x1"); }
        p.parse(text(r, tok)); all.insert(all.end(), tok.begin(), tok.end());
    }
    std::vector<bool> got; std::vector<std::string> maps; for (int i = 0; i < k; ++i) got.push_back(p.get(pos[i]));
    for (auto &d : dv) maps.push_back(p.map_device(d));
    std::vector<Raw> tj; for (auto &s : all) { auto a = s.find(':'), b = a == std::string::npos ? a : s.find(':', a + 1); bool m = b != std::string::npos; tj.push_back(J().f("w", s).f("m", m).f("a", m ? s.substr(a + 1, b - a - 1) : "").f("b", m ? s.substr(b + 1) : "").raw()); }
    std::vector<int> gi; for (bool b : got) gi.push_back(b ? 1 : 0);
    J("args").f("decl", decl).f("toks", tj).f("got", gi).f("dev", dv).f("maps", maps).emit();
}
int main(int argc, char **argv) {
    if (argc < 5) return 77;
    vf::open(argv[1]); Rng r(std::strtoull(argv[2], nullptr, 10)); int segs = atoi(argv[3]), steps = atoi(argv[4]);
    setup_session();
    auto norm = OperatorCreator::Query(CPU, name::layer::batch_norm());
    OperatorCreator::Register(CPU, name::layer::batch_norm(), [norm] { return Operator::shared(new AnyNorm(norm())); });
    OperatorCreator::Register(CPU, "vf_abs", [] { return Operator::shared(new HalfAbs); });
    static SquareOption so; static WrapOption wo; static SubOption su; static WinOption wi; static CopyConverter cc;
    RegisterTranslateOption(&so); RegisterTranslateV2Option(&wo); RegisterOption(&su); RegisterOption(&wi); 
    for (int seg = 0; seg < segs; ++seg) {
        for (int i = 0; i < 3; ++i) args(r);
        Net n = random_net(r); auto m = build(n); auto first = what(m);
        if (n.half) { Fp16OperatorCreator::Register(CPU, "vf_abs", [] { return Operator::shared(new HalfAbs); }); Fp16OperatorCreator::Register(CPU, name::layer::batch_norm(), [norm] { return Operator::shared(new AnyNorm(norm())); }); } else Fp16OperatorCreator::Clear();
        J("reset").f("g", n.g).f("outs", n.outs).f("ins", n.ins).emit();
        auto bench = std::make_shared<Workbench>(ComputingDevice(CPU, 0));
        std::map<std::string, Program::shared> pr; std::map<std::string, Workbench::shared> wb; std::map<std::string, Module::shared> md; int np = 0, nmod = 0;
        for (int t = 0; t < steps; ++t) {
            int w = r(100);
            if (pr.empty() || (w < 35 && pr.size() < 9)) {
                on_square = r.p(25); on_sub = r.p(25); on_wrap = r.p(20); on_conv = r.p(25); on_win = r.p(15) && n.t == FLOAT32;
                RegisterConverter("cpu", on_conv ? &cc : nullptr);
                Module::shared src = m; std::string from = "m";
                if (!md.empty() && r.p(45)) { auto it = md.begin(); std::advance(it, r(int(md.size()))); src = it->second; from = it->first; if (on_win) on_win = false; }
                auto tok = tokens(r, on_win); std::string opt = text(r, tok), p = "p" + std::to_string(++np), what0; int how = r(5); std::string what1;
                if (how == 4 && md.size() < 3) {                      // rewritten as a network
                    std::string q = "t" + std::to_string(++nmod); Module::shared x; if (on_win) tok.push_back("-win");
                    auto e = guard([&] { x = Module::Translate(src, ComputingDevice(CPU, 0), opt); }, &what1);
                    std::vector<std::string> in, out; if (e.empty()) { for (auto &i : x->inputs()) in.push_back(i->name()); for (auto &o : x->outputs()) out.push_back(o->name()); md[q] = x; }
                    J("tr").f("m", q).f("from", from).f("opts", tok).f("e", e).f("w", what1.substr(0, 300)).f("ins", in).f("outs", out).f("src", what(m) == first).emit();
                    continue;
                }
                Program::shared prog; Workbench::shared b = bench; ctx::bind<Workbench> _b(*bench); 
                auto e = guard([&] {
                    if (how == 0) { b = Workbench::Load(src, ComputingDevice(CPU, 0), opt); return; }
                    if (how == 1) { tok.push_back("-v:mid:cpu"); std::string o = opt + " -v:mid:cpu"; if (r.p(50)) { tok.push_back("-v:vfdev:mid"); o = "-v:vfdev:mid " + o; prog = Program::Compile(src, ComputingDevice("vfdev", 0), o); } else prog = Program::Compile(src, ComputingDevice("mid", 0), o); return; }
                    if (how == 2) { prog = bench->compile(src, opt); return; }
                    prog = Program::Compile(src, ComputingDevice(CPU, 0), opt);
                }, &what1);
                std::vector<std::string> in, out;
                if (e.empty()) {
                    if (prog) { for (int i = 0; i < prog->input_count(); ++i) in.push_back(prog->input_names()[size_t(i)]); for (int i = 0; i < prog->output_count(); ++i) out.push_back(prog->output_names()[size_t(i)]); }
                    pr[p] = prog; wb[p] = b;
                }
                J("load").f("p", p).f("from", from).f("opts", tok).f("win", on_win).f("e", e).f("w", what1.substr(0, 300)).f("names", prog != nullptr).f("ins", in).f("outs", out).f("src", what(m) == first).emit();
            } else if (w < 42) {
                auto it = pr.begin(); std::advance(it, r(int(pr.size()))); if (!it->second) continue;
                std::string p = "p" + std::to_string(++np); ctx::bind<Workbench> _b(*bench);
                auto c = it->second->clone(); J("clone").f("p", p).f("of", it->first).f("src", what(m) == first).emit(); pr[p] = c; wb[p] = bench;
            } else {
                auto it = pr.begin(); std::advance(it, r(int(pr.size()))); auto &b = wb[it->first];
                std::vector<Tensor> in; std::vector<Raw> ij, oj; for (int i : n.ins) { auto &x = n.g[size_t(i) - 1]; DTYPE t = x.want != VOID && r.p(50) ? INT32 : x.t; in.push_back(random_tensor(r, t, x.s, -3, 3)); ij.push_back(vf::tj1(in.back(), 0)); }
                std::vector<Tensor> out; std::string what1;
                auto e = guard([&] {
                    if (it->second) b->setup(it->second);
                    for (size_t i = 0; i < in.size(); ++i) { if (r.p(50)) b->input(int(i), in[i]); else b->input(nm(n.ins[i]), in[i]); }
                    b->run(); for (size_t i = 0; i < n.outs.size(); ++i) out.push_back(b->output(int(i)).clone());
                }, &what1);
                if (e.empty()) for (size_t i = 0; i < n.outs.size(); ++i) oj.push_back(vf::tj1(out[i], n.g[size_t(n.outs[i]) - 1].sc));
                J("run").f("p", it->first).f("in", ij).f("e", e).f("w", what1.substr(0, 300)).f("out", oj).f("src", what(m) == first).emit();
            }
        }
    }
    return 0;
}
