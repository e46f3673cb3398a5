// Networks cut into a main network and sub-networks by marks on their nodes.  c13 TRACE SEED SEGMENTS STEPS
#include "session.h"
#include "compiler/fence/splitter.h"
#include "module/io/sstream.h"
using namespace vf;
using namespace ts;
typedef std::vector<int> VI;
struct SN { std::string k; VI ins; std::string mark, hint; };
static std::string js(const SN &n) { return J().f("k", n.k).f("ins", n.ins).f("mark", n.mark).f("hint", n.hint).str(); }
static std::vector<SN> net; static VI outs, ins;
static int pof(const Node &n) { return n->has("p") ? tensor::to_int(n->get("p")) : 0; }
static std::string hint_of(const Node &n) {
    std::ostringstream o; if (n->has("#dtype")) o << dts(n->dtype());
    if (n->has("#shape")) { o << "["; for (auto x : n->shape().std()) o << x << ","; o << "]"; } return o.str();
}
struct MarkRule : public SplitRule {
    bool is_route(const Node &n) const final { int p = pof(n); return p && net[p - 1].mark == "route"; }
    bool is_support(const Node &n) const final { int p = pof(n); return p && net[p - 1].mark == "support"; }
};
// nodes as they are found from the last ones, inputs first; an input found again while it is being looked at tells a circle
struct Dump {
    std::map<void *, int> at; std::vector<Node> order;
    void go(const Node &n) {
        void *p = n.ptr(); if (!p) internal("expired node in a cut"); if (at.count(p)) return; at[p] = 0;
        for (auto &i : n.inputs()) go(i);
        order.push_back(n); at[p] = int(order.size());
    }
    Raw raw(const std::vector<Node> &os, const std::vector<Node> &is, const Node *self = nullptr) {
        for (auto &o : os) go(o); for (auto &i : is) go(i);
        std::vector<Raw> ns;
        for (auto &n : order) {
            VI in; for (auto &i : n.inputs()) in.push_back(at[i.ptr()]);
            ns.push_back(J().f("p", pof(n)).f("op", n->op()).f("name", n->name()).f("hint", hint_of(n)).f("off", n->has("offset") ? tensor::to_int(n->get("offset")) : -1).f("ins", in).raw());
        }
        VI a, b; for (auto &o : os) a.push_back(at[o.ptr()]); for (auto &i : is) b.push_back(at[i.ptr()]);
        return J().f("nodes", ns).f("outs", a).f("ins", b).raw();
    }
};
// two supported regions, each with a way to the other past an unsupported node; edges made longer
static void crossed(Rng &r) {
    static const char *S = "support", *N = "no";
    net = {{"param", {}, N, ""}, {"op", {1}, S, ""}, {"op", {2}, S, ""}, {"op", {3}, N, ""}, {"op", {1}, S, ""}, {"op", {4, 5}, S, ""}, {"op", {5}, N, ""}, {"op", {5, 7, 2}, S, ""}};
    outs = {6, 8};
    for (int k = r(4); k > 0; --k) {                       // an edge j -> i gets a node between
        int i = r.in(2, int(net.size())), q = r(int(net[i - 1].ins.size())), j = net[i - 1].ins[q]; SN x; x.k = "op"; x.ins = {j}; x.mark = r.p(70) ? net[i - 1].mark : r.p(50) ? "support" : "route";
        for (auto &n : net) for (int &y : n.ins) if (y >= i) ++y;
        for (int &o : outs) if (o >= i) ++o;
        net.insert(net.begin() + (i - 1), x); net[i].ins[q] = i;
    }
    if (r.p(30)) { auto &n = net[r.in(2, int(net.size())) - 1]; if (n.k == "op") n.mark = r.p(50) ? "support" : "no"; }
    for (auto &n : net) std::shuffle(n.ins.begin(), n.ins.end(), r.g);
}
static void make_net(Rng &r, int maxn) {
    net.clear(); outs.clear(); ins.clear();
    if (r.p(20)) { crossed(r); if (r.p(50)) std::swap(outs[0], outs[1]); for (size_t i = 0; i < net.size(); ++i) if (net[i].k == "param") ins.push_back(int(i) + 1); return; }
    bool lattice = r.p(35); if (lattice) maxn = 14;
    int N = lattice ? r.in(7, maxn) : r.in(1, maxn), sup = r.in(2, 9) * 10, rt = r.p(50) ? r.in(5, 40) : 0, par = r.in(8, 30), wide = r.in(1, 3), back = r.in(1, 6);
    if (lattice) { sup = r.in(55, 80); rt = r.p(70) ? 0 : 30; par = 3; wide = 3; back = r.in(4, 12); }
    for (int i = 1; i <= N; ++i) {
        SN x; int t = r(100);
        if (i == 1 || t < par) x.k = r.p(75) ? "param" : "const";
        else { x.k = "op"; for (int q = lattice ? (r.p(45) ? 1 : r.in(2, 3)) : r.in(1, wide); q > 0; --q) x.ins.push_back(r.p(70) ? r.in(std::max(1, i - back), i - 1) : r.in(1, i - 1)); }
        x.mark = x.k == "param" || (x.k == "const" && r.p(60)) ? "no" : r.p(sup) ? "support" : r.p(rt) ? "route" : "no";
        if (r.p(15)) x.hint = r.p(50) ? "float32" : "int32[2,3,]";
        net.push_back(x);
    }
    std::vector<bool> used(N + 1), seen(N + 1); for (auto &x : net) for (int i : x.ins) used[i] = true;
    for (int i = 1; i <= N; ++i) if ((!used[i] && r.p(90)) || r.p(4)) outs.push_back(i);
    if (outs.empty()) outs.push_back(N);
    if (r.p(10)) outs.push_back(r.pick(outs));
    std::shuffle(outs.begin(), outs.end(), r.g);
    std::function<void(int)> go = [&](int i) { if (seen[i]) return; seen[i] = true; for (int j : net[i - 1].ins) go(j); };
    for (int o : outs) go(o);
    for (int i = 1; i <= N; ++i) if (net[i - 1].k == "param" && (seen[i] || r.p(30))) ins.push_back(i);
    std::shuffle(ins.begin(), ins.end(), r.g);
}
int main(int argc, char **argv) {
    if (argc < 5) return 77;
    vf::open(argv[1]); Rng r(std::strtoull(argv[2], nullptr, 10)); int segs = atoi(argv[3]), steps = atoi(argv[4]);
    setup();
    for (int seg = 0; seg < segs; ++seg) {
        make_net(r, r.p(20) ? 4 : r.p(60) ? 10 : 22);
        J("reset").f("g", net).f("outs", outs).f("ins", ins).emit();
        Graph g; std::vector<Node> ns;
        for (size_t i = 0; i < net.size(); ++i) {
            auto &x = net[i]; Bubble b = x.k == "param" ? Bubble(Bubble::Parameter, "n" + std::to_string(i + 1)) : x.k == "const" ? Bubble(Bubble::Const, "n" + std::to_string(i + 1)) : Bubble("vf_op", "n" + std::to_string(i + 1));
            b.set("p", tensor::from<int>(int(i) + 1)); if (x.k == "const") b.set("value", tensor::from<float>(float(i)));
            if (x.hint != "") b.dtype(x.hint[0] == 'f' ? FLOAT32 : INT32); if (x.hint.size() > 8) b.shape(Shape({2, 3}));
            auto n = g.make(b); std::vector<Node> in; for (int j : x.ins) in.push_back(ns[j - 1]); if (!in.empty()) Node::Link(n, in); ns.push_back(n);
        }
        std::vector<Node> o, i; for (int x : outs) o.push_back(ns[x - 1]); for (int x : ins) i.push_back(ns[x - 1]);
        auto source = [&]() { std::vector<Raw> v; for (auto &n : ns) { VI a; for (auto &x : n.inputs()) a.push_back(pof(x)); std::multiset<int> b; for (auto &x : n.outputs()) b.insert(pof(x)); v.push_back(J().f("a", a).f("b", VI(b.begin(), b.end())).f("n", n->name()).raw()); } return js(v); };
        std::string before = source();
        for (int st = 0; st < steps; ++st) {
            MarkRule rule; Splitter sp(&rule);
            bool plain = r.p(35); sp.single_input = !plain && r.p(35); sp.single_output = !plain && r.p(35); sp.only_max_graph = !plain && r.p(15);
            sp.min_graph_size = plain ? 0 : r.p(70) ? 0 : r.p(10) ? -1 : r.in(1, 4); if (r.p(30)) sp.submodule = "part";
            MainGraph m; std::string what, e = guard([&] { m = sp.split(o, i); }, &what);
            J j("cut"); j.f("si", sp.single_input).f("so", sp.single_output).f("max", sp.only_max_graph).f("min", sp.min_graph_size).f("sub", sp.submodule).f("err", e);
            if (e == "") {
                Dump d; Raw mr = d.raw(m.outputs(), m.inputs()); std::vector<Raw> subs;
                for (size_t k = 0; k < m.sub_count(); ++k) {
                    auto &s = m.sub_graph(k); Dump sd; Raw sr = sd.raw(s.outputs(), s.inputs());
                    int at = d.at.count(m.sub_node(k).ptr()) ? d.at[m.sub_node(k).ptr()] : 0;
                    // what it is cut for: a module of its own, saved and read again
                    std::vector<std::string> mi, mo; std::string me = "circle"; bool acyclic = true; for (auto &n : sd.order) for (auto &x : n.inputs()) if (sd.at[x.ptr()] >= sd.at[n.ptr()]) acyclic = false;
                    if (acyclic) me = guard([&] {
                        auto sm = std::make_shared<Module>(); sm->load(s.graph(), s.outputs()); sm->sort_inputs(s.inputs());
                        StringStreamWriter w; Module::Save(w, sm); StringStreamReader rd(w.str()); auto back = Module::Load(rd);
                        for (auto &x : back->inputs()) mi.push_back(x->name()); for (auto &x : back->outputs()) mo.push_back(x->name());
                    });
                    subs.push_back(J().f("part", sr).f("at", at).f("me", me).f("mi", mi).f("mo", mo).raw());
                }
                j.f("main", mr).f("subs", subs);
            }
            j.f("src", source() == before).emit();
        }
    }
    return 0;
}
