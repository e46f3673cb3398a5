// Sessions over small networks of deterministic operators; every call and what it gave is an event.
#ifndef VF_SESSION_H
#define VF_SESSION_H
#include "tensorio.h"
#include <atomic>
#include <map>
#include "runtime/workbench.h"
#include "runtime/operator.h"
#include "runtime/program.h"
#include "runtime/image_filter.h"
#include "global/operator_factory.h"
#include "global/setup.h"
#include "module/module.h"
#include "module/menu.h"
#include "module/graph.h"
#include "backend/name.h"
#include "utils/ctxmgr_lite.h"
namespace vf {
    struct SNode { std::string k; std::vector<int> ins; int f = 0; std::string dt; ts::Tensor v; int w = 0; };
    inline std::string js(const SNode &n) {
        J j; j.f("k", n.k).f("ins", n.ins).f("f", n.f).f("dt", n.dt).f("w", n.w);
        if (n.k == "const") j.f("v", n.v); else j.f("v", 0);
        return j.str();
    }
    struct SNet { std::vector<SNode> g; std::vector<int> outs, ins; };
    inline std::string nm(int i) { return "n" + std::to_string(i); }

    template<typename T> inline bool fn_run(ts::Tensor &out, const std::vector<ts::Tensor> &in, int id, int p) {
        for (int i = 0; i < out.count(); ++i) {
            long s = 7 * id + p;
            for (size_t j = 0; j < in.size(); ++j) {
                long v = long(in[j].data<T>()[i]);
                if (v % 97 == 66) return false;
                s += long(j + 1) * v;
            }
            out.data<T>()[i] = T(((s % 997) + 997) % 997);
        }
        return true;
    }
    // out[i] = (7 * id + p + sum_j j * in_j[i]) mod 997; fails on elements that are 66 modulo 97
    class FnOp : public ts::Operator {
    public:
        using supper = ts::Operator;
        int id = 0, p = 0;
        FnOp() { field("id", REQUIRED); field("p", OPTIONAL, ts::tensor::from<int32_t>(0)); }
        void init() override { supper::init(); id = ts::tensor::to_int(get("id")); p = ts::tensor::to_int(get("p")); }
        int infer(ts::Stack &stack, std::vector<ts::Tensor::Prototype> &output) override { output = {stack[0].proto()}; return 1; }
        int run(ts::Stack &stack) override {
            std::vector<ts::Tensor> in;
            for (int i = 0; i < int(stack.size()); ++i) in.push_back(stack[i]);
            for (auto &t : in) if (t.dtype() != in[0].dtype() || t.sizes() != in[0].sizes()) TS_LOG_ERROR << "vf_fn: operands differ" << ts::eject;
            ts::Tensor out = stack.make(in[0].dtype(), in[0].sizes());
            bool ok = false;
            if (in[0].dtype() == ts::INT32) ok = fn_run<int32_t>(out, in, id, p);
            else if (in[0].dtype() == ts::FLOAT32) ok = fn_run<float>(out, in, id, p);
            if (!ok) TS_LOG_ERROR << "vf_fn: refused" << ts::eject;
            stack.push(out);
            return 1;
        }
    };
    // evaluates fn(id + 1, 3) after fn(id, 2) as a network of its own, from inside the running one
    class NestOp : public ts::Operator {
    public:
        using supper = ts::Operator;
        int id = 0; bool soft = false; int how = 0;
        ts::Program::shared prog;
        NestOp() { field("id", REQUIRED); field("soft", REQUIRED); field("how", REQUIRED); }
        void init() override { supper::init(); id = ts::tensor::to_int(get("id")); soft = ts::tensor::to_int(get("soft")) != 0; how = ts::tensor::to_int(get("how")); }
        int infer(ts::Stack &stack, std::vector<ts::Tensor::Prototype> &output) override { output = {stack[0].proto()}; return 1; }
        int run(ts::Stack &stack) override {
            auto &bench = ts::ctx::of<ts::Workbench>::ref();
            if (!prog) {
                ts::Graph g; ts::ctx::bind<ts::Graph> _g(g);
                auto x = ts::bubble::param("x");
                auto a = ts::bubble::op("a", "vf_fn", {x}); a->set("id", ts::tensor::from<int32_t>(id)); a->set("p", ts::tensor::from<int32_t>(2));
                auto b = ts::bubble::op("b", "vf_fn", {a}); b->set("id", ts::tensor::from<int32_t>(id + 1)); b->set("p", ts::tensor::from<int32_t>(3));
                auto m = std::make_shared<ts::Module>(); m->load(g, std::vector<ts::Node>{b});
                prog = bench.compile(m);
            }
            ts::Tensor x = stack[0];
            if (soft) {
                ts::Tensor out = x;
                try { out = bench.launch_offline(prog, std::vector<ts::Tensor>{x})[0]; } catch (const ts::Exception &) {}
                if (int(stack.size()) != 1) { TS_LOG_ERROR << "vf_nest: frame changed" << ts::eject; }
                stack.push(out);
                return 1;
            }
            if (how == 0) { stack.push(bench.launch_offline(prog, std::vector<ts::Tensor>{x})[0]); return 1; }
            stack.push(x);
            return bench.launch_online(prog, 1);
        }
    };
    inline void setup_session() {
        ts::setup();
        ts::OperatorCreator::Register(ts::CPU, "vf_fn", [] { return ts::Operator::shared(new FnOp); });
        ts::OperatorCreator::Register(ts::CPU, "vf_nest", [] { return ts::Operator::shared(new NestOp); });
    }
    inline ts::Node conv_node(const std::string &name, ts::Node x, ts::Node w) {
        using namespace ts;
        auto o = bubble::op(name, name::layer::conv2d(), {x, w});
        o->set(name::format, tensor::from("NCHW"));
        o->set(name::padding, tensor::build(INT32, Shape({4, 2}), std::vector<int32_t>({0, 0, 0, 0, 1, 1, 1, 1})));
        o->set(name::stride, tensor::build(INT32, Shape({4}), std::vector<int32_t>({1, 1, 1, 1})));
        o->set(name::dilation, tensor::build(INT32, Shape({4}), std::vector<int32_t>({1, 1, 1, 1})));
        return o;
    }
    inline ts::Module::shared module_of(const SNet &n) {
        using namespace ts;
        Graph graph; ctx::bind<Graph> _g(graph);
        std::vector<Node> nodes;
        for (int i = 1; i <= int(n.g.size()); ++i) {
            auto &x = n.g[i - 1];
            std::vector<Node> in;
            for (int j : x.ins) in.push_back(nodes[j - 1]);
            Node node = [&]() -> Node {
                if (x.k == "param") {
                    if (x.dt == "int32") return bubble::param(nm(i), INT32);
                    if (x.dt == "float32") return bubble::param(nm(i), FLOAT32);
                    return bubble::param(nm(i));
                }
                if (x.k == "const") return bubble::data(nm(i), x.v);
                if (x.k == "add") return bubble::op(nm(i), name::layer::add(), in);
                if (x.k == "cat") { auto o = bubble::op(nm(i), name::layer::concat(), in); o->set(name::dim, tensor::from<int32_t>(0)); return o; }
                if (x.k == "conv") {
                    auto w = bubble::data("w" + std::to_string(i), tensor_of(FLOAT32, {1, 1, 3, 3}, {1, 2, 0, 0, 1, 0, 3, 0, 1}));
                    return conv_node(nm(i), in[0], w);
                }
                auto o = bubble::op(nm(i), x.k == "nest" ? "vf_nest" : "vf_fn", in);
                o->set("id", tensor::from<int32_t>(i));
                if (x.k == "nest") { o->set("soft", tensor::from<int32_t>(x.f)); o->set("how", tensor::from<int32_t>(i % 2)); }
                else o->set("p", tensor::from<int32_t>(x.f));
                return o;
            }();
            nodes.push_back(node);
        }
        std::vector<Node> outs, ins;
        for (int o : n.outs) outs.push_back(nodes[o - 1]);
        for (int i : n.ins) ins.push_back(nodes[i - 1]);
        auto m = std::make_shared<Module>();
        m->load(graph, outs);
        m->sort_inputs(ins);
        return m;
    }
    inline bool consty(const SNet &n, int id) {
        auto &x = n.g[id - 1];
        if (x.k == "const") return true;
        if (x.k == "param") return false;
        for (int i : x.ins) if (!consty(n, i)) return false;
        return true;
    }
    inline std::vector<bool> needed(const SNet &n) {
        std::vector<bool> s(n.g.size() + 1);
        std::function<void(int)> go = [&](int i) { if (s[i]) return; s[i] = true; for (int j : n.g[i - 1].ins) go(j); };
        for (int o : n.outs) go(o);
        return s;
    }
    inline std::vector<std::vector<int>> &shapes() { static std::vector<std::vector<int>> s = {{2}, {3}, {2, 2}, {1, 2}, {1, 1, 2, 3}, {1, 1, 3, 3}, {2, 1, 2, 2}}; return s; }
    inline SNet random_snet(Rng &r, int maxn, bool rich) {
        SNet n;
        int N = r.in(2, maxn);
        for (int i = 1; i <= N; ++i) {
            SNode x;
            int t = r(100);
            if (i == 1 || t < 22) { x.k = "param"; int q = r(10); x.dt = q < 5 ? "" : q < 7 ? "int32" : "float32"; }
            else if (t < 32) { x.k = "const"; x.v = random_tensor(r, r.p(50) ? ts::INT32 : ts::FLOAT32, {r.p(50) ? 1 : 2}, 0, 60); }
            else {
                int q = r(100);
                x.k = !rich ? "fn" : q < 45 ? "fn" : q < 60 ? "add" : q < 70 ? "cat" : q < 85 ? "nest" : "conv";
                int m = x.k == "add" ? 2 : x.k == "conv" || x.k == "nest" ? 1 : r.in(1, 2);
                for (int j = 0; j < m; ++j) x.ins.push_back(r.p(60) ? r.in(std::max(1, i - 3), i - 1) : r.in(1, i - 1));
                x.f = x.k == "nest" ? r(2) : x.k == "fn" ? r(50) : 0;
                bool c = true;
                for (int j : x.ins) if (!consty(n, j)) c = false;
                if (c) { x.k = "param"; x.ins.clear(); x.f = 0; }
            }
            n.g.push_back(x);
        }
        int m = r.in(1, 3);
        for (int q = 0; q < m; ++q) n.outs.push_back(r.p(70) ? r.in(std::max(1, N - 2), N) : r.in(1, N));
        auto nd = needed(n);
        for (int i = 1; i <= N; ++i) if (n.g[i - 1].k == "param" && (nd[i] || r.p(30))) n.ins.push_back(i);
        std::shuffle(n.ins.begin(), n.ins.end(), r.g);
        return n;
    }
}
#endif
