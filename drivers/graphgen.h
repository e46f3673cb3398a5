// Random / enumerated small networks of logging operators, shared by the graph checks.
#ifndef VF_GRAPHGEN_H
#define VF_GRAPHGEN_H
#include "vf.h"
#include "core/tensor_builder.h"
#include "runtime/operator.h"
#include "runtime/stack.h"
#include "runtime/workbench.h"
#include "global/operator_factory.h"
#include "global/setup.h"
#include "module/module.h"
#include "module/menu.h"
#include "module/graph.h"
#include "backend/name.h"
#include "utils/ctxmgr_lite.h"

namespace vf {
    struct GNode { std::string k; std::vector<int> ins; int f; };   // ids are 1-based
    inline std::string js(const GNode &n) { return J().f("k", n.k).f("ins", n.ins).f("f", n.f).str(); }
    struct Net { std::vector<GNode> g; std::vector<int> outs, ins; };

    inline int width(const Net &n, int id) {
        auto &x = n.g[id - 1];
        if (x.k == "op") return x.f;
        if (x.k == "pack") return int(x.ins.size());
        return 1;
    }
    inline bool const_only(const Net &n, int id) {
        auto &x = n.g[id - 1];
        if (x.k == "const") return true;
        if (x.k == "param") return false;
        for (int i : x.ins) if (!const_only(n, i)) return false;
        return true;
    }
    inline void reach(const Net &n, int id, std::vector<bool> &seen) {
        if (seen[id]) return;
        seen[id] = true;
        for (int i : n.g[id - 1].ins) reach(n, i, seen);
    }
    // inputs: needed params, each unneeded one with some probability, in random order
    inline void choose_ins(Net &n, Rng &r, int unused_percent, bool shuffle) {
        std::vector<bool> seen(n.g.size() + 1);
        for (int o : n.outs) reach(n, o, seen);
        n.ins.clear();
        for (int i = 1; i <= int(n.g.size()); ++i)
            if (n.g[i - 1].k == "param" && (seen[i] || r.p(unused_percent))) n.ins.push_back(i);
        if (shuffle && !n.ins.empty() && r.p(8)) n.ins.push_back(r.pick(n.ins));   // an input listed twice
        if (shuffle) std::shuffle(n.ins.begin(), n.ins.end(), r.g);
    }
    inline Net random_net(Rng &r, int maxn, int maxouts, bool packs = true) {
        Net n;
        int N = r.in(2, maxn), near = r.p(30) ? 95 : 60, early = r.p(30) ? 50 : 0;      // long chains with shortcuts, too
        for (int i = 1; i <= N; ++i) {
            GNode x;
            int t = r(100);
            std::vector<int> wide;
            for (int j = 1; j < i; ++j) if (width(n, j) > 1) wide.push_back(j);
            if (i == 1 || t < 15) { x.k = "param"; x.f = 1; }
            else if (t < 24) { x.k = "const"; x.f = 1; }
            else if (packs && !wide.empty() && t < 50) { x.k = "field"; x.ins = {r.pick(wide)}; x.f = r(width(n, x.ins[0])); }
            else if (packs && t < 58) {
                x.k = "pack"; x.f = 1; int m = r.in(1, 3);
                std::vector<int> thin;
                for (int j = 1; j < i; ++j) if (width(n, j) == 1) thin.push_back(j);
                if (thin.empty()) { x.k = "param"; } else
                for (int q = 0; q < m; ++q) x.ins.push_back(r.pick(thin));
            } else {
                x.k = "op"; int m = r.in(1, 3);
                for (int q = 0; q < m; ++q) x.ins.push_back(q && r.p(early) ? r.in(1, std::min(i - 1, 3)) : r.p(near) ? r.in(std::max(1, i - (near > 90 ? 2 : 3)), i - 1) : r.in(1, i - 1));
                x.f = packs && r.p(25) ? r.in(2, 3) : 1;
            }
            n.g.push_back(x);
        }
        int m = r.in(1, maxouts);
        for (int q = 0; q < m; ++q) n.outs.push_back(r.p(60) ? r.in(std::max(1, N - 3), N) : r.in(1, N));
        choose_ins(n, r, 40, true);
        return n;
    }

    struct Log { std::atomic<int> token{100}; bool on = true; };
    inline Log &glog() { static Log l; return l; }
    inline std::vector<int> tokens(const ts::Tensor &t) {
        std::vector<int> v;
        for (size_t i = 0; i < t.fields_count(); ++i) {
            auto f = t.field(i);
            if (f.dtype() != ts::INT32 || f.count() != 1) { v.push_back(-1); continue; }
            v.push_back(f.data<int32_t>()[0]);
        }
        return v;
    }
    // an operator that logs its execution and gives fresh, never repeated values
    class LogOp : public ts::Operator {
    public:
        int id = 0, nf = 1;
        LogOp() { field("id", REQUIRED); field("nf", REQUIRED); }
        void init() override { supper::init(); id = ts::tensor::to_int(get("id")); nf = ts::tensor::to_int(get("nf")); }
        using supper = ts::Operator;
        int run(ts::Stack &stack) override {
            std::vector<std::vector<int>> in;
            for (int i = 0; i < int(stack.size()); ++i) in.push_back(tokens(stack[i]));
            std::vector<ts::Tensor> out;
            std::vector<int> ot;
            for (int i = 0; i < nf; ++i) {
                ts::Tensor t = stack.make(ts::INT32, {1});
                t.data<int32_t>()[0] = glog().token++;
                ot.push_back(t.data<int32_t>()[0]);
                out.push_back(t);
            }
            ts::Tensor p; p.pack(out);
            if (glog().on) J("exec").f("k", id).f("in", in).f("out", ot).emit();
            stack.push(p);
            return 1;
        }
        int infer(ts::Stack &stack, std::vector<ts::Tensor::Prototype> &output) override {
            output.assign(nf, ts::Tensor::Prototype(ts::INT32, {1}));
            return nf;
        }
    };
    inline ts::Tensor scalar(int v) { return ts::tensor::build(ts::INT32, ts::Shape({1}), std::vector<int32_t>({v})); }
    inline void setup_logop() {
        ts::setup();
        ts::OperatorCreator::Register(ts::CPU, "vf_op", [] { return ts::Operator::shared(new LogOp); });
    }
    // const i has value i, so that the trace spec knows it
    inline std::vector<ts::Node> build(const Net &n, ts::Graph &graph, const std::function<std::string(int)> &name) {
        ts::ctx::bind<ts::Graph> _g(graph);
        std::vector<ts::Node> nodes;
        for (int i = 1; i <= int(n.g.size()); ++i) {
            auto &x = n.g[i - 1];
            std::vector<ts::Node> in;
            for (int j : x.ins) in.push_back(nodes[j - 1]);
            ts::Node node = [&]() -> ts::Node {
                if (x.k == "param") return ts::bubble::param(name(i));
                if (x.k == "const") return ts::bubble::data(name(i), scalar(i));
                if (x.k == "pack") return ts::bubble::op(name(i), ts::name::layer::pack(), in);
                if (x.k == "field") { auto f = ts::bubble::op(name(i), ts::name::layer::field(), in); f->set(ts::name::offset, ts::tensor::from<int32_t>(x.f)); return f; }
                auto o = ts::bubble::op(name(i), "vf_op", in);
                o->set("id", ts::tensor::from<int32_t>(i));
                o->set("nf", ts::tensor::from<int32_t>(x.f));
                return o;
            }();
            nodes.push_back(node);
        }
        return nodes;
    }
}
#endif
