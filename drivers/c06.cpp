// Compiles and runs networks of logging operators: every operator execution and every result is an event.
#include "graphgen.h"
using namespace ts;
using namespace vf;

static void one(const Net &n, Rng &r) {
    J("net").f("g", n.g).f("outs", n.outs).f("ins", n.ins).emit();
    Workbench bench(ComputingDevice(CPU, 0));
    Program::shared prog;
    int how = r(3);
    std::string err = guard([&] {
        Graph graph;
        auto nodes = build(n, graph, [](int i) { return "n" + std::to_string(i); });
        std::vector<Node> outs, ins;
        for (int o : n.outs) outs.push_back(nodes[o - 1]);
        for (int i : n.ins) ins.push_back(nodes[i - 1]);
        Module::shared m = std::make_shared<Module>();
        m->load(graph, outs);
        m->sort_inputs(ins);
        prog = bench.compile(m);
    });
    J("compiled").f("err", err).emit();
    if (!prog) return;
    bench.setup(prog);
    for (int k = 0; k < 2; ++k) {
        std::vector<int> args;
        std::vector<Tensor> in;
        for (size_t i = 0; i < n.ins.size(); ++i) {
            size_t j = std::find(n.ins.begin(), n.ins.end(), n.ins[i]) - n.ins.begin();
            args.push_back(j < i ? args[j] : glog().token++); in.push_back(scalar(args.back())); }
        J("run").f("args", args).emit();
        std::vector<std::vector<int>> outs;
        int below = 0, above = 0;
        std::string e = guard([&] {
            if (how == 0) {
                for (size_t i = 0; i < in.size(); ++i) bench.input(int(i), in[i]);
                bench.run();
                for (int i = 0; i < bench.output_count(); ++i) outs.push_back(tokens(bench.output(i)));
            } else if (how == 1) {
                for (auto &t : bench.launch_offline(prog, in)) outs.push_back(tokens(t));
            } else {
                // on a stack that already holds other values
                below = int(bench.stack().size()) + 2;
                bench.stack().push(scalar(7)); bench.stack().push(scalar(8));
                for (auto &t : in) bench.stack().push(t);
                int got = bench.launch_online(prog, int(in.size()));
                above = int(bench.stack().size()) - below;
                for (int i = 0; i < got; ++i) outs.push_back(tokens(bench.stack()[i - got]));
                if (above != got || bench.stack()[below - 1].data<int32_t>()[0] != 8 || bench.stack()[below - 2].data<int32_t>()[0] != 7) outs.push_back({-2});
                bench.clear();
            }
            if (bench.stack().size() != 0 || bench.stack().base() != 0) outs.push_back({-3});
        });
        J("result").f("err", e).f("outs", outs).emit();
        if (how != 1 && r.p(50)) how = r(3);
    }
}

// every graph with exactly N nodes of the kinds of the design model
static void enumerate(int N, int maxouts, Rng &r, int keep_percent, const std::function<void(const Net &)> &fn) {
    std::function<void(Net &)> rec = [&](Net &n) {
        int i = int(n.g.size());
        if (i == N) {
            for (int o = 1; o <= N; ++o) for (int p = 0; p <= (maxouts > 1 ? N : 0); ++p) {
                n.outs = {o}; if (p) n.outs.push_back(p);
                if (!r.p(keep_percent)) continue;
                choose_ins(n, r, 40, true);
                fn(n);
            }
            return;
        }
        auto add = [&](const GNode &x) { n.g.push_back(x); rec(n); n.g.pop_back(); };
        add({"param", {}, 1}); add({"const", {}, 1});
        for (int a = 1; a <= i; ++a) { add({"op", {a}, 1}); for (int b = 1; b <= i; ++b) add({"op", {a, b}, 1}); }
    };
    Net n; rec(n);
}

int main(int argc, char **argv) {
    vf::open(argv[1]);
    Rng r(atoi(argv[2]));
    std::string mode = argv[3];
    setup_logop();
    if (mode == "enum") enumerate(atoi(argv[4]), 2, r, atoi(argv[5]), [&](const Net &n) { one(n, r); });
    else { int cnt = atoi(argv[4]), maxn = atoi(argv[5]); for (int i = 0; i < cnt; ++i) one(random_net(r, maxn, 3), r); }
    return 0;
}
