// Calls of single operators: parameters, inputs, announced and produced results, state of the inputs afterwards.
#ifndef VF_OPS_H
#define VF_OPS_H
#include "tensorio.h"
#include "runtime/stack.h"
#include "runtime/operator.h"
#include "runtime/runtime.h"
#include "runtime/workbench.h"
#include "runtime/inferer.h"
#include "core/device_context.h"
#include "global/operator_factory.h"
#include "module/graph.h"
#include "module/menu.h"
#include "module/bubble.h"
#include <map>
#include <cstring>
namespace vf {
    using ts::Tensor; using ts::DTYPE;
    typedef std::vector<int> VI;
    inline int rnd_seed();
    struct P {                                   // operator parameters with their JSON form
        std::map<std::string, Tensor> t; J j;
        P &i(const char *n, int v) { t[n] = ts::tensor::from<int32_t>(v); j.f(n, v); return *this; }
        P &il(const char *n, const VI &v) { t[n] = ts::tensor::build(ts::INT32, v); j.f(n, v); return *this; }
        P &il2(const char *n, const VI &v, const VI &shape) { t[n] = tensor_of(ts::INT32, shape, v); j.f(n, v); return *this; }
        P &b(const char *n, bool v) { t[n] = ts::tensor::from<bool>(v); j.f(n, v ? 1 : 0); return *this; }
        P &s(const char *n, const std::string &v) { t[n] = ts::tensor::from(v); j.f(n, v); return *this; }
        P &r(const char *n, int num, int den) { t[n] = ts::tensor::from<float>(float(num) / den); j.f(n, VI{num, den}); return *this; }  // num/den
        P &rl(const char *n, const VI &num, int den) {
            std::vector<float> f; for (int x : num) f.push_back(float(x) / den);
            t[n] = ts::tensor::build(ts::FLOAT32, f); j.f(n, num); return *this;
        }
        P &tensor(const char *n, const Tensor &v) { t[n] = v; j.f(n, v); return *this; }
    };
    struct Case {
        std::string op; P p; std::vector<std::vector<Tensor>> xs; double scale = 0; std::vector<bool> host; // host: given as constants to static inference
        bool stat = true;
        int q = 1;               // inputs of floating point type are multiples of 1/q and told by their numerators
    };
    inline VI shape_of(const Tensor &t) { return VI(t.sizes().begin(), t.sizes().end()); }
    inline Raw pj(DTYPE t, const ts::Shape &s) { return J().f("t", dts(t)).f("s", VI(s.begin(), s.end())).raw(); }
    inline std::vector<Raw> protos(const std::vector<Tensor::Prototype> &v) {
        std::vector<Raw> r; for (auto &p : v) r.push_back(pj(p.dtype(), p.sizes())); return r;
    }
    inline bool same_bytes(const Tensor &a, const Tensor &b) {
        if (a.dtype() != b.dtype() || shape_of(a) != shape_of(b) || a.fields_count() != b.fields_count()) return false;
        for (size_t i = 0; i < a.fields_count(); ++i) {
            Tensor x = a.field(i), y = b.field(i);
            if (shape_of(x) != shape_of(y) || x.dtype() != y.dtype()) return false;
            if (x.dtype() == ts::VOID) continue;
            size_t n = size_t(x.count()) * ts::type_bytes(x.dtype());
            if (n && std::memcmp(x.data(), y.data(), n)) return false;
        }
        return true;
    }
    struct Runner {
        ts::ComputingDevice dev{ts::CPU, 0};
        ts::DeviceContext dc;
        ts::RuntimeContext rc;
        Rng &r;
        bool blurring = true;        // leave some dimensions unknown to static inference
        ts::Workbench bench{dev};     // operators may call others
        explicit Runner(Rng &rng) : r(rng) { dc.initialize(dev); }
        void call(const Case &c) {
            rc.set_computing_thread_number(r.p(50) ? 1 : r.in(2, 5));
            ts::ctx::bind<ts::DeviceContext> b1(dc);
            ts::ctx::bind<ts::RuntimeContext> b2(rc);
            ts::ctx::bind<ts::ThreadPool> b3(rc.thread_pool());
            ts::ctx::bind<ts::Workbench> b4(bench);
            ts::Operator::shared op;
            std::string what;
            auto e0 = guard([&] {
                op = ts::OperatorCreator::Create(ts::CPU, c.op, false);
                for (auto &it : c.p.t) op->set(it.first, it.second);
                op->init();
            }, &what);
            int k = 0;
            for (auto &x : c.xs) {
                ++k;
                J j("op");
                j.f("op", c.op).f("p", c.q > 1 ? J(c.p.j).f("_q", c.q) : c.p.j).f("k", k).f("sc", int(c.scale));
                std::vector<Raw> xj;
                for (auto &t : x) xj.push_back(t.fields_count() > 1 ? J().f("t", "pack").f("f", tjs(t)).raw() : tj1(t, c.q > 1 ? c.q : 0));
                j.f("x", xj).f("e0", e0);
                if (std::getenv("VF_SHOW")) std::fprintf(stderr, "%s %s %s\n", c.op.c_str(), c.p.j.raw().s.c_str(), J().f("x", xj).raw().s.c_str());
                if (!e0.empty()) { j.f("w", what.substr(0, 200)).emit(); break; }
                std::vector<Tensor> in, copy;
                for (auto &t : x) { in.push_back(t.clone()); copy.push_back(t.clone()); }
                ts::Stack st(dc.memory_device);
                std::vector<Tensor::Prototype> ann;
                bool infer_first = r.p(60);
                std::string ea = "skip";
                auto infer = [&] {
                    ea = guard([&] { for (auto &t : in) st.push(t); InferOperator(op, st, int(in.size()), ann); }, &what);
                    st.clear();
                };
                if (infer_first) infer();
                int n = 0;
                auto e = guard([&] { for (auto &t : in) st.push(t); n = RunOperator(op, st, int(in.size())); }, &what);
                std::vector<Raw> y; bool own = true;
                std::vector<int> fields;
                if (e.empty()) {
                    for (int i = 0; i < int(st.size()); ++i) { auto f = tjs(*st.index(i), c.scale); y.insert(y.end(), f.begin(), f.end()); fields.push_back(int(f.size())); }
                } else j.f("w", what.substr(0, 300));
                bool keep = true;
                for (size_t i = 0; i < in.size(); ++i) if (!same_bytes(in[i], copy[i])) keep = false;
                st.clear();
                if (!infer_first) infer();
                for (size_t i = 0; i < in.size(); ++i) if (!same_bytes(in[i], copy[i])) keep = false;
                j.f("e", e).f("n", n).f("y", y).f("fields", fields).f("keep", keep).f("ea", ea).f("ann", protos(ann));
                if (c.stat && e.empty()) stat(c, x, j);
                j.emit();
            }
        }
        void stat(const Case &c, const std::vector<Tensor> &x, J &j) {
            std::vector<Raw> res; bool blur = false;
            auto e = guard([&] {
                ts::Graph g;
                ts::ctx::bind<ts::Graph> bg(g);
                std::vector<ts::Node> in;
                for (size_t i = 0; i < x.size(); ++i) {
                    std::string name = "x" + std::to_string(i);
                    if ((i < c.host.size() && c.host[i] && r.p(90)) || x[i].fields_count() > 1) { in.push_back(ts::bubble::data(name, x[i], ts::CPU)); continue; }
                    auto p = ts::bubble::param(name);
                    VI s = shape_of(x[i]);
                    if (blurring && r.p(20)) for (auto &d : s) if (r.p(40)) { d = -1; blur = true; }
                    p->set("#shape", ts::tensor::build(ts::INT32, s));
                    p->set("#dtype", ts::tensor::from<int32_t>(x[i].dtype()));
                    in.push_back(p);
                }
                auto n = ts::bubble::op("y", c.op, in);
                for (auto &it : c.p.t) n.bubble().set(it.first, it.second);
                auto y = ts::infer(n);
                for (size_t i = 0; i < y.fields_count(); ++i) { auto f = y.field(i); res.push_back(pj(f.dtype(), f.sizes())); }
            });
            j.f("es", e).f("stat", res).f("blur", blur);
        }
    };
}
#endif
