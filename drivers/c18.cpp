// Registries, operators' parameters, and starting operators.
#include "tensorio.h"
#include <map>
#include <set>
#include "runtime/operator.h"
#include "runtime/workbench.h"
#include "runtime/stack.h"
#include "global/operator_factory.h"
#include "global/fp16_operator_factory.h"
#include "global/memory_device.h"
#include "global/hard_allocator.h"
#include "global/hard_converter.h"
#include "global/module_loader_factory.h"
#include "global/device_admin.h"
#include "global/shape_inferer_factory.h"
#include "global/setup.h"
#include "module/bubble.h"
#include "module/graph.h"
#include "module/menu.h"
#include "module/module.h"
#include "utils/ctxmgr_lite.h"
#include "core/device_context.h"
#include "module/io/fstream.h"
using namespace ts;
using namespace vf;
typedef std::vector<int> VI; typedef std::vector<std::string> VS;
struct Fld { std::string n; bool req; int def; };
static std::map<int, std::vector<Fld>> impls;
static Tensor val(int v) { return v == 0 ? Tensor() : tensor::from<int32_t>(v); }
static int num(const Tensor &t) { return t.empty() ? 0 : t.dtype() == INT32 ? t.data<int32_t>(0) : -1; }
static const std::string P = "vf";                   // our keys are told from the library's own by this
class Fake : public Operator {
public:
    int impl;
    explicit Fake(int i) : impl(i) { for (auto &f : impls[i]) { if (f.def < 0) field(f.n, f.req ? REQUIRED : OPTIONAL); else field(f.n, f.req ? REQUIRED : OPTIONAL, val(f.def)); } }
    int run(Stack &s) override { return 1; }
    int infer(Stack &s, std::vector<Tensor::Prototype> &o) override { return 1; }
};
static VS sorted(VS v) { std::sort(v.begin(), v.end()); return v; }
static bool says(const std::string &w, const std::string &n) { return w.find("\"" + n + "\"") != std::string::npos; }
struct In { Operator::shared op; };
static std::map<int, Operator::shared> ins; static std::map<int, Bubble> bub;
template <typename M> static std::vector<Raw> dict(const M &m) {
    std::map<std::string, Raw> s;
    for (auto &p : m) { if (!p.first.empty() && p.first[0] == '#') { if (p.first != "#z") continue; } s[p.first] = J().f("n", p.first).f("v", num(p.second)).raw(); }
    std::vector<Raw> r; for (auto &x : s) r.push_back(x.second); return r;
}
static void emit(J j) {
    std::vector<Raw> o, b;
    for (auto &x : ins) { auto &p = *x.second; o.push_back(J().f("i", x.first).f("p", dict(p.params())).f("ok", p.check_params()).f("uns", sorted(p.unsatisfied_fields()))
        .f("req", sorted(p.list_required_fields())).f("opt", sorted(p.list_optional_fields())).f("all", sorted(p.list_all_fields())).f("op", p.op()).f("nm", p.name()).raw()); }
    for (auto &x : bub) { auto &p = x.second; Shape s = p.shape(); b.push_back(J().f("b", x.first).f("p", dict(p.params())).f("op", p.op()).f("nm", p.name()).f("t", int(p.dtype())).f("s", VI(s.begin(), s.end()))
        .f("same", tensor::to_string(p.get("#op")) == p.op() && tensor::to_string(p.get("#name")) == p.name()).raw()); }
    j.f("ins", o).f("bub", b).emit();
}
static HardAllocator::function allocf(int id) { return [id](int, size_t, void *, size_t) { return reinterpret_cast<void *>(size_t(id)); }; }
static int calls = 0;
static HardConverter::function convf(int id) { return [id](int, void *, int, const void *, size_t) { calls = id; }; }
static void reg(const std::string &kind, const std::string &a, const std::string &b, int id, bool none) {
    if (kind == "op") OperatorCreator::Register(a, b, none ? OperatorCreator::function(nullptr) : OperatorCreator::function([id] { return std::make_shared<Fake>(id); }));
    else if (kind == "fp16") Fp16OperatorCreator::Register(a, b, none ? OperatorCreator::function(nullptr) : OperatorCreator::function([id] { return std::make_shared<Fake>(id); }));
    else if (kind == "loader") ModuleLoader::Register(a, [id](StreamReaderV2 &, const void *, int32_t, Module::SerializationFormat) { Graph g; ctx::bind<Graph> bind(g); bubble::param("x"); calls = id; return Module::Load(g, VS{"x"}); });
    else if (kind == "admin") DeviceAdmin::Register(a, [id](DeviceHandle **, int, DeviceAdmin::Action) { calls = id; });
    else if (kind == "infer") ShapeInferer::Register(a, [id](const Node &, const std::vector<TensorPrototype> &) { calls = id; return TensorPrototype(); });
    else if (kind == "alloc") HardAllocator::Register(a, allocf(id));
    else if (kind == "conv") HardConverter::Register(a, b, convf(id));
}
static int impl_of(const Operator::shared &o) { auto f = std::dynamic_pointer_cast<Fake>(o); return o ? (f ? f->impl : -2) : 0; }
static int look(const std::string &kind, const std::string &a, const std::string &b, int strict) {
    calls = 0;
    if (kind == "op") { auto f = strict == 2 ? OperatorCreator::Query(a, b) : OperatorCreator::Query(a, b, strict == 1); return f ? impl_of(f()) : 0; }
    if (kind == "fp16") { if (strict == 3) return impl_of(Fp16OperatorCreator::Create(a, b, true)); auto f = strict == 2 ? Fp16OperatorCreator::Query(a, b) : Fp16OperatorCreator::Query(a, b, strict == 1); return f ? impl_of(f()) : 0; }
    if (kind == "loader") { auto f = ModuleLoader::Query(a); if (!f) return 0; FileStreamReaderV2 st("/dev/null"); f(st, nullptr, 0, Module::BINARY); return calls; }
    if (kind == "admin") { auto f = DeviceAdmin::Query(a); if (!f) return 0; f(nullptr, 0, DeviceAdmin::ACTIVATION); return calls; }
    if (kind == "infer") { auto f = ShapeInferer::Query(a); if (!f) return 0; Graph g; ctx::bind<Graph> bind(g); f(bubble::param("x"), {}); return calls; }
    if (kind == "alloc") { auto f = HardAllocator::Query(a); if (!f) return 0; return int(reinterpret_cast<size_t>(f(0, 0, nullptr, 0))); }
    auto f = HardConverter::Query(a, b); if (!f) return 0; f(0, nullptr, 0, nullptr, 0); return calls;
}
static bool ours(const std::string &s) { return s.compare(0, P.size(), P) == 0; }
static std::vector<VS> keys(const std::string &kind) {
    std::vector<VS> r;
    auto two = [&](const std::set<std::pair<std::string, std::string>> &k) { for (auto &x : k) if (ours(x.first) || ours(x.second)) r.push_back({x.first, x.second}); };
    auto one = [&](const std::set<std::string> &k) { for (auto &x : k) if (ours(x)) r.push_back({x, ""}); };
    if (kind == "op") two(OperatorCreator::AllKeys()); else if (kind == "fp16") two(Fp16OperatorCreator::AllKeys());
    else if (kind == "loader") one(ModuleLoader::AllKeys()); else if (kind == "admin") one(DeviceAdmin::AllKeys()); else if (kind == "infer") one(ShapeInferer::AllKeys());
    else if (kind == "alloc") one(HardAllocator::AllKeys()); else if (kind == "conv") two(HardConverter::AllKeys()); else two(ComputingMemory::AllItems());
    return r;
}
static void real_ops(Rng &r, int n) {
    auto all = OperatorCreator::AllKeys(); std::vector<std::pair<std::string, std::string>> k; for (auto &x : all) if (!ours(x.second) && !ours(x.first)) k.push_back(x);
    for (int q = 0; q < n; ++q) {
        auto key = r.pick(k);
        Workbench bench((ComputingDevice(CPU, 0)));
        ctx::bind<Workbench> b1(bench); ctx::bind<DeviceContext> b2(bench.device()); ctx::bind<RuntimeContext> b3(bench.runtime());
        auto make = [&] { return OperatorCreator::Create(key.first, key.second, true); };
        auto a = make(), b = make();
        VS req = sorted(a->list_required_fields()), opt = sorted(a->list_optional_fields()), def; for (auto &p : a->params()) if (p.first[0] != '#') def.push_back(p.first);
        std::string w, e = guard([&] { a->set("vf_no_such_parameter", val(1)); }, &w);
        J j("real"); j.f("d", key.first).f("n", key.second).f("req", req).f("opt", opt).f("def", sorted(def)).f("unk", e).f("unksay", says(w, "vf_no_such_parameter")).f("has", a->has("vf_no_such_parameter"));
        a->set("#op", tensor::from(key.second)); a->set("#name", tensor::from("who"));
        e = guard([&] { a->init(); }, &w);
        VS said; for (auto &x : a->unsatisfied_fields()) if (says(w, x)) said.push_back(x);
        bool bare = a->unsatisfied_fields().empty();
        j.f("none", bare ? "" : e).f("uns", sorted(a->unsatisfied_fields())).f("said", sorted(said)).f("who", bare || (w.find(key.second) != std::string::npos && says(w, "who")));
        // one of them missing
        VS without;
        if (!bare) for (auto &m : a->unsatisfied_fields()) {
            auto c = make(); c->set("#op", tensor::from(key.second)); c->set("#name", tensor::from("who"));
            for (auto &x : req) if (x != m) c->set(x, tensor::from<int32_t>(1));
            e = guard([&] { c->init(); }, &w); if (e == "ts" && says(w, m)) without.push_back(m);
        }
        j.f("without", sorted(without));
        // what is set on one is not seen by the other or by a new one
        bool apart = true; auto before = make();
        for (auto &x : opt) { auto was = b->has(x) ? b->get(x) : Tensor(); a->set(x, tensor::from("vf")); auto is = b->has(x) ? b->get(x) : Tensor(); auto c = make(); auto now = c->has(x) ? c->get(x) : Tensor();
            if (was.dtype() != is.dtype() || was.sizes() != is.sizes() || js(was) != js(is) || js(was) != js(now) || was.dtype() != now.dtype()) apart = false; }
        j.f("apart", apart).emit();
    }
}
int main(int argc, char **argv) {
    vf::open(argv[1]);
    Rng r(atoi(argv[2]));
    int rounds = atoi(argv[3]), steps = atoi(argv[4]);
    setup();
    static const VS devs = {"cpu", "vfd1", "vfd2", "vfd3", "vfd4"}, names = {"vfx", "vfy"}, kinds = {"op", "op", "op", "fp16", "loader", "admin", "infer", "alloc", "conv"}, params = {"alpha", "beta", "gamma", "alph", "#z", ""};
    const std::string stem = P;
    auto base = OperatorCreator::GetCreatorFucMap();
    for (int round = 0; round < rounds; ++round) {
        ins.clear(); bub.clear(); impls.clear();
        std::vector<Raw> tab;
        for (int i = 1; i <= 6; ++i) { std::vector<Fld> f; std::vector<Raw> fr; for (auto &n : VS{"alpha", "beta", "gamma"}) if (r.p(70)) f.push_back(Fld{n, r.p(50), r.p(60) ? r.in(1, 9) : -1});
            std::shuffle(f.begin(), f.end(), r.g); for (auto &x : f) fr.push_back(J().f("n", x.n).f("req", x.req).f("d", x.def).raw()); impls[i] = f; tab.push_back(Raw{js(fr)}); }
        // names of their own for every round, as most registries cannot forget
        std::string tag = std::to_string(round);
        auto D = [&](const std::string &d) { return d == "cpu" ? d : d + "r" + tag; }; auto N = [&](const std::string &n) { return n + "r" + tag; };
        auto cut = [&](std::vector<VS> k) { std::vector<VS> o; for (auto &x : k) { bool mine = false; for (auto &s : x) { size_t at = s.rfind("r" + tag); if (ours(s) && at != std::string::npos && at + 1 + tag.size() == s.size()) { mine = true; s = s.substr(0, at); } } if (mine) o.push_back(x); } std::sort(o.begin(), o.end()); return o; };
        OperatorCreator::flush(base);
        J("reset").f("impls", tab).emit();
        int ni = 0, nb = 0; OperatorCreator::CreatorFucMap saved; bool have = false;
        auto pick = [&]() { VI c; for (auto &x : ins) c.push_back(x.first); return c.empty() ? 0 : r.pick(c); };
        auto pickb = [&]() { VI c; for (auto &x : bub) c.push_back(x.first); return c.empty() ? 0 : r.pick(c); };
        for (int s = 0; s < steps; ++s) {
            int op = r(30); std::string kind = r.pick(kinds); bool two = kind == "op" || kind == "fp16" || kind == "conv", isop = kind == "op" || kind == "fp16";
            std::string a = isop ? r.pick(devs) : devs[r.in(1, 4)], b = isop ? r.pick(names) : kind == "conv" ? r.pick(devs) : ""; (void) two;
            std::string ra = D(a), rb = isop ? N(b) : kind == "conv" ? D(b) : "";
            if (op < 4) { int id = r.in(1, 6); reg(kind, ra, rb, id, false); emit(J("reg").f("kind", kind).f("a", a).f("b", b).f("impl", id)); }
            else if (op < 5) { std::string m = r.pick(devs); a = devs[r.in(1, 4)]; ComputingMemory::Register(D(a), D(m)); emit(J("mem").f("a", a).f("to", m)); }
            else if (op < 9) { int st = kind == "fp16" ? r(4) : r(3); int got = look(kind, ra, rb, st); emit(J("look").f("kind", kind).f("a", a).f("b", b).f("st", st).f("got", got)); }
            else if (op < 10) { if (r.p(30)) kind = "mem"; emit(J("keys").f("kind", kind).f("k", cut(keys(kind)))); }
            else if (op < 11) { a = devs[r.in(1, 4)]; std::string got, w, e = guard([&] { got = ComputingMemory::Query(D(a)).std(); }, &w); int id = -1;
                if (e == "" && ours(got)) got = got.substr(0, got.rfind("r" + tag)); if (e == "") { id = ComputingMemory::Query(Device(D(a), 3)).id(); }
                emit(J("memq").f("a", a).f("got", got).f("id", id).f("err", e).f("said", w.find(D(a)) != std::string::npos)); }
            else if (op < 12) { if (!have) { saved = OperatorCreator::GetCreatorFucMap(); have = true; emit(J("save")); } else { have = false; if (r.p(40)) { OperatorCreator::Clear(); bool none = OperatorCreator::AllKeys().empty(); int g = look("op", D("vfd1"), N("vfx"), 0); emit(J("clear").f("none", none && g == 0)); } OperatorCreator::flush(saved); emit(J("flush").f("lib", OperatorCreator::AllKeys().size() > 50)); } }
            else if (op < 17) {                              // create
                if (ins.size() > 5) { int i = pick(); ins.erase(i); emit(J("drop").f("i", i)); continue; }
                int how = r(3), i = ++ni; bool strict = r.p(40); a = r.pick(devs); b = r.pick(names); if (r.p(5)) b = "vfnone";
                Operator::shared o; std::string w, e; VS given; VI gv;
                if (how == 0) e = guard([&] { o = OperatorCreator::Create(D(a), N(b), strict); }, &w);
                else if (how == 1) { o = OperatorCreator::CreateNoException(D(a), N(b), strict); e = o ? "" : "none"; }
                else {                                      // a session starting an operator
                    Bubble bb(N(b), "named"); a = "cpu"; strict = r.p(50);
                    for (auto &p : params) if (p != "" && r.p(35)) { int v = r.in(r.p(10) ? 0 : 1, 9); bb.set(p, val(v)); given.push_back(p); gv.push_back(v); }
                    bool online = r.p(40);
                    Workbench bench((ComputingDevice(CPU, 0))); e = guard([&] { o = online ? bench.online_create(bb, strict) : bench.offline_create(bb, strict); }, &w);
                }
                std::vector<Raw> gp; for (size_t k = 0; k < given.size(); ++k) gp.push_back(J().f("n", given[k]).f("v", gv[k]).raw());
                VS said; for (auto &p : params) if (p != "" && says(w, p)) said.push_back(p);
                if (e == "") ins[i] = o;
                emit(J("create").f("how", how).f("a", a).f("b", b).f("strict", strict).f("i", i).f("got", impl_of(o)).f("err", e).f("given", gp).f("said", said).f("key", w.find(N(b)) != std::string::npos && w.find(D(a)) != std::string::npos).f("nameit", w.find(N(b)) != std::string::npos && says(w, "named")));
            }
            else if (op < 25) {
                int i = pick(); if (!i) continue; auto &o = *ins[i]; std::string p = r.pick(params), w, e; if (p == "" && r.p(60)) p = "alpha";
                int k = r(11);
                if (k < 3) { int v = r.in(r.p(10) ? 0 : 1, 9); e = guard([&] { o.set(p, val(v)); }, &w); emit(J("set").f("i", i).f("p", p).f("v", v).f("err", e).f("said", says(w, p))); }
                else if (k < 5) { int v = -1; bool h = o.has(p); e = guard([&] { v = num(r.p(50) ? o.get(p) : const_cast<const Operator &>(o).get(p)); }, &w); emit(J("get").f("i", i).f("p", p).f("v", v).f("has", h).f("err", e).f("said", says(w, p))); }
                else if (k < 6) { e = guard([&] { o.clear(p); }, &w); emit(J("clr").f("i", i).f("p", p).f("err", e).f("said", says(w, p))); }
                else if (k < 7) { if (r.p(30)) { o.clear_params(); emit(J("clrall").f("i", i)); } }
                else if (k < 8) { bool weak = r.p(40); o.set_param_checking_mode(weak ? Operator::ParamCheckingMode::WEAK : Operator::ParamCheckingMode::STRICT); emit(J("mode").f("i", i).f("weak", weak)); }
                else { e = guard([&] { o.Operator::init(); }, &w); VS said; for (auto &x : params) if (x != "" && says(w, x)) said.push_back(x); emit(J("init").f("i", i).f("err", e).f("said", sorted(said))); }
            } else {
                int i = pickb(); std::string p = r.pick(params), w, e; if (p == "") p = "beta"; int k = r(12);
                if (!i || (k < 2 && bub.size() < 4)) { Bubble x = r.p(50) ? Bubble("opn", "first") : Bubble("opn", "first", Shape({2, 3})); bub[++nb] = x; Shape sh = x.shape(); emit(J("bnew").f("b", nb).f("s", VI(sh.begin(), sh.end())));  }
                else if (k < 4) { int v = r.in(1, 9); bub[i].set(p, val(v)); emit(J("bset").f("b", i).f("p", p).f("v", v)); }
                else if (k < 5) { int v = -1; bool h = bub[i].has(p); e = guard([&] { v = bub[i].get_int(p); if (int(bub[i].get_float(p)) != v || int(bub[i].get_uint(p)) != v || int(bub[i].get_double(p)) != v || bub[i].get_int_list(p) != VI{v} || bub[i].get_bool(p) != (v != 0)) v = -2; }, &w); emit(J("bget").f("b", i).f("p", p).f("v", v).f("has", h).f("err", e).f("said", says(w, p))); }
                else if (k < 6) { e = guard([&] { bub[i].clear(p); }, &w); emit(J("bclr").f("b", i).f("p", p).f("err", e).f("said", says(w, p))); }
                else if (k < 7) { bub[i].clear_params(); emit(J("bclrall").f("b", i)); }
                else if (k < 8) { std::string n = r.pick(names); if (r.p(50)) { bub[i].op(n); emit(J("bop").f("b", i).f("v", n)); } else { bub[i].name(n); emit(J("bname").f("b", i).f("v", n)); } }
                else if (k < 9) { if (r.p(50)) { int t = r.pick(VI{INT32, FLOAT32, UINT8}); bub[i].dtype(DTYPE(t)); emit(J("btype").f("b", i).f("v", t)); } else { VI s; for (int q = r(3); q >= 0; --q) s.push_back(r.in(1, 5)); Shape sh; for (int x : s) sh.push_back(x); bub[i].shape(sh); emit(J("bshape").f("b", i).f("v", s)); } }
                else if (k < 11 && bub.size() < 5) { bool mv = r.p(40), assign = r.p(50); int j = assign ? pickb() : ++nb; if (j == i) continue; if (mv) { Bubble t(std::move(bub[i])); bub[j] = std::move(t); bub.erase(i); } else bub[j] = bub[i]; emit(J("bcopy").f("b", i).f("to", j).f("mv", mv)); }
                else { bub.erase(i); emit(J("bdrop").f("b", i)); }
            }
        }
    }
    ins.clear(); OperatorCreator::flush(base);
    J("done").emit();
    real_ops(r, rounds * 4);
    return 0;
}
