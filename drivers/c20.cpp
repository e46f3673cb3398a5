// Scopes that bind contexts, on several threads: each thread interprets commands inside real nested scopes.
#include "tensorio.h"
#include <thread>
#include <condition_variable>
#include <memory>
#include <omp.h>
#include "runtime/workbench.h"
#include "runtime/runtime.h"
#include "runtime/operator.h"
#include "runtime/stack.h"
#include "board/hook.h"
#include "board/profiler.h"
#include "global/operator_factory.h"
#include "global/device_admin.h"
#include "global/memory_device.h"
#include "global/setup.h"
#include "module/module.h"
#include "module/menu.h"
#include "module/graph.h"
#include "memory/flow.h"
#include "core/sync/sync_controller.h"
#include "utils/ctxmgr_lite.h"
using namespace vf;
using namespace ts;
typedef std::vector<std::string> VS;
static std::vector<J> alog;                 // requests to the device administrators
static std::map<DeviceHandle *, int> handles;  // live ones
static int nh = 0; static std::string failing;
static std::mutex am;
static void admin(const std::string &type, DeviceHandle **h, int id, DeviceAdmin::Action a) {
    std::unique_lock<std::mutex> _(am);
    static const char *names[] = {"I", "F", "A", "S"};
    std::string k = names[int(a)];
    if (k == failing) { failing = ""; alog.push_back(J().f("a", "X" + k).f("h", *h ? handles[*h] : 0).f("t", type).f("d", id)); TS_LOG_ERROR << "vf: device refuses" << eject; }
    if (k == "I") { *h = reinterpret_cast<DeviceHandle *>(new char[8]); handles[*h] = ++nh; }
    alog.push_back(J().f("a", k).f("h", handles.count(*h) ? handles[*h] : -1).f("t", type).f("d", id));
    if (k == "F") { auto p = *h; if (handles.count(p)) { handles.erase(p); delete[] reinterpret_cast<char *>(p); } }
}
static const VS kinds = {"dv", "rt", "wb", "hk", "pf", "gr", "tp"};
static std::map<void *, std::string> names;
static std::string name_of(void *p) { if (!p) return ""; auto it = names.find(p); return it == names.end() ? "?" : it->second; }
struct Hk { Hook h; int before = 0, after = 0; Hk() { h.before_run([this](const Hook::StructBeforeRun &) { ++before; }); h.after_run([this](const Hook::StructAfterRun &) { ++after; }); } };
static std::map<std::string, std::unique_ptr<DeviceContext>> dcs;
static std::map<std::string, std::unique_ptr<RuntimeContext>> rts;
static std::map<std::string, std::unique_ptr<Hk>> hks;
static std::map<std::string, std::unique_ptr<Profiler>> pfs;
static std::map<std::string, std::unique_ptr<Graph>> grs;
static std::map<std::string, std::unique_ptr<ThreadPool>> tps;
static std::map<std::string, Workbench::shared> wbs;
static DeviceContext *dv(const std::string &n) { return n == "" ? nullptr : n[0] == 'D' ? &wbs["w" + n.substr(1)]->device() : dcs[n].get(); }
static RuntimeContext *rt(const std::string &n) { return n == "" ? nullptr : n[0] == 'R' ? &wbs["w" + n.substr(1)]->runtime() : rts[n].get(); }
static Profiler *pf(const std::string &n) { return n == "" ? nullptr : n[0] == 'P' ? &wbs["w" + n.substr(1)]->profiler() : pfs[n].get(); }
static ThreadPool *tp(const std::string &n) { return n == "" ? nullptr : n[0] == 'T' ? &wbs["w" + n.substr(1)]->runtime().thread_pool() : tps[n].get(); }
static Workbench *wb(const std::string &n) { return n == "" ? nullptr : wbs[n].get(); }
static Graph *gr(const std::string &n) { return n == "" ? nullptr : grs[n].get(); }
static Hook *hk(const std::string &n) { return n == "" ? nullptr : &hks[n]->h; }
static Raw cur() {
    return J().f("dv", name_of(ctx::get<DeviceContext>())).f("rt", name_of(ctx::get<RuntimeContext>())).f("wb", name_of(ctx::get<Workbench>()))
        .f("hk", name_of(ctx::get<Hook>())).f("pf", name_of(ctx::get<Profiler>())).f("gr", name_of(ctx::get<Graph>())).f("tp", name_of(ctx::get<ThreadPool>())).raw();
}
template<typename T> static std::string ref_of(std::string &e) { T *p = nullptr; std::string w; e = guard([&] { p = &ctx::ref<T>(); }, &w); return name_of(p); }
static void emit(const J &j) { j.emit(); }
struct Unwind { int n; };
struct Cmd { std::string op, k, o; int n = 0; bool cl = false; };
static Cmd cmd(const char *op) { Cmd c; c.op = op; return c; }
struct Worker {
    std::thread th; std::mutex m; std::condition_variable cv;
    std::function<void()> task; Cmd given; bool have = false, done = false, quit = false;
    Raw seen; std::string err; int depth = 0;
    // waits for a command
    Cmd next() { std::unique_lock<std::mutex> l(m); if (!done) { seen = cur(); done = true; cv.notify_all(); } cv.wait(l, [&] { return have; }); have = false; return given; }
    void give(const Cmd &c) { std::unique_lock<std::mutex> l(m); given = c; have = true; done = false; cv.notify_all(); cv.wait(l, [&] { return done; }); }
    void ready() { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return done; }); }
    template<typename T> void scope(T *p) { ctx::bind<T> b(p); interp(); }
    void interp() {
        ++depth; struct D { int &d; ~D() { --d; } } _d{depth};
        for (;;) {
            Cmd c = next();
            if (c.op == "leave") return;
            if (c.op == "throw") { if (c.cl) { if (c.n == 1) TS_LOG_ERROR << "vf: unwinding" << eject; } throw Unwind{c.n}; }
            if (c.op == "enter") {
                try {
                    if (c.k == "dv") scope(dv(c.o)); else if (c.k == "rt") scope(rt(c.o)); else if (c.k == "wb") scope(wb(c.o)); else if (c.k == "hk") scope(hk(c.o));
                    else if (c.k == "pf") scope(pf(c.o)); else if (c.k == "gr") scope(gr(c.o)); else scope(tp(c.o));
                } catch (Unwind &u) { if (--u.n > 0) throw; } catch (const ts::Exception &) {}
            } else if (c.op == "run") {
                err = "";
                auto b = wbs[c.o];
                try { if (c.n == 0) b->run(); else if (c.n == 1) b->run_hook({"nothing"}); else b->setup_context(); err = ""; } catch (Unwind &u) { if (--u.n > 0) throw; } catch (const ts::Exception &x) { err = "ts"; if (getenv("VF_SHOW")) std::fprintf(stderr, "%s\n", x.what()); }
            } else if (c.op == "call") { task(); }
        }
    }
};
static thread_local Worker *me = nullptr;
// hands over to the interpreter of the thread it runs on
class CtxOp : public Operator {
public:
    static VS born;
    int infer(Stack &stack, std::vector<Tensor::Prototype> &output) override { output = {stack[0].proto()}; return 1; }
    void init() override {
        Operator::init(); auto b = ctx::get<Workbench>(); auto d = ctx::get<DeviceContext>();
        born.push_back(std::string(b && ctx::get<RuntimeContext>() == &b->runtime() && ctx::get<ThreadPool>() == &b->runtime().thread_pool() && d && d->computing_device == b->device().computing_device && d->memory_device == memory_device() ? "good" : "bad"));
    }
    int run(Stack &stack) override { Tensor x = stack[0]; if (me) me->interp(); stack.push(x); return 1; }
};
VS CtxOp::born;
static Worker W[3];
int main(int argc, char **argv) {
    vf::open(argv[1]);
    Rng r(atoi(argv[2]));
    int rounds = atoi(argv[3]), steps = atoi(argv[4]);
    ts::setup();
    OperatorCreator::Register(CPU, "vf_ctx", [] { return Operator::shared(new CtxOp); });
    for (std::string t : {"vfa", "vfb"}) { DeviceAdmin::Register(t, [t](DeviceHandle **h, int id, DeviceAdmin::Action a) { admin(t, h, id, a); }); ComputingMemory::Register(t, CPU); }
    ComputingMemory::Register("vfn", CPU);
    Module::shared mod; { Graph g; ctx::bind<Graph> _(g); auto x = bubble::param("x"); auto y = bubble::op("y", "vf_ctx", {x}); mod = std::make_shared<Module>(); mod->load(g, std::vector<Node>{y}); }
    for (auto &w : W) { w.th = std::thread([&w] { me = &w; for (;;) { try { w.interp(); } catch (Unwind &) {} catch (const ts::Exception &) {} if (w.quit) { std::unique_lock<std::mutex> l(w.m); w.done = true; w.cv.notify_all(); return; } } }); w.ready(); }
    for (int round = 0; round < rounds; ++round) {
        int n = 0;
        struct Frame { bool run; std::string o; bool dv; }; std::vector<Frame> fr[3];
        std::map<std::string, int> used;   // networks that are running
        auto logged = [&] { std::unique_lock<std::mutex> _(am); std::vector<J> l; l.swap(alog); return l; };
        logged();
        emit(J("reset").f("procs", omp_get_num_procs()).f("h", nh));
        auto obs = [&](J &j) {
            std::vector<Raw> c; for (auto &w : W) c.push_back(w.seen);
            j.f("cur", c).f("log", logged());
            std::vector<J> d, rr, h;
            for (auto &x : dcs) d.push_back(J().f("o", x.first).f("t", x.second->computing_device.type().std()).f("d", x.second->computing_device.id()).f("m", x.second->memory_device.type().std()).f("md", x.second->memory_device.id()).f("h", x.second->handle ? handles.count(x.second->handle) ? handles[x.second->handle] : -1 : 0));
            for (auto &x : wbs) { auto &q = x.second->device(); d.push_back(J().f("o", "D" + x.first.substr(1)).f("t", q.computing_device.type().std()).f("d", q.computing_device.id()).f("m", q.memory_device.type().std()).f("md", q.memory_device.id()).f("h", q.handle ? handles.count(q.handle) ? handles[q.handle] : -1 : 0)); }
            auto one = [&](const std::string &o, RuntimeContext &q) { rr.push_back(J().f("o", o).f("n", q.get_computing_thread_number()).f("p", int(q.thread_pool().size())).f("fl", q.flow() != nullptr).f("dy", q.dynamic() != nullptr)); };
            for (auto &x : rts) one(x.first, *x.second);
            for (auto &x : wbs) one("R" + x.first.substr(1), x.second->runtime());
            for (auto &x : hks) h.push_back(J().f("o", x.first).f("b", x.second->before).f("a", x.second->after));
            std::vector<J> p, g;
            auto prof = [&](const std::string &o, Profiler &q) { int s = 0; for (auto &kv : q.board()) s += int(kv.second.count()); p.push_back(J().f("o", o).f("c", s)); };
            for (auto &x : pfs) prof(x.first, *x.second);
            for (auto &x : wbs) prof("P" + x.first.substr(1), x.second->profiler());
            for (auto &x : grs) g.push_back(J().f("o", x.first).f("c", int(x.second->nodes().size())));
            j.f("dv", d).f("rt", rr).f("hk", h).f("pf", p).f("gr", g).f("live", int(handles.size()));
            emit(j);
        };
        auto in_use = [&](const std::string &o) {
            for (auto &w : W) if (w.seen.s.find("\"" + o + "\"") != std::string::npos) return true;
            for (auto &f : fr) for (auto &x : f) if (x.o.find("\"" + o + "\"") != std::string::npos) return true;
            return false;
        };
        static const VS types = {"vfa", "vfa", "vfb", "vfn", "cpu"};
        auto keys = [&](const std::string &k) {
            VS v;
            if (k == "dv") { for (auto &x : dcs) v.push_back(x.first); for (auto &x : wbs) v.push_back("D" + x.first.substr(1)); }
            else if (k == "rt") { for (auto &x : rts) v.push_back(x.first); for (auto &x : wbs) v.push_back("R" + x.first.substr(1)); }
            else if (k == "wb") for (auto &x : wbs) v.push_back(x.first);
            else if (k == "hk") for (auto &x : hks) v.push_back(x.first);
            else if (k == "pf") { for (auto &x : pfs) v.push_back(x.first); for (auto &x : wbs) v.push_back("P" + x.first.substr(1)); }
            else if (k == "gr") for (auto &x : grs) v.push_back(x.first);
            else { for (auto &x : tps) v.push_back(x.first); }
            return v;
        };
        auto some = [&](const std::string &k) { auto v = keys(k); if (v.empty() || r.p(12)) return std::string(); return r.pick(v); };
        auto call = [&](int t, const std::function<void()> &f) { W[t].task = f; W[t].give(cmd("call")); };
        auto name_bench = [&](const std::string &o) { auto &b = *wbs[o]; names[&b] = o; names[&b.device()] = "D" + o.substr(1); names[&b.runtime()] = "R" + o.substr(1); names[&b.profiler()] = "P" + o.substr(1); names[&b.runtime().thread_pool()] = "T" + o.substr(1); };
        auto inside = [&](int t) { for (auto it = fr[t].rbegin(); it != fr[t].rend(); ++it) { if (it->dv) return false; if (it->run) return true; } return false; };   // the running operator's own device
        auto forget = [&](void *p) { names.erase(p); };
        for (int s = 0; s < steps; ++s) {
            int t = r(3), op = r(100); std::string e, w;
            if (op < 22) {
                std::string k = r.pick(kinds), o = some(k); bool full = fr[t].size() >= 6;
                if (full) continue;
                fr[t].push_back({false, W[t].seen.s, k == "dv"});
                Cmd c; c.op = "enter"; c.k = k; c.o = o; W[t].give(c);
                J j("enter"); j.f("t", t + 1).f("k", k).f("o", o); obs(j);
            } else if (op < 34) {
                if (fr[t].empty()) continue;
                if (fr[t].back().run) { used.erase(fr[t].back().o.substr(fr[t].back().o.rfind('|') + 1)); }
                bool run = fr[t].back().run; fr[t].pop_back();
                W[t].give(cmd("leave")); J j("leave"); j.f("t", t + 1).f("err", run ? W[t].err : ""); obs(j);
            } else if (op < 40) {
                if (fr[t].empty()) continue;
                Cmd c; c.op = "throw"; c.n = r.in(1, int(fr[t].size())); c.cl = r.p(40); if (c.cl) c.n = 1;
                for (int i = 0; i < c.n; ++i) { if (fr[t].back().run) used.erase(fr[t].back().o.substr(fr[t].back().o.rfind('|') + 1)); fr[t].pop_back(); }
                W[t].err = ""; W[t].give(c);
                J j("throw"); j.f("t", t + 1).f("n", c.n); obs(j);
            } else if (op < 52) {
                std::string o = some("wb"); if (o == "" || used.count(o) || fr[t].size() >= 6) continue;
                int how = r.p(70) ? 0 : 1; bool fail = r.p(8); bool prof = r.p(30);
                wbs[o]->do_profile(prof);
                std::string was = W[t].seen.s;
                if (fail) failing = "A";
                Cmd c; c.op = "run"; c.o = o; c.n = how; W[t].err = ""; int d0 = W[t].depth; W[t].give(c); failing = "";
                bool in = W[t].depth > d0;
                if (in) { fr[t].push_back({true, was + "\"" + o + "\"\"D" + o.substr(1) + "\"|" + o, false}); used[o] = 1; }
                J j("run"); j.f("t", t + 1).f("o", o).f("how", how).f("prof", prof).f("fail", fail).f("in", in).f("err", W[t].err); obs(j);
            } else if (op < 56) {
                std::string k = r.pick(kinds), o = some(k); if (k == "dv" && (r.p(70) || inside(t))) continue;
                call(t, [&] { if (k == "dv") ctx::set<DeviceContext>(dv(o)); else if (k == "rt") { if (o != "" && r.p(50)) rt(o)->setup_context(); else ctx::set<RuntimeContext>(rt(o)); } else if (k == "wb") { if (o != "" && r.p(50)) wb(o)->setup_device(); else ctx::set<Workbench>(wb(o)); } else if (k == "hk") ctx::set<Hook>(hk(o)); else if (k == "pf") ctx::of<Profiler>::set(pf(o)); else if (k == "gr") ctx::set<Graph>(gr(o)); else ctx::set<ThreadPool>(tp(o)); });
                J j("set"); j.f("t", t + 1).f("k", k).f("o", o); obs(j);
            } else if (op < 62) {
                std::string k = r.pick(kinds), got;
                call(t, [&] { if (k == "dv") got = ref_of<DeviceContext>(e); else if (k == "rt") got = ref_of<RuntimeContext>(e); else if (k == "wb") got = ref_of<Workbench>(e); else if (k == "hk") got = ref_of<Hook>(e); else if (k == "pf") got = ref_of<Profiler>(e); else if (k == "gr") got = ref_of<Graph>(e); else got = ref_of<ThreadPool>(e); });
                J j("ref"); j.f("t", t + 1).f("k", k).f("o", got).f("err", e); obs(j);
            } else if (op < 68) {
                int q = r(5);
                if (q == 0) { bool fl = false, dy = false; call(t, [&] { fl = RuntimeContext::FlowMemory() != nullptr; dy = RuntimeContext::DynamicMemory() != nullptr; }); J j("mem"); j.f("t", t + 1).f("fl", fl).f("dy", dy); obs(j); }
                else if (q == 1) { bool on = false; call(t, [&] { on = profiler_on(); auto x = profiler_timer("vf"); if (r.p(30)) { Profiler other; ctx::bind<Profiler> b(other); auto y = profiler_serial_timer("n%04d"); x = Later(); } }); J j("timer"); j.f("t", t + 1).f("on", on); obs(j); }
                else if (q == 2) { call(t, [&] { e = guard([&] { bubble::param("q" + std::to_string(s)); }, &w); }); J j("node"); j.f("t", t + 1).f("err", e); obs(j); }
                else if (q == 3) { std::string m, c; int mi = 0, ci = 0; call(t, [&] { CtxOp o; m = o.memory_device().type().std(); mi = o.memory_device().id(); c = o.computing_device().type().std(); ci = o.computing_device().id(); }); J j("opdev"); j.f("t", t + 1).f("m", m).f("md", mi).f("c", c).f("cd", ci); obs(j); }
                else { std::string o = some("rt"); if (o == "") continue; Raw in; call(t, [&] { rt(o)->thread_pool().run([&](int) { in = cur(); }); rt(o)->thread_pool().join(); }); J j("job"); j.f("t", t + 1).f("o", o).f("in", in); obs(j); }
            } else if (op < 74) {
                std::string o = some("dv"); if (r.p(20)) o = ""; if (inside(t)) continue;
                std::string pre, fk; bool fail = r.p(15); if (fail) failing = fk = r.p(50) ? "A" : "S";
                call(t, [&] { e = guard([&] { pre = name_of(DeviceContext::Switch(dv(o))); }, &w); }); bool hit = failing == "" && fail; failing = "";
                J j("switch"); j.f("t", t + 1).f("o", o).f("err", e).f("hit", hit ? fk : "").f("pre", pre); obs(j);
            } else if (op < 84) {
                int q = r(10);
                if (q < 3 || dcs.empty()) {
                    if (dcs.size() >= 4) continue; std::string o = "d" + std::to_string(++n), ty = r.p(10) ? "vfu" : r.pick(types); int id = r(3); bool bare = r.p(25);
                    std::unique_ptr<DeviceContext> d; call(t, [&] { e = guard([&] { if (bare) d.reset(new DeviceContext); else d.reset(new DeviceContext(ComputingDevice(ty, id))); }, &w); });
                    if (e == "") { names[d.get()] = o; dcs[o] = std::move(d); }
                    J j("dnew"); j.f("t", t + 1).f("o", o).f("ty", ty).f("d", id).f("bare", bare).f("err", e); obs(j);
                } else {
                    VS ks; for (auto &x : dcs) ks.push_back(x.first); std::string o = r.pick(ks); auto &d = dcs[o];
                    if (q < 5) { std::string ty = r.p(12) ? "vfu" : r.pick(types); int id = r(3); bool fail = r.p(10); if (fail) failing = "I"; call(t, [&] { e = guard([&] { d->initialize(ComputingDevice(ty, id)); }, &w); }); bool hit = fail && failing == ""; failing = ""; J j("dinit"); j.f("t", t + 1).f("o", o).f("ty", ty).f("d", id).f("err", e).f("hit", hit); obs(j); }
                    else if (q < 6) { call(t, [&] { d->finalize(); }); J j("dfin"); j.f("t", t + 1).f("o", o); obs(j); }
                    else if (q < 7) { bool a = r.p(50); call(t, [&] { if (a) d->active(); else d->synchronize(); }); J j("dact"); j.f("t", t + 1).f("o", o).f("act", a); obs(j); }
                    else if (q < 8) { if (in_use(o)) continue; call(t, [&] { forget(d.get()); dcs.erase(o); }); J j("ddrop"); j.f("t", t + 1).f("o", o); obs(j); }
                    else if (q < 9 || dcs.size() < 2) { if (dcs.size() >= 4) continue; std::string to = "d" + std::to_string(++n); std::unique_ptr<DeviceContext> x; call(t, [&] { x.reset(new DeviceContext(std::move(*d))); }); names[x.get()] = to; dcs[to] = std::move(x); J j("dmove"); j.f("t", t + 1).f("o", o).f("to", to); obs(j); }
                    else { std::string to = r.pick(ks); if (to == o) continue; call(t, [&] { *dcs[to] = std::move(*d); }); J j("dmove"); j.f("t", t + 1).f("o", o).f("to", to); obs(j); }
                }
            } else if (op < 92) {
                int q = r(10);
                if (q < 3 || rts.empty()) {
                    if (rts.size() >= 4) continue; std::string o = "r" + std::to_string(++n); bool withmem = r.p(50); std::string env = r.p(60) ? "" : std::to_string(r.in(-2, 6));
                    std::unique_ptr<RuntimeContext> x; call(t, [&] { if (env == "") unsetenv("TENNIS_NUMBER_THREADS"); else setenv("TENNIS_NUMBER_THREADS", env.c_str(), 1); if (withmem) x.reset(new RuntimeContext(MemoryDevice(CPU, 0))); else x.reset(new RuntimeContext); unsetenv("TENNIS_NUMBER_THREADS"); });
                    names[x.get()] = o; rts[o] = std::move(x); J j("rnew"); j.f("t", t + 1).f("o", o).f("mem", withmem).f("env", env != "").f("n", env == "" ? 0 : atoi(env.c_str())); obs(j);
                } else {
                    VS ks; for (auto &x : rts) ks.push_back(x.first); std::string o = r.pick(ks); auto &d = rts[o];
                    if (q < 5) { int k = r.in(-2, 7); std::string oo = r.p(25) ? some("rt") : o; if (oo == "") oo = o; if (oo[0] == 'R' && (used.count("w" + oo.substr(1)) || in_use("T" + oo.substr(1)))) continue; if (oo[0] == 'R') forget(&rt(oo)->thread_pool()); call(t, [&] { rt(oo)->set_computing_thread_number(k); }); if (oo[0] == 'R') name_bench("w" + oo.substr(1)); J j("rset"); j.f("t", t + 1).f("o", oo).f("n", k); obs(j); }
                    else if (q < 7) { std::string from = r.p(30) ? some("rt") : o, to = "r" + std::to_string(++n); if (from == "" || rts.size() >= 4) continue; std::unique_ptr<RuntimeContext> x; bool own = false; call(t, [&] { x.reset(new RuntimeContext(rt(from)->clone())); own = (!x->flow() || x->flow() != rt(from)->flow()) && (!x->dynamic() || x->dynamic() != rt(from)->dynamic()) && &x->thread_pool() != &rt(from)->thread_pool(); }); names[x.get()] = to; rts[to] = std::move(x); J j("rclone"); j.f("t", t + 1).f("o", from).f("to", to).f("own", own); obs(j); }
                    else if (q < 8) { bool fl = r.p(50), none = r.p(30); SyncMemoryController::shared c; if (!none) c = DynamicSyncMemoryController::Make(MemoryDevice(CPU, 0), false); bool same = false; call(t, [&] { if (fl) d->bind_flow(c); else d->bind_dynamic(c); same = (fl ? d->flow() : d->dynamic()) == c; }); J j("rbind"); j.f("t", t + 1).f("o", o).f("fl", fl).f("have", !none).f("same", same); obs(j); }
                    else if (q < 9) { if (in_use(o)) continue; call(t, [&] { forget(d.get()); rts.erase(o); }); J j("rdrop"); j.f("t", t + 1).f("o", o); obs(j); }
                    else { std::string from = r.pick(ks); if (from == o) continue; call(t, [&] { *d = std::move(*rts[from]); }); /* exchanged */ J j("rswap"); j.f("t", t + 1).f("o", o).f("from", from); obs(j); }
                }
            } else {
                int q = r(10);
                if (q < 3) {
                    std::string k = r.p(50) ? "hk" : r.p(50) ? "pf" : r.p(50) ? "gr" : "tp"; std::string o = k.substr(0, 1) + std::to_string(++n);
                    if (k == "hk") { if (hks.size() > 2) continue; hks[o].reset(new Hk); names[&hks[o]->h] = o; } else if (k == "pf") { if (pfs.size() > 2) continue; pfs[o].reset(new Profiler); names[pfs[o].get()] = o; } else if (k == "gr") { if (grs.size() > 2) continue; grs[o].reset(new Graph); names[grs[o].get()] = o; } else { if (tps.size() > 1) continue; tps[o].reset(new ThreadPool(1)); names[tps[o].get()] = o; }
                    J j("mk"); j.f("t", t + 1).f("k", k).f("o", o); obs(j);
                } else if (q < 6 || wbs.empty()) {
                    if (wbs.size() >= 3) continue; std::string o = "w" + std::to_string(++n), ty = r.pick(types); int k = r.in(-2, 6); bool deft = r.p(30); CtxOp::born.clear();
                    call(t, [&] { e = guard([&] { auto b = deft ? std::make_shared<Workbench>(ComputingDevice(ty, 0)) : std::make_shared<Workbench>(ComputingDevice(ty, 0), k); b->setup(b->compile(mod)); b->input(0, tensor::from<int32_t>(3)); wbs[o] = b; }, &w); });
                    if (e != "") { std::fprintf(stderr, "bench: %s\n", w.c_str()); return 77; }
                    name_bench(o); J j("wnew"); j.f("t", t + 1).f("o", o).f("m", o.substr(1)).f("ty", ty).f("n", k).f("deft", deft).f("born", CtxOp::born).f("h", nh); obs(j);
                } else if (q < 8) {
                    std::string from = some("wb"); if (from == "" || wbs.size() >= 3) continue; std::string o = "w" + std::to_string(++n); CtxOp::born.clear();
                    call(t, [&] { wbs[o] = wbs[from]->clone(); wbs[o]->input(0, tensor::from<int32_t>(3)); });
                    name_bench(o); J j("wclone"); j.f("t", t + 1).f("o", o).f("m", o.substr(1)).f("from", from).f("born", CtxOp::born).f("h", nh); obs(j);
                } else {
                    std::string o = some("wb"); if (o == "" || used.count(o)) continue; std::string m = o.substr(1);
                    if (in_use(o) || in_use("D" + m) || in_use("R" + m) || in_use("P" + m) || in_use("T" + m)) continue;
                    auto &b = *wbs[o]; forget(&b); forget(&b.device()); forget(&b.runtime()); forget(&b.profiler()); forget(&b.runtime().thread_pool());
                    call(t, [&] { wbs.erase(o); }); J j("wdrop"); j.f("t", t + 1).f("o", o); obs(j);
                }
            }
        }
        // everything is left again, then the bare bindings are taken away
        for (int t = 0; t < 3; ++t) {
            while (!fr[t].empty()) { bool run = fr[t].back().run; fr[t].pop_back(); W[t].give(cmd("leave")); J j("leave"); j.f("t", t + 1).f("err", run ? W[t].err : ""); obs(j); }
            call(t, [&] { ctx::set<DeviceContext>(nullptr); ctx::set<RuntimeContext>(nullptr); ctx::set<Workbench>(nullptr); ctx::set<Hook>(nullptr); ctx::set<Profiler>(nullptr); ctx::set<Graph>(nullptr); ctx::set<ThreadPool>(nullptr); });
            J j("none"); j.f("t", t + 1); obs(j);
        }
        names.clear(); wbs.clear(); dcs.clear(); rts.clear(); hks.clear(); pfs.clear(); grs.clear(); tps.clear();
        emit(J("end").f("log", logged()).f("live", int(handles.size())));
    }
    for (auto &w : W) { w.quit = true; w.give(cmd("leave")); w.th.join(); }
    emit(J("done"));
    return 0;
}
