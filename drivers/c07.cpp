// Histories of one or several sessions: binding, filters, runs (also failing ones), reads, clones, set-ups, nested use.
#include "session.h"
#include "perturb.h"
#include <thread>
#include <set>
using namespace ts;
using namespace vf;
struct Prog { Program::shared p; std::shared_ptr<SNet> net; };
struct Sess { int id = 0; Workbench::shared b; std::shared_ptr<SNet> net; Program::shared own; bool ran = false; bool hooked = false; };
static std::atomic<int> next_id{1};
static Tensor value(Rng &r) {
    auto s = r.p(70) ? shapes()[0] : r.pick(shapes());
    static const std::vector<DTYPE> ty = {INT32, INT32, FLOAT32, UINT8};
    return random_tensor(r, r.p(60) ? FLOAT32 : r.pick(ty), s, 0, r.p(80) ? 60 : 70);
}
static std::vector<int> common;       // the shape most inputs have
static Tensor input_value(Rng &r) {
    auto s = r.p(88) ? common : r.pick(shapes());
    static const std::vector<DTYPE> ty = {INT32, FLOAT32, FLOAT32, FLOAT32, UINT8};
    return random_tensor(r, r.pick(ty), s, 0, r.p(90) ? 60 : 70);
}
static std::string bad_name(Rng &r) { return r.p(50) ? "nope" : ""; }
// one random call on the session
struct Held { int id; Tensor t; };
static void step(Sess &s, Rng &r, std::vector<Held> &held, std::map<int, Prog> *progs, std::vector<Sess> *all, bool threads) {
    int ni = int(s.net->ins.size());
    int t = r(100);
    if (t < 28) {
        Tensor v = input_value(r);
        if (r.p(50)) {
            int k = r.p(95) || !ni ? r(std::max(1, ni)) : r.in(-1, ni);
            auto e = guard([&] { s.b->input(k, v); });
            J("bind").f("s", s.id).f("slot", k).f("v", v).f("err", e).emit();
        } else {
            auto n = r.p(93) && ni ? nm(r.pick(s.net->ins)) : bad_name(r);
            auto e = guard([&] { s.b->input(n, v); });
            J("bind").f("s", s.id).f("slot", n).f("v", v).f("err", e).emit();
        }
    } else if (t < 34) {
        int k = r.p(25) ? 0 : r.in(1, 3);
        std::string e; Raw slot;
        ImageFilter::shared f = std::make_shared<ImageFilter>(ComputingDevice(CPU, 0));
        if (k) { f->to_float(); f->scale(float(k)); }
        if (r.p(50)) {
            int j = r.p(90) || !ni ? r(std::max(1, ni)) : r.in(-1, ni);
            slot.s = std::to_string(j);
            e = guard([&] { s.b->bind_filter(j, f); });
        } else {
            auto n = r.p(90) && ni ? nm(r.pick(s.net->ins)) : bad_name(r);
            slot.s = q(n);
            e = guard([&] { s.b->bind_filter(n, f); });
        }
        J("filter").f("s", s.id).f("slot", slot).f("k", k).f("err", e).emit();
    } else if (t < 58) {
        std::vector<int> hook;
        bool h = r.p(15);
        auto nd = needed(*s.net);
        if (h) for (int i = 1; i <= int(s.net->g.size()); ++i) if (nd[i] && !consty(*s.net, i) && s.net->g[i - 1].k != "param" && r.p(60)) hook.push_back(i);
        bool bound = true;
        for (int i = 0; i < s.b->input_count(); ++i) if (s.b->input(i).dtype() == VOID) bound = false;
        if (h && !bound) h = false;
        std::vector<std::string> names; for (int i : hook) names.push_back(nm(i));
        std::string what;
        auto e = guard([&] { if (h) s.b->run_hook(names); else s.b->run(); }, &what);
        J j("run"); j.f("s", s.id).f("err", e).f("hook", h ? hook : std::vector<int>()).f("h", h);
        if (!e.empty()) j.f("what", what.substr(0, 200));
        j.emit();
        s.ran = e.empty(); s.hooked = h && s.ran;
    } else if (t < 84) {
        if (!s.ran) return;
        std::string e; Raw slot; Tensor v;
        if (r.p(50)) {
            int no = int(s.net->outs.size());
            int k = r.p(92) ? r(no) : r.in(-1, no);
            slot.s = std::to_string(k);
            e = guard([&] { v = s.b->output(k); });
        } else {
            // any node's name; only outputs (and what a hook recorded) are known
            int any = r.in(1, int(s.net->g.size()));
            auto n = r.p(75) || s.net->g[any - 1].k == "param" ? nm(r.pick(s.net->outs)) : r.p(60) ? nm(any) : bad_name(r);
            slot.s = q(n);
            e = guard([&] { v = s.b->output(n); });
        }
        int id = next_id++;
        J("out").f("s", s.id).f("slot", slot).f("err", e).f("v", e.empty() ? Raw{js(v)} : Raw{"0"}).f("hold", id).emit();
        if (e.empty() && held.size() < 12) held.push_back({id, v});
    } else if (t < 88) {
        if (held.empty()) return;
        int k = r(int(held.size()));
        std::string e; std::string v = "0";
        e = guard([&] { v = js(held[k].t); });
        J("held").f("hold", held[k].id).f("err", e).f("v", Raw{v}).emit();
        if (r.p(40)) { J("drop").f("hold", held[k].id).emit(); held.erase(held.begin() + k); }
    } else if (t < 92) {
        if (!ni) return;
        int k = r(ni);
        if (s.b->input(k).dtype() == VOID) return;
        auto v = r.p(50) ? s.b->input(k) : s.b->input(nm(s.net->ins[k]));
        J("in").f("s", s.id).f("slot", k).f("v", v).emit();
    } else if (t < 95) {
        auto nd = needed(*s.net);
        std::vector<int> c;
        for (int i = 1; i <= int(s.net->g.size()); ++i) if (s.net->g[i - 1].k == "fn" && nd[i] && !consty(*s.net, i)) c.push_back(i);
        if (c.empty()) return;
        int i = r.pick(c), v = r(60);
        auto e = guard([&] { s.b->set_operator_param(nm(i), "p", tensor::from<int32_t>(v)); });
        J("param").f("s", s.id).f("node", i).f("p", v).f("err", e).emit();
    } else if (t < 98) {
        if (!s.own) return;
        // the program run directly, with arguments by position or by name
        std::vector<Tensor> args; for (int i = 0; i < ni; ++i) args.push_back(input_value(r));
        bool wrong = r.p(8);
        if (wrong) { if (r.p(50) && ni) args.pop_back(); else args.push_back(input_value(r)); }
        std::vector<Tensor> outs; std::string e;
        bool mapped = r.p(40);
        if (mapped) {
            std::map<std::string, Tensor> m;
            for (size_t i = 0; i < args.size(); ++i) m[int(i) < ni ? nm(s.net->ins[i]) : "extra"] = args[i];
            e = guard([&] { outs = s.b->launch_offline(s.own, m); });
        } else e = guard([&] { outs = s.b->launch_offline(s.own, args); });
        J("launch").f("s", s.id).f("args", args).f("err", e).f("outs", outs).emit();
    } else {
        // a single operator
        Bubble bub("vf_fn", "single");
        int id = r(50), p = r(50);
        bub.set("id", tensor::from<int32_t>(id)); bub.set("p", tensor::from<int32_t>(p));
        std::vector<Tensor> args, outs; int m = r.in(1, 2);
        for (int i = 0; i < m; ++i) args.push_back(input_value(r));
        auto e = guard([&] { auto op = s.b->offline_create(bub); s.b->offline_run(op, args, outs); });
        J("single").f("s", s.id).f("id", id).f("p", p).f("args", args).f("err", e).f("outs", outs).emit();
    }
    if (s.b->stack().size() != 0 || s.b->stack().base() != 0) J("leftover").f("s", s.id).f("n", int(s.b->stack().size())).emit();
}
static Sess clone_of(const Sess &s) {
    Sess c; c.id = next_id++; c.net = s.net;
    std::string e = guard([&] { c.b = s.b->clone(); });
    J("clone").f("s", s.id).f("n", c.id).f("p", next_id++).f("err", e).emit();
    if (!e.empty()) internal("clone failed");
    return c;
}
static int compile(Workbench &b, std::map<int, Prog> &progs, Rng &r, int maxn, bool rich) {
    auto net = std::make_shared<SNet>(random_snet(r, maxn, rich));
    Prog p; p.net = net;
    std::string e, what;
    auto m = module_of(*net);
    e = guard([&] { p.p = r.p(50) ? b.compile(m) : b.compile(m, "--no-pack"); }, &what);
    int id = next_id++;
    J("prog").f("p", id).f("g", net->g).f("outs", net->outs).f("ins", net->ins).f("err", e).f("what", what.substr(0, 300)).emit();
    progs[id] = p;
    return id;
}
int main(int argc, char **argv) {
    vf::open(argv[1]);
    Rng r(atoi(argv[2]));
    std::string mode = argv[3];
    int rounds = atoi(argv[4]), steps = atoi(argv[5]);
    setup_session();
    for (int k = 0; k < rounds; ++k) {
        J("begin").emit();
        common = r.pick(shapes());
        std::map<int, Prog> progs;
        std::vector<Sess> ss;
        std::vector<Held> held;
        bool threads = mode == "threads";
        auto open = [&](int p) {
            Sess s; s.id = next_id++;
            s.b = r.p(50) ? std::make_shared<Workbench>(ComputingDevice(CPU, 0)) : std::make_shared<Workbench>(ComputingDevice(CPU, 0), r(4));
            J("open").f("s", s.id).emit();
            if (!p) p = compile(*s.b, progs, r, 9, true);
            s.b->setup(progs[p].p); s.net = progs[p].net; s.own = progs[p].p;
            J("setup").f("s", s.id).f("p", p).emit();
            return s;
        };
        ss.push_back(open(0));
        if (!threads) {
            for (int i = 0; i < steps; ++i) {
                int t = r(100);
                if (t < 3 && ss.size() < 5) ss.push_back(clone_of(r.pick(ss)));
                else if (t < 5 && ss.size() < 5) { int p = r.p(40) && !progs.empty() ? progs.begin()->first : 0; ss.push_back(open(p)); }
                else if (t < 9 && ss.size() > 1) {
                    int j = r(int(ss.size())); J("close").f("s", ss[j].id).emit();
                    if (r.p(70)) for (auto it = progs.begin(); it != progs.end();) { if (it->second.p == ss[j].own) it = progs.erase(it); else ++it; }
                    ss.erase(ss.begin() + j);
                }
                else if (t < 11) {
                    auto &s = r.pick(ss); auto &q = const_cast<Sess &>(s);
                    int p = compile(*q.b, progs, r, 7, true);
                    q.b->setup(progs[p].p); q.net = progs[p].net; q.own = progs[p].p; q.ran = false;
                    J("setup").f("s", q.id).f("p", p).emit();
                }
                else step(const_cast<Sess &>(r.pick(ss)), r, held, &progs, &ss, false);
            }
        } else {
            for (int i = 0; i < 6; ++i) step(ss[0], r, held, &progs, &ss, true);
            int n = r.in(2, 4);
            for (int i = 0; i < n; ++i) { Sess c = clone_of(ss[0]); ss.push_back(c); }
            std::vector<Sess> work;
            if (r.p(70)) { J("close").f("s", ss[0].id).emit(); ss.erase(ss.begin()); progs.clear(); }
            perturb_level() = r(3);
            std::vector<std::thread> th;
            for (size_t i = 0; i < ss.size(); ++i) {
                uint64_t sd = r.g();
                th.emplace_back([&ss, i, sd, steps] {
                    Rng q(sd); std::vector<Held> h;
                    Sess mine = ss[i];
                    ss[i].b.reset(); ss[i].own.reset();
                    for (int j = 0; j < steps; ++j) {
                        if (q.p(4)) {                  // go on with a clone of one's own
                            Sess c = clone_of(mine);
                            if (q.p(50)) { J("close").f("s", mine.id).emit(); mine = c; }
                            else J("close").f("s", c.id).emit();
                        } else step(mine, q, h, nullptr, nullptr, true);
                    }
                });
            }
            for (auto &t : th) t.join();
            perturb_level() = 0;
        }
    }
    return 0;
}
