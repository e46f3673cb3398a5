// Graphs built, linked, relinked and dropped; modules loaded from them, sorted and fused.  c09 TRACE SEED SEGMENTS STEPS
#include "session.h"
using namespace vf;
using namespace ts;
typedef std::vector<int> VI;
typedef std::vector<std::string> VS;
struct R { int a, o, b, i; };
static std::string js(const R &r) { return J().f("a", r.a).f("o", r.o).f("b", r.b).f("i", r.i).str(); }
static std::map<int, Graph> gs; static std::map<int, Module::shared> ms; static std::map<int, Node> ns; static std::map<int, std::set<int>> holds; static std::map<int, VI> gnodes;
// an expired node is known by its null pointer
static bool alive(const Node &n) { return n.ptr() != nullptr; }
static int id(const Node &n) { void *p = n.ptr(); if (!p) return 0; for (auto &x : ns) if (x.second.ptr() == p) return x.first; return -1; }
static VI ids(const std::vector<Node> &v, bool live = false) { VI r; for (auto &n : v) { int k = id(n); if (!live || k) r.push_back(k); } return r; }
static int pof(const Node &n) { return n->has("p") ? tensor::to_int(n->get("p")) : 0; }
static void emit(J j) {
    std::vector<Raw> a, b, c;
    for (auto &x : ns) if (alive(x.second)) a.push_back(J().f("x", x.first).f("op", x.second->op()).f("name", x.second->name()).f("p", pof(x.second)).f("ins", ids(x.second.inputs())).f("outs", ids(x.second.outputs(), true)).raw());
    for (auto &x : gs) b.push_back(J().f("g", x.first).f("nodes", ids(x.second.nodes())).raw());
    for (auto &x : ms) c.push_back(J().f("m", x.first).f("ins", ids(x.second->inputs())).f("outs", ids(x.second->outputs())).raw());
    j.f("nodes", a).f("graphs", b).f("mods", c).emit();
}
static Raw term(const Node &n, const std::vector<Node> &ins, int depth = 0) {
    if (depth > 60) internal("deep term");
    std::vector<Raw> of; for (auto &i : n.inputs()) of.push_back(term(i, ins, depth + 1));
    int at = -1; for (size_t i = 0; i < ins.size() && at < 0; ++i) if (ins[i] == n) at = int(i) + 1;
    return J().f("op", n->op()).f("name", n->name()).f("p", pof(n)).f("in", at).f("of", of).raw();
}
static long weight(const Node &n) { long s = 1; if (!alive(n)) return 1; for (auto &i : n.inputs()) { s += weight(i); if (s > 400) return s; } return s; }
static bool below(const Node &a, const Node &x) {        // x is a or something a needs
    if (!alive(a)) return false; if (a == x) return true;
    for (auto &i : a.inputs()) if (below(i, x)) return true;
    return false;
}
int main(int argc, char **argv) {
    if (argc < 5) return 77;
    vf::open(argv[1]); Rng r(std::strtoull(argv[2], nullptr, 10)); int segs = atoi(argv[3]), steps = atoi(argv[4]);
    setup();
    static const VS words = {"a", "b", "c", "d", "e", "f", "g", "h", "a:0", ""};
    for (int seg = 0; seg < segs; ++seg) {
        gs.clear(); ms.clear(); ns.clear(); int ng = 0, nn = 0, nm = 0;
        bool unique = r.p(50); int fresh = 0;
        auto word = [&]() { return unique ? "n" + std::to_string(++fresh) : r.pick(words); };
        J("reset").emit();
        auto live = [&]() { VI v; for (auto &x : ns) if (alive(x.second)) v.push_back(x.first); return v; };
        auto any = [&](const VI &v) { return v.empty() ? 0 : r.p(50) ? v[size_t(r.in(std::max(0, int(v.size()) - 4), int(v.size()) - 1))] : r.pick(v); };
        holds.clear();
        auto a_node = [&](int g, const std::string &op) { int x = ++nn; std::string n = word(); ns.insert(std::make_pair(x, gs[g].make(op, n))); emit(J("make").f("x", x).f("g", g).f("op", op).f("name", n)); return x; };
        auto a_link = [&](int x, const VI &in) { std::vector<Node> iv; for (int y : in) iv.push_back(ns.at(y)); std::string e = guard([&] { Node::Link(ns.at(x), iv); }); emit(J("link").f("x", x).f("ins", in).f("err", e)); };
        auto whole = [&]() {                                // a graph in one go, and a module of it
            int g = ++ng; gs.insert(std::make_pair(g, Graph())); emit(J("graph").f("g", g)); VI mine; int n = r.in(1, 6);
            for (int i = 0; i < n; ++i) {
                bool leaf = i == 0 || r.p(30); int x = a_node(g, !leaf ? "op" : r.p(75) ? Bubble::Parameter : Bubble::Const);
                if (!leaf) { VI in; for (int k = r.in(1, 3); k > 0; --k) in.push_back(r.p(60) ? mine.back() : r.pick(mine)); a_link(x, in); }
                mine.push_back(x);
            }
            int m = ++nm; ms[m] = std::make_shared<Module>(); emit(J("mod").f("m", m));
            std::vector<Node> v; VI outs; for (int k = r.in(1, 3); k > 0; --k) { int x = r.p(50) ? mine.back() : r.pick(mine); outs.push_back(x); v.push_back(ns.at(x)); }
            std::string e = guard([&] { ms[m]->load(gs[g], v); }); if (e == "") holds[m].insert(mine.begin(), mine.end());
            emit(J("load").f("m", m).f("g", g).f("how", "nodes").f("outs", outs).f("names", VS()).f("err", e));
            auto in = ms[m]->inputs(); std::shuffle(in.begin(), in.end(), r.g); VI q = ids(in); e = guard([&] { ms[m]->sort_inputs(in); }); emit(J("sort").f("m", m).f("how", "nodes").f("ins", q).f("names", VS()).f("err", e));
        };
        bool parts = r.p(40); if (parts) for (int k = r.in(2, 4); k > 0; --k) whole();
        for (int t = 0; t < steps; ++t) {
            int w = r(100); VI lv = live(); if (parts && r.p(40)) w = 95; if (parts && t > 50) break;
            auto a_graph = [&]() { auto it = gs.begin(); std::advance(it, r(int(gs.size()))); return it->first; };
            auto a_mod = [&]() { auto it = ms.begin(); std::advance(it, r(int(ms.size()))); return it->first; };
            auto name_in = [&](int g) { auto v = gs[g].nodes(); return v.empty() || r.p(8) ? r.p(50) ? std::string("zz") : r.pick(words) : v[size_t(r(int(v.size())))]->name(); };
            if (gs.empty() || (w < 3 && gs.size() < 3)) { int g = ++ng; gs.insert(std::make_pair(g, Graph())); emit(J("graph").f("g", g)); }
            else if (w < 26) {
                if (lv.size() > 14) continue;
                int g = a_graph(), x = ++nn; std::string op = r.p(25) ? Bubble::Parameter : r.p(15) ? Bubble::Const : "op", n = word();
                ns.insert(std::make_pair(x, gs[g].make(op, n))); emit(J("make").f("x", x).f("g", g).f("op", op).f("name", n));
                auto all = ids(gs[g].nodes()); if (op == "op" && all.size() > 1 && r.p(80)) { VI in; for (int k = r.in(1, 2); k > 0; --k) in.push_back(all[size_t(r(int(all.size()) - 1))]); a_link(x, in); }
            } else if (w < 48) {
                int x = any(lv); if (!x || (ns.at(x)->op() != "op" && r.p(90))) continue;
                VI in; std::vector<Node> iv; for (int k = r.in(r.p(10) ? 0 : 1, 3); k > 0; --k) { int y = any(lv); if (below(ns.at(y), ns.at(x)) ) continue;
                    bool same = false; for (auto &q : gs) { auto v = q.second.nodes(); if (std::find(v.begin(), v.end(), ns.at(x)) != v.end() && std::find(v.begin(), v.end(), ns.at(y)) != v.end()) same = true; }
                    if (!same && r.p(85)) continue; in.push_back(y); if (r.p(10)) in.push_back(y); }
                if (r.p(3)) for (auto &q : ns) if (!alive(q.second)) { in.push_back(q.first); if (r.p(50)) std::reverse(in.begin(), in.end()); break; }
                for (int y : in) iv.push_back(ns.at(y));
                std::string e = guard([&] { Node::Link(ns.at(x), iv); });
                emit(J("link").f("x", x).f("ins", in).f("err", e));
            } else if (w < 53) {
                int a = any(lv), b = any(lv); if (!a) continue; bool bad = false;
                for (auto &o : ns.at(a).outputs()) if (alive(o) && below(ns.at(b), o)) bad = true;
                if (bad) continue;
                std::string e = guard([&] { Node::ReplaceOutput(ns.at(a), ns.at(b)); });
                emit(J("replace").f("a", a).f("b", b).f("err", e));
            } else if (w < 56) { int x = any(lv); if (!x) continue; std::string n = word(); ns.at(x)->name(n); emit(J("name").f("x", x).f("name", n)); }
            else if (w < 58) { int g = a_graph(); gs.erase(g); emit(J("drop").f("g", g)); }
            else if (ms.empty() || (w < 62 && ms.size() < 3)) { int m = ++nm; ms[m] = std::make_shared<Module>(); emit(J("mod").f("m", m)); }
            else if (w < 63) { int m = a_mod(); ms.erase(m); emit(J("dropmod").f("m", m)); }
            else if (w < 65) { int m = a_mod(); ms[m]->clear(); holds[m].clear(); emit(J("clear").f("m", m)); }
            else if (w < 78) {
                int m = a_mod(), g = a_graph(), how = r(10); if (ms[m]->outputs().size() > 5 || gs[g].nodes().empty()) continue;
                if (!ms[m]->outputs().empty() && r.p(70)) { continue; }
                VI outs; VS names; std::string e; const char *h = "ends";
                if (how < 3) e = guard([&] { ms[m]->load(gs[g]); });
                else if (how < 6) { h = "nodes"; std::vector<Node> v; for (int k = r.in(1, 3); k > 0; --k) { auto all = gs[g].nodes(); int x = r.p(96) ? id(all[size_t(r(int(all.size())))]) : any(lv); outs.push_back(x); v.push_back(ns.at(x)); } e = guard([&] { ms[m]->load(gs[g], v); }); }
                else { h = "names"; for (int k = r.in(1, 3); k > 0; --k) names.push_back(name_in(g)); e = guard([&] { ms[m]->load(gs[g], names); }); }
                if (e == "") for (int x : ids(gs[g].nodes())) holds[m].insert(x);
                emit(J("load").f("m", m).f("g", g).f("how", h).f("outs", outs).f("names", names).f("err", e));
            } else if (w < 87) {
                int m = a_mod(); auto in = ms[m]->inputs(); std::shuffle(in.begin(), in.end(), r.g); std::string e;
                if (r.p(10) && !in.empty()) in.pop_back(); if (r.p(8) && !in.empty()) in.push_back(in[0]);
                bool dead = false; for (auto &n : in) dead = dead || !alive(n); if (dead) continue;
                if (r.p(50)) { if (r.p(12)) for (int x : lv) if (ns.at(x)->op() == Bubble::Parameter && r.p(40)) { if (holds[m].count(x)) in.push_back(ns.at(x)); }
                    VI q = ids(in); e = guard([&] { ms[m]->sort_inputs(in); }); emit(J("sort").f("m", m).f("how", "nodes").f("ins", q).f("names", VS()).f("err", e)); }
                else { VS q; for (auto &n : in) q.push_back(n->name()); if (r.p(8)) q.push_back(r.pick(words)); if (r.p(5) && !q.empty()) q[0] = "zz";
                    e = guard([&] { if (q.size() == 2 && r.p(50)) ms[m]->sort_inputs({q[0], q[1]}); else if (q.size() == 1 && r.p(30)) ms[m]->sort_inputs({q[0].c_str()}); else ms[m]->sort_inputs(q); }); emit(J("sort").f("m", m).f("how", "names").f("ins", VI()).f("names", q).f("err", e)); }
            } else if (w < 90) {
                int m = a_mod(), v = r.in(1, 99); std::string n = !ms[m]->outputs().empty() && r.p(80) ? ms[m]->outputs()[0]->name() : r.pick(words);
                ms[m]->set_param(n, "p", tensor::from<int32_t>(v)); emit(J("setp").f("m", m).f("name", n).f("v", v));
            } else if (w < 94) {
                VI of; std::vector<Node> v; if (lv.empty()) continue;
                for (int k = r.in(1, 3); k > 0; --k) { int x = any(lv); of.push_back(x); v.push_back(ns.at(x)); }
                bool dead = false; std::function<void(const Node &)> go = [&](const Node &n) { if (!alive(n)) { dead = true; return; } for (auto &i : n.inputs()) go(i); }; for (auto &n : v) go(n); if (dead) continue;
                std::vector<VI> got; for (auto &p : Module::list_reference_nodes(v)) got.push_back({id(p.first), p.second});
                emit(J("ref").f("of", of).f("got", got));
            } else {
                // modules over graphs of their own
                VI use; std::set<void *> seen; bool clash = false;
                for (auto &x : ms) { if (x.second->outputs().empty()) continue; if (r.p(80) || use.empty()) use.push_back(x.first); }
                if (use.empty()) continue; std::shuffle(use.begin(), use.end(), r.g);
                std::vector<Module::shared> sub; long size = 0;
                for (int m : use) { sub.push_back(ms[m]); std::set<void *> mine; std::function<void(const Node &)> go = [&](const Node &n) { if (!alive(n)) { clash = true; return; } if (!mine.insert(n.ptr()).second) return; if (seen.count(n.ptr())) clash = true; for (auto &i : n.inputs()) go(i); };
                    for (auto &o : ms[m]->outputs()) go(o), size += weight(o); for (auto &i : ms[m]->inputs()) go(i); seen.insert(mine.begin(), mine.end()); }
                if (clash || size > 200) continue;
                // what changed since the module was loaded may need other inputs
                bool stale = false;
                for (auto &m : sub) { std::set<void *> in; for (auto &i : m->inputs()) in.insert(i.ptr()); std::function<void(const Node &)> go = [&](const Node &n) { if (n->op() == Bubble::Parameter) { if (!in.count(n.ptr())) stale = true; return; } if (n->op() == Bubble::Const) { if (!n.inputs().empty()) stale = true; return; } if (n.inputs().empty()) stale = true; for (auto &i : n.inputs()) go(i); }; for (auto &o : m->outputs()) go(o); for (auto &i : m->inputs()) { if (!i.inputs().empty()) stale = true; std::set<void *> need; std::function<void(const Node &)> add = [&](const Node &n) { need.insert(n.ptr()); for (auto &k : n.inputs()) add(k); }; for (auto &o : m->outputs()) add(o); if (!need.count(i.ptr())) stale = true; } }
                if (stale) continue;
                std::vector<R> rs; std::vector<Module::Route> rr; std::set<std::pair<int, int>> taken;
                for (int k = r(4); k > 0; --k) {
                    R q; q.a = r.in(1, int(sub.size())); q.b = r.in(1, int(sub.size())); if (sub.size() > 1 && r.p(90)) { q.b = r.in(2, int(sub.size())); q.a = r.in(1, q.b - 1); }
                    int no = int(sub[size_t(q.a) - 1]->outputs().size()), ni = int(sub[size_t(q.b) - 1]->inputs().size());
                    q.o = r.p(15) ? -1 : r(no + (r.p(5) ? 1 : 0)); q.i = r.p(15) ? -1 : ni == 0 ? 0 : r(ni + (r.p(5) ? 1 : 0)); if (r.p(2)) q.a = r.in(-1, 9); if (r.p(2)) q.b = r.in(0, 9);
                    if (ni > 0 && q.b >= 1 && q.b <= int(sub.size()) && std::max(0, q.i) < int(sub[size_t(q.b) - 1]->inputs().size())) { int target = id(sub[size_t(q.b) - 1]->inputs()[size_t(std::max(0, q.i))]); if (!taken.insert(std::make_pair(q.b, target)).second) continue; }
                    rs.push_back(q);
                }
                // no going round in circles
                std::vector<VI> to(sub.size() + 1); bool cyc = false; for (auto &q : rs) if (q.a >= 1 && q.b >= 1 && q.a <= int(sub.size()) && q.b <= int(sub.size())) to[size_t(q.a)].push_back(q.b);
                std::function<void(int, int)> walk = [&](int m, int d) { if (d > int(sub.size())) { cyc = true; return; } for (int x : to[size_t(m)]) walk(x, d + 1); }; for (int m = 1; m <= int(sub.size()); ++m) walk(m, 0);
                if (cyc) continue;
                for (auto &q : rs) { Module::Route x(q.a - 1, q.o, q.b - 1, q.i); if (r.p(50)) { x = Module::Route(); x.in = q.a - 1; x.in_out_slot = q.o; x.out = q.b - 1; x.out_in_slot = q.i; } rr.push_back(x); }
                VS ins; std::vector<Raw> outs;
                std::string e = guard([&] { auto f = Module::Fusion(sub, rr); for (auto &i : f->inputs()) ins.push_back(i->name()); for (auto &o : f->outputs()) outs.push_back(term(o, f->inputs())); });
                emit(J("fuse").f("ms", use).f("rs", std::vector<Raw>([&] { std::vector<Raw> v; for (auto &q : rs) v.push_back(Raw{js(q)}); return v; }())).f("err", e).f("ins", ins).f("outs", outs));
            }
        }
    }
    return 0;
}
