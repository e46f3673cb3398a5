// Objects written into streams, one after another, and read back, whole or cut.  c10 TRACE SEED SEGMENTS STEPS
#include "fakedev.h"
#include "session.h"
#include <unistd.h>
#include <sys/stat.h>
#include "module/io/fstream.h"
#include "module/io/sstream.h"
#include "module/header.h"
#include "global/module_loader_factory.h"
using namespace vf;
using namespace ts;
typedef std::vector<int> VI;
static std::string dir;
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static void spill(const std::string &p, const std::string &s) { std::ofstream f(p, std::ios::binary); f.write(s.data(), std::streamsize(s.size())); }
static std::string path(const std::string &n) { return dir + "/" + n; }
static std::string hex(const void *p, size_t n) { static const char *d = "0123456789abcdef"; std::string s; auto c = static_cast<const unsigned char *>(p); for (size_t i = 0; i < n; ++i) { s += d[c[i] >> 4]; s += d[c[i] & 15]; } return s; }
static std::string hex(const std::string &s) { return hex(s.data(), s.size()); }
// --- what an object is
static std::string what1(const Tensor &t) {
    std::string s = dts(t.dtype()) + "["; for (int i = 0; i < t.dims(); ++i) s += (i ? "," : "") + std::to_string(t.size(i)); s += "]";
    Tensor h = t.view(MemoryDevice(CPU));
    return s + hex(h.data(), size_t(h.count()) * size_t(type_bytes(h.dtype())));
}
static std::string what(const Tensor &t) { std::string s = "T("; for (auto &f : t.unpack()) s += what1(f) + ";"; return s + ")"; }
static std::string what(const Bubble &b) {
    std::map<std::string, std::string> ps; for (auto &p : b.params()) ps[p.first] = what(p.second);
    std::string s = "B(" + hex(b.op()) + "," + hex(b.name()) + ",["; for (auto x : b.shape()) s += std::to_string(x) + ","; s += "]," + std::to_string(int(b.dtype()));
    for (auto &p : ps) s += "," + hex(p.first) + "=" + p.second;
    return s + ")";
}
static std::string what(const std::vector<Node> &ns, bool tops) {
    std::map<void *, int> id; for (auto &n : ns) { int k = int(id.size()); id.insert(std::make_pair(n.ptr(), k)); }
    std::string s = "G(";
    for (auto &n : ns) {
        s += what(n.bubble()) + "<"; for (auto &i : n.inputs()) s += (id.count(i.ptr()) ? std::to_string(id[i.ptr()]) : "?") + ",";
        s += ">";
        if (tops) { VI o; for (auto &x : n.outputs()) o.push_back(id.count(x.ptr()) ? id[x.ptr()] : -1); std::sort(o.begin(), o.end()); for (int x : o) s += std::to_string(x) + ","; }
        s += ";";
    }
    return s + ")";
}
static std::string what(const Module::shared &m) {
    std::vector<Node> order; std::map<void *, int> id;
    std::function<void(const Node &)> go = [&](const Node &n) { if (id.count(n.ptr())) return; int k = int(id.size()); id[n.ptr()] = k; order.push_back(n); for (auto &i : n.inputs()) go(i); };
    for (auto &o : m->outputs()) go(o); for (auto &i : m->inputs()) go(i);
    std::string s = "M" + what(order, false) + "in"; for (auto &i : m->inputs()) s += std::to_string(id[i.ptr()]) + ","; s += "out"; for (auto &o : m->outputs()) s += std::to_string(id[o.ptr()]) + ",";
    return s;
}
static std::string what(const Header &h) { return "H(" + std::to_string(h.fake) + "," + std::to_string(h.code) + "," + hex(h.data.data(), h.data.size()) + ")"; }
// --- random objects
static std::string word(Rng &r) { static const std::vector<std::string> w = {"", "a", "x:0", "weight", "a b", "\"q\"", "n/1", "#x", "\xc3\xa9"}; std::string s = r.pick(w); if (r.p(20)) for (int i = r(40); i > 0; --i) s += char(r.in(1, 255)); return s; }
static Tensor one_tensor(Rng &r) {
    static const std::vector<DTYPE> ts = {INT8, UINT8, INT16, UINT16, INT32, UINT32, INT64, UINT64, FLOAT32, FLOAT64, FLOAT16, CHAR8, BOOLEAN, VOID};
    DTYPE t = r.pick(ts); if (t == VOID && r.p(70)) t = INT32;
    int k = r.p(85) ? r(5) : r(8); Shape s; for (int i = 0; i < k; ++i) s.push_back(r.p(4) ? 0 : r.p(85) ? r.in(1, 4) : r.in(1, 2));
    Tensor x = r.p(15) ? Tensor(MemoryDevice("fake", r(2)), t, s) : Tensor(t, s);
    if (t != VOID) { Tensor h(t, s); unsigned char *p = static_cast<unsigned char *>(h.data()); for (int i = 0; i < h.count() * type_bytes(t); ++i) p[i] = (unsigned char) r(256); if (x.device().type() == DeviceType(CPU)) x = h; else { ts::memcpy(x.data(), x.device(), size_t(h.count() * type_bytes(t)), h.data(), h.device(), size_t(h.count() * type_bytes(t))); x.broadcast(); } }
    return x;
}
static Tensor any_tensor(Rng &r) {
    if (r.p(75)) return one_tensor(r);
    std::vector<Tensor> f; for (int i = r.in(1, 4); i > 0; --i) f.push_back(one_tensor(r));
    return Tensor::Pack(f);
}
static Bubble any_bubble(Rng &r, const std::string &op) {
    Bubble b = [&]() -> Bubble { std::string n = word(r); Shape s; for (int i = r(4); i > 0; --i) s.push_back(r.in(-1, 3)); int w = r(4); return w == 0 ? Bubble(op) : w == 1 ? Bubble(op, n) : w == 2 ? Bubble(op, s) : Bubble(op, n, s); }();
    if (r.p(30)) b.dtype(r.p(50) ? FLOAT32 : INT32);
    for (int i = r.p(60) ? r(4) : 0; i > 0; --i) { std::string n = word(r); if (!n.empty() && n[0] == '#') n = "p" + n; b.set(n, any_tensor(r)); }
    if (r.p(10)) b.name(word(r)); if (r.p(5)) b.op("later"); if (r.p(5)) b.shape(Shape({2, 3}));
    return b;
}
static std::vector<Node> fill(Rng &r, Graph &g, int n, bool runs) {
    std::vector<Node> v;
    for (int i = 0; i < n; ++i) {
        bool leaf = i == 0 || r.p(30);
        std::string op = leaf && (runs || r.p(70)) ? (r.p(60) ? Bubble::Parameter : Bubble::Const) : r.p(50) ? "op" : word(r);
        if (!leaf && (op == Bubble::Parameter || op == Bubble::Const)) op = "op";
        Node x = g.make(any_bubble(r, op));
        if (!leaf) { if (x.bubble().op() == Bubble::Parameter) x.bubble().op("op"); std::vector<Node> in; for (int k = r.in(1, 3); k > 0; --k) in.push_back(v[size_t(r.p(60) ? r.in(std::max(0, i - 3), i - 1) : r(i))]); Node::Link(x, in); if (r.p(10)) { in.pop_back(); if (in.empty()) in.push_back(v[0]); std::reverse(in.begin(), in.end()); Node::Link(x, in); } }
        v.push_back(x);
    }
    return v;
}
static Module::shared any_module(Rng &r, Graph &g) {
    auto v = fill(r, g, r.in(1, 9), true); auto m = std::make_shared<Module>();
    for (auto &x : v) if (x.inputs().empty() && x->op() == "later") x.bubble().op(Bubble::Parameter);
    std::vector<Node> out; for (int i = r.in(1, 3); i > 0; --i) out.push_back(v[size_t(r.p(60) ? int(v.size()) - 1 : r(int(v.size())))]);
    m->load(g, out);
    auto in = m->inputs(); if (r.p(30)) for (auto &x : v) if (x->op() == Bubble::Parameter && r.p(50) && std::find(in.begin(), in.end(), x) == in.end()) in.push_back(x);
    std::shuffle(in.begin(), in.end(), r.g);
    m->sort_inputs(in);
    return m;
}
// --- readers and writers
struct Count : public StreamReader { StreamReader &in; size_t n = 0; explicit Count(StreamReader &i) : in(i) {} size_t read(void *b, size_t s) override { size_t k = in.read(b, s); n += k; return k; } };
struct Rd {
    std::string s; std::shared_ptr<StreamReader> in; std::shared_ptr<Count> c; int at = 0;
};
struct St { std::vector<std::string> kinds; std::string data; int cut = -1; bool sealed = false; };
int main(int argc, char **argv) {
    if (argc < 5) return 77;
    vf::open(argv[1]); Rng r(std::strtoull(argv[2], nullptr, 10)); int segs = atoi(argv[3]), steps = atoi(argv[4]);
    char tmpl[] = "/tmp/vf_c10_XXXXXX"; if (!mkdtemp(tmpl)) internal("mkdtemp"); dir = tmpl;
    std::vector<std::string> files; auto file = [&](const std::string &n) { files.push_back(path(n)); return path(n); };
    setup_session(); install_fake(); fake().quiet = true;
    // loaders of other formats: they look at the beginning and say it is not theirs
    for (int k = 0; k < 2; ++k) ModuleLoader::Register(k ? "a_loader" : "z_loader", [k](StreamReaderV2 &s, const void *, int32_t, Module::SerializationFormat) -> Module::shared { char b[4096]; s.read(b, k ? 4096 : 3); throw FormatMismatchException("not mine"); });
    int uniq = 0;
    for (int seg = 0; seg < segs; ++seg) {
        J("reset").emit();
        std::map<std::string, St> st; std::map<std::string, Rd> rd; int ns = 0, nr = 0;
        auto nth = [&]() { auto it = st.begin(); std::advance(it, r(int(st.size()))); return it; };
        for (int t = 0; t < steps; ++t) {
            int w = r(100);
            if (st.empty() || (w < 6 && st.size() < 6)) { std::string s = "s" + std::to_string(++ns); st[s] = St(); J("st").f("s", s).emit(); }
            else if (w < 45) {                           // write
                auto it = nth(); St &q = it->second; if (q.cut >= 0 || q.sealed || q.data.size() > 30000) continue;
                static const std::vector<std::string> ks = {"tensor", "tensor", "bubble", "graph", "nodes", "module", "module", "header"};
                std::string k = r.pick(ks), d, err; long ret = -1;
                StringStreamWriter sw; StringStream ss; std::string fn = file("w" + std::to_string(++uniq)); int way = r(3);
                std::unique_ptr<FileStreamWriter> fw; if (way == 2) { fw.reset(r.p(50) ? new FileStreamWriter(fn) : new FileStreamWriter()); if (!fw->is_open()) fw->open(fn); }
                StreamWriter &o = way == 0 ? static_cast<StreamWriter &>(sw) : way == 1 ? static_cast<StreamWriter &>(ss) : *fw;
                if (way < 2 && r.p(15)) { Tensor x = one_tensor(r); x.serialize(o); if (way == 0) sw.clear(); else ss.clear(); }   // cleared: nothing of it stays
                bool byname = false;
                err = guard([&] {
                    if (k == "tensor") { Tensor x = any_tensor(r); d = what(x); int v = r(3); if (v == 0) ret = long(x.serialize(o)); else if (v == 1) tensor::save(o, x); else { byname = true; tensor::save(fn, x); } }
                    else if (k == "bubble") { Bubble b = any_bubble(r, r.p(50) ? "op" : word(r)); d = what(b); ret = long(b.serialize(o)); }
                    else if (k == "graph" || k == "nodes") { Graph g; auto v = fill(r, g, r(6), false); d = what(v, true); ret = long(k == "graph" ? serialize_graph(o, g) : serialize_nodes(o, v)); }
                    else if (k == "module") { Graph g; auto m = any_module(r, g); d = what(m); byname = way == 2 && r.p(50); if (byname) Module::Save(fn, m); else Module::Save(o, m); if (what(m) != d) d = "changed"; }
                    else { Header h; h.fake = uint32_t(r(1000)); h.code = r.p(50) ? uint32_t(TS_MODULE_CODE_V1) : uint32_t(r(1000)); for (auto &c : h.data) c = char(r(256)); d = what(h); ret = long(h.serialize(o)); }
                });
                if (fw) { fw->close(); }
                std::string bytes = byname || way == 2 ? slurp(fn) : way == 0 ? sw.str() : ss.str();
                if (k == "tensor" && byname == false && way == 2) bytes = slurp(fn);
                q.data += bytes; q.kinds.push_back(k);
                J("w").f("s", it->first).f("k", k).f("d", d).f("len", bytes.size()).f("ret", int(ret)).f("err", err).emit();
            } else if (w < 55) {
                auto it = nth(); if (st.size() > 9 || it->second.cut >= 0) continue;
                std::string s = "s" + std::to_string(++ns), q = it->first; St n = it->second; int L = int(n.data.size());
                n.cut = r.p(20) ? L : r.p(30) ? std::max(0, L - r.in(1, 4)) : r.in(0, L); n.data.resize(size_t(n.cut)); st[s] = n;
                J("cut").f("s", s).f("q", q).f("at", n.cut).emit();
            } else if (w < 65) {
                auto it = nth(); if (rd.size() > 3) continue; std::string id = "r" + std::to_string(++nr); Rd x; x.s = it->first; it->second.sealed = true; const std::string &b = it->second.data;
                int way = r(4);
                if (way == 0) { if (r.p(70)) x.in.reset(new StringStreamReader(b)); else { auto p = new StringStreamReader("other"); char c[9]; p->read(c, size_t(r.in(1, 9))); p->str(b); x.in.reset(p); } }
                else if (way == 1) { auto p = new StringStream(); if (r.p(60)) p->write(b.data(), b.size()); else { char c[9]; p->write("xyz", 3); p->read(c, size_t(r(6))); if (r.p(50)) p->clear(), p->write(b.data(), b.size()); else p->str(b); } x.in.reset(p, [](StreamReader *q) { delete static_cast<StringStream *>(q); }); }
                else { std::string fn = file("r" + std::to_string(++uniq)); spill(fn, b); if (way == 2) x.in.reset(new FileStreamReader(fn)); else { auto p = new FileStreamReaderV2(fn); if (r.p(60)) { std::vector<char> c(40000); p->read(c.data(), size_t(r.p(50) ? r.in(0, 40) : 40000)); p->rewind(); } x.in.reset(p); } }
                x.c.reset(new Count(*x.in)); rd[id] = x;
                J("open").f("r", id).f("s", x.s).emit();
            } else if (w < 92) {                         // read the next object
                if (rd.empty()) continue; auto it = rd.begin(); std::advance(it, r(int(rd.size()))); Rd &x = it->second; St &q = st[x.s];
                std::string id = it->first, k = x.at < int(q.kinds.size()) ? q.kinds[size_t(x.at)] : r.pick(std::vector<std::string>{"tensor", "bubble", "graph", "module", "header"}), d, err; long ret = -1; size_t n0 = x.c->n;
                bool whole = true;
                err = guard([&] {
                    Count &i = *x.c;
                    if (k == "tensor") { Tensor y; if (r.p(30)) y = any_tensor(r); if (r.p(50)) ret = long(y.externalize(i)); else y = tensor::load(i); d = what(y); }
                    else if (k == "bubble") { Bubble b = r.p(50) ? Bubble("old") : any_bubble(r, "old"); ret = long(b.externalize(i)); d = what(b); }
                    else if (k == "graph" || k == "nodes") { Graph g; if (r.p(30)) fill(r, g, 2, false); auto before = g.nodes().size(); std::string old = what(g.nodes(), true); ret = long(externalize_graph(i, g)); auto all = g.nodes(); std::vector<Node> was(all.begin(), all.begin() + long(before)), now(all.begin() + long(before), all.end()); d = what(now, true); if (what(was, true) != old) d = "changed"; }
                    else if (k == "module") { auto m = Module::Load(i); d = what(m); }
                    else { Header h; ret = long(h.externalize(i)); d = what(h); }
                });
                (void) whole; ++x.at;
                J("r").f("r", id).f("k", k).f("d", d).f("err", err).f("used", x.c->n - n0).f("ret", int(ret)).emit();
                if (err != "") rd.erase(id);
            } else if (w < 96) {                         // a file read by name
                auto it = nth(); St &q = it->second; std::string fn = file("n" + std::to_string(++uniq)), k = q.kinds.empty() ? "module" : q.kinds[0], d, err; spill(fn, q.data);
                if (k != "tensor" && k != "module") continue;
                int how = r(3);
                err = guard([&] { if (k == "tensor") d = what(tensor::load(fn)); else if (how == 0) d = what(Module::Load(fn)); else if (how == 1) d = what(Module::LoadV2(fn, nullptr, 0)); else { FileStreamReaderV2 f(fn); d = what(Module::LoadV2(f, "key", 3)); } });
                J("rf").f("s", it->first).f("k", k).f("how", how).f("d", d).f("err", err).emit();
            } else if (w < 98) {
                std::string fn = file("j" + std::to_string(++uniq)), err; int n = r.p(30) ? r(8) : r.in(0, 400); std::string b; for (int i = 0; i < n; ++i) b += char(r.p(50) ? r(256) : 0);
                int how = r(4); bool none = r.p(20);
                if (r.p(30) && n > 8) { uint32_t c = TS_MODULE_CODE_V1 ^ (1u << r(32)); std::memcpy(&b[4], &c, 4); }
                if (none) fn = path("none"); else spill(fn, b);
                err = guard([&] { if (how == 0) Module::Load(fn); else if (how == 1) Module::LoadV2(fn, nullptr, 0); else if (how == 2) { StringStreamReader s(b); Module::Load(s); } else if (none) tensor::load(fn); else throw Exception("none"); });
                J("junk").f("how", how).f("none", none).f("n", n).f("err", err).emit();
            } else {                                     // the loaded network computes the same
                SNet n = random_snet(r, 8, true); auto m = module_of(n); StringStreamWriter o; Module::Save(o, m); StringStreamReader i(o.str());
                Module::shared l; std::string err = guard([&] { l = Module::Load(i); });
                auto eval = [&](const Module::shared &mm, Rng rr) { std::vector<Raw> out; std::string e = guard([&] {
                    Workbench::shared b = Workbench::Load(mm, ComputingDevice(CPU, 0)); ctx::bind<Workbench> bb(*b);
                    std::vector<int> sh = rr.pick(shapes());
                    for (size_t k = 0; k < n.ins.size(); ++k) b->input(int(k), random_tensor(rr, n.g[size_t(n.ins[k]) - 1].dt == "int32" ? INT32 : FLOAT32, sh, 0, 60));
                    b->run(); for (size_t k = 0; k < n.outs.size(); ++k) for (auto &x : tjs(b->output(int(k)))) out.push_back(x); });
                    return J().f("err", e).f("out", out).raw(); };
                Rng rr(r.g());
                Raw a = eval(m, rr), b = l ? eval(l, rr) : Raw{"\"" + err + "\""};
                J("run").f("a", a).f("b", b).emit();
            }
        }
    }
    for (auto &f : files) ::unlink(f.c_str());
    ::rmdir(dir.c_str());
    return 0;
}
