// Files written and read through the cipher.  c11 TRACE SEED SEGMENTS STEPS
#include "session.h"
#include <unistd.h>
#include <sys/stat.h>
#include "encryption/encrypted_fstream.h"
#include "module/io/fstream.h"
#include "module/io/sstream.h"
using namespace vf;
using namespace ts;
typedef std::vector<int> VI;
static std::string dir;
static VI vi(const std::string &s) { VI r; for (unsigned char c : s) r.push_back(c); return r; }
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static void spill(const std::string &p, const std::string &s) { std::ofstream f(p, std::ios::binary); f.write(s.data(), std::streamsize(s.size())); }
static std::string bytes(Rng &r, int n, int mode) { std::string s; for (int i = 0; i < n; ++i) s += char(mode == 0 ? r(256) : mode == 1 ? r(18) : mode == 2 ? 0 : i); return s; }
static std::string path(int f) { return dir + "/f" + std::to_string(f); }
static std::string some_key(Rng &r, const std::vector<std::string> &keys) {
    if (!keys.empty() && r.p(30)) {     // a neighbour of a key in use
        std::string k = r.pick(keys);
        if (k.empty()) return bytes(r, 1, 0);
        int w = r(3);
        if (w == 0) k[r(int(k.size()))] ^= char(1 << r(8)); else if (w == 1) k.pop_back(); else k += char(r(256));
        return k;
    }
    static const VI lens = {0, 1, 5, 15, 16, 17, 24, 31, 32, 32, 32, 33, 40};
    return bytes(r, r.pick(lens), r.p(70) ? 0 : r(4));
}
static Module::shared some_module(Rng &r) {
    Graph g; std::vector<Node> ns;
    ctx::bind<Graph> b(g);
    int n = r.in(1, 4);
    for (int i = 0; i < n; ++i) {
        std::string name = "n" + std::to_string(i) + bytes(r, r(20), 3);
        if (i == 0 || r.p(30)) { if (r.p(50)) ns.push_back(bubble::param(name)); else ns.push_back(bubble::data(name, random_tensor(r, INT32, {r.in(1, 9)}, -9, 9))); }
        else { auto x = bubble::op(name, "_vf_any", {ns[r(i)]}); if (r.p(60)) x.bubble().set("attr" + std::to_string(r(3)), random_tensor(r, INT32, {r.in(1, 5)}, -9, 9)); ns.push_back(x); }
    }
    return Module::Load(g, std::vector<Node>{ns.back()});
}
int main(int argc, char **argv) {
    if (argc < 5) return 77;
    vf::open(argv[1]); Rng r(std::strtoull(argv[2], nullptr, 10)); int segs = atoi(argv[3]), steps = atoi(argv[4]);
    char tmpl[] = "/tmp/vf_c11_XXXXXX"; if (!mkdtemp(tmpl)) internal("mkdtemp"); dir = tmpl;
    std::vector<std::string> paths;
    setup();
    for (int s = 0; s < segs; ++s) {
        J("reset").emit();
        std::map<int, std::unique_ptr<EncryptedFileStreamWriter>> ws; std::map<int, int> wf, left;
        std::map<int, std::unique_ptr<EncryptedFileStreamReader>> rs; std::map<int, int> rf;
        std::map<int, std::string> key, raw; std::vector<std::string> keys;
        int nw = 0, nr = 0, nf = 0;
        auto idle = [&](int f) { for (auto &p : wf) if (p.second == f) return false; for (auto &p : rf) if (p.second == f) return false; return true; };
        auto key_of = [](const std::map<int, std::string> &m, int f) { auto it = m.find(f); return it == m.end() ? std::string() : it->second; };
        for (int t = 0; t < steps; ++t) {
            int w = r(100);
            if (w < 12 && ws.size() < 2) {
                int f = nf < 3 || r.p(40) ? ++nf : r.in(1, nf); if (!idle(f)) continue;
                std::string k = some_key(r, keys); keys.push_back(k); int id = ++nw;
                ws[id].reset(new EncryptedFileStreamWriter(path(f), k)); wf[id] = f; left[id] = r.pick(VI{0, 1, 15, 16, 17, 31, 32, 33, 48, 60, 90}); key[f] = k; raw.erase(f);
                paths.push_back(path(f));
                J("wopen").f("w", id).f("f", f).f("key", vi(k)).f("open", ws[id]->is_open()).emit();
            } else if (w < 40 && !ws.empty()) {
                auto it = ws.begin(); std::advance(it, r(int(ws.size()))); int id = it->first;
                int n = r.pick(VI{0, 1, 2, 4, 7, 15, 16, 17, 31, 33, 50, left[id]}); if (n > left[id]) n = left[id];
                left[id] -= n; std::string d = bytes(r, n, r(4)); size_t ret = it->second->write(d.data(), d.size());
                J("w").f("w", id).f("data", vi(d)).f("ret", long(ret)).emit();
            } else if (w < 50 && !ws.empty()) {
                auto it = ws.begin(); std::advance(it, r(int(ws.size()))); int id = it->first, f = wf[id];
                std::string how = r.pick(std::vector<std::string>{"close", "again", "drop"}); bool open = false;
                if (how != "drop") { it->second->close(); open = it->second->is_open(); }
                if (how == "again") { it->second->close(); open = it->second->is_open() || open; }
                ws.erase(it); wf.erase(id); raw[f] = slurp(path(f));
                J("wclose").f("w", id).f("how", how).f("open", open).f("raw", vi(raw[f])).emit();
            } else if (w < 53) {
                int f = nf == 0 || r.p(30) ? ++nf : r.in(1, nf); if (!idle(f)) continue;
                std::string d = key_of(raw, f); int m = r(5);
                if (d.empty() || m == 0) d = bytes(r, r.pick(VI{0, 1, 15, 16, 17, 32, 48, 50}), r(4));
                else if (m == 1) d.resize(d.size() - size_t(r.in(1, int(d.size()))));
                else if (m == 2) d[r(int(d.size()))] ^= char(1 << r(8));
                else if (m == 3) d += bytes(r, r.pick(VI{1, 8, 16, 32}), 0);
                else d = d.substr(0, d.size() / 16 / 2 * 16);
                spill(path(f), d); raw[f] = d; if (!key.count(f)) key[f] = some_key(r, keys); paths.push_back(path(f));
                J("raw").f("f", f).f("raw", vi(d)).emit();
            } else if (w < 72 && rs.size() < 3 && nf > 0) {
                int f = r.in(1, nf); bool wr = false; for (auto &p : wf) wr = wr || p.second == f;
                if (wr || !raw.count(f)) continue;
                std::string k = r.p(75) ? key[f] : some_key(r, {key[f]}); int id = ++nr;
                rs[id].reset(new EncryptedFileStreamReader(path(f), k)); rf[id] = f;
                J("ropen").f("r", id).f("f", f).f("key", vi(k)).f("open", rs[id]->is_open()).emit();
            } else if (w < 92 && !rs.empty()) {
                auto it = rs.begin(); std::advance(it, r(int(rs.size()))); int id = it->first;
                int n = r.pick(VI{0, 1, 2, 4, 7, 15, 16, 17, 31, 33, 50, 120}); size_t got = 0;
                std::string buf(size_t(n) + 32, '\x5b'), e = guard([&] { got = it->second->read(&buf[0], size_t(n)); });
                bool clean = got <= size_t(n) || !e.empty();
                if (e.empty()) for (size_t i = got; i < buf.size(); ++i) clean = clean && buf[i] == '\x5b'; else for (size_t i = size_t(n); i < buf.size(); ++i) clean = clean && buf[i] == '\x5b';
                J("r").f("r", id).f("n", n).f("got", e.empty() ? vi(buf.substr(0, std::min(got, buf.size()))) : VI()).f("err", e).f("clean", clean).emit();
                if (!e.empty()) { rs.erase(it); rf.erase(id); J("rdrop").f("r", id).emit(); }
            } else if (w < 95 && !rs.empty()) {
                auto it = rs.begin(); std::advance(it, r(int(rs.size()))); int id = it->first;
                if (r.p(50)) it->second->close();
                rs.erase(it); rf.erase(id); J("rdrop").f("r", id).emit();
            } else if (w < 96 && r.p(20)) {
                EncryptedFileStreamReader x(dir + "/none", "k"); char c = 0;
                J("missing").f("open", x.is_open()).f("err", guard([&] { x.read(&c, 1); })).emit();
            } else if (w < 98) {
                std::string p = dir + "/mod", k = some_key(r, keys), k2 = k; paths.push_back(p);
                int at = r(32); k2.resize(32, '\0'); if (at < int(k.size())) k2[at] ^= char(1 << r(8)); else { k2 = k; k2 += char(0x5b); }
                if (k.size() >= 32) { k2 = k; k2[at] ^= 4; }
                if (k2.size() > k.size()) { static const unsigned char rest[] = {96, 61, 235, 16, 21, 202, 113, 190, 43, 115, 174, 240, 133, 125, 119, 129, 31, 53, 44, 7, 59, 97, 8, 215, 45, 152, 16, 163, 9, 20, 223, 244};
                    bool same = true; for (size_t i = 0; i < 32; ++i) { unsigned char a = i < k.size() ? (unsigned char) k[i] : rest[i], b = i < k2.size() ? (unsigned char) k2[i] : rest[i]; same = same && a == b; } if (same) continue; }
                std::string a, b, err, wrong, plain;
                err = guard([&] {
                    auto m = some_module(r); StringStreamWriter sa; Module::Save(sa, m); a = sa.str();
                    { EncryptedFileStreamWriter o(p, k); Module::Save(o, m); }
                    EncryptedFileStreamReader i(p, k); auto m2 = Module::Load(i); StringStreamWriter sb; Module::Save(sb, m2);
                    b.resize(a.size() + 64); EncryptedFileStreamReader i2(p, k); b.resize(i2.read(&b[0], b.size())); if (sb.str().size() != a.size()) b.clear();
                });
                wrong = guard([&] { EncryptedFileStreamReader i(p, k2); Module::Load(i); });
                plain = guard([&] { FileStreamReader i(p); Module::Load(i); });
                J("mod").f("err", err).f("same", a == b && !a.empty()).f("wrong", wrong).f("plain", plain).emit();
            }
        }
        J("done").emit();
    }
    for (auto &p : paths) unlink(p.c_str());
    rmdir(dir.c_str());
    return 0;
}
