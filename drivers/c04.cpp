// Thread pool histories under perturbed schedules: every start, end, callback, join and destruction is logged.
#include "vf.h"
#include "perturb.h"
#include <thread>
#include <chrono>
#include "runtime/inside/thread_pool.h"
#include "runtime/inside/parallel.h"
#include "utils/ctxmgr.h"
#include "utils/ctxmgr_lite.h"
#include "utils/box.h"
using namespace ts;
using namespace vf;
static std::atomic<int> next_task{1}, next_loop{1};

static void submit(ThreadPool &pool, bool cb, int us) {
    int t = next_task++;
    auto body = [t, us](int sig) {
        J("start").f("t", t).f("sig", sig).emit();
        if (us) usleep(us);
        J("end").f("t", t).emit();
    };
    J("give").f("t", t).f("cb", cb).emit();
    if (cb) pool.run(body, [t](int sig) { J("cb").f("t", t).f("sig", sig).emit(); });
    else pool.run(body);
    J("given").f("t", t).emit();
}
static void joinall(ThreadPool &pool, int who) {
    J("join0").f("who", who).emit();
    pool.join();
    J("join1").f("who", who).emit();
}
static void loop(int b, int e, bool range, int us) {
    int id = next_loop++;
    J("loop0").f("id", id).f("b", b).f("e", e).emit();
    auto part = [id, us](int sig, int b, int e) {
        J("part0").f("id", id).f("sig", sig).emit();
        if (us) usleep(us);
        J("part").f("id", id).f("b", b).f("e", e).f("sig", sig).emit();
    };
    if (range) parallel_range([part](int sig, const Range &r) { part(sig, r.first, r.second); }, b, e);
    else parallel_run([part](int sig, int b, int e) { part(sig, b, e); }, b, e);
    J("loop1").f("id", id).emit();
}
int main(int argc, char **argv) {
    vf::open(argv[1]);
    Rng r(atoi(argv[2]));
    std::string mode = argv[3];
    int rounds = atoi(argv[4]);
    perturb_seed() = r.g();
    if (mode == "bins") {
        for (int b = -3; b <= 3; ++b) for (int e = b - 1; e <= b + 14; ++e) for (int n = -1; n <= 16; ++n) {
            std::vector<std::vector<int>> res;
            for (auto &p : split_bins(b, e, n)) res.push_back({p.first, p.second});
            J("bins").f("b", b).f("e", e).f("n", n).f("res", res).emit();
            if (b >= 0 && e >= 0 && n >= 0) {
                res.clear();
                for (auto &p : lsplit_bins(size_t(b), size_t(e), size_t(n))) res.push_back({int(p.first), int(p.second)});
                J("bins").f("b", b).f("e", e).f("n", n).f("res", res).emit();
            }
        }
        for (int i = 0; i < rounds; ++i) {
            int b = r.in(-100000, 100000), e = b + r(i % 2 ? 200 : 20000000), n = r.in(1, 40);
            std::vector<std::vector<int>> res;
            for (auto &p : split_bins(b, e, n)) res.push_back({p.first, p.second});
            J("bins").f("b", b).f("e", e).f("n", n).f("res", res).emit();
            if (b >= 0) {
                res.clear();
                for (auto &p : lsplit_bins(size_t(b), size_t(e), size_t(n))) res.push_back({int(p.first), int(p.second)});
                J("bins").f("b", b).f("e", e).f("n", n).f("res", res).emit();
            }
        }
        return 0;
    }
    for (int k = 0; k < rounds; ++k) {
        perturb_level() = r(4);
        int n = r.p(15) ? 0 : r.in(1, 5);
        J("pool").f("n", n).emit();
        {
            std::unique_ptr<ThreadPool> pool(new ThreadPool(size_t(n)));
            if (r.p(20)) usleep(r(300));
            if (mode == "tasks") {
                int steps = r(14);
                for (int s = 0; s < steps; ++s) {
                    if (r.p(20)) joinall(*pool, 0); else submit(*pool, r.p(50), r.p(40) ? r(200) : 0);
                }
            } else if (mode == "clients") {
                // several threads submit to and wait on one pool; with no worker thread the tasks run in the caller
                if (n == 0) submit(*pool, true, 0);
                else {
                    std::vector<std::thread> th;
                    int m = r.in(2, 3);
                    for (int c = 0; c < m; ++c) {
                        int steps = r.in(1, 6); uint64_t sd = r.g();
                        th.emplace_back([&pool, c, steps, sd] {
                            Rng q(sd);
                            for (int s = 0; s < steps; ++s) { if (q.p(20)) joinall(*pool, c + 1); else submit(*pool, q.p(50), q.p(40) ? q(150) : 0); }
                        });
                    }
                    for (auto &t : th) t.join();
                }
            } else {
                ctx::bind<ThreadPool> _bind(*pool);
                int m = r.in(1, 4);
                for (int s = 0; s < m; ++s) { int b = r.in(-5, 5); loop(b, b + r.in(-1, 23), r.p(50), r.p(40) ? r(120) : 0); }
            }
            J("destroy0").emit();
        }
        J("gone").emit();
    }
    perturb_level() = 0;
    return 0;
}
