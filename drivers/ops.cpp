// usage: ops TRACE SEED COUNT GROUP [OPERATOR]
#include "ops_win.h"
using namespace vf;
int main(int argc, char **argv) {
    if (argc < 5) internal("usage");
    vf::open(argv[1]);
    Rng r(std::strtoull(argv[2], 0, 10));
    int n = atoi(argv[3]); std::string group = argv[4];
    auto gens = group == "move" ? move_gens() : group == "math" ? math_gens() : group == "win" ? win_gens() : std::vector<std::pair<std::string, Gen>>();
    if (argc > 5) { decltype(gens) g; for (auto &x : gens) if (x.first == argv[5]) g.push_back(x); gens = g; }
    if (gens.empty()) internal("no such generator");
    Runner run(r);
    for (int i = 0; i < n; ++i) {
        auto &g = gens[(i + atoi(argv[2])) % gens.size()];
        Case c = g.second(r);
        if (c.op.empty()) c.op = g.first;
        run.call(c);
    }
    return 0;
}
