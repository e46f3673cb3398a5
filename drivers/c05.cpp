// Random histories on the value stack; the whole stack is logged after every call.
#include "vf.h"
#include "runtime/stack.h"
#include "runtime/instruction/stack_instruction.h"
#include "runtime/workbench.h"
using namespace ts;
using namespace vf;
static Stack *S;
static void obs(J j, const std::string &err) {
    std::vector<int> vals, devs, cnts;
    size_t b = S->base(), n = S->size();
    S->rebase(0);
    for (int i = 0; i < int(S->size()); ++i) {
        Tensor *t = S->index(i);
        vals.push_back(t->data<int32_t>()[0]);
        devs.push_back(t->device().id());
        cnts.push_back(t->count());
    }
    S->rebase(b);
    j.f("err", err).f("base", b).f("size", n).f("vals", vals).f("devs", devs).f("cnts", cnts).emit();
}
int main(int argc, char **argv) {
    vf::open(argv[1]);
    Rng r(atoi(argv[2]));
    int rounds = atoi(argv[3]), steps = atoi(argv[4]);
    for (int k = 0; k < rounds; ++k) {
        bool lock = r.p(50);
        Stack stack(MemoryDevice(CPU, 0), lock);
        S = &stack;
        J("reset").emit();
        int next = 1; std::vector<int> saved;
        for (int s = 0; s < steps; ++s) {
            int len = int(S->size()) + int(S->base()), size = int(S->size());
            int op = r(20);
            auto anyidx = [&]() { return r.in(-size - 1, size + 1); };
            // valid positions only reach the frame; positions outside the whole stack are the invalid ones
            auto idx = [&]() -> int {
                if (size == 0 || r.p(12)) { return r.p(50) ? size + r(3) : -(len + 1 + r(3)); }
                return r.p(50) ? r(size) : -1 - r(size);
            };
            (void) anyidx;
            if (op < 4 || len == 0) {
                int v = next++, n = r.in(1, 3), d = r.p(25) ? 1 : 0;
                std::string e = guard([&] {
                    Tensor *t = d ? S->push(INT32, {n}, MemoryDevice(CPU, 1)) : (r.p(50) ? S->push(INT32, {n}) : S->push(Tensor::Prototype(INT32, {n})));
                    for (int i = 0; i < n; ++i) t->data<int32_t>()[i] = v;
                });
                obs(J("push").f("v", v).f("d", d).f("n", n), e);
            } else if (op < 6) { int i = idx(); obs(J("pushidx").f("i", i), guard([&] { S->push(i); }));
            } else if (op < 8) {
                int i = idx();
                if (r.p(70)) obs(J("clone").f("i", i).f("d", 0), guard([&] { S->clone(i); }));
                else obs(J("clone").f("i", i).f("d", 1), guard([&] { S->clone(i, MemoryDevice(CPU, 1)); }));
            } else if (op < 9) {
                int i = idx(), got = 0;
                auto e = guard([&] { got = (*S)[i].data<int32_t>()[0]; });
                obs(J("get").f("i", i).f("got", got), e);
            } else if (op < 10) {
                int got = 0; auto e = guard([&] { got = S->top()->data<int32_t>()[0]; });
                obs(J("top").f("got", got), e);
            } else if (op < 11) { if (size) { int n = r(3) == 0 ? 1 : r(size + 1);
                    obs(J("pop").f("n", n), guard([&] { if (n == 1) S->pop(); else S->pop(size_t(n)); })); }
            } else if (op < 12) { if (size) { int i = r.p(50) ? r(size) : -1 - r(size); obs(J("erase").f("i", i), guard([&] { S->erase(i); })); }
            } else if (op < 13) {
                if (size) {
                    int b = r(size), e = r.in(b, size);
                    int bb = r.p(50) ? b : b - size;                       // same slot, from the top
                    int ee = (e < size && r.p(50)) ? e - size : e;
                    obs(J("erase2").f("b", bb).f("e", ee), guard([&] { S->erase(bb, ee); }));
                }
            } else if (op < 14) { if (r.p(30)) obs(J("clear"), guard([&] { S->clear(); }));
            } else if (op < 15) { int n = r.in(saved.empty() ? 0 : saved.back(), len), old = 0; auto e = guard([&] { old = int(S->rebase(size_t(n))); }); obs(J("rebase").f("n", n).f("old", old), e);
            } else if (op < 17) {
                if (saved.size() < 4) { int i = r.p(50) ? r(size + 1) : (size ? -1 - r(size) : 0); saved.push_back(int(S->base())); obs(J("pushbase").f("i", i), guard([&] { S->push_base(i); })); }
            } else if (op < 18) { if (!saved.empty() || r.p(20)) { if (!saved.empty()) saved.pop_back(); obs(J("popbase"), guard([&] { S->pop_base(); })); }
            } else if (op < 19) { if (size) { int i = r.p(50) ? r(size) : -1 - r(size), v = 1000 + next++;
                    auto e = guard([&] { Tensor *t = S->index(i); for (int x = 0; x < t->count(); ++x) t->data<int32_t>()[x] = v; });
                    obs(J("write").f("i", i).f("v", v), e); }
            } else { if (size) { int i = r.p(50) ? r(size) : -1 - r(size), j = r.p(50) ? r(size) : -1 - r(size);
                    // the exchange the swap instruction performs
                    obs(J("swap").f("i", i).f("j", j), guard([&] { std::swap(*S->index(i), *S->index(j)); })); }
            }
        }
        S = nullptr;
    }
    return 0;
}
