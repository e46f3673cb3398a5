// A device type of our own whose storage we see: every request to it is recorded.
#ifndef VF_FAKEDEV_H
#define VF_FAKEDEV_H
#include "vf.h"
#include <map>
#include <cstring>
#include <unistd.h>
#include "core/device.h"
#include "global/hard_allocator.h"
#include "global/hard_converter.h"
#include "global/memory_device.h"
namespace vf {
    struct FakeDev {
        struct B { int id; size_t n; int dev; };
        std::map<void *, B> live;
        std::vector<Raw> log;              // requests since the last take()
        int next = 1, fail = 0, slow = 0;   // slow: microseconds a request for storage takes
        bool quiet = false;
        std::recursive_mutex m;            // requests may come from several threads
        typedef std::lock_guard<std::recursive_mutex> L;
        void add(const std::string &s) { L _(m); if (!quiet) log.push_back(Raw{s}); }
        std::vector<Raw> take() { std::vector<Raw> r; r.swap(log); return r; }
        // the block a pointer lies in, 0 if none
        int block(const void *p) const {
            for (auto &x : live) { auto b = static_cast<char *>(x.first); auto c = static_cast<const char *>(p); if (c >= b && c < b + std::max<size_t>(x.second.n, 1)) return x.second.id; }
            return 0;
        }
        size_t offset(const void *p) const {
            for (auto &x : live) { auto b = static_cast<char *>(x.first); auto c = static_cast<const char *>(p); if (c >= b && c < b + std::max<size_t>(x.second.n, 1)) return size_t(c - b); }
            return 0;
        }
        size_t held(int dev = -1) const { size_t s = 0; for (auto &x : live) if (dev < 0 || x.second.dev == dev) s += x.second.n; return s; }
        void *get(int dev, size_t n) {
            if (slow) usleep(useconds_t(slow));
            L _(m);
            if (fail > 0 && --fail == 0) throw ts::OutOfMemoryException(ts::MemoryDevice("fake", dev), n);
            void *p = std::malloc(n + 16); std::memset(p, 0xEE, n + 16);
            int id = next++; live[p] = B{id, n, dev};
            add("{\"k\":\"a\",\"b\":" + std::to_string(id) + ",\"n\":" + std::to_string(n) + ",\"d\":" + std::to_string(dev) + "}");
            return p;
        }
        void put(int dev, void *p) {
            if (p == nullptr) return;
            L _(m);
            auto it = live.find(p);
            if (it == live.end()) { add("{\"k\":\"bad\",\"b\":0,\"n\":0,\"d\":" + std::to_string(dev) + "}"); return; }
            bool spoilt = false; for (int i = 0; i < 16; ++i) if (static_cast<unsigned char *>(p)[it->second.n + i] != 0xEE) spoilt = true;
            add("{\"k\":\"" + std::string(spoilt ? "spoilt" : it->second.dev == dev ? "f" : "baddev") + "\",\"b\":" + std::to_string(it->second.id) + ",\"n\":" + std::to_string(it->second.n) + ",\"d\":" + std::to_string(dev) + "}");
            live.erase(it); std::free(p);
        }
    };
    inline FakeDev &fake() { static FakeDev f; return f; }
    inline void *fake_malloc(int id, size_t n) { return fake().get(id, n); }
    inline void fake_free(int id, void *p) { fake().put(id, p); }
    inline void *fake_realloc(int id, size_t n, void *p, size_t m) {
        void *q = fake().get(id, n); std::memcpy(q, p, std::min(n, m)); fake().put(id, p); return q;
    }
    inline void fake_copy(const char *, int dd, void *d, const char *, int sd, const void *s, size_t n) { std::memcpy(d, s, n); }
    inline void install_fake() {
        using namespace ts;
        HardAllocator::RegisterV3("fake", fake_malloc, fake_free, fake_realloc);
        auto conv = [](bool fd, bool fs) {
            return [=](int dd, void *d, int sd, const void *s, size_t n) {
                auto name = [](bool f, int i) { return f ? i + 1 : 0; };
                fake().add("{\"k\":\"c\",\"b\":" + std::to_string(name(fd, dd)) + ",\"n\":" + std::to_string(n) + ",\"d\":" + std::to_string(name(fs, sd)) + "}");
                std::memcpy(d, s, n);
            };
        };
        HardConverter::Register("fake", "fake", conv(true, true));
        HardConverter::Register("fake", CPU, conv(true, false));
        HardConverter::Register(CPU, "fake", conv(false, true));
        ComputingMemory::Register("fake", "fake");
    }
}
#endif
