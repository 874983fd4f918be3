// Monitor runtime shared by all harnesses: reporting protocol, seeded generator, watchdog.
//
// Lines on stdout (tab separated):
//   V <site> <detail>     an observed violation
//   C <counter> <n>       an observed count
//   X <text>              a sample of what was observed
//   T <fields...>         a trace event, judged by the offline oracle
//   D                     the harness ran to its end
#ifndef VERIF_HARNESS_VF_HPP
#define VERIF_HARNESS_VF_HPP

#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <sys/time.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(memory_sanitizer)
#define VF_HAS_SAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define VF_HAS_SAN 1
#endif
#ifdef VF_HAS_SAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace vf {
    inline char cur_op[4096];
    inline unsigned cur_budget_s = 20;

    // name the operation about to run: reported if it crashes or does not come back
    inline void at(const std::string &s) {
        std::size_t n = s.size() < sizeof cur_op - 1 ? s.size() : sizeof cur_op - 1;
        std::memcpy(cur_op, s.data(), n);
        cur_op[n] = 0;
    }

    inline void raw(const char *s) {
        (void)!::write(1, s, std::strlen(s));
    }
    inline void on_death() {
        std::fflush(stdout);
        raw("V\tcrash\t");
        raw(cur_op);
        raw("\n");
    }
    inline void on_sig(int sig) {
        raw(sig == SIGPROF || sig == SIGXCPU ? "\nV\thang\t" : "\nV\tcrash\t");
        raw(cur_op);
        raw("\n");
        _exit(3);
    }
    // CPU-time budget for one named operation; re-armed by each call
    inline void arm(unsigned seconds) {
        itimerval t {};
        t.it_value.tv_sec = std::getenv("VF_SLOW") ? seconds * 100l : seconds;    // under a tool that slows everything down
        setitimer(ITIMER_PROF, &t, nullptr);
    }

    struct counters {
        std::map<std::string, unsigned long long> c;
        std::map<std::string, unsigned long long> viol;
        std::unordered_set<std::uint64_t> distinct;
        unsigned long long samples = 0;
    };
    inline counters &st() {
        static counters *s = new counters;    // reachable for the process's lifetime
        return *s;
    }

    inline std::uint64_t mix(std::uint64_t x) {
        x ^= x >> 30;
        x *= 0xbf58476d1ce4e5b9ull;
        x ^= x >> 27;
        x *= 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
    struct rng {
        typedef std::uint64_t result_type;
        std::uint64_t s;
        explicit rng(std::uint64_t seed) : s(mix(seed + 0x9e3779b97f4a7c15ull)) {}
        std::uint64_t operator()() {
            return mix(s += 0x9e3779b97f4a7c15ull);
        }
        static constexpr std::uint64_t min() {
            return 0;
        }
        static constexpr std::uint64_t max() {
            return ~std::uint64_t(0);
        }
        std::uint64_t below(std::uint64_t n) {
            return (*this)() % n;
        }
        long range(long lo, long hi) {    // inclusive
            return lo + (long)below((std::uint64_t)(hi - lo + 1));
        }
        double unit() {
            return ((*this)() >> 11) * (1.0 / 9007199254740992.0);
        }
    };
    inline std::uint64_t seed() {
        const char *e = std::getenv("VERIF_SEED");
        return e && *e ? std::strtoull(e, nullptr, 10) : 1;
    }
    inline bool thorough() {
        const char *e = std::getenv("VERIF_TIER");
        return e && std::string(e) == "thorough";
    }
    // case count for the tier
    inline std::size_t n(std::size_t quick, std::size_t deep) {
        return thorough() ? deep : quick;
    }

    inline void violation(const std::string &site, const std::string &detail) {
        if (st().viol[site]++ < 8) {
            std::printf("V\t%s\t%s\n", site.c_str(), detail.substr(0, 2000).c_str());
            std::fflush(stdout);
        }
    }
    inline void count(const std::string &c, unsigned long long k = 1) {
        st().c[c] += k;
    }
    inline void sample(const std::string &s) {
        if (st().samples++ < 6) {
            std::printf("X\t%s\n", s.c_str());
        }
    }
    // one judged observation; key identifies the case, nontrivial by the harness's rule
    inline void seen(std::uint64_t key, bool nontrivial = true) {
        ++st().c["evaluations"];
        if (nontrivial) {
            if (st().distinct.size() < 4000000) {
                st().distinct.insert(key);
            }
        }
    }
    inline std::uint64_t key(std::uint64_t a, std::uint64_t b = 0, std::uint64_t c = 0, std::uint64_t d = 0) {
        return mix(a * 0x9e3779b97f4a7c15ull + mix(b * 0xc2b2ae3d27d4eb4full + mix(c * 0x165667b19e3779f9ull + mix(d + 1))));
    }
    inline std::uint64_t hash(const std::string &s) {
        std::uint64_t h = 1469598103934665603ull;
        for (unsigned char ch : s) {
            h = (h ^ ch) * 1099511628211ull;
        }
        return mix(h);
    }
    // judge one observation
    template<class F>
    inline bool check(bool ok, const char *site, std::uint64_t k, bool nontrivial, F &&describe) {
        seen(mix(k ^ hash(site)), nontrivial);
        ++st().c[std::string("op:") + site];
        if (!ok) {
            violation(site, describe());
        }
        return ok;
    }
    // several tasks may be packed in one translation unit
    typedef void (*body)();
    inline int run(const char *name, body b) {
        std::signal(SIGPROF, on_sig);
        std::signal(SIGXCPU, on_sig);
        std::signal(SIGABRT, on_sig);
#ifdef VF_HAS_SAN
        __sanitizer_set_death_callback(on_death);
#else
        std::signal(SIGSEGV, on_sig);
        std::signal(SIGFPE, on_sig);
        std::signal(SIGBUS, on_sig);
        std::signal(SIGILL, on_sig);
#endif
        static char buf[1 << 16];
        setvbuf(stdout, buf, _IOFBF, sizeof buf);
        at(name);
        try {
            b();
        } catch (const char *e) {
            violation("unexpected-exception", std::string(cur_op) + ": " + e);
        } catch (const std::exception &e) {
            violation("unexpected-exception", std::string(cur_op) + ": " + e.what());
        } catch (...) {
            violation("unexpected-exception", cur_op);
        }
        arm(0);
        for (auto &kv : st().c) {
            std::printf("C\t%s\t%llu\n", kv.first.c_str(), kv.second);
        }
        std::printf("C\tdistinct_nontrivial\t%zu\n", st().distinct.size());
        for (auto &kv : st().viol) {
            std::printf("C\tviolations:%s\t%llu\n", kv.first.c_str(), kv.second);
        }
        std::printf("D\n");
        std::fflush(stdout);
        return 0;
    }

    template<class T>
    std::string str(const T &v) {
        std::ostringstream o;
        o.precision(17);
        o << v;
        return o.str();
    }
    template<class A, class... R>
    std::string cat(const A &a, const R &...r) {
        std::ostringstream o;
        o.precision(17);
        o << a;
        ((o << ' ' << r), ...);
        return o.str();
    }
}    // namespace vf

#define VF_MAIN(name)                                                                                                \
    static void vf_body();                                                                                           \
    int main() {                                                                                                     \
        return vf::run(name, vf_body);                                                                               \
    }                                                                                                                \
    static void vf_body()

#endif
