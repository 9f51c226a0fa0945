// Minimal explicit-state exploration harness: counters, violation reports, watchdog, result file.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

namespace mc {
    struct Space {
        std::uint64_t states = 0, transitions = 0;
    };
    struct Violation {
        std::string key, desc;
    };
    inline std::uint64_t states = 0, transitions = 0, traces = 0;
    inline std::map<std::string, Space> spaces;
    inline std::vector<Violation> violations;
    inline std::set<std::string> keys;
    inline std::vector<std::string> samples;
    inline std::string out_path, part_name;
    inline bool thorough = false;
    inline std::uint64_t seed = 1;
    inline const char *cur_op = "(start)";
    inline std::string cur_args;
    inline std::atomic<std::uint64_t> beat {0};
    inline std::atomic<bool> enough {false};    // a violation was found a while ago: stop exploring and report
    inline std::atomic<std::uint64_t> violation_count {0};
    inline int hang_limit_s = 60;
    inline unsigned shard = 0, shards = 1;    // this process explores states with index % shards == shard
    inline std::uint64_t shard_counter = 0;
    inline bool mine() { return shard_counter++ % shards == shard; }

    inline std::string esc(const std::string &s) {
        std::string r;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
            else if (c == '\n') r += "\\n";
            else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += char(c);
        }
        return r;
    }

    inline void write_result(bool complete) {
        // without a result file the report goes to the standard output; nothing under /dev is ever created or replaced
        const bool file = !out_path.empty();
        std::string tmp = out_path + ".tmp";
        FILE *f = file ? std::fopen(tmp.c_str(), "w") : stdout;
        if (!f) { std::perror("result file"); std::_Exit(3); }
        std::fprintf(f, "{\"part\":\"%s\",\"complete\":%s,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"violation_count\":%llu,\n",
                     esc(part_name).c_str(), complete ? "true" : "false", (unsigned long long)states,
                     (unsigned long long)transitions, (unsigned long long)traces, (unsigned long long)violation_count.load());
        std::fprintf(f, "\"spaces\":{");
        bool first = true;
        for (auto &s : spaces) {
            std::fprintf(f, "%s\"%s\":{\"states\":%llu,\"transitions\":%llu}", first ? "" : ",\n", esc(s.first).c_str(),
                         (unsigned long long)s.second.states, (unsigned long long)s.second.transitions);
            first = false;
        }
        std::fprintf(f, "},\n\"samples\":[");
        first = true;
        for (auto &s : samples) { std::fprintf(f, "%s\"%s\"", first ? "" : ",\n", esc(s).c_str()); first = false; }
        std::fprintf(f, "],\n\"violations\":[");
        first = true;
        for (auto &v : violations) {
            std::fprintf(f, "%s{\"key\":\"%s\",\"desc\":\"%s\"}", first ? "" : ",\n", esc(v.key).c_str(), esc(v.desc).c_str());
            first = false;
        }
        std::fprintf(f, "]}\n");
        std::fflush(f);
        if (file) {
            std::fclose(f);
            std::rename(tmp.c_str(), out_path.c_str());
        }
    }

    inline void violation(const std::string &key, const std::string &desc) {
        ++violation_count;
        if (violations.size() < 200 && keys.insert(key).second) {
            violations.push_back({key, desc});
            if (violations.size() == 1 && !out_path.empty()) write_result(false);    // so that it is reported even if the rest of the exploration is cut off
        }
    }

    inline void sample(const std::string &s) {
        if (samples.size() < 6) samples.push_back(s);
    }

    inline void state(std::uint64_t n = 1) { states += n; }
    inline void trace(std::uint64_t n = 1) { traces += n; }

    // one (state, operation) pair executed on the implementation
    inline void step(const char *op) {
        cur_op = op;
        ++transitions;
        beat.store(transitions, std::memory_order_relaxed);
        if (enough.load(std::memory_order_relaxed)) { write_result(false); std::_Exit(1); }
    }

    template<typename T>
    inline void cat1(std::ostringstream &o, const T &t) { o << t; }
    template<typename... A>
    inline std::string str(const A &...a) {
        std::ostringstream o;
        o.precision(17);
        (cat1(o, a), ...);
        return o.str();
    }

    struct ScopedSpace {
        std::string name;
        std::uint64_t s0, t0;
        explicit ScopedSpace(std::string n) : name(std::move(n)), s0(states), t0(transitions) { }
        ~ScopedSpace() {
            spaces[name].states += states - s0;
            spaces[name].transitions += transitions - t0;
        }
    };

    inline void init(int argc, char **argv, const char *part) {
        part_name = part;
        out_path.clear();
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string k = argv[i];
            if (k == "--out" && std::strncmp(argv[i + 1], "/dev/", 5) != 0) out_path = argv[i + 1];
            if (k == "--tier") thorough = std::string(argv[i + 1]) == "thorough";
            if (k == "--shard") shard = unsigned(std::atoi(argv[i + 1]));
            if (k == "--shards") shards = unsigned(std::atoi(argv[i + 1]));
            if (k == "--seed") seed = std::strtoull(argv[i + 1], nullptr, 10);
        }
        std::thread([] {
            std::uint64_t last = ~0ull;
            int idle = 0, since = 0;
            for (;;) {
                std::this_thread::sleep_for(std::chrono::seconds(1));
                if (violation_count.load() && ++since >= 120) enough.store(true);
                std::uint64_t b = beat.load(std::memory_order_relaxed);
                if (b != last) { last = b; idle = 0; }
                else if (++idle >= hang_limit_s) {
                    violation(std::string("hang:") + cur_op,
                              std::string("no progress for ") + std::to_string(hang_limit_s) + " s in operation " + cur_op + " " + cur_args);
                    write_result(false);
                    std::_Exit(1);
                }
            }
        }).detach();
    }
    inline int finish() {
        write_result(true);
        return violations.empty() ? 0 : 1;
    }
}    // namespace mc

// compare an implementation result with the model's prediction
#define MC_CHECK(cond, key, ...)                                  \
    do {                                                          \
        if (!(cond)) ::mc::violation((key), ::mc::str(__VA_ARGS__)); \
    } while (0)

#endif
