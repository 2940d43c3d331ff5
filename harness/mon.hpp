// Monitoring runtime shared by every driver: deterministic workload randomness, the event
// counters and distinct-state sets that go to the evidence, the witness trace that survives a
// crash, and the record of violations.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mon {
using u64 = std::uint64_t;

inline u64 mix(u64 x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed) {}
    u64 next() {
        s += 0x9E3779B97F4A7C15ull;
        u64 x = s;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }
    // [0, n)
    u64 below(u64 n) { return n ? next() % n : 0; }
    long range(long lo, long hi) { return lo + (long)below((u64)(hi - lo + 1)); }
    bool chance(unsigned pct) { return below(100) < pct; }
    double real() { return (double)(next() >> 11) / 9007199254740992.0; }
    double real(double lo, double hi) { return lo + (hi - lo) * real(); }
};

struct Violation {
    std::string key, detail, trace;
    long index;
    std::string group;
};

struct State {
    u64 seed = 1;
    long cases = 100;       // budget multiplier given by the runner
    long only = -1;         // replay a single case
    std::string only_group; // replay a single group
    std::string out;
    std::string prop;       // the property this run decides
    char* live = nullptr;   // mmap'ed witness: survives a crash of this process
    size_t live_size = 1 << 16;
    size_t live_pos = 0;
    std::string group;
    u64 group_hash = 0;
    long index = -1;
    std::vector<Violation> violations;
    std::map<std::string, long> counters;
    std::unordered_set<u64> distinct;
    std::vector<std::string> samples;
    long evaluations = 0;
    bool sampling = false;
    std::string sample_buf;
};
inline State& st() {
    static State s;
    return s;
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

inline void count(const char* what, long n = 1) { st().counters[what] += n; }


inline u64 hash_str(const char* s) {
    u64 h = 1469598103934665603ull;
    for(; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
    return h;
}
inline u64 hash2(u64 a, u64 b) { return mix(a * 0x9E3779B97F4A7C15ull + b); }

// One more operation was executed and judged.
inline void judged(long n = 1) { st().evaluations += n; }

// Records a distinct, non-trivial state of the system under test (within the group).
inline void seen(u64 h) { st().distinct.insert(hash2(h, st().group_hash)); }

// Appends to the witness of the current case.
inline void note(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char* f, ...) {
    State& s = st();
    if(!s.live) return;
    char buf[512];
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    if(n < 0) return;
    if(n >= (int)sizeof buf) n = sizeof buf - 1;
    if(s.live_pos + n + 2 >= s.live_size) {
        // keep the head (which case) and the most recent half of the trace
        char* head_end = (char*)memchr(s.live, '\n', s.live_pos);
        size_t head    = head_end ? head_end - s.live + 1 : 0;
        size_t keep    = (s.live_size - head) / 2;
        memmove(s.live + head, s.live + s.live_pos - keep, keep);
        s.live_pos = head + keep;
        memset(s.live + s.live_pos, 0, s.live_size - s.live_pos);
    }
    memcpy(s.live + s.live_pos, buf, n);
    s.live_pos += n;
    s.live[s.live_pos] = 0;
}

inline std::string trace() {
    State& s = st();
    return s.live ? std::string(s.live, s.live_pos) : std::string();
}

inline void violation(const std::string& key, const std::string& detail) {
    State& s = st();
    if(s.violations.size() >= 40) return;
    for(auto& v : s.violations)
        if(v.key == key && v.group == s.group) { count("violations_repeated"); return; }
    s.violations.push_back({key, detail, trace(), s.index, s.group});
}

// Checks a condition of the property. The key identifies the kind of violation.
#define MON_CHECK(cond, key, ...) ((cond) ? (void)0 : ::mon::violation((key), ::mon::fmt(__VA_ARGS__)))

inline bool prop(const char* id) { return st().prop == id; }

inline bool case_failed_since(size_t n) { return st().violations.size() > n; }

inline std::string json(const std::string& in) {
    std::string o = "\"";
    for(unsigned char c : in) {
        switch(c) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\t': o += "\\t"; break;
        default:
            if(c < 32 || c > 126) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            }
            else o += (char)c;
        }
    }
    return o + "\"";
}

inline void init(int argc, char** argv) {
    State& s = st();
    std::string live;
    for(int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if(a == "--seed") s.seed = strtoull(v.c_str(), nullptr, 10);
        else if(a == "--cases") s.cases = atol(v.c_str());
        else if(a == "--case") s.only = atol(v.c_str());
        else if(a == "--group") s.only_group = v;
        else if(a == "--out") s.out = v;
        else if(a == "--prop") s.prop = v;
        else if(a == "--live") live = v;
    }
    if(!live.empty()) {
        int fd = open(live.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if(fd >= 0 && ftruncate(fd, s.live_size) == 0) {
            void* p = mmap(nullptr, s.live_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if(p != MAP_FAILED) s.live = (char*)p;
        }
        if(fd >= 0) close(fd);
    }
}

inline const char* arg(int argc, char** argv, const char* name, const char* def) {
    for(int i = 1; i + 1 < argc; i += 2)
        if(!strcmp(argv[i], name)) return argv[i + 1];
    return def;
}

// Runs `n` cases of the group (a subject plus a mode): fn(rng, index).
template<typename Fn>
void cases(const char* group, long n, Fn&& fn) {
    State& s = st();
    if(!s.only_group.empty() && s.only_group != group) return;
    s.group      = group;
    s.group_hash = hash_str(group);
    long from = 0, to = n;
    if(s.only >= 0) {
        from = s.only;
        to   = s.only + 1;
    }
    for(long i = from; i < to; ++i) {
        s.index = i;
        if(s.live) {
            s.live_pos = 0;
            s.live[0]  = 0;
            note("group=%s case=%ld\n", group, i);
        }
        Rng r(mix(s.seed * 1000003ull + hash_str(group)) ^ mix((u64)i + 1));
        size_t before = s.violations.size();
        long judged_before = s.evaluations;
        fn(r, i);
        count("cases");
        if(s.evaluations == judged_before) ++s.evaluations;
        if(s.samples.size() < 3 && i == (n > 4 ? 3 : 0)) s.samples.push_back(trace().substr(0, 1500));
        if(s.violations.size() > before && s.violations.size() >= 5) return;
    }
}

inline int finish(bool destructors = false) {
    State& s = st();
    if(!s.out.empty()) {
        FILE* f = fopen(s.out.c_str(), "w");
        if(!f) return 3;
        fprintf(f, "{\"evaluations\":%ld,\"distinct\":%zu,\n\"counters\":{", s.evaluations, s.distinct.size());
        bool first = true;
        for(auto& [k, v] : s.counters) {
            fprintf(f, "%s%s:%ld", first ? "" : ",", json(k).c_str(), v);
            first = false;
        }
        fprintf(f, "},\n\"samples\":[");
        first = true;
        for(auto& v : s.samples) {
            fprintf(f, "%s%s", first ? "" : ",", json(v).c_str());
            first = false;
        }
        fprintf(f, "],\n\"violations\":[");
        first = true;
        for(auto& v : s.violations) {
            fprintf(f, "%s{\"key\":%s,\"detail\":%s,\"trace\":%s,\"group\":%s,\"case\":%ld}",
                    first ? "" : ",\n", json(v.key).c_str(), json(v.detail).c_str(),
                    json(v.trace).c_str(), json(v.group).c_str(), v.index);
            first = false;
        }
        fprintf(f, "]}\n");
        fclose(f);
        f = fopen((s.out + ".distinct").c_str(), "w");
        if(!f) return 3;
        std::vector<u64> all(s.distinct.begin(), s.distinct.end());
        fwrite(all.data(), sizeof(u64), all.size(), f);
        fclose(f);
    }
    fflush(stdout);
    if(destructors) exit(s.violations.empty() ? 0 : 10);
    _exit(s.violations.empty() ? 0 : 10);
}

// Runs fn in a child process and tells if it was stopped by an assertion (SIGABRT) or otherwise
// ended abnormally. Returns 0: returned normally, 1: stopped.
template<typename Fn>
int dies(Fn&& fn) {
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if(pid == 0) {
        int fd = open("/dev/null", O_WRONLY);
        if(fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
        fn();
        _exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    return WIFEXITED(status) && WEXITSTATUS(status) == 0 ? 0 : 1;
}

//! Whether a child process that runs fn is stopped deliberately, by abort() or std::terminate.
//! A sanitizer's report or another signal doesn't count.
template<typename Fn>
bool traps(Fn&& fn) {
    fflush(stdout);
    fflush(stderr);
    int out[2];
    if(pipe(out) != 0) { perror("pipe"); exit(3); }
    pid_t pid = fork();
    if(pid < 0) { perror("fork"); exit(3); }
    if(pid == 0) {
        dup2(out[1], 2);
        int fd = open("/dev/null", O_WRONLY);
        if(fd >= 0) dup2(fd, 1);
        close(out[0]);
        close(out[1]);
        fn();
        _exit(0);
    }
    close(out[1]);
    std::string text;
    char buf[512];
    for(ssize_t k; (k = read(out[0], buf, sizeof buf)) > 0;)
        if(text.size() < 65536) text.append(buf, (size_t)k);
    close(out[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    return WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT && text.find("Sanitizer") == std::string::npos && text.find("runtime error") == std::string::npos;
}
}  // namespace mon
