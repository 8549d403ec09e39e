// The exploration loop shared by the harnesses.
#pragma once
#include <sys/personality.h>
#include <unistd.h>
#include "../vs/vsched.h"
#include "json.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

// usage: harness explore PROGRAMS OUT SEED RUNS_PER_PROGRAM SECONDS [shard nshards]
//        harness replay PROGRAMS OUT            (each program carries "sched")
// Each line of OUT: {"p":<program id>,"sched":{...},"n":<count>,"ev":[...]}; identical traces of
// one program are written once.
inline uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

inline vs::options pick_options(uint64_t seed, unsigned cores, int lvl) {
    vs::options o;
    uint64_t r = mix(seed, 77);
    o.seed = seed & 0x7fffffff;
    o.cores = cores;
    int m = r % 10;
    r >>= 8;
    if (m < 6) {
        o.strat = vs::RANDOM;
        static const int dens[] = {2, 3, 5, 8, 16, 40};
        o.switch_den = dens[r % 6];
    } else {
        o.strat = vs::PCT;
        o.pct_depth = 1 + r % 5;
        static const int lens[] = {100, 200, 400, 800};
        o.pct_len = lens[(r >> 4) % 4];
    }
    r >>= 12;
    if (r % 3 == 0) o.plain_den = 4 + (r >> 3) % 30;
    if ((r >> 9) % 2 == 0) o.park_den = 2 + (r >> 5) % 8;
    r >>= 12;
    if (r % 5 == 0) o.spurious_den = 20;
    r >>= 4;
    if (lvl > 0 && r % 4 == 0) o.early_den = 3;
    return o;
}
inline std::string opt_json(const vs::options& o) {
    char b[400];
    snprintf(b, sizeof b,
             "{\"seed\":%llu,\"strat\":%d,\"switch_den\":%d,\"pct_depth\":%d,\"pct_len\":%d,"
             "\"plain_den\":%d,\"park_den\":%d,\"spurious_den\":%d,\"early_den\":%d,\"cores\":%u}",
             (unsigned long long)o.seed, o.strat, o.switch_den, o.pct_depth, o.pct_len, o.plain_den, o.park_den,
             o.spurious_den, o.early_den, o.cores);
    return b;
}
inline vs::options opt_parse(const J& j) {
    vs::options o;
    o.seed = j.num("seed", 1);
    o.strat = j.num("strat");
    o.switch_den = j.num("switch_den", 4);
    o.pct_depth = j.num("pct_depth", 3);
    o.pct_len = j.num("pct_len", 400);
    o.plain_den = j.num("plain_den");
    o.park_den = j.num("park_den");
    o.spurious_den = j.num("spurious_den");
    o.early_den = j.num("early_den");
    o.cores = j.num("cores", 2);
    return o;
}

// the body of one execution: interprets program `p` in the child
using body_fn = void (*)(const J& p);

inline int mini_main(int argc, char** argv, body_fn body) {
    if (argc < 4) return 3;
    // the same addresses in every run: what is held back depends on them
    if (int now = personality(0xffffffff); now != -1 && !(now & ADDR_NO_RANDOMIZE) && !getenv("VS_ASLR"))
        if (personality(now | ADDR_NO_RANDOMIZE) != -1) {
            setenv("VS_ASLR", "1", 1);
            execv("/proc/self/exe", argv);
        }
    bool replay = !strcmp(argv[1], "replay");
    std::ifstream in(argv[2]);
    FILE* out = fopen(argv[3], "w");
    if (!in || !out) return 3;
    uint64_t seed = argc > 4 ? strtoull(argv[4], nullptr, 10) : 1;
    int runs = argc > 5 ? atoi(argv[5]) : 1;
    double secs = argc > 6 ? atof(argv[6]) : 1e9;
    int shard = argc > 8 ? atoi(argv[7]) : 0, nsh = argc > 8 ? atoi(argv[8]) : 1;
    std::vector<J> progs;
    std::string line;
    long ln = 0;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        if (ln++ % nsh != shard) continue;
        J j;
        jparse(line.c_str(), j);
        progs.push_back(std::move(j));
    }
    struct ctx { body_fn f; const J* p; };
    auto go = [](void* c) { ((ctx*)c)->f(*((ctx*)c)->p); };
    auto s = vs::shared();
    auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    long total = 0, distinct = 0, lost = 0;
    unsigned long long steps = 0;
    std::vector<std::unordered_map<uint64_t, long>> seen(progs.size());
    auto once = [&](size_t i, const vs::options& o) {
        ctx c{body, &progs[i]};
        vs::run_child(o, go, &c);
        ++total;
        steps += s->steps;
        if (s->overflow || s->status == 3) {
            ++lost; // no answer (killed, or the log was full): says nothing
            return;
        }
        std::string t(s->log, s->len);
        uint64_t hsh = std::hash<std::string>{}(t);
        if (seen[i][hsh]++ && !replay) return;
        ++distinct;
        fprintf(out, "{\"p\":%ld,\"sched\":%s,\"ev\":[%s]}\n", progs[i].num("id"), opt_json(o).c_str(), t.c_str());
    };
    if (replay) {
        for (size_t i = 0; i < progs.size(); ++i) once(i, opt_parse(progs[i].at("sched")));
    } else {
        bool stop = false;
        for (int k = 0; k < runs && !stop; ++k)
            for (size_t i = 0; i < progs.size(); ++i) {
                if (elapsed() > secs) {
                    stop = true;
                    break;
                }
                // programs may ask for fewer runs (a deterministic one needs one)
                long mx = progs[i].num("runs", runs);
                if (k >= mx) continue;
                unsigned cores = progs[i].num("cores", 2);
                auto o = pick_options(mix(mix(seed, progs[i].num("id")), k), cores, progs[i].num("early"));
                if (k == 0) { // the undisturbed schedule first
                    o = vs::options{};
                    o.cores = cores;
                    o.switch_den = 1000000;
                }
                once(i, o);
            }
    }
    fprintf(out, "{\"p\":-1,\"total\":%ld,\"distinct\":%ld,\"lost\":%ld,\"steps\":%llu,\"secs\":%d}\n", total,
            distinct, lost, steps, (int)elapsed());
    fclose(out);
    return 0;
}
