// Histories of sequential parts: every line of a file written by TLC is a state of a specification with the
// path that leads to it, what is to be seen in it and what every operation does in it. A line is replayed
// on the real code; what differs is written to OUT as {"line":..,"op":..,"what":".."}.
#pragma once
#include "json.h"
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <string>
#include <sys/mman.h>
#include <unistd.h>

struct Seq {
    FILE* out = nullptr;
    long* pos = nullptr; // where we are, for whoever finds the corpse
    long line = 0, op = -1, checks = 0, bad = 0;
    void at(long l, long o) { pos[0] = line = l; pos[1] = op = o; }
    void fail(const std::string& what) {
        if (++bad > 200) return;
        fprintf(out, "{\"line\":%ld,\"op\":%ld,\"what\":\"%s\"}\n", line, op, what.c_str());
        fflush(out);
    }
    bool same(const char* what, const std::string& is, const std::string& should) {
        ++checks;
        if (is == should) return true;
        fail(std::string(what) + " is " + is + ", expected " + should);
        return false;
    }
    bool same(const char* what, long is, long should) {
        ++checks;
        if (is == should) return true;
        fail(std::string(what) + " is " + std::to_string(is) + ", expected " + std::to_string(should));
        return false;
    }
};
inline Seq S;

inline std::string text(const std::vector<long>& v) {
    std::string r;
    for (auto x : v) r += (r.empty() ? "" : " ") + std::to_string(x);
    return r;
}
inline std::vector<long> nums(const J& j) {
    std::vector<long> r;
    for (auto& x : j.a) r.push_back(x.n);
    return r;
}

// usage: seq MODE FILE OUT shard nshards [line [op]]
struct Mode { const char* name; void (*run)(const J& state, long only); };

inline int seq_main(int argc, char** argv, const std::vector<Mode>& modes) {
    if (argc < 6) return 3;
    const Mode* m = nullptr;
    for (auto& x : modes) if (!strcmp(x.name, argv[1])) m = &x;
    std::ifstream in(argv[2]);
    S.out = fopen(argv[3], "w");
    if (!m || !in || !S.out) return 3;
    int fd = open((std::string(argv[3]) + ".pos").c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, 16)) return 3;
    S.pos = (long*)mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    int shard = atoi(argv[4]), nsh = atoi(argv[5]);
    long only = argc > 6 ? atol(argv[6]) : -1, oop = argc > 7 ? atol(argv[7]) : -2, n = 0, done = 0;
    std::string l;
    while (std::getline(in, l)) {
        if (n++ % nsh != shard) continue;
        if (only >= 0 && n - 1 != only) continue;
        J j;
        jparse(l.c_str(), j);
        alarm(60);
        S.at(n - 1, -1);
        m->run(j, oop);
        ++done;
    }
    alarm(0);
    S.at(-1, -1);
    fprintf(S.out, "{\"line\":-1,\"states\":%ld,\"checks\":%ld,\"bad\":%ld}\n", done, S.checks, S.bad);
    fclose(S.out);
    return 0;
}
