// A small JSON reader.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <utility>
#include <vector>

struct J {
    enum T { NUL, NUM, STR, ARR, OBJ } t = NUL;
    long n = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;
    const J* find(const char* k) const {
        for (auto& e : o)
            if (e.first == k) return &e.second;
        return nullptr;
    }
    bool has(const char* k) const { return find(k) != nullptr; }
    const J& at(const char* k) const {
        auto p = find(k);
        if (!p) {
            fprintf(stderr, "missing key %s\n", k);
            exit(3);
        }
        return *p;
    }
    long num(const char* k, long d = 0) const {
        auto p = find(k);
        return p ? p->n : d;
    }
    const std::string& str(const char* k) const {
        static const std::string empty;
        auto p = find(k);
        return p ? p->s : empty;
    }
};

inline const char* jparse(const char* p, J& j) {
    auto ws = [&] { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p; };
    auto str = [&](std::string& out) {
        ++p;
        while (*p && *p != '"') {
            if (*p == '\\') ++p;
            out += *p++;
        }
        ++p;
    };
    ws();
    if (*p == '{') {
        j.t = J::OBJ;
        ++p;
        ws();
        while (*p != '}') {
            std::string k;
            ws();
            str(k);
            ws();
            ++p; // :
            J v;
            p = jparse(p, v);
            j.o.emplace_back(std::move(k), std::move(v));
            ws();
            if (*p == ',') ++p;
            ws();
        }
        ++p;
    } else if (*p == '[') {
        j.t = J::ARR;
        ++p;
        ws();
        while (*p != ']') {
            J v;
            p = jparse(p, v);
            j.a.push_back(std::move(v));
            ws();
            if (*p == ',') ++p;
            ws();
        }
        ++p;
    } else if (*p == '"') {
        j.t = J::STR;
        str(j.s);
    } else if (!strncmp(p, "true", 4)) {
        j.t = J::NUM;
        j.n = 1;
        p += 4;
    } else if (!strncmp(p, "false", 5)) {
        j.t = J::NUM;
        p += 5;
    } else if (!strncmp(p, "null", 4)) {
        p += 4;
    } else {
        j.t = J::NUM;
        char* e;
        j.n = strtol(p, &e, 10);
        p = e;
    }
    return p;
}
