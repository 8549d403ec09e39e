// stlab::forest against Forest.tla
#include "seq.h"
#include <map>
#include <optional>
#include <set>
#include <stlab/forest.hpp>
#include <stlab/forest_algorithms.hpp>

namespace {
using namespace stlab;
struct V {
    int id;
    static inline long live = 0;
    V(int i) : id(i) { ++live; }
    V(const V& x) : id(x.id) { ++live; }
    V(V&& x) noexcept : id(x.id) { x.id = -77; ++live; }
    V& operator=(const V& x) = default;
    ~V() { id = -99; --live; }
    friend bool operator==(const V& a, const V& b) { return a.id == b.id; }
    friend bool operator!=(const V& a, const V& b) { return a.id != b.id; }
};
using Fo = forest<V>;
using It = Fo::iterator;

struct World {
    Fo f[3];
    std::map<long, It> node; // leading
    std::vector<long> w[3];
    It pos(int k, long c) {
        if (c < 2) return c ? f[k].root() : f[k].end();
        It i = node.at(c / 2);
        i.edge() = forest_edge(c % 2);
        return i;
    }
    long code(int k, const It& i) {
        if (i.equal_node(f[k].end())) return is_leading(i) ? 1 : 0;
        for (auto& n : node)
            if (n.second.equal_node(i)) return n.first * 2 + is_leading(i);
        return -1;
    }
    std::vector<It> steps(int k, bool& ok) {
        std::vector<It> r;
        It i = f[k].begin(), e = f[k].end();
        for (; i != e && r.size() < 100; ++i) r.push_back(i);
        ok = i == e;
        return r;
    }
    // forests are w1, w2 with the values val; unknown nodes get their names now
    bool compare(const std::vector<long>& w1, const std::vector<long>& w2, const std::vector<long>& val) {
        std::set<long> alive;
        for (auto* x : {&w1, &w2}) for (auto c : *x) alive.insert(c / 2);
        for (auto i = node.begin(); i != node.end();) alive.count(i->first) ? ++i : i = node.erase(i);
        if (!S.same("values alive", V::live, (long)alive.size())) return false;
        for (int k = 1; k <= 2; ++k) {
            auto& x = k == 1 ? w1 : w2;
            w[k] = x;
            bool ok;
            auto st = steps(k, ok);
            if (!ok || st.size() != x.size()) return S.fail("forest " + std::to_string(k) + " has another shape"), false;
            for (size_t p = 0; p < x.size(); ++p) {
                if (is_leading(st[p]) && !node.count(x[p] / 2)) {
                    for (auto& n : node) if (n.second.equal_node(st[p])) return S.fail("another node in place of a new one"), false;
                    node[x[p] / 2] = st[p];
                }
                if (!S.same("edge", code(k, st[p]), x[p])) return false;
                if (!S.same("value", (*st[p]).id, val[x[p] / 2 - 1])) return false;
            }
            It i = f[k].end();
            for (size_t p = x.size(); p-- > 0;)
                if (--i != st[p]) return S.fail("another way back"), false;
            if (--i != f[k].root()) return S.fail("does not begin at the root"), false;
            S.same("empty", f[k].empty(), x.empty());
        }
        return true;
    }
    bool sizes(long eq) {
        for (int k = 1; k <= 2; ++k) {
            if (f[k].size_valid() && !S.same("size", f[k].size(), w[k].size() / 2)) return false;
            if (!w[k].empty()) {
                auto& c = static_cast<const Fo&>(f[k]);
                S.same("front", &f[k].front() == &*f[k].begin() && &c.front() == &*f[k].begin(), 1);
                S.same("back", &f[k].back() == &*std::prev(f[k].end()) && &c.back() == &f[k].back(), 1);
            }
        }
        if (eq >= 0 && (!S.same("equal", f[1] == f[2], eq) || !S.same("unequal", f[1] != f[2], !eq))) return false;
        for (int k = 1; k <= 2; ++k)
            if (!S.same("size", f[k].size(), w[k].size() / 2)) return false;
        return true;
    }
    // what the operation returns, -1 if nothing
    long apply(const J& o) {
        const std::string& k = o.a[0].s;
        int a = o.a[1].n, b = o.a[3].n;
        long pc = o.a[2].n, ic = o.a[4].n, jc = o.a[5].n;
        Fo &A = f[a], &B = f[b];
        auto p = pos(a, pc), i = pos(b, ic), j = pos(b, jc);
        using CI = Fo::child_iterator;
        using CC = Fo::const_child_iterator;
        auto name = [&](It r) { // of a new node
            return r;
        };
        It r;
        bool has = true;
        if (k == "insert") r = A.insert(p, V(fresh()));
        else if (k == "push_front") { const V x(fresh()); A.push_front(x); has = false; }
        else if (k == "push_back") { const V x(fresh()); A.push_back(x); has = false; }
        else if (k == "cpush_front") { const V x(fresh()); child_adaptor<Fo>(A, p).push_front(x); has = false; }
        else if (k == "cpush_back") { const V x(fresh()); child_adaptor<Fo>(A, p).push_back(x); has = false; }
        else if (k == "cpop_front") { child_adaptor<Fo>(A, p).pop_front(); has = false; }
        else if (k == "cpop_back") { child_adaptor<Fo>(A, p).pop_back(); has = false; }
        else if (k == "insert_parent") r = A.insert_parent(CI(i), CI(j), V(fresh()));
        else if (k == "erase") r = A.erase(p);
        else if (k == "erase_range") r = A.erase(i, j);
        else if (k == "reverse") { A.reverse(CI(i), CI(j)); has = false; }
        else if (k == "pop_front") { A.pop_front(); has = false; }
        else if (k == "pop_back") { A.pop_back(); has = false; }
        else if (k == "clear") { A.clear(); has = false; }
        else if (k == "size") { S.same("size", A.size(), w[a].size() / 2); has = false; }
        else if (k == "splice_all") r = A.splice(p, B);
        else if (k == "splice_one") r = A.splice(p, B, i);
        else if (k == "splice_range") r = A.splice(p, B, CI(i), CI(j));
        else if (k == "splice_count") {
            size_t n = 0;
            for (It x = i; x != j; ++x) n += is_leading(x);
            r = A.splice(p, B, CI(i), CI(j), n);
        } else if (k == "copy_range") r = A.insert(p, CC(typename Fo::const_iterator(i)), CC(typename Fo::const_iterator(j)));
        else if (k == "copy") {
            for (auto c : w[a]) node.erase(c / 2);
            A = static_cast<const Fo&>(B);
            has = false;
        } else if (k == "move") {
            A = std::move(B);
            has = false;
        } else if (k == "swap") { A.swap(B); has = false; }
        else if (k == "move_self") {
            Fo t(std::move(A));
            S.same("moved from", A.empty(), 1);
            A = std::move(t);
            has = false;
        } else fprintf(stderr, "unknown %s\n", k.c_str()), exit(3);
        (void)name;
        if (has) ret = r;
        return has;
    }
    It ret;
    int fresh() {
        for (int i = 1;; ++i) {
            bool used = false;
            for (int k = 1; k <= 2; ++k) for (auto c : w[k]) used = used || c / 2 == i;
            if (!used) return i;
        }
    }
    void refresh(const std::vector<long>& w1, const std::vector<long>& w2) { // names of new nodes, unchecked
        w[1] = w1; w[2] = w2;
        std::set<long> alive;
        for (auto* x : {&w1, &w2}) for (auto c : *x) alive.insert(c / 2);
        for (auto i = node.begin(); i != node.end();) alive.count(i->first) ? ++i : i = node.erase(i);
        for (int k = 1; k <= 2; ++k) {
            bool ok;
            auto st = steps(k, ok);
            for (size_t p = 0; p < st.size() && p < w[k].size(); ++p)
                if (is_leading(st[p])) node[w[k][p] / 2] = st[p];
        }
    }
};

// path: [op, w1, w2] each
bool rebuild(World& x, const J& st) {
    for (auto& s : st.at("path").a) {
        x.apply(s.a[0]);
        x.refresh(nums(s.a[1]), nums(s.a[2]));
    }
    return x.compare(nums(st.at("w1")), nums(st.at("w2")), nums(st.at("val")));
}

void edit(const J& st, long only) {
    auto& ops = st.at("ops").a;
    for (size_t o = 0; o < ops.size(); ++o) {
        if (only >= -1 && (long)o != only) continue;
        S.at(S.line, o);
        {
            World x;
            if (!rebuild(x, st)) return;
            auto& r = ops[o];
            bool has = x.apply(r.a[0]);
            if (!x.compare(nums(r.a[2]), nums(r.a[3]), nums(r.a[4]))) continue;
            if (has) S.same("result", x.code(r.a[0].a[1].n, x.ret), r.a[1].n);
            x.sizes(r.a[5].n);
        }
        S.same("values left", V::live, 0);
    }
}

// ------------------------------------------------------------------------------------ D02
template <class I, class C>
void both(const char* what, I f, I l, const std::vector<long>& e, C code) {
    std::vector<long> v;
    I i = f;
    for (; i != l && v.size() < 200; ++i) v.push_back(code(i));
    S.same(what, text(v), text(e));
    if (v != e) return;
    v.clear();
    for (i = l; i != f && v.size() < 200;) { --i; v.insert(v.begin(), code(i)); }
    S.same((std::string(what) + " backwards").c_str(), text(v), text(e));
    v.clear();
    for (i = f; i != l && v.size() < 200; i++) v.push_back(code(i));
    S.same((std::string(what) + " i++").c_str(), text(v), text(e));
    v.clear();
    for (i = l; i != f && v.size() < 200;) { i--; v.insert(v.begin(), code(i)); }
    S.same((std::string(what) + " i--").c_str(), text(v), text(e));
    // to and fro
    i = f;
    for (size_t p = 0; p + 1 < e.size(); ++p) {
        ++i; --i;
        S.same((std::string(what) + " to and fro").c_str(), code(i), e[p]);
        ++i;
    }
}
std::vector<long> edges_of(const std::vector<long>& w, size_t i, size_t j, int e) {
    std::vector<long> r;
    for (; i < j; ++i) if (w[i] % 2 == e) r.push_back(w[i] / 2);
    return r;
}
template <class F> // F is Fo or const Fo
void look(World& x, int k, F& f, const J& see) {
    using I = decltype(f.begin());
    auto& w = x.w[k];
    auto id = [&](const I& i) -> long {
        for (auto& n : x.node) if (I(n.second).equal_node(i)) return n.first;
        return 0;
    };
    auto edge = [&](const auto& i) { return id(i.base()) * 2 + (i.edge() == forest_edge::leading); };
    auto full = [&](const I& i) { return id(i) * 2 + is_leading(i); };
    auto data = [&](const auto& i) { auto j = i; return id(i.base()) * 1000 + (*j).id; };
    auto val = [&](std::vector<long> v) { for (auto& n : v) { n = n * 1000 + (*x.node.at(n)).id; } return v; };
    std::vector<I> at;
    for (I i = f.begin(); i != f.end(); ++i) at.push_back(i);
    at.push_back(f.end());
    both("full order", f.begin(), f.end(), w, full);
    {
        auto r = preorder_range(f);
        both("preorder", r.begin(), r.end(), val(nums(see.at("pre"))), data);
        auto q = postorder_range(f);
        both("postorder", q.begin(), q.end(), val(nums(see.at("post"))), data);
    }
    for (size_t i = 0; i < at.size(); ++i)
        for (size_t j = i; j < at.size(); ++j) {
            using P = edge_iterator<I, forest_edge::leading>;
            using Q = edge_iterator<I, forest_edge::trailing>;
            both("preorder subrange", P(at[i]), P(at[j]), val(edges_of(w, i, j, 1)), data);
            both("postorder subrange", Q(at[i]), Q(at[j]), val(edges_of(w, i, j, 0)), data);
        }
    {
        auto r = depth_range(f);
        std::vector<long> e, d = nums(see.at("depth"));
        for (size_t p = 0; p < w.size(); ++p) e.push_back(w[p] * 100 + d[p]);
        both("depth", r.begin(), r.end(), e, [&](const auto& i) { return edge(i) * 100 + i.depth(); });
    }
    {
        auto r = reverse_fullorder_range(f);
        std::vector<long> e;
        for (size_t p = w.size(); p-- > 0;) e.push_back((w[p] ^ 1) * 1000 + (*x.node.at(w[p] / 2)).id);
        auto code = [&](const auto& i) { // base() is one behind
            auto b = i.base();
            --b;
            auto j = i;
            return (id(b) * 2 + (i.edge() == forest_edge::leading)) * 1000 + (*j).id;
        };
        both("reverse", r.begin(), r.end(), e, code);
        both("rbegin", f.rbegin(), f.rend(), e, code);
        for (size_t a = 0; a < at.size(); ++a)
            for (size_t b = a; b < at.size(); ++b) {
                using R = reverse_fullorder_iterator<I>;
                both("reverse subrange", R(at[b]), R(at[a]), std::vector<long>(e.begin() + (w.size() - b), e.begin() + (w.size() - a)), code);
                S.same("base", R(at[b]).base() == at[b], 1);
            }
    }
    for (auto& z : see.at("pruned").a) {
        std::set<long> in;
        for (auto& n : z.a[0].a) in.insert(n.n);
        std::function<bool(const V&)> pred = [&](const V& v) { for (auto& n : x.node) if (&*n.second == &v) return in.count(n.first) > 0; return false; };
        auto r = filter_fullorder_range(f, pred);
        std::vector<long> e = nums(z.a[1]);
        both("filtered", r.begin(), r.end(), e, edge);
    }
    auto par = nums(see.at("par"));
    for (size_t p = 0; p < w.size(); ++p) {
        I i = at[p];
        S.same("parent", id(find_parent(i)), par[p]);
        S.same("edge of the parent", is_trailing(find_parent(i)), 1);
        S.same("leading", is_leading(i) && is_leading(leading_of(i)) && !is_leading(trailing_of(i)), w[p] % 2);
        S.same("trailing", is_trailing(i) && is_trailing(trailing_of(i)) && !is_trailing(leading_of(i)), 1 - w[p] % 2);
        S.same("pivot", full(pivot_of(i)), w[p] ^ 1);
        S.same("of the same node", id(leading_of(i)) * 1000000 + id(trailing_of(i)) * 1000 + id(pivot_of(i)), w[p] / 2 * 1001001);
        auto fe = find_edge(i, forest_edge::trailing);
        size_t q = p;
        while (w[q] % 2) ++q;
        S.same("find_edge", full(fe), w[q]);
        auto fr = find_edge_reverse(i, forest_edge::leading);
        q = p;
        while (!(w[q] % 2)) --q;
        S.same("find_edge_reverse", full(fr), w[q]);
    }
    for (auto& z : see.at("kids").a) {
        long n = z.a[0].n;
        auto e = nums(z.a[1]);
        for (int lead = 0; lead < 2; ++lead) {
            I i = n ? I(x.node.at(n)) : I(f.root());
            i.edge() = forest_edge(lead);
            S.same("has children", has_children(i), !e.empty());
            auto r = child_range(i);
            both("children", r.begin(), r.end(), val(e), data);
            both("child_begin", child_begin(i), child_end(i), val(e), data);
            if constexpr (!std::is_const_v<F>) {
                using RC = typename F::reverse_child_iterator;
                std::vector<long> v;
                for (RC c(child_end(i)), l(child_begin(i)); c != l; ++c) v.insert(v.begin(), (*c).id);
                std::vector<long> ev;
                for (auto y : e) ev.push_back((*x.node.at(y)).id);
                S.same("children reversed", text(v), text(ev));
                if (!e.empty()) {
                    It it = i;
                    child_adaptor<F> ad(f, it);
                    S.same("front of children", ad.front().id, ev.front());
                    S.same("back of children", ad.back().id, ev.back());
                }
            }
        }
    }
}
void walk(const J& st, long) {
    World x;
    if (!rebuild(x, st)) return;
    for (int k = 1; k <= 2; ++k) {
        look(x, k, x.f[k], st.at("see").a[k - 1]);
        look(x, k, static_cast<const Fo&>(x.f[k]), st.at("see").a[k - 1]);
    }
}

// ------------------------------------------------------------------------------------ D03
std::vector<long> flat(const Fo& f) {
    std::vector<long> v;
    for (auto i = f.begin(); i != f.end() && v.size() < 200; ++i) v.push_back(is_leading(i) ? (*i).id : -1);
    return v;
}
void algo(const J& st, long) {
    {
    World x;
    if (!rebuild(x, st)) return;
    S.same("equal_shape", forests::equal_shape(x.f[1], x.f[2]), st.at("same").n);
    S.same("equal_shape reversed", forests::equal_shape(x.f[2], x.f[1]), st.at("same").n);
    for (int k = 1; k <= 2; ++k) {
        const Fo& f = x.f[k];
        auto e = nums(st.at("flat").a[k - 1]);
        std::vector<std::optional<V>> out;
        forests::flatten(f.begin(), f.end(), std::back_inserter(out));
        auto plain = [&](auto& o) { std::vector<long> v; for (auto& y : o) v.push_back(y ? y->id : -1); return v; };
        S.same("flatten", text(plain(out)), text(e));
        auto to = [&](const Fo& g, const char* what, std::vector<long> ex) {
            S.same(what, text(flat(g)), text(ex));
            S.same((std::string(what) + " size").c_str(), g.size(), std::count_if(ex.begin(), ex.end(), [](long z) { return z >= 0; }));
            // and backwards
            long n = 0;
            auto i = g.end();
            for (; i != g.begin() && n < 300; --i) ++n;
            S.same((std::string(what) + " back").c_str(), n, ex.size());
        };
        Fo g;
        forests::unflatten(out.begin(), out.end(), g);
        to(g, "unflatten", e);
        S.same("equal", g == f, 1);
        S.same("same shape", forests::equal_shape(g, f), 1);
        // in front of what is there
        Fo h(x.f[3 - k]);
        forests::unflatten(out.begin(), out.end(), h);
        auto e2 = e, o = nums(st.at("flat").a[2 - k]);
        e2.insert(e2.end(), o.begin(), o.end());
        to(h, "unflatten in front", e2);
        auto proj = [](const V& v) { return V(v.id * 10 + 3); };
        auto pe = nums(st.at("proj").a[k - 1]);
        Fo t, u, a, b, c;
        forests::transcribe(f, forests::transcriber(t), proj);
        to(t, "transcribe", pe);
        S.same("transcribed shape", forests::equal_shape(t, f) && forests::equal_shape(f, t), 1);
        forests::transcribe(f.begin(), f.end(), forests::transcriber(u), proj);
        to(u, "transcribe iterators", pe);
        forests::transcribe(f, forests::transcriber(a), proj, [](const auto& i) { return is_leading(i); });
        to(a, "transcribe predicate", pe);
        forests::transcribe(out, forests::transcriber(b), [](const auto& o) { return *o; }, [](const auto& i) { return bool(*i); });
        to(b, "transcribe optionals", e);
        // to another type, read through other traversals
        forest<long> q;
        auto dr = depth_range(f);
        forests::transcribe(dr.begin(), dr.end(), forests::transcriber(q), [](const V& v) { return long(v.id) * 10 + 3; });
        std::vector<long> qv;
        for (auto i = q.begin(); i != q.end() && qv.size() < 200; ++i) qv.push_back(is_leading(i) ? *i : -1);
        S.same("transcribe depth range", text(qv), text(pe));
        auto rr = reverse_fullorder_range(f);
        forests::transcribe(rr.begin(), rr.end(), forests::transcriber(c), proj);
        to(c, "transcribe reversed", nums(st.at("mirror").a[k - 1]));
        // parts
        std::vector<Fo::const_iterator> at;
        for (auto i = f.begin(); i != f.end(); ++i) at.push_back(i);
        at.push_back(f.end());
        for (auto& s : st.at("sibs").a[k - 1].a) {
            Fo y, z;
            auto lo = s.a[0].n, hi = s.a[1].n;
            forests::transcribe(at[lo], at[hi], forests::transcriber(y), proj);
            std::vector<long> part(pe.begin() + lo, pe.begin() + hi);
            to(y, "transcribe part", part);
            std::vector<std::optional<V>> o;
            forests::flatten(at[lo], at[hi], std::back_inserter(o));
            S.same("flatten part", text(plain(o)), text(std::vector<long>(e.begin() + lo, e.begin() + hi)));
        }
    }
    }
    S.same("values left", V::live, 0);
}
} // namespace
int main(int c, char** v) { return seq_main(c, v, {{"edit", edit}, {"walk", walk}, {"algo", algo}}); }
