// reverse_until, reverse_nodes and the operations on links against Reverse.tla
#include "seq.h"
#include <deque>
#include <list>
#include <memory>
#include <stlab/iterator/set_next.hpp>

namespace {
struct Node { Node* next = nullptr; Node* prev = nullptr; int id = 0; };
template <bool Bi>
struct NodeIt {
    using iterator_category = std::conditional_t<Bi, std::bidirectional_iterator_tag, std::forward_iterator_tag>;
    using value_type = Node;
    using difference_type = std::ptrdiff_t;
    using pointer = Node*;
    using reference = Node&;
    Node* p = nullptr;
    Node& operator*() const { return *p; }
    Node* operator->() const { return p; }
    NodeIt& operator++() { p = p->next; return *this; }
    NodeIt operator++(int) { auto r = *this; ++*this; return r; }
    NodeIt& operator--() requires Bi { p = p->prev; return *this; }
    NodeIt operator--(int) requires Bi { auto r = *this; --*this; return r; }
    friend bool operator==(const NodeIt& a, const NodeIt& b) { return a.p == b.p; }
    friend bool operator!=(const NodeIt& a, const NodeIt& b) { return a.p != b.p; }
};
} // namespace

namespace stlab {
inline namespace STLAB_VERSION_NAMESPACE() {
namespace unsafe {
template <> struct set_next_fn<NodeIt<false>> {
    void operator()(const NodeIt<false>& x, const NodeIt<false>& y) const { x.p->next = y.p; }
};
template <> struct set_next_fn<NodeIt<true>> {
    void operator()(const NodeIt<true>& x, const NodeIt<true>& y) const { x.p->next = y.p; y.p->prev = x.p; }
};
} // namespace unsafe
} // namespace STLAB_VERSION_NAMESPACE()
} // namespace stlab
#include <stlab/algorithm/reverse.hpp>

namespace {
using namespace stlab;
template <bool Bi>
struct World {
    using It = NodeIt<Bi>;
    std::vector<std::unique_ptr<Node>> n; // 0 is the end
    struct R {
        using iterator = It;
        It a, b;
        It begin() const { return a; }
        It end() const { return b; }
    };
    It it(long i) { It r; r.p = n[i].get(); return r; }
    explicit World(const J& next, const J& prev) {
        for (size_t i = 0; i < prev.a.size(); ++i) { n.push_back(std::make_unique<Node>()); n[i]->id = int(i); }
        for (size_t i = 0; i < next.a.size(); ++i) n[i + 1]->next = n[next.a[i].n].get();
        for (size_t i = 0; i < prev.a.size(); ++i) if (prev.a[i].n >= 0) n[i]->prev = n[prev.a[i].n].get();
    }
    long apply(const J& o) {
        auto& k = o.a[0].s;
        auto a = it(o.a[1].n), b = it(o.a[2].n), c = it(o.a[3].n);
        R r{a, b};
        if (k == "append") return unsafe::reverse_append(a, b, c)->id;
        if (k == "append_range") return unsafe::reverse_append(r, c)->id;
        if (k == "nodes") return unsafe::reverse_nodes(a, b)->id;
        if (k == "nodes_range") return unsafe::reverse_nodes(r)->id;
        if (k == "splice") unsafe::splice_node_range(a, b, c);
        if (k == "skip_next") unsafe::skip_next_node(a);
        if (k == "link") unsafe::set_next(a, b);
        if constexpr (Bi) if (k == "skip") unsafe::skip_node(a);
        return 0;
    }
    void compare(const J& next, const J& prev) {
        for (size_t i = 0; i < next.a.size(); ++i)
            S.same("next", n[i + 1]->next ? n[i + 1]->next->id : -1, next.a[i].n);
        if (Bi) for (size_t i = 0; i < prev.a.size(); ++i) S.same("prev", n[i]->prev ? n[i]->prev->id : -1, prev.a[i].n);
        S.same("end", n[0]->next == nullptr, 1);
    }
};
template <bool Bi> void links(const J& st, long only) {
    auto& ops = st.at("ops").a;
    for (long i = 0; i < (long)ops.size(); ++i) {
        if (only >= 0 && i != only) continue;
        if (!Bi && ops[i].a[0].a[0].s == "skip") continue;
        S.at(S.line, i);
        World<Bi> w(st.at("next"), st.at("prev"));
        long r = w.apply(ops[i].a[0]);
        S.same("result", r, ops[i].a[1].n);
        w.compare(ops[i].a[2], ops[i].a[3]);
    }
}
template <class C> void until(const J& st) {
    auto from = nums(st.at("path").a[0]);
    auto g = nums(st.at("path").a[1]);
    C c;
    for (auto x : from) c.push_back(typename C::value_type(x));
    auto f = std::next(c.begin(), g[0]), m = std::next(c.begin(), g[1]), l = std::next(c.begin(), g[2]);
    auto r = reverse_until(f, m, l);
    std::vector<long> v;
    for (auto& x : c) v.push_back(*x);
    S.same("order", text(v), text(nums(st.at("arr"))));
    S.same("first", std::distance(c.begin(), r.first), st.num("f"));
    S.same("second", std::distance(c.begin(), r.second), st.num("l"));
    if (g[0] == 0 && g[2] == (long)from.size()) { // the whole of it
        stlab::reverse(c);
        std::reverse(v.begin(), v.end());
        std::vector<long> u, x, y, e(v.rbegin(), v.rend());
        for (auto& z : c) u.push_back(*z);
        S.same("reverse", text(u), text(v));
        stlab::reverse_copy(u, std::back_inserter(x));
        stlab::reverse_copy(static_cast<const std::vector<long>&>(u), std::back_inserter(y));
        S.same("reverse_copy", text(x), text(e));
        S.same("reverse_copy", text(y), text(e));
        S.same("the original", text(u), text(v));
    }
}
struct Box { // moves only
    std::unique_ptr<long> p;
    explicit Box(long x) : p(new long(x)) {}
    long operator*() const { return p ? *p : -1; }
};
void all(const J& st, long only) {
    if (st.str("part") == "nodes") {
        links<false>(st, only);
        links<true>(st, only);
    } else {
        until<std::vector<Box>>(st);
        until<std::list<Box>>(st);
        until<std::deque<Box>>(st);
    }
}
} // namespace
int main(int c, char** v) { return seq_main(c, v, {{"all", all}}); }
