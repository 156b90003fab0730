// C38: bit vectors inside, under and next to the standard library's containers, adaptors and insert iterators.
#include "vec_model.hpp"
#include <deque>
#include <iterator>
#include <list>
#include <map>
#include <stack>
using namespace pbt;
namespace {
template <class V> bool less_bits(const V& a, const V& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); }
template <class V> Model bits_of(const V& v) { Model m; for (auto x : v) m.push_back((bool)x); return m; }
// A sequence of vectors, in a container C<V>, against the same sequence of models.
template <class V, class C, class M> void all_equal(C& a, M& m, const char* what) {
    PBT_CHECK(a.size() == m.size(), what << ": " << a.size() << " vectors, expected " << m.size());
    auto i = a.begin(); auto j = m.begin(); for (; i != a.end(); ++i, ++j) check_vec(*i, *j, what);
}
const char* OPS[] = {"push_back(copy)", "emplace_back", "push_back(move)", "insert", "erase", "sort", "swap elements", "rotate", "resize", "modify", "back_inserter", "inserter", "erase-remove", "stack", "reverse", "map", "assign container", "stable_partition", "append slice"};
template <class W, class C, class MC> void history(Source& s, Ctx& c) {
    using V = bit::bit_vector<W>; constexpr size_t D = DIG<W>; C a; MC m; bool two = false; size_t ops = 2 + s.draw(10);
    auto one = [&] { return gen_bits(s, s.draw(8) ? gen_size(s, D, false) : gen_size(s, D)); };
    c.describe([&](auto& o) { o << wname<W>(); });
    for (size_t k = 0; k < ops; ++k) {
        size_t op = s.draw(19); if (m.empty() && op > 3) op %= 3; size_t i = m.empty() ? 0 : s.draw(m.size()), j = m.empty() ? 0 : s.draw(m.size()); auto ai = std::next(a.begin(), (long)i); auto mi = std::next(m.begin(), (long)i);
        c.label(OPS[op]); c.describe([&](auto& o) { o << "; " << OPS[op] << " " << i << "," << j; }); if (m.size() > 1) two = true;
        switch (op) {
        case 0: { Model x = one(); const V v = make_vec<V>(x); a.push_back(v); m.push_back(x); check_vec(v, x, "pushed vector"); break; }
        case 1: { size_t n = gen_size(s, D, false); uint8_t b = (uint8_t)s.draw(2); a.emplace_back(n, b ? bit::bit1 : bit::bit0); m.push_back(Model(n, b)); break; }
        case 2: { Model x = one(); V v = make_vec<V>(x); a.push_back(std::move(v)); m.push_back(x); v = make_vec<V>(x); check_vec(v, x, "moved-from vector, assigned again"); break; }
        case 3: { Model x = one(); a.insert(ai, make_vec<V>(x)); m.insert(mi, x); break; }
        case 4: a.erase(ai); m.erase(mi); break;
        case 5: { std::vector<V> t(a.begin(), a.end()); std::sort(t.begin(), t.end(), less_bits<V>); std::copy(t.begin(), t.end(), a.begin()); std::vector<Model> u(m.begin(), m.end()); std::sort(u.begin(), u.end()); std::copy(u.begin(), u.end(), m.begin()); break; }
        case 6: { std::swap(*ai, *std::next(a.begin(), (long)j)); std::swap(*mi, *std::next(m.begin(), (long)j)); break; }
        case 7: std::rotate(a.begin(), ai, a.end()); std::rotate(m.begin(), mi, m.end()); break;
        case 8: { size_t n = s.draw(2) ? s.draw(m.size() + 1) : m.size() + s.draw(9); a.resize(n); m.resize(n); break; }
        case 9: { OpRec r = gen_op(s, D, mi->size(), 40 * D); c.describe([&](auto& o) { o << " " << r; }); apply_op(*ai, *mi, r); break; }
        case 10: { Model x = one(); std::vector<bit::bit_value> src; for (auto b : x) src.push_back(b ? bit::bit1 : bit::bit0); std::copy(src.begin(), src.end(), std::back_inserter(*ai)); mi->insert(mi->end(), x.begin(), x.end()); break; }
        case 11: { Model x = gen_bits(s, s.draw(3 * D)); size_t p = s.draw(mi->size() + 1); std::list<bit::bit_value> src; for (auto b : x) src.push_back(b ? bit::bit1 : bit::bit0); std::insert_iterator<V> w = std::inserter(*ai, ai->begin() + (long)p); for (auto b : src) *w++ = b; mi->insert(mi->begin() + (long)p, x.begin(), x.end()); break; }
        case 12: { uint8_t b = (uint8_t)s.draw(2); ai->erase(std::remove(ai->begin(), ai->end(), b ? bit::bit1 : bit::bit0), ai->end()); mi->erase(std::remove(mi->begin(), mi->end(), b), mi->end()); break; }
        case 13: { std::stack<bit::bit_value, V> st(*ai); Model x = *mi; size_t t = s.draw(2 * D); for (size_t q = 0; q < t; ++q) { if (s.draw(3) == 0 && !x.empty()) { PBT_CHECK((bool)st.top() == (bool)x.back(), "top of the stack is " << (bool)st.top()); if (s.flag()) { st.top().flip(); x.back() ^= 1; } else { st.pop(); x.pop_back(); } } else { uint8_t b = (uint8_t)s.draw(2); st.push(b ? bit::bit1 : bit::bit0); x.push_back(b); } }
                   PBT_CHECK(st.size() == x.size() && st.empty() == x.empty(), "stack of " << st.size() << " bits, expected " << x.size()); while (!x.empty()) { const auto& cst = st; PBT_CHECK((bool)cst.top() == (bool)x.back(), "stack element " << x.size() - 1); st.pop(); x.pop_back(); } break; }
        case 14: std::reverse(a.begin(), a.end()); std::reverse(m.begin(), m.end()); break;
        case 15: { std::map<Model, V> mp; for (auto& v : a) mp[bits_of(v)] = v; for (auto& e : mp) { check_vec(e.second, e.first, "mapped vector"); } auto it = mp.find(*mi); PBT_CHECK(it != mp.end(), "vector " << i << " is not among the mapped ones"); *ai = it->second; mp.clear(); break; }
        case 16: { C b2(a); all_equal<V>(b2, m, "copied container"); MC m2(m); for (auto& v : b2) v.push_back(bit::bit1); for (auto& x : m2) x.push_back(1); all_equal<V>(b2, m2, "modified copy"); all_equal<V>(a, m, "original container"); a = std::move(b2); m = m2; break; }
        case 17: { auto odd = [](const auto& v) { return v.size() % 2 == 1; }; std::stable_partition(a.begin(), a.end(), odd); std::stable_partition(m.begin(), m.end(), odd); break; }
        default: { auto bj = std::next(a.begin(), (long)j); auto mj = std::next(m.begin(), (long)j); if (i != j) { size_t p = s.draw(mj->size() + 1), q = p + s.draw(mj->size() - p + 1); ai->insert(ai->end(), bj->begin() + (long)p, bj->begin() + (long)q); mi->insert(mi->end(), mj->begin() + (long)p, mj->begin() + (long)q); if (mi->size() > 100 * D) { ai->resize(D); mi->resize(D, 0); } } }
        }
        all_equal<V>(a, m, OPS[op]);
    }
    c.nontrivial(two);
}
void compose(Source& s, Ctx& c) {
    with_word(s, [&](auto w) { using W = decltype(w); using V = bit::bit_vector<W>;
        switch (s.draw(3)) { case 0: c.label("vector of bit vectors"); history<W, std::vector<V>, std::vector<Model>>(s, c); break; case 1: c.label("deque of bit vectors"); history<W, std::deque<V>, std::deque<Model>>(s, c); break; default: c.label("list of bit vectors"); history<W, std::list<V>, std::list<Model>>(s, c); } });
}
}
std::vector<Test> pbt::tests() { return { {"compose", compose, false, 30000, 2000000} }; }
