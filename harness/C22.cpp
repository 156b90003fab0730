// C22: every constructor yields exactly the described bits.
#include "vec_model.hpp"
#include <deque>
#include <list>
using namespace pbt;
namespace {
std::string junk_string(Source& s, Model& m, size_t n) {     // characters other than 0/1 are ignored
    std::string str; Expand e(s.draw(1 << 16)); uint64_t style = s.draw(6);
    static const char js[] = " .,_-/x2a9\n\t|";
    for (size_t i = 0; i < n; ++i) {
        if (style == 1 || (style == 2 && e.next() % 3 == 0)) str += js[e.next() % (sizeof js - 1)];
        if (style == 3 && e.next() % 4 == 0) str += (char)(e.next() % 256 | 0x80);
        if (style >= 4 && e.next() % (style == 4 ? 3 : 40) == 0) { char x = (char)(e.next() % (style == 4 ? 256 : 4)); if (x != '0' && x != '1') str += x; }
        uint8_t b = e.next() & 1; m.push_back(b); str += (char)('0' + b);
    }
    if (style == 1) str += " .";
    return str;
}
template <class V> void after(V& v, Model m, const char* what) {
    check_vec(v, m, what);
    v.push_back(bit::bit1); m.push_back(1); check_vec(v, m, "after a push_back on the constructed vector");
    v.resize(m.size() + 11); m.resize(m.size() + 11, 0); check_vec(v, m, "after growing the constructed vector");
}
void ctor(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); using V = bit::bit_vector<W>; constexpr size_t D = DIG<W>;
        uint64_t kind = s.draw(13);
        size_t n = gen_size(s, D);
        static const char* names[] = {"default", "count", "count+value", "string", "bool range", "word range", "bit range", "bit range (raw)", "init bits", "init bools", "init words", "copy", "const bit range"};
        c.label(names[kind]); c.nontrivial(n % D != 0);
        Model m;
        auto d = [&](const char* extra) { c.describe([&](auto& o) { o << wname<W>() << " " << names[kind] << " n=" << n << " " << extra; }); };
        switch (kind) {
        case 0: { d(""); V v; after(v, m, names[kind]); break; }
        case 1: { d(""); V v(n); m.assign(n, 0); after(v, m, names[kind]); break; }
        case 2: { uint8_t b = s.draw(2); d(b ? "1" : "0"); V v(n, b ? bit::bit1 : bit::bit0); m.assign(n, b); after(v, m, names[kind]); break; }
        case 3: { std::string str = junk_string(s, m, n); d(str.substr(0, 300).c_str()); V v{std::string_view(str)}; PBT_CHECK(v.capacity() <= 2 * n + 2 * D, "capacity " << v.capacity() << " for " << n << " characters"); after(v, m, names[kind]); break; }
        case 4: { m = gen_bits(s, n); d(show_model(m).c_str()); uint64_t src = s.draw(3);
                  if (src == 0) { std::vector<bool> b(m.begin(), m.end()); V v(b.begin(), b.end()); after(v, m, "vector<bool> range"); }
                  else if (src == 1) { std::deque<bool> b(m.begin(), m.end()); V v(b.begin(), b.end()); after(v, m, "deque<bool> range"); }
                  else { std::unique_ptr<bool[]> b(new bool[n + 1]); for (size_t i = 0; i < n; ++i) b[i] = m[i]; V v(b.get(), b.get() + n); after(v, m, "bool* range"); }
                  break; }
        case 5: { size_t k = n / D; auto ws = gen_words<W>(s, k); for (size_t i = 0; i < k * D; ++i) m.push_back((ws[i / D] >> (i % D)) & 1); d(show_model(m).c_str());
                  if (s.flag()) { V v(ws.begin(), ws.end()); after(v, m, "vector<word> range"); } else { const W* p = ws.data(); V v(p, p + k); after(v, m, "const word* range"); } break; }
        case 6: { auto a = gen_place_len(s, D, n); auto ws = gen_words<W>(s, a.words); Buf<W, Vec> x; x.init(ws, 0); m.assign(x.m.begin() + a.first, x.m.begin() + a.last()); d(show_model(m).c_str());
                  V v(x.at(a.first), x.at(a.last())); x.compare("source"); PBT_CHECK(v.capacity() <= 2 * n + 2 * D, "capacity " << v.capacity() << " for " << n << " bits"); after(v, m, names[kind]); break; }
        case 7: { auto a = gen_place_len(s, D, n); auto ws = gen_words<W>(s, a.words); Buf<W, Raw> x; x.init(ws, gen_align(s)); m.assign(x.m.begin() + a.first, x.m.begin() + a.last()); d(show_model(m).c_str());
                  V v(x.at(a.first), x.at(a.last())); x.compare("source"); after(v, m, names[kind]); break; }
        case 8: { m = gen_bits(s, std::min<size_t>(n, 300)); std::vector<bit::bit_value> w(m.size()); for (size_t i = 0; i < w.size(); ++i) w[i] = m[i] ? bit::bit1 : bit::bit0;
                  with_ilist(w.data(), w.size(), [&](std::initializer_list<bit::bit_value> l) { m.resize(l.size()); d(show_model(m).c_str()); V v(l); after(v, m, names[kind]); }); break; }
        case 9: { m = gen_bits(s, std::min<size_t>(n, 300)); std::unique_ptr<bool[]> w(new bool[m.size() + 1]); for (size_t i = 0; i < m.size(); ++i) w[i] = m[i];
                  with_ilist(w.get(), m.size(), [&](std::initializer_list<bool> l) { m.resize(l.size()); d(show_model(m).c_str()); V v(l); after(v, m, names[kind]); }); break; }
        case 10: { auto ws = gen_words<W>(s, std::min<size_t>(n / D, 300));
                  with_ilist(ws.data(), ws.size(), [&](std::initializer_list<W> l) { m.clear(); for (size_t i = 0; i < l.size() * D; ++i) m.push_back((ws[i / D] >> (i % D)) & 1); d(show_model(m).c_str()); V v(l); after(v, m, names[kind]); }); break; }
        case 11: { m = gen_bits(s, n); d(show_model(m).c_str()); const V src = make_vec<V>(m); V v(src); after(v, m, names[kind]); V u(src, std::allocator<W>()); after(u, m, "copy with allocator"); break; }
        default: { m = gen_bits(s, n); size_t a = s.draw(n + 1), b = a + s.draw(n - a + 1); d(show_model(m).c_str()); V src = make_vec<V>(m); Model sub(m.begin() + a, m.begin() + b);
                  V v(src.begin() + a, src.begin() + b); after(v, sub, "range of another vector"); check_vec(src, m, "source vector"); }
        }
    });
}
void strings_all(Source& s, Ctx& c) {       // every string over {0,1,separator} up to length 9
    size_t n = s.draw(10); std::string str; Model m;
    for (size_t i = 0; i < n; ++i) { uint64_t k = s.draw(3); str += "01 "[k]; if (k < 2) m.push_back((uint8_t)k); }
    s.ready();
    c.describe([&](auto& o) { o << "u8 from \"" << str << "\""; }); c.nontrivial(m.size() != n && !m.empty());
    bit::bit_vector<uint8_t> v{std::string_view(str)};
    after(v, m, "string");
}
}
std::vector<Test> pbt::tests() {
    return { {"ctor", ctor, false, 150000, 4000000}, {"strings_all", strings_all, true, 1, 1} };
}
