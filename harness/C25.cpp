// C25: text rendering lists the bits and round-trips.
#include "vec_model.hpp"
using namespace pbt;
namespace {
template <class W> std::string expect(const Model& m) {
    std::string r; for (size_t i = 0; i < m.size(); ++i) { if (i && i % DIG<W> == 0) r += ' '; else if (i && i % 8 == 0) r += '.'; r += (char)('0' + m[i]); } return r;
}
void text(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); using V = bit::bit_vector<W>; constexpr size_t D = DIG<W>;
        Model m = gen_bits(s, gen_size(s, D)); V v = make_vec<V>(m); size_t n = m.size();
        size_t a = s.draw(n + 1), b = a + s.draw(n - a + 1);
        c.describe([&](auto& o) { o << wname<W>() << " " << show_model(m) << " sub-range [" << a << "," << b << ")"; }); c.nontrivial(n > D);
        std::string t = v.debug_string();
        PBT_CHECK(t == expect<W>(m), "debug_string() is \"" << t.substr(0, 200) << "\", expected \"" << expect<W>(m).substr(0, 200) << "\"");
        V u{std::string_view(t)}; check_vec(u, m, "vector built from the text");
        Model sub(m.begin() + a, m.begin() + b);
        std::string ts = v.debug_string(v.cbegin() + a, v.cbegin() + b);
        PBT_CHECK(ts == expect<W>(sub), "debug_string of [" << a << "," << b << ") is \"" << ts.substr(0, 200) << "\", expected \"" << expect<W>(sub).substr(0, 200) << "\"");
        std::string tm = v.debug_string(v.begin() + a, v.begin() + b);
        PBT_CHECK(tm == ts, "debug_string of mutable iterators differs");
        V us{std::string_view(ts)}; check_vec(us, sub, "vector built from the text of the sub-range");
        check_vec(v, m, "vector after rendering");
    });
}
void text_all(Source& s, Ctx& c) {
    size_t n = s.draw(13); Model m = gen_bits_small(s, n); s.ready();
    using V = bit::bit_vector<uint8_t>; V v = make_vec<V>(m);
    c.describe([&](auto& o) { o << "u8 " << show_model(m); }); c.nontrivial(n > 0);
    std::string t = v.debug_string(); PBT_CHECK(t == expect<uint8_t>(m), "debug_string() is \"" << t << "\""); V u{std::string_view(t)}; check_vec(u, m, "round trip");
}
}
std::vector<Test> pbt::tests() { return { {"text", text, false, 80000, 2000000}, {"text_all", text_all, true, 1, 1} }; }
