// C20: stream input and output of bit values and references.
#include "bits.hpp"
#include <sstream>
using namespace pbt;
namespace {
template <class Ch> std::basic_string<Ch> widen(const std::string& s) { return std::basic_string<Ch>(s.begin(), s.end()); }
// Delivers a text in pieces of a given size, one character of which can always be put back; may throw when a position is reached.
struct Boom {};
template <class Ch> struct Chunks : std::basic_streambuf<Ch> {
    using T = std::char_traits<Ch>; std::basic_string<Ch> text; size_t next = 0, piece, bomb; Ch buf[8];
    Chunks(std::basic_string<Ch> t, size_t n, size_t b) : text(std::move(t)), piece(n), bomb(b) { this->setg(buf + 1, buf + 1, buf + 1); }
    typename T::int_type underflow() override {
        if (this->gptr() < this->egptr()) return T::to_int_type(*this->gptr());
        size_t keep = this->gptr() > this->eback() ? 1 : 0; if (keep) buf[0] = *(this->gptr() - 1);
        if (next >= bomb) throw Boom{};
        size_t n = std::min(std::min(piece, text.size() - next), bomb - next);
        if (n == 0) return T::eof();
        std::copy(text.begin() + (std::ptrdiff_t)next, text.begin() + (std::ptrdiff_t)(next + n), buf + 1); next += n; this->setg(buf + 1 - keep, buf + 1, buf + 1 + n); return T::to_int_type(*this->gptr());
    }
};
template <class Ch> std::string shown(const std::basic_string<Ch>& t) { std::ostringstream o; for (Ch ch : t) { auto u = (uint32_t)(typename std::make_unsigned<Ch>::type)ch; if (u > ' ' && u < 127) o << (char)u; else o << "<" << u << ">"; } return o.str(); }
// The stream buffer itself fails at some character.
template <class Ch> void broken(Source& s, Ctx& c) {
    using W = uint16_t; size_t n = s.draw(20); std::basic_string<Ch> text; for (size_t i = 0; i < n + 1; ++i) text += (Ch)(s.draw(4) == 0 ? ' ' : '0' + (int)s.draw(2));
    const bool noskip = s.flag(); if (noskip) for (auto& ch : text) if (ch == (Ch)' ') ch = (Ch)'1';       // without skipping, the first read is that of the extraction itself
    size_t bomb = s.draw(n + 1); Chunks<Ch> sb(text, 1 + s.draw(5), bomb); std::basic_istream<Ch> in(&sb); Buf<W, Raw> x; x.init(gen_words<W>(s, 3), 0); if (noskip) in.unsetf(std::ios::skipws);
    bool as_ref = s.flag(); bit::bit_value val(s.flag());
    c.describe([&](auto& o) { o << (sizeof(Ch) == 1 ? "narrow" : "wide") << (noskip ? " noskipws" : "") << " \"" << shown(text) << "\" failing at character " << bomb << " into " << (as_ref ? "references" : "values"); }); c.label("stream buffer throws"); c.nontrivial(bomb > 0);
    size_t p = 0;
    for (;;) {
        size_t b = s.draw(48); bool before = (bool)val; while (p < bomb && text[p] == (Ch)' ') ++p;
        if (as_ref) { bit::bit_reference<W> r(x.st.data()[b / 16], b % 16); in >> r; } else in >> val;
        if (p >= bomb) { PBT_CHECK(in.bad() && in.fail(), "the stream is not bad after its buffer threw"); x.compare("target of a failed extraction"); PBT_CHECK(as_ref || (bool)val == before, "value changed by a failed extraction"); break; }
        PBT_CHECK(in.good(), "reading a bit failed at character " << p); if (as_ref) x.m[b] = text[p] == (Ch)'1'; else PBT_CHECK((bool)val == (text[p] == (Ch)'1'), "value read at character " << p); x.compare("target and neighbours"); ++p;
    }
}
template <class Ch> void run(Source& s, Ctx& c) {
    using W = uint16_t; constexpr size_t D = 16;
    // A text of tokens: bits, whitespace, junk
    size_t n = 1 + s.draw(12); std::basic_string<Ch> text; bool has_junk = false;
    static const long WIDE[] = {0x130, 0x131, 0x431, 0x2030, 0xff10, 0xff11, 0x10030, 0x7fffffff, 0xb0, 0xff};
    for (size_t i = 0; i < n; ++i) switch (s.draw(6)) { case 0: case 1: text += (Ch)'0'; break; case 2: case 3: text += (Ch)'1'; break; case 4: text += (Ch)" \t\n"[s.draw(3)]; break; default: { size_t q = s.draw(12); text += q < 7 ? (Ch)"2x-.+/:"[q] : sizeof(Ch) == 1 ? (Ch)"\xb0\xff\x80\x01\x7f"[q - 7] : (Ch)WIDE[s.draw(10)]; has_junk = true; } }
    std::basic_istringstream<Ch> str(text); Chunks<Ch> chunks(text, 1 + s.draw(5), text.size() + 1); const bool chunked = s.draw(3) == 2; std::basic_istream<Ch> in(chunked ? (std::basic_streambuf<Ch>*)&chunks : str.rdbuf()); bool skipws = s.draw(5) != 4; if (!skipws) in.unsetf(std::ios::skipws);
    Buf<W, Raw> x; x.init(gen_words<W>(s, 3), 0); bool as_ref = s.flag(); bit::bit_value val(s.flag());
    c.describe([&](auto& o) { o << (sizeof(Ch) == 1 ? "narrow" : "wide") << " \"" << shown(text) << "\"" << (chunked ? " in pieces" : "") << " into " << (as_ref ? "references" : "values") << (skipws ? "" : " noskipws"); });
    c.nontrivial(text.find_first_of(widen<Ch>("01")) != text.npos); c.label("junk", has_junk); c.label(as_ref ? "reference" : "value");
    const bool exc = s.draw(4) == 3; if (exc) { in.exceptions(std::ios::failbit); c.label("failure reported by exception"); c.describe([&](auto& o) { o << ", exceptions enabled"; }); }
    auto rd = [&](auto& target) {        // one extraction; with exceptions enabled a failure must be thrown as well as recorded
        bool threw = false;
        try { auto& ret = (in >> target); PBT_CHECK(&ret == &in, ">> does not return the stream"); } catch (const std::ios_base::failure&) { threw = true; }
        PBT_CHECK(threw == (exc && in.fail()), (threw ? "an exception without failure" : "a failure was not reported by an exception"));
    };
    size_t p = 0;                       // model: position in the text
    bool good = true;
    for (size_t k = 0; k < n + 2; ++k) {
        size_t b = s.draw(3 * D); bool before = as_ref ? (bool)x.m[b] : (bool)val;
        if (!good) {                   // a failed stream reads nothing and changes nothing
            bit::bit_reference<W> r(x.st.data()[b / D], b % D);
            if (as_ref) rd(r); else rd(val);
            PBT_CHECK(in.fail(), "failed stream recovered by itself"); x.compare("target after reading from a failed stream"); PBT_CHECK(as_ref || (bool)val == before, "value changed by reading from a failed stream");
            in.clear();
            auto nx = in.rdbuf()->sgetc();
            bool at_end = std::basic_istringstream<Ch>::traits_type::eq_int_type(nx, std::basic_istringstream<Ch>::traits_type::eof());
            PBT_CHECK(at_end == (p >= text.size()), "after a failure the next unread character is not number " << p);
            if (at_end) break;
            PBT_CHECK(std::basic_istringstream<Ch>::traits_type::to_char_type(nx) == text[p], "after a failure the next unread character is not number " << p);
            in.rdbuf()->sbumpc(); ++p; good = true; continue;
        }
        if (skipws) while (p < text.size() && (text[p] == (Ch)' ' || text[p] == (Ch)'\t' || text[p] == (Ch)'\n')) ++p;
        bool ok = p < text.size() && (text[p] == '0' || text[p] == '1');
        if (as_ref) { bit::bit_reference<W> r(x.st.data()[b / D], b % D); rd(r); if (ok) x.m[b] = text[p] - '0'; x.compare("target and neighbours"); PBT_CHECK(r.position() == b % D && r.address() == x.st.data() + b / D, "reading rebound the reference"); }
        else { rd(val); PBT_CHECK((bool)val == (ok ? text[p] == '1' : before), "value read is " << (bool)val << " at character " << p); }
        PBT_CHECK(!in.fail() == ok, (ok ? "reading a bit failed" : "reading something else than a bit succeeded") << " at character " << p);
        if (ok) ++p; else { good = false; PBT_CHECK(in.eof() == (p >= text.size()), "eofbit " << in.eof() << " at character " << p << " of " << text.size()); }
    }
}
template <class Ch> void round(Source& s, Ctx& c) {
    using W = uint32_t; Buf<W, Raw> x; x.init(gen_words<W>(s, 4), 0); size_t n = 1 + s.draw(60), off = s.draw(128 - n + 1);
    std::basic_ostringstream<Ch> out; std::string expect; bool sep = s.flag();
    for (size_t i = 0; i < n; ++i) {
        size_t b = off + i; bit::bit_reference<W> r(x.st.data()[b / 32], b % 32); auto before = out.str().size();
        if (s.flag()) { auto& ret = (out << r); PBT_CHECK(&ret == &out, "<< does not return the stream"); } else out << bit::bit_value(r);
        PBT_CHECK(out.str().size() == before + 1, "one bit printed as " << out.str().size() - before << " characters");
        expect += (char)('0' + x.m[b]); if (sep && s.draw(3) == 0) { out << (Ch)' '; expect += ' '; }
    }
    c.describe([&](auto& o) { o << (sizeof(Ch) == 1 ? "narrow " : "wide ") << expect; }); c.nontrivial(n > 1);
    PBT_CHECK(out.str() == widen<Ch>(expect), "printed text differs from the bits"); x.compare("storage after printing");
    std::basic_istringstream<Ch> in(out.str()); Buf<W, Raw> y; y.init(std::vector<W>(4, 0xa5a5a5a5u), 0);
    for (size_t i = 0; i < n; ++i) { size_t b = off + i; bit::bit_reference<W> r(y.st.data()[b / 32], b % 32); in >> r; PBT_CHECK((bool)in, "reading back bit " << i << " failed"); y.m[b] = x.m[b]; }
    y.compare("bits read back");
    { bit::bit_value v; in >> v; PBT_CHECK(in.fail() && in.eof(), "stream not exhausted after reading back"); }
}
// Accepts a number of characters; then refuses or throws.
template <class Ch> struct Sink : std::basic_streambuf<Ch> {
    using T = std::char_traits<Ch>; std::basic_string<Ch> got; size_t room; bool boom;
    Sink(size_t r, bool b) : room(r), boom(b) {}
    typename T::int_type overflow(typename T::int_type ch) override { if (got.size() >= room) { if (boom) throw Boom{}; return T::eof(); } got += T::to_char_type(ch); return T::not_eof(ch); }
};
// Formatted output: a bit is padded as a character is, and a sink that is full or throws leaves the stream bad.
template <class Ch> void print(Source& s, Ctx& c) {
    using W = uint8_t; Buf<W, Raw> x; x.init(gen_words<W>(s, 3), 0); const size_t n = 1 + s.draw(12), room = s.flag() ? 1000 : s.draw(30); const bool boom = s.flag();
    Sink<Ch> sink(room, boom), ref(room, boom); std::basic_ostream<Ch> out(&sink), want(&ref);
    c.describe([&](auto& o) { o << (sizeof(Ch) == 1 ? "narrow" : "wide") << " sink for " << room << (boom ? " (then throws)" : ""); }); c.nontrivial(n > 1); c.label(room < 1000 ? "bounded sink" : "unbounded sink");
    for (size_t i = 0; i < n; ++i) {
        const size_t b = s.draw(24), w = s.draw(3) ? 0 : s.draw(5); const Ch fill = (Ch)"*_0 "[s.draw(4)]; const bool left = s.flag(), as_ref = s.flag();
        c.describe([&](auto& o) { o << "; bit " << b << " = " << (int)x.m[b] << " width " << w << (left ? " left" : " right"); });
        for (auto* o : {&out, &want}) { o->width((std::streamsize)w); o->fill(fill); o->setf(left ? std::ios::left : std::ios::right, std::ios::adjustfield); }
        bit::bit_reference<W> r(x.st.data()[b / 8], b % 8);
        if (as_ref) out << r; else out << bit::bit_value(r);
        want << (Ch)('0' + x.m[b]);
        PBT_CHECK(sink.got == ref.got, "printed \"" << shown(sink.got) << "\", expected \"" << shown(ref.got) << "\""); PBT_CHECK(out.rdstate() == want.rdstate(), "the stream's state is " << (int)out.rdstate() << ", expected " << (int)want.rdstate()); PBT_CHECK(out.width() == want.width(), "the width is left at " << out.width());
        if (!want) { c.label("sink failed"); PBT_CHECK(out.bad(), "the stream is not bad"); }
        x.compare("storage after printing");
    }
}
void prints(Source& s, Ctx& c) { if (s.draw(3) == 2) print<wchar_t>(s, c); else print<char>(s, c); }
void fails(Source& s, Ctx& c) { if (s.draw(3) == 2) broken<wchar_t>(s, c); else broken<char>(s, c); }
void read(Source& s, Ctx& c) { if (s.draw(3) == 2) run<wchar_t>(s, c); else run<char>(s, c); }
void roundtrip(Source& s, Ctx& c) { if (s.draw(3) == 2) round<wchar_t>(s, c); else round<char>(s, c); }
}
std::vector<Test> pbt::tests() { return {{"print", prints, false, 40000, 600000},  {"read", read, false, 100000, 2500000}, {"roundtrip", roundtrip, false, 30000, 600000}, {"fails", fails, false, 20000, 400000} }; }
