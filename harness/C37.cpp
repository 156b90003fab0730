// C37: iterators, references and pointers into a vector stay valid exactly as those of std::vector do.
#include "vec_model.hpp"
using namespace pbt;
namespace {
template <class W> struct Handle {
    using V = bit::bit_vector<W>;
    int owner; size_t pos; int kind; bool live = true;
    std::unique_ptr<typename V::iterator> it; std::unique_ptr<typename V::const_iterator> ci; std::unique_ptr<typename V::reference> ref; std::unique_ptr<bit::bit_pointer<W>> ptr; W* word = nullptr;
};
const char* HK[] = {"iterator", "const_iterator", "reference", "pointer", "word pointer"};
template <class W> Handle<W> take(bit::bit_vector<W>& v, int owner, size_t pos, int kind) {
    using V = bit::bit_vector<W>; Handle<W> h; h.owner = owner; h.pos = pos; h.kind = kind;
    switch (kind) {
    case 0: h.it = std::make_unique<typename V::iterator>(v.begin() + (std::ptrdiff_t)pos); break;
    case 1: h.ci = std::make_unique<typename V::const_iterator>(static_cast<const V&>(v).begin() + (std::ptrdiff_t)pos); break;
    case 2: h.ref = std::make_unique<typename V::reference>(v[pos]); break;
    case 3: h.ptr = std::make_unique<bit::bit_pointer<W>>(&v[pos]); break;
    default: h.word = v.data() + pos / DIG<W>;
    }
    return h;
}
template <class W> bool read(const Handle<W>& h) {
    switch (h.kind) { case 0: return (bool)**h.it; case 1: return (bool)**h.ci; case 2: return (bool)*h.ref; case 3: return (bool)**h.ptr; default: return (*h.word >> (h.pos % DIG<W>)) & 1; }
}
template <class W> bool write(Handle<W>& h, bool b) {
    auto v = b ? bit::bit1 : bit::bit0;
    switch (h.kind) { case 0: **h.it = v; break; case 1: return false; case 2: *h.ref = v; break; case 3: **h.ptr = v; break; default: { W k = (W)((W)1 << (h.pos % DIG<W>)); *h.word = (W)(b ? (*h.word | k) : (*h.word & (W)~k)); } }
    return true;
}
template <class W> void go(Source& s, Ctx& c) {
    constexpr size_t D = DIG<W>; using V = bit::bit_vector<W>; constexpr size_t maxn = 60 * D;
    std::unique_ptr<V> v[2]; Model m[2]; std::vector<Handle<W>> hs; size_t used = 0;
    for (int i = 0; i < 2; ++i) { m[i] = gen_bits(s, gen_size(s, D)); v[i] = std::make_unique<V>(make_vec<V>(m[i])); if (s.flag()) v[i]->reserve(m[i].size() + s.draw(6 * D)); }
    c.describe([&](auto& o) { o << wname<W>() << " #0 " << show_model(m[0]) << " cap " << v[0]->capacity() << ", #1 " << show_model(m[1]) << " cap " << v[1]->capacity(); });
    auto grab = [&](int i, size_t k) { for (size_t j = 0; j < k && !m[i].empty(); ++j) { size_t p = s.draw(3) ? s.draw(m[i].size()) : s.flag() ? m[i].size() - 1 : 0; int kind = (int)s.draw(5); hs.push_back(take<W>(*v[i], i, p, kind)); c.describe([&](auto& o) { o << "; " << HK[kind] << " to #" << i << "[" << p << "]"; }); } };
    grab(0, 4); grab(1, 4);
    size_t steps = 2 + s.draw(10); bool nt = false;
    for (size_t k = 0; k < steps; ++k) {
        int i = (int)s.draw(2); auto inval = [&](size_t from) { for (auto& h : hs) if (h.owner == i && h.pos >= from) h.live = false; };
        switch (s.draw(8)) {
        case 0: { c.describe([&](auto& o) { o << "; swap"; }); c.label("swap"); std::swap(*v[0], *v[1]); std::swap(m[0], m[1]); for (auto& h : hs) h.owner ^= 1; break; }
        case 1: { c.describe([&](auto& o) { o << "; move-construct #" << i; }); c.label("move construction"); auto t = std::make_unique<V>(std::move(*v[i])); v[i] = std::move(t); break; }
        case 2: if (!hs.empty()) { auto& h = hs[s.draw(hs.size())]; bool b = s.flag(); if (h.live && write(h, b)) { m[h.owner][h.pos] = b; c.label("write through handle"); c.describe([&](auto& o) { o << "; write " << b << " through " << HK[h.kind] << " #" << h.owner << "[" << h.pos << "]"; }); } break; } /* fallthrough */
        default: {
            OpRec r = gen_op(s, D, m[i].size(), maxn); c.describe([&](auto& o) { o << "; #" << i << " " << r; }); c.label(op_name(r.op));
            size_t n = m[i].size(), cap = v[i]->capacity();
            auto grow = [&](size_t by, size_t at) { if (n + by > cap) inval(0); else inval(at); };
            switch (r.op) {
            case PUSH: grow(r.a, n); break; case POP: inval(n - r.a); break; case INS1: grow(1, r.a); break; case INSN: case INSR: if (r.b) grow(r.b, r.a); break;
            case ERASE1: inval(r.a); break; case ERASER: if (r.b > r.a) inval(r.a); break; case RESIZE: case RESIZEV: if (r.a > n) grow(r.a - n, n); else inval(r.a); break; case CLEAR: inval(0); break;
            case RESERVE: if (r.a > cap) inval(0); break; case SHRINK: case COPYASSIGN: case MOVEASSIGN: case SELFCOPY: inval(0); break; default: break;
            }
            apply_op(*v[i], m[i], r);
        } }
        for (int q = 0; q < 2; ++q) check_vec(*v[q], m[q], q ? "#1" : "#0");
        for (auto& h : hs) if (h.live) {
            ++used; nt = nt || k > 0;
            PBT_CHECK(read(h) == (bool)m[h.owner][h.pos], "after step " << k + 1 << " the " << HK[h.kind] << " to #" << h.owner << "[" << h.pos << "] reads " << read(h) << ", expected " << (int)m[h.owner][h.pos]);
            auto b = v[h.owner]->begin(), e = b + (std::ptrdiff_t)h.pos;
            if (h.kind == 0) PBT_CHECK(*h.it == e && *h.it - b == (std::ptrdiff_t)h.pos && v[h.owner]->end() - *h.it == (std::ptrdiff_t)(m[h.owner].size() - h.pos), "iterator to #" << h.owner << "[" << h.pos << "] no longer equals begin() + " << h.pos);
            if (h.kind == 2) PBT_CHECK(h.ref->address() == v[h.owner]->data() + h.pos / D && h.ref->position() == h.pos % D, "reference to #" << h.owner << "[" << h.pos << "] designates another bit");
            if (h.kind == 3) PBT_CHECK(*h.ptr == &(*v[h.owner])[h.pos], "pointer to #" << h.owner << "[" << h.pos << "] designates another bit");
            if (h.kind == 4) PBT_CHECK(h.word == v[h.owner]->data() + h.pos / D, "word pointer to #" << h.owner << "[" << h.pos << "] designates another word");
        }
        if (s.draw(3) == 0) { for (size_t j = 0; j < hs.size();) if (!hs[j].live) { std::swap(hs[j], hs.back()); hs.pop_back(); } else ++j; if (hs.size() < 12) grab((int)s.draw(2), 2); }
    }
    c.nontrivial(nt && used > 3);
}
void handles(Source& s, Ctx& c) { with_word(s, [&](auto w) { go<decltype(w)>(s, c); }); }
}
std::vector<Test> pbt::tests() { return { {"handles", handles, false, 60000, 2000000} }; }
