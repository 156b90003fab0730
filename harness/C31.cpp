// C31: storage of a bit_vector comes from its own allocator, through construction, assignment and growth.
#include "vec_model.hpp"
#include <unordered_map>
using namespace pbt;
namespace {
struct Blk { int id; size_t n, sz; };
std::unordered_map<void*, Blk>& live() { static std::unordered_map<void*, Blk> m; return m; }
std::string& err() { static std::string e; return e; }
size_t& allocated() { static size_t n = 0; return n; }
// Stateful allocator: instances with different ids may not free each other's memory.
template <class T, bool CA, bool MA, bool SW> struct Tr {
    using value_type = T; using propagate_on_container_copy_assignment = std::integral_constant<bool, CA>; using propagate_on_container_move_assignment = std::integral_constant<bool, MA>;
    using propagate_on_container_swap = std::integral_constant<bool, SW>; using is_always_equal = std::false_type;
    template <class U> struct rebind { using other = Tr<U, CA, MA, SW>; };
    int id = 0;
    Tr() = default; explicit Tr(int i) : id(i) {} template <class U> Tr(const Tr<U, CA, MA, SW>& o) : id(o.id) {}
    T* allocate(size_t n) { T* p = static_cast<T*>(malloc(n * sizeof(T) + 1)); live()[p] = Blk{id, n, sizeof(T)}; ++allocated(); return p; }
    void deallocate(T* p, size_t n) {
        auto it = live().find(p); std::string e;
        if (it == live().end()) e = "freed a block the allocator never handed out";
        else { if (it->second.id != id) e = "freed a block of allocator " + std::to_string(it->second.id) + " through allocator " + std::to_string(id); else if (it->second.n != n || it->second.sz != sizeof(T)) e = "freed a block with the wrong size"; live().erase(it); free((void*)p); }
        if (!e.empty() && err().empty()) err() = e;
    }
    friend bool operator==(const Tr& a, const Tr& b) { return a.id == b.id; } friend bool operator!=(const Tr& a, const Tr& b) { return a.id != b.id; }
};
template <class V> void owner(V& v, int id, const char* what) {
    PBT_CHECK(err().empty(), what << ": " << err());
    if (v.size() == 0) return;
    auto it = live().find((void*)v.data()); PBT_CHECK(it != live().end(), what << ": the elements are not at the start of a block of the allocator");
    PBT_CHECK(it->second.id == id, what << ": the elements are in memory of allocator " << it->second.id << ", expected " << id);
    PBT_CHECK(it->second.n * it->second.sz * 8 >= v.size(), what << ": block too small");
}
template <class W, bool CA, bool MA> struct Run {
    using A = Tr<W, CA, MA, MA>; using V = bit::bit_vector<W, A>; static constexpr size_t D = DIG<W>;
    static constexpr int NK = 10;
    static std::unique_ptr<V> make(int kind, int id, const Model& m0, Model& m, std::unique_ptr<V>& src, int src_id, const Model& src_m, int& got_id, bool& src_moved) {
        A a(id); got_id = id; m = m0; src_moved = false; auto b = [](int x) { return x ? bit::bit1 : bit::bit0; };
        switch (kind) {
        case 0: m.clear(); return std::make_unique<V>(a);
        case 1: m.assign(m0.size(), 1); return std::make_unique<V>(m0.size(), bit::bit1, a);
        case 2: m.assign(m0.size(), 0); return std::make_unique<V>(m0.size(), a);
        case 3: { std::vector<W> w((m0.size() + D - 1) / D + 1); for (size_t i = 0; i < m0.size(); ++i) if (m0[i]) w[i / D] |= (W)((W)1 << (i % D)); using BI = bit::bit_iterator<typename std::vector<W>::iterator>; return std::make_unique<V>(BI(w.begin()), BI(w.begin()) + (std::ptrdiff_t)m0.size(), a); }
        case 4: { std::unique_ptr<bool[]> p(new bool[m0.size() + 1]); for (size_t i = 0; i < m0.size(); ++i) p[i] = m0[i]; return std::make_unique<V>(p.get(), p.get() + m0.size(), a); }
        case 5: { m.resize(m0.size() / D * D); std::vector<W> w(m.size() / D); for (size_t i = 0; i < m.size(); ++i) if (m[i]) w[i / D] |= (W)((W)1 << (i % D)); return std::make_unique<V>(w.begin(), w.end(), a); }
        case 6: { std::vector<bit::bit_value> w(m0.size()); for (size_t i = 0; i < w.size(); ++i) w[i] = b(m0[i]); std::unique_ptr<V> r; with_ilist(w.data(), w.size(), [&](std::initializer_list<bit::bit_value> l) { m.resize(l.size()); r = std::make_unique<V>(l, a); }); return r; }
        case 7: { std::unique_ptr<bool[]> w(new bool[m0.size() + 1]); for (size_t i = 0; i < m0.size(); ++i) w[i] = m0[i]; std::unique_ptr<V> r; with_ilist(w.get(), m0.size(), [&](std::initializer_list<bool> l) { m.resize(l.size()); r = std::make_unique<V>(l, a); }); return r; }
        case 8: m = src_m; return std::make_unique<V>(*src, a);
        case 9: m = src_m; src_moved = true; return std::make_unique<V>(std::move(*src), a);
        case 10: m = src_m; got_id = src_id; return std::make_unique<V>(*src);
        case 11: m = src_m; got_id = src_id; src_moved = true; return std::make_unique<V>(std::move(*src));
        case 13: { std::string t; for (auto q : m0) { t += (char)('0' + q); if (t.size() % 5 == 0) t += ' '; } got_id = 0; return std::make_unique<V>(std::string_view(t)); }
        default: { std::vector<W> w(m0.size() / D); for (size_t i = 0; i < w.size() * D; ++i) if (m0[i]) w[i / D] |= (W)((W)1 << (i % D)); std::unique_ptr<V> r; with_ilist(w.data(), w.size(), [&](std::initializer_list<W> l) { m.resize(l.size() * D); r = std::make_unique<V>(l, a); }); return r; }
        }
    }
    static void go(Source& s, Ctx& c) {
        for (auto& x : live()) free(x.first); live().clear(); err().clear();
        static const char* K[] = {"(alloc)", "(n,value,alloc)", "(n,alloc)", "(bit range,alloc)", "(bool range,alloc)", "(word range,alloc)", "({bit values},alloc)", "({bools},alloc)", "copy with alloc", "move with alloc", "copy", "move", "({words},alloc)", "(string)"};
        c.describe([&](auto& o) { o << wname<W>() << (CA ? " POCCA" : "") << (MA ? " POCMA" : ""); });
        bool cross = false;
        {
            struct Slot { std::unique_ptr<V> v; Model m; int id = 0; }; Slot x[3];
            for (int i = 0; i < 3; ++i) {
                Model m0 = gen_bits(s, gen_size(s, D)); int id = (int)s.draw(4), kind = (int)s.draw(14); if (!i && kind >= 8 && kind <= 11) kind = 1; int j = i ? (int)s.draw(i) : 0; bool mv;
                c.describe([&](auto& o) { o << "; #" << i << K[kind] << " alloc " << id << " size " << m0.size() << " from #" << j; }); c.label(K[kind]);
                if ((kind == 8 || kind == 9) && x[j].id != id) cross = true;
                const void* blk = i && (kind == 11 || (kind == 9 && x[j].id == id)) && x[j].m.size() ? (const void*)x[j].v->data() : nullptr; size_t made = allocated();
                x[i].v = make(kind, id, m0, x[i].m, x[j].v, x[j].id, x[j].m, x[i].id, mv);
                check_vec(*x[i].v, x[i].m, "constructed vector"); owner(*x[i].v, x[i].id, K[kind]);
                if (blk) PBT_CHECK((const void*)x[i].v->data() == blk && allocated() == made, K[kind] << " with an equal allocator does not take over the storage of its source");
                if (mv) { if (kind == 9 && x[j].id != id) { x[j].v->clear(); } x[j].m.clear(); check_vec(*x[j].v, x[j].m, "moved-from vector"); } else if (i) { check_vec(*x[j].v, x[j].m, "source"); owner(*x[j].v, x[j].id, "source"); }
            }
            size_t n = s.draw(8);
            for (size_t k = 0; k < n; ++k) {
                int i = (int)s.draw(3), j = (int)s.draw(3); Slot &a = x[i], &b = x[j];
                switch (s.draw(4)) {
                case 0: if (i != j) { c.describe([&](auto& o) { o << "; #" << i << " = #" << j; }); c.label("copy assignment"); if (a.id != b.id) cross = true; *a.v = *b.v; a.m = b.m; if (CA) a.id = b.id; check_vec(*b.v, b.m, "source of the assignment"); owner(*b.v, b.id, "source of the assignment"); } break;
                case 1: if (i != j) { c.describe([&](auto& o) { o << "; #" << i << " = move(#" << j << ")"; }); c.label("move assignment"); if (a.id != b.id) cross = true; const void* blk = (MA || a.id == b.id) && b.m.size() ? (const void*)b.v->data() : nullptr; size_t made = allocated(); *a.v = std::move(*b.v); if (blk) PBT_CHECK((const void*)a.v->data() == blk && allocated() == made, "move assignment does not take over the storage of its source"); a.m = b.m; if (MA) a.id = b.id; b.v->clear(); b.m.clear(); check_vec(*b.v, b.m, "moved-from vector after clear"); } break;
                default: { OpRec r = gen_op(s, D, a.m.size(), 40 * D); if (r.op == COPYASSIGN || r.op == MOVEASSIGN || r.op == SELFCOPY) r.op = SHRINK; c.describe([&](auto& o) { o << "; #" << i << " " << r; }); c.label(op_name(r.op)); apply_op(*a.v, a.m, r); }
                }
                check_vec(*a.v, a.m, "vector"); owner(*a.v, a.id, "vector");
                for (int q = 0; q < 3; ++q) if (x[q].m.size() && x[q].m.size() < 300) check_vec(*x[q].v, x[q].m, "other vector");
            }
        }
        PBT_CHECK(err().empty(), err());
        PBT_CHECK(live().empty(), live().size() << " block(s) of the allocators were never freed");
        c.nontrivial(cross); c.label("operands with different allocators", cross);
    }
};
void history(Source& s, Ctx& c) {
    switch (s.draw(6)) { case 0: Run<uint8_t, false, false>::go(s, c); break; case 1: Run<uint8_t, true, true>::go(s, c); break; case 2: Run<uint16_t, false, true>::go(s, c); break; case 3: Run<uint32_t, true, false>::go(s, c); break; case 4: Run<uint64_t, false, false>::go(s, c); break; default: Run<uint64_t, true, true>::go(s, c); }
}
}
std::vector<Test> pbt::tests() { return { {"history", history, false, 60000, 3000000} }; }
