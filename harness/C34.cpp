// C34: threads that share no word they write do not interfere, and may read the same storage and vectors together.
#include "algos.hpp"
#include "vec_model.hpp"
#include <atomic>
#include <thread>
using namespace pbt;
namespace {
enum Kind { K_OWN, K_SHARED, K_VEC, K_FROM, K_READ, K_MAKE };      // what one step does
struct Step { int kind, alg; size_t a, b, d, len; int64_t par; OpRec op; };
const char* kind_name(int k) { static const char* n[] = {"own range", "shared source", "own vector", "insert from shared vector", "read shared vector", "make vector"}; return n[k]; }
bool apart(size_t x, size_t y, size_t len) { return x + len <= y || y + len <= x; }
size_t gen_pos(Source& s, size_t D, size_t hi) {
    switch (s.draw(4)) { case 0: return std::min(hi, (size_t)s.draw(hi / D + 1) * D); case 1: return s.flag() ? hi : 0; default: return s.draw(hi + 1); }
}
// Ranges inside [0, n) of the thread's own segment; with kind K_SHARED the first source is in the shared storage of ns bits.
void gen_ranges(Source& s, size_t D, size_t n, size_t ns, Step& t) {
    bool sh = t.kind == K_SHARED;
    for (int tries = 0;; ++tries) {
        size_t na = sh ? ns : n; t.a = gen_pos(s, D, na); size_t e = gen_pos(s, D, na); if (e < t.a) std::swap(t.a, e); t.len = std::min(e - t.a, tries < 5 ? n : n / 3);
        t.b = std::min(gen_pos(s, D, n), n - t.len); t.d = std::min(gen_pos(s, D, n), n - t.len);
        bool ok = true;
        switch (t.alg) {
        case A_COPY: case A_MOVE: ok = sh || t.b <= t.a || t.b >= t.a + t.len; break;
        case A_COPYB: ok = sh || t.b >= t.a || t.b + t.len <= t.a; break;
        case A_SWAP: ok = apart(t.a, t.b, t.len); break;
        case A_TRANS1: ok = sh || t.b == t.a || apart(t.a, t.b, t.len); break;
        case A_TRANS2: ok = (sh || t.d == t.a || apart(t.a, t.d, t.len)) && (t.d == t.b || apart(t.b, t.d, t.len)); break;
        default: break;
        }
        if (ok) break;
        if (tries > 8) { t.len = 0; break; }
    }
    t.par = gen_par(s, t.alg, D, t.len);
}
const int SHARED_ALGS[] = {A_COPY, A_MOVE, A_COPYB, A_COUNT, A_FIND, A_EQUAL, A_TRANS1, A_TRANS2};
template <class W> AlgRes call2(int alg, bit::bit_iterator<W*> a, bit::bit_iterator<W*> b, bit::bit_iterator<W*> d, size_t len, int64_t par) { return call_alg(alg, a, b, d, len, par); }
template <class W> struct Thr {
    std::vector<Step> steps; size_t lo = 0, n = 0;         // own segment: bits [lo, lo + n) of the storage
    Bits m; Model vm; bit::bit_vector<W> v; std::string fail;
};
template <class W> void conc_w(Source& s, Ctx& c, bool large) {
    constexpr size_t D = DIG<W>; using V = bit::bit_vector<W>; using BI = bit::bit_iterator<W*>;
    size_t T = 2 + s.draw(3), seg = large ? 8 + s.draw(400) : 1 + s.draw(6), sw = large ? 8 + s.draw(400) : 1 + s.draw(6);
    auto words = gen_words<W>(s, seg * T), shared = gen_words<W>(s, sw); size_t al = gen_align(s);
    Buf<W, Raw> buf; buf.init(words, al); Buf<W, Raw> src; src.init(shared, gen_align(s));
    Model shm = gen_bits(s, large ? s.draw(60 * D) : s.draw(6 * D)); V shv; for (auto b : shm) shv.push_back(bit::bit_value((bool)b)); const V& kshv = shv;
    std::vector<Thr<W>> th(T); size_t total = 0;
    c.describe([&](auto& o) { o << wname<W>() << " " << T << " threads, " << seg << " words each of " << buf.show() << ", shared source of " << sw << " words, shared vector " << show_model(shm); });
    for (size_t k = 0; k < T; ++k) {
        auto& t = th[k]; t.lo = k * seg * D; t.n = seg * D; t.m.assign(buf.m.begin() + t.lo, buf.m.begin() + t.lo + t.n);
        t.vm = gen_bits(s, s.draw(3 * D)); for (auto b : t.vm) t.v.push_back(bit::bit_value((bool)b));
        size_t sz = t.vm.size(), cnt = 1 + s.draw(5); total += cnt; c.describe([&](auto& o) { o << "; thread " << k << ":"; });
        for (size_t i = 0; i < cnt; ++i) {
            Step st{}; uint64_t x = s.draw(10); st.kind = x < 4 ? K_OWN : x < 7 ? K_SHARED : x == 7 ? K_VEC : x == 8 ? K_READ : s.flag() ? K_FROM : K_MAKE;
            st.alg = st.kind == K_SHARED ? SHARED_ALGS[s.draw(8)] : (int)s.draw(N_ALG);
            switch (st.kind) {
            case K_OWN: case K_SHARED: gen_ranges(s, D, t.n, src.bits(), st); c.describe([&](auto& o) { o << " " << (st.kind == K_SHARED ? "shared " : "") << alg_name(st.alg) << "(" << st.a << "," << st.b << "," << st.d << " len " << st.len << " par " << st.par << ")"; }); c.label(alg_name(st.alg)); break;
            case K_VEC: { st.op = gen_op(s, D, sz, 6 * D); Model q(sz); V tmp; (void)tmp;
                switch (st.op.op) { case PUSH: sz += st.op.a; break; case POP: sz -= st.op.a; break; case INS1: ++sz; break; case INSN: case INSR: sz += st.op.b; break; case ERASE1: --sz; break; case ERASER: sz -= st.op.b - st.op.a; break; case RESIZE: case RESIZEV: sz = st.op.a; break; case CLEAR: sz = 0; break; case COPYASSIGN: case MOVEASSIGN: sz = st.op.bits.size(); break; default: break; }
                c.describe([&](auto& o) { o << " " << st.op; }); break; }
            case K_FROM: st.a = gen_pos(s, D, sz); st.b = gen_pos(s, D, shm.size()); st.len = s.draw(shm.size() - st.b + 1); sz += st.len; c.describe([&](auto& o) { o << " insert(" << st.a << ", shared[" << st.b << "+" << st.len << "])"; }); break;
            default: st.a = gen_pos(s, D, shm.size()); st.len = s.draw(shm.size() - st.a + 1); st.par = s.draw(6); c.describe([&](auto& o) { o << " " << kind_name(st.kind) << "[" << st.a << "+" << st.len << "] " << st.par; });
            }
            c.label(kind_name(st.kind)); t.steps.push_back(std::move(st));
        }
    }
    c.nontrivial(total > T);
    std::atomic<int> ready{0};
    auto body = [&](Thr<W>& t) {
        ready.fetch_add(1); while (ready.load() < (int)T) std::this_thread::yield();
        auto own = [&](size_t p) { size_t q = t.lo + p; return BI(buf.st.p + q / D, q % D); };
        auto sha = [&](size_t p) { return BI(src.st.p + p / D, p % D); };
        auto at = [&](size_t p) { return shv.begin() + (std::ptrdiff_t)p; };
        size_t k = 0;
        for (auto& st : t.steps) {
            ++k;
            switch (st.kind) {
            case K_OWN: case K_SHARED: {
                bool sh = st.kind == K_SHARED; AlgRes e, r; uint8_t* ma = sh ? src.m.data() + st.a : t.m.data() + st.a;
                r = call_alg(st.alg, sh ? sha(st.a) : own(st.a), own(st.b), own(st.d), st.len, st.par);
                e = model_alg(st.alg, ma, t.m.data() + st.b, t.m.data() + st.d, st.len, st.par);
                PBT_CHECK(r == e, "step " << k << " " << alg_name(st.alg) << " returned " << r << ", expected " << e);
                for (int64_t i = e.dc_lo; i < e.dc_hi; ++i) { size_t q = t.lo + st.a + (size_t)i; t.m[st.a + (size_t)i] = (buf.st.p[q / D] >> (q % D)) & 1; }
                for (size_t i = 0; i < t.n; ++i) { size_t q = t.lo + i; int g = (buf.st.p[q / D] >> (q % D)) & 1; PBT_CHECK(g == t.m[i], "after step " << k << " " << alg_name(st.alg) << " bit " << i << " of the thread's segment is " << g << ", expected " << (int)t.m[i]); }
                break; }
            case K_VEC: apply_op(t.v, t.vm, st.op); check_vec(t.v, t.vm, "own vector"); break;
            case K_FROM: t.v.insert(t.v.begin() + (std::ptrdiff_t)st.a, at(st.b), at(st.b + st.len)); t.vm.insert(t.vm.begin() + st.a, shm.begin() + st.b, shm.begin() + st.b + st.len); check_vec(t.v, t.vm, "own vector"); break;
            case K_READ: {
                size_t a = st.a, b = st.a + st.len; auto bv = st.par & 1 ? bit::bit1 : bit::bit0; uint8_t x = st.par & 1;
                switch (st.par / 2) {
                case 0: for (size_t i = a; i < b; ++i) PBT_CHECK((bool)kshv[i] == (bool)shm[i] && (bool)kshv.at(i) == (bool)shm[i], "shared element " << i); break;
                case 1: PBT_CHECK(bit::count(kshv.begin() + (std::ptrdiff_t)a, kshv.begin() + (std::ptrdiff_t)b, bv) == std::count(shm.begin() + a, shm.begin() + b, x), "count of the shared vector"); break;
                default: PBT_CHECK(bit::find(kshv.begin() + (std::ptrdiff_t)a, kshv.begin() + (std::ptrdiff_t)b, bv) - kshv.begin() == std::find(shm.begin() + a, shm.begin() + b, x) - shm.begin(), "find in the shared vector");
                }
                break; }
            default: {
                size_t a = st.a, b = st.a + st.len; Model sub(shm.begin() + a, shm.begin() + b);
                switch (st.par) {
                case 0: { V o(kshv); check_vec(o, shm, "copy of the shared vector"); break; }
                case 1: { V o(at(a), at(b)); check_vec(o, sub, "vector from shared range"); break; }
                case 2: { V o; o = kshv; check_vec(o, shm, "assigned copy of the shared vector"); break; }
                case 3: { std::string z; for (auto q : sub) z += (char)('0' + q); V o(z); check_vec(o, sub, "vector from text"); break; }
                case 4: { V o(st.len, bit::bit1); check_vec(o, Model(st.len, 1), "vector of ones"); break; }
                default: { if (st.len > 2000) break; V o(at(a), at(b)); std::string z, g; for (auto q : sub) z += (char)('0' + q); for (char ch : o.debug_string()) if (ch == '0' || ch == '1') g += ch; PBT_CHECK(z == g, "debug_string"); }
                } }
            }
        }
    };
    std::vector<std::thread> ts;
    for (auto& t : th) ts.emplace_back([&] { try { body(t); } catch (const Failure& f) { t.fail = f.msg.empty() ? "?" : f.msg; } catch (const std::exception& e) { t.fail = std::string("exception ") + e.what(); } });
    for (auto& t : ts) t.join();
    for (size_t k = 0; k < T; ++k) PBT_CHECK(th[k].fail.empty(), "thread " << k << ": " << th[k].fail);
    for (size_t k = 0; k < T; ++k) std::copy(th[k].m.begin(), th[k].m.end(), buf.m.begin() + th[k].lo);
    buf.compare("storage afterwards"); src.compare("shared source afterwards"); check_vec(shv, shm, "shared vector afterwards");
}
void small(Source& s, Ctx& c) { with_word(s, [&](auto w) { conc_w<decltype(w)>(s, c, false); }); }
void large(Source& s, Ctx& c) { with_word(s, [&](auto w) { conc_w<decltype(w)>(s, c, true); }); }
}
std::vector<Test> pbt::tests() { return { {"small", small, false, 12000, 300000}, {"large", large, false, 4000, 100000} }; }
