// C41: a linear overload calls the first of its functions that accepts the arguments, and no other; arguments and result pass through unchanged.
#include "pbt.hpp"
#include "bitlib/bit-iterator/linear_overload.hpp"
#include <array>
#include <string>
#include <tuple>
#include <type_traits>
using namespace pbt;
namespace {
// What the called function saw.
struct Seen { int fn = -1, calls = 0; const void* arg = nullptr; std::string text; int64_t num = 0; } seen;
struct Base { int id = -1, calls = 0; void hit() { ++calls; ++seen.calls; seen.fn = id; } };
using Str = std::string;
// A value that knows how often it was copied on its way.
struct Tok { int v = 0, copies = 0; bool moved = false; explicit Tok(int x) : v(x) {} Tok(const Tok& o) : v(o.v), copies(o.copies + 1) {} Tok(Tok&& o) noexcept : v(o.v), copies(o.copies) { o.moved = true; } };
struct Num : Base { int operator()(int v) { hit(); seen.num = v; return v + 1; } };
struct CStr : Base { const Str& operator()(const Str& s) { hit(); seen.arg = &s; seen.text = s; return s; } };
struct MStr : Base { Str& operator()(Str& s) { hit(); seen.arg = &s; seen.text = s; s += "!"; return s; } };
struct Own : Base { Tok operator()(Tok p) { hit(); seen.num = p.v; return p; } };
struct Two : Base { Tok operator()(int a, Tok b) { hit(); seen.num = a; return b; } };
struct Any : Base { template <class T, class = std::enable_if_t<!std::is_pointer<std::remove_reference_t<T>>::value>> T operator()(T&& t) { hit(); seen.arg = &t; return std::forward<T>(t); } Str operator()() { hit(); return "none"; } };
template <int I> struct Fn; template <> struct Fn<1> { using T = Num; }; template <> struct Fn<2> { using T = CStr; }; template <> struct Fn<3> { using T = MStr; }; template <> struct Fn<4> { using T = Own; }; template <> struct Fn<5> { using T = Two; }; template <> struct Fn<6> { using T = Any; };
const char* const fname[] = {"", "(int)", "(const string&)", "(string&)", "(token)", "(int, token)", "(anything but a pointer) or ()"};
constexpr int NF = 7, NK = 9;
const char* const kname[NK] = {"int", "string lvalue", "const string", "string rvalue", "token rvalue", "int, token rvalue", "nothing", "void*", "string, int"};

// The arguments of one call and what came back.
struct Args { int i; Tok p; Str s, t; void* q = nullptr; };
struct Out { enum Kind { NOTHING, VALUE, REF, CREF } kind = NOTHING; enum Type { NONE, INT, TOK, STR } type = NONE; int64_t num = 0; int copies = 0; Str text; const void* addr = nullptr; };
void put(Out& o, int x) { o.type = Out::INT; o.num = x; }
void put(Out& o, const Str& x) { o.type = Out::STR; o.text = x; o.addr = &x; }
void put(Out& o, const Tok& x) { o.type = Out::TOK; o.num = x.v; o.copies = x.copies; }
template <class R> Out keep(R&& r) { Out o; o.kind = !std::is_lvalue_reference<R>::value ? Out::VALUE : std::is_const<std::remove_reference_t<R>>::value ? Out::CREF : Out::REF; put(o, r); return o; }
template <class O, class... A> Out inv(O& o, A&&... a) { if constexpr (std::is_void<decltype(o(std::forward<A>(a)...))>::value) { o(std::forward<A>(a)...); return Out(); } else return keep<decltype(o(std::forward<A>(a)...))>(o(std::forward<A>(a)...)); }
template <int K, class O> Out call(O& o, Args& a) {
    if constexpr (K == 0) return inv(o, int(a.i)); else if constexpr (K == 1) return inv(o, a.s); else if constexpr (K == 2) return inv(o, std::as_const(a.s)); else if constexpr (K == 3) return inv(o, std::move(a.s));
    else if constexpr (K == 4) return inv(o, std::move(a.p)); else if constexpr (K == 5) return inv(o, int(a.i), std::move(a.p)); else if constexpr (K == 6) return inv(o); else if constexpr (K == 7) return inv(o, a.q); else return inv(o, std::move(a.s), int(a.i));
}
struct Report { std::vector<int> held, held_const, original; size_t size, max_size; bool empty; };
Args make(int64_t v, const Str& t) { return Args{(int)(v & 0xffff), Tok((int)(v >> 3)), t, t}; }
// What one call did, given the kind (1..6) of the function that should have run, or 0.
void judge(int k, int fn, int kind, const Args& a, const Out& r) {
    PBT_CHECK(seen.fn == fn && seen.calls == (fn >= 0), "function " << seen.fn << " was called (" << seen.calls << " calls in all), expected function " << fn);
    const bool s_gone = k == 3 && kind == 6, p_gone = (k == 4 || k == 5) && kind != 0;
    PBT_CHECK(a.p.moved == p_gone && a.p.copies == 0, (p_gone ? "the token was not moved from" : "the token was consumed"));
    if (!s_gone) PBT_CHECK(a.s == (kind == 3 ? a.t + "!" : a.t), "the string became '" << a.s << "'");
    auto is = [&](Out::Kind q, Out::Type t) { PBT_CHECK(r.kind == q && r.type == t, "the result has kind " << r.kind << " and type " << r.type << ", expected " << q << " and " << t); };
    auto tok = [&] { is(Out::VALUE, Out::TOK); PBT_CHECK(r.num == a.p.v && r.copies == 0, "the token came back as " << r.num << " after " << r.copies << " copies, expected " << a.p.v << " and none"); };
    switch (kind) {
    case 0: is(Out::NOTHING, Out::NONE); break;
    case 1: is(Out::VALUE, Out::INT); PBT_CHECK(seen.num == a.i && r.num == a.i + 1, "was given " << seen.num << " and returned " << r.num << " for " << a.i); break;
    case 2: case 3: is(kind == 2 ? Out::CREF : Out::REF, Out::STR); PBT_CHECK(seen.arg == &a.s && r.addr == &a.s && seen.text == a.t, "the string was not passed and returned by reference"); break;
    case 4: tok(); PBT_CHECK(seen.num == a.p.v, "was given token " << seen.num << ", expected " << a.p.v); break;
    case 5: tok(); PBT_CHECK(seen.num == a.i, "was given " << seen.num << ", expected " << a.i); break;
    default:
        if (k == 0) { is(Out::VALUE, Out::INT); PBT_CHECK(r.num == a.i, "returned " << r.num << " for " << a.i); }
        else if (k == 1 || k == 2) { is(k == 1 ? Out::REF : Out::CREF, Out::STR); PBT_CHECK(seen.arg == &a.s && r.addr == &a.s, "the string was not passed and returned by reference"); }
        else if (k == 3) { is(Out::VALUE, Out::STR); PBT_CHECK(seen.arg == &a.s && r.text == a.t, "the string was not forwarded as an rvalue"); }
        else if (k == 4) { tok(); PBT_CHECK(seen.arg == &a.p, "the token was not passed by reference"); }
        else { is(Out::VALUE, Out::STR); PBT_CHECK(r.text == "none", "returned '" << r.text << "'"); }
    }
}
// The reference: which function (position, kind) of a list accepts arguments of kind k.  Kinds 1..6 as in fname.
bool accepts(int kind, int k) {
    switch (kind) { case 1: return k == 0; case 2: return k == 1 || k == 2 || k == 3; case 3: return k == 1; case 4: return k == 4; case 5: return k == 5; default: return k <= 4 || k == 6; }
}
struct Step {
    int k, fn, kind, times; int64_t v; const Str& t;
    Args args(int n) const { seen = Seen{}; return make(v + n, t); }
    void judge(int n, const Args& a, const Out& x) const { ::judge(k, fn, kind, a, x); }
};
template <class... F> struct Set {
    template <class O, size_t... I> static std::vector<int> held(O& o, std::index_sequence<I...>) { return std::vector<int>{o.template get<I>().calls...}; }
    template <class O> static void sizes(O& o, Report& r) { r.size = o.size(); r.max_size = o.max_size(); r.empty = o.empty(); const O& co = o; r.held = held(o, std::index_sequence_for<F...>{}); r.held_const = held(co, std::index_sequence_for<F...>{}); }
    static std::tuple<F...> fresh() { std::tuple<F...> f; int id = 0; (void)id; std::apply([&](auto&... x) { ((x.id = id++), ...); }, f); return f; }
    static std::vector<int> counts(std::tuple<F...>& f) { return std::apply([](auto&... x) { return std::vector<int>{x.calls...}; }, f); }
    template <class O> static void drive(O& o, Report& r, const Step& step) {
        using Call = Out (*)(O&, Args&); static constexpr Call calls[NK] = {&call<0, O>, &call<1, O>, &call<2, O>, &call<3, O>, &call<4, O>, &call<5, O>, &call<6, O>, &call<7, O>, &call<8, O>};
        for (int n = 0; n < step.times; ++n) { Args a = step.args(n); const Out x = calls[step.k](o, a); step.judge(n, a, x); }
        sizes(o, r);
    }
    // An overload set that refers to its functions (mode 0) or owns them.
    static void run(int mode, Report& r, const Step& step) {
        auto f = fresh();
        if (mode == 0) { auto o = std::apply([](auto&... x) { return bit::overload_linearly(x...); }, f); drive(o, r, step); }
        else { auto o = std::apply([](auto&... x) { return bit::overload_linearly(F(x)...); }, f); drive(o, r, step); }
        r.original = counts(f);
    }
};
template <class L, int... D> struct Build; template <class... F> struct Build<Set<F...>> { using T = Set<F...>; };
template <class... F, int H, int... D> struct Build<Set<F...>, H, D...> : Build<std::conditional_t<H == 0, Set<F...>, Set<F..., typename Fn<H ? H : 1>::T>>, D...> {};
using Run = void (*)(int, Report&, const Step&);
// The i-th function of a list: up to two of any kind, then perhaps the one that takes anything; then lists of all six in twelve orders.
constexpr int SHORT = NF * NF * 2, NC = SHORT + 12, MAXF = 6;
constexpr int fn_at(int c, int i) { return c < SHORT ? (i == 0 ? c / (NF * 2) % NF : i == 1 ? c / 2 % NF : i == 2 && c % 2 ? NF - 1 : 0) : c < SHORT + 6 ? (c - SHORT + i) % 6 + 1 : (c - SHORT + 12 - i) % 6 + 1; }
template <int C> struct Code { using T = typename Build<Set<>, fn_at(C, 0), fn_at(C, 1), fn_at(C, 2), fn_at(C, 3), fn_at(C, 4), fn_at(C, 5)>::T; };
template <int... C> const std::array<Run, sizeof...(C)>& table(std::integer_sequence<int, C...>) { static const std::array<Run, sizeof...(C)> t = {{&Code<C>::T::run...}}; return t; }
void check(Source& s, Ctx& c) {
    const int code = (int)(s.small_scope || s.draw(4) ? s.draw(NC) : SHORT + s.draw(NC - SHORT)), k = (int)s.draw(NK), mode = (int)s.draw(2), times = s.small_scope ? 2 : 1 + (int)s.draw(4);
    const int64_t v = s.small_scope ? 41 : (int64_t)s.draw(1 << 24); const Str t = s.small_scope ? Str("text") : Str((size_t)s.draw(40), 'x'); s.ready();
    int n = 0; std::string d; for (int i = 0; i < MAXF; ++i) if (const int x = fn_at(code, i)) { d += (n++ ? ", " : "") + std::string(fname[x]); }
    c.describe([&](auto& o) { o << (mode ? "copies of " : "references to ") << "{" << d << "} called " << times << " times with " << kname[k]; });
    c.label(n == 0 ? "functions: 0" : n == 1 ? "functions: 1" : n == 2 ? "functions: 2" : n == 3 ? "functions: 3" : "functions: 6"); c.label(kname[k]); c.nontrivial(n >= 2);
    int fn = -1, kind = 0, at = 0; for (int i = 0; i < MAXF; ++i) if (const int x = fn_at(code, i)) { if (fn < 0 && accepts(x, k)) { fn = at; kind = x; } ++at; }
    Report r; table(std::make_integer_sequence<int, NC>{})[(size_t)code](mode, r, Step{k, fn, kind, times, v, t});
    PBT_CHECK((int)r.size == n && r.empty == (n == 0) && r.max_size == r.size, "size() is " << r.size << " for " << n << " functions");
    PBT_CHECK(r.held == r.held_const, "get() on a const overload sees other functions");
    for (int i = 0; i < n; ++i) {
        const int want = i == fn ? times : 0;
        PBT_CHECK(r.held[(size_t)i] == want, "function " << i << " counts " << r.held[(size_t)i] << " calls, expected " << want);
        PBT_CHECK(r.original[(size_t)i] == (mode ? 0 : want), "the original function " << i << " counts " << r.original[(size_t)i] << " calls, expected " << (mode ? 0 : want));
    }
}
}
std::vector<Test> pbt::tests() { return {{"overload", check, false, 150000, 2000000}, {"overload_all", check, true, 1, 1}}; }
