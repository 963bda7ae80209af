// opt::optional against std::optional (C19), comparisons (C20), lifetimes and exceptions (C21),
// references and void (C22). Compiled per group: -DOPT_G=0..6, plus -DOPT_MAIN.
#include <optional.hpp>
#include <string>       // optional.hpp is used on its own
#ifdef OPT_MAIN
#include "vp_main.hpp"
#else
#include "vp.hpp"
#endif
#include <functional>
#include <memory>
#include <optional>
#include <type_traits>
#include <vector>

using vp::chance;
using vp::fail;
using vp::pick;
using vp::range;
using vp::trace;

// ---- values ---------------------------------------------------------------------------------------
enum class Color : short { Red, Green = 7, Blue = -3 };
struct BaseO { int b; virtual ~BaseO() = default; };
struct DerivedO : BaseO { int d; };
inline DerivedO objects[4];
struct alignas(64) Wide
{
    long v[8];
    char tail;
    Wide() : v{}, tail(0) {}
    explicit Wide(int x) : tail((char)x) { for (int i = 0; i < 8; ++i) v[i] = x * 3L + i; }
    bool operator==(const Wide& o) const { for (int i = 0; i < 8; ++i) if (v[i] != o.v[i]) return false; return tail == o.tail; }
    bool operator!=(const Wide& o) const { return !(*this == o); }
    Wide* operator&() { return nullptr; }       // not its address
    const Wide* operator&() const { return nullptr; }
};
struct Amp      // a value whose & is not its address, either
{
    int v = 0;
    Amp* operator&() { static Amp other; return std::addressof(other); }
    const Amp* operator&() const { static const Amp other; return std::addressof(other); }
};
struct Pair { int a; std::string b; Pair(int x, std::string y) : a(x), b(std::move(y)) {} bool operator==(const Pair& o) const { return a == o.a && b == o.b; } };

template<class T> struct Gen;
template<> struct Gen<int> { using U = short; static int val() { return vp::anyInt(); } static short uval() { return (short)vp::anyInt(); } };
template<> struct Gen<double> { using U = float; static double val() { static const double b[] = { 0.0, -0.0, 1.5, -1e300, 1e-300, 1e300, 255, 256 }; return pick(2) ? b[pick(8)] : vp::anyInt() / 3.0; } static float uval() { return (float)range(-1000, 1000) / 4; } };
template<> struct Gen<bool> { using U = bool; static bool val() { return pick(2); } static bool uval() { return pick(2); } };
template<> struct Gen<unsigned char> { using U = unsigned char; static unsigned char val() { return (unsigned char)pick(256); } static unsigned char uval() { return val(); } };
template<> struct Gen<Color> { using U = Color; static Color val() { static const Color c[] = { Color::Red, Color::Green, Color::Blue }; return c[pick(3)]; } static Color uval() { return val(); } };
template<> struct Gen<BaseO*> { using U = DerivedO*; static BaseO* val() { int i = range(-1, 3); return i < 0 ? nullptr : &objects[i]; } static DerivedO* uval() { int i = range(-1, 3); return i < 0 ? nullptr : &objects[i]; } };
template<> struct Gen<std::string>
{
    using U = const char*;
    static std::string val() { int n = range(0, 3); return n == 0 ? std::string() : n == 1 ? std::string(1, (char)('a' + pick(26))) : n == 2 ? std::string(range(10, 40), 'x') : "value " + std::to_string(range(0, 999)); }
    static const char* uval() { static const char* const s[] = { "", "a", "converted from a literal, longer than the small buffer", "zz" }; return s[pick(4)]; }
};
template<> struct Gen<std::vector<int>>
{
    using U = std::vector<int>;
    static std::vector<int> val() { return std::vector<int>(pick(6), range(0, 9)); }
    static std::vector<int> uval() { return val(); }
};
template<> struct Gen<Wide> { using U = Wide; static Wide val() { return Wide(range(0, 120)); } static Wide uval() { return val(); } };
template<> struct Gen<Pair> { using U = Pair; static Pair val() { return Pair(range(0, 9), Gen<std::string>::val()); } static Pair uval() { return val(); } };
template<> struct Gen<std::unique_ptr<int>> { using U = std::unique_ptr<int>; static std::unique_ptr<int> val() { return chance(1, 5) ? nullptr : std::make_unique<int>(range(0, 999)); } static std::unique_ptr<int> uval() { return val(); } };
template<> struct Gen<std::shared_ptr<BaseO>>
{
    using U = std::shared_ptr<DerivedO>;
    static std::shared_ptr<BaseO> val() { return chance(1, 5) ? nullptr : std::make_shared<DerivedO>(); }
    static std::shared_ptr<DerivedO> uval() { return chance(1, 5) ? nullptr : std::make_shared<DerivedO>(); }
};

// What can be compared: a fingerprint of the value.
template<class T> bool same(const T& a, const T& b) { return a == b; }
inline bool same(const double& a, const double& b) { return memcmp(&a, &b, sizeof a) == 0; }

// ---- C19 ------------------------------------------------------------------------------------------
template<class T> struct Model19
{
    using O = opt::optional<T>;
    using M = std::optional<T>;
    using U = typename Gen<T>::U;
    static constexpr bool copyable = std::is_copy_constructible<T>::value;
    static constexpr bool conv = !std::is_same<U, T>::value;
    static constexpr int N = 4;
    static constexpr bool moveOnlyPtr = std::is_same<T, std::unique_ptr<int>>::value;

    std::unique_ptr<O> o[N];
    M m[N];
    bool didGive = false, didEmpty = false;

    // A second copy of a value (deep for the move-only type, whose identity is then compared by content).
    static T dup(const T& v)
    {
        if constexpr (moveOnlyPtr) return v ? std::make_unique<int>(*v) : nullptr;
        else return v;
    }
    static bool eq(const T& a, const T& b)
    {
        if constexpr (moveOnlyPtr) return bool(a) == bool(b) && (!a || *a == *b);
        else return same(a, b);
    }

    void set(int i, std::unique_ptr<O> p) { o[i] = std::move(p); }

    void check(int i, bool throwing = true)
    {
        O& x = *o[i];
        const O& c = x;
        bool e = m[i].has_value();
        if (x.has_value() != e || c.has_value() != e || bool(c) != e || !c == e || c.is_initialized() != e)
            fail("optional %d is %s, expected %s", i, c.has_value() ? "engaged" : "empty", e ? "engaged" : "empty");
        if ((c == opt::nullopt) == e || (opt::nullopt == c) == e || (c != opt::nullopt) != e) fail("comparison with nullopt is wrong");
        if ((x.get_ptr() != nullptr) != e || (c.get_ptr() != nullptr) != e || (opt::get_pointer(c) != nullptr) != e || (opt::get(&c) != nullptr) != e)
            fail("get_ptr of optional %d is wrong", i);
        if (reinterpret_cast<uintptr_t>(&x) % alignof(O)) fail("optional misaligned by the harness");
        if (e)
        {
            const T& v = *m[i];
            if (!eq(*c, v) || !eq(*x, v) || !eq(c.value(), v) || !eq(x.value(), v) || !eq(c.get(), v) || !eq(x.get(), v) || !eq(*c.get_ptr(), v)
                || !eq(*opt::get_pointer(x), v) || !eq(opt::get(c), v) || !eq(opt::get(x), v) || !eq(*opt::get(&x), v))
                fail("optional %d does not hold the value given to it", i);
            if (std::addressof(*c) != c.get_ptr() || std::addressof(*x) != std::addressof(x.value()) || c.operator->() != std::addressof(*c) || x.operator->() != std::addressof(*c) || std::addressof(x.get()) != std::addressof(*c)) fail("accessors disagree on the address");
            if (reinterpret_cast<uintptr_t>(std::addressof(*c)) % alignof(T)) fail("value of optional %d is misaligned", i);
            if (reinterpret_cast<const char*>(std::addressof(*c)) < reinterpret_cast<const char*>(&c) || reinterpret_cast<const char*>(std::addressof(*c) + 1) > reinterpret_cast<const char*>(&c + 1))
                fail("value is not stored in the optional");
        }
        else if (throwing)
        {
            int caught = 0;
            try { (void)c.value(); } catch (opt::bad_optional_access& ex) { caught += ex.what() != nullptr; } catch (...) { fail("value() threw the wrong type"); }
            try { (void)x.value(); } catch (opt::bad_optional_access&) { ++caught; } catch (...) { fail("value() threw the wrong type"); }
            try { (void)std::move(x).value(); } catch (opt::bad_optional_access&) { ++caught; } catch (...) { fail("value() threw the wrong type"); }
            if (caught != 3) fail("value() of an empty optional did not throw bad_optional_access");
        }
        T fb = Gen<T>::val();
        const T& r = c.get_value_or(fb);
        if (std::addressof(r) != (e ? std::addressof(*c) : std::addressof(fb))) fail("get_value_or returned the wrong object");
        T& r2 = x.get_value_or(fb);
        if (std::addressof(r2) != (e ? std::addressof(*c) : std::addressof(fb))) fail("get_value_or returned the wrong object");
        if (std::addressof(opt::get_optional_value_or(c, fb)) != std::addressof(r) || std::addressof(opt::get_optional_value_or(x, fb)) != std::addressof(r)) fail("get_optional_value_or returned the wrong object");
        if constexpr (copyable)
        {
            if (!eq(c.value_or(fb), e ? *m[i] : fb)) fail("value_or returned the wrong value");
            if constexpr (conv)
            {
                U u = Gen<T>::uval();
                if (!eq(c.value_or(u), e ? *m[i] : static_cast<T>(u))) fail("value_or returned the wrong value");
            }
        }
    }
    void note(int i) { if (m[i]) didGive = true; else didEmpty = true; }

    void run()
    {
        for (int i = 0; i < N; ++i) o[i].reset(new O());
        for (int i = 0; i < N; ++i) check(i);
        int n = chance(1, 3) ? range(20, 60) : range(1, 20);
        for (int q = 0; q < n; ++q)
        {
            int i = pick(N), j = pick(N);
            int op = range(0, 31);
            trace("op %d on %d, %d", op, i, j);
            step(op, i, j);
            note(i);
            for (int k = 0; k < N; ++k) check(k, k == i && pick(8) == 0);
        }
        for (int k = 0; k < N; ++k) check(k);
        if (didGive && didEmpty && n >= 3) vp::nontrivial();
    }
    void step(int op, int i, int j)
    {
        O& x = *o[i];
        switch (op)
        {
        case 0: x.reset(); m[i].reset(); break;
        case 1: { O& r = (x = opt::nullopt); if (&r != &x) fail("assignment does not return *this"); m[i].reset(); break; }
        case 2:
            if constexpr (copyable)
            {
                const T v = Gen<T>::val();
                O& r = (x = v);
                if (&r != &x) fail("assignment does not return *this");
                m[i] = v;
            }
            break;
        case 3:
            if constexpr (copyable) { T v = Gen<T>::val(); T w = v; x = v; if (!eq(v, w)) fail("assignment changed its operand"); m[i] = w; }
            break;
        case 4: { T v = Gen<T>::val(); m[i] = dup(v); x = std::move(v); break; }
        case 5: { T v = Gen<T>::val(); m[i] = dup(v); x.emplace(std::move(v)); break; }
        case 6: // emplace with constructor arguments
            if constexpr (std::is_same<T, std::string>::value) { int k = range(0, 40); x.emplace(k, 'q'); m[i].emplace(k, 'q'); }
            else if constexpr (std::is_same<T, std::vector<int>>::value) { x.emplace({ 3, 1, 2 }); m[i].emplace({ 3, 1, 2 }); }
            else if constexpr (std::is_same<T, Pair>::value) { x.emplace(4, "four"); m[i].emplace(4, "four"); }
            else if constexpr (std::is_same<T, Wide>::value) { int k = range(0, 99); x.emplace(k); m[i].emplace(k); }
            else if constexpr (std::is_default_constructible<T>::value) { x.emplace(); m[i].emplace(); }
            break;
        case 7:
            if constexpr (copyable) { const O& src = *o[j]; O& r = (x = src); if (&r != &x) fail("assignment does not return *this"); m[i] = m[j]; }
            break;
        case 8:
            if constexpr (copyable) { x = *o[j]; m[i] = m[j]; }
            break;
        case 9: // move-assign; the source keeps or loses its value, but stays usable
            if (i != j)
            {
                if (m[j]) m[i] = dup(*m[j]); else m[i].reset();
                O& r = (x = std::move(*o[j]));
                if (&r != &x) fail("assignment does not return *this");
                resync(j);
            }
            break;
        case 10:
            if constexpr (copyable) { const O& src = *o[j]; set(i, std::make_unique<O>(src)); m[i] = m[j]; }
            break;
        case 11:
            if (i != j)
            {
                if (m[j]) m[i] = dup(*m[j]); else m[i].reset();
                set(i, std::unique_ptr<O>(new O(std::move(*o[j]))));
                resync(j);
            }
            break;
        case 12: x.swap(*o[j]); m[i].swap(m[j]); break;
        case 13: std::swap(x, *o[j]); m[i].swap(m[j]); break;
        case 14: { using std::swap; swap(x, *o[j]); m[i].swap(m[j]); break; }
        case 15: // from an optional of another type
            if constexpr (conv)
            {
                opt::optional<U> u; std::optional<U> mu;
                if (pick(4)) { U v = Gen<T>::uval(); u = v; mu = v; }
                if (pick(2)) { const auto& cu = u; x = cu; } else x = std::move(u);
                if (mu) m[i] = static_cast<T>(*mu); else m[i].reset();
            }
            break;
        case 16:
            if constexpr (conv)
            {
                opt::optional<U> u; std::optional<U> mu;
                if (pick(4)) { U v = Gen<T>::uval(); u = v; mu = v; }
                if (pick(2)) { const auto& cu = u; set(i, std::unique_ptr<O>(new O(cu))); } else set(i, std::unique_ptr<O>(new O(std::move(u))));
                if (mu) m[i] = static_cast<T>(*mu); else m[i].reset();
            }
            break;
        case 17: { T v = Gen<T>::val(); m[i] = dup(v); set(i, std::unique_ptr<O>(new O(std::move(v)))); break; }
        case 18: if constexpr (copyable) { const T v = Gen<T>::val(); m[i] = v; set(i, std::unique_ptr<O>(new O(v))); } break;
        case 19: { T v = Gen<T>::val(); m[i] = dup(v); set(i, std::unique_ptr<O>(new O(opt::in_place, std::move(v)))); break; }
        case 20:
        {
            bool c = pick(2);
            T v = Gen<T>::val();
            if (c) m[i] = dup(v); else m[i].reset();
            set(i, std::unique_ptr<O>(new O(opt::in_place_if, c, std::move(v))));
            break;
        }
        case 21:
        {
            bool c = pick(2);
            T v = Gen<T>::val();
            if (c) m[i] = dup(v); else m[i].reset();
            set(i, std::unique_ptr<O>(new O(c, std::move(v))));
            break;
        }
        case 22: set(i, std::unique_ptr<O>(new O())); m[i].reset(); break;
        case 23: set(i, std::unique_ptr<O>(new O(opt::nullopt))); m[i].reset(); break;
        case 24: // write through an accessor
            if (m[i])
            {
                T v = Gen<T>::val();
                m[i] = dup(v);
                switch (pick(6))
                {
                case 0: *x = std::move(v); break;
                case 1: x.value() = std::move(v); break;
                case 2: x.get() = std::move(v); break;
                case 3: *x.get_ptr() = std::move(v); break;
                case 4: *x.operator->() = std::move(v); break;
                default: { T f = Gen<T>::val(); x.get_value_or(f) = std::move(v); break; }
                }
            }
            break;
        case 25: // move the value out
            if (m[i])
            {
                T e = dup(*m[i]);
                int how = pick(3);
                if (how == 0) { T v = *std::move(x); if (!eq(v, e)) fail("*move(o) is not the value"); }
                else if (how == 1) { T v = std::move(x).value(); if (!eq(v, e)) fail("move(o).value() is not the value"); }
                else { T f = Gen<T>::val(); T v = std::move(x).value_or(std::move(f)); if (!eq(v, e)) fail("move(o).value_or() is not the value"); }
                if (!x.has_value()) fail("moving the value out changed whether the optional is engaged");
                T v = Gen<T>::val();
                m[i] = dup(v);
                x = std::move(v);
            }
            else
            {
                T f = Gen<T>::val();
                T e = dup(f);
                T v = std::move(x).value_or(std::move(f));
                if (!eq(v, e)) fail("value_or did not return the fallback");
            }
            break;
        case 26: // self-assignment
            if constexpr (copyable) { O* volatile self = &x; x = static_cast<const O&>(*self); }
            break;
        case 27: // own value
            if constexpr (copyable) if (m[i]) { const T& v = *x; x = v; }
            break;
        case 28: // make_optional
        {
            T v = Gen<T>::val();
            m[i] = dup(v);
            set(i, std::unique_ptr<O>(new O(opt::make_optional(std::move(v)))));
            break;
        }
        case 29:
            if constexpr (std::is_same<T, std::string>::value)
            {
                bool c = pick(2);
                set(i, std::unique_ptr<O>(new O(opt::in_place_if, c, 5, 'z')));
                if (c) m[i].emplace(5, 'z'); else m[i].reset();
            }
            else if constexpr (std::is_same<T, std::vector<int>>::value)
            {
                bool c = pick(2);
                std::initializer_list<int> il = { 9, 8, 7 };
                if (pick(2)) { set(i, std::unique_ptr<O>(new O(opt::in_place, il))); m[i] = std::vector<int>(il); }
                else { set(i, std::unique_ptr<O>(new O(opt::in_place_if, c, il))); if (c) m[i] = std::vector<int>(il); else m[i].reset(); }
            }
            else if constexpr (std::is_same<T, Pair>::value)
            {
                set(i, std::unique_ptr<O>(new O(opt::in_place, 11, "eleven")));
                m[i].emplace(11, "eleven");
            }
            break;
        case 30: // in a container
            if constexpr (copyable)
            {
                std::vector<O> v;
                for (int k = 0; k < N; ++k) v.push_back(*o[k]);
                int grow = range(1, 9);
                for (int k = 0; k < grow; ++k) v.emplace_back();
                for (int k = 0; k < N; ++k)
                    if (v[k].has_value() != m[k].has_value() || (m[k] && !eq(*v[k], *m[k]))) fail("optional in a growing vector changed");
                x = v[j];
                m[i] = m[j];
            }
            break;
        default: break;
        }
    }
    // A moved-from optional: engaged as before for std::optional; give it a definite value.
    void resync(int j)
    {
        if (o[j]->has_value() != m[j].has_value()) fail("moving from an optional changed whether it is engaged");
        if (pick(2)) { o[j]->reset(); m[j].reset(); }
        else { T v = Gen<T>::val(); m[j] = dup(v); *o[j] = std::move(v); }
    }
};

// Construction in place: the value is built from exactly the arguments given, temporaries are moved
// into it and named arguments are left alone.
struct Part
{
    int v;
    explicit Part(int x) : v(x) {}
    Part(const Part& o) : v(o.v) {}
    Part(Part&& o) noexcept : v(o.v) { o.v = -1; }
    Part& operator=(const Part&) = default;
};
struct Built
{
    long sum = 0;
    std::vector<int> list;
    int a = 0, b = 0;
    bool aMoved = false, bMoved = false;
    Built() = default;
    Built(std::initializer_list<int> il) : list(il) {}
    Built(Part&& x, const Part& y) : a(x.v), b(y.v), aMoved(true) {}
    Built(const Part& x, Part&& y) : a(x.v), b(y.v), bMoved(true) {}
    Built(const Part& x, const Part& y) : a(x.v), b(y.v) {}
    Built(Part&& x, Part&& y) : a(x.v), b(y.v), aMoved(true), bMoved(true) {}
    Built(std::initializer_list<int> il, Part&& x, const Part& y) : list(il), a(x.v), b(y.v), aMoved(true) {}
    Built(std::initializer_list<int> il, const Part& x, Part&& y) : list(il), a(x.v), b(y.v), bMoved(true) {}
    Built(std::initializer_list<int> il, const Part& x, const Part& y) : list(il), a(x.v), b(y.v) {}
    Built(std::initializer_list<int> il, Part&& x, Part&& y) : list(il), a(x.v), b(y.v), aMoved(true), bMoved(true) {}
    bool operator==(const Built& o) const { return list == o.list && a == o.a && b == o.b && aMoved == o.aMoved && bMoved == o.bMoved; }
};
template<class X, class Y> void built19(opt::optional<Built>& o, std::optional<Built>& m, int how, bool cond, std::initializer_list<int> il, X&& x, Y&& y)
{
    using O = opt::optional<Built>;
    bool withList = false;
    if (how < 9) VP_LABEL("built in place from two arguments");
    else VP_LABEL("built in place from a list and two arguments");
    m.reset();
    switch (how)
    {
    case 0: o.emplace(std::forward<X>(x), std::forward<Y>(y)); cond = true; break;
    case 1: { O n(opt::in_place, std::forward<X>(x), std::forward<Y>(y)); o = n; cond = true; break; }
    case 2: { O n(opt::in_place_if, cond, std::forward<X>(x), std::forward<Y>(y)); o = n; break; }
    case 3: o = opt::make_optional<Built>(std::forward<X>(x), std::forward<Y>(y)); cond = true; break;
    case 4: o = opt::make_optional<Built>(cond, std::forward<X>(x), std::forward<Y>(y)); break;
    case 5: { Built v(std::forward<X>(x), std::forward<Y>(y)); o = opt::make_optional(cond, v); break; }
    case 6: { const Built v(std::forward<X>(x), std::forward<Y>(y)); o = opt::make_optional(v); cond = true; break; }
    case 7: { Built v(std::forward<X>(x), std::forward<Y>(y)); o = opt::make_optional(cond, std::move(v)); break; }
    case 8: { Built v(std::forward<X>(x), std::forward<Y>(y)); o = opt::make_optional(v); cond = true; break; }
    case 9: o.emplace(il, std::forward<X>(x), std::forward<Y>(y)); cond = withList = true; break;
    case 10: { O n(opt::in_place, il, std::forward<X>(x), std::forward<Y>(y)); o = n; cond = withList = true; break; }
    case 11: { O n(opt::in_place_if, cond, il, std::forward<X>(x), std::forward<Y>(y)); o = n; withList = true; break; }
    case 12: o = opt::make_optional<Built>(il, std::forward<X>(x), std::forward<Y>(y)); cond = withList = true; break;
    default: o = opt::make_optional<Built>(cond, il, std::forward<X>(x), std::forward<Y>(y)); withList = true; break;
    }
    if (!cond) return;
    m.emplace();
    if (withList) m->list = il;
    m->a = 1; m->b = 2;
    m->aMoved = !std::is_lvalue_reference<X>::value;
    m->bMoved = !std::is_lvalue_reference<Y>::value;
}
inline void forward19()
{
    opt::optional<Built> o;
    std::optional<Built> m;
    bool gave = false, took = false;
    for (int n = range(1, 12); n > 0; --n)
    {
        Part x(1), y(2);
        const Part cx(1);
        int how = pick(14), cat = pick(5);
        bool cond = pick(2);
        std::initializer_list<int> il = { 4, 5, 6 };
        trace("built in place: way %d, arguments %d, condition %d", how, cat, cond);
        switch (cat)
        {
        case 0: built19(o, m, how, cond, il, x, y); break;
        case 1: built19(o, m, how, cond, il, std::move(x), y); break;
        case 2: built19(o, m, how, cond, il, x, std::move(y)); break;
        case 3: built19(o, m, how, cond, il, std::move(x), std::move(y)); break;
        default: built19(o, m, how, cond, il, cx, y); break;
        }
        if (x.v != 1 || y.v != 2 || cx.v != 1) fail("building in place changed an argument the value's constructor did not take");
        if (o.has_value() != m.has_value()) fail("optional is %s after being built, expected %s", o ? "engaged" : "empty", m ? "engaged" : "empty");
        if (m && !(*o == *m)) fail("the value was not built from the arguments given (list of %d, %d%s, %d%s)", (int)o->list.size(), o->a, o->aMoved ? " as temporary" : "", o->b, o->bMoved ? " as temporary" : "");
        (m ? gave : took) = true;
        // A named value given to an optional is left alone; a temporary is moved.
        std::string s = "a value too long for the small buffer of a string", t = s;
        auto p = opt::make_optional(s);
        auto q = opt::make_optional(cond, s);
        opt::optional<std::string> r(s);
        auto u = opt::make_optional<std::string>(s);
        auto w = opt::make_optional<std::string>(cond, s);
        if (s != t) fail("a named value was moved from");
        if (!p || *p != t || !r || *r != t || !u || *u != t || q.has_value() != cond || w.has_value() != cond || (cond && (*q != t || *w != t))) fail("make_optional lost the value");
        const char* text = s.data();
        auto z = opt::make_optional(std::move(s));
        if (!z || *z != t || z->data() != text) fail("make_optional did not move its argument");
        text = t.data();
        std::string t2 = t;
        auto z2 = opt::make_optional(true, std::move(t));
        if (!z2 || *z2 != t2 || z2->data() != text) fail("make_optional did not move its argument");
    }
    if (gave && took) vp::nontrivial();
}

// ---- C20 ------------------------------------------------------------------------------------------
struct Ordered      // its own operators, all consistent; counts nothing
{
    int k;
    bool operator==(const Ordered& o) const { return k == o.k; }
    bool operator!=(const Ordered& o) const { return k != o.k; }
    bool operator<(const Ordered& o) const { return k < o.k; }
    bool operator>(const Ordered& o) const { return k > o.k; }
    bool operator<=(const Ordered& o) const { return k <= o.k; }
    bool operator>=(const Ordered& o) const { return k >= o.k; }
};
template<class T> T small();
template<> inline int small<int>() { return pick(4) ? range(-2, 2) : vp::anyInt(); }
template<> inline double small<double>() { return pick(4) ? range(-2, 2) : vp::anyInt() / 7.0; }
template<> inline bool small<bool>() { return pick(2); }
template<> inline Color small<Color>() { return Gen<Color>::val(); }
template<> inline std::string small<std::string>() { static const char* const s[] = { "", "a", "ab", "b" }; return s[pick(4)]; }
template<> inline Ordered small<Ordered>() { return Ordered{ range(0, 3) }; }
template<> inline std::vector<int> small<std::vector<int>>() { return std::vector<int>(pick(3), range(0, 1)); }
template<> inline int* small<int*>() { static int a[4]; return &a[pick(4)]; }

// The six results of comparing a and b, in both orders of the operands.
template<class A, class B> unsigned ops(const A& a, const B& b)
{
    return (a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 | (a <= b) << 4 | (a >= b) << 5
        | (b == a) << 6 | (b != a) << 7 | (b < a) << 8 | (b > a) << 9 | (b <= a) << 10 | (b >= a) << 11;
}
inline void sameOps(unsigned got, unsigned want, const char* what)
{
    static const char* const n[] = { "a == b", "a != b", "a < b", "a > b", "a <= b", "a >= b", "b == a", "b != a", "b < a", "b > a", "b <= a", "b >= a" };
    for (int i = 0; i < 12; ++i)
        if ((got ^ want) >> i & 1) fail("%s: %s is %s", what, n[i], got >> i & 1 ? "true" : "false");
}
template<class T> void compare20()
{
    opt::optional<T> a, b;
    std::optional<T> ma, mb;
    if (pick(4)) { T v = small<T>(); a = v; ma = v; }
    if (pick(4)) { T v = pick(3) ? small<T>() : (ma ? *ma : small<T>()); b = v; mb = v; }
    if (chance(1, 3))   // used before: a value may still be in the storage
    {
        opt::optional<T>& x = pick(2) ? a : b;
        std::optional<T>& m = &x == &a ? ma : mb;
        T v = small<T>();
        x = v;
        x.reset();
        m.reset();
        VP_LABEL("comparison with a reset optional");
    }
    trace("compare %s with %s", ma ? "value" : "empty", mb ? "value" : "empty");
    if (ma || mb) vp::nontrivial();
    if (ma && mb && *ma == *mb) VP_LABEL("equal values");
    if (ma && mb && !(*ma == *mb)) VP_LABEL("different values");
    if (bool(ma) != bool(mb)) VP_LABEL("empty with value");
    sameOps(ops(a, b), ops(ma, mb), "optional with optional");
    sameOps(ops(a, opt::nullopt), ops(ma, std::optional<T>()), "optional with nullopt");
    T v = pick(2) || !ma ? small<T>() : *ma;
    sameOps(ops(a, v), ops(ma, std::optional<T>(v)), "optional with value");
    // References to values
    T t1 = small<T>(), t2 = pick(2) ? t1 : small<T>();
    opt::optional<T&> ra, rb;
    opt::optional<const T&> ca, cb;
    std::optional<T> m1, m2;
    if (pick(4)) { ra.emplace(t1); ca.emplace(static_cast<const T&>(t1)); m1 = t1; }
    if (pick(4)) { rb.emplace(t2); cb.emplace(static_cast<const T&>(t2)); m2 = t2; }
    sameOps(ops(ra, rb), ops(m1, m2), "optional reference with optional reference");
    sameOps(ops(ca, cb), ops(m1, m2), "optional const reference with optional const reference");
    sameOps(ops(ra, opt::nullopt), ops(m1, std::optional<T>()), "optional reference with nullopt");
    T w = pick(2) ? t1 : small<T>();
    sameOps(ops(ra, w), ops(m1, std::optional<T>(w)), "optional reference with value");
    sameOps(ops(ca, w), ops(m1, std::optional<T>(w)), "optional const reference with value");
    // Comparing changes nothing
    if (a.has_value() != ma.has_value() || (ma && !(*a == *ma))) fail("comparison changed an operand");
}

// ---- C21 ------------------------------------------------------------------------------------------
struct LifeFault { int at; };
struct LifeReg
{
    std::vector<const void*> alive;
    long copies = 0, moves = 0, ctors = 0, assigns = 0;
    long fault = -1;
    bool hit = false;
    void born(const void* p)
    {
        for (auto* q : alive) if (q == p) fail("an object was constructed on top of a live one");
        alive.push_back(p);
    }
    void died(const void* p)
    {
        for (auto& q : alive) if (q == p) { q = alive.back(); alive.pop_back(); return; }
        fail("an object was destroyed that is not alive (destroyed twice?)");
    }
    bool is(const void* p) const
    {
        for (auto* q : alive) if (q == p) return true;
        return false;
    }
    void maybe()
    {
        if (fault >= 0 && fault-- == 0) { hit = true; throw LifeFault{ 0 }; }
    }
};
inline LifeReg* reg = nullptr;
struct Src { int v; bool taken = false; };        // converts to Life, possibly throwing; knows when it was converted as a temporary
template<int Align, bool NothrowMove>
struct alignas(Align) Life
{
    int v;
    int* heap;      // leaks and double frees become visible
    explicit Life(int x) : v(x), heap(nullptr) { reg->maybe(); heap = new int(x); reg->born(this); ++reg->ctors; }
    Life(int x, int y) : v(x + y), heap(nullptr) { reg->maybe(); heap = new int(x + y); reg->born(this); ++reg->ctors; }
    Life(const Src& s) : v(s.v), heap(nullptr) { reg->maybe(); heap = new int(v); reg->born(this); ++reg->ctors; }
    Life(Src&& s) : v(s.v), heap(nullptr) { reg->maybe(); heap = new int(v); s.taken = true; reg->born(this); ++reg->ctors; }
    Life(std::initializer_list<int> il, int y = 0) : v(y), heap(nullptr) { reg->maybe(); for (int i : il) v += i; heap = new int(v); reg->born(this); ++reg->ctors; }
    Life(const Life& o) : v(o.get()), heap(nullptr) { reg->maybe(); heap = new int(v); reg->born(this); ++reg->copies; }
    Life(Life&& o) noexcept(NothrowMove) : v(o.get()), heap(nullptr)
    {
        if (!NothrowMove) reg->maybe();
        heap = new int(v);
        o.v = -77;
        *o.heap = -77;
        reg->born(this);
        ++reg->moves;
    }
    Life& operator=(const Life& o)
    {
        int x = o.get();
        (void)get();
        reg->maybe();
        v = *heap = x;
        ++reg->copies;
        ++reg->assigns;
        return *this;
    }
    Life& operator=(Life&& o) noexcept(NothrowMove)
    {
        int x = o.get();
        (void)get();
        if (!NothrowMove) reg->maybe();
        if (this != &o) { o.v = -77; *o.heap = -77; }
        v = *heap = x;
        ++reg->moves;
        ++reg->assigns;
        return *this;
    }
    ~Life() { (void)get(); delete heap; heap = nullptr; reg->died(this); v = -99; }
    int get() const
    {
        if (!reg->is(this)) fail("an object is used outside its lifetime");
        if (*heap != v) fail("an object is inconsistent");
        if (reinterpret_cast<uintptr_t>(this) % Align) fail("an object is misaligned");
        return v;
    }
};
template<class L> void life21()
{
    using O = opt::optional<L>;
    LifeReg R;
    reg = &R;
    bool sawFault = false;
    {
        constexpr int N = 3;
        std::unique_ptr<O> o[N];
        std::optional<int> m[N];
        for (auto& p : o) p.reset(new O());
        auto check = [&](const char* when)
        {
            size_t n = 0;
            for (int i = 0; i < N; ++i)
            {
                const O& c = *o[i];
                if (c.has_value() != m[i].has_value()) fail("optional %d is %s %s", i, c.has_value() ? "engaged" : "empty", when);
                if (!c.has_value()) { if (c.get_ptr()) fail("empty optional has a value pointer"); continue; }
                ++n;
                if (!R.is(&*c)) fail("engaged optional %d does not hold a live object %s", i, when);
                if (c->get() != *m[i]) fail("optional %d holds %d, expected %d %s", i, c->v, *m[i], when);
            }
            if (R.alive.size() != n) fail("%zu objects are alive for %zu engaged optionals %s", R.alive.size(), n, when);
        };
        check("at first");
        int n = range(1, 25);
        for (int q = 0; q < n; ++q)
        {
            int i = pick(N), j = pick(N);
            int op = range(0, 19);
            int val = range(0, 999);
            R.fault = chance(1, 3) ? range(0, 3) : -1;
            R.hit = false;
            long f0 = R.fault;
            O& x = *o[i];
            std::optional<int> before = m[i], beforeJ = m[j];
            long c0 = R.copies;
            bool noCopies = false, emplaced = false;
            bool moved = false;     // o[j] was moved from
            trace("op %d on %d, %d (failure at %ld)", op, i, j, f0);
            try
            {
                switch (op)
                {
                case 0: x.reset(); m[i].reset(); noCopies = true; break;
                case 1: x = opt::nullopt; m[i].reset(); noCopies = true; break;
                case 2: { const L v(val); x = v; m[i] = val; break; }
                case 3: noCopies = true; { L v(val); x = std::move(v); m[i] = val; } break;
                case 4: emplaced = noCopies = true; x.emplace(val); m[i] = val; break;
                case 5: emplaced = noCopies = true; x.emplace(val, 1); m[i] = val + 1; break;
                case 6: emplaced = noCopies = true; x.emplace({ 1, 2, val }); m[i] = val + 3; break;
                case 7: { const O& s = *o[j]; x = s; m[i] = m[j]; break; }
                case 8: if (i != j) { noCopies = true; moved = true; x = std::move(*o[j]); m[i] = m[j]; } break;
                case 9: { const O& s = *o[j]; std::unique_ptr<O> p(new O(s)); o[i] = std::move(p); m[i] = m[j]; break; }
                case 10: if (i != j) { noCopies = true; moved = true; std::unique_ptr<O> p(new O(std::move(*o[j]))); o[i] = std::move(p); m[i] = m[j]; } break;
                case 11: noCopies = true; if (i != j) { moved = true; x.swap(*o[j]); std::swap(m[i], m[j]); moved = false; } break;
                case 12: noCopies = true; { std::unique_ptr<O> p(new O(opt::in_place, val, 2)); o[i] = std::move(p); m[i] = val + 2; } break;
                case 13: noCopies = true; { bool c = pick(2); std::unique_ptr<O> p(new O(opt::in_place_if, c, val)); o[i] = std::move(p); if (c) m[i] = val; else m[i].reset(); } break;
                case 14: // converting assignment
                {
                    noCopies = true;
                    opt::optional<Src> s;
                    bool e = pick(4);
                    if (e) s = Src{ val };
                    bool mv = pick(2);
                    if (!mv) { const auto& cs = s; x = cs; } else x = std::move(s);
                    if (e && s.has_value() && s->taken != mv) fail(mv ? "assigning from a temporary optional did not move its value" : "assigning from a named optional moved its value");
                    if (e) m[i] = val; else m[i].reset();
                    break;
                }
                case 15: // converting construction
                {
                    noCopies = true;
                    opt::optional<Src> s;
                    bool e = pick(4);
                    if (e) s = Src{ val };
                    bool mv = pick(2);
                    std::unique_ptr<O> p(!mv ? new O(static_cast<const opt::optional<Src>&>(s)) : new O(std::move(s)));
                    if (e && s.has_value() && s->taken != mv) fail(mv ? "constructing from a temporary optional did not move its value" : "constructing from a named optional moved its value");
                    o[i] = std::move(p);
                    if (e) m[i] = val; else m[i].reset();
                    break;
                }
                case 16:
                {
                    const O& c = x;
                    L fb(val);
                    int how = pick(4);
                    long k0 = R.copies;
                    L r = how == 0 ? c.value_or(fb) : how == 1 ? c.value_or(std::move(fb)) : how == 2 ? std::move(x).value_or(std::move(fb)) : std::move(x).value_or(fb);
                    if (r.get() != (m[i] ? *m[i] : val)) fail("value_or returned the wrong value");
                    bool fbMoved = !m[i] && (how == 1 || how == 2), copied = m[i] ? how < 2 : !fbMoved;
                    if (fb.get() != (fbMoved ? -77 : val)) fail("value_or left its fallback in the wrong state");
                    if (R.copies - k0 != copied) fail("value_or made %ld copies", R.copies - k0);
                    if (m[i] && how >= 2) { if (c.has_value()) m[i] = c->get(); else m[i].reset(); }
                    break;
                }
                case 17: if (m[i]) { noCopies = true; x = std::move(*x); } break;      // its own value
                case 18: if (m[i]) { const L& v = *x; x = v; } break;
                default: // temporary optionals
                {
                    L v(val);
                    O t(std::move(v));
                    O u(t);
                    if (u->get() != val || t->get() != val) fail("copy of an optional differs");
                    break;
                }
                }
                if (R.hit) fail("an exception thrown by the value type was swallowed");
                if (noCopies && R.copies != c0) fail("a move or in-place operation copied the value");
            }
            catch (LifeFault&)
            {
                if (!R.hit) fail("unexpected exception");
                sawFault = true;
                VP_LABEL("value type threw");
                R.fault = -1;
                if (emplaced && x.has_value()) fail("the optional is engaged after a failed emplace");
                if (emplaced) { m[i].reset(); VP_LABEL("emplace threw"); }
                // Whatever is left has to be empty or valid.
                for (int k : { i, j })
                {
                    const O& c = *o[k];
                    if (!c.has_value()) { m[k].reset(); continue; }
                    if (!R.is(&*c)) fail("after an exception, optional %d claims a value it does not hold", k);
                    m[k] = c->get();
                }
                if (!moved && i != j && m[j] != beforeJ) fail("an exception changed an uninvolved optional or the source of a copy");
                if ((op == 9 || op == 10 || op == 12 || op == 13 || op == 15 || op == 16 || op == 19) && m[i] != before) fail("a failed construction changed another optional");
                (void)before;
            }
            catch (...) { fail("an exception of the wrong type came out"); }
            R.fault = -1;
            if (moved && m[j])
            {
                if (!o[j]->has_value()) m[j].reset();
                else m[j] = (*o[j])->get();
            }
            check("after the operation");
        }
    }
    if (!R.alive.empty()) fail("%zu objects outlive the optionals", R.alive.size());
    if (R.copies + R.moves + R.ctors > 2 || sawFault) vp::nontrivial();
    reg = nullptr;
}
// Scalars converted from something whose conversion throws.
struct ThrowsToInt { int v; bool t; operator int() const { if (t) throw LifeFault{ 1 }; return v; } };
inline void scalar21()
{
    opt::optional<int> o;
    std::optional<int> m;
    int n = range(1, 12);
    for (int i = 0; i < n; ++i)
    {
        int v = range(0, 99);
        bool t = chance(1, 3), emplaced = false;
        int op = range(0, 5);
        trace("scalar op %d%s", op, t ? " (throws)" : "");
        try
        {
            switch (op)
            {
            case 0: o = v; m = v; break;
            case 1: o.reset(); m.reset(); break;
            case 2: emplaced = true; o.emplace(ThrowsToInt{ v, t }); m = v; break;
            case 3: { opt::optional<ThrowsToInt> s(ThrowsToInt{ v, t }); o = s; m = v; break; }
            case 4: { opt::optional<ThrowsToInt> s(ThrowsToInt{ v, t }); o = std::move(s); m = v; break; }
            default: { opt::optional<ThrowsToInt> s(ThrowsToInt{ v, t }); opt::optional<int> p(s); o = p; m = v; break; }
            }
            if (t && op >= 2) fail("an exception of the conversion was swallowed");
        }
        catch (LifeFault&)
        {
            VP_LABEL("scalar conversion threw");
            vp::nontrivial();
            if (emplaced && o.has_value()) fail("the optional is engaged after a failed emplace");
            if (o.has_value() && (!m || *o != *m)) fail("after an exception the optional holds a value it was never given");
            if (!o.has_value()) m.reset();
        }
        if (o.has_value() != m.has_value() || (m && *o != *m)) fail("scalar optional is wrong");
    }
}

// ---- C22 ------------------------------------------------------------------------------------------
template<class T> T fresh(int i);
template<> inline int fresh<int>(int i) { return i; }
template<> inline bool fresh<bool>(int i) { return i & 1; }
template<> inline unsigned char fresh<unsigned char>(int i) { return (unsigned char)i; }
template<> inline double fresh<double>(int i) { return i / 2.0; }
template<> inline std::string fresh<std::string>(int i) { return "string number " + std::to_string(i); }
template<> inline DerivedO fresh<DerivedO>(int i) { DerivedO d; d.b = i; d.d = i; return d; }
template<> inline Amp fresh<Amp>(int i) { Amp a; a.v = i; return a; }
inline bool sameV(const Amp& a, const Amp& b) { return a.v == b.v; }
inline bool sameV(int a, int b) { return a == b; }
inline bool sameV(double a, double b) { return a == b; }
inline bool sameV(const std::string& a, const std::string& b) { return a == b; }
inline bool sameV(const BaseO& a, const BaseO& b) { return a.b == b.b; }

template<class T, class Obj> void refs22()      // optional<T&> over objects of type Obj
{
    using V = std::remove_const_t<T>;
    using O = opt::optional<T&>;
    constexpr int NO = 4, N = 4;
    std::unique_ptr<Obj[]> objs, copy;
    objs.reset(new Obj[NO]);
    copy.reset(new Obj[NO]);
    const int distinct = pick(3) ? NO : range(1, 2);     // some objects may have equal values
    for (int i = 0; i < NO; ++i) { objs[i] = fresh<Obj>(i % distinct); copy[i] = fresh<Obj>(i % distinct); }
    O o[N];
    T* m[N] = {};
    int serial = 100;
    bool rebinding = false, chk = true;
    auto check = [&]
    {
        for (int i = 0; i < NO; ++i)
            if (!sameV(objs[i], copy[i])) fail("object %d was written through an optional reference", i);
        for (int i = 0; i < N; ++i)
        {
            const O& c = o[i];
            bool e = m[i] != nullptr;
            if (c.has_value() != e || bool(c) != e || o[i].has_value() != e) fail("optional reference %d is %s", i, c.has_value() ? "engaged" : "empty");
            if ((c == opt::nullopt) == e) fail("comparison with nullopt is wrong");
            if (e)
            {
                if (std::addressof(*c) != m[i] || std::addressof(c.value()) != m[i] || c.operator->() != m[i] || std::addressof(*o[i]) != m[i]) fail("optional reference %d refers to the wrong object", i);
                if constexpr (!std::is_polymorphic<V>::value)
                {
                    V fb = fresh<Obj>(77), r = c.value_or(std::move(fb)), r2 = c.value_or(fb);
                    if (!sameV(r, *m[i]) || !sameV(r2, *m[i])) fail("value_or is not the referred value");
                    if (!sameV(fb, fresh<Obj>(77))) fail("value_or changed a fallback it did not use");
                }
            }
            else
            {
                int caught = 0;
                if (chk) { try { (void)c.value(); } catch (opt::bad_optional_access&) { ++caught; } }
                if (chk && !caught) fail("value() of an empty optional reference did not throw");
                if constexpr (!std::is_polymorphic<V>::value)
                {
                    V fb = fresh<Obj>(78), r = c.value_or(fb);
                    if (!sameV(r, fresh<Obj>(78)) || !sameV(fb, fresh<Obj>(78))) fail("value_or is not the fallback");
                    if (!sameV(c.value_or(std::move(fb)), fresh<Obj>(78))) fail("value_or is not the fallback");
                }
            }
        }
    };
    check();
    int n = range(1, 30);
    for (int q = 0; q < n; ++q)
    {
        int i = pick(N), j = pick(N), k = pick(NO);
        int op = range(0, 13);
        trace("op %d on %d, %d, object %d", op, i, j, k);
        T& target = objs[k];
        switch (op)
        {
        case 0: o[i].reset(); m[i] = nullptr; break;
        case 1: o[i] = opt::nullopt; m[i] = nullptr; break;
        case 2: if (m[i] && m[i] != std::addressof(target)) rebinding = true; o[i].emplace(target); m[i] = std::addressof(target); break;
        case 3: { const O& s = o[j]; o[i] = s; if (m[i] && m[j] && m[i] != m[j]) rebinding = true; m[i] = m[j]; break; }
        case 4: { O& r = (o[i] = o[j]); if (&r != &o[i]) fail("assignment does not return *this"); m[i] = m[j]; break; }
        case 5: { O t(target); if (m[i] && m[i] != std::addressof(target)) rebinding = true; o[i] = std::move(t); m[i] = std::addressof(target); break; }
        case 6: o[i].swap(o[j]); std::swap(m[i], m[j]); break;
        case 7: std::swap(o[i], o[j]); std::swap(m[i], m[j]); break;
        case 8: { O t(o[j]); o[i] = t; m[i] = m[j]; break; }
        case 9: { O t(opt::in_place, target); o[i] = t; m[i] = std::addressof(target); break; }
        case 10: { O t = opt::make_optional(std::ref(target)); o[i] = t; m[i] = std::addressof(target); break; }
        case 11: // write through
            if constexpr (!std::is_const<T>::value)
                if (m[i])
                {
                    int s = pick(3) ? serial++ : range(0, 1);
                    for (int x = 0; x < NO; ++x)
                        if (std::addressof(static_cast<T&>(objs[x])) == m[i]) copy[x] = fresh<Obj>(s);
                    switch (pick(3))
                    {
                    case 0: *o[i] = fresh<Obj>(s); break;
                    case 1: o[i].value() = fresh<Obj>(s); break;
                    default: *o[i].operator->() = fresh<Obj>(s); break;
                    }
                    VP_LABEL("wrote through an optional reference");
                }
            break;
        case 12: // the object changes underneath
        {
            int s = pick(3) ? serial++ : range(0, 1);
            objs[k] = fresh<Obj>(s);
            copy[k] = fresh<Obj>(s);
            break;
        }
        default: { O t; O u(opt::nullopt); if (t || u) fail("new optional reference is engaged"); o[i] = t; m[i] = nullptr; break; }
        }
        chk = pick(8) == 0;
        check();
    }
    chk = true;
    check();
    if (rebinding) { vp::nontrivial(); VP_LABEL("rebound an engaged reference"); }
}
inline void void22()
{
    using O = opt::optional<void>;
    O o, p(opt::nullopt);
    int n = range(1, 12);
    for (int i = 0; i < n; ++i)
    {
        int x = range(0, 9);
        switch (range(0, 7))
        {
        case 0: o = opt::nullopt; break;
        case 1: o = x; break;
        case 2: o.emplace(x); break;
        case 3: o.emplace(std::string("rvalue")); break;
        case 4: o.swap(p); break;
        case 5: { O q(o); o = q; break; }
        case 6: o.reset(); break;
        default: o = p; break;
        }
        const O& c = o;
        if (c.has_value() || bool(c) || !(!c) || p.has_value()) fail("optional<void> is engaged");
        int caught = 0;
        try { c.value(); } catch (opt::bad_optional_access&) { ++caught; }
        if (!caught) fail("value() of optional<void> did not throw");
        if (c.value_or(x) != x || c.value_or(x + 1) != x + 1 || *c.value_or(std::make_unique<int>(x)) != x) fail("value_or of optional<void> is not the fallback");
        if (!(c == opt::nullopt) || c != opt::nullopt) fail("optional<void> is not equal to nullopt");
    }
    if (n > 1) vp::nontrivial();
    VP_LABEL("optional<void> cases");
}

// ---- groups -----------------------------------------------------------------------------------------
#ifdef OPT_G
template<class T> void m19() { Model19<T>().run(); }
#if OPT_G == 0
void opt_g0(int k) { switch (k) { case 0: m19<int>(); break; case 1: m19<std::string>(); break; default: m19<double>(); break; } }
#elif OPT_G == 1
void opt_g1(int k) { switch (k) { case 0: m19<bool>(); break; case 1: m19<Color>(); break; default: m19<BaseO*>(); break; } }
#elif OPT_G == 2
void opt_g2(int k) { switch (k) { case 0: m19<std::vector<int>>(); break; case 1: m19<Wide>(); break; default: m19<Pair>(); break; } }
#elif OPT_G == 3
void opt_g3(int k) { switch (k) { case 0: m19<std::unique_ptr<int>>(); break; case 1: m19<std::shared_ptr<BaseO>>(); break; case 2: m19<unsigned char>(); break; default: forward19(); break; } }
#elif OPT_G == 4
void opt_g4(int k)
{
    switch (k)
    {
    case 0: compare20<int>(); break;
    case 1: compare20<std::string>(); break;
    case 2: compare20<double>(); break;
    case 3: compare20<Ordered>(); break;
    case 4: compare20<bool>(); break;
    case 5: compare20<Color>(); break;
    case 6: compare20<std::vector<int>>(); break;
    default: compare20<int*>(); break;
    }
}
#elif OPT_G == 5
void opt_g5(int k)
{
    switch (k)
    {
    case 0: case 1: life21<Life<8, true>>(); break;
    case 2: case 3: life21<Life<8, false>>(); break;
    case 4: life21<Life<64, false>>(); break;
    default: scalar21(); break;
    }
}
#else
void opt_g6(int k)
{
    switch (k)
    {
    case 0: refs22<int, int>(); break;
    case 1: refs22<const int, int>(); break;
    case 2: refs22<std::string, std::string>(); break;
    case 3: refs22<const std::string, std::string>(); break;
    case 4: refs22<BaseO, DerivedO>(); break;
    case 5: refs22<unsigned char, unsigned char>(); break;
    case 6: refs22<bool, bool>(); break;
    case 7: refs22<const double, double>(); break;
    case 8: refs22<Amp, Amp>(); break;
    default: void22(); break;
    }
}
#endif
#endif

#ifdef OPT_MAIN
void opt_g0(int), opt_g1(int), opt_g2(int), opt_g3(int), opt_g4(int), opt_g5(int), opt_g6(int);
namespace vp
{
    const char* const rule =
        "C19: histories of up to 60 operations on four optionals of one of twelve types (scalars, enum, pointer, string, vector, over-aligned, two-argument, "
        "move-only, shared pointer), each mirrored on std::optional and every accessor compared after every step, or histories of in-place constructions from named and temporary arguments and lists; non-trivial if values were given and taken away. "
        "C20: pairs of optionals (values, references, const references), empty or with values from a small pool, all six operators in both operand orders against "
        "std::optional; non-trivial if not both are empty. C21: histories over a type that registers every construction and destruction, with an exception "
        "injected at the n-th construction, copy, move, conversion or assignment; non-trivial if more than two objects were made or an exception was thrown. "
        "C22: histories of binding, rebinding, copies, swaps and writes over four optional references and four objects against a pointer model, and optional<void>; "
        "non-trivial if an engaged reference was rebound. Distinct: by hash of all choices.";
}
void vp::run_case()
{
    if (!strcmp(profile, "C19"))
    {
        int t = pick(13);
        if (t == 12) { opt_g3(3); return; }
        switch (t / 3)
        {
        case 0: opt_g0(t % 3); break;
        case 1: opt_g1(t % 3); break;
        case 2: opt_g2(t % 3); break;
        default: opt_g3(t % 3); break;
        }
    }
    else if (!strcmp(profile, "C20")) opt_g4(pick(8));
    else if (!strcmp(profile, "C21")) opt_g5(pick(6));
    else if (!strcmp(profile, "C22")) opt_g6(pick(10));
    else exit(2);
}
#endif
