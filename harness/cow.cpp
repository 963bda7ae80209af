// Copy-on-write handles against a model of values and sharing (C23).
#include <signals.hpp>
#include "vp_main.hpp"
#include <map>
#include <memory>
#include <string>
#include <vector>

using vp::chance;
using vp::fail;
using vp::pick;
using vp::range;
using vp::trace;

struct CopyBoom {};
static long copies, liveN, fault = -1;
struct Val
{
    std::string s;
    int n;
    unsigned magic = 0xC0FFEE;
    Val() : n(0) { ++liveN; }
    Val(std::string a, int b) : s(std::move(a)), n(b) { ++liveN; }
    Val(std::initializer_list<int> il, int b = 0) : n(b) { for (int i : il) n += i; ++liveN; }
    Val(const Val& o) : s(o.s), n(o.n)
    {
        o.alive();
        if (fault >= 0 && fault-- == 0) throw CopyBoom();
        ++liveN;
        ++copies;
    }
    Val& operator=(const Val& o) { alive(); o.alive(); s = o.s; n = o.n; return *this; }
    ~Val() { alive(); magic = 0; --liveN; }
    void alive() const { if (magic != 0xC0FFEE) fail("value used outside its lifetime"); }
    bool operator==(const Val& o) const { alive(); return s == o.s && n == o.n; }
};
using Cow = sig::detail::cow_ptr<Val>;
using sig::detail::make_cow;

namespace vp
{
    const char* const rule =
        "A case is a history of 1-60 operations (create, copy, move, assign, self-assign, reset, write through each non-const accessor, read through each const "
        "accessor, compare, copies held in containers, a copy constructor that throws) over six copy-on-write handles; after each step every handle is compared "
        "with a model that gives each handle its own value plus the set of handles it shares with. Non-trivial: a write through a shared handle and one through "
        "a sole owner both happened. Distinct: by hash of all choices.";
}
void vp::run_case()
{
    copies = liveN = 0;
    fault = -1;
    bool wroteShared = false, wroteSole = false;
    {
        constexpr int N = 6;
        std::unique_ptr<Cow> h[N];
        struct M { bool null = true; Val v; int group = -1; };
        struct MV { bool null = true; std::string s; int n = 0; int group = -1; };
        MV m[N];
        int groups = 0;
        for (auto& p : h) p.reset(new Cow());
        auto check = [&]
        {
            std::map<int, const Val*> at;
            for (int i = 0; i < N; ++i)
            {
                const Cow& c = *h[i];
                if (bool(c) == m[i].null) fail("handle %d is %s", i, m[i].null ? "not null" : "null");
                if (m[i].null) continue;
                const Val& v = c.read();
                v.alive();
                if (v.s != m[i].s || v.n != m[i].n) fail("handle %d reads (%s, %d), expected (%s, %d)", i, v.s.c_str(), v.n, m[i].s.c_str(), m[i].n);
                const Val* p1 = c;
                if (&*c != &v || c.operator->() != &v || c.data() != &v || p1 != &v) fail("read accessors of handle %d disagree", i);
                auto it = at.find(m[i].group);
                if (it == at.end()) at[m[i].group] = &v;
                else if (it->second != &v) fail("handles that share an object were separated");
            }
            for (auto& a : at)
                for (auto& b : at)
                    if (a.first != b.first && a.second == b.second) fail("independent handles refer to the same object");
            for (int i = 0; i < N; ++i)
                for (int j = 0; j < N; ++j)
                {
                    const Cow &a = *h[i], &b = *h[j];
                    bool e = m[i].null || m[j].null ? m[i].null == m[j].null : m[i].group == m[j].group;
                    if ((a == b) != e || (a != b) == e) fail("comparison of handles %d and %d is wrong", i, j);
                }
            if (liveN != (long)at.size()) fail("%ld values are alive, expected %zu", liveN, at.size());
        };
        int n = chance(1, 4) ? range(20, 60) : range(1, 20);
        for (int q = 0; q < n; ++q)
        {
            int i = pick(N), j = pick(N);
            int op = vp::weighted({ 3, 1, 4, 4, 3, 2, 2, 1, 12, 1, 2, 2, 2, 2 });
            int val = range(0, 999);
            trace("op %d on %d, %d", op, i, j);
            long c0 = copies;
            bool mayCopy = false;
            switch (op)
            {
            case 0:
                if (val & 1) *h[i] = make_cow<Val>("value", val);
                else
                {
                    std::string text = "value";
                    *h[i] = make_cow<Val>(text, val);
                    if (text != "value") fail("a named argument given to make_cow was moved from");
                }
                m[i] = MV{ false, "value", val, groups++ }; break;
            case 1: *h[i] = make_cow<Val>({ 1, 2 }, val); m[i] = MV{ false, "", val + 3, groups++ }; break;
            case 2: { const Cow& s = *h[j]; h[i].reset(new Cow(s)); m[i] = m[j]; break; }
            case 3: { const Cow& s = *h[j]; Cow& r = (*h[i] = s); if (&r != h[i].get()) fail("assignment does not return *this"); m[i] = m[j]; break; }
            // What a move leaves in its source is not specified.
            case 4: if (i != j) { h[i].reset(new Cow(std::move(*h[j]))); m[i] = m[j]; h[j].reset(new Cow()); m[j] = MV(); } break;
            case 5: if (i != j) { *h[i] = std::move(*h[j]); m[i] = m[j]; *h[j] = Cow(); m[j] = MV(); h[j].reset(new Cow()); } break;
            case 6: *h[i] = new Val("raw", val); m[i] = MV{ false, "raw", val, groups++ }; break;
            case 7: *h[i] = Cow(); m[i] = MV(); break;
            case 8: case 13: // write
            {
                if (m[i].null) break;
                bool shared = false;
                for (int k = 0; k < N; ++k) shared |= k != i && !m[k].null && m[k].group == m[i].group;
                const Cow& c = *h[i];
                const Val* before = &c.read();
                (shared ? wroteShared : wroteSole) = true;
                if (op == 13 && shared) fault = 0;      // copying the value fails
                Val* w = nullptr;
                try
                {
                    switch (pick(5))
                    {
                    case 0: w = &h[i]->write(); break;
                    case 1: w = &**h[i]; break;
                    case 2: w = h[i]->operator->(); break;
                    case 3: w = h[i]->data(); break;
                    default: w = *h[i]; break;
                    }
                }
                catch (CopyBoom&)
                {
                    VP_LABEL("copy failed");
                    fault = -1;
                    break;
                }
                if (fault == 0) fail("a shared value was not copied before a write");
                fault = -1;
                if (shared)
                {
                    if (w == before) fail("a write goes to the shared object");
                    if (copies != c0 + 1) fail("%ld copies were made for a write", copies - c0);
                    m[i].group = groups++;
                    mayCopy = true;
                    VP_LABEL("write to a shared value");
                }
                else
                {
                    if (w != before) fail("a sole owner was not modified in place");
                    if (copies != c0) fail("a sole owner was copied");
                    VP_LABEL("write by a sole owner");
                }
                w->n = val;
                m[i].n = val;
                if (pick(2)) { w->s += "+"; m[i].s += "+"; }
                break;
            }
            case 9: { Cow* volatile self = h[i].get(); *h[i] = static_cast<const Cow&>(*self); break; }
            case 10: // copies held elsewhere
            {
                if (m[i].null) break;
                std::vector<Cow> v;
                int k = range(1, 5);
                for (int x = 0; x < k; ++x) v.push_back(*h[i]);
                int who = pick(k);
                v[who].write().n = val + 5000;
                mayCopy = true;
                const Cow& c = *h[i];
                if (c.read().n != m[i].n) fail("a write through a temporary copy is visible");
                for (int x = 0; x < k; ++x)
                    if (static_cast<const Cow&>(v[x]).read().n != (x == who ? val + 5000 : m[i].n)) fail("a write through one copy is visible through another");
                break;
            }
            case 11: { using std::swap; swap(*h[i], *h[j]); std::swap(m[i], m[j]); break; }
            default: // const copy
            {
                if (m[i].null) break;
                const Cow c = *h[i];
                if (c.read().n != m[i].n || !(c == *h[i])) fail("const copy differs");
                break;
            }
            }
            if (!mayCopy && copies != c0) fail("a read, copy or move of a handle copied the value");
            check();
        }
    }
    if (liveN) fail("%ld values outlive the handles", liveN);
    if (wroteShared && wroteSole) vp::nontrivial();
}
