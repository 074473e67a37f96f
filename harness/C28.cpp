#include "vp.h"
#include <memory>
#include <utility>
#include <vector>
#include <papilio/memory.hpp>
using namespace papilio;
namespace
{
constexpr unsigned MAX = 12;
struct obj;
struct Table { obj* at[MAX]; unsigned deleted[MAX]; int by[MAX]; unsigned n; };
Table tab;
int deleting; // the deleter in use
struct obj
{
    unsigned id = tab.n;
    uint32_t state = 0x600dbeef;
    ~obj()
    {
        vp_assert(state == 0x600dbeef, "an object is deleted once");
        state = 0;
        ++tab.deleted[id];
        tab.by[id] = deleting;
    }
};
template <class T> struct del
{
    int id = 1;
    void operator()(std::remove_extent_t<T>* p) const
    {
        deleting = id;
        if constexpr(std::is_array_v<T>) delete[] p; else delete p;
        deleting = 0;
    }
};
template <class D> int id_of(const D& d) { if constexpr(requires { d.id; }) return d.id; else return 0; }
template <class T> obj* fresh()
{
    obj* o;
    if constexpr(std::is_array_v<T>) o = new obj[2]; else o = new obj;
    tab.at[tab.n++] = o;
    return o;
}
constexpr unsigned per(bool array) { return array ? 2 : 1; }
struct Slot { int o = -1; bool owns = false; int d = 0; }; // object, ownership, deleter
template <class T, class D> void history()
{
    using P = optional_unique_ptr<T, D>;
    using U = std::unique_ptr<T, D>;
    constexpr unsigned each = per(std::is_array_v<T>);
    constexpr int D0 = std::is_same_v<D, del<T>> ? 1 : 0;
    const unsigned depth = vp_param(1);
    tab = Table{};
    unsigned want[MAX] = {};
    int want_by[MAX] = {};
    bool caller[MAX] = {};
    {
        std::unique_ptr<P> p[3];
        Slot m[3];
        auto dead = [&](const Slot& s) { if(s.owns) { ++want[s.o]; want_by[s.o] = s.d; } };
        auto uniq = [&]
        {
            if constexpr(D0) return U(fresh<T>(), D{int(tab.n) + 5}); else return U(fresh<T>());
        };
        auto check = [&]
        {
            for(unsigned i = 0; i < 3; ++i)
            {
                const P& q = *p[i];
                obj* w = m[i].o < 0 ? nullptr : tab.at[m[i].o];
                vp_assert(q.get() == w && bool(q) == (w != nullptr) && (q == nullptr) == (w == nullptr) && (nullptr == q) == (w == nullptr), "the object is the one that was given");
                vp_assert(q.has_ownership() == m[i].owns, "the ownership is the one that was given");
                vp_assert(id_of(q.get_deleter()) == m[i].d, "the deleter is the one that was given");
                if(w && !want[m[i].o])
                {
                    if constexpr(std::is_array_v<T>) vp_assert(&q[1] == w + 1, "elements can be accessed");
                    else vp_assert(&*q == w && &q->state == &w->state, "the object can be accessed");
                }
            }
            for(unsigned i = 0; i < tab.n; ++i)
            {
                vp_assert(tab.deleted[i] == want[i] * each, "an object is deleted exactly when its owner gives it up");
                if(want[i] && D0) vp_assert(tab.by[i] == want_by[i], "an object is deleted by the deleter of its owner");
            }
            vp_assert((*p[0] == *p[1]) == (p[0]->get() == p[1]->get()), "comparison compares the objects");
        };
        for(unsigned i = 0; i < 3; ++i) { p[i] = std::make_unique<P>(); m[i].d = D0; }
        check();
        for(unsigned d = 0; d < depth; ++d)
        {
            const unsigned op = d == 0 ? unsigned(vp_param(0)) : unsigned(vp_pick(0, 14, "operation")), i = unsigned(vp_pick(0, 2, "to"));
            const unsigned j = op >= 6 && op <= 10 ? unsigned(vp_pick(0, 2, "from")) : 0;
            P& t = *p[i];
            switch(op)
            {
            case 0: dead(m[i]); if(vp_bool("null")) t.reset(nullptr); else t.reset(); m[i].o = -1; m[i].owns = false; break;
            case 1: { dead(m[i]); bool own = vp_bool("own"); t.reset(fresh<T>(), own); m[i].o = int(tab.n) - 1; m[i].owns = own; caller[tab.n - 1] = !own; break; }
            case 2: { dead(m[i]); U u = uniq(); int k = id_of(u.get_deleter()); t.reset(std::move(u)); vp_assert(!u, "a unique_ptr gives its object away"); m[i] = {int(tab.n) - 1, true, k}; break; }
            case 3: { dead(m[i]); bool own = vp_bool("own"); t.reset(static_cast<obj*>(nullptr), own); m[i].o = -1; m[i].owns = false; break; }
            case 4: { obj* o = t.release(); vp_assert(o == (m[i].o < 0 ? nullptr : tab.at[m[i].o]), "the object is released"); if(m[i].owns) caller[m[i].o] = true; m[i].o = -1; m[i].owns = false; break; }
            case 5: { dead(m[i]); if constexpr(!std::is_array_v<T>) t.reset(independent, fresh<T>()); else t.reset(fresh<T>(), true); m[i].o = int(tab.n) - 1; m[i].owns = true; break; }
            case 6: { auto n = std::make_unique<P>(std::as_const(*p[j])); Slot s = m[j]; s.owns = false; dead(m[i]); p[i] = std::move(n); m[i] = s; break; }
            case 7: { auto n = std::make_unique<P>(std::move(*p[j])); Slot s = m[j]; m[j].o = -1; m[j].owns = false; if(i != j) dead(m[i]); p[i] = std::move(n); m[i] = s; break; }
            case 8: *p[i] = std::as_const(*p[j]); if(m[i].o != m[j].o) { dead(m[i]); if(m[i].o != m[j].o) { m[i].o = m[j].o; m[i].owns = false; m[i].d = m[j].d; } } break;
            case 9: *p[i] = std::move(*p[j]); if(i != j) { dead(m[i]); m[i] = m[j]; m[j].o = -1; m[j].owns = false; } break;
            case 10: p[i]->swap(*p[j]); std::swap(m[i], m[j]); break;
            case 11: { dead(m[i]); U u = uniq(); int k = id_of(u.get_deleter()); p[i] = std::make_unique<P>(std::move(u)); vp_assert(!u, "a unique_ptr gives its object away"); m[i] = {int(tab.n) - 1, true, k}; break; }
            case 12: { dead(m[i]); bool own = vp_bool("own"); p[i] = std::make_unique<P>(fresh<T>(), own); m[i] = {int(tab.n) - 1, own, D0}; caller[tab.n - 1] = !own; break; }
            case 13: { dead(m[i]); bool own = vp_bool("own"); p[i] = std::make_unique<P>(static_cast<obj*>(nullptr), own); m[i] = {-1, false, D0}; break; }
            case 14: { dead(m[i]); U u; p[i] = vp_bool("unique") ? std::make_unique<P>(std::move(u)) : std::make_unique<P>(nullptr); m[i] = {-1, false, D0}; break; }
            }
            check();
        }
        for(auto& s : m) dead(s);
    }
    for(unsigned i = 0; i < tab.n; ++i)
    {
        vp_assert(tab.deleted[i] == want[i] * each, "in the end every owned object is deleted once and no other is");
        vp_assert(want[i] <= 1 && (want[i] == 1) != caller[i], "an object is deleted by its owner or left to the caller");
        if(caller[i]) { if constexpr(std::is_array_v<T>) delete[] tab.at[i]; else delete tab.at[i]; }
    }
    vp_reach("end");
}
}
extern "C" void single_0() { history<obj, std::default_delete<obj>>(); }
extern "C" void single_1() { history<obj, del<obj>>(); }
extern "C" void array_0() { history<obj[], std::default_delete<obj[]>>(); }
extern "C" void array_1() { history<obj[], del<obj[]>>(); }
extern "C" void made_0()
{
    tab = Table{};
    {
        auto a = make_optional_unique<obj>();
        auto b = make_optional_unique<obj[]>(vp_pick(0, 2, "n"));
        vp_assert(a && a.has_ownership() && b && b.has_ownership(), "what is made is owned");
        std::unique_ptr<obj> u(new obj);
        optional_unique_ptr c(std::move(u));
        vp_assert(c.has_ownership() && !u, "a unique_ptr gives its object away");
        auto d = optional_unique_ptr<obj>::pointer_to(*a);
        vp_assert(d.get() == a.get() && !d.has_ownership() && d == a && !(d == c), "a pointer to an object does not own it");
    }
    vp_reach("end");
}
