// C22: what LAGER_STRUCT, LAGER_DERIVE and LAGER_ENUM derive, for all pairs of
// values of small domains.
#include "../engine/mc.hpp"

#include <lager/extra/derive.hpp>
#include <lager/extra/derive/eq.hpp>
#include <lager/extra/derive/hana.hpp>
#include <lager/extra/derive/hash.hpp>
#include <lager/extra/enum.hpp>
#include <lager/extra/struct.hpp>

#include <boost/hana/at_key.hpp>
#include <boost/hana/for_each.hpp>
#include <boost/hana/keys.hpp>
#include <boost/hana/members.hpp>
#include <boost/hana/size.hpp>

#include <immer/set.hpp>

#include <cstdint>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace ns {
struct none
{};
struct one
{
    int a;
};
struct three
{
    int a;
    std::string b;
    bool c;
};
struct five
{
    int v, w, x, y, z;
};
struct outer // members of derived types
{
    one first;
    three second;
};
template <typename A, typename B>
struct tpl
{
    A a;
    B b;
};
template <typename A>
struct holder
{
    struct nested
    {
        A a;
        int b;
        LAGER_STRUCT_NESTED(nested, a, b);
    };
    struct nothing
    {
        LAGER_STRUCT_NESTED(nothing);
    };
};
enum class plain { zero, one, two };
enum class valued : std::int8_t { low = -128, mid = 0, high = 127 };
enum old { alpha = 3, beta = 1 << 20, alphabet = 5 };
enum class wide : std::uint64_t { small = 1, large = 0xffffffffffffffffull };
enum class single { only = 42 };
} // namespace ns

LAGER_DERIVE((EQ, HANA, HASH), ns, none);
LAGER_DERIVE((EQ, HANA, HASH), ns, one, a);
LAGER_DERIVE((EQ, HANA, HASH), ns, three, a, b, c);
LAGER_DERIVE((EQ, HANA, HASH), ns, five, v, w, x, y, z);
LAGER_DERIVE((EQ, HANA, HASH), ns, outer, first, second);
LAGER_DERIVE_TEMPLATE((EQ, HANA, HASH), ns, (class A, class B), (tpl<A, B>), a, b);
LAGER_ENUM(ns, plain, zero, one, two)
LAGER_ENUM(ns, valued, low, mid, high)
LAGER_ENUM(ns, old, alpha, beta, alphabet)
LAGER_ENUM(ns, wide, small, large)
LAGER_ENUM(ns, single, only)

namespace {

// all values of a type, with what their members are
template <typename T>
struct Row
{
    T value;
    std::vector<std::string> members; // as text
};

template <typename T>
struct Domain;

const int ints[]            = {0, 1, -1};
const std::string strings[] = {"", "a", "b"};

std::string text(int x) { return std::to_string(x); }
std::string text(bool x) { return x ? "true" : "false"; }
std::string text(const std::string& x) { return "'" + x + "'"; }
std::string text(char x) { return std::string("c") + x; }
std::string text(const ns::one& x) { return "{" + text(x.a) + "}"; }
std::string text(const ns::three& x) { return "{" + text(x.a) + text(x.b) + text(x.c) + "}"; }

template <>
struct Domain<ns::none>
{
    static std::vector<Row<ns::none>> all() { return {{{}, {}}}; }
    static std::vector<std::string> names() { return {}; }
};
template <>
struct Domain<ns::one>
{
    static auto all()
    {
        std::vector<Row<ns::one>> r;
        for (int a : ints)
            r.push_back({{a}, {text(a)}});
        return r;
    }
    static std::vector<std::string> names() { return {"a"}; }
};
template <>
struct Domain<ns::three>
{
    static auto all()
    {
        std::vector<Row<ns::three>> r;
        for (int a : ints)
            for (auto& b : strings)
                for (bool c : {false, true})
                    r.push_back({{a, b, c}, {text(a), text(b), text(c)}});
        return r;
    }
    static std::vector<std::string> names() { return {"a", "b", "c"}; }
};
template <>
struct Domain<ns::five>
{
    static auto all()
    {
        std::vector<Row<ns::five>> r;
        for (int i = 0; i < 32; ++i) {
            auto b = [&](int k) { return (i >> k) & 1; };
            r.push_back({{b(0), b(1), b(2), b(3), b(4)},
                         {text(b(0)), text(b(1)), text(b(2)), text(b(3)), text(b(4))}});
        }
        return r;
    }
    static std::vector<std::string> names() { return {"v", "w", "x", "y", "z"}; }
};
template <>
struct Domain<ns::outer>
{
    static auto all()
    {
        std::vector<Row<ns::outer>> r;
        for (auto& a : Domain<ns::one>::all())
            for (auto& b : Domain<ns::three>::all())
                r.push_back({{a.value, b.value}, {text(a.value), text(b.value)}});
        return r;
    }
    static std::vector<std::string> names() { return {"first", "second"}; }
};
template <>
struct Domain<ns::tpl<int, std::string>>
{
    static auto all()
    {
        std::vector<Row<ns::tpl<int, std::string>>> r;
        for (int a : ints)
            for (auto& b : strings)
                r.push_back({{a, b}, {text(a), text(b)}});
        return r;
    }
    static std::vector<std::string> names() { return {"a", "b"}; }
};
template <>
struct Domain<ns::tpl<char, char>>
{
    static auto all()
    {
        std::vector<Row<ns::tpl<char, char>>> r;
        for (char a : {'x', 'y', 'z'})
            for (char b : {'x', 'y', 'z'})
                r.push_back({{a, b}, {text(a), text(b)}});
        return r;
    }
    static std::vector<std::string> names() { return {"a", "b"}; }
};
template <>
struct Domain<ns::holder<std::string>::nested>
{
    static auto all()
    {
        std::vector<Row<ns::holder<std::string>::nested>> r;
        for (auto& a : strings)
            for (int b : ints)
                r.push_back({{a, b}, {text(a), text(b)}});
        return r;
    }
    static std::vector<std::string> names() { return {"a", "b"}; }
};
template <>
struct Domain<ns::holder<int>::nothing>
{
    static std::vector<Row<ns::holder<int>::nothing>> all() { return {{{}, {}}}; }
    static std::vector<std::string> names() { return {}; }
};

template <typename T>
void equality(mc::Run& run, const char* type)
{
    auto all = Domain<T>::all();
    auto& a  = all[run.choose(int(all.size()))];
    auto& b  = all[run.choose(int(all.size()))];
    run.step();
    bool same = a.members == b.members;
    MC_CHECK(run, (a.value == b.value) == same,
             type << ": == gives " << !same << " for values that are " << (same ? "equal" : "different"));
    MC_CHECK(run, (a.value != b.value) == !same,
             type << ": != gives " << same << " for values that are " << (same ? "equal" : "different"));
    run.state(mc::mix(mc::hash_str(type), same));
}

template <typename T>
void hashing(mc::Run& run, const char* type)
{
    auto all = Domain<T>::all();
    auto& a  = all[run.choose(int(all.size()))];
    auto b   = a.value;
    run.step();
    std::hash<T> h;
    MC_CHECK(run, h(a.value) == h(b), type << ": equal values have different hashes");
    // all values in a set
    std::unordered_set<T> s;
    immer::set<T> is;
    for (auto& r : all) {
        MC_CHECK(run, s.insert(r.value).second, type << ": a new value was found in a set");
        is = is.insert(r.value);
    }
    MC_CHECK(run, s.size() == all.size() && is.size() == all.size(), type << ": a set lost values");
    MC_CHECK(run, s.count(a.value) == 1 && is.count(a.value) == 1, type << ": a value is not found in a set");
    is = is.erase(a.value);
    MC_CHECK(run, s.erase(a.value) == 1 && is.size() == all.size() - 1, type << ": a value is not erased from a set");
    MC_CHECK(run, s.count(a.value) == 0 && is.count(a.value) == 0, type << ": an erased value is found in a set");
    // not all in a few buckets
    std::set<std::size_t> hashes;
    for (auto& r : all)
        hashes.insert(h(r.value));
    MC_CHECK(run, hashes.size() * 2 >= all.size(), type << ": different values have the same hash");
    run.state(mc::mix(mc::hash_str(type), 2));
}

template <typename T>
void members(mc::Run& run, const char* type)
{
    auto all = Domain<T>::all();
    auto& a  = all[run.choose(int(all.size()))];
    run.step();
    auto names = Domain<T>::names();
    std::vector<std::string> keys, values, by_key;
    boost::hana::for_each(a.value, [&](auto&& kv) {
        keys.push_back(boost::hana::first(kv).c_str());
        values.push_back(text(boost::hana::second(kv)));
    });
    MC_CHECK(run, keys == names, type << ": wrong names of members");
    MC_CHECK(run, values == a.members, type << ": wrong values of members");
    boost::hana::for_each(boost::hana::keys(a.value), [&](auto&& k) {
        by_key.push_back(text(boost::hana::at_key(a.value, k)));
    });
    MC_CHECK(run, by_key == a.members, type << ": wrong values by name");
    // writing through the accessors changes exactly that member
    auto& b = all[run.choose(int(all.size()))];
    auto v  = a.value;
    auto m  = a.members;
    int i   = 0;
    boost::hana::for_each(boost::hana::keys(v), [&](auto&& k) {
        boost::hana::at_key(v, k) = boost::hana::at_key(b.value, k);
        m[i]                      = b.members[i];
        ++i;
        std::vector<std::string> now;
        boost::hana::for_each(v, [&](auto&& kv) { now.push_back(text(boost::hana::second(kv))); });
        MC_CHECK(run, now == m, type << ": assigning to a member changed others");
    });
    run.state(mc::mix(mc::hash_str(type), 3));
}

template <typename E>
void enumeration(mc::Run& run, const std::vector<std::pair<E, std::string>>& rows)
{
    auto& [v, name] = rows[run.choose(int(rows.size()))];
    run.step();
    MC_CHECK(run, lager::to_string(v) == name,
             "to_string of " << name << " is " << lager::to_string(v));
    MC_CHECK(run, lager::to_enum<E>(name) == v, "to_enum of " << name << " is another value");
    auto refused = [&](const std::string& s) {
        for (auto& r : rows)
            if (r.second == s)
                return;
        bool threw = false;
        try {
            lager::to_enum<E>(s);
        } catch (const std::runtime_error&) {
            threw = true;
        }
        MC_CHECK(run, threw, "to_enum accepts '" << s << "'");
    };
    refused("");
    refused(name + " ");
    refused(" " + name);
    refused(name + std::string(1, '\0'));
    for (std::size_t i = 0; i < name.size(); ++i) {
        auto s = name;
        s.erase(i, 1);
        refused(s);
        refused(name.substr(0, i));
        s = name;
        s[i] ^= 32;
        refused(s);
        s = name;
        s[i] = 'q';
        refused(s);
    }
    using U = std::underlying_type_t<E>;
    for (U x : {U(0), U(1), U(2), U(3), U(4), U(-1), U(U(v) + 1), U(U(v) - 1)}) {
        auto e     = E(x);
        bool known = false;
        for (auto& r : rows)
            known |= r.first == e;
        if (known)
            continue;
        bool threw = false;
        try {
            lager::to_string(e);
        } catch (const std::runtime_error&) {
            threw = true;
        }
        MC_CHECK(run, threw, "to_string accepts a value that has no name");
    }
    run.state(mc::hash_str(name));
}

using Fn = void (*)(mc::Run&, const char*);
struct Entry
{
    const char* type;
    Fn fn;
};
template <std::size_t N>
void pick(mc::Run& run, const Entry (&es)[N])
{
    auto& e = es[run.choose(int(N))];
    e.fn(run, e.type);
}
using tpl_is = ns::tpl<int, std::string>;
using tpl_cc = ns::tpl<char, char>;
using nested = ns::holder<std::string>::nested;
using nothing = ns::holder<int>::nothing;
#define ALL(f)                                                                                     \
    {"none", &f<ns::none>}, {"one", &f<ns::one>}, {"three", &f<ns::three>},                        \
        {"five", &f<ns::five>}, {"outer", &f<ns::outer>}, {"template", &f<tpl_is>},                \
    {                                                                                              \
        "template 2", &f<tpl_cc>                                                                   \
    }

MC_SCENARIO(derived_equality, 1)
{
    static const Entry es[] = {ALL(equality), {"nested", &equality<nested>}, {"nothing", &equality<nothing>}};
    pick(run, es);
}
MC_SCENARIO(derived_hash, 1)
{
    static const Entry es[] = {ALL(hashing)};
    pick(run, es);
}
MC_SCENARIO(derived_members, 1)
{
    static const Entry es[] = {ALL(members), {"nested", &members<nested>}, {"nothing", &members<nothing>}};
    pick(run, es);
}
MC_SCENARIO(enums, 1)
{
    using namespace ns;
    switch (run.choose(5)) {
    case 0: enumeration<plain>(run, {{plain::zero, "zero"}, {plain::one, "one"}, {plain::two, "two"}}); break;
    case 1: enumeration<valued>(run, {{valued::low, "low"}, {valued::mid, "mid"}, {valued::high, "high"}}); break;
    case 2: enumeration<old>(run, {{alpha, "alpha"}, {beta, "beta"}, {alphabet, "alphabet"}}); break;
    case 3: enumeration<wide>(run, {{wide::small, "small"}, {wide::large, "large"}}); break;
    case 4: enumeration<single>(run, {{single::only, "only"}}); break;
    }
}

} // namespace
