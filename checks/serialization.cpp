// C21: serialization.  All sequences of two values of a small domain of each
// of many types, saved to and loaded from four kinds of archives into
// variables that hold any value; all truncations of what was saved, and all
// changes of a single node of the JSON.
// PART selects the types.
#include "../engine/mc.hpp"

#include <cassert>

#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/archives/xml.hpp>
#include <cereal/types/map.hpp>
#include <cereal/types/optional.hpp>
#include <cereal/types/set.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/vector.hpp>

#include <lager/extra/cereal/enum.hpp>
#include <lager/extra/cereal/immer_array.hpp>
#include <lager/extra/cereal/immer_box.hpp>
#include <lager/extra/cereal/immer_flex_vector.hpp>
#include <lager/extra/cereal/immer_map.hpp>
#include <lager/extra/cereal/immer_set.hpp>
#include <lager/extra/cereal/immer_vector.hpp>
#include <lager/extra/cereal/json.hpp>
#include <lager/extra/cereal/struct.hpp>
#include <lager/extra/cereal/tuple.hpp>
#include <lager/extra/cereal/variant_with_name.hpp>
#include <lager/extra/derive.hpp>
#include <lager/extra/derive/cereal.hpp>
#include <lager/extra/derive/eq.hpp>
#include <lager/extra/enum.hpp>
#include <lager/extra/struct.hpp>

#include <rapidjson/document.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>

#include <limits>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <variant>
#include <vector>

#ifndef PART
#define PART 1
#endif

namespace ns {

enum class color { red, green, blue };

struct point
{
    int x;
    std::string name;
};
struct empty
{};
struct derived
{
    int a;
    std::string b;
    color c;
};
struct camel
{
    static constexpr bool serialize_camel_case = true;
    int first_value;
    std::string SECOND_VALUE;
    int x_1_y;
};
struct conventions
{
    static constexpr bool serialize_camel_case = true;
    int plain = 0, two_words = 0, SCREAMING_CASE = 0, One_2_three = 0, a_b_c = 0, x12 = 0;
};
struct verbatim
{
    int plain = 0, two_words = 0, SCREAMING_CASE = 0, One_2_three = 0, a_b_c = 0, x12 = 0;
};
template <typename A, typename B>
struct tpl
{
    A a;
    B b;
    struct nested
    {
        B b;
        immer::vector<A> as;
        LAGER_STRUCT_NESTED(nested, b, as);
    };
};
struct item // keyed by its id
{
    int id;
    std::string text;
};
struct tree
{
    int value;
    immer::vector<immer::box<tree>> children;
};
struct moved
{
    int dx;
};
struct renamed
{
    std::string name;
};
using action = std::variant<moved, renamed, empty, int>;
struct document
{
    immer::vector<point> points;
    immer::map<std::string, int> index;
    std::optional<std::string> title;
    action last;
    color mode;
    immer::box<derived> meta;
};

} // namespace ns

LAGER_ENUM(ns, color, red, green, blue)
LAGER_STRUCT(ns, point, x, name);
LAGER_STRUCT(ns, empty);
LAGER_DERIVE((EQ, CEREAL), ns, derived, a, b, c);
LAGER_STRUCT(ns, camel, first_value, SECOND_VALUE, x_1_y);
LAGER_STRUCT(ns, conventions, plain, two_words, SCREAMING_CASE, One_2_three, a_b_c, x12);
LAGER_STRUCT(ns, verbatim, plain, two_words, SCREAMING_CASE, One_2_three, a_b_c, x12);
LAGER_STRUCT_TEMPLATE(ns, (class A, class B), (tpl<A, B>), a, b);
LAGER_STRUCT(ns, item, id, text);
LAGER_STRUCT(ns, moved, dx);
LAGER_STRUCT(ns, renamed, name);
LAGER_STRUCT(ns, tree, value, children);
LAGER_STRUCT(ns, document, points, index, title, last, mode, meta);

namespace {

// --- small domains --------------------------------------------------------------

template <typename T>
struct Domain;

template <>
struct Domain<int>
{
    static std::vector<int> all()
    {
        return {0, 1, -7, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()};
    }
};
template <>
struct Domain<bool>
{
    static std::vector<bool> all() { return {false, true}; }
};
template <>
struct Domain<double>
{
    static std::vector<double> all() { return {0.0, -1.5, 0.1, 1e300}; }
};
template <>
struct Domain<std::string>
{
    static std::vector<std::string> all()
    {
        return {"", "a", "two words", "\"quoted\" \\ <&> 'x'", "\xc3\xa9\n\t"};
    }
};
template <>
struct Domain<ns::color>
{
    static std::vector<ns::color> all() { return {ns::color::red, ns::color::green, ns::color::blue}; }
};

template <typename T>
T nth(int i)
{
    auto d = Domain<T>::all();
    return d[i % d.size()];
}

// many different ones
template <typename T>
T some(int i)
{
    if constexpr (std::is_same_v<T, int>)
        return i * 7919;
    else
        return "a longer string, " + std::to_string(i);
}

template <typename C>
std::vector<C> sequences()
{
    using T = typename C::value_type;
    std::vector<C> r;
    auto push = [](C c, const T& x) { return std::move(c).push_back(x); };
    r.push_back(C{});
    for (int i = 0; i < 2; ++i)
        r.push_back(push(C{}, nth<T>(i)));
    r.push_back(push(push(C{}, nth<T>(1)), nth<T>(0)));
    r.push_back(push(push(push(C{}, nth<T>(2)), nth<T>(2)), nth<T>(3)));
    C big;
    for (int i = 0; i < 70; ++i) // more than a leaf
        big = push(big, nth<T>(i));
    r.push_back(big);
    return r;
}
template <typename T, typename MP>
struct Domain<immer::array<T, MP>>
{
    static auto all() { return sequences<immer::array<T, MP>>(); }
};
template <typename T, typename MP, std::uint32_t B, std::uint32_t BL>
struct Domain<immer::vector<T, MP, B, BL>>
{
    static auto all() { return sequences<immer::vector<T, MP, B, BL>>(); }
};
template <typename T, typename MP, std::uint32_t B, std::uint32_t BL>
struct Domain<immer::flex_vector<T, MP, B, BL>>
{
    static auto all()
    {
        auto r = sequences<immer::flex_vector<T, MP, B, BL>>();
        r.push_back(r[3] + r[5]); // a relaxed one
        return r;
    }
};
template <typename T, typename MP>
struct Domain<immer::box<T, MP>>
{
    static auto all()
    {
        std::vector<immer::box<T, MP>> r;
        for (auto& x : Domain<T>::all())
            r.push_back(x);
        return r;
    }
};
template <typename K, typename T>
struct Domain<immer::map<K, T>>
{
    static auto all()
    {
        using M = immer::map<K, T>;
        std::vector<M> r;
        r.push_back(M{});
        r.push_back(M{}.set(nth<K>(0), nth<T>(1)));
        r.push_back(M{}.set(nth<K>(0), nth<T>(2)));
        r.push_back(M{}.set(nth<K>(1), nth<T>(1)).set(nth<K>(2), nth<T>(0)));
        r.push_back(M{}.set(nth<K>(2), nth<T>(2)).set(nth<K>(0), nth<T>(1)).set(nth<K>(1), nth<T>(3)));
        M big;
        for (int i = 0; i < 70; ++i)
            big = big.set(some<K>(i), nth<T>(i));
        r.push_back(big);
        return r;
    }
};
template <>
struct Domain<ns::item>
{
    static std::vector<ns::item> all()
    {
        return {{1, "one"}, {2, ""}, {-3, "minus three"}, {1, "another one"}};
    }
};
template <>
struct Domain<immer::map<int, ns::item>>
{
    static auto all()
    {
        using M = immer::map<int, ns::item>;
        M m;
        std::vector<M> r{m};
        for (auto& x : Domain<ns::item>::all()) {
            m = m.set(x.id, x);
            r.push_back(m);
            r.push_back(M{}.set(x.id, x));
        }
        return r;
    }
};
template <typename T>
struct Domain<immer::set<T>>
{
    static auto all()
    {
        using S = immer::set<T>;
        S big;
        for (int i = 0; i < 70; ++i)
            big = big.insert(some<T>(i));
        return std::vector<S>{S{}, big, S{}.insert(nth<T>(0)), S{}.insert(nth<T>(1)),
                              S{}.insert(nth<T>(2)).insert(nth<T>(0)),
                              S{}.insert(nth<T>(2)).insert(nth<T>(1)).insert(nth<T>(0))};
    }
};
template <typename T>
struct Domain<std::optional<T>>
{
    static auto all()
    {
        std::vector<std::optional<T>> r{std::nullopt};
        for (int i = 0; i < 2; ++i)
            r.push_back(nth<T>(i));
        return r;
    }
};
template <>
struct Domain<std::monostate>
{
    static std::vector<std::monostate> all() { return {{}}; }
};
template <typename... Ts>
struct Domain<std::variant<Ts...>>
{
    static auto all()
    {
        std::vector<std::variant<Ts...>> r;
        auto some = [&](auto d) {
            for (std::size_t i = 0; i < d.size() && i < 3; ++i)
                r.push_back(d[i]);
        };
        (some(Domain<Ts>::all()), ...);
        return r;
    }
};
template <typename... Ts>
struct Domain<std::tuple<Ts...>>
{
    static auto all()
    {
        std::vector<std::tuple<Ts...>> r;
        for (int i = 0; i < 4; ++i) {
            int k = i;
            r.push_back(std::tuple<Ts...>{nth<Ts>(k++)...});
        }
        return r;
    }
};
template <>
struct Domain<std::tuple<>>
{
    static auto all() { return std::vector<std::tuple<>>{{}}; }
};
template <>
struct Domain<ns::point>
{
    static std::vector<ns::point> all()
    {
        return {{0, ""}, {1, "a"}, {-1, "two words"}, {2147483647, "\"\\"}};
    }
};
template <>
struct Domain<ns::empty>
{
    static std::vector<ns::empty> all() { return {{}}; }
};
template <>
struct Domain<ns::derived>
{
    static std::vector<ns::derived> all()
    {
        return {{0, "", ns::color::red}, {1, "b", ns::color::blue}, {-1, "\n", ns::color::green}};
    }
};
template <>
struct Domain<ns::camel>
{
    static std::vector<ns::camel> all() { return {{0, "", 0}, {1, "b", 2}, {3, "", -1}}; }
};
template <typename A, typename B>
struct Domain<ns::tpl<A, B>>
{
    static std::vector<ns::tpl<A, B>> all()
    {
        return {{nth<A>(0), nth<B>(0)}, {nth<A>(1), nth<B>(2)}, {nth<A>(3), nth<B>(3)}};
    }
};
template <>
struct Domain<ns::tpl<int, std::string>::nested>
{
    using T = ns::tpl<int, std::string>::nested;
    static std::vector<T> all() { return {{"", {}}, {"a", {1, 2, 3}}, {"two", {-1}}}; }
};
template <>
struct Domain<ns::tree>
{
    static std::vector<ns::tree> all()
    {
        using V = immer::vector<immer::box<ns::tree>>;
        auto leaf  = ns::tree{1, {}};
        auto other = ns::tree{2, {}};
        auto mid   = ns::tree{3, V{}.push_back(leaf).push_back(other)};
        auto deep  = ns::tree{4, V{}.push_back(mid).push_back(leaf).push_back(mid)};
        return {leaf, other, mid, deep};
    }
};
template <>
struct Domain<ns::moved>
{
    static std::vector<ns::moved> all() { return {{0}, {-2}}; }
};
template <>
struct Domain<ns::renamed>
{
    static std::vector<ns::renamed> all() { return {{""}, {"x"}}; }
};
template <>
struct Domain<ns::document>
{
    static std::vector<ns::document> all()
    {
        auto points  = Domain<immer::vector<ns::point>>::all();
        auto index   = Domain<immer::map<std::string, int>>::all();
        auto actions = Domain<ns::action>::all();
        auto metas   = Domain<ns::derived>::all();
        std::vector<ns::document> r;
        for (int i = 0; i < 4; ++i)
            r.push_back({points[i], index[i], i % 2 ? std::optional<std::string>{"title"} : std::nullopt,
                         actions[(i * 2) % actions.size()], nth<ns::color>(i), metas[i % metas.size()]});
        return r;
    }
};

// --- archives ---------------------------------------------------------------------

struct Json
{
    static constexpr const char* name = "JSON";
    using out                         = cereal::JSONOutputArchive;
    using in                          = cereal::JSONInputArchive;
};
struct Xml
{
    static constexpr const char* name = "XML";
    using out                         = cereal::XMLOutputArchive;
    using in                          = cereal::XMLInputArchive;
};
struct Binary
{
    static constexpr const char* name = "binary";
    using out                         = cereal::BinaryOutputArchive;
    using in                          = cereal::BinaryInputArchive;
};
struct Portable
{
    static constexpr const char* name = "portable binary";
    using out                         = cereal::PortableBinaryOutputArchive;
    using in                          = cereal::PortableBinaryInputArchive;
};

template <typename A, typename... Ts>
std::string save(const Ts&... xs)
{
    std::ostringstream os;
    {
        typename A::out ar{os};
        (ar(xs), ...);
    }
    return os.str();
}

// every pair of values, loaded over every value
template <typename A, typename T>
void round_trip(mc::Run& run, const char* type)
{
    auto all = Domain<T>::all();
    int n    = int(all.size());
    auto& x  = all[run.choose(n)];
    auto& y  = all[run.choose(n)];
    MC_LOG(run, type << " in " << A::name);
    auto s = save<A>(x, y);
    std::istringstream is{s};
    typename A::in ar{is};
    auto a = all[run.choose(n)]; // what the variables hold is replaced
    auto b = all[run.choose(n)];
    run.step();
    ar(a);
    ar(b);
    MC_CHECK(run, a == x, A::name << ": loading a " << type << " does not give what was saved: " << s);
    MC_CHECK(run, b == y, A::name << ": loading a second " << type << " does not give what was saved: " << s);
    run.state(mc::hash_str(s));
}

// what was saved, cut short, is refused
template <typename A, typename T>
void truncated(mc::Run& run, const char* type)
{
    auto all = Domain<T>::all();
    auto& x  = all[run.choose(int(all.size()))];
    auto s   = save<A>(x);
    auto n   = std::min<std::size_t>(s.size(), 400); // the beginning of long ones
    if (!n)
        return;
    auto cut = run.choose(int(n));
    run.step();
    MC_LOG(run, type << " in " << A::name << " cut after " << cut << " of " << s.size() << " bytes");
    bool threw = false, same = false;
    try {
        std::istringstream is{s.substr(0, cut)};
        typename A::in ar{is};
        auto a = all.back();
        ar(a);
        same = a == x;
    } catch (const std::exception&) {
        threw = true;
    }
    // (trailing white space and closing brackets may not matter)
    MC_CHECK(run, threw || same, A::name << ": a part of a " << type << " was accepted: " << s.substr(0, cut));
    run.state(mc::hash_str(s.substr(0, cut), 7));
}

// one node of the JSON changed: it is refused or loads as some value
using Value = rapidjson::Value;
using Doc   = rapidjson::Document;

void nodes(Value& v, std::vector<std::pair<Value*, Value*>>& out, Value* parent)
{
    out.push_back({&v, parent});
    if (v.IsObject())
        for (auto& m : v.GetObject())
            nodes(m.value, out, &v);
    if (v.IsArray())
        for (auto& m : v.GetArray())
            nodes(m, out, &v);
}

template <typename T>
void changed(mc::Run& run, const char* type)
{
    auto all = Domain<T>::all();
    auto& x  = all[run.choose(int(all.size()))];
    auto s   = save<Json>(x);
    Doc d;
    d.Parse(s.c_str());
    std::vector<std::pair<Value*, Value*>> ns;
    nodes(d, ns, nullptr);
    auto count = std::min<std::size_t>(ns.size() - 1, 60);
    if (!count)
        return;
    auto [v, parent] = ns[1 + run.choose(int(count))];
    auto& al         = d.GetAllocator();
    int how          = run.choose(7);
    run.step();
    switch (how) {
    case 0: // remove it
        if (parent->IsArray())
            parent->Erase(v);
        else
            for (auto it = parent->MemberBegin(); it != parent->MemberEnd(); ++it)
                if (&it->value == v) {
                    parent->EraseMember(it);
                    break;
                }
        break;
    case 1: // repeat it
        if (!parent->IsArray())
            run.prune();
        else {
            Value c{*v, al};
            parent->PushBack(c, al);
        }
        break;
    case 2: v->SetNull(); break;
    case 3: v->SetInt(-5); break;
    case 4: v->SetString("zzz"); break;
    case 5: v->SetArray(); break;
    case 6: v->SetObject(); break;
    }
    rapidjson::StringBuffer buf;
    rapidjson::Writer<rapidjson::StringBuffer> w{buf};
    d.Accept(w);
    std::string changed = buf.GetString();
    MC_LOG(run, type << ": " << changed);
    try {
        std::istringstream is{changed};
        cereal::JSONInputArchive ar{is};
        auto a = all.back();
        ar(a);
        // what was accepted is a value like any other
        std::istringstream is2{save<Json>(a)};
        cereal::JSONInputArchive ar2{is2};
        auto b = all.front();
        ar2(b);
        MC_CHECK(run, a == b, "a " << type << " loaded from " << changed << " does not survive");
    } catch (const std::exception&) {
    }
    run.state(mc::hash_str(changed, 9));
}

// to_json / from_json
template <typename T>
void inline_json(mc::Run& run, const char* type)
{
    auto all = Domain<T>::all();
    auto& x  = all[run.choose(int(all.size()))];
    run.step();
    auto s = lager::to_json(x);
    auto y = lager::from_json<T>(s);
    MC_CHECK(run, y == x, "from_json(to_json(...)) of a " << type << " gives something else: " << s);
    auto z = lager::to_json(y);
    MC_CHECK(run, z == s, "to_json(from_json(...)) of a " << type << " gives " << z << " instead of " << s);
    run.state(mc::hash_str(s, 11));
}

// elements and keys that are listed twice are refused
template <typename A, typename From, typename To>
void load_listed(mc::Run& run, const From& from, const To& to, bool twice, const char* what)
{
    auto s = save<A>(from);
    To x;
    bool threw = false;
    try {
        std::istringstream is{s};
        typename A::in ar{is};
        ar(x);
    } catch (const std::exception&) {
        threw = true;
    }
    MC_CHECK(run, threw || !twice, A::name << ": a " << what << " with repeated ones was accepted: " << s);
    MC_CHECK(run, threw == twice, A::name << ": a " << what << " was refused: " << s);
    if (!twice)
        MC_CHECK(run, x == to, A::name << ": a " << what << " differs from the one listed: " << s);
}
template <typename A>
void listed(mc::Run& run)
{
    int n = run.choose(6);
    std::vector<int> keys;
    for (int i = 0; i < n; ++i)
        keys.push_back(run.choose(4));
    bool twice = std::set<int>(keys.begin(), keys.end()).size() != keys.size();
    std::multiset<std::string> ms;
    std::multimap<int, std::string> mm;
    std::vector<ns::item> vi;
    immer::set<std::string> is;
    immer::map<int, std::string> im;
    immer::map<int, ns::item> ii;
    for (int i = 0; i < n; ++i) {
        auto k = std::to_string(keys[i]), v = std::to_string(i);
        ms.insert(k);
        mm.insert({keys[i], v});
        vi.push_back({keys[i], v});
        is = is.insert(k);
        im = im.set(keys[i], v);
        ii = ii.set(keys[i], ns::item{keys[i], v});
    }
    run.step();
    load_listed<A>(run, ms, is, twice, "set");
    load_listed<A>(run, mm, im, twice, "map");
    load_listed<A>(run, vi, ii, twice, "map of things that have an id");
    mc::u64 h = n;
    for (int k : keys)
        h = mc::mix(h, k);
    run.state(h);
}

using B = int;
#define TYPES_1(X)                                                                                 \
    X(immer::array<int>)                                                                           \
    X(immer::array<std::string>)                                                                   \
    X(immer::vector<int>)                                                                          \
    X(immer::vector<std::string>)                                                                  \
    X(immer::vector<immer::box<int>>)                                                              \
    X(immer::vector<immer::box<std::string>>)                                                      \
    X(immer::flex_vector<int>)                                                                     \
    X(immer::flex_vector<std::string>)
#define TYPES_2(X)                                                                                 \
    X(immer::box<int>)                                                                             \
    X(immer::box<std::string>)                                                                     \
    X((immer::map<std::string, int>) )                                                             \
    X((immer::map<int, std::string>) )                                                             \
    X((immer::map<int, ns::item>) )                                                                \
    X((immer::map<std::string, immer::vector<int>>) )                                              \
    X(immer::set<int>)                                                                             \
    X(immer::set<std::string>)
#define TYPES_3(X)                                                                                 \
    X((std::tuple<int, std::string>) )                                                             \
    X(std::tuple<>)                                                                                \
    X((std::tuple<int, immer::vector<int>, std::string>) )                                         \
    X((std::variant<int, std::monostate, std::string>) )                                           \
    X(ns::action)                                                                                  \
    X(immer::vector<ns::action>)                                                                   \
    X(ns::color)                                                                                   \
    X(immer::vector<ns::color>)                                                                    \
    X(ns::empty)
#define TYPES_4(X)                                                                                 \
    X(ns::point)                                                                                   \
    X(ns::derived)                                                                                 \
    X(ns::camel)                                                                                   \
    X((ns::tpl<int, std::string>) )                                                                \
    X((ns::tpl<int, std::string>::nested))                                                         \
    X(ns::item)                                                                                    \
    X(ns::tree)                                                                                    \
    X(ns::document)

#define TYPES MC_CAT(TYPES_, PART)

using Fn = void (*)(mc::Run&, const char*);
struct Entry
{
    const char* type;
    Fn fn;
};

template <typename T>
struct Unwrap;
template <typename R, typename T>
struct Unwrap<R(T)>
{
    using type = T;
};

#define ROUND(T)                                                                                   \
    {#T, &round_trip<Json, ARG_T(T)>}, {#T, &round_trip<Xml, ARG_T(T)>},                           \
        {#T, &round_trip<Binary, ARG_T(T)>}, {#T, &round_trip<Portable, ARG_T(T)>},
#define CUT(T)                                                                                     \
    {#T, &truncated<Json, ARG_T(T)>}, {#T, &truncated<Xml, ARG_T(T)>},                             \
        {#T, &truncated<Binary, ARG_T(T)>}, {#T, &truncated<Portable, ARG_T(T)>},
#define CHANGE(T) {#T, &changed<ARG_T(T)>},
#define INLINE(T) {#T, &inline_json<ARG_T(T)>},
#define ARG_T(T) Unwrap<void(T)>::type

const Entry round_entries[]  = {TYPES(ROUND)};
const Entry cut_entries[]    = {TYPES(CUT)};
const Entry change_entries[] = {TYPES(CHANGE)};

template <std::size_t N>
void pick(mc::Run& run, const Entry (&es)[N])
{
    auto& e = es[run.choose(int(N))];
    e.fn(run, e.type);
}

#define SCENARIO(name, depth) MC_SCENARIO(name, depth)

#if PART == 1
SCENARIO(sequences_round_trip, 2) { pick(run, round_entries); }
SCENARIO(sequences_truncated, 1) { pick(run, cut_entries); }
SCENARIO(sequences_changed, 1) { pick(run, change_entries); }
#elif PART == 2
SCENARIO(maps_round_trip, 2) { pick(run, round_entries); }
SCENARIO(maps_truncated, 1) { pick(run, cut_entries); }
SCENARIO(maps_changed, 1) { pick(run, change_entries); }
SCENARIO(repeated, 2)
{
    switch (run.choose(4)) {
    case 0: listed<Json>(run); break;
    case 1: listed<Xml>(run); break;
    case 2: listed<Binary>(run); break;
    case 3: listed<Portable>(run); break;
    }
}
#elif PART == 3
SCENARIO(sums_round_trip, 2) { pick(run, round_entries); }
SCENARIO(sums_truncated, 1) { pick(run, cut_entries); }
SCENARIO(sums_changed, 1) { pick(run, change_entries); }
#elif PART == 4
SCENARIO(structs_round_trip, 2) { pick(run, round_entries); }
SCENARIO(structs_truncated, 1) { pick(run, cut_entries); }
SCENARIO(structs_changed, 1) { pick(run, change_entries); }
// the names of the members in JSON, which programs share and people edit:
// written in the order of the members, and read in any order
template <typename T>
void named(mc::Run& run, const std::vector<std::string>& names)
{
    T v;
    int* members[] = {&v.plain, &v.two_words, &v.SCREAMING_CASE, &v.One_2_three, &v.a_b_c, &v.x12};
    for (int i = 0; i < 6; ++i)
        *members[i] = run.choose(2) ? 100 + i : -i;
    auto text = lager::to_json(v);
    std::string squeezed;
    for (char c : text)
        if (!std::isspace(c))
            squeezed += c;
    std::string want = "{";
    for (int i = 0; i < 6; ++i)
        want += (i ? ",\"" : "\"") + names[std::size_t(i)] + "\":" + std::to_string(*members[i]);
    want += "}";
    MC_CHECK(run, squeezed == want, "saved as " << squeezed << " instead of " << want);
    // in another order
    std::vector<int> left{0, 1, 2, 3, 4, 5};
    std::string other = "{";
    while (!left.empty()) {
        int k = run.choose(int(left.size()));
        int i = left[std::size_t(k)];
        left.erase(left.begin() + k);
        other += (other.size() > 1 ? ", \"" : "\"") + names[std::size_t(i)] + "\": " + std::to_string(*members[i]);
    }
    other += "}";
    MC_LOG(run, "load " << other);
    auto r = lager::from_json<T>(other);
    run.step();
    MC_CHECK(run,
             r.plain == v.plain && r.two_words == v.two_words && r.SCREAMING_CASE == v.SCREAMING_CASE &&
                 r.One_2_three == v.One_2_three && r.a_b_c == v.a_b_c && r.x12 == v.x12,
             "loading " << other << " gave another value");
    run.state(mc::hash_str(squeezed));
}
SCENARIO(structs_named, 1)
{
    if (run.flip())
        named<ns::conventions>(run, {"plain", "twoWords", "screamingCase", "one2Three", "aBC", "x12"});
    else
        named<ns::verbatim>(run, {"plain", "two_words", "SCREAMING_CASE", "One_2_three", "a_b_c", "x12"});
}
// (not the ones with LAGER_DERIVE(CEREAL): these are never const)
const Entry inline_entries[] = {INLINE(ns::point) INLINE(ns::camel) INLINE((ns::tpl<int, std::string>))
                                    INLINE(ns::item) INLINE(ns::tree) INLINE(ns::document)
                                        INLINE(immer::box<int>) INLINE(ns::action)};
SCENARIO(structs_inline, 1) { pick(run, inline_entries); }
#endif

} // namespace
