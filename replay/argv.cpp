// Concrete contract oracle for func/argv_parser.hpp (C21): random options, random command lines.
#include "common.hpp"
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <xitren/func/argv_parser.hpp>
using namespace xitren::func;

struct O {
    bool        b0 = false;
    std::string s0 = "default", s1;
    int         i0 = 7, i1 = -1;
    bool        b1 = true;
    double      d0 = 0.5;
    std::string s2 = "a default that does not fit into a small string";
    bool        b2 = false;
    double      d1 = -3;
    int         i2 = 0;
};
using P = argv_parser<O>;
struct Field { int kind; std::string O::*s; int O::*i; double O::*d; bool O::*b; };
static Field const F[] = {{0, &O::s0}, {0, &O::s1}, {0, &O::s2}, {1, {}, &O::i0}, {1, {}, &O::i1}, {1, {}, &O::i2},
                          {2, {}, {}, &O::d0}, {2, {}, {}, &O::d1}, {3, {}, {}, {}, &O::b0}, {3, {}, {}, {}, &O::b1}, {3, {}, {}, {}, &O::b2}};
static char const* const W[] = {"--n", "--name", "--names", "-n", "", "--a", "--an option with a long name indeed", "--b", "x", "--nam", "--name=", "n", "--N"};
static char const* const V[] = {"1", "-42", "2.5", "1e3", "hello", "two words", "", " lead", "99999999999999999999", "0x10", "3 4", "trail ",
                                "a value which is too long for the small string", "--", "007", "+5", "nan", "12abc"};

static P::parameter_type param(Field const& f)
{
    switch (f.kind) {
    case 0: return f.s;
    case 1: return f.i;
    case 2: return f.d;
    default: return f.b;
    }
}
template <class T> static void convert(T& t, std::string const& v)
{
    std::stringstream s;
    s << v;
    s >> t;
}
template <std::size_t... I>
static std::unique_ptr<P> make(std::vector<std::pair<std::string, int>> const& o, std::index_sequence<I...>)
{
    // the list and everything in it is gone when the parser is used
    return P::instance({P::argument_type{o[I].first, param(F[o[I].second])}...});
}
template <std::size_t... N>
static std::unique_ptr<P> make_n(std::vector<std::pair<std::string, int>> const& o, std::index_sequence<N...>)
{
    std::unique_ptr<P> p;
    (void)((o.size() == N && (p = make(o, std::make_index_sequence<N>{}), true)) || ...);
    return p;
}
static std::unique_ptr<P> none() { return P::instance({}); }

void run(std::string const&, Rng& r)
{
    std::size_t const nw = sizeof W / sizeof *W, nv = sizeof V / sizeof *V, nf = sizeof F / sizeof *F;
    std::size_t const n = r.below(7);
    std::vector<std::pair<std::string, int>> opts;
    std::vector<bool> used(nf);
    for (std::size_t i = 0; i < n; ++i) {
        std::size_t f = r.below(nf);
        while (used[f]) f = (f + 1) % nf;
        used[f] = true;
        opts.push_back({W[r.below(nw)], (int)f});
        say("option \"%s\" -> field %zu (kind %d); ", opts.back().first.c_str(), f, F[f].kind);
    }
    auto p = n ? make_n(opts, std::make_index_sequence<7>{}) : none();
    EXPECT(p != nullptr, "no parser");
    std::map<std::string, int> reg;
    for (auto& o : opts) reg[o.first] = o.second;
    O           want;
    std::size_t runs = 1 + r.chance(20);
    while (runs--) {
        std::size_t argc = r.below(8);
        // exactly as many pointers as arguments, each string in its own block
        std::vector<std::unique_ptr<char[]>> own;
        std::unique_ptr<char const*[]> argv(new char const*[argc]);
        say("arguments:");
        std::vector<std::string> a;
        for (std::size_t i = 0; i < argc; ++i) {
            std::string s = n && r.chance(45) ? opts[r.below(n)].first : r.chance(25) ? W[r.below(nw)] : V[r.below(nv)];
            own.emplace_back(new char[s.size() + 1]);
            memcpy(own.back().get(), s.c_str(), s.size() + 1);
            argv[i] = own.back().get();
            a.push_back(s);
            say(" \"%s\"", s.c_str());
        }
        O got = p->parse((int)argc, argv.get());
        for (std::size_t i = 0; i < argc; ++i) {
            auto it = reg.find(a[i]);
            if (it == reg.end()) continue;
            Field const& f = F[it->second];
            if (f.kind == 3) { want.*f.b = true; continue; }
            if (i + 1 == argc) continue;
            if (f.kind == 0) want.*f.s = a[i + 1];
            if (f.kind == 1) convert(want.*f.i, a[i + 1]);
            if (f.kind == 2) convert(want.*f.d, a[i + 1]);
        }
        for (std::size_t k = 0; k < nf; ++k) {
            Field const& f = F[k];
            if (f.kind == 0) EXPECT(got.*f.s == want.*f.s, "string field %zu is \"%s\", not \"%s\"", k, (got.*f.s).c_str(), (want.*f.s).c_str());
            if (f.kind == 1) EXPECT(got.*f.i == want.*f.i, "int field %zu is %d, not %d", k, got.*f.i, want.*f.i);
            if (f.kind == 2) EXPECT(memcmp(&(got.*f.d), &(want.*f.d), 8) == 0, "double field %zu is %g, not %g", k, got.*f.d, want.*f.d);
            if (f.kind == 3) EXPECT(got.*f.b == want.*f.b, "switch %zu is %d, not %d", k, got.*f.b, want.*f.b);
        }
    }
}
