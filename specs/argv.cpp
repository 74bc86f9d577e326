// Contract entry points for func/argv_parser.hpp.
#include <xitren/func/argv_parser.hpp>
#include <new>
using namespace xitren::func;
// special members of the options are external
struct opts {
    long        first;
    std::string s;
    int         i;
    double      d;
    bool        b, c;
    opts();
    opts(opts const&);
    opts(opts&&);
    opts& operator=(opts const&);
    opts& operator=(opts&&);
    ~opts();
};
using P = argv_parser<opts>;
extern "C" {
void a_instance(std::unique_ptr<P>* r, std::initializer_list<P::argument_type>* l) { new (r) std::unique_ptr<P>(P::instance(*l)); }
void a_parse(opts* r, P* p, int argc, char const** argv) { new (r) opts(p->parse(argc, argv)); }
}
