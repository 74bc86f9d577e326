// Contract entry points for comm/mediator.hpp.
#include <xitren/comm/mediator.hpp>
#include <new>
using namespace xitren::comm;
using u8  = std::uint8_t;
using sz_ = std::size_t;
#ifndef MAX
#define MAX 8
#endif
using MG = manager<MAX>;
struct Aa { int x; int y; };
struct Bb { char c[5]; };
struct Cc { long v; };
struct TwelveChars { char c[12]; };
struct M0 : module<Aa> {
    using module<Aa>::module;
};
struct M1 : module<Aa, Bb> {
    using module<Aa, Bb>::module;
    void data(Bb const&) override;
};
struct M3 : module<Bb, Aa, Cc, TwelveChars> {
    using module<Bb, Aa, Cc, TwelveChars>::module;
    void data(Aa const&) override;
    void data(Cc const&) override;
    void data(TwelveChars const&) override;
};
extern "C" {
void m_ctor(MG* o) { new (o) MG(); }
void m_add(MG* o, base::module* c) { o->MG::add_module(*c); }
void m_remove(MG* o, base::module* c) { o->MG::remove_module(*c); }
void m_distribute(MG* o, base::module const* s, u8* p, sz_ n) { o->MG::distribute(*s, p, n); }
void m_send8(MG* o, Aa const* d) { o->send<Aa>(*d); }
void m_send5(MG* o, Bb const* d) { o->send<Bb>(*d); }
void m_data(MG* o, sz_ id, u8* p, sz_ n) { o->MG::data(id, p, n); }
void c8(Aa* r, MG* o, u8* p, sz_ n) { *r = o->convert_field<Aa>(p, n); }
void c5(Bb* r, MG* o, u8* p, sz_ n) { *r = o->convert_field<Bb>(p, n); }
void p_receive(base::module* m, sz_ id, u8* p, sz_ n) { m->receive(id, p, n); }
void p_mdata(MG* m, sz_ id, u8* p, sz_ n) { m->data(id, p, n); }
void p_madd(base::manager* m, base::module* c) { m->add_module(*c); }
void p_mremove(base::manager* m, base::module* c) { m->remove_module(*c); }
void p_mdistribute(base::manager* m, base::module const* c, u8* p, sz_ n) { m->distribute(*c, p, n); }
void p_throw_range() { std::array<int, 1> a{}; volatile sz_ k = 7; a.at(k) = 1; }
// modules
}
using B0 = module<Aa>;
using B1 = module<Aa, Bb>;
using B3 = module<Bb, Aa, Cc, TwelveChars>;
extern "C" {
void b0_receive(M0* o, sz_ id, u8* p, sz_ n) { o->B0::receive(id, p, n); }
void b1_receive(M1* o, sz_ id, u8* p, sz_ n) { o->B1::receive(id, p, n); }
void b3_receive(M3* o, sz_ id, u8* p, sz_ n) { o->B3::receive(id, p, n); }
void b0_send(M0* o, Aa const* d) { static_cast<B0*>(o)->send(*d); }
void b3_send(M3* o, Bb const* d) { static_cast<B3*>(o)->send(*d); }
void b0_sendraw(M0* o, u8* p, sz_ n) { o->B0::send(p, n); }
void b0_ctor(M0* o, base::manager* m) { new (o) M0(*m); }
void b3_ctor(M3* o, base::manager* m) { new (o) M3(*m); }
void b0_dtor(M0* o) { o->M0::~M0(); }
void b3_dtor(M3* o) { o->M3::~M3(); }
void p_bsend(base::module* m, u8* p, sz_ n) { m->send(p, n); }
void p_data1_0(M1* o, Bb const* d) { o->data(*d); }
void p_data3_0(M3* o, Aa const* d) { o->data(*d); }
void p_data3_1(M3* o, Cc const* d) { o->data(*d); }
void p_data3_2(M3* o, TwelveChars const* d) { o->data(*d); }
}
