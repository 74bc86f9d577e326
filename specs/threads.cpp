// entry points of the contracts in threads.py (no behaviour of their own)
#include <xitren/comm/pipeline_stage.hpp>
#include <xitren/comm/pipeline_stage_pool.hpp>
#include <xitren/func/interval_event.hpp>

#include <new>

struct quiet {
    static void trace();
    static void debug();
    static void warning();
    static void error();
};
struct triple {
    long a, b, c;
};
#ifndef BUF
#define BUF 3
#define POOL 2
#define VT int
#endif
using xitren::comm::pipeline_stage_exception;
using stage = xitren::comm::pipeline_stage<VT, int, BUF, quiet>;
using stage_fn = std::function<const int(pipeline_stage_exception, const VT, const std::pair<int, int>)>;
using pool = xitren::comm::pipeline_stage_pool<VT, int, BUF, POOL, quiet>;
using pool_fn = std::function<const int(pipeline_stage_exception, const VT, const xitren::comm::measure_data)>;
using xitren::func::interval_event;

extern "C" {
void s_ctor(void* p, stage_fn& f) { new (p) stage(f); }
void s_dtor(stage& s) { s.~stage(); }
void s_push(stage& s, VT const& v) { s.push(v); }
void s_pushr(stage& s, VT& v) { s.push(std::move(v)); }

void p_ctor(void* p, pool_fn& f) { new (p) pool(f); }
void p_dtor(pool& s) { s.~pool(); }
void p_push(pool& s, VT const& v) { s.push(v); }
void p_pushr(pool& s, VT& v) { s.push(std::move(v)); }

#ifdef AVG
int s_time(stage const& s) { return s.time_for_unit(); }
int s_load(stage const& s) { return s.buffer_utilization(); }
int p_time(std::deque<xitren::comm::measure_data>& d) { return pool::time_for_unit(d); }
int p_load(std::deque<xitren::comm::measure_data>& d) { return pool::buffer_utilization(d); }
#endif

void i_ctor(void* p, std::function<void()>& f, long period, long wait)
{
    new (p) interval_event(f, std::chrono::milliseconds{period}, std::chrono::milliseconds{wait});
}
void i_ctor0(void* p, std::function<void()>& f) { new (p) interval_event(f); }
void i_dtor(interval_event& e) { e.~interval_event(); }
void i_stop(interval_event& e) { e.stop(); }
void i_set_period(interval_event& e, std::chrono::milliseconds const& v) { e.period(v); }
void i_set_check(interval_event& e, std::chrono::milliseconds const& v) { e.period_between_checks(v); }
long i_period(interval_event& e) { return e.period().count(); }
long i_check(interval_event& e) { return e.period_between_checks().count(); }
}
