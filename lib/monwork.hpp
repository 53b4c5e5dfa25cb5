#pragma once
#include "counting.hpp"
#include "mon.hpp"
namespace mon {
using It = Counting<char, std::random_access_iterator_tag>;
struct Done { bool ok; long reads, steps, matched, elements; };
using WorkFn = Done (*)(const char * b, const char * e);
// kind 0: linear work (plan describes subjects); 1: termination only
struct WorkCase { const char * pattern; const char * plan; const char * alphabet; int kind; int nops; WorkFn fn[6]; };
template <typename R> Done done(const R & r) { return {bool(r), It::work.reads, It::work.steps, bool(r) ? long(r.end().p - r.begin().p) : -1, 1}; }
template <typename R> Done drain(const R & r, long cap) { Done d{true, 0, 0, 0, 0}; for (auto && m: r) { if (++d.elements > cap) { d.ok = false; break; } d.matched += m.end().p - m.begin().p; } d.reads = It::work.reads; d.steps = It::work.steps; return d; }
}
extern const mon::WorkCase work_cases[];
extern const size_t work_case_count;
