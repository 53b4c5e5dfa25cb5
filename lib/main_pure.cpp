// Purity monitor: threads run random operations on shared data under the race detector; histories of calls in one thread on reused buffers; all results against each other.
#include "monutil.hpp"
#include "monpure.hpp"
#include <atomic>
#include <sched.h>
#include <sys/mman.h>
#include <thread>
#include <time.h>
using namespace mu;
using namespace mon;
static char * area; static size_t used, area_size;
static void * place(const void * data, size_t n, size_t align) { used = (used + align - 1) / align * align; if (used + n > area_size) { printf("{\"error\":\"area\"}\n"); _exit(1); } void * p = area + used; if (n) memcpy(p, data, n); used += n + 1; return p; }
struct Built { std::list<char> l; std::vector<std::string_view> parts; };
static Subj build(const std::u32string & s, Built & own) {
	Subj x{};
	std::string a, u = encode8(s); for (auto c: s) a += char(c < 0x80 ? c : '?');
	x.b = static_cast<char *>(place(a.data(), a.size(), 1)); x.n = a.size();
	x.w = static_cast<char32_t *>(place(s.data(), s.size() * 4, 4));
	x.u = static_cast<unsigned char *>(place(u.data(), u.size(), 1)); x.un = u.size();
	own.l.assign(a.begin(), a.end());
	for (size_t i = 0; i < x.n; i += 2) own.parts.push_back(std::string_view(x.b + i, std::min<size_t>(x.n - i, 5)));
	x.l = &own.l; x.parts = &own.parts;
	return x;
}
struct Event { int c, e, s; uint32_t from, to; uint64_t hash; };
static uint64_t hash(const Row & r) { uint64_t h = 1469598103934665603u; for (unsigned char ch: r) h = (h ^ ch) * 1099511628211u; return h; }
static std::atomic<uint32_t> ticket, ready;
int main(int argc, char ** argv) {
	bool threads = strcmp(argv[3], "threads") == 0;
	if (threads) { } else install();
	uint64_t seed = strtoull(argv[1], nullptr, 10);
	size_t scale = size_t(atol(argv[2]));
	long stat_ops = 0, stat_overlap = 0, viol = 0, history = 0, mutated = 0;
	std::set<std::pair<uint64_t, uint64_t>> pairs;
	area_size = size_t(16) << 20;
	area = static_cast<char *>(mmap(nullptr, area_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
	std::vector<std::vector<Subj>> all(pure_case_count);
	std::deque<Built> own;
	std::vector<std::vector<std::u32string>> texts(pure_case_count);
	std::vector<int> entries(pure_case_count);
	for (size_t c = 0; c < pure_case_count; ++c) {
		const auto & k = pure_cases[c];
		Rng r(seed * 7919 + c);
		auto p = ref::parse(decode(k.pattern));
		std::u32string alpha = decode(k.alphabet);
		bool wide = !p.ok; for (auto ch: alpha) wide = wide || ch > 0x7F;
		std::vector<std::u32string> subj;
		size_t want = threads ? 10 * scale : 16 * scale;
		if (!wide) { auto v = subjects(p, k.alphabet, 12, 30 * scale, 6 * scale, r); while (subj.size() < want && !v.empty()) { size_t i = r.below(v.size()); subj.push_back(decode(v[i])); v.erase(v.begin() + long(i)); } }
		else while (subj.size() < want) {
			std::u32string s; std::vector<std::u32string> caps;
			if (p.ok && r.chance(70)) sample(*p.root, s, "ab", r, caps, 0);
			for (size_t n = r.chance(70) ? r.below(7) : 0; n; --n) s.insert(r.below(s.size() + 1), 1, alpha[r.below(alpha.size())]);
			subj.push_back(s);
		}
		texts[c] = subj;
		for (auto & s: subj) { own.emplace_back(); all[c].push_back(build(s, own.back())); }
		while (entries[c] < 8 && k.entry[entries[c]].fn) ++entries[c];
	}
	mprotect(area, area_size, PROT_READ); // from here on, writing to a subject is a crash
	std::vector<std::vector<uint64_t>> base(pure_case_count);
	auto at = [&](size_t c, int e, size_t s) { return size_t(e) * all[c].size() + s; };
	auto baseline = [&](size_t c) {
		const auto & k = pure_cases[c];
		base[c].assign(size_t(entries[c]) * all[c].size(), 0);
		for (int e = 0; e < entries[c]; ++e) for (size_t s = 0; s < all[c].size(); ++s) {
			current.index = c; current.pattern = k.pattern; current.what = k.entry[e].what; current.subject = encode8(texts[c][s]);
			Row row; allow_cpu(60); k.entry[e].fn(row, all[c][s], s); allow_cpu(0); base[c][at(c, e, s)] = hash(row);
		}
	};
	auto prepare = [&](size_t c) { for (int e = 0; e < entries[c]; ++e) if (pure_cases[c].entry[e].prep) for (size_t s = 0; s < all[c].size(); ++s) { current.pattern = pure_cases[c].pattern; current.index = c; current.subject = encode8(texts[c][s]); pure_cases[c].entry[e].prep(all[c][s], s); } };
	auto report = [&](const char * kind, size_t c, int e, size_t s) { if (viol++ < 6) printf("{\"violation\":\"%s\",\"i\":%zu,\"pattern\":%s,\"flags\":%d,\"what\":\"%s\",\"subject\":%s}\n", kind, c, jstr(pure_cases[c].pattern).c_str(), pure_cases[c].flags, pure_cases[c].entry[e].what, jstr(encode8(texts[c][s])).c_str()); };
	// ---- many threads
	auto epoch = [&](std::vector<size_t> cases, size_t count, size_t ops, uint64_t salt) {
		std::vector<std::vector<Event>> logs(count);
		std::vector<std::thread> ts;
		ready.store(0, std::memory_order_relaxed);
		for (size_t t = 0; t < count; ++t) ts.emplace_back([&, t] {
			Rng r(seed * 31 + salt * 977 + t);
			logs[t].reserve(ops);
			ready.fetch_add(1, std::memory_order_relaxed);
			while (ready.load(std::memory_order_relaxed) < count) sched_yield();
			for (size_t i = 0; i < ops; ++i) {
				size_t c = cases[r.below(cases.size())];
				int e = int(r.below(size_t(entries[c]))); size_t s = r.below(all[c].size());
				if (i < 3) { e = int((i + salt) % size_t(entries[c])); s = i % all[c].size(); } // first calls of everybody coincide
				if (r.chance(5)) sched_yield();
				if (r.chance(2)) { timespec d{0, long(r.below(40000))}; nanosleep(&d, nullptr); }
				uint32_t from = ticket.fetch_add(1, std::memory_order_relaxed); // (relaxed: the monitor must not order the threads)
				Row row; pure_cases[c].entry[e].fn(row, all[c][s], s);
				uint32_t to = ticket.fetch_add(1, std::memory_order_relaxed);
				logs[t].push_back({int(c), e, int(s), from, to, hash(row)});
			}
		});
		for (auto & t: ts) t.join();
		for (auto & l: logs) stat_ops += long(l.size());
		for (size_t a = 0; a < count; ++a) for (size_t b = a + 1; b < count; ++b) {
			size_t j = 0;
			for (auto & x: logs[a]) {
				while (j < logs[b].size() && logs[b][j].to < x.from) ++j;
				for (size_t q = j; q < logs[b].size() && logs[b][q].from < x.to; ++q) { ++stat_overlap; uint64_t p = uint64_t(x.c) * 8 + uint64_t(x.e), o = uint64_t(logs[b][q].c) * 8 + uint64_t(logs[b][q].e); pairs.insert({std::min(p, o), std::max(p, o)}); }
			}
		}
		return logs;
	};
	auto judge = [&](const std::vector<std::vector<Event>> & logs) { for (auto & l: logs) for (auto & x: l) if (x.hash != base[size_t(x.c)][at(size_t(x.c), x.e, size_t(x.s))]) report("a concurrent call gives another result", size_t(x.c), x.e, size_t(x.s)); };
	std::vector<size_t> everything;
	for (size_t c = 0; c < pure_case_count; ++c) everything.push_back(c);
	if (threads) {
		for (size_t c = 0; c < pure_case_count; ++c) {
			prepare(c);
			bool first = c % 2 == 0; // half of the patterns are used by several threads before anybody else used them
			if (!first) baseline(c);
			auto logs = epoch({c}, 6, 60 * scale, c);
			if (first) baseline(c);
			judge(logs);
		}
		judge(epoch(everything, 8, 150 * scale, 999));
	} else {
		// ---- histories: any order, the same memory with changing content
		Rng r(seed * 13 + 5);
		for (size_t c = 0; c < pure_case_count; ++c) { prepare(c); baseline(c); }
		size_t cap = 4096;
		char * hb = static_cast<char *>(malloc(cap)); char32_t * hw = static_cast<char32_t *>(malloc(cap * 4)); unsigned char * hu = static_cast<unsigned char *>(malloc(cap * 4));
		std::list<char> hl; std::vector<std::string_view> hp;
		size_t steps = 600 * scale * pure_case_count, c = 0, s = 0;
		for (size_t i = 0; i < steps; ++i) {
			if (i % 8 == 0 || r.chance(10)) c = r.below(pure_case_count);
			int e = int(r.below(size_t(entries[c]))); s = r.below(all[c].size());
			const Subj & o = all[c][s];
			const auto & k = pure_cases[c].entry[e];
			current.index = c; current.pattern = pure_cases[c].pattern; current.what = k.what; current.subject = encode8(texts[c][s]);
			Row row;
			allow_cpu(60);
			if (k.prep || r.chance(30)) k.fn(row, o, s);
			else {
				memcpy(hb, o.b, o.n); memcpy(hw, o.w, o.n * 4); memcpy(hu, o.u, o.un); hl.assign(o.l->begin(), o.l->end());
				hp.clear(); for (size_t j = 0; j < o.n; j += 2) hp.push_back(std::string_view(hb + j, std::min<size_t>(o.n - j, 5)));
				Subj x{hb, o.n, hw, hu, o.un, &hl, &hp};
				k.fn(row, x, s);
				if (memcmp(hb, o.b, o.n) || memcmp(hw, o.w, o.n * 4) || memcmp(hu, o.u, o.un) || !std::equal(hl.begin(), hl.end(), o.l->begin(), o.l->end())) { report("the subject was modified", c, e, s); ++mutated; }
			}
			allow_cpu(0);
			++history;
			if (hash(row) != base[c][at(c, e, s)]) report("a repeated call gives another result", c, e, s);
		}
	}
	// once more, after everything
	for (size_t c = 0; c < pure_case_count; ++c) { auto b = base[c]; baseline(c); for (int e = 0; e < entries[c]; ++e) for (size_t s = 0; s < all[c].size(); ++s) if (b[at(c, e, s)] != base[c][at(c, e, s)]) report("a later call gives another result", c, e, s); }
	printf("{\"done\":%zu,\"ops\":%ld,\"overlaps\":%ld,\"pairs\":%zu,\"history\":%ld,\"viol\":%ld}\n", pure_case_count, stat_ops, stat_overlap, pairs.size(), history, viol);
}
