// P29: the Unicode database's own interface, every code point, against the frozen database
#include <ctre-unicode.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
namespace api {
struct Pred { const char * name; bool (*fn)(char32_t); int set; const char * changed; bool beyond; };
struct Enum { const char * kind, * name; long value, from_string; };
using Ranges = std::vector<std::pair<uint32_t, std::string>>;
inline long shown = 0;
inline void bad(const char * what, const char * name, unsigned long c, const std::string & got, const std::string & want) {
	static std::map<std::string, int> n;
	if (n[what]++ < 3) { std::printf("{\"violation\": \"%s\", \"name\": \"%s\", \"codepoint\": \"U+%04lX\", \"got\": \"%s\", \"expected\": \"%s\"}\n", what, name, c, got.c_str(), want.c_str()); ++shown; }
}
inline std::string num(long long x) { return std::to_string(x); }
struct Data {
	std::map<std::string, Ranges> maps;
	std::vector<std::vector<bool>> sets;
	std::vector<bool> mask;
	std::vector<unsigned> changed;
	static std::vector<bool> bits(const std::string & l) { std::vector<bool> b(0x110000); std::istringstream in(l); size_t x, y; while (in >> x >> y) for (size_t i = x; i <= y; ++i) b[i] = true; return b; }
	Data(const char * maps_file, const char * sets_file) {
		std::ifstream in(maps_file);
		std::string l, cur;
		while (std::getline(in, l)) {
			if (l[0] == '=') cur = l.substr(1);
			else { auto t = l.find('\t'); maps[cur].push_back({uint32_t(std::stoul(l.substr(0, t))), l.substr(t + 1)}); }
		}
		std::ifstream s(sets_file);
		std::getline(s, l); mask = bits(l);
		while (std::getline(s, l)) sets.push_back(bits(l));
	}
	template <typename F> void each(const char * map, F f) const {  // f(code point, value, value's number)
		const Ranges & r = maps.at(map);
		for (size_t i = 0; i < r.size(); ++i)
			for (uint32_t c = r[i].first, e = i + 1 < r.size() ? r[i + 1].first : 0x110000; c < e; ++c) f(char32_t(c), r[i].second, i);
	}
};
// values beyond the last code point: no character there
inline const char32_t beyond[] = {0x110000, 0x110001, 0x11FFFF, 0x120000, 0x200000, 0xFFFFFF, 0x1000000, 0x10000041, 0x7FFFFFFF, 0x80000000, 0x80000041, 0xFFFF0041, 0xFFFFFFFE, 0xFFFFFFFF};

template <typename E> E find(std::map<std::string, E> & m, const std::string & s, E (*f)(std::string_view)) {
	auto it = m.find(s);
	return it != m.end() ? it->second : m.emplace(s, f(s)).first->second;
}
inline int sweep(const char * maps_file, const char * sets_file, const Pred * preds, size_t pn, const Enum * enums, size_t en, int part, int parts, bool tables) {
	Data d(maps_file, sets_file);
	long evals = 0, valued = 0, exts = 0;
	std::set<std::string> distinct;
	if (tables) {
		std::map<std::string, uni::category> cats;
		std::vector<bool> unassigned(0x110000);
		d.each("General_Category", [&](char32_t c, const std::string & v, size_t) {
			auto want = v == "Cn" ? uni::category::unassigned : find(cats, v, &uni::detail::category_from_string);
			auto got = uni::cp_category(c);
			++evals; distinct.insert("gc" + v); valued += want != uni::category::unassigned;
			if (got != want) bad("cp_category", v.c_str(), c, num(long(got)), num(long(want)));
			bool assigned = v != "Cn";
			unassigned[c] = !assigned;
			if (uni::cp_is_assigned(c) != assigned) bad("cp_is_assigned", v.c_str(), c, num(!assigned), num(assigned));
			if (!uni::cp_is_valid(c)) bad("cp_is_valid", "", c, "0", "1");
			if (uni::cp_is_ascii(c) != (c < 0x80)) bad("cp_is_ascii", "", c, num(c >= 0x80), num(c < 0x80));
		});
		std::map<std::string, uni::script> scripts;
		auto script = [&](const std::string & v) { return v == "Unknown" ? uni::script::unknown : find(scripts, v, &uni::detail::script_from_string); };
		d.each("Script", [&](char32_t c, const std::string & v, size_t) {
			auto want = script(v), got = uni::cp_script(c);
			++evals; distinct.insert("sc" + v);
			if (got != want) bad("cp_script", v.c_str(), c, num(long(got)), num(long(want)));
		});
		size_t last = size_t(-1);
		std::set<long> want;
		d.each("Script_Extensions", [&](char32_t c, const std::string & v, size_t i) {
			if (i != last) {
				last = i; want.clear();
				std::istringstream in(v); std::string one;
				while (std::getline(in, one, ',')) { if (one != "Unknown") want.insert(long(script(one))); }
			}
			auto view = uni::cp_script_extensions(c);
			std::set<long> got;
			size_t n = 0;
			for (auto it = view.begin(); it != view.end() && n < 64; ++n) { got.insert(long(*it)); if (c % 2) ++it; else it++; }
			++evals; exts += n; distinct.insert("scx" + v);
			if (got != want || n != want.size() || (view.begin() == view.end()) != want.empty()) bad("cp_script_extensions", v.c_str(), c, num(long(n)), num(long(want.size())));
		});
		std::map<std::string, uni::version> ages;
		d.each("Age", [&](char32_t c, const std::string & v, size_t) {
			auto want = v == "Unassigned" ? uni::version::unassigned : find(ages, v, &uni::detail::age_from_string), got = uni::cp_age(c);
			++evals; distinct.insert("age" + v);
			if (got != want) bad(unassigned[c] ? "cp_age of a noncharacter" : "cp_age", v.c_str(), c, num(long(got)), num(long(want)));
		});
		std::map<std::string, uni::block> blocks;
		d.each("Block", [&](char32_t c, const std::string & v, size_t) {
			auto want = v == "No_Block" ? uni::block::no_block : find(blocks, v, &uni::detail::block_from_string), got = uni::cp_block(c);
			++evals; distinct.insert("blk" + v);
			if (got != want) bad("cp_block", v.c_str(), c, num(long(got)), num(long(want)));
			if (v != "No_Block" && want == uni::block::no_block) bad("block name", v.c_str(), c, "unknown", "known");
		});
		d.each("Numeric_Value", [&](char32_t c, const std::string & v, size_t) {
			auto got = uni::cp_numeric_value(c);
			++evals; distinct.insert("nv" + v);
			bool valid = v != "NaN";
			valued += valid;
			long long n = 0, q = 1;
			if (valid) { n = std::stoll(v); auto s = v.find('/'); if (s != std::string::npos) q = std::stoll(v.substr(s + 1)); }
			if (got.is_valid() != valid) bad("cp_numeric_value: valid", v.c_str(), c, num(got.is_valid()), v);
			else if (valid && (got.numerator() * q != n * got.denominator() || got.denominator() < 1)) bad("cp_numeric_value", v.c_str(), c, num(got.numerator()) + "/" + num(got.denominator()), v);
			else if (valid && got.value() != double(n) / double(q)) bad("cp_numeric_value: value", v.c_str(), c, std::to_string(got.value()), v);
		});
		for (char32_t c: beyond) {
			++evals;
			if (uni::cp_category(c) != uni::category::unassigned) bad("cp_category beyond", "", c, "some", "unassigned");
			if (uni::cp_script(c) != uni::script::unknown) bad("cp_script beyond", "", c, "some", "unknown");
			if (uni::cp_age(c) != uni::version::unassigned) bad("cp_age beyond", "", c, "some", "unassigned");
			if (uni::cp_block(c) != uni::block::no_block) bad("cp_block beyond", "", c, "some", "no_block");
			if (uni::cp_is_valid(c)) bad("cp_is_valid beyond", "", c, "1", "0");
			if (uni::cp_is_assigned(c)) bad("cp_is_assigned beyond", "", c, "1", "0");
			if (uni::cp_is_ascii(c)) bad("cp_is_ascii beyond", "", c, "1", "0");
			if (uni::cp_numeric_value(c).is_valid()) bad("cp_numeric_value beyond", "", c, "1", "0");
		}
		for (size_t i = 0; i < en; ++i) { ++evals; if (enums[i].value != enums[i].from_string) bad("enumerator", enums[i].name, 0, num(enums[i].from_string), num(enums[i].value)); }
	}
	long tested = 0;
	for (size_t i = size_t(part); i < pn; i += size_t(parts)) {
		const Pred & p = preds[i];
		std::set<unsigned> skip;
		{ std::istringstream ch(p.changed); unsigned x; while (ch >> x) skip.insert(x); }
		const auto & want = d.sets[size_t(p.set)];
		++tested;
		for (uint32_t c = 0; c < 0x110000; ++c) {
			if (!d.mask[c] || skip.count(c)) continue;
			++evals;
			if (p.fn(c) != want[c]) bad("predicate", p.name, c, num(!want[c]), num(want[c]));
		}
		for (char32_t c: beyond) { ++evals; if (p.fn(c) != p.beyond) bad("predicate beyond", p.name, c, num(!p.beyond), num(p.beyond)); }
	}
	std::printf("{\"evals\": %ld, \"valued\": %ld, \"extensions\": %ld, \"distinct\": %zu, \"predicates\": %ld, \"bad\": %ld}\n{\"done\": 1}\n", evals, valued, exts, distinct.size(), tested, shown);
	return 0;
}
}
