// Log of the character database: every function over all code points and the names it knows.
#include <cstdint>
#include DB
#include <cstdint>
#include <cstdio>
#include <string_view>
template <typename F> void log(const char * name, F f) {
	// one hash per 4096 code points
	for (uint32_t b = 0; b < 0x110000; b += 0x1000) { uint64_t h = 1469598103934665603u; for (uint32_t c = b; c < b + 0x1000; ++c) h = (h ^ uint64_t(f(char32_t(c)))) * 1099511628211u; std::printf("%s %x %llx\n", name, b, (unsigned long long)h); }
}
int main() {
	log("category", [](char32_t c) { return int(uni::cp_category(c)); });
	log("script", [](char32_t c) { return int(uni::cp_script(c)); });
	log("age", [](char32_t c) { return int(uni::cp_age(c)); });
	log("block", [](char32_t c) { return int(uni::cp_block(c)); });
	log("valid", [](char32_t c) { return uni::cp_is_valid(c); });
	log("assigned", [](char32_t c) { return uni::cp_is_assigned(c); });
	log("ascii", [](char32_t c) { return uni::cp_is_ascii(c); });
	log("extensions", [](char32_t c) { uint64_t h = 7; for (auto s: uni::cp_script_extensions(c)) h = h * 31 + uint64_t(s); return h; });
	log("numeric", [](char32_t c) { auto v = uni::cp_numeric_value(c); return v.is_valid() ? v.numerator() * 1000 + v.denominator() : -1; });
	std::puts("done");
}
