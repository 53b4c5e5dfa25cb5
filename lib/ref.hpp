// Reference regular expression engine: an independent, deliberately naive backtracking matcher for the
// pattern syntax the library documents. It works on code points and has no optimisations at all.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace ref {

struct Node;
using NP = std::shared_ptr<Node>;

enum Kind { Empty, Char, Any, Set, Seq, Alt, Cap, Rep, Atomic, Look, BackRef, Bol, Eol, SubjBegin, SubjEnd, SubjEndLine, WordB, NotWordB, Mode };
enum RepKind { Greedy, Lazy, Possessive };

struct Item { // member of a set; neg complements it
	enum T { Range, Class, Prop } t = Range;
	char32_t a = 0, b = 0;
	std::string name;
	bool neg = false;
};

struct Node {
	Kind k = Empty;
	char32_t c = 0;
	std::vector<NP> ch;
	std::vector<Item> items;
	bool neg = false;           // Set: negated; Look: negative
	bool behind = false;        // Look
	int id = 0;                 // Cap, BackRef
	std::string name;           // Cap
	int min = 0, max = -1;      // Rep
	RepKind rk = Greedy;
	bool collapsible = false;   // Rep: an optional whose whole content is a lazy optional
	char mode = 0;              // Mode: i c s m
	bool back = false;          // inside a look-behind: may be matched right to left
};

struct Pattern {
	NP root;
	int groups = 0;
	bool has_behind = false;
	bool has_collapsible = false;
	std::map<std::string, int> names;
	bool ok = false;
	std::string error;
};

Pattern parse(const std::u32string & text);

struct Opts {
	bool ci = false;
	bool multiline = false;
	bool atomic_iterations = false; // a completed iteration of a repetition is never re-entered
	bool perl_empty = false;        // an empty optional iteration is accepted once and ends the loop (otherwise: refused)
	bool forward_behind = false;    // look-behind content is tried left to right from every start (otherwise: right to left)
	bool collapse = false;          // an optional of a lazy optional is the lazy optional itself (tests/generating.cpp), so its empty iteration comes first
	long budget = 2000000;
};

struct Result {
	bool ok = false;
	bool unknown = false; // out of budget
	std::vector<std::pair<int, int>> cap; // (-1,-1): not set
	bool operator==(const Result & o) const { return ok == o.ok && (!ok || cap == o.cap); }
};

enum Op { Match, Search, StartsWith };

// the subject is all of s; matching starts at position `from`, context before it is visible
Result run(const Pattern &, Op, const std::u32string & s, const Opts &, size_t from = 0, bool non_empty = false);

bool item_matches(const Item &, char32_t c, bool ci);
bool class_matches(const std::string & name, char32_t c);
inline bool is_word(char32_t c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }

// hook for \p{..}; default: never matches
extern bool (*property_hook)(const std::string & name, char32_t c);

}
