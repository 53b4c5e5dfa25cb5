#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

I = "include/ctre/"
p("P01", "match, search and starts_with find exactly what the pattern describes",
  "For every supported pattern and every subject, matching the whole subject, matching a prefix and searching each succeed exactly when ordered backtracking over the pattern (Perl conventions: alternatives left to right, quantifiers by preference, concatenation in order) finds a match, and the reported span is the one that order finds first (one iteration of a repeated group, once completed, may be treated as settled). Search reports the leftmost starting position at which a match exists; prefix matching only considers the subject's first position; whole matching must use up the subject.",
  ["programs", "inputs"], "all patterns over the supported syntax x all subjects",
  "The tests assert a few hundred hand-picked pattern/subject pairs, almost all with one feature each; wrong results come from combinations of nested alternation, quantifiers and continuations that no list of examples covers.",
  [I+"evaluation.hpp", I+"wrapper.hpp", I+"first.hpp", I+"starts_with_anchor.hpp", I+"pcre_actions.hpp"],
  [("evaluate overloads driven by a continuation list", I+"evaluation.hpp"), ("match/search/starts_with methods", I+"wrapper.hpp match_method, search_method, starts_with_method"), ("skip of later start positions for anchored patterns", I+"starts_with_anchor.hpp")],
  ["return value of ctre::match/search/starts_with"])
p("P02", "Captures report the text their group last matched on the successful path",
  "After a successful match every numbered or named group is set exactly when it took part in the match as found, and then denotes the part of the subject covered by its last completed pass on the successful path; text tried on an abandoned path never shows. Groups are numbered by their opening parenthesis, group 0 is the whole match, and a name and its number give the same capture.",
  ["programs", "inputs"], "all patterns with capturing groups (in repetitions, alternatives, optional parts, look-around) x all subjects",
  "Tests check captures of straight-line patterns; rollback of captures on backtracking and overwriting by later iterations depend on the pattern/subject combination.",
  [I+"evaluation.hpp", I+"return_type.hpp", I+"find_captures.hpp", I+"actions/capture.inc.hpp"],
  [("captures passed by value through evaluation", I+"evaluation.hpp"), ("capture storage", I+"return_type.hpp captured_content, captures"), ("list of captures of a pattern", I+"find_captures.hpp")],
  ["get<N>(), get<\"name\">(), structured bindings of the result"])
p("P03", "Quantifiers repeat within their bounds and by their preference",
  "A quantified element is repeated at least its minimum and at most its maximum number of times; greedy prefers more repetitions, lazy fewer, possessive takes as many as possible and never gives back, and the rest of the pattern decides among the counts in that order. Adjacent quantified copies of the same element mean the same as each applied in turn, and internal shortcuts for repetitions never change any result.",
  ["programs", "inputs"], "all quantifier kinds and bounds, nested and adjacent, over all element kinds and continuations x all subjects",
  "Tests sample a few bounds with short subjects; the shortcut that drops backtracking is decided from first-character sets of the element and of what follows, which no fixed list of pairs covers.",
  [I+"evaluation.hpp", I+"first.hpp", I+"actions/fusion.inc.hpp", I+"actions/repeat.inc.hpp"],
  [("repeat, lazy_repeat, possessive_repeat evaluation", I+"evaluation.hpp"), ("greedy to possessive shortcut by first-set collision", I+"first.hpp collides, calculate_first"), ("fusion of adjacent repeats", I+"actions/fusion.inc.hpp")],
  ["span and captures of the result"])
p("P04", "Anchors and word boundaries hold exactly at their positions",
  "Start and end anchors hold exactly at the start and end of the subject, in multi-line mode also after and before each newline; the absolute anchors never depend on line structure (except that in multi-line mode the soft end also holds before a final newline); a word boundary holds exactly where one neighbouring character is a word character and the other is not, and its negation exactly elsewhere. The dot matches every character, except newline in multi-line mode, and searching never skips a start position at which an anchored alternative could succeed.",
  ["programs", "inputs"], "anchors and boundaries at any place of a pattern, both line modes x all subjects incl. empty, newlines at the edges",
  "Tests use anchors at the natural ends of patterns; anchors in optional or repeated parts, after quantifiers, and newline layouts at the edges are not enumerated.",
  [I+"evaluation.hpp", I+"starts_with_anchor.hpp", I+"first.hpp", I+"actions/boundaries.inc.hpp", I+"actions/asserts.inc.hpp"],
  [("assertion evaluation", I+"evaluation.hpp"), ("anchored-search shortcut", I+"starts_with_anchor.hpp"), ("assertions in first sets", I+"first.hpp")],
  ["result of match/search/starts_with and multiline_ variants"])
p("P05", "Case-insensitive matching ignores exactly the case of ASCII letters",
  "With case-insensitive matching requested (modifier, or inline switch for what follows it in its alternative), the result is that of the pattern in which every literal, range, set and back-reference treats an ASCII letter and its other case alike; swapping the case of any letters of the subject never changes success or spans for patterns without case-specific Unicode properties. Without it, case always matters, and no non-letter is ever folded.",
  ["programs", "inputs"], "all patterns x all subjects x all case variants of the subject",
  "The tests try a few letters; folding is implemented separately for literals, ranges and comparisons and interacts with the repetition shortcut.",
  [I+"atoms_characters.hpp", I+"flags_and_modes.hpp", I+"evaluation.hpp", I+"first.hpp", I+"actions/mode.inc.hpp"],
  [("per-atom folding", I+"atoms_characters.hpp character, char_range"), ("flag plumbing", I+"flags_and_modes.hpp, mode_switch in evaluation.hpp")],
  ["match with ctre::case_insensitive or (?i)"])
p("P06", "Every escape, class and set accepts exactly its documented characters",
  "For every code point, a literal, escape, shorthand class, POSIX class, range, set or negated set accepts it exactly when the documented definition does; a negated form accepts exactly the complement, a set exactly the union of its members. This holds wherever the element stands, alone, in a set, or under a quantifier.",
  ["programs", "inputs"], "every class/escape/set form x every code point (0..0x10FFFF for wide subjects, 0..127 for narrow)",
  "Tests probe a handful of characters per class; a wrong bound or missing member shows only for specific code points.",
  [I+"atoms_characters.hpp", I+"actions/characters.inc.hpp", I+"actions/class.inc.hpp", I+"actions/named_class.inc.hpp", I+"actions/set.inc.hpp", I+"actions/hexdec.inc.hpp"],
  [("character-like atoms", I+"atoms_characters.hpp"), ("escape and set construction", I+"actions/*.inc.hpp")],
  ["match of one-character subjects"])
p("P07", "Look-around and atomic groups assert without consuming or backtracking",
  "A positive (negative) look-ahead holds exactly where its content does (does not) match from the current position, a look-behind exactly where its content does (does not) match a stretch ending there, neither moves the position (the content of a look-behind may be tried in either direction), and captures set inside a positive one are kept while those of a negative one are not. An atomic group takes the first way its content can match, including the empty way, and never retries another.",
  ["programs", "inputs"], "look-arounds and atomic groups in any nesting and under alternation or quantifiers x all subjects",
  "Tests have few look-behind and atomic examples; the interaction with captures, anchors, alternation and backtracking around them is untested.",
  [I+"evaluation.hpp", I+"rotate.hpp", I+"actions/look.inc.hpp", I+"actions/atomic_group.inc.hpp", I+"find_captures.hpp"],
  [("lookahead/lookbehind evaluation", I+"evaluation.hpp"), ("reversal of look-behind content", I+"rotate.hpp")],
  ["span and captures of the result"])
p("P08", "Back-references match exactly the text their group captured",
  "A back-reference, by number, relative number or name, succeeds exactly when the group is set and the subject continues with the same text as its current capture (ignoring ASCII case when matching is case-insensitive), and it consumes that text; a reference to a group that is not set fails. The capture referred to is the one of the current path, including after iterations and backtracking; inside its own group, a reference stands for the capture of the previous iteration.",
  ["programs", "inputs"], "patterns with back-references in sequences, alternations and repetitions x all subjects",
  "A few fixed examples exist; which capture value is current after backtracking or re-iteration depends on the combination.",
  [I+"evaluation.hpp", I+"actions/backreference.inc.hpp", I+"return_type.hpp"],
  [("match_against_range", I+"evaluation.hpp"), ("reference resolution at parse time", I+"actions/backreference.inc.hpp")],
  ["span and captures of the result"])
p("P09", "Enumerating all matches yields each successive leftmost match once and ends",
  "Iterating over all matches yields, in order, non-overlapping matches: each is the leftmost match starting at or after the end of the previous one (strictly later when the previous one was empty), with anchors, boundaries and look-behind seeing the whole subject. The enumeration ends after a match that ends at the end of the subject or when there is none left, it always terminates, also for patterns that match the empty string, and copies, repeated passes and the iterator/sentinel pair give the same sequence. Two iterators of one enumeration (one behind the last match included) are equal exactly if they are at the same match, and are ordered as their matches are.",
  ["programs", "inputs", "histories"], "all patterns (incl. those matching empty) x all subjects x all traversal histories (copy, post-increment, two passes)",
  "Tests iterate over a few token-like patterns; empty matches, context-dependent patterns and iterator copies are not covered.",
  [I+"iterators.hpp", I+"range.hpp", I+"wrapper.hpp"],
  [("regex_iterator", I+"iterators.hpp"), ("regex_range", I+"range.hpp"), ("search_method with original begin", I+"wrapper.hpp")],
  ["sequence produced by ctre::search_all / ctre::iterator"],
  [("current, orig_begin, current_match", "position where the next search starts, start of subject, last match", I+"iterators.hpp")])
p("P10", "Splitting conserves the subject and cuts at every separator",
  "Splitting yields the pieces between successive non-empty separator matches, in order, including empty pieces and the tail after the last separator: joining pieces and separators in order gives back exactly the subject, and a non-empty subject without a separator is yielded whole. It always terminates, whatever the separator pattern (empty matches do not cut), and each piece carries the captures of the separator that ended it. Two iterators of one splitting are equal exactly if they are at the same piece.",
  ["programs", "inputs"], "all separator patterns (anchored, context-dependent, possibly empty) x all subjects",
  "Tests split a few comma lists; adjacent, leading, trailing, missing and empty separators combine in ways they do not reach.",
  [I+"iterators.hpp", I+"range.hpp", I+"wrapper.hpp"],
  [("regex_split_iterator modify_match/match_rest", I+"iterators.hpp"), ("end propagation of an unsuccessful search", I+"wrapper.hpp search_method")],
  ["sequence produced by ctre::split"])
p("P11", "Tokenizing yields contiguous tokens and stops at the first mismatch",
  "Tokenizing yields tokens that start at the beginning of the subject and follow each other without gaps, each being the match of the pattern at its position with the preceding text visible as context, and stops at the end of the subject or at the first position where the pattern's match is absent or empty. It always terminates. Two iterators of one tokenization are equal exactly if they are at the same token.",
  ["programs", "inputs"], "all token patterns x all subjects",
  "Tests tokenize a few inputs; stop conditions, empty tokens and context-dependence are untested.",
  [I+"iterators.hpp", I+"range.hpp", I+"wrapper.hpp"],
  [("tokenize_method over starts_with_method", I+"wrapper.hpp"), ("regex_iterator", I+"iterators.hpp")],
  ["sequence produced by ctre::tokenize"])
p("P12", "Filtering a range of subjects yields exactly the matching subjects in order",
  "Applying a pattern to a range of subjects yields, in the range's order, exactly one result for every element that matches and none for the others, each equal to matching that element alone; the sequence ends at the end of the range and never reads past it. Traversing by copies of iterators or several times gives the same sequence.",
  ["inputs", "histories"], "all ranges of subjects (empty, none matching, all matching, adjacent matches, matches at the ends) x traversal histories",
  "One test file covers two or three ranges; matches at the edges, empty ranges and element types differ.",
  [I+"range.hpp", I+"wrapper.hpp"],
  [("multi_subject_range::iterator", I+"range.hpp"), ("operator| on ranges", I+"wrapper.hpp")],
  ["sequence produced by range | ctre::match/search/starts_with"])
p("P13", "Every operation terminates within the work its pattern needs",
  "Matching any supported pattern against any finite subject terminates; a repetition of something that can match the empty string does not loop without consuming. When each repetition is of a character, a set or a class and what follows must begin with a character, set or class disjoint from it (at most one of the two negated, and that one a negated set of characters and ranges in ascending order), a prefix or whole match inspects a number of characters linear in the subject, instead of retrying shorter repetitions.",
  ["programs", "inputs"], "all patterns incl. nested repetitions of possibly-empty elements x all subjects, growing subject lengths",
  "A compile-time test cannot observe work and a hanging pattern would simply not be in the suite.",
  [I+"evaluation.hpp", I+"first.hpp", I+"iterators.hpp"],
  [("empty-iteration guard", I+"evaluation.hpp end_cycle_mark, flags.block_empty_match"), ("greedy to possessive shortcut", I+"first.hpp")],
  ["count of character inspections through an instrumented iterator"])
p("P14", "Long subjects do not exhaust the stack for non-ambiguous repetitions",
  "Repeating a character, set or class that cannot start the character or string that must follow it (at most one of the two negated, and that one a negated set of characters and ranges in ascending order), possessive and lazy repetition of fixed elements, literals, and searching, splitting, tokenizing or enumerating over a long subject use an amount of stack that does not grow with the subject's length.",
  ["inputs"], "subjects from a few bytes to tens of megabytes x the listed pattern shapes",
  "All tests run on short constants in constant evaluation; stack use is not observable there.",
  [I+"evaluation.hpp", I+"first.hpp", I+"iterators.hpp", I+"wrapper.hpp"],
  [("loops for possessive and lazy repetition", I+"evaluation.hpp"), ("greedy to possessive shortcut", I+"first.hpp"), ("search loop", I+"wrapper.hpp")],
  ["lowest stack address seen by an instrumented iterator"])
p("P15", "No access outside the subject and no undefined behaviour",
  "No operation ever reads a character before the start or at or past the end of the subject (or past the terminating zero of a C string), steps an iterator outside the range it was given, or executes undefined behaviour, for any supported pattern, any subject content and any result accessor on any outcome.",
  ["programs", "inputs"], "all patterns x all subjects, incl. empty, malformed and exactly-sized buffers; all iterator categories accepted",
  "Constant evaluation in the tests only sees the pairs listed and never runtime buffers, invalid encodings or user iterators.",
  [I+"evaluation.hpp", I+"utf8.hpp", I+"wrapper.hpp", I+"return_type.hpp", I+"iterators.hpp", "include/unicode-db/unicode-db.hpp"],
  [("end checks before every dereference", I+"evaluation.hpp"), ("bounds logic of the UTF-8 iterator", I+"utf8.hpp"), ("zero-terminated sentinel", I+"wrapper.hpp")],
  ["sanitizer reports and a checking iterator"])
p("P16", "UTF-8 subjects are matched by code point and malformed input stays contained",
  "A UTF-8 subject matches exactly as the sequence of its code points would as a UTF-32 subject, and every reported span starts and ends at the corresponding code unit positions. Malformed input is matched as if every defective unit sequence were a single replacement character, never ends the process, never yields a span outside the subject, and does not affect the decoding of the well-formed characters that follow; a defective sequence is a lead unit with those continuation units that follow it up to its declared length (also one that encodes a surrogate, an overlong form or a value out of range), or a single stray unit.",
  ["inputs", "programs"], "all UTF-8 code unit sequences (every code point; truncated, overlong, stray continuation) x patterns",
  "Tests use a few well-formed characters; there are more than a million code points and unboundedly many malformed sequences.",
  [I+"utf8.hpp", I+"wrapper.hpp", I+"return_type.hpp"],
  [("utf8_iterator increment/decrement/dereference", I+"utf8.hpp"), ("u8 overload keeping unit positions", I+"wrapper.hpp exec(u8string_view)")],
  ["results on std::u8string_view subjects"])
p("P17", "Unicode properties accept exactly the characters of the Unicode database",
  "For every code point assigned in the library's Unicode version, a property escape (general category, script, script extension, block, age, binary property, by any accepted name or alias) accepts it exactly when the Unicode Character Database gives it that property, and the negated escape accepts exactly the others; composite properties equal the union of their parts.",
  ["inputs", "programs"], "every supported property name x every code point",
  "Tests probe single characters for a few properties; the tables cover 1,114,112 code points per property.",
  ["include/unicode-db/unicode-db.hpp", "include/unicode-db/unicode_interface.hpp", I+"atoms_unicode.hpp", I+"actions/properties.inc.hpp"],
  [("range tables and lookup", "include/unicode-db/unicode-db.hpp"), ("name to property", I+"actions/properties.inc.hpp"), ("glue", "include/unicode-db/unicode_interface.hpp")],
  ["match of one-character UTF-32 subjects against \\p{..}, \\P{..}"])
p("P18", "Pattern text is decoded to its characters whatever the literal type",
  "A pattern written as a UTF-8, UTF-16, UTF-32, wide or plain ASCII string literal denotes the sequence of its Unicode characters, so equal text in different literal types gives the same pattern; ill-formed UTF-8 or UTF-16 in a pattern is flagged as incorrect and never produces characters from beyond the literal.",
  ["inputs", "configurations"], "every code point in every literal type; all ill-formed sequences up to four units; both settings of the narrow-string mode",
  "Tests use a few characters of each encoding; surrogates, boundaries between lengths and ill-formed units are not enumerated.",
  ["include/ctll/fixed_string.hpp"],
  [("fixed_string constructors and length computation", "include/ctll/fixed_string.hpp")],
  ["size(), operator[], correct() of fixed_string; matching with it"])
p("P19", "Exactly the documented pattern syntax is accepted, errors are located",
  "A pattern text is accepted exactly when the documented grammar derives it and its references and property names exist and its ranges run between characters; every other text is rejected at compile time, and for a text the grammar does not derive the reported position is the index of the first character that no accepted pattern could have there. No text makes the pattern parser loop or be accepted with part of it ignored.",
  ["inputs"], "all character sequences as pattern texts",
  "Tests assert validity of a few dozen texts; the generated parse table has hundreds of entries, each reached only by particular prefixes.",
  [I+"pcre.hpp", I+"pcre.gram", "include/ctll/parser.hpp", I+"pcre_actions.hpp"],
  [("LL(1) table", I+"pcre.hpp"), ("parser loop and error position", "include/ctll/parser.hpp")],
  ["the compiler accepts or rejects the pattern, and the position named in the diagnostic"])
p("P20", "The result does not depend on how the subject is represented",
  "The same text gives the same success, spans and captures whether passed as string view, string, C string, character array, wide, UTF-16 or UTF-32 string, deque, list, vector, user-defined string-like type, or a pair of iterators (of any accepted iterator and sentinel category), and regardless of what lies around it in memory; embedded zero characters count as ordinary characters except for C strings.",
  ["inputs", "programs", "configurations"], "all subject types x patterns x subjects",
  "Tests instantiate most subject types once, with one pattern each.",
  [I+"wrapper.hpp", I+"evaluation.hpp", I+"return_type.hpp", I+"utf8.hpp"],
  [("exec overloads", I+"wrapper.hpp regular_expression"), ("zero_terminated_string_end_iterator", I+"wrapper.hpp"), ("iterator category checks", I+"evaluation.hpp")],
  ["results of the same pattern over differently typed subjects"])
p("P21", "Compile-time and run-time evaluation agree in every configuration",
  "Evaluating an operation in a constant expression gives the same result as evaluating it at run time, for every supported compiler, language standard (C++17, C++20), optimisation level and documented build switch.",
  ["programs", "inputs", "configurations"], "patterns x subjects x {gcc, clang} x {C++17, C++20} x {O0..O3} x switches",
  "The tests are compile-time only (nothing they assert is executed at run time), so a run-time divergence is invisible to them.",
  [I+"evaluation.hpp", I+"wrapper.hpp", I+"utility.hpp", I+"utf8.hpp", "include/ctll/fixed_string.hpp"],
  [("constexpr evaluation", I+"evaluation.hpp"), ("configuration macros", I+"evaluation.hpp CTRE_DISABLE_GREEDY_OPT, CTRE_MSVC_GREEDY_WORKAROUND")],
  ["results computed as constants compared with results computed at run time"])
p("P22", "All spellings of an operation are equivalent",
  "For every pattern and subject the function object, its call with a range or an iterator pair, the string-literal forms, the member functions of a pattern object, the pipe operator on ranges, and the multi-line variants against the corresponding modifier give the same results; a pattern named by a constant equals the same pattern written in place.",
  ["programs", "inputs"], "all API spellings x patterns x subjects",
  "Tests use each spelling with its own few patterns and never compare spellings with each other.",
  [I+"wrapper.hpp", I+"literals.hpp", I+"functions.hpp", I+"operators.hpp"],
  [("regular_expression member and free objects", I+"wrapper.hpp"), ("user-defined literals", I+"literals.hpp"), ("free functions", I+"functions.hpp")],
  ["results of each spelling"])
p("P23", "Result accessors are mutually consistent and lie within the subject",
  "Every view of a result (bool conversion, views, strings, optional forms, numbers, sizes, data pointer, iterators, comparison operators, structured bindings, access by index, by name or by type, stream output) describes the same piece of the subject, within its bounds; an unset group or a failed match converts to false and (implicitly or by a named accessor) to an empty optional and compares unequal to every text. Numeric conversion equals the standard conversion of the same text.",
  ["programs", "inputs"], "all accessors x set and unset groups x subjects and subject types",
  "Tests call accessors on one or two results each and do not compare them with each other, in particular not for unset groups or multi-unit characters.",
  [I+"return_type.hpp", I+"id.hpp"],
  [("captured_content::storage, regex_results", I+"return_type.hpp")],
  ["accessor values"])
p("P24", "The single-header distribution behaves exactly like the header tree",
  "Any program using the library gives the same results whether it includes the amalgamated single header or the header tree, in both the plain and the Unicode flavour, and including both the header tree's plain and Unicode entry headers is consistent.",
  ["programs", "inputs", "configurations"], "patterns x subjects x both flavours of both distributions",
  "No test includes the single headers.",
  ["single-header/ctre.hpp", "single-header/ctre-unicode.hpp", "single-header/unicode-db.hpp", "include/ctre.hpp", "include/ctre-unicode.hpp"],
  [("amalgamation", "Makefile target single-header")],
  ["behaviour of the same driver built against each distribution"])
p("P25", "Operations are pure: repeatable, independent and safe to run concurrently",
  "An operation's result depends only on the pattern and the subject's content: repeating it, interleaving it with other operations, or running any number of operations concurrently on shared subjects, shared pattern objects and shared results gives the same results and never modifies the subject.",
  ["schedules", "histories", "inputs"], "all interleavings of operations from several threads on shared data; all histories of calls",
  "Compile-time tests have neither threads nor state.",
  [I+"evaluation.hpp", I+"wrapper.hpp", I+"iterators.hpp", I+"range.hpp", "include/unicode-db/unicode-db.hpp"],
  [("stateless function objects, value captures", I+"wrapper.hpp, return_type.hpp")],
  ["results per thread, race detector reports"])
p("P26", "The LL(1) parser accepts exactly its grammar's language and runs each action once, in order",
  "For every LL(1) grammar written for ctll::parser (single characters, sets, ranges, negated sets and `anything` as terminals; epsilon alternatives; actions in any place) and every input, the parser accepts exactly the words of the grammar's language, stops at the first character that has no rule (and reports that position), and has by then applied exactly the actions passed on the way, each once, in order, each given the character read last (nothing before the first). An action that answers reject rejects the input at that point; actions unknown to the selector pass silently exactly when that was asked for; without a subject no action is consulted. This is the same in C++17 and C++20 and with gcc and clang.",
  ["programs", "inputs"], "all LL(1) grammars x all inputs x all action selectors",
  "The repository's parser tests use four hand-written grammars; which overload of move/rule is chosen depends on the combination of grammar form, terminal form and input.",
  ["include/ctll/parser.hpp", "include/ctll/grammars.hpp", "include/ctll/actions.hpp", "include/ctll/list.hpp"],
  [("table-driven decide/move with a trampoline over the input", "include/ctll/parser.hpp"), ("rules added to every grammar", "include/ctll/grammars.hpp augment_grammar"), ("actions applied to the subject", "include/ctll/actions.hpp identity, ignore_unknown")],
  ["correct_with<>, output<>::is_correct, position, output_type (the log the actions built)"])
p("P27", "Fixed strings and type lists are faithful values",
  "A fixed string made of any units of any character type, at compile time or at run time, says it is correct exactly when the units are well-formed in that type's encoding (char: UTF-8 if so configured, else a character each; char8_t: UTF-8; char16_t: UTF-16; char32_t and wchar_t: a character each); a correct one has exactly the encoded characters, whether read by size, index, iteration or view; it never has more characters than units and never reads outside them; a copy equals the original, and is_same_as holds exactly for equal characters whatever the capacities and encodings. Type lists behave as sequences under push, pop, front, concat and rotate and as sets under exists_in, add_item and remove_item (which keep the order of the rest).",
  ["inputs", "histories"], "all strings of units of every character type and length; all sequences of list operations",
  "Literals in tests are almost all ASCII and well-formed; decoding has a branch for every kind of malformed or boundary unit.",
  ["include/ctll/fixed_string.hpp", "include/ctll/list.hpp"],
  [("decoding constructors", "include/ctll/fixed_string.hpp fixed_string(construct_from_pointer_t, const T *)"), ("comparison", "include/ctll/fixed_string.hpp is_same_as"), ("list and set operations", "include/ctll/list.hpp")],
  ["correct(), size(), operator[], begin/end, view; resulting lists"])
p("P28", "Expressions combine with | and >> like their texts",
  "For any two expressions A and B (results of ctre::re, _ctre literals or combinations themselves), A | B answers every operation exactly as the pattern (?:A)|(?:B) and A >> B exactly as (?:A)(?:B): same success, same text, same groups. Groups are numbered through from left to right, and back-references (by number or name) keep denoting the group of their own operand. (Excluded: operands with inline mode switches, and the same group name in both operands.)",
  ["inputs"], "all pairs and trees of expressions and all subjects",
  "Tests combine a handful of literals; correctness depends on how any operand's alternatives, anchors, lookarounds, laziness, groups and references behave next to any other's.",
  ["include/ctre/operators.hpp", "include/ctre/evaluation.hpp", "include/ctre/find_captures.hpp"],
  [("the operators", "include/ctre/operators.hpp operator|, operator>>"), ("nested sequences and alternatives", "include/ctre/evaluation.hpp evaluate(sequence/select)"), ("groups of the combination", "include/ctre/find_captures.hpp")],
  ["result of match, search and starts_with", "span of every group"])
p("P29", "The Unicode interface agrees with the database",
  "For every code point, uni::cp_category, cp_script, cp_script_extensions (each script once, terminated), cp_age, cp_block, cp_numeric_value (validity, numerator over denominator, value), cp_is_assigned, cp_is_valid, cp_is_ascii and every cp_category_is<> and cp_property_is<> predicate give the value the Unicode Character Database (version 14.0) gives; every enumerator is found by its name; values above U+10FFFF are unassigned, in no script or block, have no property and no numeric value.",
  ["inputs"], "all 32-bit values, all enumerators",
  "Tests of the database look at a few characters; the compressed tables have boundaries at every range, page and leaf.",
  ["include/unicode-db/unicode-db.hpp", "include/unicode-db/unicode_interface.hpp"],
  [("tries and ranges", "include/unicode-db/unicode-db.hpp bool_trie, range_array, compact_range, compact_list"), ("blocks", "include/unicode-db/unicode-db.hpp cp_block"), ("script extensions", "include/unicode-db/unicode-db.hpp script_extensions_view::iterator"), ("numeric values", "include/unicode-db/unicode-db.hpp cp_numeric_value")],
  ["return values of the interface"])
p("P30", "A program importing the module behaves like one including the headers",
  "Importing the module ctre gives a program every operation the headers give under the names the module exports (match, starts_with, search, search_all, split, tokenize, iterator and range with their multiline_ forms and sentinels, regular_expression, fixed_string and all members of results), for all kinds of subjects, and for every pattern and subject the results, captures, sequences, accessors and the text written to a stream are those of the same program including the headers.",
  ["programs", "inputs"], "all programs using exported names x all patterns and subjects",
  "No test builds the module; the headers contain parts that are compiled only in it, and what is exported is a matter of markers on single declarations.",
  ["ctre.cppm", "include/ctre/wrapper.hpp", "include/ctre/return_type.hpp", "include/ctre/utility.hpp", "include/ctll/utilities.hpp", "include/ctll/fixed_string.hpp"],
  [("exported names", "include/ctre/wrapper.hpp CTRE_EXPORT"), ("module-only stream output", "include/ctre/return_type.hpp operator<<"), ("the module's source", "ctre.cppm")],
  ["whether the program compiles", "results, captures, sequences, accessors, stream output"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
