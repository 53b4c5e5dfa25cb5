CORE = (MODEL, NOTE)
T = {p: CORE for p in ("P01", "P02", "P03", "P04", "P05", "P07", "P08")}
T["P06"] = ("runtime monitoring: every code point through every element, compared with definition tables", "Exhaustive over code points for the elements run; which sets are run beyond the fixed ones is random. Trusts the definition tables in lib/p06.py and the compiler.")
for p in ("P09", "P10", "P11"):
    T[p] = ("runtime monitoring: sequence monitor against a step-by-step model of the enumeration on the reference engine", NOTE)
T["P12"] = ("runtime monitoring: sequence monitor comparing the filtered range with element-wise results; counting iterators watch reads past the end", "Held on the executions of this run. Trusts the per-element results of ctre::match/search/starts_with themselves (decided by P01).")
T["P13"] = ("runtime monitoring: subject iterators count every character inspection; CPU-time watchdog and length-bounded draining of sequences", "Inspections are counted exactly; termination is decided on short subjects, with a limit of CPU time far above what is needed.")
T["P14"] = ("runtime monitoring: subject iterators record the stack frame address of every access; depth on short and long subjects is compared", "Held on the executions of this run; inline-disabled and optimised builds by gcc (thorough: clang).")
T["P15"] = ("runtime monitoring: address and undefined-behaviour sanitizers (gcc and clang) on exactly sized buffers, checking iterators and checking containers, all result accessors evaluated", "Held on the executions of this run; the sanitizers see what was executed.")
T["P16"] = ("runtime monitoring: every result on UTF-8 compared with the same operation on independently decoded code points; decoder driven over all short and random unit strings under sanitizers", "Held on the executions of this run. Trusts the monitor's own decoder and the library's matching of UTF-32 (decided by P01-P08).")
T["P17"] = ("runtime monitoring: every assigned code point through every documented property escape, compared with a frozen copy of the Unicode Character Database", "Exhaustive over assigned code points and documented names for the plain escape; other forms are sampled. Trusts perl's Unicode 15.0 database restricted to characters of 14.0.")
T["P18"] = ("runtime monitoring: pattern text objects built from exactly sized unit arrays under sanitizers against independent decoders; patterns in every literal type matched against the same subjects", "Exhaustive for single code points and short unit strings, random beyond. Trusts the monitor's decoders and the compiler's own decoding of literals.")
T["P19"] = ("runtime monitoring of the pattern parser as compilers run it: diagnostics for thousands of texts compared with an Earley recogniser of the frozen grammar", "Held for the texts of this run; trusts the frozen copy of the documented grammar.")
T["P20"] = ("runtime monitoring: differential monitor of all operations over the same text in 45 subject representations (checking iterators and sentinels, hostile surroundings, embedded zeros)", "Held on the executions of this run. Trusts the results on a plain view (decided by P01).")
T["P21"] = ("runtime monitoring: constant evaluation by gcc and clang (which is itself an undefined-behaviour oracle) against run-time rows in the same program, and rows compared across build configurations", "Held for the patterns, subjects and configurations of this run; each pattern is run in a baseline and a few other configurations. MSVC and other compilers are not here.")
T["P22"] = ("runtime monitoring: differential monitor of every spelling of an operation against the plain call, C++20 and C++17, gcc and clang", "Held on the executions of this run. Trusts the plain call (decided by P01 and P09-P11).")
T["P23"] = ("runtime monitoring: every accessor of every result of six operations on 18 kinds of subjects compared with the subject's text", "Held on the executions of this run. Trusts std::from_chars, std::string_view and iostreams as oracles. Views, data and numbers only for contiguous subjects, as documented.")
T["P24"] = ("runtime monitoring: offline comparison of complete logs of the same programs built against the header tree and the single headers", "Held for the programs of this run; the database is compared over all code points.")
T["P25"] = ("runtime monitoring: thread sanitizer over threads running operations on shared data, histories of calls on reused memory, memcheck; all results compared", "Held for the interleavings and histories of this run, whose overlaps are counted in the evidence. The reference is the library's own first answer (its correctness is P01's subject).")
T["P26"] = ("runtime monitoring: the parser's own action log, verdict and stopping position for random LL(1) grammars and words, compared with a table-driven interpreter of the same grammar (four compiler and standard configurations)", "Held for the grammars and words of this run; the interpreter decides what the grammar means.")
T["P27"] = ("runtime monitoring: fixed strings built at run time from generated units under address and undefined-behaviour sanitizers and compared with an independent decoder; histories of list operations compared with a plain list", "Held for the millions of unit strings of up to 9 units and the histories of this run.")
T["P28"] = ("runtime monitoring: success, span and every group of match, search and starts_with on combined expressions recorded over exhaustive short and random subjects, compared with the reference engine on the combined text (two compilers)", "Held for the combinations and subjects of this run; the reference engine decides what the combined text means.")
T["P29"] = ("runtime monitoring: every function of the interface called on all 1114112 code points and values beyond, under address and undefined-behaviour sanitizers in one of three builds, compared with a frozen copy of the Unicode database", "All code points are visited by every function; binary properties and categories are compared on the code points perl's database of version 15.0 lets one derive for 14.0. cp_age of noncharacters is a known finding. uni::cp_script_is is declared but defined nowhere, so not observed.")
T["P30"] = ("runtime monitoring: recorded logs of results, captures, accessors, sequences and stream output of generated programs, compared offline between the build importing the module and the build including the headers", "Built by clang 18 only (gcc 13 cannot build it), with the standard headers standing in for `import std`, which this toolchain lacks; names the module does not export (modifiers, literals, operators) are outside. Held for the programs of this run.")
