#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run this file to regenerate it)."""
import json, os
H='include/papilio/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Unicode encoding and decoding are exact inverses",
 "Encoding any Unicode scalar value as UTF-8, UTF-16 or UTF-32 yields exactly the standard code units, and decoding those units (from any of the three forms) gives back the same code point and reports exactly the number of units it consumed. Converting a well-formed string from one encoding to another preserves its sequence of code points.",
 ["inputs"],"every Unicode scalar value; every well-formed string (up to the checked length) in each encoding, converted to each other encoding",
 "The tests convert a handful of sample characters; 1.1 million scalar values and all mixtures of unit lengths in a string are never covered.",
 [H+"utf/codepoint.hpp",H+"utf/codepoint.inl",H+"utf/string.hpp"],
 [("codepoint encode/decode","utf/codepoint.inl decoder<CharT>::to_codepoint/from_codepoint, utf::codepoint"),("string conversion","utf/string.hpp to_string/as_*string, iter conversion")],["utf::codepoint, utf::decoder, string_ref::to_string<CharT>"])
p("C02","String length, indexing and iteration agree on the code-point sequence",
 "For every well-formed UTF-8, UTF-16 or UTF-32 string, the reported length, forward and backward iteration, forward and reverse indexing, and the offset of the n-th character all describe one and the same sequence of code points, namely the standard decoding of the string. Accessing a character past either end never yields a character: checked access throws out_of_range and defaulted access returns the default.",
 ["inputs"],"every well-formed string up to the checked number of units in each encoding, every forward and reverse index",
 "Tests use a few fixed strings; agreement between independently written forward/backward/length routines over all mixes of character widths needs all strings.",
 [H+"utf/stralgo.hpp",H+"utf/string.hpp"],
 [("strlen/index_offset","utf/stralgo.hpp"),("str_impl index/at/iterators","utf/string.hpp")])
p("C03","Text routines stay in bounds on arbitrary, even ill-formed, text",
 "For any sequence of code units whatsoever, valid UTF or not, measuring, iterating, indexing, slicing and converting the string, and formatting it as an argument, finish with a result or an exception, without reading or writing outside the given text or relying on undefined behaviour.",
 ["inputs"],"every sequence of code units up to the checked length, for each encoding; every index",
 "Out-of-bounds reads by a few units past a truncated sequence are silent in ordinary tests, which feed valid text only.",
 [H+"utf/stralgo.hpp",H+"utf/string.hpp",H+"utf/codepoint.inl",H+"core.hpp"],
 [("lead byte length, stray unit handling","utf/stralgo.hpp, utf/string.hpp cp_from_off / iterators"),("string formatting","core.hpp string_formatter, format_context_traits::append*")])
p("C04","Slicing a string by character indices selects exactly those characters",
 "Taking the substring [begin, end) of a string, with non-negative or negative (counted from the end) or omitted bounds, yields exactly the characters between those positions. The unchecked form clamps both bounds to the text and yields an empty result for an empty or inverted range; the checked form throws out_of_range for a bound outside the text.",
 ["inputs"],"every well-formed string up to the checked length, every pair of signed bounds",
 "The tests slice a few fixed strings at a few bounds; off-by-one and negative/clamp combinations form a quadratic space.",
 [H+"utf/string.hpp",H+"utility.hpp",H+"accessor/ranges.hpp"],
 [("substr / index_range::normalize","utf/string.hpp substr_impl, utility.hpp index_range")])
p("C05","String comparison is a consistent order independent of representation",
 "Comparing two strings gives the lexicographic order of their contents; equality, the six relational operators, and three-way comparison agree with each other; strings in different encodings are equal exactly when they hold the same code-point sequence.",
 ["inputs"],"all pairs (and triples) of well-formed strings up to the checked length, within and across encodings, as references and containers",
 "Order laws quantify over pairs and triples; tests compare a few literals.",
 [H+"utf/string.hpp"],[("compare/equal/hash","utf/string.hpp")])
p("C06","A string container keeps its own text and never alters borrowed text",
 "After any sequence of operations (construct, borrow, copy, move, assign, push_back, append, clear, take ownership) a string container denotes exactly the text the operations specify, is null-terminated when asked for a C string, and the storage it borrowed is never modified. An independent copy, or a copy of owned text by assignment, does not change with the original (a plain copy construction borrows the original's text), and text that has been made owned survives the destruction or change of its source.",
 ["inputs","histories"],"all operation sequences up to the checked depth with arbitrary short texts",
 "Copy-on-write and borrowing errors need a particular order of operations; tests run a few fixed orders.",
 [H+"utf/string.hpp"],[("borrowed/owned variant, modifiers","utf/string.hpp basic_string_container")])
p("C07","Estimated display width follows the documented code point intervals",
 "The estimated width of a character is 2 exactly when its code point lies in one of the documented intervals (such as U+1100-U+115F or U+20000-U+2FFFD) and 1 otherwise, and whitespace and digit classification of code points is likewise exact.",
 ["inputs"],"every 32-bit code point value",
 "Interval boundaries are the errors; tests probe a few sample characters.",
 [H+"utf/codepoint.hpp","doc/en/builtin_formatter.md"],[("estimate_width","utf/codepoint.hpp codepoint::estimate_width"),("is_whitespace/is_digit","utf/codepoint.hpp")])
p("C08","Literal text and brace escapes are reproduced exactly",
 "Formatting copies every ordinary character of the format string unchanged and in order, replaces `{{` and `}}` by a single brace, rejects an unmatched brace with an exception, and inserts field outputs exactly at the position of their fields. This holds for all character types and for non-ASCII text.",
 ["inputs"],"every format string up to the checked length made of text, escapes and fields",
 "Tests use fixed format strings; arbitrary mixes of text, multi-unit characters and braces are not covered.",
 [H+"core.hpp"],[("run_once","core.hpp basic_interpreter::run_once"),("append","core.hpp format_context_traits::append")])
p("C09","Any format string either formats or throws; it never misbehaves",
 "For every format string and argument list, formatting terminates and either returns text or throws an exception derived from std::exception; it never reads outside the format string, never overflows arithmetic, never indexes a missing argument and never terminates the program. A number in the format string too large to represent is rejected rather than wrapped.",
 ["inputs"],"every format string up to the checked length (arbitrary units, including truncated fields, scripts, strings and indices) over argument lists of various types",
 "Malformed inputs are unbounded; tests check about twenty hand-picked errors, and an out-of-bounds read or wrap-around passes unnoticed.",
 [H+"core.hpp",H+"access.hpp",H+"utility.hpp"],[("interpreter/parsers","core.hpp basic_interpreter, std_formatter_parser, parse_integer, parse_string"),("argument lookup","core.hpp basic_format_args_base")])
p("C10","Replacement fields select the intended argument",
 "An explicit index, a name, or the automatic counter of a field selects exactly the argument it denotes, in every order and mixture; automatic numbering follows field order, selecting an argument that does not exist throws, and using automatic numbering after explicit indexing is rejected. A named argument is found by its exact name whatever its position and is not counted among the indexed ones.",
 ["inputs"],"all format strings of the checked shape (fields with symbolic index/name/auto), all argument counts within the bound",
 "Numbering state depends on the sequence of fields; tests fix a few sequences.",
 [H+"core.hpp"],[("parse_field_name, next_arg_id/check_arg_id, named lookup","core.hpp")])
p("C11","A scripted field outputs exactly the branch its conditions select",
 "A scripted field evaluates its conditions in order and outputs the result of the first branch whose condition is true, otherwise the final alternative if there is one, otherwise nothing; branches not taken produce no output, and whichever branch is taken the rest of the format string after the field is processed identically. A logical not inverts the condition, and white space between tokens is insignificant.",
 ["inputs"],"every combination of condition values and branch contents in scripts of up to the checked number of branches",
 "Tests run a few concrete scripts; taking versus skipping a branch must consume the same text for every branch content.",
 [H+"core.hpp","doc/en/script.md"],[("exec_script, exec_branch_if, skip_branch, skip_string","core.hpp basic_interpreter")])
p("C12","Script conditions compare values mathematically",
 "In a script condition, ==, !=, <, <=, > and >= between arguments and constants give the mathematical result for integers of any width and signedness, the result of comparing the single-precision values (with equality up to the documented epsilon) when an operand is floating, and the lexicographic result for strings; a string and a number are neither equal nor ordered, and any other kind of operand is rejected; a bare value counts as true exactly when it is a non-zero number, true, or a non-empty string.",
 ["inputs"],"all pairs of argument values of every numeric type, all short strings, all six operators",
 "Signedness and width edge values (negative vs unsigned, values near 2^63, infinities) are missed by sample values.",
 [H+"core.hpp"],[("basic_variable compare/equal/as<bool>","core.hpp basic_variable"),("parse_op/execute_op","core.hpp basic_interpreter_base")])
p("C13","Script string and number constants mean what they spell",
 "A quoted script string denotes the characters between its quotes with `\\n` and `\\t` replaced by newline and tab and a backslash before any other character (such as `\\'` and `\\\\`) by that character, identically in a condition, a branch result and an index, and an unterminated string is rejected; an integer constant denotes its decimal value with sign. A character range index such as [2:-1] denotes the bounds it spells with the documented defaults.",
 ["inputs"],"every string constant and every numeric constant up to the checked length",
 "The escape handling switches parser modes at the first escape; tests cover a few literals.",
 [H+"core.hpp"],[("parse_string, get_esc_ch, parse_integer, parse_indexing_value","core.hpp basic_interpreter_base")])
p("C14","Integers are printed as the exact value in the requested notation",
 "For every integer value of every built-in integer type and every combination of sign option, `#`, `0`, width and type (b, B, o, d, x, X), the output is the exact value in the requested base with the documented sign, prefix and digit case, zero padding placed between prefix and digits, and reading it back yields the value.",
 ["inputs"],"every value of every standard integer type, every presentation, every width up to the checked bound",
 "Minimum values, sign/prefix/zero-padding combinations form a product space tests only sample.",
 [H+"core.hpp"],[("int_formatter","core.hpp int_formatter")])
p("C15","Padding brings every value to exactly the requested width",
 "With a width w, the output consists of the unpadded text plus copies of the fill character (a space unless given) such that its display width is max(w, width of the text), all before the text for `>`, all after for `<`, and split with the smaller half in front for `^`; the default alignment is right for numbers and left otherwise. This holds for every fill character, including multi-unit and double-width ones' count, and every value kind.",
 ["inputs"],"all widths up to the bound, all fills, all alignments, all standard value kinds and contents",
 "Rounding of the centre split, double-width text and per-type default alignment interact; tests sample.",
 [H+"core.hpp"],[("fill_before/fill_after, std_formatter_base","core.hpp")])
p("C16","String precision truncates at character boundaries by display width",
 "With a precision p a string's output is its longest prefix of whole characters whose total display width does not exceed p, then padded as usual; without a precision the whole string is output.",
 ["inputs"],"every well-formed string up to the checked length, every precision including 0, with and without width",
 "Truncation inside a multi-byte or double-width character and precision 0 need particular combinations.",
 [H+"core.hpp"],[("string_formatter","core.hpp string_formatter")])
p("C17","Debug output escapes every character correctly and reversibly",
 "With the `?` type every character or string is output with tab, newline, carriage return, backslash and the relevant quote replaced by their escapes, other control characters as \\u{hex}, units that do not form a valid code point as \\x{hex}, and everything else unchanged; no input unit is lost or duplicated.",
 ["inputs"],"every string of code units up to the checked length (valid or not) in each encoding, every code point",
 "Ill-formed sequences next to valid ones and characters at the classification limits are rare.",
 [H+"core.hpp"],[("append_escaped","core.hpp format_context_traits::append_escaped"),("codepoint_formatter","core.hpp")])
p("C18","Characters, booleans, pointers and enums format as documented",
 "A character prints as itself or, with an integer type, as its code; bool prints true/false or as 1/0 in the integer types; a pointer prints as 0x followed by its hexadecimal address; an integer with type c prints the character with that code and is rejected when it is no valid character; an enum value prints its enumerator name, or its underlying integer when an integer type is given.",
 ["inputs"],"every value of the types, every presentation type",
 "Tests sample a few values; out-of-range codes, null/extreme addresses and unnamed enum values are not covered.",
 [H+"core.hpp",H+"utility.hpp"],[("codepoint/pointer/enum/bool formatters","core.hpp"),("enum_name","utility.hpp")])
p("C19","Floating-point output is the specified conversion plus sign and padding",
 "A floating-point value is output as its sign per the sign option followed by the text of the documented conversion for its type and precision (including precision 0 and large precisions and values), or inf/nan, then padded to the width; values whose text is long are not rejected.",
 ["inputs"],"every float/double value, every type, sign, precision and width within the bound, for any digits the conversion may return",
 "The library's part (format and precision selection, sign, buffer size, padding) is independent of the digits; tests try a few values.",
 [H+"core.hpp"],[("float_formatter","core.hpp float_formatter")])
p("C20","The format specification is parsed as documented, wrong ones are rejected",
 "A specification consisting of the documented parts in order is understood part by part exactly as written, a dynamic width or precision given by a nested field equals writing the number literally, and text that does not follow the grammar, a type letter or precision not available for the argument, or a nested value that is not allowed (such as a negative or non-integer width) is rejected with an exception, never misread.",
 ["inputs"],"every specification string up to the checked length for each argument type; every dynamic value",
 "The grammar is combinatorial and each rejection needs its own input.",
 [H+"core.hpp","doc/en/builtin_formatter.md"],[("std_formatter_parser, parse_value","core.hpp")])
p("C21","Member access on arguments returns the element or attribute it names",
 "Indexing and attribute access in a field name (strings, vectors, arrays, spans, tuples, pairs, maps, optional, variant, and chains of them) return exactly the named element, counting negative integers from the end, and null for anything out of range; size, length, first, second, min, max, value and has_value report the documented quantity and an unsupported access throws.",
 ["inputs"],"every index in the full signed range, every range, every container size up to the bound, with arbitrary element values",
 "Extreme and negative indices and empty containers are rarely tested.",
 [H+"accessor/ranges.hpp",H+"accessor/tuple.hpp",H+"accessor/vocabulary.hpp",H+"core.hpp",H+"access.hpp"],[("accessor specialisations","accessor/*.hpp"),("chained access","core.hpp parse_chained_access")])
p("C22","Composite values format as their elements with the documented separators",
 "Formatting a range, tuple, pair, map, set, optional, variant or join object outputs the opening text, every element exactly once in order formatted as it would be alone (with the element specification where one is given), the separators strictly between elements, and the closing text, as selected by the n, m, s, ?s options.",
 ["inputs"],"all element values, all sizes up to the bound including empty, all container options",
 "Tests use fixed containers; element/option combinations and empty or single-element cases are sampled.",
 [H+"core.hpp",H+"formatter/tuple.hpp",H+"formatter/vocabulary.hpp",H+"format.hpp"],[("range_formatter, tuple formatter, optional/variant formatter, joiner","core.hpp, formatter/*.hpp, format.hpp")])
p("C23","All formatting entry points agree with one another",
 "For the same format string and arguments, format, vformat, format_to, formatted_size, format_to_n, the lazy formatted range and the wide/UTF-8/16/32 variants produce the same characters: formatted_size is the length of that text, and format_to_n writes exactly its first n characters (all if shorter), never more, and returns the position after the last one written.",
 ["inputs"],"all argument values and bounded format strings, every n including 0",
 "Cross-entry-point agreement at every truncation point is not testable by samples.",
 [H+"format.hpp",H+"xchar.hpp","src/format.cpp","src/xchar.cpp"],[("format_to_n_wrapper, formatted_size_counter, vformat_to","format.hpp, core.hpp")])
p("C24","A format argument preserves type and value, and objects are used while alive",
 "Storing any supported value in a format argument, then copying, moving, assigning or swapping arguments and argument lists, preserves kind and value; a user-defined object is handed to its own formatter unchanged, objects an argument owns are destroyed exactly once and referenced ones never, and a typed retrieval with the wrong type is rejected.",
 ["inputs","histories"],"every value of every supported argument type; all bounded sequences of copy/move/assign on arguments",
 "Lifetime errors depend on the history of copies and moves, which tests exercise once each.",
 [H+"core.hpp"],[("basic_format_arg, handle","core.hpp")])
p("C25","small_vector behaves like a vector for every history",
 "After any sequence of push_back, emplace, insert, pop_back, append, resize, reserve, shrink_to_fit, assign, copy, move and swap, a small_vector holds exactly the elements a std::vector would, in the same order, wherever they are stored, and checked access beyond the size throws.",
 ["histories","inputs"],"all operation sequences up to the checked depth from every pair of inline/heap states, arbitrary element values and positions",
 "The inline/heap transitions make behaviour depend on history; tests walk a few fixed ones.",
 [H+"container.hpp","src/container.cpp"],[("small_vector","container.hpp")])
p("C26","Containers construct and destroy each element exactly once, even on exceptions",
 "small_vector and fixed_vector construct every element they hold exactly once and destroy it exactly once, never touch raw or destroyed storage, release all memory, and keep this (and a valid, usable state) when an element copy, move or an allocation throws at any point.",
 ["fault_sequences","histories"],"every throw point in every operation sequence up to the checked depth",
 "Fault points are not injected by the tests.",
 [H+"container.hpp"],[("grow_mem/shrink/swap/emplace","container.hpp small_vector, fixed_vector")])
p("C27","fixed_vector and fixed_flat_map match their models within capacity",
 "A fixed_vector holds exactly the sequence its operations specify and a fixed_flat_map exactly the key-to-value mapping, sorted and without duplicate keys; looking up an absent key (also in an empty or full map) finds nothing, and exceeding the capacity or checked bounds throws and leaves the contents intact.",
 ["histories","inputs"],"all operation sequences up to the checked depth, arbitrary keys, values and positions",
 "Positions relative to the capacity and absent keys at the end are missed by samples.",
 [H+"container.hpp"],[("fixed_vector, fixed_flat_map","container.hpp")])
p("C28","An optional_unique_ptr deletes what it owns exactly once",
 "Under any sequence of construction, copy, move, reset, release, swap and conversion from unique_ptr, every object handed over with ownership is deleted exactly once (or released to the caller) and every object referenced without ownership is never deleted; get and has_ownership always report the current state.",
 ["histories"],"all operation sequences up to the checked depth over owned and borrowed pointers, single object and array forms",
 "Ownership transfer bugs depend on operation order.",
 [H+"memory.hpp"],[("optional_unique_ptr","memory.hpp")])
p("C29","Text styles emit matching escape sequences around unchanged content",
 "Printing or formatting with a text style outputs the escape codes of exactly the requested styles and colours, then the unstyled text unchanged, then a reset exactly when any code was emitted; combining styles is the union of their parts, and an empty style adds nothing.",
 ["inputs"],"every combination of styles, foreground and background colours",
 "Combinations are sampled by the tests.",
 [H+"color.hpp","src/color.cpp","src/print.cpp"],[("text_style","color.hpp")])
p("C30","Calendar times format and expose their fields correctly",
 "Formatting a std::tm without a pattern outputs weekday, month, day, time and year in the fixed asctime layout padded as specified, and the year, month, mday, hour, min, sec, wday, yday and is_dst attributes return the corresponding fields.",
 ["inputs"],"every valid calendar time (years 1-9999)",
 "One sample date is tested.",
 [H+"formatter/chrono.hpp",H+"accessor/chrono.hpp"],[("formatter<std::tm>","formatter/chrono.hpp"),("accessor<std::tm>","accessor/chrono.hpp")])
p("C31","Printing to a C stream writes exactly the formatted text",
 "print and println to a FILE write precisely the bytes of the formatted result, plus one newline for println, once and in order, to the given stream, and nothing when formatting throws.",
 ["inputs"],"every bounded format string and argument values",
 "Tests capture one or two outputs.",
 [H+"print.hpp","src/print.cpp",H+"os/os.hpp"],[("vprint_impl","src/print.cpp"),("output","src/os")])
p("C32","compressed_pair, index ranges and joiners keep their components intact",
 "A compressed_pair (with empty or final or non-empty components, and equal types) constructs, assigns, swaps, compares and exposes its first and second components independently, like std::pair; a slice or index range normalised against a length denotes the same positions, and attribute names and indexing values report the kind and value they were built from.",
 ["inputs","histories"],"all component values; all signed bounds and lengths",
 "Empty-base specialisations each have their own code, tested with one or two values.",
 [H+"utility.hpp",H+"access.hpp"],[("compressed_pair","utility.hpp"),("index_range","utility.hpp"),("basic_indexing_value/attribute_name","access.hpp")])
p("C33","Output through streams, locales and the OS follows the platform",
 "Locale-dependent bool names, stream-based formatting (ostream output, operator<< adaptors, put_time patterns, thread ids, filesystem paths, stack traces) and terminal encoding conversion deliver what the platform facility produces, padded as specified.",
 ["configurations","inputs"],"all locales, streams and platform states",
 "Depends on platform facilities the tests exercise in one configuration.",
 [H+"print.hpp",H+"formatter/misc.hpp",H+"formatter/filesystem.hpp","src/locale.cpp"],[("stream and locale adaptors","core.hpp iterbuf/streamable_formatter, formatter/*.hpp")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
for q in P: assert len(q["title"])<=80,(q["id"],len(q["title"]))
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
