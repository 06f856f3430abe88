#!/usr/bin/env python3
"""Generates properties.jsonl (single source for the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

prop("P01", "A failed match leaves the cursor where it was",
 "Whenever trying to match any pattern through a context fails, the cursor afterwards is exactly where it was before the attempt, whatever partial progress (skipping, earlier elements, user closures) was made. Likewise, when building a value from a composite pattern (sequence, conditional, choice, optional, longest, list, repetition, separated list, enclosed, prefixed, suffixed or dynamically chosen pattern) fails because something inside it did not match or a handler rejected an element, the cursor is restored. The input itself is never changed.",
 ["inputs","programs"], "all patterns (nested arbitrarily), all inputs, all cursor positions, with and without a skip policy",
 "Tests check offsets after a handful of failures of single patterns; partial progress followed by failure inside nested combinators has unboundedly many shapes.",
 ["src/ctx/regex.rs","src/ctx/policy.rs","src/ctx/guard.rs","src/ctor/then.rs","src/ctor/sep.rs","src/ctor/or.rs","src/ctor/dthen.rs","src/regex/builder.rs"],
 [("try_mat restores on error","src/ctx/regex.rs try_mat_policy, src/ctx/policy.rs try_mat"),("CtxGuard","src/ctx/guard.rs Drop")])
prop("P02", "Spans and cursor describe exactly the text that was matched",
 "When a pattern made of matching units, literals, anchors and the standard combinators succeeds without a skip policy, the reported span starts at the cursor position before the attempt and ends at the cursor position after it, and both lie within the input. For combined patterns the reported span is the concatenation of the parts that were used, so the text of the span is exactly what was consumed.",
 ["inputs","programs"], "all patterns without user closures or skip policy, all inputs and start positions",
 "Existing tests compare spans of single flat patterns; span arithmetic over nested and repeated parts is only sampled.",
 ["src/span.rs","src/ctor/then.rs","src/ctor/sep.rs","src/ctor/repeat.rs","src/ctor/collect.rs","src/neu/once.rs","src/neu/opt.rs","src/neu/times.rs"],
 [("span accumulation","src/span.rs add_assign"),("new_span_inc","src/ctx.rs")])
prop("P03", "Recognising and building a value agree",
 "For every pattern that supports both, when no value handler or conversion fails and the skip policy is absent, recognising the pattern and constructing a value with it from the same position either both succeed or both fail. When they succeed they leave the cursor at the same position.",
 ["inputs","programs"], "all combinator trees in recognise and construct mode over all inputs; alternatives selected by length are limited to single spans without gaps",
 "Each combinator implements the two modes separately; tests exercise one or the other mode on few inputs and never compare them.",
 ["src/ctor/sep.rs","src/ctor/repeat.rs","src/ctor/repeat2.rs","src/ctor/collect.rs","src/ctor/then.rs","src/ctor/longest.rs","src/ctor.rs","src/regex.rs"],
 [("two implementations per combinator","src/ctor/*.rs try_parse / construct")])
prop("P04", "Handlers see each captured piece once, in order, with its span",
 "While a value is built, the handler is invoked exactly once for every elementary piece that the evaluation matches, in the order the pieces are matched, with precisely the span of that piece and the context it was matched in. Delimiters, separators, prefixes, suffixes, tests, look-arounds and skipped text are never passed to the handler, and a pattern collapsed to a single piece is delivered once as a whole. A handler error makes the surrounding construction fail like a mismatch would.",
 ["inputs","programs"], "all combinator trees, inputs, and handlers including handlers failing at an arbitrary call",
 "Tests look at the final value only; call order, multiplicity and behaviour under a handler failing at the n-th call are not observed.",
 ["src/ctor.rs","src/ctor/extract.rs","src/ctor/pat.rs","src/ctor/adapter.rs","src/ctor/then.rs","src/ctor/enclose.rs"],
 [("leaf construct = match then handler","src/neu/*.rs, src/regex/*.rs construct")])
prop("P05", "Character classes form the documented set algebra",
 "Each elementary unit accepts exactly the documented set of characters or bytes (equality, ranges of every bound kind, sets, named classes, arbitrary predicates, everything, nothing), and conjunction, disjunction and negation of units accept exactly the intersection, union and complement of their operands. Every quantifier over such a combination consumes a single item per accepted character.",
 ["inputs","programs"], "all unit expressions over all characters/bytes of the tested alphabet, both item types",
 "Tests try a few characters per class; boundaries of ranges and compositions of negations, unions and intersections are open-ended.",
 ["src/neu.rs","src/neu/units.rs","src/neu/range.rs","src/neu/equal.rs","src/neu/bool.rs","src/neu/op_and.rs","src/neu/op_or.rs","src/neu/op_not.rs"],
 [("Neu::is_match","src/neu/*.rs"),("min_length shortcuts","src/neu/op_*.rs")])
prop("P06", "Unit quantifiers consume greedily within their bounds",
 "A quantified unit (one, optional, zero-or-more, one-or-more, between m and n, a count range, or two units in succession) consumes the longest run of consecutive items that the unit and its attached condition accept, never more than its upper bound, and succeeds exactly when that run meets its lower bound. An optional quantifier never fails for lack of a match, and a condition that rejects an item ends the run before that item.",
 ["inputs","programs"], "all units, bounds 0..n (open, half-open, closed, unbounded ranges), conditions and inputs, text and bytes",
 "Runs that stop at a bound, at a condition or at the end of input in every combination are not enumerated by tests.",
 ["src/neu/once.rs","src/neu/opt.rs","src/neu/times.rs","src/neu/then.rs","src/neu/cond.rs","src/neu.rs","src/neu/range.rs"],
 [("counting loops","src/neu/opt.rs, src/neu/once.rs, src/neu/times.rs"),("condition","src/neu/cond.rs")])
prop("P07", "Pattern repetition counts and bounds are exact",
 "Repeating a pattern (collecting, ranged repetition, or fixed-capacity repetition) matches it consecutively as often as possible up to the maximum, never attempts or consumes an element beyond the maximum, and succeeds exactly when the number of elements lies in the requested range. The result holds exactly the matched elements in order (fixed-capacity results are padded with empty slots at the end), and the cursor ends right after the last one; the element is assumed to consume input.",
 ["inputs","programs"], "all element patterns that consume input, ranges of all kinds (including empty ones) and inputs",
 "Tests use one or two counts; off-by-one at the bounds depends on range kind, mode and what follows.",
 ["src/ctor/repeat.rs","src/ctor/repeat2.rs","src/ctor/collect.rs"],
 [("loop bound","src/ctor/repeat.rs is_contain; src/ctor/repeat2.rs"),("minimum","src/ctor/collect.rs at_least")])
prop("P08", "Separated lists take exactly the elements their rules allow",
 "A separated list alternates element and separator and stops at the first missing element or separator; an element without a following separator belongs to the list exactly when trailing elements are allowed, and a separator following an included element is consumed. The list succeeds exactly when it has at least its minimum number of elements, a fixed-capacity list takes at most its capacity, and the cursor ends after the last included element and its separator.",
 ["inputs","programs"], "all element/separator patterns that consume input, minima, capacities, both trailing modes, both evaluation modes, all inputs",
 "The interplay of trailing mode, minimum, capacity and missing separators has many corner cases of which tests fix a few.",
 ["src/ctor/sep.rs"],
 [("element/separator loops","src/ctor/sep.rs Separate, Separate2, SepCollect, SepOnce")])
prop("P09", "Choice and optional patterns: first success wins, from the same position",
 "A choice (binary, or over an array, slice or vector of patterns, with or without payloads) evaluates its alternatives in order from one and the same position and yields the result of the first that succeeds, together with the payload of that very alternative; it fails only when all fail. An optional pattern always succeeds, yielding nothing and consuming nothing when its inner pattern fails; a branch runs precisely the side selected by its test and reports an error of the test unchanged.",
 ["inputs","programs"], "all lists of alternatives (including overlapping, empty and failing-after-progress ones), both modes, all inputs",
 "Leaking progress of a failed alternative needs alternatives that fail after consuming, in a position-sensitive context.",
 ["src/ctor/or.rs","src/ctor/opt.rs","src/ctor/branch.rs","src/ctor/array.rs","src/ctor/slice.rs","src/ctor/vec.rs","src/regex.rs","src/ctor.rs"],
 [("handler","src/regex.rs handler, src/ctor.rs handler"),("Or","src/ctor/or.rs")])
prop("P10", "Longest-match choice picks the longest alternative, earliest on ties",
 "A longest-match choice (binary, or over an array, slice or vector of patterns, with or without payloads) evaluates all alternatives from the same position and yields the one that consumes most (when only recognising, the one with the longest reported span), the earliest of them on ties. The cursor ends exactly at the end of the chosen alternative, the payload is that of the chosen alternative, and it fails only when all alternatives fail.",
 ["inputs","programs"], "all lists of alternatives, orders, both modes, all inputs",
 "Cursor position and tie-breaking depend on the order and lengths of every alternative, not just of the winner.",
 ["src/ctor/longest.rs","src/regex.rs","src/ctor.rs","src/ctor/array.rs","src/ctor/slice.rs","src/ctor/vec.rs"],
 [("handler_ltm","src/regex.rs, src/ctor.rs"),("LongestTokenMatch","src/ctor/longest.rs")])
prop("P11", "Sequencing, conditional and delimiting combinators run parts in order",
 "A sequence, conditional sequence, once-separated pair, enclosed, prefixed or suffixed pattern matches its parts strictly one after the other, each starting where the previous one ended, and succeeds only if every required part does. A conditional sequence runs its continuation exactly when its test matches, and otherwise ends right after its first part; delimiting patterns return only the value of the delimited part, pairs return both values in order.",
 ["inputs","programs"], "all part patterns, all inputs, both modes, with and without skip policy",
 "Order and adjacency of parts must hold for every composition; tests check few fixed strings.",
 ["src/ctor/then.rs","src/ctor/sep.rs","src/ctor/enclose.rs","src/ctor/affix.rs"],
 [("Then/IfThen","src/ctor/then.rs"),("Enclose","src/ctor/enclose.rs"),("Prefix/Suffix","src/ctor/affix.rs")])
prop("P12", "Literals, anchors, look-arounds and consumers are exact",
 "A literal matches exactly when the remaining input begins with it and consumes exactly it; the start anchor succeeds only at position zero, the end anchor only at the end, and neither consumes. Positive and negative look-around succeed exactly when their pattern does or does not match at the cursor and never move it, the always-succeeding and always-failing patterns do just that, and consuming a given length, or everything, moves the cursor by exactly that length, or fails without enough input.",
 ["inputs","programs"], "all literals, look-around patterns, amounts, inputs and cursor positions",
 "Positions near the end, multi-byte text and nested negations are not enumerated by tests.",
 ["src/regex/literal.rs","src/regex/anchor.rs","src/regex/assert.rs","src/regex/consume.rs","src/regex/empty.rs","src/regex/fail.rs"],
 [("Assert","src/regex/assert.rs"),("Literal","src/regex/literal.rs"),("Consume","src/regex/consume.rs")])
prop("P13", "Value conversions compute what they say and propagate errors",
 "A conversion attached to a pattern is applied exactly once to the value that pattern built, only if it matched, and its error becomes the error of the whole construction. The provided conversions (selecting or comparing tuple members, parsing numbers in any radix, UTF-8 decoding, byte-order decoding, half-open bounds checks, defaults, fallible type conversions) return precisely the documented value or the documented error for every input.",
 ["inputs","programs"], "all conversion functions over value domains including boundary values and malformed input",
 "Boundary values (exact bound, too few bytes, invalid UTF-8, overflow) per conversion are only partly sampled.",
 ["src/map.rs","src/ctor/map.rs","src/ctor/then.rs","src/ctor/sep.rs"],
 [("FallibleMap","src/map.rs"),("Map","src/ctor/map.rs")])
prop("P14", "Searching finds leftmost non-empty matches without overlap",
 "Searching for a pattern yields the first position at or after the cursor where it matches non-emptily, repeated search yields exactly the successive non-overlapping matches found that way, and successive matching yields consecutive matches until the first failure or empty match. Every search terminates, never reports a match twice, and leaves the cursor after the last reported match or at the end of input when exhausted.",
 ["inputs","programs","histories"], "all patterns (including possibly empty ones), inputs and interleavings of search with other cursor operations, text and bytes",
 "Zero-width matches, multi-byte text and matches at the very end interact with the advance step.",
 ["src/ctx.rs"], [("find_with/find_all_with","src/ctx.rs MatchMulti"),("match_seq","src/ctx.rs")])
prop("P15", "Capture storage returns exactly what was stored",
 "A span store keeps, per group, the sequence of captured spans in capture order; a capture appends one span to its group on success and changes nothing on failure, and no operation on one group affects another. All readers (single span, all spans of a group, text slices, emptiness checks, iterators with their remaining counts) agree with that sequence, and out-of-range queries report absence rather than wrong data.",
 ["histories","inputs"], "all sequences of store, capture, clear, reset and query operations over several groups and capacities",
 "Correctness depends on operation histories; tests run a single straight-line capture.",
 ["src/span.rs","src/iter/span.rs","src/iter/mod.rs"], [("VecStorer/ArrayStorer","src/span.rs"),("span iterators","src/iter/span.rs")])
prop("P16", "A skip policy skips before every match attempt and nowhere else",
 "With a skip policy installed, each attempt to match a pattern or sub-pattern first skips as the policy dictates from the current position and then matches, so spans never include text skipped before their first element, and text after the last matched element is left alone. If the policy itself fails the attempt fails; an explicit before/after policy runs its parts exactly once around the pattern, and a failing attempt restores the position before skipping.",
 ["inputs","programs"], "all policies, patterns and inputs with skippable text anywhere, both modes",
 "Skippable text can occur at every joint of a nested pattern; tests place it at two or three joints.",
 ["src/ctx/policy.rs","src/ctx/regex.rs","src/ctx.rs"], [("try_mat","src/ctx/policy.rs"),("try_mat_policy","src/ctx/policy.rs, src/ctx/regex.rs")])
prop("P17", "Dynamically chosen patterns are chosen from and applied after the first part",
 "A dynamic sequence first matches its fixed part, then asks the user function exactly once with what was matched (span or value), then matches the returned pattern from the position right after the fixed part; the result is that of the returned pattern, or the pair of both values. If any of the three steps fails, the whole fails and the cursor is restored, and the user function is not called when the fixed part fails.",
 ["inputs","programs"], "all fixed parts, functions of the matched piece (including failing ones) and inputs",
 "The continuation depends on runtime data, so the space of behaviours is not enumerable by fixed test strings.",
 ["src/regex/builder.rs","src/regex/into.rs","src/ctor/dthen.rs","src/ctor/into.rs"], [("into_regex_builder","src/regex/builder.rs"),("DynamicCtorThenBuilder","src/ctor/dthen.rs")])
prop("P18", "Recursive patterns equal their unfolding and can be shared by threads",
 "A recursive pattern behaves, at every recursion depth and for every input, exactly like its finite unfolding, and it terminates whenever each recursion consumes input. The thread-safe variant can be used re-entrantly and by several threads at once on the same instance, never deadlocks, and gives each thread the same result as a sequential run.",
 ["inputs","schedules","programs"], "all recursive grammars in which recursion is guarded by consumption, all inputs, all interleavings of threads using one instance",
 "Depth is unbounded and thread schedules are not controlled by tests; existing tests use shallow single-threaded input.",
 ["src/regex/rec.rs","src/regex.rs","src/ctor.rs"], [("rec_parser / rec_parser_sync","src/regex/rec.rs"),("shared cell","src/regex.rs RefCell/OnceLock forwarding")])
prop("P19", "Wrapping a pattern or unit never changes what it matches",
 "Borrowing, boxing, reference counting, interior-mutability cells, locks, once-cells, options holding a pattern, dynamic dispatch and the provided adapters around a pattern give the same success, span, value, cursor and handler calls as the bare pattern, and the same holds for wrapped units. An empty option or uninitialised once-cell fails cleanly without moving the cursor.",
 ["inputs","programs","configurations"], "every wrapper kind around every pattern kind, both modes, all inputs",
 "The wrappers are a product of container kind, mode and inner pattern; tests cover a diagonal of it.",
 ["src/regex.rs","src/ctor.rs","src/regex/adapter.rs","src/ctor/adapter.rs","src/regex/into.rs","src/ctor/into.rs","src/neu.rs"], [("forwarding impls","src/regex.rs, src/ctor.rs, src/neu.rs"),("Adapter","src/regex/adapter.rs, src/ctor/adapter.rs")])
prop("P20", "Text stays on character boundaries and agrees with byte matching",
 "Matching over text only ever stops at character boundaries, so every reported span can be sliced into valid text. On ASCII input the same pattern gives the same spans, cursor positions and outcomes over text and over bytes, and matching from a position that is not a boundary or lies past the end fails instead of yielding wrong data.",
 ["inputs","programs"], "all patterns over text with characters of 1 to 4 bytes, all start positions",
 "Widths of neighbouring characters, the place where a run stops and the start position combine; tests mostly use ASCII.",
 ["src/neu/once.rs","src/neu/opt.rs","src/neu/times.rs","src/neu/then.rs","src/regex/literal.rs","src/iter/byte.rs","src/neu.rs"], [("length_of","src/neu.rs"),("CharIndices/BytesIndices","src/iter/byte.rs")])
prop("P21", "The cursor and its guard follow the operations applied to them",
 "A context's position changes only through matching and explicit cursor operations, which set, advance, rewind or reset it exactly as asked; views from a position, sub-slices, clones and resets show exactly the corresponding input or report out-of-bounds. A guard remembers the position at its creation and restores it when released exactly when a failure was reported through it, and never otherwise.",
 ["histories","inputs"], "all sequences of cursor operations, nested guards, matches and reported failures",
 "Guard behaviour depends on the history of calls within its scope, which tests exercise in one fixed order.",
 ["src/ctx/regex.rs","src/ctx/policy.rs","src/ctx/guard.rs","src/ctx.rs"], [("CtxGuard","src/ctx/guard.rs"),("Context impl","src/ctx/regex.rs, src/ctx/policy.rs")])
prop("P22", "Patterns are reusable and independent of their history",
 "Applying a pattern never alters it: the same pattern applied again, cloned, or applied to other contexts or from several threads gives the result that a freshly built pattern would give from the same position on the same input. Interleaving the use of several contexts has no effect on any of them.",
 ["histories","schedules","inputs"], "all histories of uses of one pattern value on several contexts, clones and threads",
 "Tests build a pattern, use it once or twice and drop it.",
 ["src/ctor/repeat.rs","src/ctor/sep.rs","src/neu/times.rs","src/regex/adapter.rs"], [("stateless patterns (&self)","src/regex.rs, src/ctor.rs")])
prop("P23", "Build configurations do not change behaviour",
 "Outcome, span, value, cursor and error of every operation available in a build configuration are the same without the standard library, with allocation only, with the default configuration, with either logging back end enabled and active, and with the run-time checks of the compiler on or off. Enabling diagnostics is purely observational.",
 ["configurations","inputs","programs"], "all supported feature sets, patterns and inputs",
 "The test suite runs in the default configuration only.",
 ["src/log.rs","src/lib.rs","Cargo.toml"], [("debug macros","src/log.rs"),("feature gates","src/lib.rs")])
prop("P24", "Prefix-guarded units match their prefix first, then the body",
 "A unit guarded by a counted prefix tests its first items, up to the count, with the prefix unit and every later item with the body unit; once an item of the prefix was rejected it rejects everything from then on. The thread-safe and the single-threaded variant behave identically for every sequence of items, and a clone continues from the same state independently of the original.",
 ["histories","inputs"], "all prefix lengths, unit pairs, item sequences and points at which a clone is taken",
 "The unit is stateful, so its behaviour is a function of the whole history of items it has seen.",
 ["src/neu/prefix.rs"], [("Prefix/PrefixSync state","src/neu/prefix.rs")])
prop("P25", "Every operation terminates and fails cleanly on every input",
 "On arbitrary input, including empty input, bytes that are not text, text with multi-byte characters, and cursors placed past the end or inside a character, every matching, building and searching operation returns (given that repeated elements consume input), and returns a result or an error value rather than crashing. Positions and lengths it reports never exceed the input unless the cursor was already placed outside of it.",
 ["inputs","programs"], "all patterns, all inputs, all cursor positions including out-of-range ones",
 "Crashes and arithmetic overflow hide at positions tests never use.",
 ["src/ctx/regex.rs","src/regex/literal.rs","src/regex/consume.rs","src/neu/opt.rs","src/neu/once.rs","src/neu/times.rs","src/iter/byte.rs","src/iter/span.rs"], [("bounds checks","src/ctx/regex.rs orig_at/orig_sub"),("saturating arithmetic","src/regex/literal.rs, src/regex/consume.rs, src/neu/opt.rs")])
prop("P26", "The pattern notation macros denote the documented patterns",
 "Every form of the pattern and unit notation (single characters, classes, ranges, negated and combined sets, grouping, and the suffixes for optional, zero-or-more, one-or-more and counted repetition) matches exactly the same inputs with the same spans as the pattern it is documented to stand for.",
 ["inputs","programs"], "all documented notation forms over all inputs up to a bound",
 "Tests apply a form to a couple of strings; equivalence with the denoted pattern is a statement over all inputs.",
 ["src/macro.rs"], [("regex!/neu! expansion","src/macro.rs")])
prop("P27", "Failures name the pattern that failed",
 "The error value returned on failure identifies the innermost construct that decided the failure, as documented: the kind of the leaf that did not match, the repetition or list whose minimum was not reached, the choice table whose alternatives were exhausted, the last alternative of a binary choice, a violated look-around, or the error returned by a user handler, condition, test or conversion unchanged. Errors of alternatives or optional parts that were not decisive never surface.",
 ["inputs","programs"], "all failing combinations of patterns, inputs and user errors",
 "Tests assert that something failed, hardly ever with which error; which error wins in nested failures is not sampled.",
 ["src/err.rs","src/ctor/or.rs","src/ctor/sep.rs","src/ctor/repeat.rs","src/regex/assert.rs","src/neu/times.rs","src/regex.rs"], [("Error","src/err.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
