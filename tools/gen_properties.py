#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here in a readable form)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))

p('C01', 'Test run: when it stops and what it reports',
  'Testing a property runs one case after another and stops exactly at the earliest of: the configured number of successes is reached (reported as success with that count), a case fails (falsified), or a discarded case makes the total number of discards exceed max_discard_ratio times max_success (gave up, with that last discard\'s description). '
  'The reported number of successes is the number of cases that succeeded before the stop, discards never count as successes, and no case is skipped, counted twice, or started after the stop. '
  'This holds for every valid parameter value, including 0 and the largest ones, and reaching a verdict does not need resources proportional to max_success.',
  ['histories', 'configurations'], 'every sequence of success/discard/failure outcomes and every valid (max_success, max_discard_ratio)',
  'TestingTests samples a few parameter settings with constant outcomes or one failing index; histories that mix discards and successes around the give-up limit, and extreme parameters, are never reached.',
  ['src/detail/Testing.cpp', 'src/Check.cpp', 'include/rapidcheck/Check.hpp'],
  [('search loop', 'src/detail/Testing.cpp searchProperty'), ('verdict construction', 'src/detail/Testing.cpp doTestProperty')],
  [('numSuccess/numDiscarded', 'cases that succeeded / were discarded so far', 'SearchResult')],
  ['TestListener::onTestCaseFinished', 'returned TestResult'])

p('C02', 'Size schedule of a test run',
  'The size given to a case is a fixed function of the parameters, of the number of successes so far, and of the discards since the last success: complete rounds use 0,1,..,max_size in order, and the remaining n < max_size+1 cases are spread evenly from 0 up to and including max_size (a single remaining case gets 0). '
  'For every ten consecutive discards the size is one larger than that, the growth being dropped at the next success. '
  'Sizes are never negative, never exceed max_size plus that growth, and a falsified property reports the size its failing case was generated with.',
  ['histories', 'configurations'], 'every (max_success, max_size) pair incl. huge ones, and every outcome history',
  'Tests check the maximum and a few evenly-divisible settings; non-dividing counts, long discard bursts and large parameters are not covered.',
  ['src/detail/Testing.cpp'],
  [('size schedule', 'src/detail/Testing.cpp sizeFor'), ('growth on discards', 'src/detail/Testing.cpp searchProperty recentDiscards')],
  [('recentDiscards', 'discards since the last success', 'searchProperty')],
  ['size argument of the generator', 'FailureResult.reproduce.size'])

p('C03', 'Shrinking descends to a local minimum',
  'After a failure, the shrinks of the current best case are tried strictly in order, each exactly once, the first one that fails is accepted and becomes the new best (cases that succeed or are discarded are rejected), and the search ends only when every shrink of the best case has been tried and none failed. '
  'The reported shrink path is the sequence of accepted positions, walking it from the original case leads to exactly the reported counterexample, and the reported description and counterexample are those of running that minimal case once more. '
  'With shrinking disabled nothing is tried, the path is empty and the original case is reported.',
  ['histories', 'inputs'], 'every shrink tree and every assignment of outcomes to its nodes',
  'Tests use a few integer-like trees where only one path fails; trees with discards, late failing siblings, repeated descents at different positions, or lazily failing branches are not explored.',
  ['src/detail/Testing.cpp', 'include/rapidcheck/shrinkable/Operations.hpp'],
  [('shrink loop', 'src/detail/Testing.cpp shrinkTestCase'), ('path walk', 'include/rapidcheck/shrinkable/Operations.hpp walkPath'), ('local minimum', 'findLocalMin')],
  [('path', 'accepted shrink indices', 'shrinkTestCase'), ('best', 'current failing case', 'shrinkTestCase')],
  ['TestListener::onShrinkTried', 'FailureResult.reproduce.shrinkPath', 'FailureResult.counterExample'])

p('C04', 'Determinism and reproduction of failures',
  'Running the same property twice with the same seed and parameters generates the same cases at the same sizes and gives the same result, shrink path and counterexample. '
  'The reproduction data of a failure, directly or through its encoded string form, re-creates the same minimal failing case with the same description and counterexample (the original unshrunk case when shrinking is disabled) without searching; properties that the reproduction data does not name, or that have no id, are skipped as passing with zero tests. '
  'Reproduction data whose path leads nowhere, or to a case that does not fail, yields an error rather than success or a crash. '
  'The debugging hook (`beforeMinimalTestCase`) is called exactly once before the re-created minimal case is run.',
  ['inputs', 'histories', 'configurations'], 'every property, seed, parameter set and reproduction map',
  'Tests reproduce a handful of counter-style properties; they never combine reproduction with multi-argument or in-property generation, encoded maps with several ids, stale paths and disabled shrinking.',
  ['src/Check.cpp', 'src/detail/Testing.cpp', 'src/detail/ReproduceListener.cpp', 'src/detail/StringSerialization.cpp', 'include/rapidcheck/detail/Results.hpp'],
  [('reproduction', 'src/detail/Testing.cpp reproduceProperty'), ('dispatch on the map', 'src/Check.cpp checkProperty'), ('encoding', 'src/detail/StringSerialization.cpp')],
  [('reproduce map', 'id -> (random, size, path)', 'Configuration.reproduce')],
  ['checkProperty result', 'property invocations'])

p('C05', 'How one test case is classified',
  'A case\'s outcome is decided by what was reported in it in order: the first discard overrides everything and keeps only its own message; otherwise any failure makes it a failure whose description lists all failure messages in order separated by a blank line; otherwise it is a success described by the last message. '
  'Returned values and thrown objects map as documented (false, non-empty string, any exception or thrown object is a failure; generation failing, whether in the arguments or in the body, discards the case; a test-result object means itself), nothing thrown by a property or its generators escapes from the check, and logged text and tags of exactly this case are attached. '
  'The RC_ assertion macros stop the case with the outcome they name exactly when their condition says so, evaluating each operand once, and their message gives place, assertion and the operands\' values.',
  ['programs', 'histories'], 'every sequence of reports, logs, tags, returns and throws within one case',
  'PropertyTests pins single events; orderings (discard after failure, failure after discard, success after failure, exception after reports, failing argument generators) are not enumerated.',
  ['src/detail/Property.cpp', 'include/rapidcheck/detail/Property.hpp', 'include/rapidcheck/Assertions.h', 'src/detail/Assertions.cpp', 'src/Log.cpp', 'src/Classify.cpp', 'include/rapidcheck/gen/detail/ExecRaw.hpp'],
  [('report automaton', 'src/detail/Property.cpp AdapterContext::reportResult'), ('exception mapping', 'include/rapidcheck/detail/Property.hpp PropertyAdapter')],
  [('result type / messages / log / tags', 'per-case accumulator', 'AdapterContext')],
  ['CaseDescription from running a property'])

p('C06', 'Implicit contexts are dynamically scoped',
  'Context-dependent operations (picking a value with *gen, logging, tagging, reporting) act on the innermost enclosing execution: a nested execution sees nothing of an outer one, the outer one sees nothing the nested one did, and leaving a scope in any way, including by an exception, restores exactly the previous bindings. '
  'A binding not set in a scope reads as its default there, and a value stored through it lives until that scope is left. '
  'Picking outside any such execution, or inside a generator that is not one, fails with an exception and changes nothing.',
  ['histories', 'programs'], 'every nesting and interleaving of scopes, bindings, reads and exits, with and without exceptions',
  'ImplicitParamTests checks fixed nestings; arbitrary interleavings of several parameters and scopes, exceptions inside nested executions, and nested checks are not explored.',
  ['include/rapidcheck/detail/ImplicitParam.h', 'include/rapidcheck/detail/ImplicitParam.hpp', 'src/detail/ImplicitParam.cpp', 'src/gen/detail/ExecHandler.cpp', 'src/gen/detail/GenerationHandler.cpp', 'src/detail/PropertyContext.cpp'],
  [('scoped parameter stack', 'include/rapidcheck/detail/ImplicitParam.hpp'), ('scope destructors', 'src/detail/ImplicitParam.cpp')],
  [('binding stacks and scope stack', 'dynamic environments', 'ImplicitParam / ImplicitScope')],
  ['ImplicitParam::value()', 'generation, log and tag results'])

p('C07', 'In-property generation: replay and shrinking',
  'A case built from successive picks is a deterministic function of its random state, its size and the picked values: evaluating it again yields the same picks and result, including picks beyond those recorded. '
  'Its shrinks are, pick by pick starting from the first one not yet passed, the shrinks of that pick in order, each keeping all earlier picks unchanged and generating everything after it afresh from the same random state; after such a shrink is accepted no earlier pick is ever shrunk again. '
  'The counterexample lists exactly the picks made by the case, in order, under their given name or type, showing the values the case actually used.',
  ['histories', 'programs', 'inputs'], 'every property body, including ones whose number and kind of picks depends on earlier values',
  'ExecTests and RecipeTests check sampled fixed bodies; data-dependent control flow with repeated shrinking is not followed.',
  ['src/gen/detail/Recipe.cpp', 'src/gen/detail/ExecHandler.cpp', 'include/rapidcheck/gen/detail/ExecRaw.hpp', 'include/rapidcheck/gen/Exec.hpp', 'src/detail/Property.cpp'],
  [('recipe replay', 'src/gen/detail/ExecHandler.cpp onGenerate'), ('recipe shrinking', 'src/gen/detail/Recipe.cpp shrinkRecipe'), ('counterexample', 'src/detail/Property.cpp describeIngredient')],
  [('ingredients, numFixed', 'picks so far and how many are final', 'Recipe')],
  ['values seen by the body', 'Shrinkable::shrinks of exec', 'CaseDescription::example'])

p('C08', 'Scalar shrinking is well-founded and exhaustive in order',
  'Every shrink of a number, boolean or character is strictly simpler than the value it shrinks and never the value itself, so every shrinking sequence is finite: integers go towards the given target by the target first and then by ever smaller steps ending next to the value, a negative signed value first tries its negation, true shrinks to false only, false and zero not at all, reals try the value without its fractional part and their simpler forms, characters go to the preferred simple characters before it. '
  'Shrinks of a ranged value stay between the range\'s lowest shrink target and the value. '
  'This holds up to the extreme values of every integer type.',
  ['inputs'], 'every value and target of every integer type, every finite real, every character',
  'Shrink tests check finality and a few samples through random integers; boundary values of narrow and wide types and the complete order of candidates are not settled.',
  ['include/rapidcheck/shrink/Shrink.hpp', 'include/rapidcheck/shrink/Shrink.h', 'include/rapidcheck/gen/Numeric.hpp', 'include/rapidcheck/gen/Text.hpp'],
  [('towards sequence', 'include/rapidcheck/shrink/Shrink.hpp TowardsSeq'), ('integral/real/bool/character', 'include/rapidcheck/shrink/Shrink.hpp')],
  (), ['shrink::towards, integral, real, boolean, character', 'Gen shrinks'])

p('C09', 'Collection generation and collection shrinking',
  'A generated collection has at most size many elements (exactly the requested count in the fixed-count form), sets and maps have distinct keys and unique collections distinct keys under the given key, and running out of attempts (100 in a row) is a generation failure, never a wrong collection. '
  'A collection shrinks first by removing contiguous chunks, larger first, and then element by element, each candidate differing from its parent by exactly that; fixed-count collections never change length, and every shrink of a set, map or unique collection, at every depth, again has distinct keys. '
  'Element order, multiplicity and the untouched elements are preserved in every shrink.',
  ['inputs', 'histories'], 'every collection kind, element generator, size and every path of shrinks',
  'ContainerTests check first-level shrinks on samples; multi-level shrink paths with duplicates arising from element shrinking and rare exhaustion are not covered.',
  ['include/rapidcheck/gen/Container.hpp', 'include/rapidcheck/gen/Container.h', 'include/rapidcheck/shrink/Shrink.hpp'],
  [('strategies', 'include/rapidcheck/gen/Container.hpp'), ('removeChunks, eachElement', 'include/rapidcheck/shrink/Shrink.hpp')],
  (), ['generated Shrinkable trees'])

p('C10', 'Generators keep their contract when shrunk',
  'Every value a built-in generator produces satisfies that generator\'s contract (range, non-zero, sign, uniqueness, predicate, distinctness, membership, fixed count, non-emptiness, element-of), and so does every value reachable from it through any number of shrinks. '
  'A filtered generator yields only values satisfying the predicate or fails generation after 100 unsuccessful tries, never yields a violating value and never runs forever. '
  'Contracts compose: a mapped, joined, tupled, resized, optional or chosen generator only ever yields what its parts allow. Nothing that satisfies a contract is left out: over a small domain, from the nominal size on, every such value comes up.',
  ['inputs', 'histories', 'programs'], 'every generator composition, random state, size and shrink path',
  'Tests check the generated value and, for some generators, immediate shrinks; deep shrinks and compositions are not followed.',
  ['include/rapidcheck/gen/Numeric.hpp', 'include/rapidcheck/gen/Predicate.hpp', 'include/rapidcheck/gen/Select.hpp', 'include/rapidcheck/gen/Transform.hpp', 'include/rapidcheck/gen/Container.hpp', 'include/rapidcheck/gen/Maybe.hpp', 'include/rapidcheck/gen/Tuple.hpp', 'include/rapidcheck/gen/Text.hpp', 'include/rapidcheck/gen/Chrono.hpp'],
  [('filtering', 'include/rapidcheck/gen/Predicate.hpp suchThat / shrinkable::filter'), ('ranges', 'include/rapidcheck/gen/Numeric.hpp inRange')],
  (), ['Shrinkable trees of generators'])

p('C11', 'Stateful testing runs only valid command sequences',
  'Every command sequence that is generated, and every sequence reachable by shrinking, satisfies each command\'s precondition in the model state reached by the commands before it, starting from the initial state; a command that cannot be made valid within 100 tries is a generation failure. Only a discard means that a command does not fit; any other failure or exception raised while a command is generated, its precondition checked or the model advanced reaches the caller. '
  'Running a sequence runs every command exactly once in order, each against the model state before it and the live system, and afterwards advances the model by exactly that command; checking a sequence, or advancing the model, never touches the system. '
  'Shrinking removes commands or shrinks single commands (trying to remove every contiguous run, larger ones first, and then every valid shrink of a single command), keeps the others in order, and replaces a command that became invalid only by another valid command for that position or removes it.',
  ['histories', 'inputs', 'programs'], 'every model, command set, precondition structure, random state and shrink path',
  'State tests use simple stack/counter models with shallow shrinks; precondition chains where removal of one command invalidates later ones across several shrinks are not exhausted.',
  ['include/rapidcheck/state/Commands.hpp', 'include/rapidcheck/state/State.hpp', 'include/rapidcheck/state/Command.hpp', 'include/rapidcheck/state/gen/Commands.hpp', 'include/rapidcheck/state/gen/ExecCommands.hpp', 'include/rapidcheck/state/Commands.h', 'include/rapidcheck/state/State.h'],
  [('generation and repair', 'include/rapidcheck/state/gen/Commands.hpp CommandsGen'), ('execution', 'include/rapidcheck/state/Commands.hpp runAll/applyAll')],
  [('command sequence with pre-states', 'sequence under construction', 'CommandSequence')],
  ['Command virtual calls', 'generated sequences'])

p('C12', 'Lazy sequences behave like lists',
  'A sequence yields exactly the elements its definition as a list gives, in order, then stays at its end; every combinator (map, filter, take, drop, takeWhile, dropWhile, concat, join, mapcat, cast, zip, mapMaybe, ranges, repetition, iteration, container conversion) equals the list operation of that name, is lazy, and evaluates each needed element once. '
  'Copying a sequence at any point gives an independent sequence with the same remaining elements: advancing one never affects the other. '
  'An exception raised while computing an element ends that sequence there and nothing else; empty sequences can be copied, assigned, moved and advanced.',
  ['histories', 'programs'], 'every expression built from the combinators and every interleaving of next/copy/assign/move on the copies',
  'Seq tests check each combinator alone on random vectors; compositions, copies taken mid-way at every position, and throwing elements in nested combinators are not explored.',
  ['include/rapidcheck/Seq.h', 'include/rapidcheck/Seq.hpp', 'include/rapidcheck/seq/Create.hpp', 'include/rapidcheck/seq/Transform.hpp', 'include/rapidcheck/seq/Operations.hpp', 'include/rapidcheck/seq/SeqIterator.hpp'],
  [('type erasure and copies', 'include/rapidcheck/Seq.hpp'), ('combinators', 'include/rapidcheck/seq/Transform.hpp')],
  [('implementation object', 'remaining elements', 'Seq')],
  ['Seq::next'])

p('C13', 'Random streams: splitting and purity',
  'A random generator is a value: two generators that compare equal produce the same stream whatever is done to copies, and one built from the same seed or key is always equal to another. '
  'Splitting changes the original and returns a new generator; each is determined by the seed or key and its position in the tree of splits. Generators at different positions of that tree, or at different positions of one stream, are different, and their streams share no numbers (except that a generator which was drawn from without being split and what it itself becomes by splitting are the same position for this purpose: one either draws from a generator or splits it), to any depth and any number of draws, across every internal block or key-chain boundary. '
  'Saving and restoring a generator at any point continues with exactly the same stream. Generators are totally ordered, consistently with equality and hashing.',
  ['histories', 'inputs'], 'every tree of next/split/copy/save/restore operations from any seed, incl. depths beyond 64 splits and thousands of draws',
  'RandomTests compare a few copies and short streams; boundaries of the draw block and of the 64-bit split path, and restoring there, are sampled rarely or never.',
  ['include/rapidcheck/Random.h', 'include/rapidcheck/Random.hpp', 'src/Random.cpp'],
  [('splittable Threefish PRNG', 'src/Random.cpp'), ('state encoding', 'include/rapidcheck/Random.hpp')],
  [('key, block, bits, counter, bitsi', 'stream position and split path', 'Random')],
  ['Random::next/split/operator==', 'serialize/deserialize'])

p('C14', 'Encodings round-trip and reject damage',
  'Every reproduction value, random state, map of them, integer, vector and byte string that is encoded decodes to an equal value, leaving following data untouched; the textual form uses only letters, digits, + and _ so it can be carried in an environment variable. '
  'Decoding any other byte string or text gives either a value or the documented parse/serialization error: truncated, over-long or foreign data never crashes, hangs, exhausts memory, reads outside the input, or raises anything else. '
  'Different values have different encodings.',
  ['inputs', 'fault_sequences'], 'every value and every byte string or text, in particular every truncation and single-byte damage of a valid encoding',
  'Serialization tests round-trip random values and truncate a few; malformed lengths, over-long varints and damage inside nested structures are not covered.',
  ['include/rapidcheck/detail/Serialization.hpp', 'src/detail/Serialization.cpp', 'src/detail/Base64.cpp', 'src/detail/StringSerialization.cpp', 'include/rapidcheck/detail/Results.hpp', 'include/rapidcheck/Random.hpp'],
  [('integer and compact coding', 'include/rapidcheck/detail/Serialization.hpp'), ('base64', 'src/detail/Base64.cpp'), ('strings', 'src/detail/StringSerialization.cpp')],
  (), ['serialize/deserialize, base64Encode/Decode, reproduceMapToString/stringToReproduceMap'])

p('C15', 'Configuration parsing',
  'A configuration text is a list of key=value pairs separated by whitespace, where keys and values may be quoted with \' or " and backslash escapes the next character; the last occurrence of a key wins and unknown keys are ignored. '
  'Keys that are absent keep their defaults, a value outside its domain (non-numbers, negative numbers, wrong booleans, undecodable reproduction data) or malformed text is reported as a configuration error naming it, and no other outcome (crash, silent acceptance) is possible. '
  'Printing a configuration and parsing it back gives an equal configuration, in both the full form and the form that lists only differences from defaults.',
  ['inputs', 'configurations'], 'every text and every configuration value',
  'Tests parse a few fixed strings and random round trips; quoting edge cases, trailing garbage, overflow and duplicates are not settled.',
  ['src/detail/MapParser.cpp', 'src/detail/Configuration.cpp', 'src/detail/TestParams.cpp', 'src/detail/StringSerialization.cpp'],
  [('tokenizer', 'src/detail/MapParser.cpp'), ('parameter loading', 'src/detail/Configuration.cpp')],
  (), ['parseMap, mapToString, configFromString, configToString, configToMinimalString'])

p('C16', 'Shared handles: no leak, no early destruction',
  'Generators, shrinkables, sequences, optional values, variants and type-erased values own what they hold: through every order of copy, move, assignment (also to itself and from a moved-from or empty one), reset and destruction, each held object is destroyed exactly once, when its last owner is gone and never earlier, and equal handles keep giving the same value. '
  'Values and shrinks obtained from a handle stay usable after the handle, the generator and every temporary used to obtain them are gone. '
  'Handles that share an object may be copied, used and destroyed from different threads at once.',
  ['histories', 'schedules'], 'every operation sequence over a pool of handles and every interleaving of threads on separate handles',
  'Tests count copies for a few operations in one thread; operation sequences over several handles, early destruction of sources, and concurrency are not explored.',
  ['include/rapidcheck/Gen.hpp', 'include/rapidcheck/Shrinkable.hpp', 'include/rapidcheck/Seq.hpp', 'include/rapidcheck/Maybe.hpp', 'include/rapidcheck/detail/Variant.hpp', 'include/rapidcheck/detail/Any.hpp', 'include/rapidcheck/gen/Container.hpp'],
  [('atomic reference counts', 'include/rapidcheck/Gen.hpp, Shrinkable.hpp'), ('in-place storage', 'include/rapidcheck/Maybe.hpp, detail/Variant.hpp')],
  [('reference count', 'number of owning handles', 'GenImpl/ShrinkableImpl')],
  ['constructor/destructor counts of held objects, handle values'])

p('C17', 'Generator combinators compose value and shrinks',
  'A combinator\'s value is the documented function of its parts\' values: mapping, pairing, tupling, joining, applying, choosing and resizing pass the size they document (resized and scaled ones the new size, all others the given one) and independent random states to their parts. '
  'Its shrinks are derived from its parts\' shrinks in the documented order: mapping maps them, a tuple shrinks one component at a time from first to last keeping the others, dependent generation shrinks the first stage before the second, an optional value shrinks to nothing first, noShrink removes them and custom shrinks are appended after the generator\'s own. '
  'An exception in a part surfaces as that exception when the value is asked for, never as a different value, and has no shrinks.',
  ['programs', 'inputs'], 'every composition of combinators over every shrink tree of the parts',
  'Tests check combinators one at a time on sample generators, mostly the top-level value and first shrinks.',
  ['include/rapidcheck/gen/Transform.hpp', 'include/rapidcheck/gen/Tuple.hpp', 'include/rapidcheck/gen/Maybe.hpp', 'include/rapidcheck/gen/Select.hpp', 'include/rapidcheck/gen/Create.hpp', 'include/rapidcheck/gen/Build.hpp', 'include/rapidcheck/shrinkable/Transform.hpp', 'include/rapidcheck/shrinkable/Create.hpp', 'include/rapidcheck/Gen.hpp', 'include/rapidcheck/Shrinkable.hpp'],
  [('shrinkable transforms', 'include/rapidcheck/shrinkable/Transform.hpp'), ('tuple shrinks', 'include/rapidcheck/gen/Tuple.hpp')],
  (), ['Shrinkable trees, sizes and random states seen by parts'])

p('C18', 'What is reported: counts, tags and distribution',
  'The distribution of a passing run counts, for every combination of tags, exactly the successful cases that produced that combination in that order; discarded, failing and untagged cases are not counted, and the printed lines show each combination once with its percentage of all successful cases, most frequent first. '
  'The printed message states the verdict faithfully: number of tests passed; or number of tests up to and including the failing one, number of accepted shrinks, every counterexample entry in order and the description; or number of tests before giving up and why. '
  'Nothing reported for one run leaks into another.',
  ['histories', 'inputs'], 'every history of tagged cases and every result value',
  'Result printing is untested beyond smoke tests; distributions are tested with constant tags.',
  ['src/detail/Results.cpp', 'src/detail/Testing.cpp', 'src/Classify.cpp', 'include/rapidcheck/Classify.hpp', 'src/detail/Property.cpp'],
  [('distribution', 'src/detail/Testing.cpp doTestProperty'), ('printing', 'src/detail/Results.cpp printResultMessage')],
  [('tags', 'tags of successful cases', 'SearchResult.tags')],
  ['SuccessResult.distribution', 'printResultMessage output'])

p('C19', 'Observers see every event exactly once and in order',
  'During a run every finished case, every tried shrink with its verdict and the end of the test are announced exactly once, in the order in which they happen, with the case that actually ran, and every registered observer receives the same announcements in registration order. '
  'The progress output shows one mark per case, and one per tried shrink, matching its outcome, when enabled, and nothing when it is not; an announced case still describes the same example when it is looked at after the run. '
  'The reproduction summary printed at exit names exactly the falsified properties that have an id and carries data that reproduces each, and nothing is printed when none failed. '
  'When a run falsifies a property, the debugging hook (`beforeMinimalTestCase`) is called exactly once, after the last shrink was tried and announced, and what runs afterwards is the minimal failing case and nothing else; in runs that do not fail it is not called.',
  ['histories', 'configurations'], 'every history of events and every observer configuration',
  'Listener tests check single callbacks; whole runs with several properties and combined observers are not covered.',
  ['src/detail/Testing.cpp', 'src/detail/LogTestListener.cpp', 'src/detail/MulticastTestListener.cpp', 'src/detail/ReproduceListener.cpp', 'src/detail/DefaultTestListener.cpp'],
  [('announcements', 'src/detail/Testing.cpp'), ('fan-out', 'src/detail/MulticastTestListener.cpp'), ('summary', 'src/detail/ReproduceListener.cpp')],
  [('reproduce map', 'failures so far', 'ReproduceListener')],
  ['TestListener callbacks', 'output stream'])

p('C20', 'Choice by weight and by size',
  'A weighted choice maps each of the sum-of-weights equally likely draws to an alternative so that every alternative owns exactly its weight many of them, in the order given; an alternative of weight zero is never chosen and a total weight of zero is a generation failure. '
  'Equal choices pick each alternative from exactly its share of the draws; choices by size only ever use the documented prefix of alternatives for that size, the first one at size 0 and all of them from the nominal size on, never an empty or out-of-range one. '
  'A choice from a collection yields only its elements, and an empty collection is a generation failure.',
  ['inputs', 'configurations'], 'every list of alternatives and weights, every draw and every size',
  'Tests check that chosen elements belong to the collection and rough frequencies; exact shares, boundaries, zero weights in unusual places and size thresholds are not settled.',
  ['include/rapidcheck/gen/Select.hpp', 'src/detail/FrequencyMap.cpp', 'src/gen/detail/ScaleInteger.cpp'],
  [('frequency map', 'src/detail/FrequencyMap.cpp'), ('sized prefix', 'include/rapidcheck/gen/Select.hpp')],
  (), ['chosen values per draw'])

p('C21', 'Random bits become integers without loss',
  'Reading n bits from a bit stream gives the next n bits of the source words, least significant first, each bit used exactly once and in order, whatever sequence of widths is read, with sign extension for signed types and only as many source words drawn as needed. '
  'Sized reads use the number of bits proportional to the size (none at size 0, all from the nominal size on, however large it is; a truth value is always one bit), so integers grow with size over their whole range and never leave it. '
  'Ranged integers are exactly lowest plus the drawn offset scaled by size and cover the complete half-open range of every integer type, including ranges spanning more than half of it; an empty range is a generation failure. '
  'Floating-point numbers are a sized integer plus a fraction scaled by size, and strings and characters are read from the same stream without null characters.',
  ['inputs', 'histories'], 'every sequence of read widths, every integer type, size and range',
  'BitStream tests read a few fixed patterns; widths crossing word boundaries in arbitrary sequences and extreme ranges are sampled thinly.',
  ['include/rapidcheck/detail/BitStream.hpp', 'include/rapidcheck/detail/BitStream.h', 'include/rapidcheck/gen/Numeric.hpp', 'src/gen/Numeric.cpp', 'src/gen/detail/ScaleInteger.cpp'],
  [('bit stream', 'include/rapidcheck/detail/BitStream.hpp'), ('ranges', 'include/rapidcheck/gen/Numeric.hpp')],
  [('bits, numBits', 'unread bits', 'BitStream')],
  ['BitStream::next/nextWithSize', 'gen::arbitrary<int types>, gen::inRange'])

p('C22', 'Values are shown faithfully',
  'The text shown for a value in a counterexample determines it, given its type, for the documented types: truth values, integers (characters count as integers), quoted and escaped strings, pairs, tuples, sequences, sets and maps, nested to any depth, each element once, in order, separated by commas and bracketed by kind; an optional value shows as its value or as Nothing, a pointer as the value it points to with its address, or as null. '
  'Different strings are shown differently, with non-printable characters, backslashes and quotes escaped; a type\'s own showValue or else its stream operator is used, and a type that cannot be shown is marked as such rather than failing. '
  'Showing a value never changes it or the output stream\'s formatting for later values, and types are named by their full structure.',
  ['inputs'], 'every value of the showable types, nested to any depth',
  'ShowTests pin a few literals; nesting and the full character range are not covered.',
  ['src/Show.cpp', 'include/rapidcheck/Show.hpp', 'include/rapidcheck/Show.h'],
  [('show overloads', 'include/rapidcheck/Show.hpp'), ('string escaping', 'src/Show.cpp')],
  (), ['rc::show / rc::toString'])

p('C23', 'Properties are tests of the test frameworks',
  'A property run through the Google Test, Catch, Boost Test or doctest integration gives the framework exactly one verdict: the test passes if and only if the property passed, and otherwise (falsified, or given up) it fails once, with the complete printed result as its message; a passing property that has a distribution, or was asked to be verbose, prints its result, and nothing else is printed. '
  'Google Test and Boost Test properties are identified as Suite/Name, so that the configuration that is printed after failures names exactly the failed ones and, used in another run, re-creates their failures and skips all others. '
  'A fixture is made anew for every case: set up before the body, torn down after a body that returns, and destroyed in every case before the next one is made. '
  'With the Google Mock listener every non-fatal result reported inside a case is reported to the property, whose case fails if any of them is a failure, and only to it; every other event reaches the listener that was installed before, exactly once and unchanged. '
  'Optional values of Boost generate and shrink as those of the library and are shown as their value or as none.',
  ['inputs', 'histories'], 'every sequence of tests, fixtures, case outcomes, mock results and framework events',
  'the extras have no tests of what a framework is told: a failure that is reported as passed, or twice, or swallowed inside a case, needs a second process that looks at the first.',
  ['extras/gtest/include/rapidcheck/gtest.h', 'extras/gmock/include/rapidcheck/gmock.h', 'extras/catch/include/rapidcheck/catch.h', 'extras/boost_test/include/rapidcheck/boost_test.h', 'extras/doctest/include/rapidcheck/doctest.h', 'extras/boost/include/rapidcheck/gen/boost/Optional.hpp', 'include/rapidcheck/detail/ExecFixture.h'],
  [('verdicts', 'extras/gtest/include/rapidcheck/gtest.h'), ('fixtures', 'include/rapidcheck/detail/ExecFixture.h'), ('listener', 'extras/gmock/include/rapidcheck/gmock.h')],
  [('m_delegate', 'the listener that was installed before', 'RapidCheckListener')],
  ['RC_GTEST_PROP / RC_GTEST_FIXTURE_PROP / RC_BOOST_PROP', 'rc::prop, rc::doctest::check', 'RapidCheckListener::install'])

p('C24', 'Shrinkables are immutable trees',
  'A shrinkable is a value together with a finite or lazy list of shrinks that are shrinkables again; reading any part of it, any number of times, from any copy and in any order gives the same values. '
  'The functions on shrinkables denote functions on such trees: just, lambda and shrink give exactly the value and shrinks they are made from, shrinkRecur repeats the shrinking function below every shrink; map changes every value and nothing else; mapShrinks changes only the immediate shrinks; filter leaves out exactly the subtrees whose root does not satisfy the predicate and is nothing when the root does not; mapcat and pair shrink the first part first, keeping the second, and then the second, keeping the first; postShrink offers the shrinks there are, recursively, and then those of the given function for every value in the tree. '
  'Two shrinkables are equal exactly if their whole trees are. all asks about every node depth first and stops at the first refusal; findLocalMin descends to the first acceptable shrink each time and stops where none is acceptable, counting the steps; walkPath finds the node that a path names, or nothing; immediateShrinks are the values of the shrinks in order.',
  ['inputs', 'programs'], 'every tree and every expression over these functions',
  'The shrinkable tests apply one function to one or two small trees; deep compositions, shared parts and repeated reading are not covered.',
  ['include/rapidcheck/Shrinkable.h', 'include/rapidcheck/Shrinkable.hpp', 'include/rapidcheck/shrinkable/Create.h', 'include/rapidcheck/shrinkable/Create.hpp', 'include/rapidcheck/shrinkable/Transform.h', 'include/rapidcheck/shrinkable/Transform.hpp', 'include/rapidcheck/shrinkable/Operations.h', 'include/rapidcheck/shrinkable/Operations.hpp'],
  [('tree transformations', 'include/rapidcheck/shrinkable/Transform.hpp'), ('constructors', 'include/rapidcheck/shrinkable/Create.hpp'), ('operations', 'include/rapidcheck/shrinkable/Operations.hpp')],
  [('m_impl', 'the shared implementation of a tree', 'Shrinkable')],
  ['Shrinkable::value, Shrinkable::shrinks'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
