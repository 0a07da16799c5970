"""Source of properties.jsonl (python3 tools/props.py rewrites it)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    P.append(d)


# ---------------------------------------------------------------- containers
prop('P01', 'Push-back iterator delivers every item exactly once, in stack order',
     'A push-back iterator delivers each pushed value and each value of the wrapped iterable exactly once: the most recently pushed value first, then the remaining wrapped values in their own order. '
     'Testing its truth value tells exactly whether another item is available and loses nothing, reading with a default returns that default exactly when nothing is left, and values may be pushed again after exhaustion. '
     'This holds for every value (falsy or None included) and for wrapped iterators that are falsy, and an exception raised by the wrapped iterator reaches the caller without losing or inventing an item.',
     ['inputs', 'histories', 'fault_sequences'], 'every wrapped iterable, every sequence of push / read / read-with-default / truth test, every exception of the wrapped iterator',
     'tests run a dozen fixed sequences; operation histories are unbounded and falsy or raising iterators are not sampled',
     ['big/itertools.py'], [('internal stack consulted before the wrapped iterator', 'big/itertools.py:PushbackIterator.__next__'), ('probe and push back', 'big/itertools.py:PushbackIterator.__bool__')],
     [('stack', 'pushed values not read yet, last is next', 'PushbackIterator.stack'), ('i', 'wrapped iterator, None once exhausted', 'PushbackIterator.i')])

prop('H01', 'Heap mutators keep the exact multiset and always remove the smallest',
     'After any sequence of operations a heap contains exactly the values added and not yet removed, with their multiplicities. '
     'Removing from the left returns a smallest element (the combined operations act as append-then-popleft and popleft-then-append), removing a value removes one occurrence equal to it, and a failed removal changes nothing. '
     'Copies are independent: no later operation on the copy or the original is visible in the other, and building or extending a heap from an iterable leaves the iterable as it was.',
     ['inputs', 'histories'], 'every sequence of constructor / append / extend / remove / popleft / combined / clear / copy over any totally ordered values with duplicates',
     'tests use one alphabet fixture; the heap invariant after arbitrary interleavings of mutators is not reachable by examples',
     ['big/heap.py'], [('every mutator ends with the heap invariant of its queue', 'big/heap.py:Heap')],
     [('_queue', 'binary heap holding the content', 'Heap._queue'), ('_version', 'bumped by every mutation', 'Heap._version')])

prop('H02', 'Heap views behave like the sorted list of its content',
     'Length, truth value, membership, equality, every integer index and every slice (any sign, start, stop or step) of a heap equal the same operation on the ascending sorted list of its content, including raising IndexError out of range and TypeError for other index types. '
     'Iterating yields the content in ascending order without changing the heap, and raises RuntimeError at the next step after any change made during iteration. '
     'None of these views modifies the heap.',
     ['inputs', 'histories'], 'every content, every int and slice index, every interleaving of iteration with mutation',
     'tests index one 26-element heap; the special-cased index and slice ranges interact with length',
     ['big/heap.py'], [('nsmallest / nlargest / sorted fast paths', 'big/heap.py:Heap.__getitem__'), ('version check', 'big/heap.py:Heap.HeapIterator.__next__')],
     [('_queue', 'binary heap holding the content', 'Heap._queue')])

# ---------------------------------------------------------------- scheduler
prop('S01', 'Scheduler yields each due event exactly once in (time, priority, order) order',
     'Iterating a scheduler yields every scheduled, uncancelled event exactly once, never before its time, and each time picks the waiting event with the earliest time, then the lowest priority value, then the earliest scheduling. '
     'Relative times are measured from the moment of scheduling; when nothing is due a blocking read sleeps for the remaining time and looks again (so events added or cancelled during the sleep are honoured), and a non-blocking read stops without sleeping and without losing events. '
     'Cancelling removes exactly that event, cancelling an event that is not waiting raises an error and changes nothing, and the queue view lists exactly the waiting events in that order.',
     ['inputs', 'histories', 'schedules'], 'every set of events, times, priorities and clock readings; schedule and cancel calls at any point, including while a reader sleeps',
     'tests drive one scripted clock; ordering under ties and mutations arriving during sleep need arbitrary histories',
     ['big/scheduler.py', 'big/heap.py'], [('event total order', 'big/scheduler.py:Event.__lt__'), ('re-read of heap and clock after each sleep', 'big/scheduler.py:Scheduler._next')],
     [('heap', 'waiting events', 'Scheduler.heap'), ('event_id_counter', 'scheduling order', 'Scheduler.event_id_counter')])

prop('S02', 'Scheduler uses shared state and clock under the lock, never sleeps with it',
     'Every access a scheduler operation makes to its shared queue, its counter or the clock (reading now, waking) happens while the regulator lock is held by that operation. '
     'The lock is never held while sleeping or while an event is handed to the caller, and every operation releases it on every exit, including exceptions raised by the clock, by comparisons or by a cancel of an unknown event. '
     'No operation acquires the lock twice without releasing it.',
     ['inputs', 'histories', 'fault_sequences'], 'every public scheduler operation, every exception raised by clock, wake, sleep or the queue',
     'tests are single threaded and use a null lock; they cannot observe lock state at every access and exit',
     ['big/scheduler.py'], [('with-statement on regulator.lock in every operation', 'big/scheduler.py:Scheduler')],
     [('lock', 'mutual exclusion for heap and counter', 'Regulator.lock')])

# ---------------------------------------------------------------- state machine
prop('M01', 'State transitions are atomic, ordered and never nested',
     'A transition runs in a fixed order: the new state becomes the pending one, the old state\'s exit handler runs, the observers registered at that moment run once each in order, then the state changes and the pending one is cleared, and only then the new state\'s enter handler runs. '
     'Starting another transition while one is pending, to the current state, or to an invalid state raises an error and changes nothing; if an exit handler or observer raises, the exception propagates, the state is unchanged and later transitions work. '
     'Handlers are optional and looked up by the configured names, and the initial state is entered the same way on construction.',
     ['inputs', 'histories', 'fault_sequences'], 'every state object, handler and observer behaviour (including raising and re-entrant transitions) and every sequence of transitions',
     'tests cover the happy path and a few nested attempts; failure at each handler and observer position is not sampled',
     ['big/state.py'], [('pending marker set before and cleared after the handlers', 'big/state.py:StateManager.state setter')],
     [('__state', 'current state', 'StateManager'), ('__next', 'pending state or None', 'StateManager'), ('observers', 'callables notified per transition', 'StateManager')])

prop('M02', 'State accessors and dispatched methods forward to the current state',
     'An attribute installed by the accessor decorator always reads the manager\'s current state and writing it performs a transition on that manager, whatever attribute names are chosen. '
     'A dispatched method calls the method of the current state whose name is the configured prefix, the decorated function\'s name and the suffix, with exactly the given arguments, returns its result and lets its exceptions through. '
     'Each call consults the state at call time, so it follows transitions, and two decorated classes or methods do not affect each other.',
     ['inputs', 'histories', 'programs'], 'every attribute, prefix, suffix and argument list; every sequence of transitions and calls',
     'tests use one or two classes with default names',
     ['big/state.py'], [('closure over the manager attribute name', 'big/state.py:accessor'), ('late lookup on the current state', 'big/state.py:dispatch')])

# ---------------------------------------------------------------- graph
prop('G01', 'Topological sorter releases nodes exactly once, dependencies first',
     'A node becomes ready only after all its predecessors have been marked done, each node is returned by ready exactly once per pass, and every node is eventually returned when everything returned is marked done. '
     'The truth value is true exactly while some node has not been marked done; marking a node that was not returned, or twice, raises an error and changes nothing. '
     'The static order lists every node once after all its predecessors, and several views progress independently.',
     ['inputs', 'histories'], 'every finite acyclic graph, every interleaving of ready / done over any number of views',
     'tests use a few literal graphs in one completion order',
     ['big/graph.py'], [('predecessor counters and the ready set', 'big/graph.py:TopologicalSorter.View')],
     [('_predecessors', 'number of predecessors not done yet per waiting node', 'View'), ('_ready', 'nodes whose predecessors are all done, not returned yet', 'View'), ('_yielded, _done', 'progress sets', 'View')])

prop('G02', 'Graph edits keep every live view coherent and report conflicts exactly',
     'Nodes and edges may be added or removed at any time between calls: afterwards each view behaves as if the graph had always been the edited one and the same nodes had been returned and marked done. '
     'A view is in conflict exactly when some edge goes from a node not done in that view to a node already returned or done; while in conflict ready raises an error naming conflicting pairs, and removing the offending node or edge ends it. '
     'Removing a node removes it from the graph and every view; adding an existing edge again and adding a node without edges change nothing else.',
     ['inputs', 'histories'], 'every interleaving of add / remove with ready / done on any number of views',
     'tests check a handful of edits at fixed points; coherence of incrementally maintained counters needs all histories',
     ['big/graph.py'], [('incremental update of every live view', 'big/graph.py:TopologicalSorter._add_edge / remove'), ('conflict sets', 'big/graph.py:TopologicalSorter.View')],
     [('conflicts', 'edges violating the order per view', 'View.conflicts')])

prop('G03', 'Cycle detection is exact',
     'Cycle detection reports a cycle exactly when the graph has one, and the reported list is a real cycle: each reported node has an edge to the next one and the last to the first. '
     'ready and static order raise the cycle error while the graph is cyclic and work again once the cycle has been broken by removals. '
     'Detection after any edit agrees with detection on a freshly built identical graph.',
     ['inputs', 'histories'], 'every finite directed graph including self-loops, every edit history',
     'tests check single literal cycles; caching of the check across edits is not exercised',
     ['big/graph.py'], [('repeated removal of source nodes', 'big/graph.py:TopologicalSorter.cycle'), ('dirty flag', 'big/graph.py:TopologicalSorter')])

prop('G04', 'Copies, views and resets of a sorter are independent',
     'A copy of a sorter (and a copy of a view) has the same observable state as the original, and nothing done to either one changes the other. '
     'Resetting a sorter or view makes it behave like a fresh one over the current graph, and closing a view detaches only that view. '
     'These hold at any point of a pass, with returned, done or conflicting nodes present.',
     ['histories'], 'every history of edits and progress before and after copy / view / reset / close',
     'tests copy at one or two states and compare little',
     ['big/graph.py'], [('deep copy of per-view sets', 'big/graph.py:TopologicalSorter.copy / View.copy')])

# ---------------------------------------------------------------- version
prop('V01', 'Version comparison is a consistent total order with matching hashes',
     'For any versions exactly one of less-than, equal, greater-than holds and the order is transitive: it goes by epoch, release, pre-release level and serial, post-release, development release (none sorts last) and local segments (numeric ones by value, above alphabetic ones). '
     'Equal versions have equal hashes, missing trailing release components count as zeros, and spelling variants of the same version (case, alternative separators and pre-release abbreviations, implicit post or dev serials, leading v) compare equal. '
     'Comparing with something that is not a version is unequal, and ordering it raises TypeError.',
     ['inputs'], 'every pair and triple of versions, parsed or built from keywords',
     'tests sort one literal list; pairwise and hash consistency over all component combinations is not sampled',
     ['big/version.py'], [('normalised comparison tuple', 'big/version.py:Version.__init__'), ('rich comparison over the tuple', 'big/version.py:Version.__eq__, __lt__, __hash__')],
     [('_compare', 'comparison key', 'Version')])

prop('V02', 'Version strings round-trip and reject invalid versions',
     'Parsing the string form (or evaluating the repr) of any version yields an equal version with the same string form, and building one from keywords or from sys.version_info yields the same version as parsing the corresponding string. '
     'Every accessor reports the parsed component, releases have at least one component with trailing zeros dropped beyond that. '
     'Strings that are not valid versions raise ValueError, invalid component values raise ValueError or TypeError, and the components of a version cannot be assigned to.',
     ['inputs'], 'every string, every combination of keyword components',
     'tests parse a fixed list of strings',
     ['big/version.py'], [('single anchored grammar for parsing', 'big/version.py:_re_parse_version'), ('normalised rendering', 'big/version.py:Version.__str__')])

# ---------------------------------------------------------------- text: splitting
prop('T01', 'Splitting keeping separators is lossless and splits exactly at separators',
     'For every text and every collection of separators, splitting with separators kept re-joins to exactly the original text, in each of the three keep formats. '
     'The pieces are exactly those obtained by scanning left to right and always taking the longest separator at the first position where any separator occurs; no piece contains a match the scan should have taken. '
     'str and bytes behave alike, the argument order of the separators does not matter, and text without separators comes back whole.',
     ['inputs'], 'every str or bytes text and every non-empty collection of non-empty separators, overlapping and prefix-sharing ones included',
     'tests use a few texts; overlapping separators and boundary positions need all inputs',
     ['big/text.py'], [('alternation ordered longest first', 'big/text.py:__separators_to_re'), ('reassembly of re.split output', 'big/text.py:multisplit')])

prop('T02', 'Split options compose like their documented definitions',
     'The options maxsplit, separate, strip, reverse and keep behave as a documented reference definition for every combination: separate controls whether adjacent separators merge, maxsplit bounds the number of splits counted from the chosen end, strip removes leading and/or trailing separators (progressive strip only trims sides that were split fully), and reverse scans from the right. '
     'With default whitespace separators the result agrees with the standard split for str and bytes. '
     'Invalid arguments raise TypeError or ValueError rather than returning a wrong split.',
     ['inputs', 'configurations'], 'every combination of the five options with every text and separators',
     'the option lattice times texts is far larger than the tests; several combinations are untested',
     ['big/text.py'], [('option handling around a single split', 'big/text.py:multisplit'), ('reverse scan', 'big/text.py:reversed_re_finditer')])

prop('T03', 'Multi-partition generalises partition and never loses text',
     'Partitioning by several separators returns pieces and separators that re-join to the original, always exactly 2*count+1 of them, padded with empty strings where a separator was not found. '
     'The separators found are the first count ones from the left (or from the right when reversed), longest first at one position, exactly as repeated partition at those separators. '
     'count, reverse and separate are honoured in every combination and negative or invalid arguments raise an error.',
     ['inputs', 'configurations'], 'every text, separators, count, reverse and separate',
     'tests compare a small set of literals',
     ['big/text.py'], [('multisplit with alternating separators', 'big/text.py:multipartition')])

prop('T04', 'Regular-expression partition and reverse search are exact',
     'Partition by a regular expression returns the text before the first match (last match when reversed), the match and the rest, count times, so that the pieces and matched texts re-join to the original, padded with empties and None when there is no match. '
     'Searching in reverse yields genuine non-overlapping matches from right to left, ending as far right as possible and, of those, starting as far left as possible. '
     'Results are independent of whether the pattern is a string, bytes or compiled.',
     ['inputs', 'programs'], 'every text and pattern, including patterns with empty matches, groups, lookarounds and anchors',
     'reverse scanning semantics over overlapping and empty matches is sampled by a few literals only',
     ['big/text.py'], [('slices at match spans', 'big/text.py:re_partition, re_rpartition'), ('overlap resolution of forward matches', 'big/text.py:reversed_re_finditer')])

prop('T05', 'Multi-strip removes exactly the separators at the requested ends',
     'Stripping a collection of separators returns a contiguous part of the text whose removed ends are concatenations of separators; after stripping a side the text no longer starts (or ends) with any separator. '
     'A side not requested is left alone, and text without separators at its ends is returned unchanged. '
     'It holds for str and bytes and for overlapping, multi-character and newline-containing separators.',
     ['inputs', 'configurations'], 'every text, separators and side flags',
     'tests cover single-character whitespace-like separators mostly',
     ['big/text.py'], [('anchored regular expressions per side', 'big/text.py:multistrip')])

prop('T06', 'Quoted-string splitting is lossless and quotes are matched correctly',
     'Splitting text at quoted strings yields triples that re-join to exactly the original text, where quoted and unquoted segments alternate and every quoted segment starts at the first quote mark outside a quote and ends at the next unescaped occurrence of the same mark. '
     'Quote marks of the other kind and escaped marks inside a quoted segment do not end it, the longest quote mark wins, and multi-line marks may span lines while others raise SyntaxError at a line break; a quote still open at the end of the text gives a last segment without closing mark. '
     'The initial state lets the text begin inside a quote.',
     ['inputs', 'configurations'], 'every text, quote mark sets, escape string and initial state',
     'tests sample short literals; escapes at boundaries and marks that share prefixes need all inputs',
     ['big/text.py'], [('tokenising regular expression and a two-state loop', 'big/text.py:split_quoted_strings')])

prop('T07', 'Delimiter splitting is lossless and tracks nesting exactly',
     'Splitting text at delimiters yields pieces (text, opening mark, closing mark) that re-join to exactly the original text. '
     'Opening and closing marks are recognised by the nesting state at that point, inside quoting delimiters only their closing mark and escapes count, and a mismatched or unexpected mark, a line break inside a single-line quoting delimiter, or an escape with nothing after it raises SyntaxError. '
     'With an initial state the result equals the tail of splitting a text that opened those delimiters first.',
     ['inputs', 'configurations'], 'every text over every valid delimiter set, every initial nesting state',
     'nesting histories are unbounded; tests use a few literals',
     ['big/text.py'], [('per-state compiled token tables', 'big/text.py:split_delimiters'), ('delimiter stack', 'big/text.py:split_delimiters')])

prop('T08', 'Combining splits refines all of them',
     'Combining several splits of the same text yields a split of the same text whose cut positions are exactly the union of the cut positions of the given splits. '
     'Re-joining gives the original text, no piece is empty, and the order of the given splits does not matter. '
     'A split that is longer than the text raises ValueError.',
     ['inputs'], 'every text and every collection of splits (any iterables of pieces) of it',
     'tests combine two or three literals',
     ['big/text.py'], [('repeatedly cutting at the nearest remaining boundary', 'big/text.py:combine_splits')])

# ---------------------------------------------------------------- text: lines
prop('L01', 'Line information always reassembles the original text',
     'Splitting text into lines yields every line with its terminator such that re-joining them gives the text, with line numbers increasing by one from the requested start and column numbers starting at the requested first column. '
     'For every line and after any chain of line filters that only remove or trim, leading + line + trailing + end equals the original line, and the column number is the column of the first remaining character with tabs expanded. '
     'Trimming leading or trailing characters moves exactly that many characters and nothing else.',
     ['inputs', 'configurations'], 'every text, tab width, first line and column number, every chain of filters',
     'tests check literals; the reassembly invariant across filter chains is a whole-history property',
     ['big/text.py'], [('clip operations that move text between fields', 'big/text.py:LineInfo.clip_leading, clip_trailing'), ('column accounting', 'big/text.py:lines.column_number')],
     [('leading, line, trailing, end', 'a partition of the raw line', 'LineInfo')])

prop('L02', 'Indentation levels follow the indentation columns',
     'For each non-blank line the indentation is the number of enclosing shallower indentations: deeper than the previous line opens one new level, equal keeps the level, and shallower returns to the enclosing level with exactly that column or raises IndentationError if there is none. '
     'Blank lines get the indentation of the next non-blank line, or zero at the end. '
     'The text after the removed indentation is unchanged and nothing is lost or reordered.',
     ['inputs'], 'every sequence of lines with spaces and tabs',
     'tests cover one nested example; multi-level dedents over all sequences are not',
     ['big/text.py'], [('stack of indentation columns', 'big/text.py:lines_strip_indent')])

prop('L03', 'Line filters select and trim exactly what they are named for',
     'Filtering by prefix, suffix, substring or regular expression keeps exactly the matching lines (or the others when inverted), in order and unmodified; removing empty lines removes exactly those. '
     'Stripping and right-stripping remove exactly surrounding or trailing whitespace or given separators, and sorting returns a permutation ordered by the key. '
     'Comment filters drop exactly the lines that are comments and cut exactly at the first comment marker outside quoted strings, recording the comment, and report unterminated quotes as SyntaxError.',
     ['inputs', 'configurations'], 'every line sequence and filter argument',
     'tests use short literals for each filter',
     ['big/text.py'], [('generator filters over line information', 'big/text.py:lines_* functions')])

prop('W01', 'Word wrapping preserves words and margins',
     'Wrapping a list of words outputs every word once and in order, separated only by spaces or line breaks, and no line is longer than the margin unless it is a single word that is itself longer. '
     'A word is moved to the next line only if it would not fit, two spaces follow sentence-ending punctuation exactly when requested, and paragraph and code markers in the list break lines as they are. '
     'Splitting text into words keeps paragraph breaks and keeps indented code lines as single unwrapped pieces.',
     ['inputs', 'configurations'], 'every list of words, margin and option; every text for splitting',
     'tests wrap a few fixed paragraphs',
     ['big/text.py'], [('column accounting per word', 'big/text.py:wrap_words'), ('line classification', 'big/text.py:split_text_with_code')])

prop('W02', 'Column merging keeps each column intact and aligned',
     'Merging text columns keeps every line of every column, in order, each padded to the column width and separated by the separator, so that the text of each column can be read back at its fixed position when it fits. '
     'Lines longer than the maximum width overflow as requested: raising an error, intruding over the following columns on that line, or pausing the following columns until the overflow is over. '
     'No output line has trailing whitespace and no text is dropped or duplicated.',
     ['inputs', 'configurations'], 'every set of columns, widths, separators and overflow strategies',
     'tests compare a few literals per strategy',
     ['big/text.py'], [('per-column iterators with overflow bookkeeping', 'big/text.py:merge_columns')])

# ---------------------------------------------------------------- text: misc
prop('N01', 'Spelled-out integers are exact',
     'Spelling out an integer in words denotes exactly that integer for every value, negative included, and different integers get different words. '
     'Ordinals are the ordinal form of the same number; the flowery form only adds commas and "and". '
     'Numbers beyond the named powers are given in plain decimal digits.',
     ['inputs', 'configurations'], 'every int and both option flags',
     'tests compare selected values; the integers are unbounded',
     ['big/text.py'], [('recursive decomposition by powers of a thousand', 'big/text.py:int_to_words')])

prop('N02', 'Whitespace normalisation collapses exactly runs of the separators',
     'Normalising whitespace replaces every maximal run of the separators by the replacement, keeps every other character in order, and keeps at most one replacement at each end exactly where the text had separators there. '
     'The result is the same for str and bytes, default separators are exactly the whitespace of the type, and with the defaults normalising twice changes nothing more. '
     'Text that is already normal is returned unchanged.',
     ['inputs', 'configurations'], 'every text, separators and replacement',
     'tests compare a few literals',
     ['big/text.py'], [('multisplit and re-join', 'big/text.py:normalize_whitespace')])

prop('N03', 'Title-casing only changes the case of letters that start words',
     'Gentle title-casing changes nothing but the case of letters: it upper-cases the first letter of every word and leaves all other characters alone. '
     'A word starts after whitespace or a left parenthesis; apostrophes and quote marks at a word start are passed over, and after an O or D and one apostrophe at a word start the next letter is upper-cased too. '
     'It works alike for str and bytes and is idempotent.',
     ['inputs', 'configurations'], 'every text and apostrophe / quote set',
     'tests compare a few literals',
     ['big/text.py'], [('word-by-word scan', 'big/text.py:gently_title')])

prop('N04', 'Re-encoding an iterable of strings keeps its shape and content',
     'Encoding a collection of strings returns the same kind of collection with every string encoded in the given encoding, bytes objects kept, in the same order and nesting; decoding every element gives back the original. '
     'Objects that are neither strings nor bytes raise TypeError. '
     'The input is not modified.',
     ['inputs', 'configurations'], 'every str, bytes, or collection of them, every encoding that can represent them',
     'tests use one or two literals',
     ['big/text.py'], [('type dispatch', 'big/text.py:encode_strings')])

# ---------------------------------------------------------------- others
prop('B01', 'Number conversions agree with Python and never raise on convertible checks',
     'The conversion tests return True exactly when converting to int or float succeeds and never raise for conversion failures of any kind. '
     'The getters return exactly the converted value or else the given default (the object itself if no default was given, and None or falsy defaults are honoured); the combined getter returns an int unchanged, turns an integral float into the equal int and leaves every other float (infinities and nan included) alone, and for anything else returns int(o), or else the number its float value denotes, preferring an int. '
     'Exceptions other than conversion failures are not swallowed.',
     ['inputs', 'fault_sequences'], 'every object, including ones whose conversion raises or overflows, and every default',
     'tests check a few strings and numbers',
     ['big/builtin.py'], [('except clause around the conversion', 'big/builtin.py:get_int_or_float and siblings')])

prop('F01', 'Filename translation yields legal names and is otherwise the identity',
     'Translating a filename for a file system replaces every character that file system forbids and leaves every other character and their order unchanged, with the documented replacement for each. '
     'Translating twice gives the same result as once, and empty or non-string names raise ValueError. '
     'No two different safe names become equal: a name without forbidden characters is returned as it is.',
     ['inputs'], 'every string',
     'tests compare a few literals; strings are unbounded',
     ['big/file.py'], [('translation tables and colon replacement', 'big/file.py:translate_filename_to_exfat, translate_filename_to_unix')])

prop('F02', 'Directory and file helpers do exactly their one effect',
     'Changing directory for a block enters the given directory and always returns to the directory that was current on entry, also when the block raises, and nests and can be reused. '
     'The safe make-directory and unlink helpers leave a directory respectively no file at the path, replacing only plain files, without error if already so; touch creates an empty file or updates the time without changing content. '
     'No other path is created, changed or removed.',
     ['inputs', 'histories', 'fault_sequences'], 'every kind of existing path, nesting, reuse and exception in the block',
     'tests cover one temporary directory scenario',
     ['big/file.py'], [('working directory saved on entry', 'big/file.py:pushd'), ('existence tests before the effect', 'big/file.py:safe_mkdir, safe_unlink, touch')])

prop('F03', 'File search returns exactly the matching lines',
     'Searching a file for fixed text or a regular expression returns exactly the lines that contain it, in file order and unmodified apart from the removed line end, for text and binary searches. '
     'With enumeration each line is paired with its one-based line number, and case-insensitive search ignores case but still returns the original lines. '
     'Mixing a binary pattern with a text encoding raises ValueError, and the file is closed in every case.',
     ['inputs', 'configurations'], 'every file content, search text or pattern and option combination',
     'tests search one sample file',
     ['big/file.py'], [('split at line feeds and filter', 'big/file.py:fgrep, grep')])

prop('D01', 'Timestamps denote the given instant and parse back to it',
     'Formatting any instant as an RFC 3339 Zulu timestamp gives the UTC date and time of that instant, and parsing the result gives back the same instant to the printed precision. '
     'The human-readable form shows the local date and time with microseconds exactly when requested, for every kind of accepted time value. '
     'Setting or ensuring a time zone changes only the zone (ensuring only if there was none), and unsupported types raise TypeError.',
     ['inputs', 'configurations'], 'every float, int, struct_time and datetime within range, every time zone',
     'tests compare fixed instants',
     ['big/time.py'], [('conversion to UTC before formatting', 'big/time.py:timestamp_3339Z'), ('replacement of the zone only', 'big/time.py:datetime_set_timezone')])

prop('E01', 'Event logs keep every event in order with exact times and nesting',
     'A log yields every event since the last reset once and in order with its start time, its nesting depth and an elapsed time equal to the difference to the next event (zero for the last). '
     'Entering a subsystem logs a start event and deepens, leaving logs the matching end event and returns to the previous depth, for any nesting. '
     'The printed report has one line per event with the times to the requested width and the event indented by depth.',
     ['inputs', 'histories'], 'every sequence of events, enter, exit and reset over any monotonic clock',
     'tests check one scripted log',
     ['big/log.py'], [('append of time, event and stack depth', 'big/log.py:Log.__call__'), ('pairwise differences', 'big/log.py:Log.__iter__')],
     [('events', 'recorded (time, event, depth)', 'Log.events'), ('stack', 'open subsystems', 'Log.stack')])

prop('C01', 'Bound inner classes are bound to their own outer instance',
     'Instantiating a bound inner class through an instance passes that instance as the first argument and gives an object that is an instance of the inner class; through the class it behaves like the plain class. '
     'The class obtained through one instance is the same object on every access and differs between instances, and inheritance between inner classes (including unbound ones and those of parent outer classes) is preserved. '
     'The binding does not keep the outer instance alive.',
     ['programs', 'histories'], 'every outer and inner class hierarchy and access order',
     'tests define fixed hierarchies',
     ['big/boundinnerclass.py'], [('per-instance cache and wrapper class', 'big/boundinnerclass.py:_Worker.__get__')])

prop('R01', 'A wake never gets lost between deciding to sleep and sleeping',
     'With the thread-safe regulator, when one thread schedules or cancels while another is about to block in the scheduler, the blocked thread looks at the queue again without waiting for the old time-out. '
     'No event is therefore yielded late by a change made by another thread.',
     ['schedules'], 'every interleaving of a blocking reader with schedule or cancel in another thread',
     'tests never interleave at that point',
     ['big/scheduler.py'], [('sleep binds the wake-up event current at lookup, under the lock', 'big/scheduler.py:ThreadSafeRegulator.sleep'), ('wake sets that event for good and replaces it', 'big/scheduler.py:ThreadSafeRegulator.wake')])

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    print(len(P), 'properties')
