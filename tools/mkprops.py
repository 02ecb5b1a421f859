#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here, one tuple per property)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

c = "crates/"
# ---------------- topo-sort
prop("T01", "Graph ordering is a correct reverse topological order, or a true cycle",
 "For every finite graph, `topo_sort::graph::get` returns `Ok(order)` exactly when no node can reach itself through the graph's edges; then `order` contains every key and every neighbour of a key exactly once and nothing else, and each node's neighbours all appear before it. Otherwise it returns an error whose witness is a node that really can reach itself. It always terminates and never panics.",
 ["inputs"], "all graphs (BTreeMap from node to BTreeSet of nodes), including neighbours that are not keys, self loops, disconnected parts",
 "the tests run 8 small concrete graphs; order and cycle claims quantify over all graphs",
 [c+"topo-sort/src/graph.rs", c+"topo-sort/src/lib.rs"],
 [("Work::run depth-first loop", c+"topo-sort/src/lib.rs"), ("graph::get, Visitor::process, Visitor::exit", c+"topo-sort/src/graph.rs")],
 observe=["topo_sort::graph::get", "CycleError::witness"])
prop("T02", "The generic sort visits each element at most once, children before parents",
 "For every lawful set type and every visitor, running a `Work` calls `process` and then `exit` exactly once for each distinct element that is started and not skipped, exits an element only after everything it pushed has been handled, and passes `exit` the number of elements still in progress around it. On return `done` is exactly the set of exited elements, and `cycle` is `Some` exactly when an element still in progress was reached again, in which case it is the first such element. None of the internal assertions can fail.",
 ["inputs", "programs"], "all initial work lists, all visitors (deterministic or not) that only push onto the work they are given, all lawful Set implementations",
 "the existing tests only use the graph visitor with BTreeSet; other visitors, skipping in `enter`, HashSet and exit levels are never observed",
 [c+"topo-sort/src/lib.rs"], [("Work::run", c+"topo-sort/src/lib.rs"), ("impl Set for BTreeSet / HashSet", c+"topo-sort/src/lib.rs")],
 state=[("cur", "elements in progress", "Work::run"), ("done", "elements exited", "Work::run"), ("level", "number of pending ends", "Work::run")],
 observe=["Work::run", "Ret.done", "Ret.cycle", "Visitor::exit level"])
# ---------------- chain-map
prop("C01", "A chain map behaves as one map under insert, extend, append and get",
 "For every history of operations on a `ChainMap`, `get` returns the value most recently inserted for that key (later `extend`, `FromIterator`, `From` items and an appended map's entries override earlier ones) or `None` if there is none; `is_empty` is true exactly when no key is present. `insert` returns true exactly when the key was absent and changes no other key; `append` leaves the other map empty.",
 ["histories", "inputs"], "all operation histories, all keys and values with lawful Eq and Hash",
 "the only test inserts one key",
 [c+"chain-map/src/lib.rs"], [("ChainMap::insert/get/append/is_empty/extend", c+"chain-map/src/lib.rs"), ("fast_hash::map", c+"fast-hash/src/lib.rs")],
 state=[("stack", "layers, later layers shadow earlier ones", c+"chain-map/src/lib.rs")], observe=["get", "insert result", "is_empty"])
prop("C02", "Consolidating, mutating and removing keep a chain map's other entries",
 "`remove` returns the current value of the key (or `None`) and afterwards only that key is gone; `get_mut` gives access to the current value of exactly that key and a write through it is what later lookups see; `consolidate` changes no lookup result. None of these, nor any other operation, changes what a previously made clone of the map returns.",
 ["histories"], "all operation histories over a map and its clones, all lawful keys",
 "no test calls remove, get_mut, consolidate or clone",
 [c+"chain-map/src/lib.rs"], [("ChainMap::consolidate_ / get_mut / remove", c+"chain-map/src/lib.rs")],
 state=[("stack", "shared layers", c+"chain-map/src/lib.rs")], observe=["remove", "get_mut", "consolidate", "clone then get"])
prop("C03", "Iterating a chain map gives each key once with its current value",
 "`iter`, `iter_mut`, `into_iter` and `drain` each yield every key of the map exactly once, paired with the value `get` would return for it, and yield nothing else. After `drain` has been consumed or dropped the map is empty; values written through `iter_mut` are what later lookups return.",
 ["histories", "inputs"], "all operation histories, in particular keys present in several layers, one layer, no layer",
 "no test iterates a chain map", [c+"chain-map/src/lib.rs"],
 [("ChainMap::iter", c+"chain-map/src/lib.rs"), ("ChainMap::iter_mut / drain / into_iter", c+"chain-map/src/lib.rs")],
 observe=["iter", "iter_mut", "drain", "into_iter"])
# ---------------- event-parse
prop("E01", "Finishing a parse sends the sink a balanced tree with tokens in source order",
 "For every sequence of parser calls that follows the documented protocol, `finish` terminates without panicking and the `enter`/`exit` calls it makes on the sink are balanced and properly nested, with a node made by `precede` enclosing the node it precedes. The tokens it sends are a prefix of the input, each once and in order, whose non-trivia tokens are exactly the bumped ones, each inside exactly the nodes it was recorded in; every recorded error is sent once, in order, between the same bumped tokens as recorded. A node is sent only if some token lies between its enter and exit, except that a parse which sends no token sends a single empty node of the first kind entered. If every bump was made inside a node, every token is sent inside a node. A node inside another one never begins with a trivia token, and if after the last bumped token a node was entered inside another one, or one was exited directly inside a top-level node, all trivia following that token is sent too.",
 ["histories", "inputs"], "all token lists, all kinds, all protocol-respecting sequences of enter/exit/abandon/precede/bump/error/save/ok_since",
 "event-parse has no behavioural test (only an enum size test)",
 [c+"event-parse/src/lib.rs"], [("Parser::finish, token, eat_trivia", c+"event-parse/src/lib.rs"), ("Parser::enter/exit/abandon/precede", c+"event-parse/src/lib.rs")],
 state=[("events", "recorded parse events with forward parents", c+"event-parse/src/lib.rs"), ("tok_idx", "next token", c+"event-parse/src/lib.rs")],
 observe=["Sink::enter", "Sink::token", "Sink::exit", "Sink::error"])
prop("E02", "Backtracking restores the parser exactly when an error occurred",
 "`ok_since(save)` returns true exactly when no error was recorded since that `save` (errors undone by an inner backtrack do not count), and then it changes nothing. Otherwise the parser behaves afterwards exactly as it did at the save: same current token, same recorded tree.",
 ["histories"], "all protocol-respecting histories between a save and its ok_since, including nested saves",
 "no test saves or backtracks", [c+"event-parse/src/lib.rs"], [("Parser::save / ok_since", c+"event-parse/src/lib.rs")],
 state=[("events", "", c+"event-parse/src/lib.rs"), ("tok_idx", "", c+"event-parse/src/lib.rs")], observe=["ok_since", "peek after ok_since", "finish"])
prop("E03", "Looking ahead skips trivia, consumes nothing, and bump takes the peeked token",
 "`peek` returns the first remaining token that is not trivia and `peek_n(n)` the n-th one after it (or `None` if there are not that many), without changing what any later call returns; `at`, `at_n` compare that token's kind. `bump` returns the token `peek` would return and moves past it. `eat(k)` does the same and returns it if its kind is `k`, and otherwise returns `None`, records one expectation error for `k` and consumes nothing.",
 ["inputs", "histories"], "all token lists, all parser positions, all n",
 "event-parse has no behavioural test", [c+"event-parse/src/lib.rs", c+"token/src/lib.rs"], [("Parser::peek/peek_n/bump/at/at_n/eat", c+"event-parse/src/lib.rs")],
 state=[("tok_idx", "", c+"event-parse/src/lib.rs")], observe=["peek", "peek_n", "bump", "at", "at_n", "eat"])
prop("E04", "Exited::is_empty says whether the closed node contains tokens",
 "For every completed node, `Exited::is_empty` returns true exactly when no token was consumed in that node: neither directly between its enter and exit, nor inside a node it was made to precede. Looking ahead over trivia does not make an empty node non-empty.",
 ["histories"], "all protocol-respecting histories, in particular peeks between enter and exit, and nodes created by precede",
 "event-parse has no behavioural test", [c+"event-parse/src/lib.rs"], [("Parser::enter/exit/precede, Exited::is_empty", c+"event-parse/src/lib.rs")],
 observe=["Exited::is_empty"])
prop("E05", "The rowan sink places every error at a token and loses none",
 "A `RowanSink` produces a tree whose text is the concatenation of the token texts it was given, and returns every error it was given exactly once, in the order given. Each error carries the range (byte offsets in that text) and kind of the first non-trivia token added after the error, or of the last token added if no non-trivia token followed (empty range at 0 and no kind if there was no token at all).",
 ["histories", "inputs"], "all sequences of sink calls, all token texts and kinds",
 "the rowan sink has no test", [c+"event-parse/src/rowan_sink.rs"], [("RowanSink::token / error / extend_errors / finish", c+"event-parse/src/rowan_sink.rs")],
 state=[("cur", "range and kind of the last token", c+"event-parse/src/rowan_sink.rs"), ("no_range", "errors waiting for a token", c+"event-parse/src/rowan_sink.rs")],
 observe=["RowanSink::finish"])
# ---------------- pattern-match
prop("M01", "A match is reported exhaustive exactly when every value is covered",
 "For every language whose `split`, `get_arg_tys` and `covers` describe its values lawfully, and every well-typed list of patterns, `check` returns an empty `missing` list exactly when every value of the scrutinee type is matched by some pattern (or-patterns match what any alternative matches). It does not panic, and returns no error unless the language does.",
 ["inputs", "programs"], "all lawful Lang implementations with finitely splittable constructors, all well-typed pattern lists, nested or-patterns, all types",
 "pattern-match has no test", [c+"pattern-match/src/alg.rs", c+"pattern-match/src/matrix.rs"],
 [("check / useful / specialize", c+"pattern-match/src/alg.rs"), ("Matrix::push / expand_or / non_empty_rows", c+"pattern-match/src/matrix.rs")], observe=["Check.missing"])
prop("M02", "A pattern is reported unreachable exactly when it can never be the one to match",
 "Under the same assumptions, the index of a pattern, wherever it stands (a pattern of the list, an alternative of an or-pattern, an argument), is in `unreachable` exactly when no value of the type is matched first through it: there is no value that the pattern of the list which contains it matches by way of it, but that no earlier pattern of the list matches, nor an earlier alternative of an or-pattern around it. Only indices that occur in the given patterns are ever reported.",
 ["inputs", "programs"], "all lawful Lang implementations, all well-typed pattern lists, indices at any depth, distinct or not",
 "pattern-match has no test", [c+"pattern-match/src/alg.rs", c+"pattern-match/src/matrix.rs"],
 [("check / useful / get_pat_indices", c+"pattern-match/src/alg.rs")], observe=["Check.unreachable"])
prop("M03", "Every reported missing pattern is a real uncovered case",
 "Under the same assumptions, every pattern in `missing` is a pattern of the scrutinee type without or-patterns that matches at least one value matched by none of the given patterns. If `split` only ever returns real constructors (never the any-constructor standing for the remaining ones), no value at all that it matches is matched by a given pattern.",
 ["inputs", "programs"], "all lawful Lang implementations, all well-typed pattern lists",
 "pattern-match has no test", [c+"pattern-match/src/alg.rs"], [("useful: witness construction", c+"pattern-match/src/alg.rs"), ("specialize", c+"pattern-match/src/alg.rs")], observe=["Check.missing"])
# ---------------- paths
prop("P01", "Clean paths are always absolute and free of dot components",
 "Every `CleanPathBuf` or `CleanPath` obtained from `new`, `push`, `join`, `parent` or `MemoryFileSystem::root` is absolute and has no `.` or `..` component. `CleanPathBuf::new` returns `None` exactly when the given path is not absolute, and a path that is already clean is returned unchanged.",
 ["inputs", "histories"], "all paths, all sequences of push and join",
 "one test and two doc tests clean three fixed paths", [c+"paths/src/lib.rs"], [("CleanPathBuf::new_unchecked", c+"paths/src/lib.rs"), ("CleanPathBuf::new / push, CleanPath::join / parent", c+"paths/src/lib.rs")],
 observe=["CleanPathBuf::new", "as_path", "push", "join", "parent"])
prop("P02", "A path store gives equal paths equal ids and distinct paths distinct ids",
 "For every history on a `Store`, two lookups return the same id exactly when the paths are equal, whichever of `get_id` and `get_id_owned` was used, and `get_path` of an id returns the path it was made for, for ever after. `combine` keeps every id already handed out valid with the same path, adds all paths of the other store, and calls the callback once for each of them, in order, with the other store's id and this store's id for the same path.",
 ["histories", "inputs"], "all histories of get_id, get_id_owned, combine on any number of stores, below the id limit of 2^32 paths",
 "no test uses Store", [c+"paths/src/lib.rs", c+"idx/src/lib.rs"], [("Store::get_id / get_id_owned / get_path / combine", c+"paths/src/lib.rs")],
 state=[("id_to_path", "path of each id", c+"paths/src/lib.rs"), ("path_to_id", "id of each path", c+"paths/src/lib.rs")], observe=["get_id", "get_path", "combine callback"])
prop("P03", "Cleaning and pushing follow lexical path semantics",
 "Cleaning a path keeps its normal components in order, drops `.` components, and lets each `..` remove the last component kept so far (or nothing at the root). Pushing or joining a relative path gives the cleaned concatenation; pushing an absolute path gives that path cleaned.",
 ["inputs"], "all absolute start paths, all pushed paths",
 "one test and two doc tests clean three fixed paths", [c+"paths/src/lib.rs"], [("CleanPathBuf::new_unchecked / push", c+"paths/src/lib.rs"), ("CleanPath::join / parent", c+"paths/src/lib.rs")], observe=["CleanPathBuf::new", "push", "join"])
prop("P04", "The in-memory file system answers consistently with its contents",
 "For every content map, `read_to_string` returns exactly the stored text of the path and a not-found error for any other path, `read_to_bytes` returns the same text as bytes, and `is_file` is true exactly for stored paths. `read_dir` returns exactly the stored paths strictly below the given path, each once, and `current_dir` is the root.",
 ["inputs"], "all content maps, all query paths", "no test uses MemoryFileSystem", [c+"paths/src/lib.rs"], [("impl FileSystem for MemoryFileSystem", c+"paths/src/lib.rs")], observe=["FileSystem methods"])
prop("P05", "The real file system returns what is on disk, or the system's error",
 "For every path, as long as nothing changes on disk, `RealFileSystem` answers as the system does: `read_to_bytes` returns all bytes of the file unchanged and `read_to_string` the same as text (an error if they are not UTF-8); `is_file` is true exactly if the path leads, links followed, to a regular file; `read_dir` returns every entry of the directory once, whatever its name or kind, as the given path joined with the entry's name; `current_dir` is the process's directory. Whenever the system reports an error, for one entry of a directory too, that error is returned and no partial or empty result.",
 ["inputs", "histories"], "all paths, all states of the disk that stay as they are during a call", "no test uses RealFileSystem", [c+"paths/src/lib.rs"], [("impl FileSystem for RealFileSystem", c+"paths/src/lib.rs")], observe=["FileSystem methods of RealFileSystem"])
# ---------------- text
prop("M04", "A pattern displays as its constructors, arguments and alternatives in order",
 "Displaying a pattern (as `Pat`, `RawPat` or `ConPat`) writes, for a constructor pattern, the constructor's text and then, if it has arguments, all of them in order with `, ` between each two, in one pair of parentheses; for an or-pattern, its alternatives in order with ` | ` between each two, or `<NEVER>` if it has none. The same holds at every depth, indices are not shown, and nothing is written after an error. A `CheckError` displays as `could not check pattern match: ` and its message.",
 ["inputs"], "all patterns of any depth and width, all constructors' texts, writers that fail at any point",
 "pattern-match has no test", [c+"pattern-match/src/types.rs"], [("Display for Pat, RawPat, ConPat, CheckError", c+"pattern-match/src/types.rs")], observe=["the text written"])
prop("M05", "Patterns that make no sense are an error, never a result or a panic",
 "Take a lawful language (as for M01) that may be asked about any constructor and any type, that has an error for a constructor which is not of the type, and whose types all have values. If some pattern given to `check` makes no sense (at any depth, an any-constructor has arguments, another constructor has more arguments than the language gives it types, or a constructor is not of the type at its place), and no or-pattern is empty, then `check` returns an error. If all patterns make sense it returns an error only if the language does. An error of the language is returned as it is. No pattern, sensible or not, makes `check` panic.",
 ["inputs"], "all such languages, lists of patterns of any shape, sensible or not, errors of the language at any call",
 "pattern-match has no test", [c+"pattern-match/src/alg.rs", c+"pattern-match/src/matrix.rs"], [("specialize's errors, useful, check", c+"pattern-match/src/alg.rs")], observe=["check"])
prop("X01", "Offset and UTF-16 position conversions are inverse and refuse out-of-range input",
 "For every text, `position_utf16` of an offset that is a character boundary within the text is its zero-based line (counting `\\n`) and its UTF-16 column in that line, and `text_size_utf16` of that position is the offset again. Positions that are not the position of any character boundary (line or column past the end, or inside a surrogate pair) and offsets past the end or inside a character give `None`, never a panic; ranges convert exactly when both ends do, for ranges whose start is not after their end.",
 ["inputs"], "all texts up to 4 GiB, all offsets and positions",
 "tests convert the positions of three fixed texts and never an out-of-range position",
 [c+"text-pos/src/lib.rs"], [("PositionDb::text_size_utf8 / position_to_utf8 / position_to_utf16", c+"text-pos/src/lib.rs")], observe=["position_utf16", "text_size_utf16", "range_utf16", "text_range_utf16", "end_position_utf16"])
prop("X08", "Splitting a range into lines cuts it exactly where lines start",
 "For every text and every range (within the text, beyond its end, or with ends inside a character), `PositionDb::lines` yields non-empty ranges in order that together are exactly the range: the first starts where it starts, the last ends where it ends, each starts where the one before ends. They meet exactly at the offsets strictly inside the range that come right after a `\\n` of the text, so every range but the last ends in its line's `\\n`. An empty range yields nothing, and there is never a panic.",
 ["inputs"], "all texts up to 4 GiB, all ranges",
 "no test calls lines", [c+"text-pos/src/lib.rs"], [("PositionDb::lines", c+"text-pos/src/lib.rs")], observe=["PositionDb::lines"])
prop("X02", "Applying changes equals applying them one after another",
 "`apply_changes::get` leaves the contents equal to the result of applying the changes in order, each ranged change replacing exactly the text between its start and end as they lie in the text produced by the changes before it, and a change without range replacing everything. A ranged change whose start or end is not a position of that text leaves the text as it is. It never panics when every range's start is not after its end.",
 ["inputs", "histories"], "all initial texts, all change lists (any order of lines, multi-line, overlapping previous edits, invalid positions) whose texts stay below 4 GiB",
 "apply-changes has no test", [c+"apply-changes/src/lib.rs", c+"text-pos/src/lib.rs"], [("get: full-change shortcut and index_valid cache", c+"apply-changes/src/lib.rs")],
 state=[("index_valid", "first line for which the cached line index is stale", c+"apply-changes/src/lib.rs")], observe=["apply_changes::get"])
prop("X03", "The byte cursor moves and slices exactly as documented",
 "For every string, a `St` reports the byte at its index or `None` past the end; `bump` advances by one, `bump_while` to the first byte not satisfying the condition, `eat_prefix` by the prefix's length exactly when the next bytes equal it (and otherwise not at all), and `next_str` to the next character boundary. `since` and `non_empty_since` return exactly the bytes between the mark and the cursor, and `did_bump_since` says whether the cursor moved.",
 ["inputs", "histories"], "all strings, all cursor positions in range, all conditions and prefixes",
 "str-process has no test", [c+"str-process/src/lib.rs"], [("St methods", c+"str-process/src/lib.rs")], state=[("idx", "current byte index", c+"str-process/src/lib.rs")], observe=["cur", "cur_idx", "since", "eat_prefix", "next_str"])
prop("X04", "Case conversion maps every identifier as specified and round-trips",
 "`snake_to_pascal` removes underscores and gives an upper-case first letter to each underscore-separated word and lower case to the rest (ASCII letters only; other characters unchanged). `pascal_to_snake` lower-cases ASCII letters and puts one underscore before each upper-case letter that is not the first character. Hence `pascal_to_snake(snake_to_pascal(s)) == s` for every non-empty s made of lower-case words that start with a letter, separated by single underscores.",
 ["inputs"], "all strings", "seven doc examples", [c+"identifier-case/src/lib.rs"], [("snake_to_pascal, pascal_to_snake", c+"identifier-case/src/lib.rs")], observe=["snake_to_pascal", "pascal_to_snake"])
prop("X05", "The markdown map has one entry per code heading with exactly its section text",
 "For every text without duplicate code headings, the returned map has exactly one key per line of the form ## `key` (with the heading for a single backtick spelled ` ` ` giving the key of one backtick), and its value is the callback's string for that key followed by each line up to the next code heading, each preceded by a newline. The callback is called once per heading, in order, with that key; text before the first heading is ignored, and duplicate headings panic.",
 ["inputs"], "all texts, all callbacks", "code-h2-md-map has no test", [c+"code-h2-md-map/src/lib.rs"], [("get, code_h2", c+"code-h2-md-map/src/lib.rs")], observe=["code_h2_md_map::get"])
prop("X06", "Punctuation names are unambiguous",
 "`get_opt` names every ASCII punctuation character except the quotes and the backslash, and names no other character; names are non-empty, start with an upper-case letter, contain only ASCII letters, and are distinct. `get` agrees with `get_opt` and panics only on unnamed characters. Concatenating the names of two different sequences of named characters never gives the same string.",
 ["inputs"], "all characters, and all sequences of named characters", "char-name has no test", [c+"char-name/src/lib.rs"], [("get_opt, get", c+"char-name/src/lib.rs")], observe=["get_opt", "get"])
prop("X07", "Separated formatting writes items in order with the separator only between them",
 "`sep_seq` writes each item once and in order with exactly one separator between consecutive items and none before the first or after the last, writing nothing for no items, and `comma_seq` does so with `, `. If the underlying writer or an item fails, the call returns an error and writes nothing more.",
 ["inputs", "fault_sequences"], "all separators, all item sequences, all points at which the writer or an item can fail", "fmt-util has no test", [c+"fmt-util/src/lib.rs"], [("sep_seq, comma_seq", c+"fmt-util/src/lib.rs")], observe=["formatted output", "fmt::Result"])
# ---------------- utilities
prop("U01", "A unique-identifier maker never repeats an identifier",
 "For every number of calls up to 2^32 - 1, all identifiers returned by one `UniqMk` are pairwise different, and each is larger than all those before it. Different identifiers display as different texts.",
 ["histories"], "all call histories of one maker", "one doc test compares two identifiers", [c+"uniq/src/lib.rs"], [("UniqMk::mk", c+"uniq/src/lib.rs")], state=[("UniqMk.0", "next id", c+"uniq/src/lib.rs")], observe=["UniqMk::mk"])
prop("U02", "Index and size conversions preserve the number and never truncate",
 "`Idx::new(n).to_usize() == n` for every n below 2^32 and `Idx::new` panics for larger n, so distinct numbers give distinct, equally ordered indices. `mk_text_size` gives the text size of that number or panics if it does not fit, `usize_to_u32` and `u32_to_usize` return the same number when it fits (a number too large for `usize_to_u32` panics with debug assertions and gives `u32::MAX` without), and `WithRange::wrap` and `PathId::wrap` keep the range, the path and the value.",
 ["inputs"], "all machine integers", "idx, always and text-size-util have no tests", [c+"idx/src/lib.rs", c+"always/src/convert.rs", c+"text-size-util/src/lib.rs", c+"paths/src/lib.rs"], [("Idx::new / to_usize", c+"idx/src/lib.rs"), ("usize_to_u32 / u32_to_usize", c+"always/src/convert.rs"), ("mk_text_size", c+"text-size-util/src/lib.rs")], observe=["return values and panics"])
prop("U03", "A Name is never empty and keeps its text",
 "`Name::try_new` returns `None` exactly for the empty string and otherwise a name whose `as_str`, `borrow` and display are the given text; `Name::new` returns the same name and panics exactly on the empty string.",
 ["inputs"], "all strings", "str-util has no test", [c+"str-util/src/lib.rs"], [("Name::new / try_new / as_str", c+"str-util/src/lib.rs")], observe=["Name::try_new", "Name::new", "as_str"])
prop("U04", "Literal map and set construction keeps every element and rejects duplicates",
 "`fast_hash::map` and `fast_hash::set` return a collection containing exactly the given entries, each key with its given value, and panic exactly when two given keys are equal. `map_with_capacity` and `set_with_capacity` return empty collections.",
 ["inputs"], "all arrays, all lawful keys", "fast-hash has no test", [c+"fast-hash/src/lib.rs"], [("map, set, map_with_capacity, set_with_capacity", c+"fast-hash/src/lib.rs")], observe=["returned collections", "panics"])
prop("U05", "Diagnostic codes and severities convert faithfully",
 "A `Code` made from n converts to the integer n, displays as n in decimal, and parsing that text gives the same code back; text that is not the decimal of a 16-bit number is an error carrying the number parser's error. Severities display as `warning` and `error` with a warning ordered below an error, and a `Diagnostic` displays its range, severity and message in that order separated by `: `.",
 ["inputs"], "all codes, all strings, all diagnostics", "diagnostic has no test", [c+"diagnostic/src/lib.rs"], [("Code::n / as_i32 / from_str, Severity", c+"diagnostic/src/lib.rs")], observe=["as_i32", "from_str", "Display"])
prop("U06", "Timing a call returns exactly that call's result",
 "`elapsed::time` and `elapsed::log` call the given function exactly once and return its result unchanged, for every function and message. The time told is that of this call: at least what passes during it, at most what passes from before `time` or `log` is called until after it returns. `log` logs, after the call, one record at the Info level, the message, `: ` and the time (nothing if the function panics).",
 ["inputs", "programs"], "all closures", "elapsed has no test", [c+"elapsed/src/lib.rs"], [("time, log", c+"elapsed/src/lib.rs")], observe=["return value", "number of calls", "log records"])
prop("U07", "always! returns its condition; a false one panics in debug and is logged without",
 "`always!` evaluates its condition exactly once. If it is true, the result is `true` and nothing is logged. If it is false, a build with debug assertions panics with the given message, and one without returns `false` and logs the message once, as an error. Without a message it is `assertion failed: ` and the condition's text.",
 ["inputs"], "all conditions and messages, both ways of building",
 "always has no test", [c+"always/src/lib.rs"], [("macro always", c+"always/src/lib.rs")], observe=["the macro's value", "panics", "log records"])
# ---------------- syntax-gen
prop("G01", "Generated token names classify every token once and name it faithfully",
 "For every grammar, each token is put into exactly one class: special if it has a special description, otherwise keyword if it contains an ASCII letter, otherwise punctuation. A keyword's name is its Pascal case followed by `Kw`, a punctuation token's name is the concatenation of its characters' names, a special token's name is its own text, and documentation and description are attached to exactly the tokens they were given for.",
 ["inputs", "configurations"], "all grammars, documentation maps and special maps", "syntax-gen has no test", [c+"syntax-gen/src/token.rs"], [("TokenDb::new / get", c+"syntax-gen/src/token.rs")], observe=["generated kind.rs"])
prop("G02", "Generated accessors return the right child and the kind enum is complete",
 "For every grammar, in the generated syntax-tree code the accessor for the n-th occurrence of a child name in a sequence returns the n-th such child, repeated children give an iterator, and labels name their accessor. The generated kind enum lists trivia, keywords, punctuation, special tokens and nodes each once, punctuation is matched longest first, and the keyword and description tables map each text to its own kind.",
 ["inputs", "configurations"], "all grammars", "syntax-gen has no test", [c+"syntax-gen/src/seq.rs", c+"syntax-gen/src/kind.rs", c+"syntax-gen/src/alt.rs", c+"syntax-gen/src/lib.rs"], [("seq::field / get_idx", c+"syntax-gen/src/seq.rs"), ("kind::get", c+"syntax-gen/src/kind.rs")], observe=["generated ast.rs and kind.rs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
