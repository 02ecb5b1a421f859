"""What is verified where: units (one Verus file each) and properties."""

UNITS = {
    "topo": {},
    "maps": {},
    "small": {},
    "fmt": {},
    "text": {},
    "textpos": {},
    "paths": {},
    "event": {},
    "sink": {},
    "pattern": {},
    "gen": {},
    "tree": {},
}

CHAIN = [
    "keys hash and compare lawfully and FxBuildHasher is deterministic (vstd obeys_key_model, builds_valid_hashers); a borrowed form and a reference hash and compare as the key",
    "std contracts of HashMap/HashSet/Vec as specified by vstd, and of get_mut, iter_mut, drain, into_iter, extend, collect, flat_map, find_map, rev, all, mem::take as stated in units/maps.vrs and units/std.inc",
    "the non-sync alias Rc = std::rc::Rc (with the feature it is Arc, which has the same interface)",
    "an iterator given to extend or FromIterator is finite and its items are what it yields",
]

EVENT = [
    "calls follow the documented protocol: the node given to exit or abandon was entered and not yet finished, the one given to precede is finished and not preceded yet, `save` before what `ok_since` undoes",
    "drop_bomb's DropBomb only panics when dropped undefused; Vec::drain(..), Iterator::{rev,skip,any}, Option::{is_some_and,expect} as stated in units/event.vrs, units/opt.inc and units/std.inc",
    "fewer than 2^64 tokens are bumped",
]

MATCH = [
    "the language is lawful: Lang's trait contract in units/pattern.vrs (any is any; split returns parts that each constructor in the matrix and the split one include wholly or not at all as covers says, "
    "that hold a value, and that together hold every value of the split one; get_arg_tys gives the types of a constructor's arguments; Clone copies, indices hash lawfully); the unit proves it for one concrete language",
    "the patterns are well-typed (wt in units/pattern.vrs)",
    "termination of useful is not proved: a language of recursive types need not terminate; recursion is less than 2^64 deep",
    "Clone of the three pattern types: each body is proved under the contract that the recursive calls in it go by",
    "std contracts as specified by vstd, and of Vec::{drain,extend}, slice::{first,reverse}, Option::map, Iterator::{map,rev,cloned,chain,zip,collect}, iter::repeat and Clone for pairs as stated in units/pattern.vrs and units/std.inc",
]

PROPS = {
    "T01": {
        "units": {"topo": None},
        "replay": "T01",
        "replay_bin": "topo",
        "theorems": ["topo_sort::graph::get", "topo_sort::Work::run", "topo_sort::graph::Visitor"],
        "note": "Postcondition of graph::get for every graph and element type: Ok exactly when acyclic, order lists every "
                "node once with neighbours first; Err carries a node that reaches itself; no panic, and termination. "
                "Trusted: vstd's BTreeMap/BTreeSet contracts, copied/collect shims, lawful Ord and Clone.",
        "assumptions": [
            "the element type's Ord is a lawful total order (vstd obeys_cmp) and its Clone is the identity",
            "std contracts of BTreeMap/BTreeSet as specified by vstd; Iterator::copied and collect as stated in units/std.inc and units/topo.vrs",
        ],
    },
    "T02": {
        "units": {"topo": r"^(?!.*(CycleError|graph)).*$"},
        "replay": "T02",
        "replay_bin": "topo",
        "theorems": ["topo_sort::Work::run"],
        "note": "Postcondition of Work::run over a ghost history of enter/process/exit calls, for every lawful set and "
                "visitor; internal assertions are discharged as obligations. Trusted: visitor and set laws stated as trait "
                "contracts (proved for the crate's own sets and visitor), vstd collection contracts.",
        "assumptions": [
            "visitors satisfy the trait contract: process only appends Start actions to the work it is given (the type system enforces it: Work has no other public operations), pushed elements stay in one finite set (else the run need not terminate)",
            "elements' Clone is the identity; the set's Default is empty; Set implementations satisfy the trait contract (proved for the three in the crate, given lawful Ord / Hash+Eq)",
        ],
    },
    "C01": {
        "also": r"ChainMap|IntoIter",
        "units": {"maps": r"^(?!(set|ChainMap::(remove|get_mut|iter|iter#lift1|iter_mut|drain|consolidate|consolidate_)|I.*@.*|lemma_(dedup|iter|first_val.*|flat_of|map_cloned|set_step))$).*$"},
        "replay": "C01",
        "replay_bin": "maps",
        "theorems": ["ChainMap::{is_empty,append,insert,get}", "Extend/FromIterator/From for ChainMap", "fast_hash::map"],
        "note": "The stack of layers denotes one map (later layers win); every operation's postcondition is stated over that map, "
                "for all histories. Trusted: vstd's HashMap contracts, Rc, and the shims of units/maps.vrs.",
        "assumptions": CHAIN,
    },
    "C02": {
        "also": r"ChainMap|IntoIter",
        "units": {"maps": r"^(?!(set|ChainMap::(iter|iter#lift1|iter_mut|drain)|I.*@.*|lemma_(dedup|iter|first_val.*|flat_of|set_step))$).*$"},
        "replay": "C02",
        "replay_bin": "maps",
        "theorems": ["ChainMap::{remove,get_mut,consolidate,consolidate_}"],
        "note": "consolidate_ keeps the denoted map and gives write access to exactly it; remove and get_mut are proved from that. "
                "Clones are values of their own: a write goes through Rc::make_mut (assumed contract: copies what is shared).",
        "assumptions": CHAIN + ["Clone of keys and values gives equal keys and values; Rc::make_mut never writes to shared contents"],
    },
    "C03": {
        "also": r"ChainMap|IntoIter",
        "units": {"maps": r"^(?!(set|ChainMap::(remove|get_mut|insert|append|get|is_empty)|Extend@.*|From.*@.*)$).*$"},
        "replay": "C03",
        "replay_bin": "maps",
        "theorems": ["ChainMap::{iter,iter_mut,drain}", "IntoIterator for ChainMap", "lemma_iter"],
        "note": "Each iterator's remaining items are proved to list every entry of the denoted map exactly once. The closure inside "
                "iter is lifted into a function and proved one step at a time; from_fn itself is an assumed contract.",
        "assumptions": CHAIN + ["std::iter::from_fn over a step function yields what the step function's contract says"],
    },
    "U04": {
        "units": {"maps": r"^(map|set|map_with_capacity|set_with_capacity|lemma_(pairs|set|take).*)$"},
        "replay": "U04",
        "replay_bin": "maps",
        "theorems": ["fast_hash::map", "fast_hash::set (each verified twice: when it returns; without equal keys it returns)"],
        "note": "Verified twice from the same source: with assert! as a possible divergence (so returning implies no equal keys), "
                "and with assert! as an obligation (so no equal keys implies no panic), for every N.",
        "assumptions": CHAIN[:2] + ["a false assert! panics"],
    },
    "U01": {
        "units": {"small": r"^(UniqMk::mk|lemma_uniq)$", "fmt": r"^(Display@Uniq::.*|uniq_shown|lemma_dec_(differs|some))$"},
        "files": {"small": r"uniq", "fmt": r"uniq"},
        "replay": "U01",
        "replay_bin": "small",
        "theorems": ["uniq::UniqMk::mk", "lemma_uniq", "uniq_shown"],
        "note": "mk returns the counter and steps it by one without wrapping (machine arithmetic, overflow is an obligation); "
                "lemma_uniq: over every sequence of calls each identifier is larger than all before it; uniq_shown: different ones display differently.",
        "assumptions": ["fewer than 2^32 calls, as the property says; Uniq's derived PartialEq and PartialOrd compare the number", "write! and the display of u32 as stated in units/fmt.inc"],
    },
    "U02": {
        "units": {"small": r"^(Idx::.*|idx_round_trip|WithRange::wrap|mk_text_size|PathId::wrap|usize_to_u32|u32_to_usize|(Try)?From@(TextSize|u32|usize)::.*)$"},
        "replay": "U02",
        "replay_bin": "small",
        "theorems": ["idx::Idx::{new,new_u32,to_usize} and mk_text_size (each twice: when it fits it returns that number; "
                     "if it returns it fitted)", "WithRange::wrap", "PathId::wrap", "always::convert"],
        "note": "Machine integers throughout. The panicking conversions are verified twice from the same source: expect as an "
                "obligation for values that fit, and expect as a divergence for all values.",
        "assumptions": ["usize is 64 bits", "std's u32::try_from(usize) as specified by vstd",
                        "a failing expect panics; log::error! does nothing that matters", "derived PartialOrd of Idx compares the number"],
    },
    "U03": {
        "units": {"fmt": r"^(Name::.*|(Borrow|Display)@Name::.*)$"},
        "files": {"fmt": r"str-util"},
        "replay": "U03",
        "replay_bin": "small",
        "theorems": ["str_util::Name::{new,try_new,as_str}", "Borrow and Display for Name"],
        "note": "new is verified twice from the same source: expect as an obligation for non-empty text, and as a divergence for any.",
        "assumptions": ["SmolStr's as_str, is_empty and Display are those of its text; Into<SmolStr> is a function of its argument",
                        "write! as written out by the extractor (literal pieces and {} arguments in order, stopping at an error)"],
    },
    "U05": {
        "units": {"fmt": r"^(Code::.*|(Display|FromStr)@(Code|Severity|Diagnostic|ParseCodeError|PositionUtf16|RangeUtf16)::.*|RangeUtf16::zero|code_round_trip)$"},
        "files": {"fmt": r"diagnostic|text-pos"},
        "replay": "U05",
        "replay_bin": "small",
        "theorems": ["diagnostic: Code::{n,as_i32}, FromStr and Display for Code, Display for Severity, Diagnostic, ParseCodeError",
                     "text_pos: Display for PositionUtf16 and RangeUtf16", "code_round_trip"],
        "note": "Display is specified by the text written to the formatter (everything written on success; what was written is a prefix "
                "on error). Trusted: std's decimal display and u16::from_str being inverse on u16.",
        "assumptions": ["u16::from_str reads back what Display wrote for a u16 (std)", "integers display as their decimals (std)",
                        "write! as written out by the extractor (literal pieces and {} arguments in order, stopping at an error)",
                        "the formatter's width and similar options are not set (Code::fmt passes them on to u16)"],
    },
    "U06": {
        "units": {"small": r"^(time|log)$"},
        "files": {"small": r"elapsed"},
        "replay": "U06",
        "replay_bin": "small",
        "theorems": ["elapsed::time", "elapsed::log"],
        "note": "The function is an FnOnce, so Rust's types allow at most one call; the contract says the value returned is one that "
                "function may return, so it is called and its value returned unchanged. The time told and the log record are decided by replay only "
                "(clock readings are not ordered in the contract).",
        "assumptions": ["Instant::now and duration_since return (std); log::info! does not panic"],
    },
    "U07": {
        "units": {"small": r"^always_(value|plain|message|plain_total|message_total)$"},
        "files": {"small": r"always"},
        "replay": "U07",
        "replay_bin": "small",
        "theorems": ["always_plain, always_message", "always_plain_total, always_message_total"],
        "note": "The macro's own text is used twice in small functions whose postconditions say what it does: the value, one evaluation, one error "
                "logged iff false and not debug; returning only unless false in a debug build (panics diverge), and no panic in any other case "
                "(panics are obligations). `cfg!(debug_assertions)` is an unknown constant, so both ways of building are covered. The message's "
                "text is decided by replay only.",
        "assumptions": ["log::error! logs one error (a stand-in counts the calls)", "the panicking macros panic with their message (std)"],
    },
    "X07": {
        "units": {"fmt": r"^(sep_seq|comma_seq|lemma_joined)$"},
        "files": {"fmt": r"fmt-util"},
        "replay": "X07",
        "replay_bin": "small",
        "theorems": ["fmt_util::sep_seq", "fmt_util::comma_seq"],
        "note": "Loop invariant over the items written so far; on error the text written is a prefix and nothing is written after it.",
        "assumptions": ["items' Display writes their text and fails only if the writer does or with what it wrote so far; iterators are finite and lawful",
                        "Formatter::write_str writes the text or fails having written a prefix of it"],
    },
    "X03": {
        "units": {"text": r"^St::.*$"},
        "files": {"text": r"str-process"},
        "replay": "X03",
        "replay_bin": "text",
        "theorems": ["str_process::St::{new,cur,cur_idx,bump,bump_while,mark,non_empty_since,since,did_bump_since,eat_prefix,next_str}"],
        "note": "Contracts over the string's UTF-8 bytes (vstd's UTF-8 theory for character boundaries); the bomb in a Marker is "
                "shown defused. non_empty_since is verified twice: assert as an obligation, and as a divergence. next_str needs the "
                "cursor inside the string (else it panics, as documented nowhere); eat_prefix that the index does not overflow.",
        "assumptions": ["strings are at most isize::MAX bytes (Rust)", "the condition of bump_while answers by its call contract and "
                        "keeps no state", "DebugDropBomb::new arms and defuse disarms", "std: Option::{copied,is_some_and}; slice get, index and == as in vstd"],
    },
    "X04": {
        "units": {"text": r"^(snake_to_pascal|pascal_to_snake|lemma_round_trip|round_trip)$"},
        "files": {"text": r"identifier-case"},
        "replay": "X04",
        "replay_bin": "text",
        "theorems": ["identifier_case::snake_to_pascal", "identifier_case::pascal_to_snake", "lemma_round_trip"],
        "note": "Loop invariants against recursive specifications over the characters; the round trip is a lemma about the two "
                "specifications, proved by induction and applied to the real functions.",
        "assumptions": ["std: char::{to_ascii_uppercase,to_ascii_lowercase,is_ascii_uppercase} as in units/char.inc; str::chars, String::push as in vstd"],
    },
    "X05": {
        "units": {"text": r"^(get|code_h2|lemma_(heads|heads_prefix|store|absent|no_dups_prefix|called|open)|lines_of|line_len)$"},
        "files": {"text": r"code-h2"},
        "replay": "X05",
        "replay_bin": "text",
        "theorems": ["code_h2_md_map::get", "code_h2_md_map::code_h2"],
        "note": "Verified twice from the same source: if headings are distinct no assertion fails, and if it returns headings were "
                "distinct; either way the map has exactly the sections, each starting with what the callback returned in a chain of "
                "one call per heading, in order.",
        "assumptions": ["std: str::{lines,strip_prefix,strip_suffix} as in units/text.vrs; HashMap contracts of vstd with &str keys "
                        "(equal characters mean equal keys, hashing is lawful)",
                        "the callback is rendered as a trait with one method whose calls may change its state"],
    },
    "X06": {
        "units": {"text": r"^(get_opt|get|lemma_(name_letters|prefix_free|decode))$"},
        "files": {"text": r"char-name"},
        "replay": "X06",
        "replay_bin": "text",
        "theorems": ["char_name::get_opt", "char_name::get", "lemma_name_letters", "lemma_prefix_free", "lemma_decode"],
        "note": "The specification of the table is copied mechanically from get_opt's own body on every run and get_opt is verified "
                "against it; no name being a prefix of another is discharged from that, and unambiguity follows by induction.",
        "assumptions": ["a reached panic! panics"],
    },
    "X01": {
        "units": {"textpos": r"^(?!(PositionDb::lines|LineIndex::lines|lemma_(between_last|laid|ends|marks|starts_all)|x_(once|again|part)|LinesShim.*|get|fresh|apply1|apply_all|lemma_(px|px1|step)|x_replace_range|x_rposition|x_take_string)$).*$"},
        "files": {"textpos": r"text-pos"},
        "replay": "X01",
        "replay_bin": "pos",
        "theorems": ["PositionDb::{position_utf16,text_size_utf16,range_utf16,text_range_utf16,end_position_utf16,len}", "round_trip", "round_trip_back"],
        "note": "Every conversion's postcondition is stated over the characters of the text (offset, line and UTF-16 column of the k-th "
                "character); the two round trips and the refusals follow for all texts. line-index's own source, of the version that is "
                "locked, is verified along with it (both scans, try_line_col, line, offset, to_wide, to_utf8), and so is text-size's. Assumed: the five vector "
                "instructions, HashMap::entry, partition_point.",
        "assumptions": [
            "the vector instructions _mm_{loadu_si128,set1_epi8,cmplt_epi8,cmpeq_epi8,movemask_epi8} do what Intel's manual says (both scans of line-index are verified over them); HashMap::entry().or_default().push(), slice::partition_point on a partitioned slice, Option::into_iter, and the character at a boundary of a &str, as stated in units/textpos.vrs; nohash_hasher's hasher is lawful",
            "derived comparison of TextSize compares the number, derived PartialEq is structural equality",
            "texts are shorter than 4 GiB (LineIndex::new asserts it)",
        ],
    },
    "X08": {
        "units": {"textpos": r"^(PositionDb::(new|lines)|LineIndex::(new|lines)|(\w+@)?Text(Size|Range|Len).*|analyze_source_file.*|lemma_(skip|skip_off|bytes|ascii|plain|lowest|high|zeros|all|sign|line_size|between_last|laid|ends|marks|starts|starts_mono|starts_all))$"},
        "replay": "X08",
        "replay_bin": "pos",
        "theorems": ["PositionDb::lines", "LineIndex::lines"],
        "note": "The postcondition (`cut`) says that the ranges lie one after another from the start to the end, none of them empty, that every "
                "end but the last is where a line starts, and that every line start strictly inside is such an end; for every text and every range. "
                "line-index's own source is verified along with it. Assumed: the iterator adapters, partition_point, and the vector instructions as for X01.",
        "assumptions": [
            "Iterator::{chain,zip,skip,map,filter,copied}, iter::once, Clone of such iterators and slice::partition_point on a partitioned slice as stated in units/textpos.vrs; the vector instructions as for X01",
            "texts are shorter than 4 GiB (LineIndex::new asserts it)",
        ],
    },
    "X02": {
        "units": {"textpos": r"^(?!(PositionDb::lines|LineIndex::lines|lemma_(between_last|laid|ends|marks|starts_all)|x_(once|again|part)|LinesShim.*)$).*$"},
        "replay": "X02",
        "replay_bin": "pos",
        "theorems": ["apply_changes::get", "lemma_step", "lemma_px"],
        "note": "get's postcondition: the contents are the changes applied one after another; the loop invariant says for which lines the "
                "cached index may stand for one of the current text. Assumed: String::replace_range, rposition, mem::take, and X01's assumptions.",
        "assumptions": [
            "String::replace_range, Iterator::rposition and mem::take as stated in units/textpos.vrs; the assumptions of X01",
            "every text on the way is shorter than 4 GiB",
        ],
    },
    "P01": {
        "units": {"paths": r"CleanPath|root|current_dir|^lemma_norm"},
        "replay": "P01",
        "replay_bin": "paths",
        "theorems": ["CleanPathBuf::{new,push,new_unchecked}", "CleanPath::{join,parent}", "MemoryFileSystem::root", "RealFileSystem::current_dir"],
        "note": "Every constructor's postcondition says clean: absolute, only normal components after the root, for every path; new is None "
                "exactly on relative paths; lemma_norm_id gives the unchanged part. Assumed: std::path's contracts (Unix), the reference cast "
                "in CleanPath::new_unchecked (unsafe).",
        "assumptions": [
            "std::path on Unix (components, push, pop, parent, starts_with, is_absolute, Eq over components) as stated in units/paths.vrs; two paths with equal components are taken to be equal",
            "CleanPath::new_unchecked's unsafe cast (repr(transparent)) keeps the path",
        ],
    },
    "P02": {
        "units": {"paths": r"^(Store|Idx|XBorrow)|^lemma_(inv|key|in|push)$"},
        "replay": "P02",
        "replay_bin": "paths",
        "theorems": ["Store::{get_id,get_id_owned,get_path,combine,new}"],
        "note": "Store invariant (the two directions agree, ids count the paths) kept by every method, old ids keep their paths, and combine's "
                "calls are stated over the callback's ghost history. Assumed: vstd's HashMap contracts, lawful hashing of clean paths, and that "
                "more than 2^32 paths panic (Idx::new).",
        "assumptions": [
            "std::path on Unix (components, push, pop, parent, starts_with, is_absolute, Eq over components) as stated in units/paths.vrs; two paths with equal components are taken to be equal",
            "the derived Hash and Eq of CleanPath and CleanPathBuf are lawful and agree with each other; FxBuildHasher is deterministic; derived Clone copies",
            "the callback given to combine does not unwind; FnMut is rendered as a trait with a ghost history",
        ],
    },
    "P03": {
        "units": {"paths": r"CleanPath|^lemma_norm"},
        "replay": "P03",
        "replay_bin": "paths",
        "theorems": ["CleanPathBuf::{new_unchecked,push}", "CleanPath::join"],
        "note": "new_unchecked's postcondition: the components are norm of the given ones (a fold: keep normal, drop `.`, `..` removes the last "
                "kept); push and join are norm of std's push. Assumed: std::path's contracts (Unix).",
        "assumptions": [
            "std::path on Unix (components, push, pop, parent, starts_with, is_absolute, Eq over components) as stated in units/paths.vrs; two paths with equal components are taken to be equal",
        ],
    },
    "P04": {
        "units": {"paths": r"MemoryFileSystem|^lemma_kept|XBorrow|into_path_buf|as_path"},
        "replay": "P04",
        "replay_bin": "paths",
        "theorems": ["MemoryFileSystem::{read_to_string,read_to_bytes,is_file,read_dir,current_dir}"],
        "note": "Postconditions over the content map for every path asked for. Assumed: BTreeMap get, contains_key, keys; filter_map and "
                "collect; String::into_bytes; std::path's contracts (Unix).",
        "assumptions": [
            "std::path on Unix (components, push, pop, parent, starts_with, is_absolute, Eq over components) as stated in units/paths.vrs; two paths with equal components are taken to be equal",
            "BTreeMap::{get,contains_key,keys}, Iterator::{filter_map,collect}, String::into_bytes as stated in units/paths.vrs; the order of paths is lawful",
        ],
    },
    "P05": {
        "units": {"paths": r"RealFileSystem"},
        "replay": "P05",
        "replay_bin": "paths",
        "theorems": ["RealFileSystem::{read_to_string,read_to_bytes,is_file,read_dir,current_dir}"],
        "note": "Each method equals what std's function gives for the same path, for every path; read_dir is the first error, or every entry's "
                "path in order; current_dir is norm of the system's. Assumed: std::fs and std::env do as the system says (uninterpreted), Iterator's map "
                "and collect. Replay compares with directories it makes itself, in a scratch directory.",
        "assumptions": [
            "std::fs::{read_to_string,read,read_dir}, DirEntry::path, Path::is_file and std::env::current_dir are functions of the path as long as nothing changes on disk (units/paths.vrs, uninterpreted)",
            "Iterator::map and collecting Results as stated in units/paths.vrs; std::path on Unix as for P01",
        ],
    },
    "E01": {
        "also": r"Parser::|Exited::",
        "units": {"event": r"^(?!(Parser::(save|ok_since|peek_n|at|at_n|eat)|Exited::is_empty|restored|ntok_range)$).*$"},
        "replay": "E01",
        "replay_bin": "event",
        "theorems": ["Parser::{finish,eat_trivia,token}", "Parser::{new,enter,exit,precede,abandon,bump,error,peek}", "inv_new", "inv_kept"],
        "note": "Parser::finish's postcondition over the ghost log of any sink, for every list of recorded events that satisfies the parser's "
                "invariant: balanced, a prefix of the tokens with exactly the bumped ones, errors between the same tokens, the nodes around "
                "every bumped token those recorded (a preceding node around the preceded one), no node without a token, no token outside of all nodes unless one was bumped there, no trivia first in a "
                "node inside another, trivia after the last token sent once a node was opened or closed inside another. Every recording method "
                "keeps the invariant. Its internal assertions and index accesses are discharged as obligations (termination too).",
        "assumptions": EVENT + ["a sink's methods only do what their ghost log says (any implementation has such a log); `&mut dyn Sink` is Verus' dyn"],
    },
    "E02": {
        "also": r"Parser::|Exited::",
        "units": {"event": r"^(Parser::(save|ok_since)|restored)$"},
        "replay": "E02",
        "replay_bin": "event",
        "theorems": ["Parser::{save,ok_since}", "restored"],
        "note": "save's and ok_since's postconditions are exact; lemma restored: if the events before the save are untouched (the documented "
                "condition) an ok_since that is false gives back the parser as it was, and so everything it does later is the same.",
        "assumptions": EVENT,
    },
    "E03": {
        "also": r"Parser::|Exited::",
        "units": {"event": r"^(Parser::(new|peek|peek_n|at|at_n|bump|eat|error)|ahead_step)$"},
        "replay": "E03",
        "replay_bin": "event",
        "theorems": ["Parser::{peek,peek_n,at,at_n,bump,eat,error}"],
        "note": "Postconditions over the sequence of tokens ahead that are not trivia, for all tokens, positions and n with n plus the number of "
                "tokens below 2^64; looking ahead leaves that sequence, the events and the count as they were.",
        "assumptions": EVENT + ["the kinds' Eq is equality"],
    },
    "E04": {
        "also": r"Parser::|Exited::",
        "units": {"event": r"^(Parser::(new|enter|exit|precede|bump|save|ok_since)|Exited::is_empty|ntok_.*|root_.*|kept_by|pushed|finished.*|preceded.*|inv_.*|restored)$"},
        "replay": "E04",
        "replay_bin": "event",
        "theorems": ["Parser::exit (is_empty)", "Parser::{enter,precede,bump}", "Exited::is_empty"],
        "note": "exit's postcondition: is_empty exactly if no token event lies between where the node begins (with the nodes it was made to "
                "precede) and its end; the counts that enter and precede put into their markers are invariants.",
        "assumptions": EVENT,
    },
    "E05": {
        "units": {"sink": None},
        "replay": "E05",
        "replay_bin": "event",
        "theorems": ["Sink for RowanSink::{enter,token,exit,error}", "RowanSink::{finish,extend_errors,default}", "lemma_text"],
        "note": "Every method steps a predicate over the history of calls, and finish's postcondition places every error of the history by "
                "the stated rule; the builder is told exactly the calls. text-size's own source is verified along with it. Assumed: rowan's GreenNodeBuilder.",
        "assumptions": [
            "rowan's builder makes the tree it is told, whose text is that of its tokens; derived comparison of TextSize compares the number",
            "the text is shorter than 4 GiB; kinds' Clone copies",
            "Vec::{into_iter,extend}, Iterator::map, mem::take as stated in units/sink.vrs",
        ],
    },
    "M01": {
        "also": r"get_pat_indices",
        "units": {"pattern": r"^(?!(get_pat_indices|.*_strict|lemma_(vx|vxs|occ.*|or_ids|con_ids|least|solid.*|or_sense|con_sense))$).*$"},
        "replay": "M01",
        "replay_bin": "pattern",
        "theorems": ["check", "useful", "specialize", "Matrix::push", "expand_or", "lemma_sp", "lemma_con_done", "lemma_or_done"],
        "note": "check's postcondition for every language and every well-typed list of patterns: missing is empty exactly if every value is "
                "matched, no error if the language has none, no panic. The parts: a row matches exactly if its specialisation matches the "
                "unpacked value; the parts of a split leave out no value; an or-pattern is all its alternatives. Assumed: Lang's laws.",
        "assumptions": MATCH,
    },
    "M02": {
        "units": {"pattern": r"^(?!(.*_strict|lemma_(solid.*|or_sense|con_sense))$).*$"},
        "replay": "M02",
        "replay_bin": "pattern",
        "theorems": ["check", "useful", "get_pat_indices", "lemma_or_ids", "lemma_con_ids", "lemma_arms_step"],
        "note": "check's postcondition, for indices anywhere in the patterns and not only distinct ones: unreachable holds exactly the "
                "indices through which no value is matched first. Carried through every specialisation and every alternative.",
        "assumptions": MATCH,
    },
    "M03": {
        "also": r"get_pat_indices",
        "units": {"pattern": r"^(?!(get_pat_indices|.*_strict|lemma_(vx|vxs|occ.*|or_ids|con_ids|least|solid.*|or_sense|con_sense))$).*$"},
        "replay": "M03",
        "replay_bin": "pattern",
        "theorems": ["check", "useful", "specialize", "lemma_wit", "lemma_wit_hits", "lemma_missing"],
        "note": "check's postcondition over the witnesses that useful builds: of the type, without or-patterns, matching a value that no given "
                "pattern matches, and only such values if split never returns the rest.",
        "assumptions": MATCH,
    },
    "M05": {
        "also": r"get_pat_indices|expand_or|(.*@)?(Matrix|Row|NonEmptyRow|Pat|RawPat|ConPat)::.*|Useful::.*",
        "units": {"pattern": r"^(.*_strict|lemma_(solid.*|or_sense|con_sense))$"},
        "replay": "M05",
        "replay_bin": "pattern",
        "theorems": ["check_strict", "useful_strict", "specialize_strict", "lemma_or_sense", "lemma_con_sense"],
        "note": "alg.rs a second time, under contracts for patterns that need not make sense: with a language that may be asked about anything and "
                "has an error for what does not go together, a result is returned only if every pattern makes sense (wt), and no panic is "
                "reached whatever the patterns. That an error of the language is handed on, as it is, is decided by replay only.",
        "assumptions": [a for a in MATCH if not a.startswith("the patterns")] + [
            "the language is strict (Sem::strict in units/pattern.vrs; the unit proves it can be had): its split and get_arg_tys are lawful for every constructor and type, "
            "with an error for a constructor that is not of the type, and split returns at least one constructor otherwise"],
    },
    "M04": {
        "units": {"fmt": r"^(Display@(Pat|RawPat|ConPat|CheckError)::.*|texts_step|pat_raw)$"},
        "files": {"fmt": r"pattern-match"},
        "replay": "M04",
        "replay_bin": "pattern",
        "theorems": ["Display for Pat, RawPat, ConPat, CheckError", "pat_raw"],
        "note": "Postcondition over the text written to the formatter (everything on success; a prefix, and nothing after it, on error), with "
                "loop invariants over the arguments and alternatives written so far. As with Clone, the calls between the three impls go by their "
                "contracts, and the bodies are checked against these in a second copy of the same source.",
        "assumptions": ["the constructor's Display writes its text and fails only if the writer does or with what it wrote so far",
                        "write! as written out by the extractor (literal pieces and {} arguments in order, stopping at an error)",
                        "termination of the recursion between the impls (patterns are finite trees)"],
    },
    "G01": {
        "units": {"gen": r"^(snake_to_pascal|get_opt|get|char_name|TokenDb.*)$"},
        "replay": "G01",
        "replay_bin": "gen",
        "budget": {"quick": 45, "thorough": 400},
        "theorems": ["TokenDb::{new,get}", "snake_to_pascal", "char_name::get"],
        "note": "Postcondition of TokenDb::new for every grammar and both maps: each class map has exactly the grammar's tokens of its class, each "
                "with its name, description and documentation; the inserts' assertions are discharged; TokenDb::get returns that entry. "
                "Assumed: ungrammar lists each token once; str-keyed HashMap lookup; Iterator::any, Option::or_else. That kind.rs says what the "
                "TokenDb says is replayed only here (see G02).",
        "assumptions": [
            "ungrammar's Grammar: tokens() yields each token of the grammar once and indexing gives its text (units/gen.vrs)",
            "the documentation maps have at most one entry per text and find it by text (HashMap<&str, _>::get); tokens hash and compare lawfully (derived), hashers are deterministic",
            "Iterator::any, Option::{or_else,map}, char's ASCII methods as stated in units/gen.vrs, units/opt.inc, units/char.inc or vstd",
        ],
    },
    "G02": {
        "units": {"tree": r"^(get|get_idx|field|get_nodes|get_tokens|unwrap_node|unwrap_token|Modifier::is_regular|go|ident|Token::name_ident|TokenDb::get|pascal_to_snake|lemma.*|G::.*)$"},
        "replay": "G02",
        "replay_bin": "gen",
        "budget": {"quick": 45, "thorough": 400},
        "theorems": ["syntax_gen::get", "kind::get", "seq::get", "seq::field", "seq::get_idx", "alt::get_nodes", "alt::get_tokens", "ast::get", "write_rs_tokens::go"],
        "note": "Postcondition of syntax_gen::get for every grammar that parses: ast.rs is written with one type per node, whose accessors are, "
                "rule by rule, .. .next() / .nth(n) of the children of that name with n = the number of earlier rules with that child, the whole "
                "iterator for a repeated child, named by the label or else by the snake-cased child name; kind.rs is written with the kinds of trivia, "
                "keywords, punctuation, special tokens and nodes, each map's tokens once, longest text first, and its tables from those same entries. "
                "What is proved is the code (token for token) that is generated; that Rust gives this code the meaning said is replayed: the generated "
                "files are compiled and run on random trees.",
        "assumptions": [
            "quote! is expanded by the extractor (literal tokens, interpolations, repetitions in order), format_ident! makes the identifier of its text or panics",
            "ungrammar's parser: node and token references in rules are the grammar's own; Grammar::iter lists each node once",
            "proc_macro2 identifiers are equal exactly when their texts are; &str likewise",
            "std: HashMap entry/into_iter/into_values, sort_unstable(_by_key) as a permutation sorted by the key, Iterator map/filter_map/chain/cloned/collect, as stated in units/tree.vrs; derived Hash/Eq lawful, hashers deterministic",
            "syn::parse2, prettyplease::unparse, std::fs::write: the text written is the formatted code (uninterpreted)",
        ],
    },
}

NOT_APPLICABLE = {}
