import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

ALL=["src/rules.rs","src/decompose/mod.rs","src/lex/mod.rs","src/lex/selmaho/classify.rs","src/parse/cst/mod.rs","src/parse/cst/rules/mod.rs"]
LVL=("PARSER_LEVEL","per-thread nesting depth of rule tracing; the library's only static","src/rules.rs")

p("C01","Concurrent callers never influence one another's results",
 "Whatever other threads are doing inside the library at the same time, and wherever they are suspended, every call that decomposes, lexes, classifies, parses or traverses returns exactly what it returns when it is the only call ever made in the process. This includes calls that share the same text, the same token slice or the same finished tree.",
 ["schedules","inputs"],"every interleaving, at any instruction boundary, of 2 to 4 threads each making any sequence of library calls on any texts, shared or private",
 "The tests call the library from independent test threads with no shared texts and no control over the interleaving, and each test asserts one fixed result; a value leaking from one thread's call into another's needs a particular interleaving.",
 ALL,[("no shared mutable state: pure functions over borrowed text plus one thread-local","src/rules.rs: PARSER_LEVEL"),("all parse allocation goes to the caller's arena","src/parse/arena.rs")],
 ["return value of every public call: decompose, Decomposer::{next,next_no_decomposition}, lex, Selmaho::classify, Cst::parse, TreeNode traversal"],[LVL])

p("C02","A word stream is correct under every history of operations on it",
 "After any sequence of ordinary pulls, raw (undecomposed) pulls, skips, size queries, clones, abandonments and moves between threads, a word stream yields what the simple sequential reading of the text says: text split at pauses; an ordinary pull gives the next word of the current piece, skipping pieces that are empty or only commas; a raw pull gives the whole unread remainder of the current piece, or the next piece even if empty; and a piece's words are those it has alone. Words come in text order, lie inside the text and omit nothing but pauses and commas; the reported size bounds are never contradicted by what the stream then yields, a clone continues exactly like its original without affecting it, and an exhausted stream stays exhausted.",
 ["histories","schedules","inputs"],"every operation sequence on any number of interleaved streams and clones, split over any threads, over any text",
 "Unit tests collect a fresh stream front to back, plus one documented mixed sequence; they do not clone, query sizes, or mix raw and ordinary pulls across piece boundaries.",
 ["src/decompose/mod.rs"],[("peekable chunk iterator plus buffered words of the current chunk","Decomposer::{next,next_no_decomposition,size_hint} in src/decompose/mod.rs")],
 ["each value returned by next, nth, count, last, next_no_decomposition, size_hint, clone"],
 [("current_chunk","words of the current piece not yet handed out","src/decompose/mod.rs: Decomposer"),("chunks","pieces not yet reached","src/decompose/mod.rs: Decomposer")])

p("C03","A token stream is correct under every pull history, including quotes",
 "However a consumer spaces, interleaves, skips, moves between threads or abandons its pulls on any number of token streams, each stream yields the sequence given by the sequential reading of its text: words with their class; after a delimited-quote initiator the opening delimiter, the quoted text if any, and the closing delimiter found by comparing raw pieces without commas (twice, sharing the middle delimiter, for the two-part quote); after a pause-quote initiator the next raw piece as quoted text; and nothing after an end-of-text word. An unfinished quote gives exactly one error naming the initiator (and the opening delimiter of the part left unclosed), and after an error or the end the stream yields nothing forever.",
 ["histories","schedules","inputs"],"every pull sequence over any number of concurrently open token streams, over texts that mix all quoting words, delimiters, commas, empty pieces and truncated quotes",
 "Tests collect one fresh stream at a time for a few quoting texts; they never pull past the end or error, interleave streams, skip, or abandon mid-quote.",
 ["src/lex/mod.rs","src/decompose/mod.rs"],[("explicit state machine over the word stream","Lexer::{next_normal,next_delimited_quote,next_pause_delimited_quote} in src/lex/mod.rs")],
 ["each item returned by the iterator from lex"],
 [("State","what the next pulls must yield: normal, delimited quote, queued tokens, pause quote, done","src/lex/mod.rs: enum State"),("how_many","quote parts still to read","src/lex/mod.rs: DelimitedQuoteState")])

p("C04","Truncated or fragmented text: no settled token changes, is lost or repeated",
 "If text is cut off at any point, every token (or whole quote) that ended at or before the last pause ahead of the cut is produced exactly as for the whole text, and an open quote at the cut is reported as an error naming its initiator, never as a finished quote. A reader that receives text in arbitrary fragments, keeps only tokens settled in this sense, crashes at any moment and restarts from its last recorded pause boundary outside any quote ends up with exactly the whole text's tokens: none lost, repeated or altered.",
 ["crash_points","inputs","histories"],"every cut position, every fragmentation, every crash and restart point of an incremental reader, for any text including all quote kinds",
 "Tests lex only complete texts plus three fixed unclosed quotes; no test cuts a text or resumes one.",
 ["src/lex/mod.rs","src/decompose/mod.rs"],[("pauses are the only word context: pieces are decomposed independently","Decomposer::next in src/decompose/mod.rs"),("unclosed-quote errors","src/lex/mod.rs: Error")],
 ["items returned by lex on every prefix and suffix"])

p("C05","An aborted call leaves no trace",
 "If a call is cut short by unwinding at any point inside the library (an allocation that fails, or a panic raised by the caller's log sink or tree visitor), every later call on the same thread or any other, on other streams, in the same arena, and on trees already built, returns exactly what it would have returned had the aborted call never been made. A failed allocation either aborts the call or has no effect on its result; it never yields a wrong result, a hang or a process crash.",
 ["fault_sequences","crash_points","schedules"],"every allocation, log record and visitor callback inside every call as the failure point, alone and repeated many times, with other threads running, followed by any further calls",
 "No test injects a failure; all of them run calls to completion.",
 ["src/rules.rs","macros/src/lib.rs","src/decompose/mod.rs","src/lex/mod.rs","src/parse/arena.rs","src/parse/tree_node.rs","src/parse/cst/rules/helpers.rs"],
 [("state is committed only after the fallible step","Decomposer::next in src/decompose/mod.rs"),("trace depth restored when a rule is left","debug_rule_start!/debug_rule_end! in src/rules.rs"),("bump allocation never moves existing nodes","src/parse/arena.rs")],
 ["return values of all calls after the abort","trace records after the abort"],[LVL])

p("C06","Trees stay complete and unchanged; an arena's history is invisible",
 "Every successful parse gives a tree whose leaves are exactly the input tokens in order, with every node's extent and experimental mark agreeing with the tokens under it. The tree never changes afterwards, whatever else is parsed, fails or is aborted in the same arena, and the outcome of a parse (tree or error) does not depend on what the arena was used for before; the arena's reported size never decreases.",
 ["histories","fault_sequences","inputs"],"every sequence of successful, failing and memory-starved parses of any token slices sharing arenas, with all trees re-read at any later time",
 "Tests only check that a parse returns Ok in a fresh arena; none looks at a tree, reuses an arena, or parses after a failure.",
 ["src/parse/arena.rs","src/parse/cst/mod.rs","src/parse/cst/rules/mod.rs","src/parse/cst/rules/helpers.rs","src/parse/cst/rules/selmaho.rs","src/parse/tree_node.rs","macros/src/derive_parse.rs","macros/src/derive_tree_node.rs"],
 [("append-only bump arena borrowed for the tree's lifetime","src/parse/arena.rs"),("all_consuming root rule","Cst::parse in src/parse/cst/mod.rs"),("derived TreeNode visits every field in order","macros/src/derive_tree_node.rs")],
 ["TreeNode::{for_each_child,start_location,end_location,experimental,name}","Cst::parse result","Arena::allocated_bytes"])

p("C07","Diagnostics never affect results and are never attributed to the wrong call",
 "Whether tracing is off, on, switched at any instant, slow, re-entrant (the sink calls the library) or failing, every call returns the same result. With tracing on, the records a call emits are the same, including nesting depth, as when the call runs alone in a fresh process, whatever happens on other threads and whatever was aborted before; while tracing is being switched, they are a subsequence of those.",
 ["schedules","fault_sequences","histories"],"every moment of switching the level, every sink behaviour at every record, every interleaving of traced calls and every earlier abort",
 "Tests never install a logger, so none of the tracing code is observed.",
 ["src/rules.rs","macros/src/lib.rs","src/decompose/mod.rs"],
 [("thread-local nesting depth maintained around every traced rule","debug_rule_start!/debug_rule_end! in src/rules.rs"),("attribute macro wrapping each rule","debug_rule in macros/src/lib.rs")],
 ["records reaching the log facade's sink","results of the traced calls"],[LVL])

p("C08","CLI output depends only on the text, not on how it is delivered",
 "For a given input the command-line tool prints the same result however the bytes arrive and leave: any split of reads and writes into short transfers, interrupted calls and delays. At a terminal each line's output is exactly what that line gives alone in a fresh process, whatever lines came before, and verbose diagnostics change no result.",
 ["schedules","fault_sequences","histories","inputs"],"every segmentation, interruption and delay of stdin and stdout, and every sequence of lines in an interactive session, for every combination of output options",
 "No test runs the command-line tool.",
 ["examples/main.rs","src/decompose/mod.rs","src/lex/mod.rs","src/parse/cst/mod.rs"],
 [("reads to end of input or line by line, trims, prints each result","repl and main in examples/main.rs"),("fresh arena and no carried state per line","main in examples/main.rs")],
 ["bytes written to stdout, exit status"])

p("C09","The CLI never reports success after an I/O failure",
 "If reading the input or writing a result fails at any point (device error, broken pipe, full disk, input that ends inside a character or is not text), the command-line tool ends with a failure status or by signal and does not print results as if all were well: whatever reached stdout is a prefix of the correct output, and no result is printed for input that could not be fully read.",
 ["fault_sequences","crash_points","inputs"],"every read and write operation as the point of failure, every error kind, after any amount of successful transfer",
 "No test runs the command-line tool or injects an I/O error.",
 ["examples/main.rs"],[("read errors are unwrapped and output macros panic on write errors","repl and main in examples/main.rs")],
 ["exit status and bytes on stdout"])

p("C10","A finished tree can be read by many readers, nested and aborted, consistently",
 "Any number of threads may read the same tree at the same time, nest traversals inside one another's callbacks, and stop a traversal at any point by unwinding out of the callback; every complete reading reports the same nodes, names, extents, marks and order as a lone first reading.",
 ["schedules","fault_sequences","histories"],"every interleaving of concurrent readers of one tree, every nesting of traversals and every abort point",
 "No test traverses a tree.",
 ["src/parse/tree_node.rs","macros/src/derive_tree_node.rs","src/parse/cst/rules/helpers.rs","src/parse/cst/rules/selmaho.rs"],
 [("traversal is a read-only walk over immutable nodes","TreeNode::for_each_child in src/parse/tree_node.rs and the derive")],
 ["sequence of nodes reported by for_each_child with name, experimental, start_location, end_location"])

p("C11","Results do not depend on where texts and memory are placed or reused",
 "A call's result depends only on the content of its text or tokens: not on the address or alignment of the buffer, what lies next to it, whether the same address or length held other content in an earlier call, nor on how the allocator places, recycles or fills memory.",
 ["histories","configurations","schedules"],"every placement, overlap, in-place rewriting and address reuse of input buffers between calls, on any threads, and every allocator layout and recycling policy",
 "Tests pass string literals at distinct fixed addresses and never reuse a buffer or control the allocator.",
 ["src/decompose/mod.rs","src/span.rs","src/rules.rs","src/lex/mod.rs","src/parse/cst/error.rs","src/parse/arena.rs"],
 [("pointer differences taken only within one input","Span::from_embedded_slice in src/span.rs; seq! in src/rules.rs"),("furthest-error choice compares slice addresses within one token slice","WithLocation::or in src/parse/cst/error.rs")],
 ["return values of calls on relocated, rewritten and recycled buffers"])

p("C12","Memory is conserved: dropping everything returns everything",
 "When the streams, arenas, trees and results a program obtained have been dropped, all memory the library allocated for them has been returned, also for streams dropped half-read, calls that ended in errors and calls that were aborted. Repeating the same work does not make the memory held by the library grow without bound.",
 ["histories","fault_sequences"],"every sequence of calls, partial consumption, failed parses, aborted calls and drops, repeated any number of times",
 "Tests never measure memory and exit after one use.",
 ["src/decompose/mod.rs","src/lex/mod.rs","src/parse/arena.rs","src/parse/cst/rules/helpers.rs","src/parse/cst/rules/mod.rs"],
 [("ownership: nodes with heap data are not placed in the arena, which does not run destructors","src/parse/cst/rules/*.rs, many0/many1 in helpers.rs"),("no caches or registries","whole crate")],
 ["live bytes in the allocator seam after all handles are dropped, across repetitions"])

p("C13","Results do not depend on time, randomness, environment or thread identity",
 "The same call gives the same result whatever the clocks say or do between calls (including jumps backwards and forwards), whatever the system's random source returns, whatever the environment variables and working directory are, and whichever thread of whatever name, age or stack size makes it.",
 ["configurations","fault_sequences","histories"],"every value returned by clocks, random source and environment at every query, and every assignment of calls to fresh, old, named or recycled threads",
 "Tests run once under one ambient environment, in which nothing varies.",
 ALL,[("the library queries no ambient source","whole crate")],
 ["return values, including order inside error descriptions and trees"])

p("C14","Past calls do not change later ones, however many there were",
 "The result of a call does not depend on which or how many calls were made before it, on this or other threads, successful or failing: a process that has already made tens of thousands of calls on any texts answers like one that has just started.",
 ["histories","inputs"],"every history of earlier calls, up to tens of thousands, of any mixture of operations and texts including near-identical ones, before the observed call",
 "Each test makes a handful of calls and asserts fixed texts; no test repeats a call after a long or adversarially similar history.",
 ALL,[("no caches, counters or interning tables kept between calls","whole crate")],
 ["return values after long histories compared with a fresh process"],[LVL])

p("C15","A suspended or re-entrant caller never blocks anyone",
 "A thread suspended at any point inside a library call, for however long, does not prevent other threads' calls from completing, and a library call made from inside a log sink or tree visitor completes too. The number of steps a call takes does not depend on other callers: once it is allowed to run, it returns within the steps it needs alone.",
 ["schedules","fault_sequences"],"every suspension point and set of suspended callers, every nesting of calls inside callbacks",
 "Tests cannot suspend a thread inside a call and have no notion of steps.",
 ALL,[("no locks or other blocking primitives","whole crate"),("thread-local depth counter allows nesting","src/rules.rs: PARSER_LEVEL")],
 ["completion and step count of each call while others are suspended"],[LVL])

# not applicable to the technique
p("C16","Words are divided as Lojban morphology prescribes",
 "For every text, the division into words is the one the Lojban morphology (cmavo, gismu, lujvo, fu'ivla, cmevla, with stress and comma rules) prescribes.",
 ["inputs"],"every text","Tests sample fixed words against expected divisions.",
 ["src/rules.rs","src/decompose/mod.rs"],[("PEG morphology rules","src/rules.rs")],["decompose"])
p("C17","Exactly the grammatical texts parse, with the grammar's structure",
 "A token sequence parses if and only if it is grammatical, and the tree nests as the grammar says.",
 ["inputs"],"every token sequence","Tests sample fixed sentences and check only that they parse.",
 ["src/parse/cst/rules/mod.rs","src/parse/cst/rules/mekso.rs","src/parse/cst/rules/connectives.rs","macros/src/derive_parse.rs"],[("derived recursive-descent parser","macros/src/derive_parse.rs")],["Cst::parse"])
p("C18","Spelling variants of a word get the same class",
 "Classification ignores letter case, commas and the choice between h and apostrophe, and every word gets the class its spelling determines.",
 ["inputs"],"every word","Tests sample fixed words.",
 ["src/lex/selmaho/classify.rs","src/lex/selmaho/display.rs"],[("normalising lookup","src/lex/selmaho/classify.rs")],["Selmaho::classify"])
p("C19","Span arithmetic is exact",
 "Slicing, joining, overlap and betweenness of spans agree with the sets of byte positions they denote.",
 ["inputs"],"every pair of spans and text","Doc examples sample a few spans.",
 ["src/span.rs"],[("integer comparisons","src/span.rs")],["Span methods"])
p("C20","A parse error points at the furthest point reached",
 "A failed parse reports the furthest position any alternative reached and the union of what was expected there.",
 ["inputs"],"every ungrammatical token sequence","No test looks at a parse error.",
 ["src/parse/cst/error.rs"],[("WithLocation::or","src/parse/cst/error.rs")],["Cst::parse error"])
p("C21","Every text is processed without panic and in reasonable time",
 "Decomposing, lexing and parsing any text returns without panicking or overflowing the stack, in time and depth reasonable for its length.",
 ["inputs"],"every text","Tests sample fixed texts.",
 ALL,[("ordered choice without memoisation","src/rules.rs")],["all public calls"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
