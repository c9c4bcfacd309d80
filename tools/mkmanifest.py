import json
T="deterministic simulation with fault injection: "
N={
"C01":("seeded scheduling of 2-4 caller threads at every basic block and atomic operation; results against lone fresh-process calls","Samples interleavings (sequentially consistent) of the real library code; trusts the coverage/atomic instrumentation to expose preemption points. Also strands callers indefinitely mid-call. A clean batch is evidence, not proof."),
"C02":("seeded operation histories over word streams and clones, moved between simulated threads, against an executable reference model","Every pull is checked against a small model built from lone single-piece calls; the division of a single piece into words is taken from the library itself."),
"C03":("seeded pull histories over token streams, interleaved and abandoned, against an executable reference lexer","The reference lexer is written from the statement; word division and classes of single words come from lone library calls."),
"C04":("seeded truncation, fragmentation and reader crash/restart over a simulated input with durable progress","The reader of the statement is part of the simulator; crash points, cut points and fragment sizes are seeded."),
"C05":("seeded injection of failing allocations and of panicking sinks and visitors at any point inside calls, then comparison with calls that never saw them","A failed allocation unwinds (alloc error hook), as the statement assumes; positions are sampled among those the call really reaches."),
"C06":("seeded arena histories with failing and aborted parses, trees re-read after every disturbance","Trees are compared with lone fresh-arena parses and with the token sequence; whether the grammar's structure is right is not judged."),
"C07":("seeded switching, slow, re-entrant and failing log sinks under seeded scheduling; records against lone calls","Sink faults and level switches are placed at basic-block granularity."),
"C08":("the real tool over a simulated kernel (short transfers, EINTR, terminal sessions, clock jumps) against lone fresh runs","One process per run; the kernel calls are simulated by a preloaded shim."),
"C09":("the real tool over a simulated kernel injecting read and write failures and truncated input where the session really transfers","EBADF is not injected (the standard library ignores it); with --verbose only lasting write failures."),
"C10":("seeded scheduling of nested, concurrent and aborted traversals of one tree","Readings are compared with a lone first reading of the tree."),
"C11":("seeded allocator (placement, recycling, fill) and text placement, against lone calls in a fresh process","Memory is placed by the simulator's allocator and text arena."),
"C12":("accounting allocator over seeded histories with faults, abandonment and repetition","Counts the library's live allocations exactly; growth is judged over repeated windows of identical work."),
"C13":("simulated clocks, random source, environment and thread identity varied by seed","Only the sources the simulator interposes are varied."),
"C14":("seeded long histories of calls inside one simulated process against a fresh one","Up to tens of thousands of cheap calls precede each judged call."),
"C15":("seeded stalls of callers at any basic block, others must finish within their lone step counts","Steps are basic blocks of library code, counted exactly."),
}
NA={
"C16":"A pure function of the text: no schedule, clock, fault, I/O or history enters it, so simulation has nothing to decide; an input-generation technique with a grammar oracle would.",
"C17":"A pure function of the token sequence; no nondeterminism for a simulator to control.",
"C18":"A pure function of one word's spelling; no nondeterminism for a simulator to control.",
"C19":"Pure arithmetic on two integers; no nondeterminism for a simulator to control.",
"C20":"A pure function of the token sequence and grammar; no nondeterminism for a simulator to control.",
"C21":"Totality and cost over all inputs of a pure function; no schedule or fault is involved (finishing in the presence of faults and other callers is C05 and C15).",
}
m={"version":1,"setup_cmd":"./check.sh build",
"hooks":{"guard":"none in the source: RUSTC_WRAPPER=/verif/sim/wrap.sh instruments the library at compile time, only in /verif's own build","enable":"./build.sh lib","source_commits":[]},
"checks":[{"property":k,"quick_cmd":f"VERIF_TIER=quick ./check.sh {k}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {k}","technique":T+t,"level":"exploration","level_note":n} for k,(t,n) in N.items()],
"not_applicable":[{"property":k,"reason":r} for k,r in NA.items()],
"notes":"known_findings.txt lists genuine defects; replays/ receives minimised violations; ./check.sh replay FILE repeats one."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
