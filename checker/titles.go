package main

// Code generated by tools/gen.py; DO NOT EDIT.

var titles = map[string][2]string{
	"C01": {"A peer's leash is the last block accepted from that peer", "path-partitioned abstract interpretation (value numbering) over go/ssa: every path of every exported operation of the chain store; leash writes are matched by key (prefix and address of the reporter) and value (ID of the accepted block)"},
	"C02": {"Storing a block is one atomic, complete batch", "path-partitioned abstract interpretation (value numbering) over go/ssa: one-batch and completeness obligations on every path of every exported operation; every database write of the package is reached from an analysed root; durability of one leveldb batch is assumed"},
	"C03": {"Only new blocks that attach to a stored block are added", "path-partitioned abstract interpretation (value numbering) over go/ssa: the facts established on each path before each block write"},
	"C04": {"Stored block data is derived from the block and its parent", "path-partitioned abstract interpretation (value numbering) over go/ssa: the value term of every field of every stored record is compared with its specification; base targets are assumed positive 64-bit integers, score arithmetic is exact big-integer arithmetic"},
	"C05": {"The set of heads is exactly the tips of the stored tree", "path-partitioned abstract interpretation (value numbering) over go/ssa: inductive step checked on every path of every insertion, base case at initialisation, over the operations of each batch"},
	"C06": {"Chain store operations are mutually atomic and never block forever", "lock-state typestate analysis over path summaries: abstract lock state on every path of every method; database handle and tables are the guarded state"},
	"C07": {"The longest fork is the leashed chain of greatest score, then most peers", "path-partitioned abstract interpretation (value numbering) over go/ssa: the selection loop is checked against a decision table over all orders of score and peer count, the comparator against the same order; the common-ancestor search itself is the subject of another property; ties of both score and peers are left open"},
	"C08": {"Peer registry operations are mutually atomic and never block forever", "lock-state typestate analysis over path summaries: abstract lock state on every path of every method and of the goroutines they start"},
	"C09": {"A hostile peer stays hostile, is never connected and never dialled", "path-partitioned abstract interpretation (value numbering) over go/ssa: every write of a peer record on every path of every registry operation; the states a stored record can have are enumerated under the facts of the path"},
	"C10": {"Exactly the vetted open connections are listed as connected", "path-partitioned abstract interpretation (value numbering) over go/ssa: the facts established on each path before the connection table is changed, the closes and records on each path, and the decision table of refusals"},
	"C11": {"Every dialable address is given out once, dialled once and then put off", "path-partitioned abstract interpretation (value numbering) over go/ssa: the selection loop is checked against a decision table over the record's fields and both tables; ends of attempts on every path of every registry operation; attempts on every path of the respawn loop and its goroutines"},
	"C12": {"Gossiped addresses extend the known peers and never change them", "path-partitioned abstract interpretation (value numbering) over go/ssa: every round of the loop over the addresses on every path; message handlers on every path of the distributor; a failing store may leave later addresses out"},
	"C13": {"Peer records keep everything learned about a peer", "path-partitioned abstract interpretation (value numbering) over go/ssa: every write of a record is compared field by field with the record read; the reading loops against the shape of the store; cbor encoding and leveldb are trusted"},
	"C14": {"Peers are asked for what they announced and is not stored yet", "path-partitioned abstract interpretation (value numbering) over go/ssa: the state machine read from its constructor; the requests made on every path of its actions; decision tables of who is listed as lagging and when a loading restarts"},
	"C15": {"Loaded blocks are stored in the order requested, without gaps", "path-partitioned abstract interpretation (value numbering) over go/ssa: the loops over the requested blocks on every path: which entry is filled, tested and stored, and under which facts"},
	"C16": {"Every loading ends, and its end has its consequences once", "path-partitioned abstract interpretation (value numbering) over go/ssa: the state machine read from its constructor, reports counted on every path of its actions, decision tables of the consequences over all combinations of scores, lag and lookup failures"},
	"C17": {"A loading only reacts to answers of its own peer", "path-partitioned abstract interpretation (value numbering) over go/ssa: every path from the receipt of an answer to the state machine with the facts known on it; the transition table of the machine; argument types of its events"},
	"C18": {"Received messages reach what they are for, credited to their sender", "path-partitioned abstract interpretation (value numbering) over go/ssa: every path from the receipt of a message to its effects; decision table of the filter over the identifiers of the message types; memory of the set-up at its end"},
	"C19": {"The detector stops when it is told to, in order and completely", "path-partitioned abstract interpretation (value numbering) over go/ssa: every channel operation and blocking call on every path must be released by the context; order of waits, channel closings and store closings on every path of the set-up"},
	"C20": {"Periodic work goes on for ever whatever happens in a round", "path-partitioned abstract interpretation (value numbering) over go/ssa: every path from the receipt of a timer's signal to the end of the round re-arms the same timer with a positive interval; timers are armed on every path that starts the part"},
	"C21": {"What is opened or taken is closed or given back on every way out", "path-partitioned abstract interpretation (value numbering) over go/ssa: typestate of every resource on every path of every entry point: taken, then released, handed over or returned inside the result, and not used after release"},
	"C22": {"A failure of the store is reported with its cause, never taken for an answer", "path-partitioned abstract interpretation (value numbering) over go/ssa: the outcome of every fallible operation on every path against the facts known at its end and the wrapping structure of the error returned"},
	"C23": {"Nothing received can crash the detector", "path-partitioned abstract interpretation (value numbering) over go/ssa: an obligation for every index, slice, division, type assertion, list size, explicit panic and use of a value that may be missing, discharged by an order prover over the facts of the path (difference constraints, intervals, loop induction, callers' arguments)"},
	"C24": {"Answering API requests changes nothing", "path-partitioned abstract interpretation (value numbering) over go/ssa: effects of every path of every handler and of every operation it reaches directly or through an interface: writes of the stores, stores to memory that is not the path's own, messages sent, machine events fired"},
	"C25": {"Every API route answers each request once, with the right data or status", "path-partitioned abstract interpretation (value numbering) over go/ssa: the route table is read from the constructor; on every path of every handler the answer's status is compared with the failures known at that point and its value with the route's specification; JSON encoding and the HTTP server are trusted"},
	"C26": {"Only valid settings start the detector, and each reaches the part it is for", "path-partitioned abstract interpretation (value numbering) over go/ssa: every path from the start of the program to the construction of its parts: the facts known there must include each check, each argument must be derived from its own setting by an identity-preserving chain, lists are checked round by round"},
	"C27": {"Chain walks and common ancestors are exact on every tree", "path-partitioned abstract interpretation (value numbering) over go/ssa: loop invariants of the walk and of the jump search (levelling, then descending both sides while the references differ) are checked on every path of the loops' bodies; that reference i is the ancestor at distance 2^i is the obligation of another property"},
	"C28": {"What runs concurrently shares nothing that changes without a lock", "path-partitioned abstract interpretation (value numbering) over go/ssa: lockset and thread-confinement analysis: every access to memory reachable from more than one goroutine, found on every path of every goroutine through calls, interfaces and state machine actions, paired with every conflicting access; order of start and wait; captured variables over the SSA form"},
	"C29": {"Versions are negotiated from the best supported one downwards", "path-partitioned abstract interpretation (value numbering) over go/ssa: the version stored and returned on every path, as a function of the record read; the sort and its comparator against a decision table; message types against every order of versions"},
	"C30": {"Summaries of the stored forks count and list everything once", "path-partitioned abstract interpretation (value numbering) over go/ssa: every loop that fills a list or a table is checked round by round: what it visits is complete, each round adds the one element its record stands for; the thresholds and comparators against decision tables"},
}
