# The list of properties. gen.py writes properties.jsonl and MANIFEST.json from it.
CH = "chains/linkage.go"; ST = "chains/storage.go"; SE = "chains/storage_entities.go"; EN = "chains/entities.go"
RG = "peers/registry.go"; PS = "peers/storage.go"; PP = "peers/peer.go"; VP = "peers/version_provider.go"
LD = "loading/loader.go"; PL = "loading/peer_loader.go"; QU = "loading/queue.go"
DI = "distributor.go"; CM = "connection_manager.go"; LI = "listener.go"; RE = "respawn.go"; FD = "forkdetector.go"; PA = "parameters.go"
AP = "api/api.go"; AE = "api/entities.go"

def m(name, where): return {"name": name, "where": where}

P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))

TECH = "path-partitioned abstract interpretation (value numbering) over go/ssa"

prop("C01", "A peer's leash is the last block accepted from that peer",
 "When a block or micro-block reported by a peer is accepted, that peer's leash is set to exactly that block, which is stored; a refused report changes no leash, and nobody's report changes the leash of another peer. A leash is never deleted, and outside of reports it is moved only to a block found to be stored. A peer without a leash is answered with the configured genesis block, and with that block's score; that it has no leash is never an error.",
 ["inputs", "histories"], "every block, micro-block, reporting address and stored state, every failure of the store",
 "Tests follow a handful of linear reports; that no path of any operation writes another leash, an unstored target, or a leash on failure quantifies over all inputs and stored states.",
 [CH, ST], [m("block and micro-block acceptance", CH+":PutBlock, PutMicroBlock"), m("leash move", CH+":MoveLeash"), m("leash record", ST+":updateLeash, leash")],
 TECH, "every path of every exported operation of the chain store; leash writes are matched by key (prefix and address of the reporter) and value (ID of the accepted block)")

prop("C02", "Storing a block is one atomic, complete batch",
 "Everything recorded about one block (its ID index, its data, its link, its head status and the block counter) is written in a single atomic batch in which the parts carry the same number, ID and height. The block number is the next value of the counter, an operation writes the store at most once per block, and success is reported only if that write succeeded. A crash or a failed write therefore leaves either the whole block or nothing of it.",
 ["crash_points", "inputs", "histories"], "every block accepted in every stored state, a crash or write failure at any point",
 "Tests never crash between writes or fail them; atomicity is about every point between two effects.",
 [CH, ST, SE], [m("batch of a block", ST+":putProtoBlock, putMicroBlock, appendBlock"), m("initialisation", ST+":initialize")],
 TECH, "one-batch and completeness obligations on every path of every exported operation; every database write of the package is reached from an analysed root; durability of one leveldb batch is assumed")

prop("C03", "Only new blocks that attach to a stored block are added",
 "A block is stored only if it was not stored before and the block it refers to is stored; an orphan is answered with the dedicated missing-parent (or missing-reference) error and changes nothing, and that error is given for no other reason. The genesis block is written only into an empty store, and an existing store is opened only if it holds the configured genesis block.",
 ["inputs", "histories"], "every block or micro-block and every stored state, including a store made for another network",
 "Tests try one orphan and one duplicate; the claim is about every path to the store's writes.",
 [CH, ST], [m("presence and parent checks", CH+":PutBlock, PutMicroBlock"), m("genesis check", CH+":NewLinkage")],
 TECH, "the facts established on each path before each block write")

prop("C04", "Stored block data is derived from the block and its parent",
 "A stored block has its parent's height plus one, its own timestamp, the parent's score plus 2^64 divided by its base target, the parent it names and the address of its generator key in the configured network; a micro-block takes all of these from the block it extends. Its ancestor references are the parent and then, level by level, the references of those references. Reading a block gives back exactly what was stored.",
 ["inputs", "histories"], "every block header and every stored parent",
 "Tests use a few short chains with easy scores; wrong heights, scores or jumps show up only on particular shapes of the tree.",
 [ST, CH, SE], [m("block record", ST+":putProtoBlock, putMicroBlock"), m("ancestor references", ST+":parents of a link"), m("score", ST+":calculateScore")],
 TECH, "the value term of every field of every stored record is compared with its specification; base targets are assumed positive 64-bit integers, score arithmetic is exact big-integer arithmetic")

prop("C05", "The set of heads is exactly the tips of the stored tree",
 "Storing a block on a head moves that head to the new block; storing it on any other block creates one new head numbered by the next value of the head counter; no other head changes. Both directions of the head index always agree, the genesis block is the first head, and the listing of heads covers all of them.",
 ["inputs", "histories"], "every attachment point in every stored tree",
 "Tests build three or four shapes; the invariant is inductive over every history of insertions.",
 [ST, CH], [m("head move or creation", ST+":putProtoBlock, putMicroBlock"), m("head listing", ST+":heads")],
 TECH, "inductive step checked on every path of every insertion, base case at initialisation, over the operations of each batch")

prop("C06", "Chain store operations are mutually atomic and never block forever",
 "Every operation on stored chains reads and writes them only while holding the store's lock, shared for reading and exclusive for changing, in a single critical section, and releases it on every way out, including failures. No operation takes the lock again while holding it.",
 ["schedules", "inputs"], "every interleaving of concurrent reports, loads and API queries",
 "The tests are single-threaded; a missing lock, a leaked lock or a recursive read lock shows only under a particular schedule.",
 [CH], [m("lock discipline", CH+":exported methods of Linkage")],
 "lock-state typestate analysis over path summaries", "abstract lock state on every path of every method; database handle and tables are the guarded state")

prop("C07", "The longest fork is the leashed chain of greatest score, then most peers",
 "Among all blocks that peers (or the peers asked for) are leashed to, the longest fork is the one with the greatest score and, between equal scores, the one with more peers. The last common block of a peer, and the last common block and length reported for every fork, are taken against that fork: the common ancestor of the two heads, and the height of the head above it. A peer on the longest fork has its own head as last common block, one without a leash has genesis.",
 ["inputs", "histories"], "every set of leashes over every stored tree and every subset of peers asked for",
 "Tests compare two or three forks of unequal length; wrong ties, skipped leashes and order-dependent selections need particular scores and visiting orders.",
 [CH, EN], [m("selection of the longest", CH+":LCB, Fork, Forks"), m("order of forks", EN+":byScoreAndPeersDesc")],
 TECH, "the selection loop is checked against a decision table over all orders of score and peer count, the comparator against the same order; the common-ancestor search itself is the subject of another property; ties of both score and peers are left open")

prop("C08", "Peer registry operations are mutually atomic and never block forever",
 "Every operation on the peer registry touches its connection and pending tables and the peer records only while holding the registry's lock, in one critical section, and releases it on every way out; no operation takes the lock again while holding it, and the tables never leave the registry.",
 ["schedules", "inputs"], "every interleaving of connects, disconnects, gossip, respawns and API queries",
 "Map races and leaked locks need two goroutines at a particular point; the tests never run them together.",
 [RG], [m("lock discipline", RG+":exported methods of Registry")],
 "lock-state typestate analysis over path summaries", "abstract lock state on every path of every method and of the goroutines they start")

prop("C25", "Every API route answers each request once, with the right data or status",
 "Every route answers a request exactly once, and whatever comes before the handlers passes each request on to them once. A successful answer carries exactly the data the route stands for: all known peers, friendly peers, connections, every head, every leashed block with all its peers (greatest score first, then most peers), the counters, the forks of exactly the peers asked for (all peers if none are given; for active forks only connected ones), one peer's fork and that fork's generators over the asked number of blocks. A malformed address, peer list or block number is answered with 400, a peer without a leash with 404, a failure of the store or registry with 500, and none of these with data.",
 ["inputs", "histories"], "every request and every state of the store and the registry, including their failures",
 "There are no tests of the API; which filter, status or failure path a request takes depends on parameters and stored state.",
 [AP, AE], [m("routes", AP+":NewAPI"), m("handlers", AP+":methods of API"), m("peer list parameter", AP+":getPeers")],
 TECH, "the route table is read from the constructor; on every path of every handler the answer's status is compared with the failures known at that point and its value with the route's specification; JSON encoding and the HTTP server are trusted")

prop("C27", "Chain walks and common ancestors are exact on every tree",
 "The block IDs listed back from a block are that block and its ancestors, nearest first, without gaps, stopping after the asked number or at genesis. The generators of a fork count every block of such a walk exactly once for its generator. The common ancestor of two blocks is their highest shared ancestor (a block counts as its own ancestor), for every pair of stored blocks in every stored tree.",
 ["inputs", "histories"], "every stored tree, every pair of blocks in it and every number of blocks asked for",
 "Tests try a few pairs in small trees; skip references make the search depend on distances and alignment that only large trees show.",
 [ST, CH], [m("common ancestor", ST+":lca, getAncestor"), m("walks", CH+":LastIDs, ForkGenerators")],
 TECH, "loop invariants of the walk and of the jump search (levelling, then descending both sides while the references differ) are checked on every path of the loops' bodies; that reference i is the ancestor at distance 2^i is the obligation of another property")

prop("C09", "A hostile peer stays hostile, is never connected and never dialled",
 "A peer that connects with a version two or more minor versions away or with an application of another network is recorded as hostile, with the name and version it announced, and its connection is refused. From then on, whatever is reported about it, its record stays hostile: no later connection of it is kept, no version is suggested for connecting to it, and its address is not given out for dialling. No peer record is ever deleted, and no other peer is marked hostile by registering.",
 ["inputs", "histories"], "every handshake, every stored record and every order of registry operations",
 "Tests register one or two hostile peers; that no operation in any state lifts the mark or dials the peer quantifies over all histories.",
 [RG, PS, VP], [m("marking", RG+":RegisterPeer"), m("refusal", RG+":RegisterPeer"), m("exclusion from dialling", RG+":TakeAvailableAddresses"), m("suggested version", VP+":SuggestVersion")],
 TECH, "every write of a peer record on every path of every registry operation; the states a stored record can have are enumerated under the facts of the path")

prop("C10", "Exactly the vetted open connections are listed as connected",
 "A connection is kept only for an IPv4 peer that is not the detector itself, not hostile, of a close enough version and the right network, and whose declared address, if any, is a valid non-loopback IPv4 address; any other connection is closed and refused, and no connection meeting the conditions is refused unless the store fails. Before it is kept, the peer is recorded as connected with its name, nonce, version and its own declared port (0 if it declared another host or none). A disconnected peer leaves the connections and the dialling reservations even when the store fails, and the list of connections shows exactly the kept ones with their records.",
 ["inputs", "histories"], "every remote address, handshake and stored record, every failure of the store",
 "Tests cover a few handshakes; the order of the checks, the failing store and the forgotten close need particular inputs or faults.",
 [RG, PS], [m("registration", RG+":RegisterPeer, checkPort"), m("disconnection", RG+":UnregisterPeer"), m("list of connections", RG+":Connections")],
 TECH, "the facts established on each path before the connection table is changed, the closes and records on each path, and the decision table of refusals")

prop("C11", "Every dialable address is given out once, dialled once and then put off",
 "The addresses given out for dialling are exactly the known, non-hostile, declared addresses whose next attempt is due and which are neither connected nor already given out; each is reserved until its attempt ends. Every address given out is dialled once with the version suggested for it, outside the main loop, and a failed attempt or a closed connection ends the reservation and puts the next attempt off by ten minutes. No reservation outlives its attempt and no operation drops the reservation or connection of another peer.",
 ["inputs", "histories", "schedules"], "every set of peer records, connections and reservations, every outcome of every attempt",
 "Tests take addresses from one or two records; that no address is lost, dialled twice or left reserved forever quantifies over records, outcomes and orders of events.",
 [RG, RE], [m("choice of addresses", RG+":TakeAvailableAddresses"), m("end of attempts", RG+":UnregisterPeer, RegisterPeer"), m("attempts", RE+":establishConnections")],
 TECH, "the selection loop is checked against a decision table over the record's fields and both tables; ends of attempts on every path of every registry operation; attempts on every path of the respawn loop and its goroutines")

prop("C12", "Gossiped addresses extend the known peers and never change them",
 "Every valid non-loopback IPv4 address with a port that a peer or the configuration offers and that is not the detector's own is recorded as a new unknown peer due at once, if it is not known yet; known peers are never changed by it. The number reported is the number of new records. A request for peers is answered to the asking peer with exactly the peers that were connected and declare an address.",
 ["inputs", "histories"], "every list of addresses and every stored set of peers, including failures of the store",
 "Tests append a few addresses; which of many malformed, aliasing or known addresses gets through depends on values tests do not sample.",
 [RG, PS, DI], [m("new addresses", RG+":AppendAddresses"), m("received addresses", DI+":handlePeersMessage"), m("answers", DI+":handleGetPeersMessage")],
 TECH, "every round of the loop over the addresses on every path; message handlers on every path of the distributor; a failing store may leave later addresses out")

prop("C13", "Peer records keep everything learned about a peer",
 "No peer record is ever deleted, each is stored under its own address in full width, and an operation on a peer reads its record before writing it and changes only what it learned: a handshake the port, nonce, name, version and state, a disconnection or suggestion the version and next attempt, a score report the score. What is read back, by address or in the lists of all and of friendly peers, is exactly what was recorded, for every record and only those in the asked state.",
 ["inputs", "histories"], "every stored set of peers and every order of operations on them",
 "Tests read back two or three records; lost fields and aliased keys show only for particular addresses and orders of operations.",
 [RG, PS, PP], [m("record", PS+":putPeer, peer, peers"), m("updates", RG+":exported methods of Registry"), m("lists", RG+":Peers, FriendlyPeers")],
 TECH, "every write of a record is compared field by field with the record read; the reading loops against the shape of the store; cbor encoding and leveldb are trusted")

prop("C29", "Versions are negotiated from the best supported one downwards",
 "A peer never seen before gets the highest supported version; one that was never connected gets the version after the one last tried, starting over at the end; one that was connected keeps its version; the choice is recorded, and no version is suggested to a hostile peer. The supported versions are the configured ones in descending order, both ways of connecting use the version suggested for their peer, and peers are asked for block IDs with the message their version understands.",
 ["inputs", "histories"], "every list of versions, every record and every failure of the store",
 "Tests walk one short list of versions; unsorted lists, unknown recorded versions and store failures are not tried.",
 [RG, VP, CM, PP], [m("suggestion", RG+":SuggestVersion"), m("list of versions", "peers/registry.go:newVersions"), m("use", CM+":Connect, Accept"), m("requests", PP+":RequestBlockIDs")],
 TECH, "the version stored and returned on every path, as a function of the record read; the sort and its comparator against a decision table; message types against every order of versions")

prop("C14", "Peers are asked for what they announced and is not stored yet",
 "History is loaded only from a connected peer whose announced score is higher than the score of its leash, picked at random among all of them; after ten failures in a row its next loading starts from its last common block, otherwise from its leash. The peer is asked for block IDs from the last hundred known ones ending there; of the IDs it answers, blocks are requested from the first one not stored on, each once and in order, and the peer's leash moves to the stored ones before it.",
 ["inputs", "histories"], "every set of connections and scores, every answer of a peer, every stored state and failure of the store",
 "Tests drive one scripted loading against a mock; other mixtures of stored and missing blocks, store failures and sets of connections are not tried.",
 [LD, PL, QU], [m("choice of a peer", LD+":sync"), m("requests of IDs", PL+":requestIDs, requestIDsFromLCA"), m("requests of blocks", PL+":requestBlocks")],
 TECH, "the state machine read from its constructor; the requests made on every path of its actions; decision tables of who is listed as lagging and when a loading restarts")

prop("C15", "Loaded blocks are stored in the order requested, without gaps",
 "A received block is kept exactly when it was requested, and blocks of a loading are stored for its peer in the order requested, each once: all of them when the last one arrives, or, when the loading ends early, those before the first one missing. After a block is refused nothing further is stored.",
 ["inputs", "schedules"], "every order of arrival, every set of missing, unrequested or repeated blocks, every refusal",
 "Tests deliver blocks in one or two orders; other orders, gaps, repetitions and refusals in the middle are not tried.",
 [PL, QU], [m("block arrives", PL+":appendBlock"), m("loading ends early", PL+":handleFailure"), m("queue", QU+":put, ready")],
 TECH, "the loops over the requested blocks on every path: which entry is filled, tested and stored, and under which facts")

prop("C16", "Every loading ends, and its end has its consequences once",
 "A loading in either waiting stage is told the time every tick and ends when no answer came for the time allowed since the last request; its end is reported exactly once, as success only when everything announced is stored. On success the same peer goes on only while it still lags and its lag changed, on failure the failure is counted against the peer; in all other cases the peer is released so that another one can be loaded from.",
 ["schedules", "inputs"], "every sequence of answers, ticks and failures, every score announced and stored",
 "Tests exercise a few transitions of one loading and not the loader; a path on which a loading is never given up blocks synchronisation for ever and shows only under a specific failure.",
 [LD, PL], [m("stages", PL+":newPeerLoader"), m("time", PL+":onTick"), m("consequences", LD+":OK, Fail"), m("ticks", LD+":loop, tick")],
 TECH, "the state machine read from its constructor, reports counted on every path of its actions, decision tables of the consequences over all combinations of scores, lag and lookup failures")

prop("C17", "A loading only reacts to answers of its own peer",
 "Block IDs and blocks reach the running loading exactly when they come from the peer it loads from; an empty list of IDs is no answer. In a stage that does not wait for it, an answer, a start or a tick changes nothing and is no error.",
 ["schedules", "inputs"], "every interleaving of messages of all peers with starts, ticks and ends of loadings",
 "Tests deliver answers of the expected peer in the expected stage; late, repeated and foreign answers are not tried.",
 [LD, PL], [m("answers", LD+":handleIDs, handleBlock"), m("stages", PL+":configure*")],
 TECH, "every path from the receipt of an answer to the state machine with the facts known on it; the transition table of the machine; argument types of its events")

prop("C18", "Received messages reach what they are for, credited to their sender",
 "A received score, block, micro-block, list of IDs, list of addresses or request for addresses is not filtered out and is acted on exactly once, with its own payload and credited to the address of the peer that sent it, unless it is malformed or the detector is shutting down. A block is handed to the loader after it was stored or turned out to be an orphan, and not if storing it failed otherwise; IDs are handed over complete and in order. Messages and the news about connections are handled one at a time, in the order in which they arrive. All connections, accepted or dialled, deliver messages and news to the channels that are read, and the loader listens to what is sent to it.",
 ["inputs", "schedules"], "every sequence of messages from any number of peers",
 "There are no tests of the message handling; it needs live connections.",
 [DI, CM, FD], [m("dispatch", DI+":runLoop, handleMessage and handlers"), m("filter", CM+":NewConnectionManager, skipFunc"), m("wiring", FD+":run")],
 TECH, "every path from the receipt of a message to its effects; decision table of the filter over the identifiers of the message types; memory of the set-up at its end")

prop("C19", "The detector stops when it is told to, in order and completely",
 "After an interrupt or termination signal no part of the detector waits for ever: every wait for a message, a timer, a connection or another part ends with the signal, and every endless loop looks for it in each round and leaves. The end of everything that was started is waited for, a channel is closed only after those who send on it ended, and the stores are closed last; they are also closed when the set-up fails half-way. Every part of the detector is started, and only once.",
 ["schedules", "histories"], "every moment at which the signal can arrive",
 "There are no tests of the components that run concurrently; a stop at the wrong moment cannot be sampled.",
 [FD, DI, LI, RE, LD, AP], [m("loops", DI+":runLoop; "+RE+":handleEvents; "+LI+":run; "+LD+":loop"), m("set-up and shutdown", FD+":run"), m("components", "Run and Shutdown methods")],
 TECH, "every channel operation and blocking call on every path must be released by the context; order of waits, channel closings and store closings on every path of the set-up")

prop("C20", "Periodic work goes on for ever whatever happens in a round",
 "Connected peers are asked for addresses, available addresses are taken for dialling, and lagging peers are looked for at regular intervals for as long as the detector runs: each timer is set when its part starts and set again by every round, also by those that fail. Other events do not stop a timer for good. Every connected peer is sent the request in each round.",
 ["histories", "schedules"], "every sequence of rounds with any failures",
 "There are no tests of the periodic work; a timer lost after a rare failure shows only after it.",
 [DI, RE, LD, RG], [m("rounds", DI+":runLoop, pingConnections; "+RE+":handleEvents; "+LD+":loop"), m("start", "Run methods"), m("broadcast", RG+":Broadcast")],
 TECH, "every path from the receipt of a timer's signal to the end of the round re-arms the same timer with a positive interval; timers are armed on every path that starts the part")

prop("C21", "What is opened or taken is closed or given back on every way out",
 "Whatever way an operation ends, every database snapshot and iterator it took is released, and none is used after that; a store whose set-up fails closes its database again, and closing a store closes its database. The listening socket is closed when the listener ends. An incoming connection is handed on or closed, and a connection the registry does not keep is closed.",
 ["inputs", "histories"], "every failure at every step, every record and connection",
 "A leak on a rare error path shows only after that error occurred many times; tests do not look at what is left open.",
 [ST, PS, RG, CM, LI], [m("snapshots and iterators", ST+" and "+PS), m("set-up of the stores", ST+":newStorage; chains/linkage.go:NewLinkage; "+PS+":newStorage; "+RG+":NewRegistry"), m("connections", RG+":RegisterPeer; "+CM+":Accept; "+LI+":run")],
 TECH, "typestate of every resource on every path of every entry point: taken, then released, handed over or returned inside the result, and not used after release")

prop("C22", "A failure of the store is reported with its cause, never taken for an answer",
 "When a read, a write, an iteration or the decoding of a stored record fails, the operation that needed it fails too and its error wraps the cause; only the absence of a key may count as an answer. A failed iteration is never taken for the end of the records. Those who use the stores look at every failure, and use nothing else a failed call returned; what is made of stored bytes by a conversion that may fail is used only after the failure was ruled out.",
 ["inputs", "histories"], "every failure at every single operation of the store",
 "Tests run on a healthy database; a swallowed failure makes a partial list or an invented absence look right.",
 [ST, PS, EN, RG, VP, DI, LD, PL, AP], [m("block store", ST+": all operations"), m("peer store", PS+": all operations"), m("users of the stores", DI+", "+PL+", "+AP)],
 TECH, "the outcome of every fallible operation on every path against the facts known at its end and the wrapping structure of the error returned")

prop("C23", "Nothing received can crash the detector",
 "Whatever a remote peer announces or sends, in whatever order, and whatever a client of the HTTP interface asks for, no part of the detector panics: no element is read that a list does not have, nothing missing is used, nothing is divided by zero and no list is sized by a number nobody bounds. This covers empty lists, an empty application name, a zero base target, addresses that are not IPv4, blocks close to the start of the chain, peers without a score or a leash, and a loading that ends while its event is being handled. Stored records are taken to be those the detector wrote.",
 ["inputs", "histories"], "every message, request and order of events",
 "Tests feed well-formed messages from well-behaved peers; one crafted message from anyone on the network that crashes the process stops the detection for all.",
 [ST, EN, CH, PS, RG, PP, VP, DI, LD, PL, QU, AP], [m("lists and numbers", ST+", "+PL+", "+QU+", "+RG+", "+PP+", "+DI), m("missing values", LD+", "+PL+", "+CH), m("report of the end of a loading", PL+": reports; "+LD+": slot of the loading")],
 TECH, "an obligation for every index, slice, division, type assertion, list size, explicit panic and use of a value that may be missing, discharged by an order prover over the facts of the path (difference constraints, intervals, loop induction, callers' arguments)")

prop("C30", "Summaries of the stored forks count and list everything once",
 "The list of heads shows every stored head once, with its own number and its own block; the heads in use are exactly those whose block some peer is leashed to. The numbers of short and long forks count every fork once, as long if it is more than 5 blocks above its last common block and as short otherwise. The list of a fork's generators has one entry for each generator in the walk, with the number of its blocks, most blocks first.",
 ["inputs", "histories"], "every set of heads and leashes over every stored tree",
 "Tests look at one head or two; a dropped entry, a mixed-up pair or a wrong threshold shows only on other trees and leashes.",
 [CH, EN, ST], [m("heads", CH+":Heads, ActiveHeads"), m("numbers of forks", CH+":Stats"), m("generators", CH+":ForkGenerators; "+EN+":byBlocksCountDesc")],
 TECH, "every loop that fills a list or a table is checked round by round: what it visits is complete, each round adds the one element its record stands for; the thresholds and comparators against decision tables")

prop("C26", "Only valid settings start the detector, and each reaches the part it is for",
 "The detector starts only with a database folder that exists and is a folder, a known network, valid addresses for the API and for the network server, and a name of 1 to 255 bytes; it never starts with a malformed version or seed peer in its lists, and refuses nothing else. It does not go on when the API cannot be set up. Both stores are kept in that folder in places of their own and made for that network; every built-in and listed seed peer is taken over; handshakes present the network, the name and the declared address that were set; the API and the network server use the addresses set for them. The detector listens for connections exactly if it has an address to declare and one to listen on. What a setting is unless it is given is valid (the folder has to be given). One connection, or a failure to accept one, does not keep others from being accepted, and every accepted connection is answered unless its address is not understood or no version is suggested for it.",
 ["inputs", "configurations"], "every command line",
 "The process is never started by a test; a swapped or dropped setting shows only in the handshake, the folder or the address that some peer or user sees.",
 [PA, FD, CM, LI, RG, PS, ST, AP], [m("reading the settings", PA+":newParameters"), m("passing them on", FD+":run"), m("handshakes", CM+":Accept, Connect"), m("listening", LI+":NewListener, run")],
 TECH, "every path from the start of the program to the construction of its parts: the facts known there must include each check, each argument must be derived from its own setting by an identity-preserving chain, lists are checked round by round")

prop("C24", "Answering API requests changes nothing",
 "Whatever a client of the HTTP interface asks for, answering it is a query: nothing is written to the stores, no connection, reservation or other record of the running detector is changed, no peer is sent anything, and neither the loading nor the handling of messages is touched.",
 ["inputs", "schedules"], "every request in every state of the detector",
 "Tests look at the answer and not at what else happened; an address reserved or a table changed by a status page shows only later, in the dialling or in the list of connections.",
 [AP, CH, RG, PS, ST], [m("handlers", AP+":NewAPI and the handlers"), m("queries", CH+" and "+RG+": operations used by the handlers")],
 TECH, "effects of every path of every handler and of every operation it reaches directly or through an interface: writes of the stores, stores to memory that is not the path's own, messages sent, machine events fired")

prop("C28", "What runs concurrently shares nothing that changes without a lock",
 "The loops of the detector, the goroutines of its connections, the functions it hands to the networking library and the handlers of API requests run at the same time. What any of them changes is used by no other at the same time unless a common lock, held exclusively for the change, protects it; what is set at the start is set before the first goroutine that uses it is started. A variable shared by a goroutine and the function that started it is not changed by one while the other may use it.",
 ["schedules"], "every interleaving of the goroutines, connections and requests",
 "No test runs the parts of the detector together; a data race corrupts memory under interleavings that no test provokes.",
 [DI, LI, RE, CM, LD, PL, QU, AP, CH, RG], [m("loops", DI+":Run, runLoop; "+RE+":Run, handleEvents, establishConnections; "+LI+":Run, run; "+LD+":Run, loop"), m("callbacks", CM+":skipFunc; "+AP+" handlers"), m("shared objects", CH+":Linkage; "+RG+":Registry")],
 TECH, "lockset and thread-confinement analysis: every access to memory reachable from more than one goroutine, found on every path of every goroutine through calls, interfaces and state machine actions, paired with every conflicting access; order of start and wait; captured variables over the SSA form")

# property id -> reason, for properties that are stated but not claimed
NA = []
def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None, None)
    NA.append({"property": id, "reason": reason})

na("C31", "Acknowledged changes survive a loss of power",
 "Once the detector has acted on a stored block, leash or peer record, the record is still there after the machine lost its power and was started again.",
 ["crash_points"], "every moment at which the power can fail",
 "Tests end in an orderly way.",
 [ST, PS], [m("writes", ST+" and "+PS+": writes of the stores")],
 "Whether a completed write survives is decided by the buffering of goleveldb, the file system and the disk, not by the source of the detector; the code asks for no synchronous writes and promises none. What the source does decide, that a crash leaves whole batches, is claimed as C02.")

na("C32", "The history of every connected peer is eventually loaded",
 "Every peer that stays connected and answers requests eventually has its leash at the last block it announced.",
 ["schedules", "histories"], "every fair schedule and every behaviour of the other peers",
 "Convergence takes minutes and many peers.",
 [LD, PL], [m("loading", LD+" and "+PL)],
 "A liveness property over unbounded schedules, a random choice among peers and the behaviour of remote nodes; no static argument in reach bounds it. Its safety parts (what is asked, stored and released, and that every loading ends and timers go on) are claimed as C14 to C17 and C20.")

na("C33", "Memory and disk use stay bounded by what the network offers",
 "The memory of the detector is bounded by the number of connections and the size of one loading, and its databases by the blocks and peers seen.",
 ["histories"], "every history of any length",
 "Tests are short.",
 [DI, LD, RG, ST], [m("queues and tables", LD+", "+RG+", "+DI)],
 "The amounts are runtime quantities chosen by remote peers and by libraries (message buffers, goleveldb caches); bounding them needs quantities that are not in the source. That nothing taken is leaked is claimed as C21, and that no list is sized by an unbounded number as C23.")

