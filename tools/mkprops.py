import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
H="none in /repo: the sources are instrumented at build time (scheduler, clock, network seams) through a go build overlay"
p("C01","No remote peer can take the node down",
"Whatever bytes remote peers send during the handshake or afterwards, in whatever fragments and interleavings, and whenever they stall, half-close or reset, the node process neither panics nor terminates itself nor spins forever. The memory it commits to decode one incoming message stays below a fixed multiple (32x) of the 20,000,000-byte message limit, whatever element counts the message claims. After the hostile traffic a well-behaved peer is still served.",
["inputs","schedules","fault_sequences"],"all byte streams from any number of peers, all interleavings of their handling, all stall/close/reset points",
"Tests decode four well-formed captures; they never feed a hostile length, count or truncated stream, and never run a peer connection at all.",
["p2p/peer.go","p2p/handshake.go","p2p/messages.go","p2p/helpers.go","p2p/sync.go","consensus/block.go","consensus/transaction.go","consensus/locator.go","consensus/proof.go"],
[("size and count limits before allocation","p2p/peer.go readHandler, consensus/*.Read, p2p/messages.go Read"),("decode errors end only that connection","p2p/peer.go readHandler")],hook=H)
p("C02","A stalled or hostile peer never degrades service to the others",
"While some peers (fewer than the connection limit) stall in the handshake, stop reading, flood, send garbage, vanish or reset, every other connected well-behaved peer still gets each request answered within a bounded time. The node also keeps connecting to reachable known addresses within a bounded time: no single peer can block the connection loop indefinitely.",
["schedules","fault_sequences"],"all mixes and timings of stalled/hostile peers, all interleavings with the traffic of good peers",
"No test runs two peers, a stalled socket or the connection loop; the property is about what happens while another goroutine is blocked.",
["p2p/pool.go","p2p/peer.go","p2p/sync.go","p2p/handshake.go"],
[("per-peer reader and writer goroutines","p2p/peer.go"),("short critical sections on the shared tables","p2p/pool.go"),("bounded handshake","p2p/peer.go NewPeer")],hook=H)
p("C03","Connection slots are conserved and outbound connecting makes progress",
"At no time does the node hold more open outbound connections than its configured maximum (15 by default), nor two to the same address. After any history of refused dials, failed handshakes, drops, reconnects and idle periods, once faults stop the node is connected to as many of its reachable known addresses as the maximum allows, within a bounded time.",
["schedules","fault_sequences","histories"],"all histories of connects, failures, disconnects and idle periods, all interleavings of the bookkeeping goroutines",
"Slot accounting spans several goroutines and long histories; no test starts the pool.",
["p2p/pool.go"],[("slot channel acquired before dialling, released on disconnect","p2p/pool.go Run/connectPeer"),("per-address status","p2p/pool.go notConnected")],
state=[("slots","tokens for open connections","p2p/pool.go pool"),("status","per-address connection status","p2p/pool.go peerInfo.Status")],hook=H)
p("C04","Each request is answered exactly once, in order, with consistent chain data",
"On an established connection every ping is answered by exactly one pong carrying the height and total difficulty the node's chain had at one single instant, every header request by exactly one headers message with the chain's answer, every peer-address request by exactly one address list, and every block request by the block when it is known and by nothing when it is not. Replies come in request order, and the node sends nothing else on its own except one ping and one address request after connecting and relayed blocks.",
["schedules","inputs","histories"],"all request sequences on any number of connections, all interleavings with chain updates",
"Exactly-once, ordering and snapshot consistency are properties of interleavings of reader, writer and chain-updating goroutines; no test exchanges a request.",
["p2p/sync.go","p2p/peer.go"],[("sequential dispatch per connection","p2p/peer.go readHandler"),("chain read lock around the pong snapshot","p2p/sync.go ProcessMessage")],hook=H)
p("C05","Stream splitting never changes which messages are handled",
"However the transport splits, delays or cuts the byte stream, each complete well-formed frame before the first bad one is handled exactly once and in order. A frame with wrong magic, a declared length above the limit, an unknown type, a body too short for its type, an element count above the protocol limit or a transaction whose elements are out of order is never handled and ends that connection, and so does a stream cut mid-frame.",
["inputs","fault_sequences","schedules"],"all frame sequences, all fragmentations, all cut points",
"Tests read one message from one in-memory buffer; short reads, cuts and resynchronisation cannot be sampled that way.",
["p2p/peer.go","p2p/messages.go","p2p/protocol.go","consensus/locator.go"],[("header validation and full-body read before decoding","p2p/peer.go readHandler")],hook=H)
p("C06","Only a complete, compatible handshake yields a peer, and failures release it",
"An outbound connection becomes a peer only after the remote answered our hello with a complete reply carrying the same protocol version and the same genesis hash; an inbound one only after a complete hello with the same version and genesis whose nonce is not one of our own (a connection to ourselves), to which we then reply with our version, capabilities, agent and genesis. The peer's recorded version, capabilities, difficulty and agent are those the remote sent. Any other outcome, including a remote that stalls or drips bytes, ends in an error within a bounded time, and for outbound connections with the connection closed.",
["inputs","fault_sequences","schedules"],"all hello/reply contents, fragmentations, stalls and cut points",
"The only handshake test parses one captured reply from memory; no connection, stall, cut, self-connection or mismatch is exercised.",
["p2p/handshake.go","p2p/peer.go","p2p/server.go","p2p/protocol.go"],[("version, genesis and nonce checks","p2p/handshake.go"),("deadline and close on failure","p2p/peer.go NewPeer/AcceptNewPeer")],hook=H)
p("C07","A finished connection releases everything it held",
"When a connection ends for any reason (remote close, reset or cut, protocol error, write failure, local close from any goroutine including a message handler), its socket is closed, its goroutines finish, waiters for its disconnection return, and every pending or later send on it returns instead of blocking, all within a bounded time. Closing is idempotent under concurrency.",
["schedules","fault_sequences"],"all ways and instants of ending a connection, all interleavings with senders, handlers and other closers",
"Leaks and shutdown deadlocks depend on the instant of the close relative to blocked goroutines; no test opens a connection.",
["p2p/peer.go","p2p/pool.go"],[("single-shot disconnect","p2p/peer.go Disconnect"),("quit channel","p2p/peer.go")],hook=H)
p("C08","A ban is complete, permanent and deserved",
"When a peer sends a header list, block or transaction that the node's chain or mempool rejects, or the node bans its address directly, its connection is closed within a bounded time and that address is never dialled, stored or advertised again while the node runs, even if other peers gossip it or the ban hits during a connection attempt. A peer none of whose data was rejected and that was not banned directly is never banned, and other connections are unaffected.",
["schedules","histories","inputs"],"all instants of the ban relative to connects, disconnects, gossip and concurrent bans",
"The ban runs inside the banned peer's own handler and races with reconnects; no test bans anything.",
["p2p/pool.go","p2p/sync.go"],[("ban list consulted on add and connect","p2p/pool.go"),("ban on rejected data","p2p/sync.go")],hook=H)
p("C09","Stop shuts the node down completely from any state",
"After a stop request issued in any state (dialling, handshaking, idle, at the connection limit, under traffic, with peers stalled or never contacted), the node's main loop returns, every connection is closed and every goroutine it started ends within a bounded time, without a crash.",
["schedules","fault_sequences"],"all instants of the stop, all peer states and interleavings",
"Shutdown correctness depends on the instant of the stop and on which goroutines are blocked where; no test stops a node.",
["p2p/pool.go","p2p/sync.go","p2p/peer.go"],[("quit channel and closing sweep","p2p/pool.go Run")],hook=H)
p("C10","Only accepted top blocks are relayed, to peers that are behind",
"A received block is relayed only if the chain accepted it and its height is the chain's current height; a rejected block is never sent to anyone and does not change what the node believes about the sender's height or difficulty. Each relay goes, byte-identical in content, only to connected peers whose last reported height or total difficulty is below the block's, not back to its sender, and at most once per acceptance; every such peer that stays connected receives it.",
["schedules","histories","inputs"],"all block arrivals from several peers, verdicts, peer heights and interleavings of relaying with connects and disconnects",
"Relaying involves many goroutines and peer tables; no test relays a block.",
["p2p/sync.go","p2p/pool.go"],[("verdict before relay","p2p/sync.go ProcessMessage"),("height/difficulty filter","p2p/pool.go PropagateBlock")],hook=H)
p("C11","Blocks and headers are judged by the rules, at the node's clock, always",
"At every clock reading and under every concurrency, a header is accepted only if its version fits its height, its timestamp is at most 12 minutes ahead of the node's clock, its graph size is 29 or at least 30 bits, its scaling is 1 unless the size is 29, and its proof of work, 42 edges in increasing order forming one cycle of the graph its header seeds, verifies. A block other than the current head itself is accepted only if moreover it has an output and a kernel, its inputs, outputs and kernels are sorted, it has at most one coinbase output and one coinbase kernel, every range proof and coinbase kernel signature verifies, and, when its parent is stored, its timestamp is after the parent's, its total difficulty equals the parent's plus the parent's proof difficulty, and its difficulty is not below the required minimum. A block or header list meeting all of this is not rejected.",
["inputs","histories","schedules"],"all single- and multi-rule violations, clock positions and jumps, stored histories, concurrent submissions and restarts",
"The one validation test accepts one real block at the wall clock of the machine; it never sees a rejection, a clock boundary, a parent or concurrency.",
["chain/chain.go","consensus/block.go","consensus/proof.go","consensus/difficulty.go"],[("header and block rules","consensus/block.go Validate"),("parent rules","chain/chain.go ProcessBlock")],hook=H)
p("C12","Chain queries answer from the stored chain, consistently, through restarts",
"A header query returns exactly the stored headers that follow the first locator hash found in storage, in chain order and at most 512 of them, and nothing when the head or no locator hash is known; a block query returns the stored block or nothing. After a crash and restart over the same storage the reported head, height and total difficulty are those of the last stored block (the genesis when there is none). Queries running concurrently with block processing neither deadlock nor observe a mixed state.",
["histories","schedules","crash_points"],"all stored chains, locators, restart points and interleavings of queries with processing",
"No test queries a chain; concurrency, restarts and locator combinations are not sampled.",
["chain/chain.go","chain/storage.go"],[("reader lock around queries","chain/chain.go"),("state initialised from storage","chain/chain.go New")],hook=H)
p("C13","Concurrent activity never races on node state",
"Under every interleaving of message handling, connecting, disconnecting, gossip, relaying, banning, sending, block processing and stopping, no two goroutines access the same memory without synchronisation when one of them writes, and no mutex or channel misuse occurs.",
["schedules","fault_sequences"],"all interleavings of all activities the node and its API run concurrently",
"The test suite is single-threaded: even under the race detector it never runs two goroutines of the node.",
["p2p/pool.go","p2p/peer.go","p2p/sync.go","p2p/server.go","chain/chain.go"],[("table, peer and chain locks; atomics; channels","p2p/pool.go, p2p/peer.go, p2p/sync.go, chain/chain.go")],hook=H)
p("C14","The address book stays clean, bounded and honestly advertised",
"Addresses learned from the user or from gossip are stored only if they are valid, not multicast and have a non-zero port, at most once each and never beyond the configured table size. An address list given out has at most 256 entries, contains only stored addresses whose last connection attempt did not fail, that are not banned and whose known capabilities include those asked for, and contains all of them when they fit. Gossiped IPv4 and IPv6 addresses are stored, dialled and passed on unchanged.",
["inputs","histories","schedules"],"all gossip contents and orders, connection outcomes and interleavings with queries",
"No test adds or lists addresses; the filters act on state produced by concurrent connection outcomes.",
["p2p/pool.go","p2p/sync.go","p2p/helpers.go","p2p/messages.go"],[("filters on add","p2p/pool.go Add"),("filters on listing","p2p/pool.go Peers"),("address codec","p2p/helpers.go")],hook=H)
p("C15","What one endpoint sends the other decodes to the same message",
"Every protocol message the node can send, framed and carried over any fragmentation of the stream, has exactly the layout of the grin wire format and decodes at the receiver to an equal message, also when several messages of different kinds follow each other. The bytes written for a message do not depend on what was sent before or concurrently.",
["inputs","fault_sequences","histories"],"all message kinds and field values within protocol limits, all message sequences and fragmentations",
"Round trips are tested for one block and one output only, from contiguous memory; transactions, addresses, headers, locators and sequences are not.",
["consensus/block.go","consensus/transaction.go","consensus/locator.go","consensus/proof.go","p2p/messages.go","p2p/handshake.go","p2p/helpers.go","p2p/protocol.go"],[("symmetric Bytes/Read pairs","consensus/*.go, p2p/*.go"),("length-prefixed frames","p2p/protocol.go")],hook=H)
p("C16","Sends are whole, ordered and honestly reported",
"Frames written to a connection by any number of concurrent senders never interleave, and those of one sender arrive in its order; while the connection lives each accepted send arrives exactly once. Writing a message reports success, with the exact frame size, only if every byte was handed to the transport, and otherwise an error, after which nothing more is sent on that connection. Reading a message never consumes bytes beyond its frame, and reports an error for a truncated or mistyped frame.",
["schedules","fault_sequences"],"all interleavings of senders, all short-write, write-error and cut positions",
"No test writes to a failing or concurrent transport.",
["p2p/protocol.go","p2p/peer.go"],[("single writer goroutine fed by a queue","p2p/peer.go writeHandler"),("buffered write and flush","p2p/protocol.go WriteMessage")],hook=H)
p("C17","The chain integrity check finds damaged or missing stored blocks",
"After any sequence of lost or corrupted stored blocks, validating the whole chain returns an error if some block from the head down to the genesis is missing or fails the block rules, and success otherwise, including on a chain that consists of the genesis only; it terminates and does not bring the process down.",
["fault_sequences","histories","crash_points"],"all chains and all lost-block / corrupted-block fault positions, with concurrent queries",
"No test validates a chain or damages a store.",
["chain/chain.go"],[("walk from head to genesis","chain/chain.go Validate")],hook=H)
p("C18","Proof-of-work verification accepts exactly the valid cycles",
"A cuckoo or cuckaroo proof verifies exactly when its nonces are strictly ascending, in range, and the edges they generate form one single cycle through all of them.",
["inputs"],"all keys, graph sizes and nonce lists","Tests check two valid proofs and three hand-made graphs.",
["cuckoo/cuckoo.go","cuckoo/siphash24.go"],[("cycle walk","cuckoo/cuckoo.go")])
p("C19","Kernel signatures verify exactly when made with the matching key",
"A signature produced for a message with a private key verifies under the matching public key for that message, and under no other key or message; decoding an encoded signature yields the same signature.",
["inputs"],"all keys, messages and signatures","Tests verify two signatures.",
["secp256k1zkp/schnorr.go"],[("aggregate Schnorr verification","secp256k1zkp/schnorr.go")])
p("C20","The required difficulty follows the retargeting rule",
"The difficulty required of the next block is the one the damped moving-window retarget rule yields for the given past blocks, never below the minimum and independent of anything else.",
["inputs"],"all block windows","No test computes a difficulty.",
["consensus/difficulty.go"],[("retarget","consensus/difficulty.go")])
p("C21","Identifiers are injective functions of the content they cover",
"Block hashes depend on exactly the proof-of-work nonces, output hashes exclude and kernel hashes include their proof data, and short ids are the keyed six-byte digests the protocol defines.",
["inputs"],"all headers, outputs, kernels and hashes","Tests check three short ids and one hash.",
["consensus/id.go","consensus/block.go"],[("hashing","consensus/*.go")])
p("C22","Stored blocks survive a crash",
"A block added to the storage backend is returned by every later query, also after a crash and restart, until it is deleted; a deleted block and its descendants never come back.",
["crash_points","fault_sequences"],"all crash points and disk faults","No test touches the storage backend.",
["storage/mysql.go"],[("sql backend","storage/mysql.go")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
