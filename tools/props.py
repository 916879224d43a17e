# Source of properties.jsonl and MANIFEST.json (run gen.py after editing).
AI = "abstract interpretation over SSA (must-facts on every accepting path, loop-quantified)"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, technique=AI, note="", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state or [], technique=technique, note=note, observe=observe or []))
CH = "cryptonote/chain.go"
TV = "cryptonote/transaction_validator.go"
WHY = "The tests add a handful of recorded main-net blocks and check a few refusals; the guarantee is about every block and every chain state a peer can produce, most of which no recorded block reaches. "

prop("C01", "A block is accepted only on top of a known predecessor",
 "A block is added only when no block with its hash is stored yet, when the block it names as predecessor is stored, and when the height its base transaction announces is exactly one above that predecessor's.",
 ["inputs", "histories"], "every block, every list of transaction blobs, every chain state",
 WHY + "No test offers a block with a wrong height or an unknown parent.",
 [CH, "cryptonote/storage_memory.go"], [("admission of a block", CH+":AddBlock"), ("lookup by hash", CH+":haveBlock")],
 note="Decides the admission conditions on every path; what the storage answers is the subject of M01.")
prop("C02", "Block version and timestamp rules are enforced on acceptance",
 "An accepted block carries the major version the hard-fork schedule prescribes for its height; the parent block of a version 2 block is of version 1 at most, and that of a version 2 or 3 block serializes to at most 2048 bytes; its timestamp is at most the allowed distance ahead of the network clock and, once the window of preceding blocks is full, not below the median of the timestamps of those immediately preceding blocks. The window is collected by walking from the block's predecessor back through each block's parent.",
 ["inputs", "histories"], "every block and every chain state",
 WHY + "Tests never present a wrong version or a timestamp outside the window.",
 [CH, "config/params.go", "config/network.go"], [("block header validation", CH+":validateBlock"), ("timestamp window", CH+":lastBlocksTimestamps"), ("limits", "config/params.go")],
 note="The schedule and the limits themselves are N02; the median function is included here.")
prop("C03", "Every accepted base transaction has the prescribed form",
 "The base transaction of an accepted block has exactly one coinbase input naming the block's height, unlocks exactly one unlock window after the block, has no signatures, and each of its outputs is non-zero, of a known kind, has valid keys, requires no more signatures than it has keys, and their sum does not overflow. From height 500000 its extra field is at most 1024 bytes; from block version 5 the extra field parses and has no merge-mining tag, and there is exactly one output, a key output.",
 ["inputs"], "every block",
 WHY + "No test covers a malformed base transaction.",
 [CH, TV], [("base transaction validation", CH+":validateBlock"), ("output validation", TV)],
 note="Decided as facts that hold at every accepting return; key validity is the predicate decided by K04.")
prop("C04", "Accepted transactions are exactly the ones the block names",
 "An accepted block comes with exactly as many transaction blobs as it names hashes; the i-th blob, all of it, decodes to the transaction with the i-th hash; no transaction occurs twice in the block, and when the block extends the top none of them is already in the chain.",
 ["inputs", "histories"], "every block, every list of blobs",
 WHY + "Tests use matching lists only.",
 [CH, TV], [("decoding the delivered blobs", CH+":deserializeTransactions"), ("hash comparison", CH+":AddBlock")],
 note="'already in the chain' is decided up to the lookup, which is a placeholder on the current tree (known finding).")
prop("C05", "The block reward claimed equals the reward computed",
 "An accepted block's base transaction pays out exactly the reward computed for the block's version, the median size of the preceding blocks, the block's own size and the coins generated so far, plus the sum over all its transactions of inputs minus outputs. A block whose reward cannot be computed is refused.",
 ["inputs", "histories"], "every block, every chain state",
 WHY + "Tests check a few recorded blocks whose reward is right.",
 [CH, TV, "config/network.go"], [("reward comparison", CH+":AddBlock"), ("fees", TV+":validateTransactionFee")],
 note="Decides which quantities are compared and how each is accumulated, for every path; the reward formula is N04.")
prop("C06", "Accepted blocks are sealed: difficulty, proof of work, signature",
 "For an accepted block a non-zero difficulty was computed for the version in force; inside the checkpoint zone its hash matches the checkpoint of its height, outside it the proof of work was checked against that difficulty. From block version 5 the block is signed over its hashing bytes with the key its reward is paid to.",
 ["inputs", "histories"], "every block, every chain state, inside and outside the checkpoint zone",
 WHY + "No test exercises a version 5 block or a failed seal.",
 [CH, "cryptonote/difficulty.go", "config/checkpoints.go"], [("seal", CH+":AddBlock"), ("difficulty", "cryptonote/difficulty.go")],
 note="The proof-of-work test itself is a placeholder that always succeeds (known finding); its call and arguments are decided.")
prop("C08", "What is stored for a block is what was validated",
 "When a block is accepted, the storage has accepted it together with exactly the validated transactions, every key image its inputs spend, its own height, hash, timestamp and cumulative size, its predecessor's cumulative difficulty plus its own, and its predecessor's generated coins and transaction count plus its own. Afterwards the block is the top block.",
 ["inputs", "histories"], "every accepted block",
 WHY + "Tests look at the height after a few additions, never at the stored record.",
 [CH], [("storing", CH+":AddBlock"), ("spent key images", TV)],
 note="Decided as relations between the arguments of the storage call and validated values, on every path.")
prop("C09", "Size limits and statistics windows hold for accepted blocks",
 "In an accepted block the base transaction and each transaction blob are within the transaction size limit, and their cumulative size is within the limit for the block's height. The size median is taken over the last reward window of consecutive predecessors, and the difficulty over timestamps and cumulative difficulties of consecutive predecessors, at most the configured number, ending early only at the start of the chain.",
 ["inputs", "histories"], "every block, every chain state",
 WHY + "Recorded blocks are far below the limits, and the windows are never longer than the short test chain.",
 [CH, "cryptonote/difficulty.go"], [("size checks", CH+":AddBlock"), ("windows", CH+":lastBLockSizes"), ("difficulty window", "cryptonote/difficulty.go")],
 note="Limits per height are N02.")
prop("T01", "Inputs of accepted transactions are well formed and unspent",
 "Every transaction of an accepted block has inputs, each of a known kind and referring to at least one output, with distinct references; no key image occurs twice in the block, and outside the checkpoint zone each key image lies in the prime-order subgroup and was looked up as unspent. A multisignature input refers to an existing, unspent, unlocked output and announces the number of signatures that output requires.",
 ["inputs", "histories"], "every transaction of every block",
 WHY + "No test contains a double spend or a malformed input.",
 [TV], [("input validation", TV+":validateInputs"), ("expensive checks", TV+":validateTransactionInputExpensive")],
 note="The chain's spent lookups are placeholders on the current tree (known finding).")
prop("T02", "Outputs of accepted transactions are well formed",
 "Every output of every transaction of an accepted block has a non-zero amount, which from height 700000 is a canonical denomination, and is a key output with a valid key or a multisignature output with valid keys that requires no more signatures than it has keys.",
 ["inputs"], "every transaction of every block",
 WHY + "No test contains a bad output.",
 [TV], [("output validation", TV+":validateOutputs")], note="Key validity is K04, denominations are N02.")
prop("T03", "No accepted transaction creates money or evades the minimal fee",
 "For every transaction of an accepted block the sums of inputs and of outputs do not overflow, neither is zero, and the outputs do not exceed the inputs. The difference is at least the minimal fee of the height unless it is zero and the transaction is a fusion transaction.",
 ["inputs"], "every transaction of every block",
 WHY + "No test contains an overflow or an underpaid fee.",
 [TV], [("sums", TV), ("fee", TV+":validateTransactionFee")], note="The fee schedule is N02, the fusion predicate T06.")
prop("T04", "Spends outside the checkpoint zone are authorised by ring signatures",
 "Outside the checkpoint zone, every input of every transaction of an accepted block is a key input carrying a ring signature of the transaction's prefix hash and its key image, verified with the input's own signatures against the keys of the outputs it refers to, one signature per reference. The references are the running sums of the input's offsets.",
 ["inputs"], "every transaction of every block outside the checkpoint zone",
 WHY + "All recorded test blocks lie inside the checkpoint zone, where signatures are not verified.",
 [TV], [("ring signature check", TV+":validateTransactionInputExpensive")], note="The verification algorithm is K02; the lookup of output keys is a placeholder (known finding).")
prop("T05", "Size, mixin and extra-field limits hold for accepted transactions",
 "Every transaction of an accepted block is within the transaction size limit of its height; its mixin (the largest number of outputs one of its inputs refers to) is at most the maximum above height 216394 and one or at least the minimum above height 266000. Unless it is a fusion transaction, from height 667000 its fee covers the minimal fee plus the fee for its extra field, and between heights 500001 and 666999 it covers 80 percent of that.",
 ["inputs"], "every transaction of every block",
 WHY + "Recorded test blocks are from heights below these rules.",
 [TV], [("mixin", TV+":validateTransactionMixin"), ("extra", TV+":validateTransactionExtra"), ("size", TV+":validateSize")], note="Limits are N02.")

TAB = "partition tables: abstract evaluation of the function per region of its arguments (intervals, polynomials)"
NET = "config/network.go"
prop("C07", "A refused block changes nothing",
 "When a block is refused, whatever the reason and however late it is found, neither the stored blocks and records nor the chain's top block has changed: the same block or another one can be offered afterwards as if nothing had happened.",
 ["inputs", "histories", "crash_points"], "every block and list of blobs that is refused, at every point of refusal",
 WHY + "Tests never look at the state after a refusal.",
 [CH, "cryptonote/storage_memory.go"], [("admission", CH+":AddBlock"), ("storing", "cryptonote/storage_memory.go:appendBlock")],
 technique="effect analysis over SSA (may-writes rooted in the chain on every failing path)")
prop("T06", "Only genuine fusion transactions are exempt from the fee",
 "A transaction is treated as a fusion transaction only if it is within the fusion size limit of its height, has at least twelve inputs and at least four inputs per output, below height 266000 no input below the dust threshold, and its outputs are, one by one in ascending order, the canonical decomposition of the sum of its inputs.",
 ["inputs"], "every transaction at every height",
 "No test contains a fusion transaction; the predicate frees its sender from the fee, so each condition guards against free transactions.",
 [TV, "cryptonote/utils.go", NET], [("fusion predicate", TV+":IsFusionTransaction"), ("decomposition", "cryptonote/utils.go:DecomposeAmountIntoDigits")],
 note="The decomposition into digits is decided for every amount below 10^7 without a dust threshold; for larger amounts and with the threshold only its use is decided.")
prop("M01", "The memory storage keeps blocks, records and indexes consistent",
 "A block enters the storage only with a record carrying its own hash and index and only if neither is present yet; block, record, transactions, key images and multisignature references are then all filed under that index and the record under that hash, and the top block is the one with the highest index. A refused block leaves no trace. Initialising files the genesis block with a record of index 0, its hash, cumulative difficulty 1, and the size and the first output amount of its base transaction. Looking up by hash or index answers exactly from what was filed and changes nothing.",
 ["histories", "inputs"], "every sequence of storage operations",
 "Tests push a handful of blocks in order; duplicate hashes, duplicate indexes and mismatching records are never tried.",
 ["cryptonote/storage_memory.go", "cryptonote/storage.go"], [("storing", "cryptonote/storage_memory.go:PushBlock"), ("lookup", "cryptonote/storage_memory.go:GetBlock")],
 state=[("blockInfosHashIndex", "record of each stored block by hash", "cryptonote/storage_memory.go"), ("blockIndex", "block by index", "cryptonote/storage_memory.go")],
 technique="abstract interpretation over SSA: facts and effects of every path of each operation")
prop("N02", "Consensus schedules and limits are right at every height and version",
 "For every height and every block version the network parameters give the prescribed values: hard-fork schedule, future limit and timestamp window, unlock window, transaction and block size limits, minimal fees, extra-field fee, mixin bounds, fusion limits, reward and difficulty windows; and exactly the amounts d*10^k are canonical denominations. On the main net and on the test net.",
 ["inputs"], "every height (32 bit), version (8 bit), amount and size",
 "Tests sample a few heights of a few functions; an off-by-one at one boundary height splits the network.",
 [NET, "config/params.go"], [("schedules", NET), ("constants", "config/params.go")], technique=TAB)
prop("N05", "The next difficulty keeps its bounds and its special cases",
 "NextDifficulty refuses a list of timestamps that is longer or shorter than the list of cumulative difficulties (versions 1, 2, 4 and 5, outside the first 120 blocks of version 5 and height 700000), and for version 4 a list of more than 61. The first blocks of a chain, fewer than two before version 3 and fewer than four in version 3, give difficulty 1. At height 700000 the difficulty of version 5 is the first cumulative difficulty divided by 700000 and by 1000. On the main net an answer computed from a longer window is never below 100000 in versions 3, 4 and 5 (height 700000 excepted); in version 2 it is that or 0, which the chain refuses.",
 ["inputs"], "every height, version and pair of lists",
 "Tests compare a few recorded windows; a floor lost on one branch shows only when the work of the network drops.",
 [NET, "config/params.go"], [("difficulty", NET+":NextDifficulty"), ("constants", "config/params.go")], technique=TAB,
 note="The value inside the bounds, a weighted mean of the window in integers and floating point, is not decided.")
prop("N03", "Checkpoints bind block hashes",
 "A checkpoint is added only where there is none. A block hash passes exactly when its height has no checkpoint or the checkpoint has that hash; a height is inside the checkpoint zone exactly up to the highest checkpoint; an alternative chain is allowed exactly above the genesis block, within the unlock window unless inside the zone, and above every checkpoint the chain has reached.",
 ["inputs", "histories"], "every set of checkpoints in every order of addition (alternative chains: up to three), every height and hash",
 "Tests add two checkpoints in order and ask at a few heights.",
 ["config/checkpoints.go"], [("zone", "config/checkpoints.go:IsInCheckpointZone"), ("hash", "config/checkpoints.go:CheckBlock"), ("alternatives", "config/checkpoints.go:AlternativeBlockAllowed")],
 technique="abstract interpretation over SSA: facts and effects of every path, symbolic checkpoints with an order domain")
prop("N04", "The block reward follows emission curve, penalty and tail emission",
 "For every version, coins generated, median and size: the base reward is the remaining supply shifted by the emission factor, or, once that falls below the tail reward, two percent of the coins generated spread over a year's blocks; up to the median (at least the full reward zone of the version) nothing is deducted; up to twice the median reward and fees are reduced by (2M-size)*size/M^2; beyond, the block is refused. The emission reported excludes the fees kept.",
 ["inputs"], "every version, amount of coins, median, size and fee in the stated ranges",
 "Tests compare a few recorded rewards, all below the median and before the tail emission.",
 [NET, "utils/math.go", "utils/slices.go"], [("reward", NET+":GetBlockReward"), ("median", "utils/math.go:MedianSlice")], technique=TAB,
 note="Polynomial identity of the result per region, with the 128-bit helpers uninterpreted; coin counts between the regions next to the tail switch are not covered.")
TX = "cryptonote/transaction.go"
BL = "cryptonote/block.go"
PB = "cryptonote/block_parent.go"
EX = "cryptonote/transaction_extra.go"
GR = "abstract interpretation over SSA with byte streams: the sequence of reads and writes of every path is compared with a grammar of the format"
SWHY = "The tests decode and encode a few recorded blocks and transactions; most alternatives of the format, all counts at their limits and every malformed input stay untested. "
prop("S01", "Transactions are read and written in the network's format",
 "A transaction is written as, and read from, exactly: varint version, varint unlock height, the inputs (varint count; tag 0xff with varint block index, or tag 2 with varint amount, varint count of varint offsets and the 32-byte key image; any other kind is refused when read), the outputs (varint count; varint amount, then tag 2 and the 32-byte key; any other kind is refused when read), the extra field (varint length, bytes), then 64-byte signatures, one per offset of each key input. Each value lands in its own field, nothing is cut off: a number too large for its field is refused. Whatever follows that format is accepted.",
 ["inputs"], "every transaction, every byte sequence",
 SWHY, [TX], [("prefix", TX+":serialize"), ("reading", TX+":deserialize"), ("signatures", TX+":TransactionSignatures")],
 technique=GR, note="Field by field for both directions; equality of re-encoded bytes for non-canonical varints is outside.")
prop("S02", "Blocks of every version are read and written in the network's format",
 "A block of major version 1, 4 and 5 carries varint major and minor version, varint timestamp, 32-byte previous hash and 4-byte nonce, version 5 also its 64-byte signature; one of version 2 or 3 carries the versions and previous hash followed by its parent block (with a merge-mining tag of depth at most 256 and a branch of that length), and takes timestamp and nonce from the parent. Then follow the base transaction and the list of transaction hashes. Writing and reading agree on this for every version, numbers too large for their field and unknown major versions are refused, and whatever follows the format is accepted.",
 ["inputs"], "every block of every version, every byte sequence",
 SWHY + "No test decodes a version 5 block.", [BL, PB, TX], [("header", BL+":BlockHeader"), ("block", BL+":Deserialize"), ("parent", PB)], technique=GR)
prop("S03", "Truncated, oversized or trailing data never yields a decoded value",
 "Decoding a block or a transaction delivered by a peer succeeds only if the delivered bytes are one complete value: a read that fails, a count or length beyond the remaining bytes, an unknown tag, a number too large for its field, or bytes left over after the value make the decoding fail. The same holds for the fields of the extra field.",
 ["inputs"], "every byte sequence a peer delivers",
 "Tests decode valid data; no test truncates it or appends to it.",
 [TX, BL, PB, EX, "p2p/notification.go", CH], [("delivered block", "p2p/notification.go:ToBlock"), ("delivered transactions", CH+":deserializeTransactions"), ("extra field", EX)], technique=GR)
prop("S04", "Decoding allocates no more than the delivered data justifies",
 "While a block, a transaction or an extra field is decoded, no allocation has a size taken from the data unless that number has been compared with the bytes that remain or with a small constant, or a narrow type bounds it.",
 ["inputs"], "every byte sequence a peer delivers",
 "A test would have to offer the one count that exhausts the memory of the machine.",
 [TX, BL, PB, EX], [("transaction", TX+":deserialize"), ("block", BL+":Deserialize"), ("parent block", PB), ("extra field", EX)],
 technique="taint analysis on the abstract byte streams: every allocation on a path from the decoders")
prop("S05", "Identity hashes cover exactly the data they identify",
 "The hash of a transaction is the Keccak hash of its whole encoding, that of its prefix and of a base transaction the hash of the prefix. The hashing bytes of a block are its header, the Merkle root over the hash of the base transaction followed by the transaction hashes in order, and their number; the block's hash is the Keccak hash of these bytes (in versions 2 and 3 followed by the parent block in its hashing form) prefixed by their length. A cached hash is only ever the one computed.",
 ["inputs", "histories"], "every block of every version, every transaction",
 "Tests compare the hashes of a few recorded values; a hash that misses a field still matches there when the field is empty, and stale caches need a second use.",
 [BL, PB, TX, "crypto/hash.go"], [("block", BL+":Hash"), ("hashing bytes", BL+":HashingBytes"), ("transaction", TX+":Hash")], technique=GR,
 note="The Merkle tree, the branch hash and Keccak themselves are uninterpreted.")
prop("S06", "The extra field is split into its fields exactly",
 "The extra field of a transaction is read as a sequence of fields: padding (tag 0 and at most 255 further bytes, all zero, up to the end), public key (tag 1, 32 bytes), nonce (tag 2, one length byte, that many bytes), merge-mining tag (tag 3, size 33, varint depth, 32-byte root). Any other tag, size or content is refused, and each field lands in its own place. Every sequence of that form is accepted.",
 ["inputs"], "every extra field",
 "Tests parse a few recorded extra fields, which have a key and a nonce only.",
 [EX], [("parser", EX+":TxExtraFromBytes")], technique=GR)
ND = "p2p/node.go"
PE = "p2p/peer.go"
HS = "p2p/command_handshake.go"
GO_ = "p2p/notification_response_get_objects.go"
PS = "p2p/peerstore.go"
PWHY = "The tests run no node against a peer. "
prop("P01", "Peers are admitted by a handshake of the same network",
 "A handshake request is accepted, and answered, only on a connection the peer opened, from a peer that names this node's network and has not introduced itself on this connection before; the peer is then known by the identifier and version it sent. A refused one leaves the peer shut down. A handshake this node starts is sent only before any other, and succeeds only if the answer names its network and at least the minimum protocol version; the peer is then known by the identifier it sent.",
 ["inputs", "histories"], "every handshake message and answer, every state of the connection",
 PWHY + "Refusals need a hostile peer and the order of messages on a connection is arbitrary.",
 [HS, PE, ND], [("incoming handshake", HS+":HandleHandshake"), ("outgoing handshake", PE+":handshake"), ("answer", ND+":handleCommand")],
 state=[("Peer.ID", "identifier the peer introduced itself with, 0 before", PE), ("Peer.state", "state of the connection", PE)],
 note="Decides admission on every path; an incoming handshake is not held to a minimum version by the code.")
prop("P02", "Only requested blocks reach the chain, each with its own transactions",
 "When a peer delivers blocks, the chain is offered any of them only after every block of the delivery decoded completely, was requested from this peer, came with as many transactions as it names, and no requested block is missing; none of them stays requested. Blocks are offered only if the peer announces at least the height it announced before. The chain is offered blocks of the delivery only, each with the transactions delivered with it, and the delivery is handled successfully only if the chain accepted every block.",
 ["inputs", "histories"], "every delivery, every list of requested blocks",
 PWHY + "The guarantee is about deliveries of any length with one bad block at any position.",
 [GO_, ND, "p2p/notification.go", "crypto/hash.go"], [("delivery", GO_+":HandleResponseGetObjects"), ("decoding", "p2p/notification.go:ToBlock"), ("offering", ND+":processNewObjects")],
 state=[("Peer.requestedBlocks", "hashes of the blocks requested from the peer", PE)],
 note="Loop-quantified facts at the call of AddBlock.")
prop("P03", "A peer that breaks the protocol is shut down",
 "These are refused, and the peer is shut down: a delivery that is empty, announces a lower height than before, contains a block that does not decode, was not requested or has the wrong number of transactions, or leaves out a requested block; a chain request that is empty or does not end in this network's genesis block; a chain entry that is empty, does not start at a block of this chain, or ends above the height the peer claims; sync data too deep behind inside the checkpoint zone. Nothing more is read from a peer that is shut down.",
 ["inputs", "histories"], "every message of a peer, every state of the connection",
 PWHY + "Each refusal needs its own malformed message.",
 [ND, GO_], [("notifications", ND+":handleNotification"), ("delivery", GO_+":HandleResponseGetObjects"), ("sync data", ND+":processSyncData"), ("connection loop", ND+":connectionHandler")],
 state=[("Peer.state", "PeerStateShutdown ends the connection", PE)],
 technique="path-separated abstract interpretation over SSA (bounded number of loop iterations for the state facts)")
prop("P04", "Connections and goroutines of the node end with the node",
 "However its handler returns, a peer connection is closed, and while the handler runs a goroutine closes the connection as soon as the node is stopped and ends with the handler. The listener is closed when the node is stopped, which it notices within a bounded time. The listener and every connection are counted in before their goroutine starts and counted out exactly once when it ends; only accepted connections get a handler; the node returns only after it waited for all of them.",
 ["schedules", "histories"], "every schedule, every way a connection or the node can end",
 "Leaks show only after many connections or at shutdown under load; the tests start no node.",
 [ND], [("listener", ND+":runListener"), ("connection", ND+":connectionHandler"), ("incoming connection", ND+":handleIncomingConnection"), ("start", ND+":Run")],
 state=[("Node.wg", "listener and connections that have not ended", ND)],
 technique="typestate and effect analysis over SSA with deferred calls (must-happen events on every path, goroutine captures matched)",
 note="Assumes the documented behaviour of net, context and sync.")
prop("P05", "A node describes itself truthfully to its peers",
 "Handshake requests and answers carry the identifier of the node's network and its current protocol version; they and answers to timed sync carry the height one above the top block's index and the top block's hash. A request is answered with the command it carried, handshake and timed sync answers list the known peers, and a chain request carries the sparse chain of the node.",
 ["inputs", "histories"], "every state of the chain and of the peer lists, every request",
 "Tests build these messages once for an empty chain.",
 [HS, "p2p/command.go", "p2p/notification_request_chain.go", ND], [("handshake", HS), ("sync data", "p2p/command.go"), ("chain request", "p2p/notification_request_chain.go"), ("answers", ND+":handleCommand")],
 note="What the chain answers for its top block is M01.")
prop("P06", "The lists of known peers stay consistent",
 "Moving a peer to the white or the grey list succeeds only if the peer has an identifier and the list has no other peer with it; the peer is then filed there under its identifier and is not in the other list. The list of peers given to others contains every white and every grey peer with its identifier and address.",
 ["inputs", "histories"], "every peer and every content of the lists",
 "Tests cover a single peer.",
 [PS, PE], [("lists", PS), ("entry", PE+":PeerEntry")],
 state=[("peerStore.white, peerStore.grey", "peers by identifier", PS)])
LV = "p2p/levin.go"
prop("W01", "Messages travel in complete, correct frames",
 "A message is sent as one write of a 33-byte head (little-endian: signature 0x0101010101012101, body size, answer-expected byte, command, return code, flags with 1 for requests and 2 for answers, version 1) and its whole encoding, and counts as sent only if the connection took it. A frame is accepted exactly if all of it arrived, its signature matches and its size is at most 100,000,000, which is checked before memory is taken for it; its fields come from their places in the head. An answer is taken only for the command sent, marked as an answer, and decoded.",
 ["inputs", "fault_sequences"], "every message, every content of the connection",
 "The tests exchange no frames with a peer that sends broken or hostile heads.",
 [LV], [("sending", LV+":write"), ("receiving", LV+":read"), ("request and answer", LV+":Invoke")],
 technique="abstract interpretation of byte streams: contents and read positions compared with the frame layout byte by byte",
 note="The connection is taken to report incomplete writes as errors, as net.Conn documents.")
LK = "interprocedural lock-set analysis over SSA from every entry point, separately for every path"
prop("L01", "Locks are released on every path and never deadlock",
 "Whatever an operation does and however it returns, it releases every lock it took, and only locks it holds, in the mode it took them. No goroutine takes a lock it already holds, not even a second time for reading, and locks of different structures are always taken in the same order.",
 ["schedules", "histories"], "every path of every operation of the chain, the storage, the checkpoints, the peers and the node, every interleaving of them",
 "A forgotten unlock sits on an error path and a deadlock needs two goroutines at the right moment; the tests are sequential and mostly successful.",
 [CH, "cryptonote/storage_memory.go", "config/checkpoints.go", PS, PE, ND], [("chain lock", CH), ("storage lock", "cryptonote/storage_memory.go"), ("checkpoint lock", "config/checkpoints.go"), ("peer locks", PE), ("peer list lock", PS)],
 technique=LK, note="A lock is identified by the structure type and field that hold it; two peers' locks are taken for the same one.")
prop("L02", "Shared state is touched only under its lock, each operation atomic",
 "The blocks and indexes of the storage, the top of the chain, the checkpoints and the lists of known peers are read only while their lock is held and changed only while it is held for writing. Each operation on the storage, the checkpoints and the peer lists does its work in a single locked section, and adding a block holds the chain for writing from its first look at the chain until it ends.",
 ["schedules", "histories"], "every interleaving of the goroutines of a node",
 "Lost updates and torn reads need two connections working at the same moment; the tests are sequential.",
 [CH, "cryptonote/storage_memory.go", "config/checkpoints.go", PS], [("admission of a block", CH+":AddBlock"), ("storage", "cryptonote/storage_memory.go"), ("checkpoints", "config/checkpoints.go"), ("peer lists", PS)],
 state=[("memoryStorage maps, BlockChain.bestTip, checkpoints.points, peerStore lists", "shared by all connections", "cryptonote/storage_memory.go")],
 technique=LK, note="The cached genesis block is excluded: it is computed by the initialisation, before the chain is shared.")
SG = "crypto/signature.go"
KD = "crypto/key_derivation.go"
KY = "crypto/key.go"
CT = "abstract interpretation over SSA with the curve operations as uninterpreted functions, compared with the algebraic definition"
prop("K01", "A signature verifies exactly under its message and key",
 "A signature is accepted exactly if the public key is a curve point, both its scalars are reduced, the first is not zero, the commitment rebuilt from the signature (first scalar times the key plus second scalar times the base point) is not the neutral element, and the first scalar equals the hash of message, public key and that commitment reduced modulo the group order. Signing refuses an invalid secret key and yields exactly this hash for a fresh random nonce's commitment together with nonce minus hash times secret, neither of them zero.",
 ["inputs"], "every message, key and signature",
 "The tests check recorded signatures; forged ones with unreduced scalars, neutral commitments or foreign keys are not in them.",
 [SG, "crypto/crypto.go"], [("verification", SG+":Check"), ("signing", SG+":Sign")], technique=CT,
 note="The group law and scalar arithmetic of edwards25519 are taken as the named operations; Keccak is H01, the random nonce K03.")
prop("K02", "A ring signature verifies exactly under its message, ring and key image",
 "A ring signature is accepted exactly if it has one pair of scalars per ring key, all keys and the image are curve points, all scalars are reduced, with image checking requested the image lies in the prime-order subgroup, and the sum of the challenges equals the reduced hash of message and, for each member in order, both commitments rebuilt from that member's key, scalars and the image. Signing demands that the secret key is the one of the named ring member and of the key image; it uses fresh random scalars for every other member and closes the ring with the signer's.",
 ["inputs"], "every message, ring, image and list of signatures",
 "The tests check recorded rings; rings with missing, surplus, reordered or malformed members are not in them.",
 [SG, "crypto/hash.go"], [("verification", SG+":CheckRingSignature"), ("signing", SG+":GenerateRingSignature"), ("hashed buffer", SG+":toScalar")], technique=CT,
 note="Which checks protect a transaction is T04; the arithmetic of edwards25519 is taken as given.")
prop("K03", "Secret keys and nonces come from the system's random source",
 "Every random scalar, and with it every generated secret key, is 64 bytes read completely from the operating system's cryptographic random source, reduced modulo the group order; if the bytes cannot be read no scalar is returned. The view key derived from a spend key is its reduced Keccak hash.",
 ["inputs", "fault_sequences"], "every call, every answer of the random source",
 "No test can tell a predictable scalar from a random one.",
 ["crypto/crypto.go", KY], [("random scalar", "crypto/crypto.go:RandomScalar"), ("key generation", KY+":GenerateKey")], technique=CT)
prop("K04", "One-time keys and key images follow the CryptoNote definitions",
 "A derivation is eight times secret scalar times public point; the one-time public key of an output is the base key plus the scalar hash(derivation, output index as varint) times the base point, underiving subtracts the same, and the one-time secret key adds the same scalar. A key image is the secret scalar times the point the public key hashes to. Each of these, and computing a public key, refuses secret scalars that are not reduced and public keys that are not curve points, and refuses nothing else.",
 ["inputs"], "every key, derivation and output index",
 "The recorded vectors use valid keys and small output indexes.",
 [KD, KY, "crypto/key_image.go", "crypto/hash.go"], [("derivation", KD), ("key image", "crypto/key_image.go:GenerateKeyImage"), ("public key", KY+":PublicFromSecret"), ("hash to point", "crypto/hash.go:toEc")], technique=CT,
 note="The arithmetic of edwards25519 is taken as the named operations.")
prop("H01", "Hashes are Keccak-256 of all the bytes; hash lists answer truthfully",
 "The hash of a byte string is the original (pre-standard) Keccak-256 of exactly these bytes, kept whole. Looking up a hash in a list finds its first position exactly if the list contains it, and removing it takes out that one element and keeps all others in order.",
 ["inputs"], "every byte string, every list",
 "Tests hash a few strings and never remove from a list.",
 ["crypto/hash.go"], [("hash function", "crypto/hash.go:Keccak"), ("hash lists", "crypto/hash.go:Index")],
 technique="abstract interpretation of byte streams and loops",
 note="The Keccak permutation is golang.org/x/crypto/sha3; Merkle trees of more than two leaves are not decided.")
prop("A01", "An address text stands for exactly one tag and pair of keys",
 "A text is read as an address exactly if it decodes, its last four bytes are the first four of the Keccak hash of all bytes before them, and these are the minimal varint of a tag followed by the spend and the view key, both points of the curve, and nothing else; then tag and keys are the ones read and the text kept is this one. A refused text leaves the address unchanged. An address without kept text is written as the encoding of tag, spend key, view key and that checksum.",
 ["inputs", "histories"], "every text, tag and pair of keys, addresses used again",
 "The tests read a few valid addresses; broken checksums, padded tags, keys off the curve and reused addresses are not among them.",
 ["cryptonote/address.go"], [("reading", "cryptonote/address.go:FromString"), ("checksum", "cryptonote/address.go:addressDecode"), ("writing", "cryptonote/address.go:addressEncode"), ("kept text", "cryptonote/address.go:Base58")],
 technique="abstract interpretation of byte strings, all paths of reading and writing",
 note="The base58 encoding is A02, Keccak H01, the curve check K04. Changing the exported fields of an address that already keeps a text is outside.")
prop("A02", "base58 blocks are the big-endian digits of their bytes",
 "Bytes are written in blocks of eight, the last one shorter: a block of 1 to 8 bytes becomes 2, 3, 5, 6, 7, 9, 10 or 11 characters, the digits to base 58 of the big-endian number, most significant first, from the alphabet 1-9 A-Z a-z without 0, O, I and l. A text is cut into blocks of eleven characters and a rest and read back the same way; it is refused exactly if a block has another length or a character outside the alphabet, or stands for a number too large for its bytes. All parts follow each other in their order.",
 ["inputs"], "every block of every length, whatever its bytes or characters",
 "The tests go through some dozens of blocks; they cannot go through the numbers of a block, all characters or all lengths.",
 ["crypto/base58/base58.go"], [("reading a block", "crypto/base58/base58.go:decodeBlock"), ("writing a block", "crypto/base58/base58.go:encodeBlock"), ("cutting", "crypto/base58/base58.go:Decode"), ("joining", "crypto/base58/base58.go:Encode")],
 technique="abstract interpretation per block length with symbolic bytes and digits: linear forms, overflow guards and byte provenance; table lint",
 note="Blocks are analysed for every length; cutting and joining for every total length up to 122 characters and 90 bytes (addresses have 95 to 110 characters).")
KVE, KVD, KVM = "encoding/binary/encode.go", "encoding/binary/decode.go", "encoding/binary/metadata.go"
KVW = "The tests encode and decode a handful of recorded messages; they contain no broken, hostile or boundary-sized data."
prop("W02", "Messages are encoded exactly as the key-value format prescribes",
 "An encoded message is the nine-byte head and the record: the number of fields that are not left out, then each in the order of its structure as the length of its name, its name, its type byte and its value; only a field marked so is left out, and only when it is empty. Numbers are little-endian in the width of their kind, lengths take one, two, four or eight bytes (the fewest that hold them, marked in the two lowest bits), text and binary data follow their length in bytes, and arrays are the number of items and the items, with the type of the items and the array flag as type. What does not fit the format (a longer number, a name above 255 bytes, another kind) is refused, as is a message of which a part could not be written.",
 ["inputs", "programs"], "every value of every structure that is encoded", KVW,
 [KVE, "encoding/binary/binary.go", "encoding/binary/header.go", "encoding/binary/constants.go", KVM], [("value", KVE+":writeValue"), ("field", KVE+":encode"), ("type", KVE+":getType"), ("number", KVE+":writeVarInt"), ("message", "encoding/binary/binary.go:Marshal"), ("fields", KVM)],
 technique="abstract interpretation of byte streams over SSA: the content written on every path is compared with the grammar of the format, lengths bit by bit",
 note="Values are seen through the reflection interface; its documented behaviour is taken as given, and so is that of encoding/binary for fixed-size values.")
prop("W04", "Decoding a message accepts only complete, fitting data, and ends",
 "A message is accepted only if its head is the format's, every field it holds is one of the record's, every value is of the type its field takes and all announced fields, items and bytes are present; what is accepted is stored in the field of its name. A message that meets this is not refused. Decoding takes memory only for data that has arrived and every step of a loop uses up data, whatever sizes are announced.",
 ["inputs"], "every sequence of bytes a peer can send, every structure it is decoded into", KVW,
 [KVD, "encoding/binary/binary.go", "encoding/binary/header.go", "encoding/binary/constants.go", KVM], [("value", KVD+":readValue"), ("record", KVD+":decode"), ("name", KVD+":readName"), ("number", KVD+":readVarInt"), ("message", "encoding/binary/binary.go:Unmarshal"), ("fields", KVM)],
 technique="abstract interpretation of byte streams over SSA: on every accepting and refusing path the facts about what was read decide, plus a progress and an allocation rule for every loop and allocation",
 note="Values are stored through the reflection interface; its documented behaviour is taken as given. Bytes after the record and a field that appears twice are not refused.")
prop("W03", "Every message has the structure its command prescribes",
 "Each known command is decoded into, and only into, the structure of its number: 1001 handshake, 1002 timed synchronisation, 2001 new block, 2002 new transactions, 2003 request of objects, 2004 objects, 2006 request of a chain, 2007 chain entry, 2008 pool, 2009 light block, each with the field names, widths, packing and optional fields of the protocol; a message with another command, or that does not decode, is refused, and no other is. Everything the node sends is the structure itself (not a pointer to it) that belongs to the command it is sent with, and an answer is decoded into the answer's structure of the command asked. A request is answered with its own command number and the answer of that command.",
 ["programs", "inputs"], "every command number and every place that sends", "The tests decode recorded messages of a few commands; sending is not tested, and most commands appear in no test.",
 ["p2p/command.go", "p2p/command_handshake.go", "p2p/notification.go", "p2p/notification_request_chain.go", "p2p/notification_response_get_objects.go", PE, ND], [("commands", "p2p/command.go:parseCommand"), ("notifications", "p2p/notification.go:parseNotification"), ("sending", PE), ("answers", ND+":handleCommand")],
 technique="type-level analysis: the schema of every structure is computed from the type-checked program and compared with the protocol's at every decoding entry and every sending call, commands traced to constants through parameters",
 note="The schema is that of the original protocol as far as the node speaks it; structures are identified by their fields, not by their names.")
prop("R01", "No message of a peer crashes the node",
 "Whatever bytes a peer sends, in whatever order, no function the node runs panics: every index and slice is within its bounds, every type assertion holds, no division is by zero, no pointer that a lookup or a failed call may leave empty is followed, and no explicit panic is reached. Excepted are the difficulty formulas, the tree of hashes and the arithmetic of the curve, whose operands are not bounded by comparisons.",
 ["inputs", "histories"], "every instruction that may panic in every function reachable from the node, under all arguments its callers can pass",
 "A handful of tests feed well-formed messages; one malformed message suffices to end the process.",
 [ND, PE, HS, GO_, "p2p/command.go", "p2p/notification.go", PS, "p2p/levin.go", KVD, KVE, CH, TV, TX, BL, PB, EX, "utils/math.go", "utils/slices.go", "crypto/hash.go", "crypto/signature.go"],
 [("messages", ND+":handleNotification"), ("blocks", CH+":AddBlock"), ("decoding", KVD+":readValue"), ("transactions", TX+":deserialize"), ("parent block", PB+":deserialize")],
 technique="interprocedural abstract interpretation over SSA: every instruction that may panic is an obligation, discharged by the facts of every path and linear arithmetic over them, in the function or in all its callers",
 note="Pointers passed as parameters or kept in structures and maps are taken as set; the store is taken to hold every predecessor of a stored block and its details; the hash functions and the random source do not fail; memory and stack are not counted.")
prop("P07", "What a peer sends stays inside the node",
 "Nothing that runs for a connected peer, from accepting its frames to validating its blocks, writes, reads or removes files, starts or signals processes, changes the environment, opens further connections or asks the network, or ends the process. Its effects are confined to the node's memory, the connection itself and the log.",
 ["inputs", "histories"], "every function reachable from the handler of a connection, whatever the peer sends",
 "A test sees the effects of the messages it sends, not those of the branches it does not take.",
 [ND, PE, HS, GO_, "p2p/levin.go", PS, CH, KVD], [("connection", ND+":connectionHandler"), ("messages", ND+":handleNotification"), ("blocks", CH+":AddBlock")],
 technique="effect analysis over the call graph (static calls, interface calls resolved to all implementations, functions used as values): every reachable library call is classified",
 note="Library functions are judged by their documented purpose; effects a permitted library function has beyond it are not seen. The log may go to a file.")
prop("N01", "Every node decides alike about a block",
 "Whether a block or transaction is accepted, how it is decoded and what its hash is depend only on the bytes, the chain and, through refusals of the future alone, the clock: no randomness, environment, order of a map or schedule of goroutines enters. The clock is only compared, and its advance never turns an accepted block or transaction into a refused one.",
 ["inputs", "histories", "schedules"], "every function reachable from adding a block, decoding and hashing",
 "A test runs on one node, at one time, with one order of the maps.",
 [CH, TV, NET, TX, BL, PB, EX, "crypto/hash.go", "crypto/signature.go"], [("blocks", CH+":AddBlock"), ("version schedule", NET+":GetBlockMajorVersion"), ("clock", NET+":Timestamp"), ("future blocks", CH+":validateBlock"), ("lock times", CH+":IsTransactionSpendTimeUnlocked")],
 technique="effect and dataflow analysis over the call graph: sources of nondeterminism are excluded, readings of the clock are followed with their sign into every comparison, loops over maps must commute",
 note="Storage and sorting are taken to answer equal questions equally; floating point is taken to be the same on every machine.")
prop("H02", "A list of hashes stands for the root of its Merkle tree",
 "For every number of hashes from one on, the root of a hash list is the root of the CryptoNote tree: the hashes beyond the largest power of two below their number are joined in pairs at the end of the list, then neighbours are joined until one hash is left. A leaf with a branch gives the hash obtained by joining it with the hashes of the branch from the last to the first. Neither changes the list.",
 ["inputs"], "every list of hashes, of every length",
 "Tests compare one tree of a recorded block; the shape of the tree differs for every length.",
 ["crypto/hash.go"], [("root", "crypto/hash.go:MerkleRootHash"), ("branch", "crypto/hash.go:TreeHashFromBranch")], technique="constant propagation of lengths and positions with uninterpreted contents: the expression computed for every length is compared with the tree",
 note="Decided for every list of up to 140 hashes (520 in the thorough run) and branches of up to 40 (200); contents are arbitrary.")
def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=[], observe=[], reason=reason))
NA = []
na("N06", "The next difficulty has the value of the reference implementation",
 "For every window of timestamps and cumulative difficulties NextDifficulty gives the number the C++ node computes, in every version.",
 ["inputs"], "every window", "Tests compare a few recorded windows.", [NET], [("difficulty", NET+":NextDifficulty")],
 "The value is a weighted mean over up to 735 free 64 bit values, in version 3 in floating point; no static argument bounds its rounding, and there is no reference source here to compare with. Its bounds and special cases are N05.")
na("K05", "The curve arithmetic computes the group operations of edwards25519",
 "Additions, doublings and scalar multiplications of crypto/edwards25519 give the point the group law prescribes, for every operand.",
 ["inputs"], "every point and scalar", "Tests use recorded vectors; a lost carry needs particular limbs.", ["crypto/edwards25519/edwards25519.go"], [("field and group arithmetic", "crypto/edwards25519/edwards25519.go")],
 "The limbs are multiplied and carried as machine integers; deciding the identities modulo 2^255-19 with carries needs a solver or a proof assistant, another family. How the operations are composed is K01 to K04.")
na("P08", "A node among honest peers reaches the longest chain they offer",
 "Connected to at least one honest peer with a longer valid chain, the node ends on that chain.",
 ["schedules", "histories"], "every order of messages and connections", "Tests connect no two nodes.", ["p2p/"], [("synchronisation", "p2p/node.go")],
 "Liveness over network schedules: it depends on when peers answer, which the source does not bound. What each delivered message may do is P01 to P07.")
