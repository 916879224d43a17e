HOW = {
"C01": "Facts at every accepting return of `AddBlock`: the block is not stored yet, its predecessor is, its index is one above, the top moves to it and only after the storage accepted it.",
"C02": "Facts at every accepting return: the version is the schedule's for the index, the timestamp is at most the version's limit ahead and, once the window is full, not below the median of the window's timestamps; the window holds the blocks below the candidate, never itself. The parent block of merge-mined versions is bounded.",
"C03": "Facts about the base transaction at every accepting return: one coinbase input naming the block's index, unlock window, no signatures, quantified facts over all outputs, sum without overflow.",
"C04": "Quantified facts over the delivered transactions: each decodes completely, its hash is the one named at its position, no hash twice, none in the chain; counts agree.",
"C05": "Data flow of the compared quantities: reward claimed = sum of outputs; reward computed = reward function of version, median of the window, block size, coins generated below, and the sum of all fees.",
"C06": "Path facts: difficulty from the windows below, not zero; version 5 signature under the first output's key over the hashing bytes; checkpoint test inside the zone, proof of work outside.",
"C07": "May-effects on every refusing path: nothing that hangs off the chain, what its storage hands out by reference, the block and its transactions is written; a forward walk from every store of a block shows that no refusal follows a success.",
"C08": "Relations between the arguments of the storage call and the validated values (hash, index, cumulative values, key images of all inputs, transactions).",
"C09": "Size accumulated over all transactions and compared with the limit of the height; windows of sizes, timestamps and difficulties contain the prescribed number of blocks ending at the predecessor.",
"T01": "Quantified facts over inputs: type, amount, key images distinct within and across the block's transactions, subgroup test, not spent, output references ascending without overflow.",
"T02": "Quantified facts over outputs: amount positive, canonical above the threshold height, key valid, multisignature counts.",
"T03": "Facts about sums (each addition checked for overflow) and about the fee: inputs at least outputs, fee at least the minimum unless fusion or inside the rules' exemption.",
"T04": "Outside the checkpoint zone every key input reaches the ring signature verification with the prefix hash, its image, the keys of the referenced outputs and its own signatures; a refusal there refuses the transaction.",
"T05": "Facts against the parameter functions: size, extra field, mixin over all inputs, extra fee.",
"T06": "Facts at the accepting return of the fusion predicate, per side of height 266000; decomposition decided per number of digits with symbolic digits.",
"M01": "Facts and effects of every exported operation of the storage; lookups write nothing of what is stored.",
"N02": "One table per parameter function: regions of height/version/size and the value prescribed there; the 172 denominations are compared one by one.",
"N03": "Facts of every operation; the answer for alternative chains is decided for up to three checkpoints with symbolic heights; sortedness after every addition; questions write nothing.",
"N04": "Table of regions with polynomial identity; the median is decided for every length up to 121.",
"N05": "Regions of height, version and list lengths; each outcome is the prescribed value, an error, or bounded below by the interval domain; loops are joined, so the bound holds for every window.",
"N01": "From the acceptance of a block: clock, random numbers, environment, goroutine order, pointer formatting and map order may not reach what is decided; the clock may only be compared, and later clocks only admit more.",
"S01": "Reads and writes of every path compared with the grammar of transactions; field by field identity.",
"S02": "The same for blocks, headers and parent blocks of every version.",
"S03": "On every path to success each read was complete, each length was checked before use, and nothing is left.",
"S04": "Every allocation and loop bound that depends on read data is limited by the bytes that are left.",
"S05": "The bytes that are hashed are exactly the serialisation of the identified data, in order.",
"S06": "The grammar of the extra field with its tags, limits and nested records.",
"P01": "Facts at accepting and refusing returns of both handshake directions.",
"P02": "Quantified facts at every call that hands a block to the chain.",
"P03": "Each way to break the protocol, as a condition on the received message: on every path where it holds the peer is shut down.",
"P04": "Every goroutine is counted in before it starts and out on every path; every connection is closed on every path; waits end with the context.",
"P05": "Facts about the contents of requests and answers.",
"P06": "Effects on the two lists: an identifier is in one list at most, moves keep the entry, capacity of nothing is assumed.",
"P07": "No call reachable from a message acts on files, processes, environment or other hosts; the log and the peer's own connection are the permitted sinks.",
"W01": "The bytes written for a frame and the conditions under which a received frame is accepted.",
"W02": "For every kind of value the bytes written are those of the format, lengths in the shortest form, recursion on the value's own parts.",
"W03": "Schema of every message type from its tags and types compared with the protocol's; every identifier maps to its structure, decoding goes through pointers, encoding through values.",
"W04": "On every accepting path of the decoder each value was complete and fits its field; allocations bounded by the data; every loop consumes data.",
"L01": "Lock states along every path from every entry point, interfaces resolved to the module's types.",
"L02": "Guarded fields of chain, storage, checkpoints, peers and lists are touched only with their lock; check and act lie in one section.",
"K01": "Normal form of the verification equation and of signing over uninterpreted curve operations.",
"K02": "The same for rings, with quantified facts over the members; the hashed bytes are prefix, then both commitments of every member.",
"K03": "Bytes of secret scalars come from crypto/rand, completely read, error checked, reduced.",
"K04": "Derivation, one-time keys and images as terms over curve operations; the cofactor is applied; index in its encoding.",
"H01": "The data given to Keccak are exactly the argument; list operations by their loops.",
"H02": "The value computed for every length is an expression over hashes of hashes; it has to be the expression of the tree.",
"A01": "Paths of reading and writing an address: tag, keys, checksum, complete consumption, canonical text, cached text belongs to the value.",
"A02": "Blocks: the polynomial of the digits; lengths table; overflow of the sum refused; alphabet from its literal.",
"R01": "200 obligations: one per reachable function and kind of hazard; bounds, nil, type assertions, division, shifts, conversion of lengths, closed channels, explicit panics.",
}
