T = "deductive verification: contracts on the real Go code, verification conditions from its SSA on every run, discharged by SMT (z3, cvc5)"
B = " A bounded run of the real code, in a scratch directory, looks for a failing input to report and covers what is not under contract; it is not counted as proved."
CLAIMS = {
 "C01": ("proof", T + "; bounded runs of the on-drive store against a model", "Proved for all inputs and states: Get, Set, Inc, Del, Iterate and IterateDel of the memory store, Get, Set, Inc, Del of the on-drive store over an assumed model of boltdb (range: counters below 2^32). Iteration of the on-drive store: bounded histories only." + B),
 "C02": ("proof", T + "; bounded runs of the on-drive store against a model", "Proved for all inputs and states: the four statistics after every operation of the memory store, and after Get, Inc, Set, Del of the on-drive store with their saving and loading (range: amounts below 2^32), over an assumed model of boltdb. Deleting iteration and reopening of the on-drive store: bounded histories only." + B),
 "C03": ("exploration", "bounded histories against a model (stand-in; contracts under way)", "Bounded: random contents and version numbers."),
 "C05": ("proof", T, "Validation, encoding and decoding are proved for all records and byte strings, over an assumed model of the serializer (a dependency): fixed-size fields, decoding inverts encoding, shorter bytes are refused." + B),
 "C20": ("proof", T, "Validation and the default configurations of both packages, and the command-line flags of the node, are under contract and proved for all values." + B),
 "C21": ("proof", T, "Proved for every window size and history as an invariant of the closure's state (sum of the window). Floating point is taken as reals." + B),
 "C22": ("proof", T, "Proved for every 32-bit number that the text is the formatted quotient by the right unit with zeros and the point trimmed; fmt.Sprintf and strings.TrimRight are uninterpreted functions, floats reals." + B),
 "C28": ("proof", T, "Every method is proved to write exactly the record stated, or nothing, for all pins, messages and arguments; fmt and log.Logger.Output are trusted." + B),
 "C23": ("proof", T, "Proved for every message and every byte string: the bytes of each type, and acceptance, remainder and contents of decoding, over an assumed model of the serializer (a dependency). The contents of an encoded Peers message are bounded only." + B),
 "C24": ("proof", T, "Proved for all numbers, messages and bytes: making and reading a frame, the numbering and bookkeeping of requests under their lock. The loop that receives frames is bounded." + B),
 "C25": ("proof", T, "Proved for all answers of the peer and all states: what both sides send, when they accept and whose identity they record. Decoding is by contract (C23, C24); channels are taken as recording what is sent and giving arbitrary values." + B),
 "C08": ("proof", T, "Every method that reads or changes a single or a dynamic reference is proved for all references, values and packs; the serializer, reflection and SHA-256 are uninterpreted." + B),
 "C10": ("exploration", "bounded histories against a plain list (stand-in; contracts under way)", "Bounded: random histories at small degrees, every combination of flags, loading after every step, damaged encodings and failing storage."),
 "C11": ("proof", T, "The checks of indices, ranges and degrees and the refusal by every operation that takes one are proved for all values; the code past the check is assumed only to keep the array loaded." + B),
 "C06": ("proof", T, "Every kind of schema is proved, for all data: never out of bounds, fixed sizes exact, a structure the sum of its fields each measured where the last ends, an array or slice the sum of its elements; schemas within are by contract of the interface, and that measuring ends is only bounded." + B),
 "C07": ("exploration", "bounded: made up types and encodings against the types they were made from (stand-in; decoding, its refusals and the reference of the result are under contract)", "Proved for all bytes: decoding of schemas and fields gives the kind, name, tag, length and type of reference that the bytes say, over an assumed model of the serializer, and does not fail other than by an error; what is encoded has these of the schema; a refused registry is not returned, and the reference is the hash of the encoding; that names are filled in and recursion found is trusted there and bounded here. Independence of the order is bounded."),
 "C09": ("proof", T + "; the tree of an array of references bounded", "Walking and splitting of structures, arrays, slices and single and dynamic references are proved to visit what a recursive definition over the encoding gives, each once, for every schema, value and callback; a callback that failed is not called again and its error is returned. The nodes of an array of references are assumed there and bounded; schemas are by contract of their interface; tasks of a splitting are taken to be independent." + B),
 "C12": ("proof", T, "Encoding, decoding and both printed forms are proved for all roots and byte strings, over an assumed model of the serializer that reads the field tags of the source; fmt and strconv are uninterpreted functions." + B),
 "C13": ("proof", T, "Proved for all states, arguments and failures of the store, over an abstract store: Get, Inc, Set, SetWanted, Want, Unwant, Finc of the cache and everything they call keep the counter the cache shows (cached or stored) equal to what was asked, the values, the holders and everything about other objects. The cleaning they may start (cleanDown) is by an assumed contract and bounded; Close, IsCached and the containers above are bounded. Range: stored sums below 2^32." + B),
 "C14": ("exploration", "bounded histories against a model (stand-in for the cleaning of the cache); the functions that call the cleaning are under contract", "Proved: the operations of the cache keep its amounts and volume those of its items and within the limits, over the contract of cleanDown. That contract is assumed there (its proof is beyond the solvers) and decided by the bounded runs only: after every call of random histories; seconds of the clock are replaced by steps."),
 "C15": ("proof", T, "Proved for all states, arguments and failures of the store: who waits (Want, Unwant), who is answered and with what (Set, SetWanted, Get), and that Finc takes off exactly what a filling held, keeps what is used and removes what it brought if it failed. Sending to a channel is taken as recording what is sent; cleanDown is by an assumed contract; the filler that calls Finc is bounded, as are whole histories." + B),
 "C16": ("proof", T, "Every operation of the index (load, feeds, heads, adding, deleting, last roots, active head) is proved, for all states and databases, to keep the index in step with the database and to do exactly what is stated; the database is an abstract set of feeds, heads and roots whose operations may fail (that the two real ones behave so is C04), iterations of it are models in Go. LastRoot, and what is left of objects after a deletion, are bounded." + B),
 "C17": ("proof", T, "Proved for all bytes, keys and signatures, and all states of the index: what is accepted is signed by the feed over the hash of the bytes and is a root of that feed with exactly the decoded contents; signatures and SHA-256 are uninterpreted. What a node does with the result is bounded." + B),
 "C18": ("proof", T, "The step that numbers, links, encodes, signs and stores a root is proved for all states of the index and database: number and link of the last stored root, no change if it fails, bytes, hash and signature. The walk of the objects before it, and the checks of the key, are bounded." + B),
 "C30": ("exploration", "bounded histories against a model (stand-in; contracts under way)", "Bounded: random histories of two containers against counts over the encodings of what is stored."),
 "C04": ("exploration", "bounded histories against a model (stand-in; contracts under way)", "Bounded: random histories of transactions, with errors and changes during iteration, of both databases against nested ordered maps."),
 "C29": ("exploration", "bounded histories against a model (stand-in; contracts under way)", "Bounded: random contents of the databases with gaps, held objects and failures, before and after each cleanup."),
 "C19": ("exploration", "bounded histories against a model (stand-in; contracts under way)", "Bounded: random roots partly here, read through a preview, with failures of the store and the peer; a scripted peer of a real node."),
 "C26": ("exploration", "bounded runs of real nodes and scripted peers over an in-memory transport (stand-in; contracts under way)", "Bounded: random histories of announcements, answers, failures and departures; schedules are those that happen."),
 "C27": ("exploration", "bounded histories against a model (stand-in; contracts under way)", "Bounded: random histories of a swarm against a map, exchanges with a scripted peer, connections to real nodes over an in-memory transport."),
}
