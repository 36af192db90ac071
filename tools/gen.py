#!/usr/bin/env python3
# writes properties.jsonl and MANIFEST.json from the list below
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "The object store is a reference-counted map, in memory and on drive",
 "Both object stores behave as one map from a key to a value and a references counter: the first Set keeps the value and the counter given, a later Set only adds to the counter, Get and Inc change the counter by the amount given and never below zero, Del removes the object, iteration visits every object once and a deleting iteration removes exactly the objects its callback asked to remove. An operation on a key that is absent reports not-found, an empty value is refused, and no operation touches any other key. A failed operation changes nothing.",
 ["inputs", "histories"], "every sequence of operations, every key and value, every increment whose result fits 32 bits; for both stores",
 "The repository's tests of the stores run short fixed scripts over two or three keys; the property is about every history, and these packages' tests do not even build without the network.",
 ["data/cxds/memory.go", "data/cxds/drive.go", "data/cxds/cxds.go", "data/cxds.go"],
 [("map of objects under a lock", "data/cxds/memory.go"), ("one bolt transaction per operation, counter and value in one record", "data/cxds/drive.go")],
 [("references counter", "how many references other objects hold", "data/cxds")], ["return values of Get, Set, Inc, Del, Iterate, IterateDel"])
prop("C02", "Statistics of an object store always match its contents",
 "The amounts of all and of used objects, and the volumes of all and of used values, that an object store reports equal those counted over its contents after any history of operations, where an object is used while its references counter is above zero. An on-drive store reports the same numbers after it is closed and opened again, and an operation that fails leaves the numbers as they were.",
 ["inputs", "histories", "fault_sequences"], "every sequence of operations, including failed ones and reopening; total volume below 4 GiB",
 "Tests compare the numbers after a few calls; every path through the counters, in any order, decides whether they drift.",
 ["data/cxds/memory.go", "data/cxds/drive.go", "data/cxds/cxds.go"],
 [("counters updated with each change of an object", "data/cxds"), ("statistics saved in the meta bucket on close", "data/cxds/drive.go")], None, ["Amount, Volume"])
prop("C03", "An on-drive object store keeps everything and refuses foreign versions",
 "What an on-drive object store contained when it was closed, values and counters, is exactly what it contains when it is opened again. A file written by an older or a newer version of the format, or one that lacks the version, is refused with the error for that case and is left unchanged.",
 ["inputs", "histories"], "every content of the store, every version number recorded in the file",
 "Tests reopen one store with one object and try no other version number.",
 ["data/cxds/drive.go", "data/cxds/cxds.go"], [("meta bucket with version and statistics", "data/cxds/drive.go")])
prop("C04", "The index database is an ordered tree of feeds, heads and root records",
 "The index database behaves as nested ordered maps of feeds, heads and root records: adding is idempotent, has, get, delete, length and both directions of iteration agree with it, a feed or a head that is absent is reported with the error for that case, and deleting a feed or a head removes all within. Saving a new record sets its creation and access times, saving an existing one keeps the record and only touches its access time, and reading a record returns the access time of the previous reading. A transaction that returns an error changes nothing.",
 ["inputs", "histories"], "every history of transactions, every key, sequence number and nonce, including the greatest ones; changes during iteration",
 "Tests use a handful of feeds and consecutive small numbers; ordering, extremes and changes made during an iteration are never sampled.",
 ["data/idxdb/drive.go", "data/idxdb/memory.go", "data/idxdb.go"], [("nested bolt buckets with big-endian keys", "data/idxdb/drive.go")], None, ["Tx, Feeds, Heads, Roots interfaces"])
prop("C05", "A root record is accepted exactly when it is complete",
 "A root record is accepted exactly if it has a hash, a signature and a timestamp and it names a previous record exactly when its sequence number is not zero. Validation does not change the record. An encoded record decodes to the same record, and a truncated one is refused.",
 ["inputs"], "every value of every field of a record", "Tests build two or three records; the condition ranges over all combinations of five fields.",
 ["data/data.go"], [("Validate", "data/data.go"), ("Encode, Decode", "data/data.go")])
prop("C06", "The size a schema computes for encoded data is exact and never out of bounds",
 "For data encoded from a value, the size its schema computes is the length of that encoding, whatever follows it. For any other bytes it is an error or a size not above the length of the data: no input makes it panic, read outside the data or run without end.",
 ["inputs", "programs"], "every schema (basic types, arrays, slices, structures, references, nested) and every byte string",
 "Tests use well-formed data of a few types; bytes that come from a peer are arbitrary.",
 ["skyobject/registry/schema.go", "skyobject/registry/schema_helpers.go"], [("Size of each kind of schema", "skyobject/registry/schema.go")])
prop("C07", "A registry of types is the same for everyone and survives any bytes",
 "A registry's encoding and reference depend only on the set of types registered: not on the order of registration. An encoded registry decodes to one with equal schemas and the same reference; bytes that are not a registry give an error, never a panic.",
 ["inputs", "programs"], "every set of registered types, every byte string", "Tests register a few fixed types in one order and decode only their own output.",
 ["skyobject/registry/registry.go", "skyobject/registry/schema.go", "skyobject/registry/reg.go"], [("sorted encoding", "skyobject/registry/registry.go"), ("decodeSchema", "skyobject/registry/schema.go")])
prop("C08", "Single references: blank is nil, a value is stored and referred to by its hash",
 "Setting a reference to a value stores its encoding and makes the reference the hash of that encoding; reading through the reference gives the value back; clearing makes it blank, and a blank reference is reported as such and never looked up. A dynamic reference is invalid exactly if it has a hash and no schema; an invalid one is refused by reading and walking, without a lookup. Setting never changes the schema of a dynamic reference, clearing does; reading changes neither, and an error of the storage is returned and leaves the reference as it was.",
 ["inputs", "histories"], "every value, every combination of blank and non-blank hash and schema, every failure of the storage underneath", "Tests set and read one value of one type.",
 ["skyobject/registry/ref.go", "skyobject/registry/dynamic.go"], [("SetValue, Value, Clear", "skyobject/registry/ref.go"), ("IsValid", "skyobject/registry/dynamic.go")])
prop("C09", "Walking an object visits every reference within it",
 "Walking or splitting an object visits each reference that its encoded form contains, at any depth, including those in arrays, slices and nested structures, exactly once per occurrence, and visits nothing else. A callback that refuses to go deeper is not called for anything below, and an error stops the walk and is returned.",
 ["inputs", "programs"], "every schema and every value of it", "Tests walk one type, with references directly in fields.",
 ["skyobject/registry/walk.go", "skyobject/registry/split.go", "skyobject/registry/refs_walk.go"], [("walkSchema and splitSchema by kind", "skyobject/registry/walk.go, skyobject/registry/split.go")])
prop("C10", "An array of references behaves as a sequence, at every degree of its tree",
 "An array of references holds the sequence of hashes that a plain list would hold after the same appends, sets, deletions, slices and clears: its length, each element, the order of both directions of iteration and the hashes found by value agree with that list. Loading it by its hash, with unsaved changes saved before, gives the same sequence and degree; the hash of an array that was only appended to depends on nothing but this sequence and the degree. One that cannot be loaded is an error every time, not an empty array, and reading a damaged one never panics.",
 ["inputs", "histories"], "every sequence of operations, every length and degree", "Tests use a few lengths around one degree; the tree's shape depends on both.",
 ["skyobject/registry/refs.go", "skyobject/registry/refs_node.go", "skyobject/registry/refs_index.go"], [("Merkle tree of nodes with a degree", "skyobject/registry/refs_node.go")])
prop("C11", "Bad indices, ranges and degrees are refused without damage",
 "An index outside of an array of references, a slice range that is reversed or goes past the end, and a degree outside of the allowed range are each refused with the error for that case. The array is the same afterwards.",
 ["inputs"], "every index, every pair of bounds and every degree, negative and huge ones included", "Tests try one or two bad indices.",
 ["skyobject/registry/refs.go"], [("validateIndex, validateSliceIndices, degree.Validate", "skyobject/registry/refs.go")])
prop("C12", "A root object's encoding is faithful and keeps no signature or hash inside",
 "A root object decodes to the root it was encoded from in every published field, and its hash and signature never influence the encoding. Bytes that are not a root give an error and no root. Its short form names its feed, head and sequence number, its long form the hash as well, and a root that has no references is still itself.",
 ["inputs"], "every root object and every byte string", "Tests encode one root.",
 ["skyobject/registry/root.go"], [("Encode, DecodeRoot", "skyobject/registry/root.go")])
prop("C13", "The cache never changes what a reader sees nor what the store counts",
 "Reading through the cache gives what the store would give, for every history of reads, writes, counter changes and evictions: the values are the store's, a counter returned by the cache is the store's counter with the cached changes applied, and after the cache is closed the store's counters are those values. An error of the store is reported; the counter of the object asked for is then either changed as asked or as it was, and no other is changed.",
 ["inputs", "histories", "fault_sequences"], "every sequence of calls, every eviction point, every failure of the store", "Tests go through one or two calls per method with no eviction in between.",
 ["skyobject/cache.go"], [("per-item counters in the cache over the store's", "skyobject/cache.go")])
prop("C14", "The cache stays within its limits",
 "After any call the cache holds no more items and no more bytes than configured, other than those wanted or being filled, and an item larger than the limit of one item is not kept. Items are evicted by the policy configured: least recently used, by whole seconds, or least frequently used first.",
 ["inputs", "histories", "configurations"], "every configuration of limits and policy, every sequence of calls", "Tests use one limit and one order of calls.",
 ["skyobject/cache.go", "skyobject/config.go"], [("cleanDown", "skyobject/cache.go")])
prop("C15", "Objects that are wanted reach everyone who waits for them",
 "An object that somebody waits for is delivered to each of those waiting, once, as soon as it is set; one that is already stored is delivered at once; and one that nobody wants or that does not match its hash is never stored. When waiting ends without success the counters are as they were before.",
 ["inputs", "histories"], "every interleaving of wants, sets, finishes and failures", "Tests request single objects one at a time.",
 ["skyobject/cache.go", "skyobject/fill.go"], [("wanted items with channels, filling counters", "skyobject/cache.go")])
prop("C16", "The index knows the newest root and the active head of each feed",
 "For each feed the container reports exactly the feeds, heads and last roots its index database has; the last root of a head is the one with the greatest sequence number, and the active head is the one whose last root has the greatest timestamp, after any history of receiving, saving and deleting roots, heads and feeds and after a restart. Deleting what is absent is refused with the error for that case.",
 ["inputs", "histories"], "every sequence of additions and deletions of feeds, heads and roots", "Tests add a few roots in order to one head.",
 ["skyobject/index.go"], [("in-memory index loaded from and kept in step with the database", "skyobject/index.go")])
prop("C17", "Only authentic roots of subscribed feeds are accepted",
 "A received root is accepted only if its hash is the hash of its bytes, its signature is that hash's signature by the key of the feed it is received for, the feed inside of it is that feed, and the feed is one the container shares. Anything else is refused with an error and changes nothing.",
 ["inputs"], "every byte string, hash, key and signature", "Tests receive roots produced by the same code.",
 ["skyobject/index.go", "skyobject/container.go", "skyobject/registry/root.go"], [("ReceivedRoot, PreviewRoot checks", "skyobject/index.go")])
prop("C18", "Saved roots form a signed chain",
 "Each root that is saved continues its head: its sequence number is one more than that of the head's last root and it refers to that root's hash, or it is zero and refers to nothing if there is none; it carries a valid signature of the owner and a timestamp. Saving with a key that is not the feed's, or to a feed that is not shared, is refused and changes nothing.",
 ["inputs", "histories"], "every history of saves", "Tests save one or two roots.",
 ["skyobject/unpack.go", "skyobject/index.go"], [("Save", "skyobject/unpack.go"), ("saveRoot", "skyobject/index.go")])
prop("C19", "A preview reads a remote root and stores nothing",
 "During a preview objects are taken from the store if they are there, without changing their counters, and otherwise from the peer, whose answer is used only if its hash is the one asked for; what the peer gave is asked for once. Reading stores nothing. The root previewed is authentic and of the feed asked for, otherwise the preview is refused.",
 ["inputs", "fault_sequences"], "every content of the store and every answer of the peer", "Tests preview one root that is absent locally.",
 ["skyobject/preview.go", "node/cget.go", "node/conn.go"], [("Preview.Get", "skyobject/preview.go"), ("Conn.Preview", "node/conn.go")])
prop("C20", "Configurations that cannot work are refused",
 "A configuration of the container or of a node is accepted exactly if every limit in it is in its documented range, the default one is accepted, and the reason is given otherwise. Validation changes nothing.",
 ["configurations"], "every value of every field", "Tests validate only the default configuration.",
 ["skyobject/config.go", "node/config.go"], [("Config.Validate", "skyobject/config.go, node/config.go")])
prop("C21", "A rolling average is the mean of the latest samples",
 "A rolling average over a window of N samples is, after each sample, the mean of the latest N samples, or of all of them while there are fewer. The average read later is the one returned for the latest sample, zero before the first one, and a window without samples is refused at creation. Samples added at the same time by several users are all counted.",
 ["inputs", "histories", "schedules"], "every window size, every sequence of samples, every interleaving of users; floating-point rounding aside",
 "Tests add a few equal samples; the window's wrap-around and warm-up and the locking decide the property for all sequences.",
 ["skyobject/statutil/average.go"], [("ring of bins behind a mutex", "skyobject/statutil/average.go")], None, ["Add, AddStartTime, Value"])
prop("C22", "Human-readable amounts name the number in the right unit",
 "A volume is printed in the greatest of the units B, kB, MB, GB (powers of 1024) that is not above it, and an amount in the greatest of none, k, M, G (powers of 1000); the number before the unit is the exact value rounded to two digits after the point, without trailing zeros or a trailing point.",
 ["inputs"], "every 32-bit number", "Tests print about five numbers; the edges between units and the trimming of zeros are elsewhere.",
 ["skyobject/statutil/statutil.go"], [("String of Volume and Amount", "skyobject/statutil/statutil.go")])
prop("C23", "Every message decodes to what was encoded, and any bytes are survived",
 "Every message decodes to a message of the same type and contents. Bytes that are not exactly one message (empty, of an unknown type, truncated or with something after the end) give the error for that case, never a panic.",
 ["inputs"], "every message of every type and every byte string", "Tests encode a few messages and never decode damaged ones.",
 ["node/msg/msg.go"], [("Encode, Decode", "node/msg/msg.go")])
prop("C24", "A frame on a connection carries its message and both sequence numbers",
 "A message sent with a sequence number and the number it replies to arrives with the same numbers and contents, for every number. A frame that is too short or does not hold exactly one message is an error and never a panic. Numbers of requests are never zero and follow one another; a reply reaches the request whose number it names and no other, once, however often the peer repeats it.",
 ["inputs"], "every message, every pair of numbers and every byte string", "Tests exchange a few messages with small numbers.",
 ["node/conn.go"], [("encodeMsg, decodeRaw", "node/conn.go")])
prop("C25", "A handshake succeeds only between compatible nodes",
 "A handshake succeeds only if both sides speak the same version of the protocol and follows its order of messages; each side then knows the other's identity. Anything else, a wrong message included, ends with an error of the kind for that case.",
 ["inputs", "histories"], "every answer of the peer", "Tests shake hands with the same code.",
 ["node/handshake.go"], [("performHandshake, acceptHandshake", "node/handshake.go")])
prop("C26", "Subscribers get the newest root",
 "Once a root is published, every node subscribed to the feed by then, directly or through others, fills it or a newer root of the head, as long as it stays connected to a peer that has it. An object is asked only of peers that announced the root being filled; a peer that leaves, unsubscribes or gives a wrong object is not asked again, and one that gave a wrong object is disconnected. While a root is filled the newest of those announced waits and is filled next; older ones are not filled. No more heads per feed are kept than the limit. No order of announcements, answers (late and repeated ones), failures and departures stops a node, makes it panic or keeps it from closing.",
 ["histories", "schedules", "fault_sequences"], "every history of announcements, answers, departures and failures of peers, in every order", "Tests connect two nodes and publish a root.",
 ["node/head.go", "node/feed.go", "node/feeds.go", "node/conn.go"], [("known roots and filling of the node's head", "node/head.go"), ("broadcasting", "node/feeds.go"), ("requests and responses of a connection", "node/conn.go")])
prop("C27", "Peers found for a feed are dialled within the limits",
 "A swarm keeps at most the configured number of peers, valid ones, never the node itself, each once; what is learned of a known peer updates it. Peers seen are kept for the expiration period and forgotten after it. The peers passed to another are as many as configured of those without failures, never the asker. A failed connection or subscription adds one to the failures of the peer, a successful one resets them to zero. As many connections are made as the feed misses, within the limits of the node, to peers not connected yet. Peers given for another feed are not taken. Leaving a swarm and closing the node do not hang.",
 ["histories", "schedules", "configurations"], "every history of discoveries, exchanges, successes, failures and time passing, every configuration of limits", "Tests use no failing peers.",
 ["node/swarm.go"], [("swarm of peers", "node/swarm.go"), ("limits of connections", "node/node.go")])
prop("C28", "Debug logs appear exactly for the pins configured",
 "A debug message is written exactly if debugging is on and its pin is among those configured, and an error is always written. What is written is one record with the tag, the error and the arguments formatted as the standard library formats them, attributed to the line of the caller, and neither the arguments nor the configuration are changed. The command-line flags for the prefix, the debug mode and the pins set the configuration, and the defaults are no debugging, all pins and no prefix.",
 ["inputs", "configurations"], "every set of pins, every message, every argument list",
 "Tests use one or two pins and never look at what the arguments, a percent sign or a nil do.",
 ["node/log/log.go"], [("pins compared by bits", "node/log/log.go")], None, ["the writer configured"])
prop("C29", "The cleanup keeps what is in use",
 "Removing old roots never removes any of the newest ones of a head, as many as asked, and leaves exactly these, whatever gaps there are between the numbers of the stored roots. Removing objects removes exactly those that nothing refers to and that are not in use. An error stops it and is returned.",
 ["inputs", "histories"], "every content of the database", "There are no tests of it.",
 ["cxoutils/cxoutils.go"], [("RemoveRootObjects, RemoveObjects", "cxoutils/cxoutils.go")])
prop("C30", "Objects live exactly as long as a root refers to them",
 "The references counter of each stored object is the number of references to it from stored roots (each root's own bytes and its registry counted once per root) and from stored objects that are themselves referred to, every occurrence counted. This holds after any history of saving roots, of filling received ones, successfully or not, and of deleting roots, heads and feeds, done one at a time. Thus while a root is stored everything it refers to can be read, and when all roots are deleted every counter is zero.",
 ["inputs", "histories", "fault_sequences"], "every history of saving, filling, failing and deleting with one root worked on at a time; objects shared between roots and within one",
 "Tests save one root and count nothing; sharing, repetition and deletion in any order decide whether counters drift.",
 ["skyobject/unpack.go", "skyobject/fill.go", "skyobject/index.go", "skyobject/del_pack.go", "skyobject/cache.go"],
 [("Unpack counts what it sets", "skyobject/unpack.go"), ("Filler counts what it gets", "skyobject/fill.go"), ("walk of a deleted root", "skyobject/index.go")])

# id -> why not, or absent when there is a check
NOT = {}
TODO = "not decided: no contracts for it were built in the time given"
exec(open(os.path.join(V, "tools/claims.py")).read())
for p in P:
    if p["id"] not in CLAIMS and p["id"] not in NOT:
        NOT[p["id"]] = TODO
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in P:
    if p["id"] in CLAIMS:
        level, tech, note = CLAIMS[p["id"]]
        m["checks"].append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "technique": tech, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": NOT[p["id"]]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not applicable")
