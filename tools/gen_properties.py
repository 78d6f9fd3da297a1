#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],
            observe_at=list(observe),hook_needed=None)))

CACHE=["cache/cache.go","cache/cachedb.go","cache/cachestring.go","cache/cachehash.go","cache/cachelist.go","cache/cachecron.go","cache/cacheutil.go"]
KS=[("key dictionary","key -> value (scalar, hash or list)","cache/cache.go Cache.dataDict"),
    ("deadline dictionary","key -> instant after which the key is gone","cache/cache.go Cache.expiresDict"),
    ("cache lock","one reader/writer lock per cache","cache/cache.go Cache.lock")]

p("K01","Every cache operation is one critical section",
  "Every cache operation (string, hash, list, key and bulk commands and each pass of the background expiry sweep) is atomic with respect to all others: from its first to its last access to keys, values, hash fields or deadlines it holds the cache's single lock without a gap, and exclusively whenever it changes anything other than dropping an already expired key. The lock is released on every way out, and no operation waits for it while already holding it.",
  ["schedules"],"all interleavings of any number of goroutines calling any cache operations",
  "The tests are single-threaded; a missing, shared-instead-of-exclusive or early-released lock shows only under particular schedules.",
  CACHE,[("Lock/Unlock bracket in every command","cache/cachestring.go, cache/cachehash.go, cache/cachedb.go"),("sweep holds the lock for a pass","cache/cachecron.go")],KS)
p("K02","An expired key is indistinguishable from an absent key",
  "Once a key's deadline has passed, every cache command that names the key returns and stores exactly what it would if the key had never been set, whether or not the background sweep has run: reads report it missing, conditional writes succeed, and read-modify-write commands start from an absent value.",
  ["inputs","histories"],"every command, every kind of value, every history that leaves an expired key in place",
  "Two tests sleep past a deadline and then call Get; no other command is ever run on an expired key.",
  CACHE,[("lazy expiry check on lookup","cache/cacheutil.go get/expired")],KS)
p("K03","A deadline belongs to the value it was set with",
  "Overwriting a key with a plain value (SET, GETSET, MSET), deleting it or flushing the cache discards any deadline it had; SETEX, PSETEX and PEXPIREAT leave the key with exactly the requested deadline when it is in the future. Commands that modify a value in place (APPEND, SETRANGE, the increments, hash field and list updates), reads, and refused commands leave the deadline of a live key as it was. A key created without a deadline never expires.",
  ["inputs","histories"],"every sequence of write commands over every prior state of the key",
  "No test looks at a key's deadline after a second write to the key.",
  CACHE,[("deadline update beside every value update","cache/cachestring.go, cache/cacheutil.go expires")],KS)
p("K04","The background sweep removes exactly the expired keys",
  "A pass of the background expiry sweep removes the value and deadline of every key whose deadline has passed, and never removes or changes a key that has no deadline or whose deadline has not passed. Once the sweep has been started, passes repeat for as long as the process runs.",
  ["inputs","histories"],"every content of the cache at the moment of a pass",
  "The sweep is never started by the tests (the call is commented out).",
  ["cache/cachecron.go","cache/cache.go"],[("per-key deadline test in the sweep","cache/cachecron.go cronExpire")],KS)
p("K05","Every string reads back byte for byte",
  "Any string stored by a command that keeps its argument (SET, SETNX, SETEX, PSETEX, GETSET, MSET, MSETNX, HSET, HSETNX, HMSET), or produced by APPEND, is returned unchanged, byte for byte, by every command that reads that key or field, and its reported length is its own length. Numeric-looking strings (leading zeros, signs, exponents, spaces) are no exception.",
  ["inputs"],"all byte strings",
  "Tests round-trip four strings, all of which happen to be canonical.",
  ["cache/cachestring.go","cache/cachehash.go"],[("numeric representation used only when it formats back to the same text","cache/cachestring.go tryInt64/fmtString")],KS[:1])
p("K06","Wrong-kind operations are refused and change nothing",
  "A string, hash or list command applied to a live key that holds a different kind of value fails with the wrong-type error (in the key's own slot for MGET) and leaves the value and deadline of every key unchanged; only commands defined to overwrite or delete any value are exempt. (A command whose arguments are invalid whatever the key holds may report that error instead; it changes nothing either.) TYPE reports the kind of value a key actually holds.",
  ["inputs","histories"],"every command against every kind of stored value",
  "No test applies a command to a key of another kind.",
  CACHE,[("kind test before any change","cache/cachehash.go getHashEntry, cache/cachestring.go fmtString users")],KS)
p("K07","A hash's length is its number of fields",
  "After any sequence of hash commands, HLEN returns the number of fields the hash holds: it grows by one exactly when a new field is created, shrinks by one exactly when an existing field is removed, and no other command changes it. HSET, HSETNX, HMSET and HDEL return the number of fields they created or removed.",
  ["inputs","histories"],"all sequences of hash commands, including repeated and missing fields in one call",
  "HLen is not called by any test.",
  ["cache/cachehash.go"],[("length counter adjusted beside each field insertion/removal","cache/cachehash.go")],
  [("hash field table","field -> value","cache/cachehash.go hashEntry"),("length counter","number of fields","cache/cachehash.go hashEntry.length")])
p("K08","Increments store what they return",
  "INCR, DECR, INCRBY, DECRBY, INCRBYFLOAT, HINCRBY and HINCRBYFLOAT on a live numeric value of the matching kind store exactly the number they return, which is the previous value plus (for the decrements minus) the amount; on an absent key or field the previous value counts as zero. On a text that is no number they report an error. When they report an error, the stored value is unchanged.",
  ["inputs","histories"],"all prior values and amounts",
  "Key increments are tested on a few small numbers; the hash increments are not tested at all.",
  ["cache/cachestring.go","cache/cachehash.go"],[("one sum used for both result and store","cache/cachestring.go incrBy, IncrByFloat; cache/cachehash.go HIncrBy, HIncrByFloat")],KS[:1])
p("K09","Set-if-absent never overwrites a live value",
  "SETNX, MSETNX and HSETNX leave the value of every key or field that is already present and live exactly as it was, store the given value for every one that is absent, and return the number of keys or fields they stored.",
  ["inputs","histories"],"all prior states of the named keys and fields",
  "Tests try one present and one absent key and never read the value back after a refused write.",
  ["cache/cachestring.go","cache/cachehash.go"],[("load-or-store","cache/cachestring.go SetNX, MSetNX; cache/cachehash.go HSetNX")],KS)
p("K10","Read commands change nothing",
  "GET, STRLEN, GETRANGE, MGET, EXISTS, TYPE, HGET, HEXISTS, HLEN, HSTRLEN, HMGET, HKEYS, HVALS and HGETALL never change the value, fields, length or deadline of any live key, and never create a key.",
  ["inputs","histories"],"every read command on every state",
  "Tests check what a read returns, not what it leaves behind.",
  ["cache/cachestring.go","cache/cachehash.go","cache/cachedb.go"],[("read paths contain no stores except dropping expired keys","cache/*.go")],KS)
p("K11","Hash reads return every field",
  "HKEYS, HVALS and HGETALL on a live hash return exactly one entry for each field it holds, with that field's own name and value; HMGET returns one slot per requested field, in order, holding that field's value or the nil error. On an absent key they return empty results (or nil errors per slot) and no error.",
  ["inputs","histories"],"all hashes and field lists",
  "None of the four commands is tested.",
  ["cache/cachehash.go"],[("whole-table iteration","cache/cachehash.go HKeys, HVals, HGetAll, HMGet")])
p("K12","Implemented cache commands never panic",
  "No implemented cache command (every exported one except the list commands that are still declared stubs) panics, whatever its arguments and whatever the key holds.",
  ["inputs","histories"],"all arguments and all states",
  "Tests use a handful of well-formed arguments on keys of the right kind.",
  CACHE,[("nil/kind/bounds tests before use","cache/*.go")])

RDB=["redis/rdb/rdb.go"]
p("D01","Snapshot numbers and lengths decode exactly",
  "Every length form of the snapshot format (6-bit, 14-bit, 32-bit and 64-bit big-endian, and the special-encoding marker), every integer-encoded string (8, 16 and 32-bit signed little-endian) and every score (text, infinities, NaN, 8-byte little-endian binary) decodes to exactly the number Redis wrote and consumes exactly its own bytes; any other length header is an error.",
  ["inputs"],"all header bytes and all payload bytes",
  "The snapshot reader has no tests.",
  RDB,[("header switch and byte assembly","redis/rdb/rdb.go LoadLen, LoadString, LoadDouble, LoadBinaryDouble")])
p("D02","Length-delimited payloads arrive whole or not at all",
  "Every payload whose length is announced (bulk replies, snapshot strings, compressed strings, fixed-width numbers, the snapshot header) is delivered with exactly the announced number of bytes however the bytes arrive in pieces, and otherwise the operation reports an error. The bytes after it are read from exactly where the payload and its terminator end.",
  ["inputs","fault_sequences"],"every length, every split of the byte stream into reads, every early end of stream",
  "No test reads from a stream.",
  ["redis/conn.go","redis/rdb/rdb.go","redis/replication.go"],[("full reads","redis/conn.go readMessage, redis/rdb/rdb.go LoadString")])
p("D03","Integer sets decode exactly",
  "Decoding a Redis integer set of any of its three widths yields every member, in order, as the signed number Redis stored.",
  ["inputs"],"all well-formed integer sets","No tests.",
  ["redis/intset/intset.go"],[("per-width little-endian decode","redis/intset/intset.go Load")])
p("D04","Ziplists decode exactly",
  "Decoding a Redis ziplist yields every entry, in order: strings of all three length encodings byte for byte, and integers of all encodings (4-bit immediate, 8, 16, 24, 32 and 64-bit signed little-endian) in decimal, and after each entry continues exactly at the next one.",
  ["inputs"],"all well-formed ziplists","No tests.",
  ["redis/ziplist/ziplist.go"],[("entry header decode","redis/ziplist/ziplist.go Iterator")])
p("D05","Zipmaps decode exactly",
  "Decoding a Redis zipmap yields every field with its own value, for both short and long length forms and any amount of free space after a value; the library's own zipmap writer and its lookup use the same layout.",
  ["inputs"],"all well-formed zipmaps","The one test appends a single pair and asserts nothing.",
  ["redis/zipmap/zipmap.go"],[("layout walk","redis/zipmap/zipmap.go Load, Lookup, Set")])

p("R01","Each snapshot entry becomes the command that recreates it",
  "Loading a snapshot turns every string, list, set, sorted-set and hash entry, in each of its supported encodings, into exactly one command that recreates that value: set, rpush, sadd, zadd or hmset, with the entry's own key followed by all its elements in the required order (list order kept, score before member, field before value), tagged with the database the entry belongs to.",
  ["inputs"],"all snapshots","No test loads a snapshot.",
  ["redis/replication.go"],[("per-kind emission","redis/replication.go Load")])
p("R02","A snapshot deadline applies to its own key only",
  "A deadline recorded in a snapshot (in seconds or milliseconds) is applied to the one entry that follows it, as the exact absolute instant in milliseconds, after the command that creates that entry; an entry with no recorded deadline gets none.",
  ["inputs"],"all snapshots","No test loads a snapshot.",
  ["redis/replication.go","cache/message.go"],[("pending deadline variable","redis/replication.go Load"),("deadline command applied","cache/message.go HandleMessage")])
p("R03","A snapshot load succeeds only if everything was loaded",
  "Loading a snapshot reports success only after the end-of-file marker has been reached with every entry before it delivered; a bad header, a read failure, an unknown or unsupported entry kind, or an undecodable value makes the load return an error. No failure is replaced by success or by default data on the way up.",
  ["inputs","fault_sequences"],"every snapshot, including truncated ones and ones of newer formats","No test loads a snapshot.",
  ["redis/replication.go","redis/rdb/rdb.go"],[("error propagation","redis/replication.go Load, redis/rdb/rdb.go")])
p("R04","Malformed snapshots never crash the process",
  "Whatever bytes a snapshot holds, loading it ends by returning: memory exhaustion aside, it never panics out of the loader, never terminates the process and never keeps looping without reading.",
  ["inputs"],"all byte strings in place of a snapshot","No test loads a snapshot.",
  ["redis/replication.go","redis/rdb/rdb.go","redis/intset/intset.go","redis/ziplist/ziplist.go","redis/zipmap/zipmap.go"],[("containment of decoder panics","redis/replication.go Load")])
p("R05","Every replicated command is applied or reported",
  "Applying a replicated command either performs its whole effect on the cache (set, hmset, rpush and pexpireat, with key, fields, values and deadline in their own places) or returns an error; no command is accepted without effect, and no message, however short or oddly typed, makes it panic.",
  ["inputs"],"all messages","The test for message handling is commented out.",
  ["cache/message.go"],[("command dispatch","cache/message.go HandleMessage")])
p("R06","Only the selected database is applied",
  "A replicated command reaches the cache exactly when the database it was issued in, as last selected in the snapshot or in the live stream, is the one the client was configured for; commands from other databases never change the cache.",
  ["inputs","histories"],"all streams and configurations","No test replicates.",
  ["redis/replication.go","xxcache.go"],[("database tag on each message","redis/replication.go Load, WaitForMessage"),("filter","xxcache.go handleReplication")])
p("R07","The replication pipeline never blocks on itself",
  "The goroutine that applies replicated commands never waits on a channel that only it drains, and once the stream has ended it neither applies phantom messages nor spins. Nothing is ever sent on the message channel after it has been closed, and it is closed at most once.",
  ["schedules","fault_sequences"],"all schedules and stream endings","No test replicates.",
  ["xxcache.go","redis/replication.go"],[("channel ownership","xxcache.go handleReplication, redis/replication.go WaitForMessage")])
p("R08","A snapshot transfer succeeds only with the snapshot on disk",
  "Synchronising with the master reports success only if the master answered with a snapshot payload whose every byte was handed to the snapshot file and flushed without error, and that file holds nothing else; any other reply or any read, write or flush failure is returned. Files opened for saving or loading a snapshot are closed on every path.",
  ["fault_sequences","inputs"],"all replies and failure points","No test replicates.",
  ["redis/replication.go","redis/conn.go"],[("copy to file","redis/conn.go ReadWithWriter, redis/replication.go sync")])

p("S01","Concurrent use is free of data races",
  "No two goroutines ever access the same memory at the same time with one of them writing it, without a lock both hold or a hand-over through a channel between them. This holds for the goroutines behind a client (the feed from the master, its application to the cache, the acknowledgements) among each other, with the constructor that started them and with the client's operations; for any number of concurrent operations on one client or one connection pool; for goroutines an operation starts itself; and for package variables under any concurrent use, also of different caches, clients and pools. A buffered reader or writer is never used by two goroutines. (Setting up a pool precedes its use; a connection taken from the pool belongs to its caller until it is put back; the cache's own state is guarded as K01 says.)",
  ["schedules"],"all interleavings of the services and of any number of callers",
  "The tests are single-threaded and start no services; a race shows only under particular schedules, and corrupts silently.",
  ["xxcache.go","command.go","redis/redis.go","redis/pool.go","redis/conn.go","redis/replication.go","cache/cachestring.go"],
  [("goroutines of a client","xxcache.go New"),("marks of broken connections","redis/conn.go Send, Recv"),("size under the lock","redis/pool.go Get, Close")])

p("T01","Every operation ends",
  "Every operation of the cache, the client, the connection pool, the connections, the messages and the snapshot decoders comes to an end, whatever its arguments, the stored data, and whatever the server or the input answers: it never ends the process, never waits for a lock or a channel that only it could release or fill, never recurses without consuming input, and never loops without bound: every loop goes through data in memory, counts towards a bound no longer than that data or the longest string (512 MB), or consumes input or a reply in every iteration, so that errors and end of input end it. (The background services — replication feed, acknowledgements, expiry sweep — run for as long as the process does.)",
  ["inputs","fault_sequences","histories"],"all arguments, stored values, replies and inputs, including broken and endless ones",
  "An endless loop, a retry without end or a far-out index shows only on the one input that triggers it, and a test that hangs has no expected value.",
  ["cache/cachestring.go","cache/message.go","redis/conn.go","redis/pool.go","redis/redis.go","xxcache.go","redis/rdb/rdb.go","redis/ziplist/ziplist.go","redis/zipmap/zipmap.go","redis/intset/intset.go","redis/lzf/lzf.go"],
  [("reply parser","redis/conn.go Recv, readMessage"),("option loop","cache/message.go"),("string loops","cache/cachestring.go GetRange, SetRange"),("replacement of broken connections","redis/pool.go Get, renew")])

p("N01","The connection pool neither leaks nor overcommits",
  "The pool never has more open connections than its capacity; every connection handed out comes back to the pool or is closed, on success and on every failure path, and a failure to open a connection leaves the pool's accounting, its lock and later callers unaffected. A handler given to the pool runs once, on a connection, unless an error says why not, and its own error comes back.",
  ["schedules","fault_sequences"],"all interleavings and dial/handshake failures","The one test makes one call against a refused port.",
  ["redis/pool.go"],[("size counter under the lock","redis/pool.go Get"),("deferred return","redis/pool.go ExecCommand, Exec")])
p("N02","A connection that failed mid-exchange is never reused",
  "After a send or receive on a pooled connection fails, that connection is closed rather than used for another command, so no caller ever receives a reply meant for someone else.",
  ["fault_sequences","schedules"],"every failure point of an exchange","No test has a server.",
  ["redis/conn.go","redis/pool.go"],[("broken mark and replacement","redis/conn.go Send/Recv, redis/pool.go")])
p("N03","Every reply becomes a result or an error",
  "For every client command and every reply the server can give, the caller gets either the value the reply carries, decoded to the command's result type, or a non-nil error; a server error, a nil reply or a reply of an unexpected kind is never reported as success with a default value.",
  ["inputs"],"all commands and all reply kinds","No test has a server.",
  ["redis/command.go","redis/conn.go"],[("per-type parse","redis/command.go Parse methods")])
p("N04","Each client method sends its own Redis command",
  "Every client method writes exactly one request: the Redis command of the same name with the method's own arguments in the order Redis defines (for SETEX and PSETEX the lifetime before the value, for MSET and MSETNX each key followed by its value).",
  ["inputs"],"all methods and arguments","No test has a server.",
  ["redis/redis.go"],[("argument vectors","redis/redis.go")])
p("N05","Requests are framed correctly for every argument",
  "A serialised message is a well-formed protocol frame for every content: the announced element count equals the number of elements that follow, each bulk string's announced length is its length in bytes, arguments are passed through unchanged, and every frame ends with its terminator. (Simple strings and errors are single lines by definition of the protocol.)",
  ["inputs"],"all arguments, including empty and binary ones","No test serialises a message.",
  ["redis/protocol.go","redis/redis.go"],[("Serialize methods","redis/protocol.go")])
p("N06","Replies are parsed by the protocol's rules",
  "Reading one reply yields the kind and content its type byte announces (simple string, error, integer, bulk, nil bulk, array of replies in order) and consumes exactly that reply; an unknown type byte, a malformed number or an invalid length is an error, never a panic (memory exhaustion aside).",
  ["inputs"],"all byte streams","No test parses a reply.",
  ["redis/conn.go"],[("type-byte switch","redis/conn.go readMessage")])

p("X01","Reads fall through to the server exactly on a local miss",
  "A client read returns the locally cached value when the key is present there, asks the server when and only when the local cache has no such key, and passes the server's answer or error to the caller; a client write goes to the server, in the configured database.",
  ["inputs","histories"],"all keys and cache contents","The client tests need a server and are not run.",
  ["command.go","xxcache.go"],[("read-through","command.go Get")])
p("X02","A constructed client is ready for use",
  "When construction reports success, the client's local cache and server connection are fully initialised and the snapshot has been read to its end and handed to the cache; when any construction step fails, construction returns that step's error.",
  ["fault_sequences"],"all failure points of construction","The client tests need a server and are not run.",
  ["xxcache.go"],[("construction order","xxcache.go New")])
p("Z01","Decompression stays within its buffers and reports failure",
  "Compressing and decompressing never read or write outside the given input and output buffers and never crash, for any input and any announced length; decompression returns data only if the input decompressed to exactly the announced length, and an error otherwise.",
  ["inputs"],"all compressed inputs and announced lengths","The two tests log the result of one fixed string.",
  ["redis/lzf/lzf.go","redis/lzf/lzf_c.c","redis/lzf/lzf_d.c"],[("bounds checks before each copy","redis/lzf/lzf_c.c, redis/lzf/lzf_d.c"),("buffer/length pairing","redis/lzf/lzf.go")])

p("M01","GETRANGE and SETRANGE produce exactly the selected and the overwritten text",
  "For every stored text, offset and replacement: GETRANGE returns exactly the bytes at positions start to end (both included), where a negative position counts from the end and the range is cut to the text (empty if nothing is left, or no live key), and its work is bounded by the length of the text however far the offsets lie outside; SETRANGE refuses an offset that is negative or would make the text longer than 512 MB, an empty replacement changes and creates nothing and returns the present length, and otherwise the text stored is the old one padded with zero bytes up to the offset and overwritten there by the replacement, the rest kept, and its length is returned.",
  ["inputs"],"all strings and offsets","A dozen fixed examples are tested; the cases are in the arithmetic of three lengths and offsets.",
  ["cache/cachestring.go"],[("index arithmetic","cache/cachestring.go GetRange, SetRange")])
p("M02","The cache converges to the master's data",
  "After the replication stream has been idle, every key of the configured database reads the same from the cache and from the master.",
  ["histories","schedules"],"all command histories on the master","No test replicates.",
  ["xxcache.go","redis/replication.go","cache/message.go"],[("snapshot load followed by command stream","xxcache.go New")])
p("M03","LZF decompression inverts compression",
  "For every string, what compressing it yields is either that string itself or a compressed form that decompressing with the string's length turns back into exactly the string. Decompressing performs every token of its input exactly as the format says - a run copies that many literal bytes, a reference repeats that many bytes from that distance back - and refuses only input that is cut off, does not fit into the announced length, refers to before the output, or does not produce exactly the announced length.",
  ["inputs"],"all strings","The two tests log the result of one fixed string.",
  ["redis/lzf/lzf_c.c","redis/lzf/lzf_d.c","redis/lzf/lzf.go"],[("LZF codec","redis/lzf")])
path=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(path,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
