#!/usr/bin/env python3
# Writes /verif/properties.jsonl (source of the property list; run after editing).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Map and MapL are linearizable maps with an exact length",
  "Under any concurrent use every Put, Get, Has and Del on Map and MapL takes effect atomically as on a plain key-value map: Get and Has report the last value stored and not deleted (nil interface values included), Put returns the value it replaced and whether there was one, Del reports whether it removed something; deleted and replaced values are not held in memory. When no operation is in progress MapL.Len equals the number of keys present. Range visits every key that is present throughout exactly once, with a value the key held, and stops as soon as the callback returns false.",
  ["schedules","inputs","histories"], "all interleavings of concurrent operations and all operation sequences",
  "No test touches Map or MapL; a race between Put/Del and the length counter needs a particular schedule.",
  ["hashmap/map.go"], [("sync.Map Swap/LoadAndDelete plus atomic counter","hashmap/map.go MapL.Put, MapL.Del")],
  [("len","number of keys","hashmap/map.go MapL")], ["Put/Get/Has/Del/Range/Len results"])
p("C02", "LimitMap is a bounded map that evicts the oldest put entry",
  "A LimitMap of capacity n>=1 never holds more than n entries. Put of a new key into a full map evicts exactly one entry, the one whose last Put is oldest; Put of a present key replaces the value, returns the previous one and evicts nothing; Get returns the last value put for a key that is neither deleted nor evicted. A key that is not equal to itself, such as NaN, is not stored. Values that were evicted, deleted or replaced are not held in memory. Every operation (Put, Get, Del, RemoveMulti, Len) is atomic under concurrent use.",
  ["inputs","histories","schedules"], "all operation sequences, capacities and interleavings",
  "TestLimitMap runs one sequence and prints; capacity and eviction order at the boundary are not asserted.",
  ["hashmap/limitmap.go"], [("list order + map under one RWMutex","hashmap/limitmap.go Put")],
  [("order","recency list","hashmap/limitmap.go")], ["Put/Get/Len results"])
p("C03", "LimitHashMap never exceeds capacity nor confuses keys",
  "A LimitHashMap of capacity n>=1 never holds more than n entries, whatever the number of segments. Distinct keys never share a value (for strings, negative numbers and floats alike; 0 and -0 are equal, and so one key): Get and Contains report exactly the last value put for that very key and not deleted, cleared or evicted, and Put returns the value it replaced and whether there was one; values that were evicted, deleted, cleared or replaced are not held in memory. An entry is evicted only to make room for a new key, and then it is the earliest inserted of its segment; Put of a present key never evicts, and all this holds under concurrent use.",
  ["inputs","histories","schedules"], "all key types, capacities, segment counts, operation sequences and interleavings",
  "TestLimitHashMap uses one type and one big capacity; small capacities, hash collisions and concurrent Put are not reached.",
  ["hashmap/limithashmap.go"], [("per-segment map+list under RWMutex, hash of key selects segment","hashmap/limithashmap.go")],
  [("segments","per-segment entries","hashmap/limithashmap.go")], ["Put/Get/Contains/Len results"])
p("C04", "LinkedHashMap keeps a bounded, recency-ordered map",
  "A LinkedHashMap with limit n>=1 never holds more than n entries; Put, LoadOrStore of a new key and MoveToFront make the entry the front one, and inserting a new key into a full map removes exactly the back one. Get returns the last value stored for a present key; LoadOrStore returns the existing value with loaded=true and leaves it stored, or else stores and returns the given one with loaded=false; Len, Front, Back and the iterators (front or back) describe exactly the current entries in that order. A key that is not equal to itself, such as NaN, is not stored, and values no longer in the map are not held in memory. Mutating operations are atomic under concurrent use, and Get never blocks, fails or returns a value never stored for its key.",
  ["inputs","histories","schedules"], "all operation sequences, limits and interleavings",
  "TestLinkedHashMap prints one run; order and limit after mixed operations and concurrent Get/Clear are not asserted.",
  ["hashmap/linkedhashmap.go"], [("mutex around list+sync.Map updates","hashmap/linkedhashmap.go Put, LoadOrStore, Delete, Clear")],
  [("list","recency order","hashmap/linkedhashmap.go"),("count","number of entries","hashmap/linkedhashmap.go")], ["all results, iterator output"])
p("C05", "TreeMap is a linearizable sorted map",
  "Put, Get and Del on a TreeMap behave as on a sorted map (NaN being one key that comes before the others), Put returning the replaced value and whether there was one. Ascend and Descend visit every entry present exactly once in strictly increasing or decreasing key order with its current value, and stop as soon as the callback returns false, or panics, which leaves the map usable. All operations are atomic under concurrent use, a traversal seeing one consistent state; values no longer in the map are not held in memory.",
  ["inputs","histories","schedules"], "all operation sequences, degrees >=2 and interleavings",
  "The tests insert a few keys; node splits/merges at each degree and traversals concurrent with writers are not checked.",
  ["hashmap/treemap.go"], [("RWMutex around btree","hashmap/treemap.go")], [("tree","b-tree","hashmap/treemap.go")], ["results, visited sequence"])
p("C06", "Consistent hashing is total, history-independent and minimally disruptive",
  "Get and GetStr return a current member, with ok true exactly when the ring has members, and the answer depends only on the key and the set of members, not on the order or history of Add and Del. Adding a member only moves keys to it, and removing one only moves the keys it owned, even down to the empty ring and back. GetNextNodeStr with step k>=1 returns, without duplicates and without the owner of the key, min(k, members-1) members in ring order from the key (so the first one takes over if the owner is removed), and Nodes lists exactly the members; with a hundred replicas or more each of a few members owns a fair share of the keys (no less than a quarter and no more than four times the average); the lists returned belong to the caller, and all are safe under concurrent use.",
  ["inputs","histories","schedules"], "all member sets, add/delete histories, keys and interleavings",
  "There is no test of the ring at all.",
  ["hashmap/consistenthash.go"], [("sorted virtual-node ring rebuilt on Add/Del","hashmap/consistenthash.go")],
  [("keys","sorted ring","hashmap/consistenthash.go")], ["Get/GetStr/GetNextNodeStr/Nodes"])
p("C07", "LruCache evicts exactly the least recently used entry",
  "An LruCache of size n>=1 never holds more than n entries, and adding a new key to a full cache evicts exactly the entry least recently added or got (size 0 means unlimited). Get returns the last value added for a key neither removed nor evicted, nil values included (a nil key, or one that is not equal to itself such as NaN, is never stored); Remove and RemoveMulti remove exactly the named keys, and values no longer in the cache are not held in memory. All operations are atomic under concurrent use.",
  ["inputs","histories","schedules"], "all operation sequences, sizes and interleavings",
  "Only benchmarks exist.",
  ["cache/lrucache.go"], [("mutex around groupcache lru","cache/lrucache.go")], [("cache","lru state","cache/lrucache.go")], ["Get results"])
p("C08", "BloomFilter has no false negatives within its window",
  "After Add(x) returns, Contains(x) is true at least until expectedItems further items have been added, for any item bytes and any number of concurrent Add and Contains calls. Contains of an item never added is true only with a probability of the order of the configured false positive rate. The filter never panics and never stops accepting items, however many are added.",
  ["inputs","histories","schedules"], "all item sequences, sizes, rates, generation rotations and interleavings",
  "Test_bf adds 31 items to a filter of 2M and only prints; generation rotation and concurrent Add are never reached.",
  ["cache/bloom.go"], [("three rotating bit generations, current plus previous are consulted","cache/bloom.go getBitIndex, testBit")],
  [("bits","generations","cache/bloom.go"),("numCount","adds so far","cache/bloom.go")], ["Contains"])
p("C09", "Keyed locks give mutual exclusion per key",
  "Between Lock(key) and Unlock(key) of a Numlock or Strlock no other holder of the same key exists (for Strlock, readers share the key among themselves but never with a writer), for every key including negative numbers and the empty string. TryLock and TryRLock never block, return true exactly when they acquired the lock and then return the mutex that was locked. Every Lock eventually succeeds once the conflicting holders unlock.",
  ["schedules","inputs"], "all interleavings of lockers, all keys",
  "No test exercises the keyed locks.",
  ["lock/lock.go"], [("key modulo number of mutexes","lock/lock.go Lock, TryLock, Unlock")], [("lockm","stripe mutexes","lock/lock.go")], ["Lock/TryLock/Unlock"])
p("C10", "LimitLock admits at most its limit and times out otherwise",
  "At most `limit` successful Locks of a LimitLock are outstanding at any moment. Lock succeeds when a slot is or becomes free before the timeout and otherwise returns an error no earlier than the timeout without taking a slot; every Unlock frees exactly one slot. LockCount is the number of successful Locks and, with no call in progress, Cc is the number currently held.",
  ["schedules"], "all interleavings of lockers, unlockers and timeouts",
  "No test exercises it; needs a schedule where timeout and release coincide.",
  ["lock/lock.go"], [("buffered channel as semaphore with select on timer","lock/lock.go LimitLock.Lock")], [("ch","slots","lock/lock.go")], ["Lock/Unlock/Cc/LockCount"])
p("C11", "Await hands a value to its waiter exactly once, or times out",
  "For one waiter per id at a time, Wait, SyncWait and WaitWithCancel on Await return either the value given to CloseAndPut for that id (no error), the zero value without error if Close released it, an error at (not before) the timeout, or cancelled=true when the context ends, with or without a timeout; no value goes to another id and none is delivered twice. A waiter that waits without timeout is always released by a Close or CloseAndPut that starts after it began waiting or up to about a second before. No call panics or blocks forever otherwise (a close on an id nobody waits for gives up), and when all calls have returned Has is false for the id and the id can be used again. The channel Get returns for an id is the same one until the id is closed, and then yields what was put, once; Has is true in between.",
  ["schedules"], "all interleavings of waiter, closer, timer and cancellation",
  "TestAwait runs a one-second race once and logs the result.",
  ["lock/await.go"], [("per-id channel map guarded by Numlock","lock/await.go Get, CloseAndPut, Close, Wait*")], [("m","pending channels","lock/await.go")], ["results of Wait*/Close*/Has"])
p("C12", "FastAwait hands a value to its waiter exactly once, or times out",
  "For distinct ids used once each, Wait and WaitWithCancel on FastAwait return either the value given to CloseAndPut for that id, the zero value without error if Close released it, an error at (not before) the timeout, or cancelled=true when the context ends, with or without a timeout. A CloseAndPut or Close that runs up to about three seconds before the Wait still releases it (unless the filter of finished ids takes the id for one of them, about once in a thousand), one that comes after the wait ended returns without blocking, and one on an id nobody ever waits for gives up. No call panics, no value goes to another id and none is delivered twice.",
  ["schedules"], "all interleavings of waiter, closer, timer and cancellation",
  "TestFastAwait runs a one-second race once and logs the result.",
  ["lock/fastawait.go","cache/bloom.go"], [("per-id channel map plus bloom filter of finished ids","lock/fastawait.go")], [("db","pending channels","lock/fastawait.go"),("bf","finished ids","lock/fastawait.go")], ["results of Wait*/Close*"])
p("C13", "GoPool runs every submitted function exactly once",
  "Every function passed to Go is executed exactly once, whatever the pool limits, the queue limit, the number of concurrent submitters and the functions that panic or end their goroutine, and also when TurnOff or Close is called before, between or during the submissions; Close starts all that are queued, even while those that run are blocked. Go returns once the function is queued, Close may be called repeatedly, and neither panics. When all submitted functions have finished NumUnExecu is 0.",
  ["schedules","configurations"], "all interleavings of submitters, dispatcher, workers, TurnOff and Close; all small limits",
  "gopool has no test among the stable ones; a lost wakeup needs one particular interleaving.",
  ["pool/gopool/gopool.go"], [("TryLock-guarded dispatcher over a buffered channel","pool/gopool/gopool.go Go, _funcn"),("worker recycling","pool/gopool/gopool.go put, run")],
  [("tnum","functions not yet handed over","pool/gopool/gopool.go"),("count","busy workers","pool/gopool/gopool.go")], ["executions of submitted functions"])
p("C14", "GoPool never runs more than its maximum concurrently",
  "While the pool is neither closed nor turned off, at most max(minlimit,maxlimit,1) submitted functions run at the same moment, and a submitted function does not wait while fewer do. Worker goroutines are reused rather than created per function beyond the limits, so after all functions have finished at most minlimit workers remain.",
  ["schedules","configurations"], "all interleavings of submitters, dispatcher and workers; all small limits",
  "No test measures concurrency.",
  ["pool/gopool/gopool.go"], [("busy-worker counter compared with limits","pool/gopool/gopool.go _funcn, put")],
  [("count","busy workers","pool/gopool/gopool.go"),("id","workers created","pool/gopool/gopool.go")], ["number of functions inside at once"])
p("C15", "Concurrent fastio writes are never lost, torn, reordered or misplaced",
  "With any number of goroutines calling Write and WriteSync on one fastio file, the bytes of each call appear in the file exactly once, contiguous and unmixed, after the previous content and in the order each goroutine issued them. When WriteSync returns, its bytes are in the file at the offset it returned; Write keeps no reference to the caller's slice after it returns, and once Close has returned every acknowledged write is in the file. ReadAt, and WriteAt on a file not opened for appending, act on exactly the given range. A file that cannot be opened, or is closed, gives errors.",
  ["schedules","inputs"], "all interleavings of writers and Close",
  "fastio has no test.",
  ["fastio/fw.go","fastio/file.go"], [("direct write or queued group write under a lock","fastio/fw.go WriteSync, Write, ioWrite")],
  [("offset","end of file","fastio/file.go"),("wc","queued writes","fastio/fw.go")], ["file content, returned offsets"])
p("C16", "fastio reports write failures and stays usable",
  "When the underlying file fails or writes short, every Write or WriteSync call returns (none hangs), each call whose bytes are not completely in the file returns an error, and once the fault is gone later writes succeed and WriteSync again returns the offset where its bytes are.",
  ["fault_sequences","schedules"], "a fault at every write call, short writes of every length, all interleavings within the bound",
  "No test injects a fault.",
  ["fastio/fw.go"], [("error returns of direct and group writes","fastio/fw.go")], [("offset","end of file","fastio/file.go")], ["returned errors and offsets, file content"])
p("C17", "Buffer is a FIFO byte queue honouring the io contracts",
  "Bytes written to a Buffer with Write, WriteString, WriteByte and WriteInt32 (4 bytes, big endian) are appended unchanged, each call reporting the number of bytes it wrote; Len, Bytes and String describe exactly what is unread. Read returns the oldest bytes, removes exactly those it returns, and reports io.EOF once nothing is left (never for an empty p), so copying a Buffer with io.ReadAll ends with exactly its content. A nil Buffer returns errors instead of panicking, and appending to one buffer never changes another that was made separately, also when they are used concurrently.",
  ["inputs","histories"], "all sequences of writes, reads and resets",
  "Buffer has no test.",
  ["buffer/buffer.go"], [("slice append and re-slice","buffer/buffer.go")], [], ["results and content"])
p("C18", "Pools hand out each object to one holder at a time, clean",
  "An object obtained from a pool (NewPool, NewBufferPool of size n>=1 or the package buffer pool) is not handed to anyone else until it is put back, and every Get returns a usable object that is empty (or was reset by the reset function, if there is one), whatever its previous holder did to it. Put reports true exactly when it accepted a non-nil object and, where given a pointer to the variable, clears the variable.",
  ["schedules","histories"], "all interleavings of Get and Put and all choices of the underlying pool",
  "No test; sync.Pool decides non-deterministically which object is reused.",
  ["pool/buffer/buffer.go","pool/buffer/pool.go","buffer/buffer.go"], [("sync.Pool plus reset on Get","pool/buffer")], [], ["identity and content of objects"])
p("C19", "Mmap writes land exactly where reported and never overlap",
  "Concurrent Append and AppendSync calls get disjoint, adjacent ranges in a serial order, starting at the initial offset and the end of earlier writes, and the bytes at the returned offset are exactly those appended. WriteAt changes exactly the given range and moves the append position to its end if that is further; a write that does not fit in the file, or has a negative or overflowing position, returns an error and changes nothing. The file has the same content as the mapping after Flush, Close, Unmap or UnmapAndCloseFile, of which the last three end the mapping and the last one closes the file; a file that cannot be mapped gives an error.",
  ["schedules","inputs","histories"], "all interleavings of appenders and writers, all sequences, all boundary positions",
  "mmap has no test.",
  ["mmap/mmap.go"], [("offset reservation under a mutex","mmap/mmap.go Append, WriteAt")], [("offset","append position","mmap/mmap.go")], ["returned offsets, mapping and file content"])
p("C20", "Synchronous mmap writes are durable when they return",
  "When AppendSync or WriteAtSync returns without error, every byte it wrote, whatever its position relative to page boundaries, has been synchronously flushed to the file. A Sync call never reports failure for a write that fits, including empty writes, and Flush and Close flush the whole mapping.",
  ["crash_points","inputs"], "a crash immediately after every synchronous write, all positions and lengths around page boundaries",
  "No test; a page left out of the flush shows only after a machine crash.",
  ["mmap/mmap.go","mmap/sync_unix.go"], [("msync of the page-aligned range","mmap/sync_unix.go mmapSyncToDisk")], [], ["ranges given to msync"])
p("C21", "UUIDs are unique and survive their text form",
  "No two NewUUID calls in a process return equal UUIDs, however many goroutines call concurrently; each has version 4 and the RFC 4122 variant. Parse(u.String()) yields a UUID with the same bytes for every UUID, Equals is true exactly for UUIDs with equal bytes, and Parse rejects every string that is not 8-4-4-4-12 hexadecimal digits separated by dashes. Int64 is the first eight bytes as a big-endian number and Base58 its base58 form; Version and Variant tell the version and variant of any UUID.",
  ["schedules","inputs"], "all interleavings of concurrent creators, all byte values, all malformed strings near a valid one",
  "The test draws a sample and checks for duplicates within it.",
  ["uuid/uuid.go"], [("atomic sequence in the low half","uuid/uuid.go getSeq, NewUUID")], [("seq","sequence number","uuid/uuid.go")], ["UUID bytes and strings"])
p("C22", "Compression round-trips and corruption never passes as data",
  "For every byte string and every codec and level of the compress and util packages (zlib, gzip, snappy, zstd), decompressing the compressed form yields exactly the input, and the zlib and gzip functions of the two packages can read each other's output. A truncated or checksum-violating zlib or gzip stream makes the decompressor return an error, and no input makes any decompressor panic.",
  ["inputs"], "all byte strings up to a length, all boundary lengths, all truncations and single-byte corruptions",
  "The tests compress one short string each and print the result without comparing.",
  ["compress/compress.go","util/compress.go"], [("stream closed before the buffer is taken; read errors returned","compress/compress.go, util/compress.go")], [], ["returned bytes and errors"])
p("C23", "Integer codecs are exact inverses with a fixed byte order",
  "Converting any int16, int32, int64 or []int64 to bytes and back yields the same value; the bytes are big endian; decoding fewer bytes than the width reads them as a zero-extended big endian number and decoding more uses the leading ones. Base58 encoding of every uint64 contains only alphabet characters and decodes to the same number, decoding rejects every other character and every number beyond 64 bits, and unequal numbers have unequal encodings.",
  ["inputs"], "all 16-bit values, all boundary and single-bit patterns of wider types, all short byte strings",
  "The tests cover non-negative int32 below 2^30 and a handful of int64.",
  ["util/num.go","base58/base58.go","buffer/buffer.go"], [("shift-based encoding","util/num.go")], [], ["returned values"])
p("C24", "Serializers round-trip and report malformed input",
  "For every value that its format represents, decoding what JsonEncode, Encode (gob), TEncode (thrift) or Marshal (protobuf) produced yields an equal value. Decoding a truncated or malformed byte string returns an error exactly when the format's own decoder does and never panics, and Encode of a value gob cannot represent returns an error. Concurrent encodings and decodings do not influence each other. Equals of the key store's beans (UserBean, KeyBean) is true exactly for beans with equal contents.",
  ["inputs","schedules"], "all small structures over boundary field values, all truncations and single-byte corruptions",
  "No test calls the serializers.",
  ["util/gob.go","util/protobuf.go","thrift/serialize.go","keystore/store.go"], [("thin wrappers with a fresh buffer per call","util/gob.go, thrift/serialize.go")], [], ["returned values and errors"])
p("C25", "Encryption round-trips, preserves its input and rejects malformed input",
  "Decrypting what AES-CBC or RSA encryption produced with the matching key yields exactly the plaintext, for every plaintext length (within the RSA size limit) and every key and iv string; AES ciphertexts are AES-256-CBC with PKCS#7 padding, keyed by the SHA-256 of the key string with the MD5 of the iv string as iv, so that stored data stays readable. An Aes may be used again and again and by several goroutines. Encrypting and decrypting never modify the caller's slices (even beyond their length). A ciphertext of impossible length or padding, or an unusable RSA key, yields an error, never a panic and never a nil result without error.",
  ["inputs"], "all lengths through several blocks, slices with spare capacity, all malformed lengths and padding bytes",
  "TestAES round-trips one string.",
  ["keystore/aes.go","keystore/key.go"], [("PKCS#7 padding around CBC","keystore/aes.go")], [], ["returned bytes and errors, caller's slices"])
p("C26", "The credential store keeps exactly what was put",
  "storeAdmin behaves as four independent maps (admin, client, mq, other) under any sequence and interleaving of Put, Del, Get and List: Get returns the name, the upper-case MD5 hex of the password and the type last put, lists hold exactly the names present and belong to the caller. After any such history a new store loaded from the same file returns the same entries, and whatever is written with a key store's Write is what its Read returns, also for a newly opened one; a Read during a Write returns the content before or after it.",
  ["histories","schedules","inputs"], "all operation histories with reloads at every point, all interleavings",
  "TestKey exercises only RSA; the store is never reloaded.",
  ["keystore/keystore.go","keystore/bin.go","keystore/store.go"], [("whole-bean rewrite after each change under a mutex","keystore/keystore.go")], [("kb","in-memory bean","keystore/keystore.go")], ["Get/List results after reload"])
p("C27", "A crash during a store write leaves the old or the new content",
  "If the process dies at any point of a key store Write, including in the middle of writing a file, a store opened afterwards in the same directory reads either the complete content before that Write or the complete content after it, never an empty, partial or mixed one. Writes that returned before the crash are never lost. A Write that fails because a file operation failed also leaves the old or the new content, and later Writes work.",
  ["crash_points"], "a crash after every file-system effect and inside every write, for all short histories",
  "No test kills a writer.",
  ["keystore/bin.go"], [("file replacement in Write","keystore/bin.go Write")], [], ["Read after reopening"])
p("C28", "The websocket client delivers every message and ends once",
  "For every message (of up to 32 MB) the server sends before the connection ends, OnMessage is called exactly once with exactly its bytes (also while an earlier call still runs), and it is never called with anything else; everything passed to a successful Send reaches the server as one unmixed message, also from several goroutines. OnOpen is called before anything else, and after the connection ends for whatever reason (never before) OnClose is called exactly once, OnError at most once and always with a non-nil error (exactly once when it was not the user who closed), the connection is closed, and Error and Send return an error from then on. A url whose scheme is neither ws nor wss, a server that cannot be reached or does not complete the handshake, or one that the configured certificates do not vouch for yields an error, no handler and no callback.",
  ["schedules","fault_sequences"], "all short scripts of server and client events, all connection-end kinds",
  "There is no websocket test.",
  ["websocket/wshandle.go"], [("reader goroutine and send mutex","websocket/wshandle.go read, sendws")], [("err","terminal state","websocket/wshandle.go")], ["callbacks, bytes at the server"])
p("C29", "HTTP posts deliver the request intact and return the response intact",
  "Post, Post2 and Post3 send exactly one POST with exactly the given body, headers (other than Host and those describing the message itself) and cookie, and return exactly the response body (as decoded by net/http) whatever the status, empty and large ones included, over http and https. A connection that fails, is cut before the announced body is complete, or yields no valid response makes them return an error and no body. No connection is left open afterwards.",
  ["inputs","fault_sequences"], "all request variants and a cut at every byte position of the response",
  "There is no httpclient test.",
  ["httpclient/post.go"], [("per-call transport without keep-alive, full body read","httpclient/post.go Post3")], [], ["request seen by server, result"])
p("C30", "Image processing yields the requested picture, size and format",
  "Encode, Resize, ResizeGIF, QualityByBinary and Quality return a decodable picture of the requested format (of the source's format when none or an unknown one is asked for) and leave the caller's data alone. Written to a lossless format (bmp and webp: without transparency) the pixels are exactly those of the source after the options: CropAnchor and CropSide [w,h,x,y] keep that rectangle of the picture (clipped to it, or moved inside it), Gray, Invert, Rotate by quarter turns (counter-clockwise), FlipH and FlipV, applied in the order crop, scale, resize, colour, rotation, flips. No mode enlarges a picture when both sides are asked for: mode 0 fits it inside the long and short side asked for, modes 2 to 4 shrink it just so far that it still covers them, both keeping its proportions, modes 1 and 5 cut a centred rectangle of exactly that size. ScaleLower fits inside and ScaleUpper covers the given size, within the given number of pixels. Sizes change with the filter of package imaging that ResizeFilter names (Mitchell-Netravali for an unknown one, Lanczos for ScaleLower and ScaleUpper), and Blur is its Gaussian blur. ResizeGIF keeps the frames (each in its place and colours), delays, disposal and loop count and never enlarges. Data that cannot be decoded comes back unchanged (QualityByBinary and ResizeGIF also return an error), and no input makes these functions panic.",
  ["inputs"], "all small pictures, sizes, modes, option combinations, formats and truncations",
  "There is no image test.",
  ["image/image.go","image/adjust.go"], [("resize modes","image/image.go")], [], ["output image"])
p("C31", "Signal listeners run their callback for a registered signal",
  "After ListenSignalEvent returns, the first arrival of one of the named signals (or of any signal, when none is named) leads to exactly one call of the callback with that signal, also when it arrives immediately, while other listeners are registered or while their callbacks run; later arrivals do not call it again, and a signal not named never calls it. ListenSignalEvent itself does not block.",
  ["schedules"], "all interleavings of registration, signal arrival and listener goroutine",
  "There is no gosignal test.",
  ["gosignal/gosignal.go"], [("buffered channel registered before the goroutine starts","gosignal/gosignal.go")], [], ["callback calls"])
p("C32", "Digest and helper functions compute their standard functions",
  "MD5, SHA1, CRC8 (poly 07), CRC32 (IEEE), CRC64 (ECMA), FNV-1a 32/64 and BLAKE2b-256 equal the standard functions on every input (string forms in upper-case hexadecimal), Hash64 is a function of its input within a process, and Concat joins its arguments. RandUint(n) and RandInt64Strict(n) lie in [0,n). ReadFile returns exactly the file's content for every size including zero, IsFileExist tells whether a path exists, and StringToSlice returns the string's bytes. MatchString tells whether the pattern is well formed and matches, StrToTimeFormat reads '2006-01-02 15:04:05' in China's time zone as package time does, and rejects what that rejects, a deferred Recover turns a panic into an error and leaves the error alone otherwise, and UUID64 does not repeat itself.",
  ["inputs"], "all short byte strings and boundary lengths",
  "The tests print single values.",
  ["util/encode.go","fast/fast.go"], [("table-driven and library digests","util/encode.go")], [], ["returned values"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
