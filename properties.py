prop("C01", "Integer and byte-slice codecs are exact inverses",
 "Encoding a 16-, 32- or 64-bit integer, or a slice of 64-bit integers, gives its big-endian bytes, and decoding those bytes gives the same integers back. A decoder given fewer bytes than its width zero-extends them on the left, one given more reads the leading bytes, an array decoder ignores trailing bytes that do not make a whole word, and no decoder changes its input. None of this depends on other conversions going on at the same time.",
 ["inputs", "schedules"], "every integer of each width, every byte slice up to 17 bytes, arrays up to 3 elements (5 thorough) and fixed ones of up to 2,050 (9,000) words; two concurrent callers under every schedule with up to 2 (3) preemptions",
 "No test calls these functions; the value space of 2^64 per integer cannot be sampled to exhaustion.",
 ["util/num.go"], [("shift loops", "util/num.go Int64ToBytes/BytesToInt64"), ("encoding/binary", "util/num.go IntArrayToBytes")],
 "encoding/binary.Write/Read on []int64 are modelled.")
prop("C02", "Base58 is a bijection between 64-bit values and canonical digit strings",
 "Encoding any unsigned 64-bit value yields its digits in base 58 over the Bitcoin alphabet, most significant first and without leading zero digits, and decoding that text returns the value. Decoding arbitrary bytes succeeds exactly when every byte belongs to the alphabet, yields the positional value, and otherwise reports failure with value zero. Concurrent conversions do not disturb each other.",
 ["inputs", "schedules"], "all 2^64 values for encoding and round trip; every byte string of up to 11 bytes for decoding (value modulo 2^64); two concurrent callers with values of up to 3 digits under every schedule with up to 2 (3) preemptions",
 "No test covers the package; a wrong alphabet entry, digit order or carry shows only for particular values.",
 ["base58/base58.go"], [("digit loop and reversal", "base58/base58.go EncodeForInt64"), ("reverse table", "base58/base58.go DecodeForInt64")])
prop("C03", "UUID text form, accessors and equality agree with the 16 octets",
 "The text of a UUID is its 16 octets as lower-case hexadecimal grouped 8-4-4-4-12, and parsing it returns an equal UUID. Parsing accepts hexadecimal digits of either case and rejects text of the wrong length or with a non-hexadecimal digit, returning either a value or an error. Bytes, the integer accessors, Version, Variant, Base58 and Equals are functions of the octets alone: two UUIDs are equal exactly when their octets are. Concurrent conversions do not disturb each other.",
 ["inputs", "schedules"], "every 16-octet value; every character at every digit position; all text lengths up to 40; two concurrent callers under every schedule with up to 2 (3) preemptions",
 "Tests print a few generated UUIDs; they never compare octets, parse malformed text or compare distinct values.",
 ["uuid/uuid.go"], [("String/Parse", "uuid/uuid.go"), ("Equals/Variant/Version", "uuid/uuid.go")])
prop("C04", "Generated UUIDs are well-formed and never repeat within a process",
 "Every generated UUID carries version 4 and the RFC 4122 variant. No two generated UUIDs of one process are equal, whatever goroutines generate them concurrently and whatever the clock and randomness return.",
 ["schedules", "inputs", "histories"], "5 (9 thorough) and a run of 66,000 sequential and 3x2 concurrent generations under every schedule with up to 2 (4) preemptions, arbitrary clock readings and random bytes; the hash is an uninterpreted function; 6 (10) goroutines taking turns in time slices of 0 (only when blocked), 1, 2, 3, 5, 7 (11, 13, 17, 19) operations",
 "The test generates a few values on one schedule with the real clock; a duplicate needs a race in the counter or colliding inputs.",
 ["uuid/uuid.go"], [("atomic sequence number mixed into octets", "uuid/uuid.go getSeq/uniq")],
 "Blake2b and time are modelled; counterexamples that depend on hash values are reported with the engine's trace.")
prop("C05", "The concurrent maps are linearizable maps and Len counts entries",
 "Put returns the previous value and whether one existed, Get and Has find exactly the keys put and not deleted since, Del reports whether the key was there, and Range visits each present entry once and stops when told to; nil interface values count as values. Concurrent operations on distinct or equal keys are linearizable, and the counting map's Len equals the number of entries whenever no operation is in progress and is free of data races.",
 ["inputs", "histories", "schedules"], "all sequences of 4 (6) operations on symbolic keys and values; two goroutines with 2+1 (2+2) operations under every schedule with up to 3 (5) preemptions; one fixed history of 400 operations on 90 keys; 6 (10) goroutines taking turns in time slices of 0 (only when blocked), 1, 2, 3, 5, 7 (11, 13, 17, 19) operations",
 "The maps have no functional tests; counter drift needs a particular overwrite, failed delete or interleaving.",
 ["hashmap/map.go"], [("Swap / LoadAndDelete decide the counter update", "hashmap/map.go MapL.Put, MapL.Del")],
 "sync.Map is modelled as an atomic map.")
prop("C06", "LinkedHashMap is a bounded map kept in recency order",
 "The map never holds more than its limit; a key it holds reads back the value last stored. Put, MoveToFront and LoadOrStore of a key make it the newest, Get does not, and when the limit is exceeded exactly the oldest entry is dropped; Front, Back and the forward and backward iterators show that order, also when already returned entries are deleted during the iteration. LoadOrStore keeps and returns an existing value; all operations are linearizable and race-free under concurrent use.",
 ["inputs", "histories", "schedules"], "all sequences of 4 (5) operations, and 6 (7) Puts, on symbolic keys and values with limits 0..3 and symbolic non-positive limits; two goroutines with 3 operations in total under every schedule with up to 2 (3) preemptions; one fixed history of several hundred operations on 90 keys",
 "The test prints one fixed history without checking it; LoadOrStore, Clear, limits and concurrency are never exercised.",
 ["hashmap/linkedhashmap.go"], [("list and index updated under one mutex", "hashmap/linkedhashmap.go Put"), ("eviction of list.Back", "hashmap/linkedhashmap.go Put")])
prop("C07", "LimitMap and LimitHashMap are maps that never exceed their capacity",
 "The maps never hold more entries than their capacity. Put returns the previous value and whether one existed, Get and Has find exactly the entries put and neither deleted nor evicted since, Del and RemoveMulti remove exactly the named keys, for keys of every supported type and for nil values. An entry is evicted only when a Put of a new key exceeds the capacity, and then the oldest one goes: LimitMap counts an overwrite as new, LimitHashMap keeps insertion order per segment. Distinct keys never share a value, also when their hashes collide. Concurrent operations are linearizable and race-free.",
 ["inputs", "histories", "schedules"], "all sequences of 4 (5) operations, and 6 (7) Puts, on symbolic keys and values with capacities 1..3 (4) and 1..3 segments; key types int, uint, bool, float, string and struct; two goroutines under every schedule with up to 2 (4) preemptions; one fixed history of 300 operations on 90 keys with capacities 20, 70, 1000; 6 (8) goroutines taking turns in time slices of 0 (only when blocked), 1, 2, 3, 5, 7 (11, 13, 17, 19) operations",
 "The tests print timings; capacity, eviction order, collisions, nil values and races are never asserted.",
 ["hashmap/limitmap.go", "hashmap/limithashmap.go"], [("eviction in Put", "hashmap/limitmap.go LimitMap.Put"), ("segment choice and ring of slots", "hashmap/limithashmap.go")])
prop("C08", "TreeMap is an ordered map",
 "Put returns the previous value and whether one existed, Get finds exactly the keys put and not deleted, with the value last put, and Del removes exactly its key. Ascend and Descend visit every entry once in increasing or decreasing key order and stop when told to. All operations are linearizable and race-free under concurrent use.",
 ["inputs", "histories", "schedules"], "all sequences of 5 (6) Puts and 4 (5) mixed operations on symbolic keys, trees of up to 11 (19) entries of degree 2, integer, string and byte keys; two goroutines with 3 operations under every schedule with up to 2 (4) preemptions; one fixed history of 500 operations on 150 keys with degrees 2, 3, 32; 6 (8) goroutines taking turns in time slices of 0 (only when blocked), 1, 2, 3, 5, 7 (11, 13, 17, 19) operations",
 "The test inserts a fixed ascending run; orders, deletions that merge nodes, pivots and races are never sampled.",
 ["hashmap/treemap.go"], [("lock around google/btree", "hashmap/treemap.go")])
prop("C09", "Consistent hashing maps every key to a member and moves keys only when it must",
 "A lookup returns a current member if there is one and otherwise reports none, without panicking. The mapping depends only on the set of members, not on the order in which they were added or removed. Adding a node moves keys only to that node; removing a node moves only the keys it had. Next-node lookups return distinct members other than the key's own, at most as many as asked for. Nodes lists exactly the members. Lookups and updates may run concurrently without races and each lookup answers for some member set of its duration.",
 ["inputs", "histories", "schedules"], "all sequences of 3 (4) additions and removals of up to 3 nodes with up to 5 ring positions, arbitrary collision-free positions (the hash is an uninterpreted injective function) and arbitrary keys; one fixed assignment of positions with 9 nodes and up to 130 positions per node; two goroutines under every schedule with up to 1 (3) preemptions",
 "There is no test; a wrong search boundary or a stale ring entry shows only for particular relative positions of nodes and keys.",
 ["hashmap/consistenthash.go"], [("sorted ring and binary search", "hashmap/consistenthash.go")],
 "The string hash is modelled as an arbitrary collision-free function; counterexamples are engine traces.")
prop("C10", "The rotating Bloom filter has no false negatives within its window",
 "An item added is contained until more than the expected number of items were added after it, in every phase of the rotation and for every size and false-positive rate. An empty filter contains nothing. Additions and lookups may run concurrently without races and no addition is lost.",
 ["inputs", "histories", "schedules"], "arbitrary hash values, 1 to 3 (6) hash functions, 1 and 2 words, every rotation phase over two revolutions for filters of 1 and 2 items and the phase boundaries for 14 and 20 items; two goroutines and a reader under every schedule with up to 2 (3) preemptions; 3 (5) goroutines taking turns in time slices of 0 (only when blocked), 1, 2, 3, 5, 7 (11, 13, 17, 19) operations",
 "The test prints a measured rate with random seeds; a lost bit needs a particular phase, hash position or interleaving.",
 ["cache/bloom.go"], [("three rotating bit arrays", "cache/bloom.go getBitIndex")],
 "maphash is an uninterpreted function; counterexamples are engine traces.")
prop("C11", "LruCache is a bounded map that drops the least recently used entry",
 "Get finds exactly the entries added and neither removed nor evicted, with the value last added, nil values included. The cache holds at most its limit (0 is unlimited); only an addition of a new key beyond the limit evicts, and it evicts the entry whose last Add or Get is oldest. Remove and RemoveMulti remove exactly the named keys, adding under a nil key changes nothing. Concurrent operations are linearizable and race-free.",
 ["inputs", "histories", "schedules"], "all sequences of 4 (5) operations on symbolic integer and string keys, limits 0..3; limits up to 3 (4) with limit+2 additions and interleaved uses; two goroutines with 3 operations under every schedule with up to 2 (3) preemptions; one fixed history of 300 operations on 90 keys with limits 0, 20, 70, 1000; 6 (8) goroutines taking turns in time slices of 0 (only when blocked), 1, 2, 3, 5, 7 (11, 13, 17, 19) operations",
 "The package has only benchmarks for it.",
 ["cache/lrucache.go"], [("mutex around groupcache lru", "cache/lrucache.go")])
prop("C12", "Key locks exclude each other per key",
 "Between Lock (or a successful TryLock) of a key and its Unlock no other holder of the same key is inside, for Numlock and for Strlock, for every key including negative and empty ones; Strlock's readers share with readers only. The try variants fail exactly when the lock is not available and never block, unlocking through the lock set or through the returned mutex releases the key, and consecutive integer keys of one sign (of any sign if the number of mutexes is a power of two) do not block each other while there are enough mutexes.",
 ["inputs", "schedules"], "every 64-bit key and every string of up to 3 (5) bytes with 1..5 (9) mutexes sequentially; two (three) goroutines with all combinations of operations under every schedule with up to 2 (4) preemptions; 6 (10) goroutines taking turns in time slices of 0 (only when blocked), 1, 2, 3, 5, 7 (11, 13, 17, 19) operations",
 "There is no test; exclusion is a statement about schedules.",
 ["lock/lock.go"], [("key to mutex mapping", "lock/lock.go Numlock.Lock, Strlock.Lock")])
prop("C13", "LimitLock admits at most its limit of holders",
 "At most limit goroutines are between a successful Lock and its Unlock. Lock succeeds while a slot is free or becomes free in time and otherwise returns an error after the timeout, without consuming a slot. LockCount is the number of successful locks, and Cc the number of holders when no operation is in progress; both may be read at any time.",
 ["schedules", "histories"], "all sequences of 5 (7) operations with limits 0..3 (5); 3 (4) goroutines with limits 1 and 2 under every schedule with up to 2 (3) preemptions, and 2 (3) goroutines with the timers expiring at any point; 6 (10) goroutines taking turns in time slices of 0 (only when blocked), 1, 2, 3, 5, 7 (11, 13, 17, 19) operations",
 "There is no test; the guarantee is about schedules and timeouts.",
 ["lock/lock.go"], [("slots in a buffered channel", "lock/lock.go LimitLock")],
 "Time is a virtual clock.")
prop("C14", "Await and FastAwait hand a value from the sender to the waiter of the same id",
 "With one waiter per id at a time: a wait answered in time returns exactly the value sent under its id and no error, and its sender sees no error, whichever comes first (FastAwait: unless its filter already holds the id, which it does once the id was used); closing ends it with the zero value. A wait that is not answered ends at its timeout with an error, and a cancelled one reports the cancellation, with and without a timeout. No wait both fails and returns a value, concurrent senders neither hang nor panic, everybody who asks Await for the channel of an id gets the same one, nothing stays registered after the wait, a sender that comes after the wait is not held up, and SyncWait announces itself only when an answer can reach it.",
 ["schedules", "inputs", "faults"], "one waiter (three kinds) and one or two senders, two ids, timers expiring at any point, cancellation before, during and racing with the answer, under every schedule with up to 2 (3) preemptions; symbolic values and ids; senders half a second before their waiters for 72 pairs of ids under one good hash function; 4+4 (8+8) goroutines taking turns in time slices of 0 (only when blocked), 1, 2, 3, 5, 7 (11, 13, 17, 19) operations",
 "The tests sleep on one schedule and log the result.",
 ["lock/await.go", "lock/fastawait.go"], [("channel registered per id", "lock/await.go Await.Get"), ("select on value, timer and context", "lock/await.go WaitWithCancel")],
 "Time is a virtual clock; maphash is an uninterpreted function.")
prop("C15", "A fastio file is an append log shared by concurrent writers",
 "Every Write and WriteSync that returns without error has put its data into the file, once, contiguous and unaltered, even if the caller reuses its buffer afterwards, and writes of one goroutine keep their order; WriteSync returns the offset of the data. A failed write is reported to its caller and to nobody else, blocks nobody, and later offsets stay correct. Reopening continues after the existing data, ReadAt returns what was written, WriteAt replaces exactly its range. No data races.",
 ["inputs", "histories", "schedules", "faults"], "all sequences of 3 (4) writes of up to 2 symbolic bytes onto files of up to 2 bytes; three writes by two or three goroutines under every schedule with up to 3 (4) and 2 (3) preemptions; 1 (2) failing or short writes at any point; 6 (10) goroutines taking turns in time slices of 0 (only when blocked), 1, 2, 3, 5, 7 (11, 13, 17, 19) operations; pieces of several kilobytes",
 "There is no test for the package; batching errors need concurrent writers and failing disks.",
 ["fastio/fw.go", "fastio/file.go"], [("batched appends under one mutex", "fastio/fw.go")],
 "os.File is modelled as an in-memory file system (harness/model/fs.go).")
prop("C16", "A memory-mapped file is a bounded append and random-write area",
 "Append puts its data at the current end, returns that offset and fails without writing when it does not fit; WriteAt replaces exactly its range and fails outside the file, moving the end past what it wrote. Bytes and the file always show the same content. AppendSync, WriteAtSync, Flush and Close have made their data durable when they return without error. Opening accepts exactly the offsets inside the file, a failed open leaves nothing mapped, and unmapping releases the mapping and the file. Concurrent appends get disjoint ranges; no data races, no panics.",
 ["inputs", "histories", "schedules", "crash points"], "all sequences of 3 operations with symbolic data of up to 2 bytes and any 64-bit offset on files of up to 3 bytes; files of up to 3 (4) modelled pages with data around the page boundaries for durability; two concurrent appenders, and two concurrent writers of any kind for durability, under every schedule with up to 3 (4) preemptions; 5 (8) goroutines taking turns in time slices of 0 (only when blocked), 1, 2, 3, 5, 7 (11, 13, 17, 19) operations",
 "There is no test for the package; offsets near the ends, page boundaries and races are never exercised.",
 ["mmap/mmap.go", "mmap/sync_unix.go"], [("copy into the mapping, msync of the pages touched", "mmap/mmap.go, mmap/sync_unix.go")],
 "mmap, msync and munmap are modelled (harness/model/mmap.go) with pages of 8 bytes; the Windows variant is not encoded.")
prop("C17", "buffer.Buffer is a byte queue",
 "Whatever sequence of Write, WriteString, WriteByte, WriteInt32, Read and Reset is applied, reads return the bytes written, once and in order, report how many they return and reach EOF exactly when the buffer is empty; Len, Bytes and String describe the unread bytes; the writers report the number of bytes written. A nil buffer reports errors, a recycled buffer starts empty and belongs to one owner.",
 ["inputs", "histories"], "all sequences of 3 (4) operations from every way of construction, with symbolic bytes and lengths up to 2; fixed histories of 4 pieces of several kilobytes",
 "There is no test of Read or of the counts returned.",
 ["buffer/buffer.go"], [("slice as a queue", "buffer/buffer.go Buffer")])
prop("C18", "Object pools hand out clean objects, each to one owner",
 "Get returns an object (new from the constructor, or one put back) that no other holder has, after the reset function was applied; Put takes the caller's reference away and refuses nil. A BufferPool returns empty buffers for every pool size and any requested length. Both hold for concurrent users.",
 ["inputs", "histories", "schedules"], "all sequences of 5 (6) operations with and without constructor and reset, pool sizes 1..4 (6), any requested length; fixed buffers of up to 5,000 bytes; two concurrent users under every schedule with up to 3 (4) preemptions; 6 (10) goroutines taking turns in time slices of 0 (only when blocked), 1, 2, 3, 5, 7 (11, 13, 17, 19) operations",
 "There is no test; which object sync.Pool returns depends on the schedule and the garbage collector.",
 ["pool/buffer/buffer.go", "pool/buffer/pool.go"], [("reset on Get", "pool/buffer")],
 "sync.Pool is modelled as keeping or dropping what is put.")
prop("C19", "A goroutine pool runs every submitted function exactly once within its limit",
 "Every function given to Go runs exactly once, whatever the limits and queue length, whether the pool is idle, busy, full, turned off and on, or being closed concurrently, and although other functions panic or submit functions themselves; never more functions at once run in the pool than the larger of its two limits (at least one), that many do run at once, a pool that is turned off or closed runs its functions without a limit and one turned on again within it, and NumUnExecu counts the functions that have not started. No deadlocks, no data races.",
 ["schedules", "histories", "faults"], "3 (4) functions from one submitter with limits 0..2 and symbolic panics, two submitters with three functions, queues of length 0..2, functions that wait for each other, nested submission, Close and TurnOff at any point, under every schedule with up to 1 (2) preemptions besides blocking switches; 5 (8) goroutines taking turns in time slices of 0 (only when blocked), 1, 2, 3, 5, 7 (11, 13, 17, 19) operations",
 "The test only prints; lost wake-ups and limits exceeded need particular schedules.",
 ["pool/gopool/gopool.go"], [("dispatcher started with TryLock, workers fed by channels", "pool/gopool/gopool.go")])
prop("C20", "Compression helpers invert each other and report damage",
 "For the zlib, gzip, snappy and zstd helpers of util and compress: decompressing what the counterpart compressed gives exactly the original bytes, for every input and every level the codec has, and the two packages read each other's streams. ZlibLevel and ZstdLevel accept exactly the codec's levels. A truncated or altered stream is reported (by an error, for SnappyDecode by nil), never passed off as data. CheckGzipType recognises gzip streams. Inputs are left unchanged, results share no memory with inputs or other results, every encoder and decoder is released, and concurrent callers do not disturb each other.",
 ["inputs", "faults", "schedules"], "data of up to 3 (4) symbolic bytes, and longer than the helpers' buffers; every level; every truncation and every alteration of one byte; readers that deliver short; two concurrent callers under every schedule with up to 2 (3) preemptions",
 "The tests print sizes of one input; a stream that is not finished, an ignored read error and pooled encoders need other inputs or schedules.",
 ["compress/compress.go", "util/compress.go"], [("library writers and readers wrapped in byte-slice helpers", "compress/compress.go, util/compress.go")],
 "The codecs themselves (compress/zlib, compress/gzip, snappy, zstd) are modelled as arbitrary injective encodings with a checksum (harness/codec).")
prop("C21", "AES encryption is standard AES-256-CBC with PKCS#7 and is inverted by decryption",
 "EncrypterCbc and AesEncrypter produce AES-256 in CBC mode with PKCS#7 padding, keyed by the SHA-256 of the key with the MD5 of the iv as initialisation vector; decrypting with the same key and iv returns the plaintext, for every plaintext and length. The caller's memory (including spare capacity) is not changed and results share no memory. Ciphertexts that are empty, not whole blocks or whose padding is not PKCS#7 are reported by an error; nothing panics. One Aes serves many messages. One value may be used from several goroutines.",
 ["inputs", "schedules", "histories"], "all plaintexts of up to 33 symbolic bytes at the lengths around block boundaries, keys and ivs of up to 2 symbolic bytes, all ciphertexts of up to 2 blocks; fixed messages of 130 and 260 bytes; two concurrent callers under every schedule with up to 2 (3) preemptions",
 "The test encrypts one string and prints it; padding and aliasing errors depend on the length and capacity of the slice.",
 ["keystore/aes.go"], [("PKCS#7 and CBC", "keystore/aes.go Aes.EncrypterCbc, DecrypterCbc")],
 "The AES block cipher is modelled as an arbitrary bijection per key, MD5 and SHA-256 as uninterpreted functions.")
prop("C22", "RSA helpers encrypt to the holder of the private key and report everything else",
 "What RsaEncrypt or RsaEncryptByBytes encrypts with a public key, RsaDecrypt or RsaDecryptByBytes returns exactly with the matching private key, and an error with any other; keys may be given as bytes, as a path, or (path empty) be the built-in pair. Unusable or missing keys, unreadable files, messages too long for the key and damaged ciphertexts are reported by an error, never by an empty result without one, and nothing panics.",
 ["inputs", "faults"], "messages of up to 3 symbolic bytes, two key pairs and the built-in one, keys of every kind (not PEM, not DER, another algorithm, private for public), any ciphertext",
 "The test round-trips one message with the built-in key; malformed keys and mixed key pairs are never tried.",
 ["keystore/key.go"], [("PEM, x509 and PKCS#1 v1.5 composed", "keystore/key.go")],
 "pem, x509 and rsa are modelled by their contracts (harness/c22): the RSA arithmetic itself is not encoded.")
prop("C23", "A KeyStore file holds what was last written to it",
 "Read returns exactly what the last successful Write stored, through the same KeyStore and any other one opened on the same file later, and an error while nothing was stored. A path that cannot be opened and a write that fails are reported, and the store works on afterwards. Stores of other names and directories are independent. Concurrent Reads and Writes are linearizable without data races. A Write that has returned survives the end of the process; one that is interrupted leaves the old content or the new.",
 ["histories", "inputs", "faults", "crash points", "schedules"], "all sequences of 4 (5) writes, reads and reopenings with data of up to 2 symbolic bytes; one failing or short file operation at any point; the process ending at any file operation; two goroutines under every schedule with up to 2 (3) preemptions; 6 (10) goroutines taking turns in time slices of 0 (only when blocked), 1, 2, 3, 5, 7 (11, 13, 17, 19) operations; data of up to 5,000 (70,000) bytes",
 "There is no test of the store; failing and interrupted writes and races are beyond unit tests.",
 ["keystore/bin.go", "util/encode.go"], [("truncate, compress and rewrite in place", "keystore/bin.go")],
 "os.File is modelled as an in-memory file system (harness/model/fs.go), zlib as in C20. The interrupted write is a known finding (keystore-torn-write).")
prop("C24", "The account store is a persisted map per section, and its Thrift encoding round-trips",
 "storeAdmin keeps one map each for admins, clients, mq users and other entries: Get, List and Del act on exactly what was put and not deleted under that name in that section, user passwords being kept as the upper-case hex MD5. Every change is persisted: a store loaded later (or again) holds exactly the same, and Load works whatever the file holds (nothing, garbage, some sections only). Concurrent operations are linearizable without data races and the stored state is the one in memory. TEncode and TDecode of util and thrift invert each other for beans and other Thrift structs; truncated or malformed input gives an error or a value, never a panic, and is not changed.",
 ["histories", "inputs", "schedules", "faults"], "all sequences of 4 (5) operations on two sections with symbolic names and passwords of up to 1 byte; all 16 combinations of stored sections; two goroutines with one operation each under every schedule with up to 1 (2) preemptions; beans with up to 2 entries per section, every truncation, every alteration of one byte, all inputs of up to 2 (4) bytes; one fixed history of 70 (150) users with values of up to 5,000 bytes",
 "There is no test of the store, and a lost or misplaced entry needs a history across reloads.",
 ["keystore/keystore.go", "keystore/store.go", "util/gob.go", "thrift/serialize.go"], [("maps mirrored into the key store", "keystore/keystore.go"), ("generated Thrift code, compact protocol", "keystore/store.go, util/gob.go, thrift")],
 "The Thrift libraries are executed as they are; MD5 is an uninterpreted function, the file system is modelled.")
prop("C27", "A websocket handler delivers messages and reports the end of the connection",
 "Every message that arrives reaches OnMessage exactly once and unaltered (empty ones included); Send transmits exactly its bytes as one frame, frames of concurrent senders do not interleave, and Send reports an error when it fails or the connection has ended. OnOpen runs once and first, and when the connection ends for whatever reason OnError runs once with a non-nil reason and OnClose once. Close may be called at any time, repeatedly, concurrently and from callbacks, and once it returned Error is not nil and Send fails. A bad URL, origin or certificate is reported without dialling, given certificates are required of the server, and the timeout is applied. No data races, no panics.",
 ["schedules", "histories", "inputs", "faults"], "up to 3 (4) messages of up to 2 symbolic bytes followed by the end of the connection, two senders and a closer under every schedule with up to 1 (2) preemptions besides blocking switches; every write failing at any point; all combinations of URL scheme, origin, certificates and timeout; messages of several kilobytes",
 "There is no test of the client; lost end notifications and races need a server that fails at particular moments.",
 ["websocket/wshandle.go"], [("reader goroutine and guarded error", "websocket/wshandle.go Handler.read"), ("frame writer under a mutex", "websocket/wshandle.go Handler.sendws")],
 "golang.org/x/net/websocket is modelled (harness/c27) as a connection that delivers frames and fails at any point; the wire protocol is not encoded.")
prop("C25", "The digests and small helpers of util compute what they are named after",
 "CRC8, CRC32 and CRC64 are the checksums with polynomial 0x07, IEEE and ECMA, FNVHash32 and FNVHash64 are FNV-1a, MD5, SHA1 and Blake2b are the standard digests of exactly the input and Md5Str and Sha1Str show them in upper-case hexadecimal; Hash64 depends on the content alone; none changes its input. Concat joins in order, StringToSlice covers exactly the string. RandUint and RandInt64Strict give numbers in [0, i) for every positive i, and the latter reports an error otherwise. StrToTimeFormat reads exactly the valid times, as the wall clock of China, on every system. IsFileExist and ReadFile reflect the file system. Recover turns any panic into an error and leaves the error alone without one. MatchString is the regular expression match, false for an invalid pattern. All of them may be called concurrently.",
 ["inputs", "schedules", "faults"], "inputs of up to 2 (3) symbolic bytes for the CRCs, 4 (8) for FNV, 3 (5) for digests and files; all limits of random numbers; all times of 2000 to 2029 with every digit symbolic, whole hours of 1980 to 1989 around the summers of daylight saving time; strings of up to 2 (3) bytes for four patterns; fixed inputs of up to 5,000 bytes; two concurrent callers under every schedule with up to 2 (3) preemptions",
 "The tests print values; a wrong table entry, range or missing time zone database needs a particular input or system.",
 ["util/encode.go", "fast/fast.go"], [("table-driven CRC, library hashes wrapped", "util/encode.go")],
 "MD5, SHA-1 and BLAKE2b are uninterpreted functions, maphash, math/rand and crypto/rand arbitrary choices, the time zone database and file system models; the CRC of the standard library is modelled table-driven.")
prop("C26", "Post makes one POST request and gives the whole answer",
 "Post, Post2 and Post3 make exactly one POST request to the given address with exactly the given body, headers, cookie and close option, accept any certificate for https, and return the whole body of the answer whatever its status and however it arrives; an unusable address, a failing exchange and a broken answer are reported by an error. The answer is closed, no connection is left open, the caller's data are not changed, and concurrent requests do not disturb each other.",
 ["inputs", "faults", "schedules"], "bodies and answers of up to 2 (4) symbolic bytes arriving in every way of short reads, all combinations of headers, cookie, options, status and failures; two concurrent requests under every schedule with up to 1 (2) preemptions; bodies and answers of several kilobytes",
 "There is no test; short reads and failing answers need a misbehaving server.",
 ["httpclient/post.go"], [("net/http client with a transport of its own", "httpclient/post.go Post3")],
 "(*http.Client).Do is modelled as the exchange with a server; building the request is executed as it is.")
prop("C28", "A signal listener's function runs once, with the first listed signal",
 "After ListenSignalEvent has returned, the first of the listed signals (any signal if none is listed) to arrive is given to the function, exactly once, on no time of the caller; signals that are not listed are ignored, no signal is lost because the listener is not yet waiting, and listeners do not disturb each other.",
 ["schedules", "histories"], "one or two (three) listeners with any subset of three signals, up to 2 (3) signals arriving at any point of every schedule with up to 1 (2) preemptions",
 "There is no test; a lost signal needs one arriving before the goroutine waits.",
 ["gosignal/gosignal.go"], [("buffered channel registered before returning", "gosignal/gosignal.go")],
 "os/signal is modelled: delivery never waits for a receiver.")
prop("C29", "Serialization wrappers of util return what the library produces and round-trip",
 "JsonDecode(JsonEncode(v)), Decode(Encode(v)) (gob) and Unmarshal(Marshal(m)) (protobuf) give back an equal value for every value of a serializable type, and malformed input gives an error.",
 ["inputs"], "all serializable Go values and protobuf messages",
 "Any type may be serialized.",
 ["util/gob.go", "util/protobuf.go"], [("encoding/json, encoding/gob and protobuf wrapped", "util/gob.go, util/protobuf.go")],
 na="encoding/json, encoding/gob and protobuf work by reflection over runtime type descriptors, which have no counterpart in the SSA form that is encoded; with the libraries modelled away the wrappers are one call each and nothing would be left to decide. The Thrift wrappers of the same file are decided under C24.")
prop("C30", "Image conversion keeps geometry and content within the requested options",
 "Encoding an image to any supported format and decoding it gives the requested size, resize modes keep the aspect ratio or fill the target as documented, and damaged input is reported by an error.",
 ["inputs"], "all images, options and formats",
 "Only sample images can be tested.",
 ["image/image.go", "image/adjust.go"], [("imaging and codec libraries composed by mode", "image/image.go")],
 na="the package does not compile here: its dependency github.com/donnie4w/ico is not in the module cache, so neither the SSA nor the native code exists in this sandbox; moreover the pixel arithmetic lives in codec and resampling libraries (one of them C through cgo) that are not encodable.")
