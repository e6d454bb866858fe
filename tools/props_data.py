# Property data: exec'd by mkprops.py (see prop() there).
TV = "explicit TLA+ specification model-checked with TLC; "
NT = "The 6 stable tests of the repository never call this code; "

prop("C01", "Deque behaves as an unbounded double-ended sequence",
 "For every history of operations on a deque, its contents are exactly the sequence that ideal front/back insertion and removal would give: no element is lost, duplicated, altered or reordered by growing, wrapping round or shrinking the buffer. Every push reports success, pops and peeks return the element at that end and report failure (without changing anything) exactly when the deque is empty, and Size and Empty always agree with the contents. Shrink never changes the contents, never enlarges the buffer, and reports true exactly when the buffer became smaller; Clear empties the deque. Separate deques do not affect each other, also when different goroutines use them at the same time.",
 ["histories", "inputs", "schedules"], "all sequences of PushFront/PushBack/PopFront/PopBack/Front/Back/Shrink/Clear/Init/Size/Empty/Cap on one deque, from every initial buffer size (including zero value and non-positive sizes), for all int values",
 NT + "the defect-prone states (wrapped buffer, exactly full buffer, shrink of a wrapped buffer) are reached only by particular long histories.",
 ["stl/deque.gp_int.go", "stl/gp/deque.gp", "stl/gp/deque.gp.go"],
 [("ring buffer with head/tail indices, doubling on full", "stl/deque.gp_int.go:PushFront,PushBack"), ("halving of a sparse buffer", "stl/deque.gp_int.go:Shrink")],
 ["results of every public method; Size/Empty/Front/Back/Cap after every operation; full drain at the end of a history"],
 [("contents", "sequence of ints from front to back", "ring positions [head,tail) of the buffer")],
 technique=TV + "ring-buffer model refines the abstract deque (exhaustive); one script per model transition and seeded long histories replayed on the real IntDeque, recorded traces validated by TLC against the abstract deque",
 note="exhaustive over the ring model with small buffers; real code covered on the replayed histories")

prop("C02", "Queue is FIFO: nothing lost, duplicated or reordered",
 "For every history of pushes, pops, shrinks and clears, the queue yields exactly the pushed elements, each once, in push order, however often its buffer wraps, fills, grows or shrinks. Every push reports success, Pop/Front/Back return the oldest/oldest/newest element and report failure without changing anything exactly when the queue is empty, and Size and Empty always agree with the contents. Shrink never changes the contents, never enlarges the buffer, and reports true exactly when the buffer became smaller; Clear empties the queue. Separate queues do not affect each other, also when different goroutines use them at the same time.",
 ["histories", "inputs", "schedules"], "all sequences of Push/Pop/Front/Back/Shrink/Clear/Init/Size/Empty/Cap, from every initial buffer size, for all int values",
 NT + "loss occurs only when the write position meets the read position at particular buffer offsets.",
 ["stl/queue.gp_int.go", "stl/gp/queue.gp", "stl/gp/queue.gp.go"],
 [("ring buffer, full detection and growth", "stl/queue.gp_int.go:Push"), ("wrap of the read position", "stl/queue.gp_int.go:Pop"), ("Shrink", "stl/queue.gp_int.go:Shrink")],
 ["results of every public method; Size/Empty/Front/Back/Cap after every operation; final drain"],
 [("contents", "sequence of ints, oldest first", "ring positions [head,tail)")],
 technique=TV + "ring-buffer model refines the FIFO queue (exhaustive); transition-covering and seeded histories replayed on the real IntQueue, traces validated by TLC",
 note="exhaustive over the ring model with small buffers; real code covered on the replayed histories")

prop("C03", "Stack is LIFO for every history",
 "For every history of operations a stack returns the most recently pushed element that has not been popped yet; Pop and Top report failure (and change nothing) exactly when it is empty, and Size and Empty always agree with the contents. Clear and Init empty the stack and it stays usable, whatever initial capacity it was created with. Separate stacks do not affect each other, also when different goroutines use them at the same time.",
 ["histories", "inputs", "schedules"], "all sequences of Push/Pop/Top/Size/Empty/Clear/Init on one stack, including the zero value",
 NT + "no history of stack operations is tested.",
 ["stl/stack.gp_int.go", "stl/gp/stack.gp", "stl/gp/stack.gp.go"],
 [("append/truncate on a slice", "stl/stack.gp_int.go:Push,Pop")],
 ["results of every public method, Size/Empty/Top after every operation, final drain"],
 [("contents", "sequence of ints, top last", "data slice")],
 technique=TV + "exhaustive bounded histories generated from the spec and seeded long histories replayed on the real IntStack, traces validated by TLC",
 note="all histories up to the stated length; longer ones sampled")

prop("C04", "Heap always yields its extreme element; a size limit keeps the best",
 "A heap created with max-on-top (min-on-top) always reports and pops a largest (smallest) element of the multiset pushed and not yet popped, never loses, invents or duplicates an element, and Size/Empty agree with that multiset. With a positive size limit N it never holds more than N elements: when it is full, a pushed value that is ordered beyond the top is discarded, and otherwise it takes the place of the top, so that a max-on-top heap keeps the N smallest and a min-on-top heap the N largest values pushed. Init empties the heap and applies the new limit and order. Separate heaps do not affect each other, also when different goroutines use them at the same time.",
 ["histories", "inputs", "schedules"], "all histories of Push/Pop/Top/Size/Empty/Buffer/Init, both orders, all limits (including none), all int values including duplicates and the extreme ints",
 "TestHeap checks only the slice algorithms on random data; histories of the container, its limit and duplicates are not covered.",
 ["stl/heap.gp_int.go", "stl/gp/heap.gp", "stl/gp/heap.gp.go", "stl/functorcmp.gp_int.go"],
 [("sift up/down", "stl/heap.gp_int.go:adjustUp,adjustDown"), ("limit handling", "stl/heap.gp_int.go:Push")],
 ["Top/Pop results, Size/Empty, Buffer() (must be a heap-ordered arrangement of the multiset)"],
 [("multiset", "bag of values held", "data buffer"), ("limit, order", "configuration", "limitN, cmp")],
 technique=TV + "array-heap model with sift operations refines the bounded priority bag (exhaustive); transition-covering and seeded histories replayed on the real IntHeap, traces validated by TLC",
 note="exhaustive for small heaps and values; larger heaps sampled")

prop("C05", "Heap slice algorithms make, check, push, pop, sort and reverse correctly",
 "For every slice: MakeHeap rearranges it (as a permutation of its elements) so that CheckHeap accepts it, and CheckHeap accepts exactly the slices in which no element is ordered before its parent; PushHeap and PopHeap keep a heap a heap, adding exactly the given value and removing exactly a top one, which PopHeap returns; SortHeap yields the sorted permutation (ascending for max-on-top, descending for min-on-top) in place. Reverse exactly reverses the slice, including empty and single-element slices, and popping an empty slice reports failure. All of this also holds for calls that run at the same time on separate data.",
 ["inputs", "schedules"], "all int slices (any length, duplicates, extreme values), both orders",
 "TestHeap samples a few random slices of one size and one order.",
 ["stl/heap.gp_int.go", "stl/gp/heap.gp", "stl/gp/heap.gp.go"],
 [("MakeHeap/SortHeap/PushHeap/PopHeap/CheckHeap/Reverse", "stl/heap.gp_int.go")],
 ["slices before and after each call, results"],
 technique=TV + "the sift algorithms are modelled and checked exhaustively; every small slice is enumerated by TLC, run through the real functions and the recorded before/after pairs are judged by TLC",
 note="all slices up to the stated length over a small value set; longer ones sampled")

prop("C06", "Doubly linked list keeps exact order under every node operation",
 "For every history of operations on doubly linked lists (with marks that belong to the list and nodes inserted only while detached), the list contains exactly the expected nodes in exactly the expected order: pushes, inserts before/after a mark, removals, moves to front/back/before/after, rotations, reversal and splicing another list (which becomes empty) place each node where the operation's name says, and every other node keeps its relative order. Walking forward and backward (by node links or by a visitor, in any mixture, and after a visitor Reset) gives that order and its exact reverse and stops at the ends. Node identity is preserved, a removed node is detached and reusable, nil arguments change nothing, and IsValidNode/Reachable hold exactly for nodes of the list. Separate lists do not affect each other, also when different goroutines use them at the same time.",
 ["histories", "inputs", "schedules"], "all histories over one or two lists and their nodes, every position of node and mark (first, middle, last, only)",
 NT + "link corruption appears only for particular positions of node and mark and shows up operations later.",
 ["stl/list.gp_int.go", "stl/gp/list.gp", "stl/gp/list.gp.go"],
 [("circular doubly linked nodes with head pointer", "stl/list.gp_int.go")],
 ["node identities walking forward from Front, backward from Back, visitor walks, results of each operation"],
 [("order", "sequence of node identities per list", "prev/next links and head")],
 technique=TV + "pointer-level list model refines the node-sequence spec (exhaustive); transition-covering and seeded histories replayed on the real IntList, traces validated by TLC",
 note="exhaustive for a few nodes over two lists; longer histories sampled")

prop("C07", "Singly linked list keeps exact order under every operation",
 "For every history of operations on singly linked lists (with marks that belong to the list and nodes inserted only while detached), the list contains exactly the expected nodes in exactly the expected order: pushing and inserting at the front or after a mark, removing any node, moving a node to the front or after a mark, reversing and pushing another list in front (which becomes empty) do exactly what they say, and Len, Empty, Front and a visitor walk agree with that order. Removing a node that is not in the list or passing nil changes nothing, IsValidNode/Reachable hold exactly for nodes at or after the starting node, and HasCycle is true exactly when the chain of nodes is cyclic. Separate lists do not affect each other, also when different goroutines use them at the same time.",
 ["histories", "inputs", "schedules"], "all histories over one or two lists and their nodes, every position of node and mark",
 NT + "errors appear for particular positions (first, last, only node) and histories.",
 ["stl/slist.gp_int.go", "stl/gp/slist.gp", "stl/gp/slist.gp.go"],
 [("singly linked nodes after a dummy head", "stl/slist.gp_int.go")],
 ["node identities walking from Front, visitor walks, Len/Empty, results of each operation"],
 [("order", "sequence of node identities per list", "next links")],
 technique=TV + "transition-covering and seeded histories from the node-sequence spec replayed on the real IntSList, traces validated by TLC",
 note="exhaustive for a few nodes over two lists; longer histories sampled")

prop("C08", "Sorting lists is correct and stable",
 "Sorting a singly or doubly linked list of any length leaves exactly the same nodes, in ascending order of value, with nodes of equal value in their original relative order, and the list remains well linked (forward and backward) and usable. The comparators order values as named: Lesser is strict <, Greater is strict >, the empty name means Lesser, and an unknown name is refused with a panic. Separate lists do not affect each other, also when different goroutines use them at the same time.",
 ["inputs", "histories", "schedules"], "all lists of any length and any values including duplicates and extreme ints; all comparator names and value pairs",
 NT + "merge bins are exercised only by particular lengths, stability only by duplicates.",
 ["stl/list.gp_int.go", "stl/slist.gp_int.go", "stl/functorcmp.gp_int.go", "stl/gp/list.gp", "stl/gp/slist.gp", "stl/gp/functorcmp.gp"],
 [("bottom-up merge sort with 2^i bins", "stl/list.gp_int.go:mergeSort, stl/slist.gp_int.go:mergeSort"), ("comparators", "stl/functorcmp.gp_int.go")],
 ["node identities and values before and after Sort, walking both ways; comparator results"],
 technique=TV + "bottom-up merge-bin algorithm model checked exhaustively for small inputs; the same inputs and seeded longer ones run on the real lists, traces validated by TLC",
 note="all inputs up to the stated length; longer ones sampled")

prop("C09", "Sortable slice is an exact positional sequence",
 "For every history, a sortable slice holds exactly the expected sequence: Push appends, Insert at a valid index places the value there and shifts the rest by one, Insert at any other index appends, Remove and Pop take out exactly the element at that index / the last one, and all of them report the resulting length or element. Get, Remove and Pop report failure without changing anything exactly when there is no such element, MustGet panics exactly then, and Sort yields the ascending permutation of the contents. Separate sortable slices do not affect each other, also when different goroutines use them at the same time.",
 ["histories", "inputs", "schedules"], "all histories of Push/Insert/Remove/Pop/Get/MustGet/Swap/Less/Sort/Buffer/Len/Init with valid and invalid indices",
 NT + "no history of sortable-slice operations is tested.",
 ["stl/sort_slice.gp_int.go", "stl/sort_slice.gp_#inttreenodeb60b.go", "fs/sort_slice.gp_#filehashtreenodef199.go", "stl/gp/sort_slice.gp", "stl/gp/sort_slice.gp.go"],
 [("append/copy based insert and remove", "stl/sort_slice.gp_int.go:Insert,Remove,Pop")],
 ["Buffer()/Len() after every operation, results"],
 [("contents", "sequence of ints", "data slice")],
 technique=TV + "transition-covering and seeded histories from the sequence spec replayed on the real IntSortSlice, tree-node slice and file-digest slice, traces validated by TLC",
 note="exhaustive bounded histories; longer ones sampled")

prop("C10", "Tree edits are exact and visitors walk it in pre-order, both ways",
 "For every tree built by any history of adding, re-attaching and removing children at any index (valid or not) and sorting children, the children of each node are exactly the expected sequence, removing a child removes exactly its subtree, and All lists the subtree in pre-order. A visitor yields each node exactly once in pre-order by Next and in exact reverse pre-order by Prev (starting from the last node when Prev is called first), any mixture of the two steps moves one position at a time, and it reports false exactly when it passes an end and from then on. Separate trees do not affect each other, also when different goroutines use them at the same time.",
 ["histories", "inputs", "schedules"], "all tree shapes and values; all mixtures of Next and Prev",
 NT + "the visitor's stack of sibling positions depends on the tree shape and the walk taken.",
 ["stl/tree.gp_int.go", "stl/sort_slice.gp_#inttreenodeb60b.go", "fs/tree.gp_filehash38b3.go", "fs/sort_slice.gp_#filehashtreenodef199.go", "stl/gp/tree.gp", "stl/gp/tree.gp.go"],
 [("visitor with explicit stack of parents and sibling indices", "stl/tree.gp_int.go:Next,Prev,top_right"), ("child insertion", "stl/tree.gp_int.go:AddChild,AddChildNode")],
 ["NumChildren/GetChild/Children/All after edits, visitor results and values at each step"],
 [("tree", "ordered labelled tree", "children slices"), ("visitor position", "index in pre-order", "visitor stack")],
 technique=TV + "stack-machine visitor model refines the pre-order cursor (exhaustive over small shapes and walks); edits and walks replayed on real trees of integers and of file digests, traces validated by TLC",
 note="all shapes/walks up to the stated size; larger ones sampled")

prop("C11", "Spin lock: mutual exclusion, hand-over, misuse detection",
 "Under every schedule at most one goroutine is between a returned Lock and its Unlock, and a goroutine waiting in Lock acquires the lock once it is free and the others stop. Unlock of a lock that is not held panics and changes nothing; a Lock that spins for too long (more than 2^24 attempts) panics instead of hanging, and neither the panic nor the wait takes the lock away from its holder, who can still unlock it and hand it over.",
 ["schedules", "histories"], "all interleavings of Lock/Unlock by any number of goroutines, including double locks and unpaired unlocks",
 NT + "a race needs a particular interleaving of the atomic steps.",
 ["sync/spinlock.go"],
 [("compare-and-swap loop with spin limit", "sync/spinlock.go:Lock"), ("compare-and-swap release", "sync/spinlock.go:Unlock")],
 ["call/return/panic of Lock and Unlock per goroutine"],
 [("holder", "goroutine that has the lock", "state word")],
 technique=TV + "step-level lock algorithm checked exhaustively (safety and progress) for up to 3 goroutines; the real code is run under a controlled scheduler that enumerates interleavings at statement/atomic granularity and each recorded history is validated by TLC against the abstract lock",
 note="interleavings enumerated with bounded preemptions on an instrumented copy of the current source")

prop("C12", "Reader/writer spin lock: exclusive writer, shared readers, no lost release",
 "Under every schedule a writer that holds the lock excludes all readers and all other writers, while any number of readers may hold it together. Whenever all holders have released, a waiting reader or writer can acquire it (no release is lost, no stuck state), a reader that finds no writer holding or waiting is admitted, and readers already inside are not blocked from leaving. Releasing what is not held (RUnlock with no reader, Unlock with no writer) panics, and a wait that exceeds the spin limit panics instead of hanging and leaves the lock usable.",
 ["schedules", "histories"], "all interleavings of Lock/Unlock/RLock/RUnlock by any number of goroutines, including unpaired releases",
 NT + "a race needs a particular interleaving of the atomic steps.",
 ["sync/spinrwlock.go", "sync/spinlock.go"],
 [("reader count with writer bias", "sync/spinrwlock.go"), ("writer mutex", "sync/spinrwlock.go:Lock,Unlock")],
 ["call/return/panic of each operation per goroutine"],
 [("readers, writer", "who holds the lock", "readerCount and w")],
 technique=TV + "step-level algorithm checked exhaustively for up to 4 goroutines; real code run under a controlled scheduler enumerating interleavings, recorded histories validated by TLC against the abstract readers/writer lock",
 note="interleavings enumerated with bounded preemptions on an instrumented copy of the current source")

prop("C13", "Ranged integers never leave their range and report every overflow",
 "A ranged unsigned integer (32 and 64 bit) can be created or (re)initialised only with min <= val <= max and otherwise returns an error and leaves an existing object unchanged; after every history its value lies within its bounds. Set, Inc and Dec store the new value and return the previous one exactly when the new value is in range, otherwise they return an error and change nothing; Add, Sub, Mul, Div and Mod never change the object, return the exact mathematical result with no error exactly when it exists (no overflow, underflow or zero divisor) and lies in range, and an error otherwise. Reset and ResetR set the value to the minimum and maximum; InRange and InCurrentRange test [min,max] and [min,val]. Separate ranged integers do not affect each other, also when different goroutines use them at the same time.",
 ["histories", "inputs", "schedules"], "all val/min/max/operand combinations of uint32 and uint64, all histories",
 NT + "overflow boundaries lie at particular operands.",
 ["math/range_uint32.go", "math/range_uint64.go"],
 [("range verification and overflow tests", "math/range_uint32.go, math/range_uint64.go")],
 ["results and errors of each call, Get() after every operation"],
 [("val, min, max", "value and bounds", "struct fields")],
 technique=TV + "exhaustive bounded histories and boundary-value histories replayed on both real types, traces validated by TLC with exact arithmetic on limb sequences",
 note="boundary values of the full 32/64-bit ranges; exhaustive small scopes")

prop("C14", "Primality test is exact and integer square root is nearest",
 "IsPrime(n) is true exactly for the prime numbers, for every 32-bit n. SqrtUint32(n) returns the integer nearest to the square root of n, for every 32-bit n.",
 ["inputs"], "all 2^32 values",
 NT + "no value is tested.",
 ["math/prime/prime.go", "math/prime/prime_data.go"],
 [("trial division by a prime table", "math/prime/prime.go:IsPrime"), ("bitwise square root", "math/prime/prime.go:SqrtUint32")],
 ["results"],
 technique=TV + "primality by divisors and nearest root defined in TLA+, evaluated by TLC on recorded calls over dense ranges and structured large values (squares of primes, products of neighbouring primes, powers of two)",
 note="dense initial range and structured samples of the 32-bit range; thorough: all pair products of table primes via run-length summaries")

prop("C15", "Bit, byte and word extraction and number formatting are exact",
 "GetBit, GetByte and GetWord return exactly the selected bit, byte or 16-bit word of a 32-bit value for every valid index, and an error for every other index. CommaString writes every 64-bit unsigned value as its decimal digits with a comma before every group of three, and the bool/int conversions map true to 1, false to 0 and exactly 0 to false. All of this also holds for calls that run at the same time on separate data.",
 ["inputs", "schedules"], "all 32-bit values and indices; all 64-bit values",
 NT + "no value is tested.",
 ["math/bits_bytes.go", "math/uint64.go", "math/bool.go"],
 [("mask and shift", "math/bits_bytes.go"), ("grouping loop", "math/uint64.go:CommaString")],
 ["results and errors"],
 technique=TV + "definitions over byte/digit sequences in TLA+, recorded calls on boundary and seeded values judged by TLC",
 note="all indices around the valid range for boundary and sampled values")

prop("C16", "Hash objects obey the streaming hash contract",
 "For every hash method (except the null one) the digest depends only on the bytes written since creation or the last Reset, not on how they were split over writes: it equals the standard digest of the concatenated data (for the fingerprint: 6-byte length, then the fixed 6-byte slices of MD5, SHA-1 and CRC-64 digests). Write accepts everything, Sum appends the digest to its argument and does not disturb later writes, the fingerprint's text form shows the same digest, and the string helpers agree with the stream. An unknown method is refused with a panic. Separate hash streams do not affect each other, also when different goroutines use them at the same time.",
 ["histories", "inputs", "schedules"], "all histories of Write/Sum/Reset on all methods with any data and chunking",
 NT + "no hash is tested.",
 ["hash/hash.go", "hash/finger_print.go"],
 [("method table", "hash/hash.go:New"), ("composite digest", "hash/finger_print.go")],
 ["digests after each operation compared with standard-library digests of the model's data"],
 [("data", "bytes written since Reset", "inner hash states and size")],
 technique=TV + "histories generated from the spec replayed on the real objects; TLC validates the traces, the digest being an uninterpreted function of the model's data supplied by the standard library",
 note="exhaustive bounded histories; standard library digests trusted")

prop("C17", "Null-hash objects get distinct identities under concurrency",
 "Every null-hash object gets an identity different from every other one created in the process, whatever the schedule of concurrent creations, and its digest is that identity for its whole life: it never changes with writes, resets or other objects. Write reports that everything was accepted and Sum appends the identity to its argument.",
 ["schedules", "histories"], "all interleavings of concurrent creations; all histories of Write/Sum/Reset",
 NT + "a duplicate needs a particular interleaving of two creations.",
 ["hash/none_hash.go"],
 [("global counter", "hash/none_hash.go:NewNoneHash")],
 ["Sum() of every object created"],
 [("used ids", "identities handed out", "global counter")],
 technique=TV + "counter algorithm checked exhaustively; creations run under a controlled scheduler enumerating interleavings of the real code, histories validated by TLC against the unique-id spec",
 note="interleavings enumerated on an instrumented copy of the current source")

prop("C18", "Multi-destination copy delivers every byte to every destination",
 "Copying a source to several destinations delivers exactly the source's bytes, in order, to every destination, for any source behaviour (short reads, data together with EOF, sources that can write themselves) and any buffer including nil and empty ones, and returns the number of bytes delivered and no error. A read error (other than EOF), a write error or a short write of any destination stops the copy and is reported (a short write as io.ErrShortWrite), everything read before it having been offered to the destinations before the failing one, and no destination ever receives bytes out of order or bytes that are not in the source. Separate copies do not affect each other, also when different goroutines use them at the same time.",
 ["inputs", "fault_sequences", "schedules"], "all sources, chunkings, buffer sizes, numbers of destinations and single faults at any point",
 NT + "faults and chunkings are not tested.",
 ["io/io.go"],
 [("read/write loop", "io/io.go:CopysBuffer")],
 ["bytes received by each destination, written count, error"],
 [("received", "bytes per destination", "destination writers")],
 technique=TV + "copy loop with faulty reader/writers specified; TLC enumerates scenarios (chunking, buffer, destinations, fault point), the real Copys/CopysBuffer is run on each and the recorded calls are validated by TLC",
 note="all scenarios within the stated bounds")

prop("C19", "INI reader returns exactly the file's last assignments",
 "Loading an INI text yields exactly the sections it declares and, per section, exactly its keys with the value of the last assignment: lines are trimmed, blank lines and lines starting with ';' are ignored, a line '[name]' starts the section with exactly that name (keys under the empty name and before any section are ignored), key and value are separated at the first '=' and trimmed, a key without '=' has an empty value, an empty key is ignored, and a repeated section continues the earlier one. Lookups return the stored value exactly when section and key exist and the default otherwise, whatever the line endings, read chunking and a missing final newline; characters other than blanks are kept as they are, valid UTF-8 or not. The file read is closed again. Separate documents do not affect each other, also when different goroutines use them at the same time.",
 ["inputs", "schedules"], "all texts and all lookups",
 NT + "no text is parsed in tests.",
 ["encoding/ini/ini.go"],
 [("line loop", "encoding/ini/ini.go:Load"), ("lookups", "encoding/ini/ini.go:Sections,Keys,GetString")],
 ["Sections/Keys/GetString after loading"],
 [("sections", "map section -> key -> value", "map of maps")],
 technique=TV + "line-by-line parser specified in TLA+ over character sequences; TLC enumerates texts over a small alphabet, the real parser is run on them and its answers validated by TLC",
 note="all texts up to the stated length over the significant characters; longer ones sampled")

prop("C20", "AES sessions decrypt exactly what was encrypted, message by message",
 "For every valid key and every sequence of messages, a decrypter with the same key that receives the encrypter's outputs in order returns exactly the original messages (byte and string forms interchangeable), including empty and block-aligned ones. Each output is the CBC encryption with PKCS#7 padding, chained across messages from the first 16 key bytes on, so its length is the next multiple of 16 above the message; inputs are never modified, results never alias each other, and a key of invalid length is refused with an error. Separate sessions do not affect each other, also when different goroutines use them at the same time.",
 ["histories", "inputs", "schedules"], "all keys (16/24/32 bytes and invalid lengths) and all message sequences",
 NT + "no encryption is tested.",
 ["crypto/aes/aes.go"],
 [("CBC block modes kept across calls", "crypto/aes/aes.go:Encrypt,Decrypt"), ("padding", "crypto/aes/aes.go:PKCS7Padding")],
 ["outputs of each call, input buffers before/after"],
 [("chain", "last ciphertext block on each side", "block modes")],
 technique=TV + "session spec (padding and chaining over an uninterpreted block permutation supplied by crypto/aes); message sequences enumerated by TLC and seeded, replayed on the real sessions, traces validated by TLC",
 note="message lengths around block boundaries exhaustively; standard library block cipher trusted")

prop("C21", "Padding is exact, reversible and leaves the caller's bytes alone",
 "Padding extends the data to the next multiple of the block size with 1 to blockSize bytes (zero bytes, or bytes each holding the pad length), and unpadding returns exactly the original data (for zero padding: when it does not end in a zero byte). Padding never modifies any byte of the caller's memory, including spare capacity behind the data. All of this also holds for calls that run at the same time on separate data.",
 ["inputs", "schedules"], "all data, all block sizes 1..255, all spare capacities",
 NT + "no padding is tested; the aliasing shows only with spare capacity.",
 ["crypto/padding.go", "crypto/aes/aes.go"],
 [("append-based padding", "crypto/padding.go"), ("copy-based padding", "crypto/aes/aes.go:PKCS7Padding,PKCS7Unpadding")],
 ["padded and unpadded bytes, backing array before and after"],
 technique=TV + "padding functions defined over byte sequences; lengths x block sizes x capacities enumerated, recorded calls judged by TLC",
 note="all block sizes and residues; data bytes sampled")

prop("C22", "Zero-copy string/bytes views alias exactly the given memory",
 "Viewing a string as bytes or bytes as a string yields exactly the same content and length, shares the memory (a write through the byte view is seen by the string and vice versa), and never exposes memory beyond the data (capacity equals length for a byte view of a string). The pointer helpers return the address of the first byte of the data. A compile-time string literal is never reported writeable, while freshly allocated bytes are.",
 ["histories", "inputs"], "all contents and lengths, all sequences of conversions and writes",
 "TestPointer prints addresses and asserts nothing.",
 ["unsafe/string.go"],
 [("header reinterpretation", "unsafe/string.go")],
 ["contents, len, cap, addresses, writes through one view read through the other"],
 [("memory", "bytes shared by views", "backing array")],
 technique=TV + "memory-cell/view spec; histories of conversions, sub-slicing and writes generated from the spec replayed on the real functions, traces validated by TLC",
 note="exhaustive bounded histories; longer ones sampled")

prop("C23", "Factory registries create with exactly the registered creator",
 "In a factory (by name or by number, and the package-level one), Create returns what the creator currently registered under that type makes from exactly the given arguments, and nil when none is registered. Adding under a free type succeeds and registers; adding under a taken type or adding a nil creator returns an error and changes nothing; removing a registered type succeeds and unregisters it, and removing an unknown one returns an error; factories are independent of each other.",
 ["histories"], "all histories of add/remove/create over all types and several factories",
 NT + "the only test in the package does not call it.",
 ["factory/factory.go", "factory/factoryi.go", "factory/factorys.go"],
 [("creator map", "factory/factorys.go, factory/factoryi.go")],
 ["results and errors of each call"],
 [("registry", "map type -> creator per factory", "cmap")],
 technique=TV + "registry spec explored exhaustively; one script per transition and seeded histories replayed on all three real registries, traces validated by TLC",
 note="all transitions of the bounded registry; longer histories sampled")

prop("C24", "Back-trace helpers name exactly the requested call frame",
 "At every call depth, the current-frame helpers report the function and file line that called them, the caller helpers report the frame the requested number of levels above the caller, and they report nothing when there is no such frame. The full back-trace lists the frames from the calling function outward, in order and without gaps, numbered from 0 (at most 50). Assert returns true for a true condition and panics with a back-trace exactly for a false one. All of this also holds for calls made in several goroutines at the same time.",
 ["inputs", "histories", "schedules"], "all call stacks and all depths",
 "TestDebug checks depth zero in one function.",
 ["debug/backtrace.go", "debug/assert.go"],
 [("frame skip constants", "debug/backtrace.go")],
 ["strings returned at each level of a recursive call stack"],
 [("stack", "sequence of active calls", "goroutine stack")],
 technique=TV + "call-stack spec; call/return histories of several functions generated from the spec are executed and the frames reported are validated by TLC",
 note="all call stacks up to the stated depth over three functions; deeper ones sampled")

prop("C25", "Random generators follow their seed, stay in range, and lose no draw",
 "A generator's draws are exactly the linear congruential sequence (32 or 64 bits wide) fixed by its seed, so equal seeds give equal sequences and Seed/Srand report and set the position in it. RandRange(x,y) lies between x and y inclusive, in whichever order they are given and up to the full range of the type, and RandMax(n), n>0, in 0..n-1, each consuming exactly one draw. Draws made concurrently, on one generator or on the package-level one, behave as if made one after the other: none is lost or handed out twice. Random strings have exactly the requested length and consist of letters A-Z, every one of which occurs.",
 ["inputs", "histories", "schedules"], "all seeds, all ranges, all histories and interleavings of draws and reseeding",
 NT + "lost draws need particular interleavings, the full range a particular input.",
 ["math/rand/rand.gp_32.go", "math/rand/rand.gp_64.go", "math/rand/rand.go", "strings/rand.go"],
 [("compare-and-swap loop on the state", "math/rand/rand.gp_32.go, math/rand/rand.gp_64.go"), ("range reduction", "math/rand: RandRange")],
 ["results of every call; histories of concurrent calls with call/return order"],
 [("seed", "current element of the sequence", "atomic word of the generator")],
 technique=TV + "generator algorithm model refines atomic draws (exhaustive interleavings); seeded call histories and exhaustively scheduled concurrent histories of the real code validated by TLC (linearizability against the LCG specification)",
 note="all schedules of the listed small programs within the preemption bound; seeds and ranges sampled with the boundary values")

prop("C26", "Error ids are unique, dense and keep their name",
 "Registering an error yields the next id after all ids handed out so far, up to the fixed maximum, after which registration fails with an error and an id that is never valid; the predefined unknown and standard ids keep their own ids and names. An id gives exactly the name it was registered with, forever, and an id that was never handed out gives an error. An error value made from an id carries that id and a text consisting of id, name and the formatted message; text passed in as data is never taken for a format. The listing shows as many errors as it counts, each with its own text. All of this also holds when registrations, lookups and listings run concurrently: each behaves as if done at one moment.",
 ["inputs", "histories", "schedules"], "all names, texts and ids, all histories and interleavings of registrations, lookups and listings",
 NT + "the package did not compile.",
 ["errors/errors.go", "errors/with_id.go", "errors/with_id_string.go"],
 [("registration under the write lock", "errors/errors.go:Reg"), ("lookup under the read lock", "errors/errors.go:Get"), ("listing", "errors/errors.go:ShowAll")],
 ["ids, names, texts and errors returned; histories of concurrent calls"],
 [("registry", "number of ids handed out and the name of each", "g_id2err, g_id_cur_max")],
 technique=TV + "registry specification; scheduled concurrent histories (linearizability) and sequential histories over the whole id range recorded from the real code and validated by TLC",
 note="all schedules of the listed small programs within the preemption bound; the id range is filled completely")

prop("C27", "Registered values keep their ids, names and capacity",
 "A registry of named values hands out ids (registry number, number within it) that are never used for anything else, densely from 1 and at most as many as its maximum (default 1024, settable to anything from the number already handed out to 2^24-1); up to 255 registries exist. When no room is left, when registration has been finished, or when a maximum is not acceptable, the call fails (creating and registering panic or return an error, setting a maximum returns an error) and changes nothing. An id or object gives exactly the name it was registered with and the value last set through any of its ids or objects; setting returns the value just set and touches no other entry; ids that were never handed out are not valid, give errors and change nothing. An object's id is the id its registration returned, an id's object refers to the same entry, and the texts of ids, objects and registries show what is registered. Reads and writes of values running concurrently each behave as if done at one moment.",
 ["histories", "inputs", "schedules"], "all histories of creating registries, registering, setting maxima, reading, writing and printing, all ids (handed out or not); all interleavings of reads and writes",
 NT + "the package did not compile.",
 ["regable/reg.go", "regable/regable.go"],
 [("registration and maximum", "regable/reg.go:Reg,MaxReg"), ("id lookup", "regable/reg.go:get"), ("value access under the record's lock", "regable/reg.go:Get,Set"), ("id composition", "regable/regable.go:MakeRegedId,ids")],
 ["results of every public function; texts; concurrent histories"],
 [("registries", "per registry: name, maximum, sequence of (name, value)", "g_uint32Regers, Uint32Reger.values")],
 technique=TV + "registry specification; all short histories generated by TLC, seeded long ones, exhausted capacities and scheduled concurrent histories recorded from the real code and validated by TLC",
 note="all histories of 5 operations over two registries; real code covered on the replayed histories and the explored schedules")

prop("C28", "Paths, positions and sizes are computed exactly",
 "For every text, a path made from it is the shortest equivalent slash-separated path (no empty, '.' or inner '..' elements; making it again changes nothing), and its directory, base, extension, elements, prefix test, pattern match, joins and relative paths are exactly those of that path: joining directory and base gives the path back, joining a root with the path relative to it gives the path back, and the elements of a relative path are all of its elements in order. FormatPath and the package-level helpers agree with the methods. Caller positions name the calling file, line and function, also through methods, closures and small functions, and are given relative to the first GOPATH entry's src directory where that is asked for. The working directory is the directory Chdir last succeeded in. A file size is written with the largest unit that leaves at least one, with three decimals, for every 64-bit size. All of this also holds for calls that run at the same time.",
 ["inputs", "histories", "schedules"], "all byte strings as paths, pairs of them and patterns; all 64-bit sizes; sequences of Chdir; call sites of all kinds; GOPATH with one or several entries",
 NT + "the package did not compile.",
 ["fs/file_path.go", "fs/file_line.go", "fs/file_size.go", "fs/fs.go"],
 [("normalisation", "fs/file_path.go:FilePath.Set"), ("elements", "fs/file_path.go:SplitAll"), ("relative paths", "fs/file_path.go:Relate"), ("positions", "fs/file_line.go:FileLine,RelateFileLine,Func"), ("sizes", "fs/file_size.go:String")],
 ["results of every path, position and size function"],
 [("path", "rooted flag and sequence of elements", "FilePathObject text")],
 technique=TV + "path algebra specified over byte sequences, its laws model-checked over all pairs of short paths; the real functions recorded on all short texts, seeded long ones, call sites and boundary sizes, and validated by TLC",
 note="exhaustive over all texts of 6 characters from {/ . a}; others sampled; linux path rules")

prop("C29", "Directory listings and counts are complete and exact",
 "For every directory tree, a listing yields exactly the items its options ask for, each once: files and/or directories, directly below or at any depth, or only the directories without subdirectories, as full paths or names; the predefined listings (all leaf directories, directories, files, subs, files at any depth) are the corresponding option sets. Statistic counts exactly the directories (with the start), the other files and the sum of their sizes of the tree below a path, and Walk visits every node once, parents first. A directory that does not exist or cannot be read is never passed over silently: listings return an error, Statistic mentions it. No call leaves a file or directory open. All of this also holds for calls that run at the same time, on the same tree or on different ones.",
 ["inputs", "faults", "schedules"], "all directory trees (any depth, width, names, symbolic links), all 32 option sets, absolute and relative start paths, any unreadable directory",
 NT + "the package did not compile.",
 ["fs/file_path.go"],
 [("listing", "fs/file_path.go:CollectSubs"), ("counting", "fs/file_path.go:Statistic")],
 ["lists and errors returned"],
 [("tree", "map from paths to nodes", "the directory tree on disk")],
 technique=TV + "directory tree specified as a map from paths to nodes; listings and counts of real scratch trees (all small ones, seeded large ones, with unreadable parts) recorded and validated by TLC",
 note="all trees of up to 3 nodes over 6 paths with all option sets; larger ones sampled")

prop("C30", "Digests of files and trees depend on contents alone",
 "The digest of a file is the chosen digest (with the salt, if any) of its contents, whatever their length, and its size is their length. The digest tree of a directory has one node per item with the item's own digest, size and kind; a directory's size is the sum of the sizes below it, its children are ordered by size and then digest, and its digest is that of its children's digests in this order, so that names and creation order do not matter. Visiting the tree yields all nodes, forwards and backwards. If anything in the tree cannot be opened or read to its end, an error is returned instead of a digest, and in no case is a file left open. All of this also holds for calls that run at the same time, on the same files or on different ones.",
 ["inputs", "faults", "schedules"], "all trees and contents, all digest methods and salts, any part unreadable",
 NT + "the package did not compile.",
 ["fs/file_path.go", "fs/tree.gp_filehash38b3.go", "fs/sort_slice.gp_#filehashtreenodef199.go", "fs/functorcmp.gp_#filehashtreenodef199.go"],
 [("digest trees", "fs/file_path.go:Fingerprint,Hash"), ("order of children", "fs/file_path.go:FileHash.Less")],
 ["digest tree returned, visiting orders, errors"],
 [("tree", "map from paths to nodes with contents", "the directory tree on disk")],
 technique=TV + "digest trees specified over the directory-tree model with the digest an uninterpreted function given by the standard library; real trees (seeded, all methods, salts, unreadable parts, sizes around buffer limits) recorded and validated by TLC",
 note="sampled trees of up to 16 nodes")

prop("C31", "File operations do exactly what they say",
 "For every history of creating, writing, truncating, removing, renaming, moving, linking and changing modes, groups and times through path objects, the directory tree is exactly what those operations, applied to an ideal tree, would give: nothing else is changed, created, lost or overwritten, and a call reports success exactly when it took effect. Destinations of Rename, Move, Link and Symlink are taken as they are when absolute and relative to the object's own directory otherwise, and the path returned is the one that then exists. Stat, Open, Chown and Chtimes follow links, Lstat, Lchown and Readlink do not, and what they report agrees with the tree. No call (other than those that hand out a file) leaves one open.",
 ["histories", "inputs"], "all histories of file operations on a tree, with absolute and relative paths and destinations, existing or not",
 NT + "the package did not compile.",
 ["fs/file_path.go"],
 [("destinations", "fs/file_path.go:relateThisPath,Rename,Move,Link,Symlink"), ("operations", "fs/file_path.go")],
 ["results and errors of every call; dump of the whole scratch tree after every call"],
 [("tree", "map from paths to nodes; file identities to contents", "the directory tree on disk")],
 technique=TV + "file-system specification; every operation from every small tree and seeded histories generated by TLC, replayed on the real package in a contained scratch tree, dumps validated by TLC",
 note="every operation from every tree of up to two nodes; longer histories sampled; no concurrent processes")

prop("C32", "Triple-DES encryption and the text codings are exact and reversible",
 "TripleDesEncrypt encrypts exactly the data followed by zero bytes to the next full block of 8 (at least one), block by block, by encrypting, decrypting and encrypting with the three parts of the key, the key being cut or filled with zero bytes to 24; TripleDesDecrypt of the result with the same key gives the data back without zero bytes at its end, and data that are empty or not whole blocks are refused with an error. No call changes the caller's data or key, including spare capacity. Encode/EncodeString are the base-64 text of that encryption under the package key, Decode/DecodeString their inverse, with nothing for texts that are not such encodings; Hash/HashString are the SHA-512 digest of five repetitions of key, data, key; the hexadecimal helpers are inverse to each other and refuse what is not hexadecimal. All of this also holds for calls that run at the same time on separate data.",
 ["inputs", "schedules"], "all data, keys and texts of every length and content",
 NT + "the packages did not compile.",
 ["crypto/ecb/ecb.go", "crypto/rsa/code.go"],
 [("triple encryption", "crypto/ecb/ecb.go:TripleDesEncrypt,TripleDesDecrypt"), ("codings", "crypto/rsa/code.go")],
 ["results, errors and the caller's memory after every call"],
 [("block cipher", "uninterpreted permutation per key", "crypto/des")],
 technique=TV + "triple encryption over an uninterpreted block cipher, base 64 and hexadecimal specified; inverse laws model-checked with a toy cipher; the real calls recorded with the standard library's single-DES steps as facts and validated by TLC",
 note="all lengths 0..65 and key lengths 0..40; contents sampled")

prop("C33", "RSA keys, encryption and signatures fit together",
 "A generated pair has exactly the size asked for and its texts hold a valid private key and its public key. A client is made from exactly the texts that hold an RSA public key and a server from those that hold an RSA private key; everything else gives an error (the Must forms panic). What a client encrypts (up to the key size less 11 bytes; longer messages are refused) only the server of the same pair turns back into the message; altered ciphertexts and other keys never give the message. A signature is accepted exactly for the same data, digest and pair, unaltered, the default digest being SHA-512. No call changes the caller's data.",
 ["histories", "inputs"], "all key pairs, messages, digests, alterations and combinations of clients, servers, ciphertexts and signatures",
 NT + "the package did not compile.",
 ["crypto/rsa/rsa.go"],
 [("keys", "crypto/rsa/rsa.go:GenRsaKeys,NewClient,NewServer"), ("encryption", "crypto/rsa/rsa.go:Encrypt,Decrypt"), ("signatures", "crypto/rsa/rsa.go:Sign,Verify")],
 ["results and errors of every call; the standard library's reading of keys, ciphertexts and signatures"],
 [("world", "pairs, clients, servers, ciphertexts, signatures", "driver objects")],
 technique=TV + "symbolic model of pairs, ciphertexts and signatures; every operation from every small state and seeded histories generated by TLC, replayed with real keys and validated by TLC",
 note="keys of 1024 to 2048 bits; messages sampled")

prop("C34", "Durations are written, read and converted exactly",
 "The text of every 64-bit duration names exactly its length: below a day (and for negative durations) the usual hours, minutes, seconds and sub-second units, from a day up the whole days followed by 'd' and the text of the rest. Seconds, Minutes, Hours, Days and Weeks are the length divided by the unit up to floating-point rounding, Std is the same length, the unit constants are what their names say, ParseDuration accepts exactly the texts of signed sums of decimal amounts of ns, us, ms, s, m and h that fit and gives their value (cut to whole nanoseconds), and Since and RuntimeNow agree with the clock. All of this also holds for calls that run at the same time on separate data.",
 ["inputs", "schedules"], "all 64-bit durations and all texts",
 NT + "the package did not compile, and its tests only print.",
 ["time/duration.go", "time/time_sys.go"],
 [("text", "time/duration.go:String"), ("conversions", "time/duration.go:Days,Weeks,Seconds,Minutes,Hours"), ("reading", "time/duration.go:ParseDuration")],
 ["results of every function"],
 [("length", "natural number of nanoseconds and sign", "Duration")],
 technique=TV + "text and reading of durations specified over unbounded naturals, shown inverse by TLC on all sums of boundary amounts; the real functions recorded on boundary and seeded values and texts and validated by TLC",
 note="boundary and sampled values of the 64-bit range")

prop("C35", "Type and comparison helpers answer exactly",
 "IsSameType is true exactly for values of identical types (nil only with nil), Kind is the kind of the value's type, IsCmpableInnterType is true exactly for values of the predeclared integer, float and string types, and New gives a new zero object of the sample's type, distinct from all others, without touching the sample. math.Equal is true exactly for numbers that differ by less than 0.000001, and complex numbers give back their parts. All of this also holds for calls that run at the same time on separate data.",
 ["inputs", "histories", "schedules"], "values of all kinds of types, named and predeclared; all histories of making and writing objects; all number pairs",
 "The existing test prints a few of these answers and asserts none.",
 ["reflect/reflect.go", "math/float.go", "math/cplx/complex.go"],
 [("types", "reflect/reflect.go"), ("closeness", "math/float.go:Equal")],
 ["results of every function; contents of all objects made after every step"],
 [("objects", "cells with type and whether written", "reflect.New objects")],
 technique=TV + "types and objects specified; all pairs of samples and seeded object histories recorded from the real code and validated by TLC",
 note="37 samples of 35 types; numbers sampled around the limit")

prop("C36", "Comparators order values as named",
 "For integers, tree nodes and file digests alike, a comparator made in any way (by name, by bigFirst, as a constant, by Lesser() or Greater() of any comparator, or the zero value) is Lesser or Greater as asked, the empty name means Lesser, an unknown name is refused with a panic, and String names it. Lesser holds for a pair exactly when the first is strictly before the second, Greater exactly when the second is strictly before the first (so both are strict weak orders): integers and tree nodes by value alone, file digests by size and, for equal sizes, by digest text, whatever the path, kind or children. A comparator value that is neither holds for no pair. All of this also holds for calls that run at the same time on separate data.",
 ["inputs", "histories", "schedules"], "all values and pairs including extreme integers, sizes up to 2^64-1 and digests of any bytes; all names; all ways of making comparators from one another",
 NT + "no test makes a comparator, and sorted results hide an order that is wrong only on ties or at the extremes.",
 ["stl/functorcmp.gp_int.go", "stl/functorcmp.gp_#inttreenodeb60b.go", "fs/functorcmp.gp_#filehashtreenodef199.go", "stl/tree.gp_int.go", "fs/tree.gp_filehash38b3.go", "fs/file_path.go"],
 [("comparators", "stl/functorcmp.gp_int.go, fs/functorcmp.gp_#filehashtreenodef199.go"), ("order of digests", "fs/file_path.go:FileHash.Less"), ("order of nodes", "stl/tree.gp_int.go:Less")],
 ["results of F, Less and String; panics of CreateByName"],
 [("comparators made", "sequence of orders", "CmpInt, CmpIntTreeNode, CmpFileHash values")],
 technique=TV + "orders specified over values and shown to be strict weak orders and converses by TLC; comparators made in every way and compared pairs recorded from the real code and validated by TLC",
 note="all pairs of boundary values, seeded others")

CLAIMED = set("C%02d" % i for i in range(1, 37))
NOT_APPLICABLE = []
HOOKS = None
