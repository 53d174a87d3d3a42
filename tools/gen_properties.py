#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
P = []
SYNC = 'gogenerics/gconcurrent/sync/map.go'; MR = 'gogenerics/gconcurrent/mr/mr.go'; ERR = 'gogenerics/gconstraints/errors.go'
LRU = 'library/cachex/lrucache.go'; CH = 'library/cachex/cache.go'; FS = 'library/cachex/file.go'; BS = 'library/bitset/bitset.go'
RB = 'gogenerics/gds/grbt/rbt.go'; SK = 'gogenerics/gds/gskiplist/skiplist.go'; CT = 'gogenerics/gcontainers/'
def p(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    a = {'files': files if isinstance(files, list) else [files], 'mechanism': [{'name': n, 'where': w} for n, w in mech],
         'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state], 'observe_at': list(observe) or ['results of the exported functions'], 'hook_needed': None}
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over.split(), 'text': quant}, 'why_tests_cant': why, 'anchors': a})

p('C01', 'sync.Map is linearizable',
  'Every concurrent history of Load, Store, LoadOrStore, LoadAndDelete, Delete, Swap, CompareAndSwap and CompareAndDelete on a sync.Map can be explained by letting each operation take effect at one instant between its call and its return, on an ordinary map; in particular no successful write is lost or resurrected. Every operation completes when its goroutine keeps running. No two conflicting memory accesses of the operations are unordered in the sense of the Go memory model.',
  'schedules histories', 'all interleavings of all finite programs on all reachable internal states (only read, only dirty, promoted, expunged entries)',
  'The tests run a few goroutines under whatever schedule the runtime happens to choose, and compare final contents.', SYNC,
  [('lock-free read map with double-checked lock for the dirty map', SYNC + ' Load, Store, Swap, LoadOrStore'), ('nil / expunged entry protocol', SYNC + ' entry.*, dirtyLocked, missLocked')],
  [('read', 'immutable map published atomically', SYNC + ' readOnly'), ('dirty', 'map guarded by the mutex', SYNC + ' Map.dirty')])
p('C02', 'sync.Map alone behaves as a map',
  'Used by one goroutine at a time, every operation of a sync.Map returns exactly what the same operation on an ordinary map would (the value and presence before, whether the comparison succeeded), after any sequence of earlier operations. Range visits every present entry exactly once with its current value, and stops when the function returns false.',
  'histories inputs', 'all finite sequences of operations, keys and values', 'The tests try one short sequence per operation; the internal state depends on the whole history (misses, promotions, deletions).', SYNC,
  [('promotion of the dirty map after misses', SYNC + ' missLocked'), ('entry states', SYNC + ' tryLoadOrStore, unexpungeLocked')])
p('C03', 'Range of a concurrently changing sync.Map is sound',
  'While other goroutines change the map, Range never visits a key twice, visits only key-value pairs that were in the map at some time during the call, visits every key that was present throughout the call (unless stopped), and makes no visit after its function returned false. No two conflicting memory accesses of Range and the other operations are unordered in the sense of the Go memory model.',
  'schedules histories', 'all interleavings of Range with all other operations', 'The tests check Range only without, or without observing, concurrent changes.', SYNC,
  [('Range promotes dirty and iterates over the published snapshot', SYNC + ' Range')])
p('C04', 'A successful MapReduce has processed everything exactly once',
  'When MapReduce, MapReduceChan or MapReduceVoid succeeds, without cancellation, panic or expired context: every item the generator (or source channel) produced was passed to the mapper exactly once and its mapper had returned; if the reducer reads the pipe to its end it receives exactly the multiset of values the mappers wrote; and the result is the value the reducer wrote. At no time do more mappers run at once than the number of workers (default 16, at least 1), and all of them may run at once. The calls contain no data race in the sense of the Go memory model.',
  'schedules inputs configurations', 'all schedules, numbers of items, workers, writes per mapper', 'There are no tests of this package at all.', MR,
  [('worker pool', MR + ' executeMappers'), ('collector closed after all mappers', MR + ' executeMappers'), ('result channel', MR + ' mapReduceWithPanicChan')])
p('C05', 'MapReduce reports cancellation, missing output and context expiry',
  'If no panic occurs, MapReduce returns the error given to the first cancel call (the package error for a nil cancel), context.DeadlineExceeded if the context was done, the no-output error if the reducer finished without writing or cancelling (nothing, for MapReduceVoid), and otherwise the value written with no error; it never returns success when a call of cancel began before the reducer wrote and either had returned (ordered before the write) or had come to rest, with nothing else left to run, by then. When several of these happen concurrently the outcome is one of them, never anything else. The calls contain no data race in the sense of the Go memory model.',
  'schedules fault_sequences inputs', 'all schedules and positions of cancel calls, context expiry, missing and present writes', 'There are no tests of this package at all.', MR,
  [('first cancel wins', MR + ' once, cancel'), ('final select', MR + ' mapReduceWithPanicChan')])
p('C06', 'mr re-panics in the caller exactly when user code panicked',
  'If the generator, a mapper or the reducer panics during MapReduce, ForEach or FinishVoid, then either the call panics with one of the values user code panicked with, or it ends with another outcome that happened concurrently (cancellation, context expiry, or a result written before a cancellation or expiry); a panic that is the only event is never swallowed, never replaced, and never crashes the program. The call panics with a value of its own only when the reducer writes more than one value. The calls contain no data race in the sense of the Go memory model.',
  'schedules fault_sequences', 'all schedules and positions of panics in generator, mappers and reducer, combined with cancels and context expiry', 'There are no tests of this package at all.', MR,
  [('onceChan', MR + ' onceChan'), ('recover in every goroutine', MR + ' buildSource, executeMappers, mapReduceWithPanicChan')])
p('C07', 'mr calls always return and leave no goroutine behind',
  'Provided the user functions themselves return when their channel operations proceed, every call of MapReduce, MapReduceChan, MapReduceVoid, ForEach, Finish and FinishVoid returns, under every schedule, number of workers, cancel, panic or context expiry; and every goroutine it started ends. A generator that is still sending after a cancel or a failure is always unblocked. The calls contain no data race in the sense of the Go memory model.',
  'schedules fault_sequences configurations', 'all schedules and fault positions', 'There are no tests of this package; a leaked goroutine or a deadlock that needs one schedule is invisible to sampling.', MR,
  [('draining of source and collector', MR + ' drain'), ('guarded writers', MR + ' guardedWriter.Write')])
p('C08', 'ForEach, Finish and FinishVoid run everything and report the first error',
  'ForEach calls the mapper exactly once for each generated item and returns only after all calls have returned, with at most the configured number at once. Finish and FinishVoid call each function exactly once when none fails and return after all have returned, running all of them concurrently; Finish returns nil if no function failed and otherwise an error returned by one of them. The calls contain no data race in the sense of the Go memory model.',
  'schedules inputs configurations', 'all schedules, all lists of functions and items, all positions of errors', 'There are no tests of this package at all.', MR,
  [('ForEach', MR + ' ForEach'), ('Finish', MR + ' Finish, FinishVoid')])
p('C09', 'AtomicError is a linearizable register that ignores nil',
  'An AtomicError behaves as an atomic register of errors: Load returns the error of the last Set that took effect (nil before the first), Set(nil) changes nothing, and errors of any mixture of concrete types, typed nil included, are accepted without a panic and loaded back identical. No two conflicting memory accesses of Set and Load are unordered in the sense of the Go memory model.',
  'schedules histories inputs', 'all interleavings of Set and Load, all error types', 'The tests set one error.', ERR, [('atomic.Value holding one wrapper type', ERR)])
p('C10', 'LRU cache: capacity and least-recently-used eviction',
  'An LRU cache never holds more than its capacity, and a write of a new key to a full cache evicts exactly the key whose last successful read or write (single or batch, in order) is the oldest, whether it or others have expired or not. Otherwise, apart from expiry and usage limits, every key not deleted is present with the value last written, and Get, MGet, Delete of absent keys report absence without error.',
  'histories inputs configurations', 'all sequences of Get, Set, MGet, MSet, Delete, all capacities', 'The tests perform one short sequence with capacity 1 or 2.', LRU,
  [('list order and eviction loop', LRU + ' doSet, getOne')], [('lruList', 'recency order', LRU), ('lruMap', 'entries', LRU)])
p('C11', 'LRU cache: entries expire by time and by number of uses',
  'A read hits only if the key was written with a ttl that has not yet elapsed since its last write, and, when a usage limit n > 0 is set, fewer than n earlier reads hit it since its last write; with limit 0 reads are unlimited. A write resets both; an expired or used-up entry is a miss and stays one until it is written again.',
  'histories inputs configurations', 'all sequences of operations and passages of time, all ttls and usage limits', 'The tests use one ttl and one usage limit.', LRU, [('expireTime, usedCount checks', LRU + ' getOne')])
p('C12', 'LRU cache is linearizable under concurrent use',
  'Concurrent Get, Set, MGet, MSet and Delete calls on one LRU cache behave as if each took effect, as a whole batch, at one instant between its call and its return, on the sequential cache; none of them panics, corrupts the recency list or fails to return. No two conflicting memory accesses of the calls are unordered in the sense of the Go memory model.',
  'schedules histories', 'all interleavings', 'The tests are sequential.', LRU, [('mutex around every operation', LRU)])
p('C13', 'Chain.Get reads through the levels and fills the upper ones',
  'Chain.Get asks the levels in order until one reports the key present and returns that value with no error, after writing it to every level above it with that level\'s own ttl, and to no other level. An error from a level ends the search and is returned, unless ContinueOnReadErr is set, when the search continues; errors of filling are ignored; without any hit the answer is absent with the error of the last level asked. Levels get the caller\'s context, which makes no other difference.',
  'inputs fault_sequences configurations', 'all numbers of levels, contents, error positions, flag values', 'The tests use two levels and a handful of contents, no errors.', CH, [('read-through loop', CH + ' Chain.Get, setForGet')])
p('C14', 'Chain.MGet merges the levels and its result views agree',
  'Chain.MGet answers every requested position, repeated keys included, from the first level that has the key, asks each level only for keys not found above it, and fills exactly those found values into every upper level with its ttl; errors follow the same policy as Get, and so does the context. The views of an MGet result (Range, RangeHit, RangeMiss, HitKeys, MissKeys, HitMissKeys, HitMapValues) partition the requested keys in order into hits with their values and misses, also when the cache returned an error with nil slices.',
  'inputs fault_sequences configurations', 'all numbers of levels, key lists with repetitions, contents, error positions', 'The tests use two levels, distinct keys and no errors.', CH,
  [('index bookkeeping', CH + ' Chain.MGet'), ('MGetResult', CH + ' MGetResult')])
p('C15', 'Chain writes and deletes reach every level and report every error',
  'Chain.Set, MSet and Delete are applied to every level in order, even after another level has failed, with the level\'s own ttl instead of the caller\'s, and return an error exactly if some level failed, from which every one of those errors can be recovered with errors.Is. Batch calls with nothing to do touch no level and succeed. Levels get the caller\'s context, and a context that is done stops nothing here.',
  'inputs fault_sequences configurations', 'all numbers of levels and subsets of failing levels', 'The tests have no failing level.', CH, [('joined errors', CH + ' Chain.Set, MSet, Delete')])
p('C16', 'FileStore is a durable map from keys to values with ttl',
  'A FileStore read (single or batch) returns the value last written for exactly that key while less than its ttl has passed, and absent without an error otherwise; different keys built from numbers, strings, structs, arrays and interfaces holding such never share an entry, even when they print alike, and equal ones always do, any ttl up to the maximum duration is honoured, and Delete and Purge make the keys absent. The contents survive reopening the same directory with a new FileStore, whatever path of the directory is given: with any characters in it, relative, not clean, or through a symbolic link.',
  'histories inputs configurations', 'all sequences of operations, keys of any such type and values, as far as JSON represents them, ttls, reopenings', 'The tests use a few string keys and one ttl.', FS,
  [('file per key', FS + ' getFilePath'), ('expiry', FS + ' Alive, expireAt')])
p('C17', 'FileStore is safe for concurrent use',
  'Concurrent Get, Set, MGet, MSet, Delete and background collection on one FileStore behave, per key, as if each took effect at one instant between its call and its return: a reader never gets an error, a torn value or a value that was never written, a fresh value is never removed because an old one expired, and all calls return. No two conflicting memory accesses of the calls are unordered in the sense of the Go memory model.',
  'schedules histories', 'all interleavings of operations at the granularity of file system calls', 'The tests are sequential.', FS, [('mutex around file access', FS + ' readFile, Set')])
p('C18', 'FileStore survives crashes and damaged cache files',
  'Whatever bytes that are not themselves an entry a cache file holds (a write cut short by a crash or a full disk, an empty file, null, other JSON) and at whatever file operation the process dies, afterwards every call returns without a panic; each key reads as its complete last written value, a complete earlier one being overwritten, absent, or an error, never as anything else, and not more than one read reports the damage; and a later Set makes the key readable again. Other keys are not affected.',
  'crash_points fault_sequences inputs', 'all crash points within all operations, all failing file system calls, all file contents', 'The tests neither crash nor damage files.', FS, [('JSON parsing with removal of what is damaged', FS + ' readFile')])
p('C19', 'FileStore cleaning removes only what it should',
  'The background collection removes only expired or unreadable cache files and Purge removes all cache files; neither ever removes a live entry (collection), a file that is not a cache file, a directory, or anything outside the store\'s directory, and files vanishing meanwhile do not make them fail. A collection runs when an operation is called more than GCCycle (plus a second) after the previous one, and then removes all expired entries. A cache without directory refuses writes, deletes and purges with an error and touches no file.',
  'histories inputs configurations schedules', 'all directory contents, expiry states, cycle lengths', 'The tests run one purge on a directory with only cache files.', FS, [('walk with suffix check', FS + ' scanExpire, Purge')])
p('C20', 'BitSet single-set operations follow the bit-sequence model',
  'A BitSet is a sequence of bits, most significant bit of each byte first: Set and Get address bit i (negative from the end), Set returns the old bit and grows the set with zero bytes as needed, out-of-range reads are false and out-of-range-left writes fail without a change. Count(start,end) and Sub(start,end) cover exactly the bits of the clipped inclusive range, Range visits all bits in order until told to stop, Clear zeroes all, and Size, Bytes, Binary, String and the hex constructor agree with the sequence; the bytes returned are copies. A set made from part of a larger slice never touches the bytes beyond its part, however it grows.',
  'histories inputs', 'all sequences of operations, contents, offsets (negative, beyond the end) and ranges', 'The tests try a few offsets and ranges on one to three bytes.', BS, [('byte and bit arithmetic', BS)])
p('C21', 'BitSet algebra follows the bit-sequence model',
  'Not, And, Or, Xor and AndNot of any number of sets equal the bitwise operation, in order, on sequences padded with zero bits to the longest operand; the result is a new set and no operand changes (with no argument the receiver itself is returned). The usual laws follow: double complement, De Morgan on equal sizes, x Xor x is zero, a set combined with itself.',
  'inputs', 'all contents, lengths and numbers of operands, the same set given repeatedly included', 'The tests use a few operands of up to three bytes.', BS, [('And, op', BS)])
p('C22', 'BitSet is linearizable and never deadlocks',
  'Concurrent calls of the methods of one or several BitSets, those that combine several sets included, behave as if each took effect at one instant between its call and its return, and all of them return, in whatever order the sets are combined (also a set with itself). No two conflicting memory accesses of the calls are unordered in the sense of the Go memory model.',
  'schedules histories', 'all interleavings, all shapes of combination (a op b while b op a, a op a, with waiting writers)', 'The tests are sequential.', BS, [('read-write lock per set, taken in address order', BS + ' rLock')])
p('C23', 'RbTree is an ordered map',
  'After any sequence of Insert, Update, Delete and Clear a red-black tree holds exactly the keys inserted and not deleted since, with their latest values: Get, Search, Len, Empty agree with that, Insert, Update and Delete return the previous value (zero value if none), and Keys, Values, Nodes, GetIf list the entries in ascending order of the comparison function.',
  'histories inputs', 'all sequences of operations, key orders and comparison functions', 'The tests insert and delete a few fixed sequences.', RB, [('insert, delete, transplant', RB)])
p('C24', 'RbTree stays balanced and red-black',
  'After every operation the tree is a valid red-black tree: the root is black, no red node has a red child, and every path from the root to a leaf has the same number of black nodes; hence its height, and the number of nodes a lookup compares with, is at most 2*log2(n+1).',
  'histories inputs', 'all sequences of insertions and deletions', 'The tests never look at the colours or the shape after deletions.', RB, [('insertFix, deleteFix, rotations', RB)])
p('C25', 'RbTree range views hold exactly the keys of the range',
  'SubTree, LeftSubTree and RightSubTree return new, valid trees with exactly the entries whose keys lie in the range, bounds included or not as asked (for keys present or absent), leave the original unchanged and stay independent of later changes to it; a SubTree with crossed bounds panics.',
  'histories inputs', 'all trees, bounds, inclusivity flags', 'The tests try one range each.', RB, [('in-order traversal with filter', RB + ' SubTree, LeftSubTree, RightSubTree')])
p('C26', 'SkipList is an ordered map',
  'After any sequence of Insert, ChangeValue and Delete a skip list holds exactly the keys inserted and not deleted since, each once, with their latest values: Find, GetNodeCount, IsEmpty and ChangeValue agree with that, whatever levels were drawn for the nodes.',
  'histories inputs', 'all sequences of operations and all draws of node levels', 'The tests use a few sequences and whatever levels the generator draws.', SK, [('search from the entry level, per-level links', SK + ' findExtended, Insert, Delete')])
p('C27', 'SkipList order navigation is consistent',
  'GetSmallestNode and GetLargestNode are the entries with the least and greatest key (nil if empty), Next and Prev step through the keys in ascending and descending order and wrap around at the ends, and FindGreaterOrEqual returns the entry with the least key that is not less than the one asked for, or none, after any sequence of operations and whatever levels were drawn. An entry got earlier stays the entry of its key until the key is deleted: inserting the key again changes its value in place, and its value, Next and Prev are those of the list.',
  'histories inputs', 'all sequences of operations, all draws of node levels, all keys asked for', 'The tests navigate a few lists.', SK, [('start and end links per level, prev links', SK + ' Insert, Delete')])
p('C28', 'Heap pops the minimum of what it holds',
  'After building a heap from any data and any sequence of Push and Pop, every Pop returns an element such that none of the others is less by the comparison function, the elements popped and left are exactly the multiset put in, and popping everything yields sorted order.',
  'histories inputs', 'all data (duplicates, any order), sequences of Push and Pop, comparison functions', 'The tests push a few values.', CT + 'gheap/heap.go', [('siftUp, siftDown', CT + 'gheap/heap.go')])
p('C29', 'List is a sequence under every operation',
  'A doubly linked list equals the sequence obtained by performing its operations (push, insert before or after, move, remove, list concatenation including with itself, Init) on sequences, forwards by Next, backwards by Prev, by Range and by Len; operations with an element of another list or a removed element change nothing. Removed elements have no neighbours, and the zero value is an empty list.',
  'histories inputs', 'all sequences of operations on several lists', 'The tests replay the standard library examples.', CT + 'glist/list.go', [('insert, remove, move', CT + 'glist/list.go')])
p('C30', 'Ring operations permute the cycle as documented',
  'Rings are disjoint cycles of elements: Next, Prev, Move, Len and Do follow the cycle; Link of two rings joins them into one with the second inserted after the receiver and Link within a ring cuts out the part between; Unlink(n) removes the next n mod Len elements and returns them as a ring; no element is ever lost or duplicated.',
  'histories inputs', 'all sequences of Link and Unlink on several rings, all arguments (negative, larger than the ring)', 'The tests replay the standard library examples.', CT + 'gring/ring.go', [('Link', CT + 'gring/ring.go')])
p('C31', 'Queue is first in, first out',
  'Elements leave a queue in the order they entered, each exactly once: Pop, Peek, PeekAll, Len, IsEmpty, Clear, Gen and Iterator (which yields the remaining elements in order on a closed channel and empties the queue) agree with the sequence of pushes not yet popped, and Pop and Peek of an empty queue return an error and the zero value.',
  'histories inputs', 'all sequences of operations', 'The tests push and pop a few values.', CT + 'gqueue/fifo.go', [('list and length kept in step', CT + 'gqueue/fifo.go')])
p('C32', 'Pools hand out each object to one holder at a time',
  'Get on a pool returns either an object given back by Put and not handed out since, or a new one from the constructor; it never returns an object that somebody else holds, for any number of goroutines. A new array from an array pool is empty with the configured capacity, and distinct new ones do not overlap.',
  'histories schedules', 'all interleavings of Get and Put, garbage collections', 'The tests get and put once.', CT + 'gpool/syncpool.go', [('sync.Pool', CT + 'gpool/syncpool.go')])
p('C33', 'Set and map helpers follow the mathematical model',
  'The set helpers (add, remove, contains, items, length, clear) and map helpers (keys, values, copy, contains, clear, conversion to and from entries, equality with == or a function) compute exactly the corresponding function on finite sets and maps (a key that does not equal itself, a not-a-number, is an element of its own that no lookup finds), list every element exactly once, copy without sharing and modify nothing but the container they are told to; equality holds exactly if both maps have the same keys with equal values.',
  'inputs histories', 'all maps and sets, nil ones included', 'The tests use one or two maps each.', [CT + 'gset/set.go', CT + 'gmap/map.go'], [('loops over the map', CT + 'gmap/map.go')])
p('C34', 'Slice helpers follow the sequence model and do not alias',
  'Copy, Equal, Index, Contains, Unique (first occurrences in order, with their number), Reverse, Merge, IsSorted, Shuffle (a permutation) and their function variants compute exactly the corresponding function on sequences for every input, nil, empty and values that do not equal themselves included. Those documented to return a new slice never share memory with, nor modify, their arguments; Reverse and Shuffle work in place.',
  'inputs', 'all slices with any length, spare capacity, duplicates', 'The tests use a few short slices without spare capacity.', CT + 'gslice/slice.go', [('loops', CT + 'gslice/slice.go')])
p('C35', 'Minimum, maximum, Empty and pointer helpers are exact',
  'Min and Max of two values or of a collection return an element that no other element is below or above (the first such one for MinBy and MaxBy with a strict comparison), and the zero value for an empty collection, for every ordered type. Empty, IsEmpty, IsNotEmpty, ToPtr, ToValue, Pack and Unpack are exact for every value.',
  'inputs', 'all collections with duplicates and extreme values, all ordered types', 'The tests use a few collections.', ['gogenerics/gnumerics/math.go', 'gogenerics/gconstraints/constraints.go'], [('loops', 'gogenerics/gnumerics/math.go')])
p('C36', 'Random helpers stay in range and permute',
  'For every value the underlying generator may draw, the bounded random functions return a value in [0,n) (Float32 and Float64 in [0,1), the others non-negative) and those documented to panic for n <= 0 do; Perm(n) returns a permutation of 0..n-1, and Shuffle only exchanges elements within bounds. Every permutation is the outcome of the same number of draw combinations, and Read fills the whole buffer without writing outside it.',
  'inputs schedules', 'all outcomes of the underlying generator, all n', 'The tests sample a few draws.', 'hack/fastrand/fastrand.go', [('multiply-shift reduction with rejection', 'hack/fastrand/fastrand.go Int31n'), ('Fisher-Yates', 'hack/fastrand/fastrand.go Perm, Shuffle')])
p('C37', 'AES encryption round-trips and formats ciphertexts as documented',
  'For every key of 16, 24 or 32 bytes and every plain text, decrypting what AESEncrypt, AESCBCEncrypt or AESCTREncrypt produced, with the same key, mode and encoding, returns the plain text; the encoded text is lower-case hex or unpadded URL-safe base64 of ECB/CBC blocks with PKCS padding, preceded by a 16-byte IV for CBC and CTR that is fresh on every call. No function modifies its arguments, spare capacity included.',
  'inputs', 'all keys, plain texts of any length, both encodings', 'The tests use one key and one or two texts.', 'library/cryptox/cryptox.go', [('padding, IV, encoding', 'library/cryptox/cryptox.go')])
p('C38', 'Decryption never panics and rejects malformed input',
  'For every key and every byte string, the decryption functions return without a panic, and report an error for undecodable text, a wrong key length, a length that is too short or (ECB, CBC) not a multiple of the block size or empty, and for padding that is not 1 to 16 equal bytes of that value; otherwise they return the text without the padding.',
  'inputs', 'all byte strings, all key lengths', 'The tests decrypt only what was encrypted.', 'library/cryptox/cryptox.go', [('length and padding checks', 'library/cryptox/cryptox.go pkcs5Unpadding')])
p('C39', 'CheckPassword accepts exactly the passwords the flags describe',
  'A password is accepted exactly if its length in bytes is at least the minimum and at most the maximum (if given), every character is a printable ASCII character other than space, every character class required by the flags occurs, and digits, symbols and letters occur only if a flag asks for them: N digits, S symbols, LorU at least one letter, L at least one lower-case, U at least one upper-case letter. Flag bits other than these five are ignored.',
  'inputs', 'all strings, flags, lengths', 'The tests try a few of the 32 flag combinations with a few passwords.', 'library/password/password.go', [('class bits', 'library/password/password.go')])
p('C40', 'StringMarshalJSON produces the JSON string of its input',
  'For every byte string the result is a valid JSON string literal that decodes to the input with each invalid UTF-8 byte replaced by U+FFFD; quotes, backslashes, control characters, U+2028 and U+2029 are escaped, and with HTML escaping also <, > and &; everything else is copied as it is.',
  'inputs', 'all byte strings, both modes', 'The tests use a few strings.', 'library/stringx/stringx.go', [('escaping loop and tables', 'library/stringx/stringx.go StringMarshalJSON')])
p('C41', 'Indent and SpaceInOne do exactly what they document',
  'Indent puts the prefix in front of every line (not after a final newline) and changes nothing else. SpaceInOne reaches a result in which no pair of space characters that it combines is left, that is unchanged by applying it again, and which is reached from the text by such combinations alone, in whatever order: everything else stays as it is.',
  'inputs', 'all texts and prefixes', 'The tests use one or two texts.', 'library/stringx/stringx.go', [('replacer applied to a fixed point', 'library/stringx/stringx.go SpaceInOne')])
p('C42', 'Case conversions follow their rules on every string',
  'SnakeString inserts an underscore in front of an upper-case ASCII letter exactly if a character other than an upper-case letter or underscore occurred since the previous inserted underscore, and lower-cases the result; CamelString upper-cases the first letter and every lower-case letter following an underscore, dropping that underscore (underscores in front of the first letter stay); LintCamelString splits into words at underscores (which it drops, except one between two digits) and where a lower-case letter meets anything else, capitalises the first letter and each word that is all lower-case, and upper-cases the words that are common initialisms. Nothing panics, on any string.',
  'inputs', 'all byte strings', 'The tests use a few identifiers.', 'library/stringx/stringx.go', [('scanners', 'library/stringx/stringx.go SnakeString, CamelString, toInitialisms')])
p('C43', 'Entity and code point decoding replaces exactly the encoded characters',
  'HTMLEntityToUTF8 replaces every &#digits (and the semicolons behind it) whose digits are a number below 2^31 in the given base by that character (U+FFFD if there is none), CodePointToUTF8 every \\u followed by digits of the base (at most four in base 16), and both leave all other text, including text that only resembles an encoded character or starts with the same digits, unchanged.',
  'inputs', 'all texts, bases 10 and 16', 'The tests decode one text each.', 'library/stringx/stringx.go', [('regular expression and split', 'library/stringx/stringx.go HTMLEntityToUTF8, CodePointToUTF8')])
p('C44', 'Digest helpers equal the standard digests',
  'Md5, Sha1, Sha256, Sha512, Fnv1aToUint32 and Fnv1aToUint64 return the standard digest of every input.',
  'inputs', 'all byte strings', 'The tests use known values.', 'library/cryptox/cryptox.go', [('standard library', 'library/cryptox/cryptox.go')])
p('C45', 'Zero-copy string conversions preserve the bytes',
  'SliceToString and StringToSlice return the same bytes for every input without copying: the result starts at the same address, so that a write to the slice shows in the string and the other way round; appending to a slice made from a string never writes to memory of others.',
  'inputs', 'all strings and byte slices', 'The tests use a few values.', 'hack/unsafex/str20.go', [('unsafe casts', 'hack/unsafex/str20.go')])
p('C46', 'Concurrent containers are free of data races in the Go memory model',
  'Whatever operations goroutines perform at once on one sync.Map, AtomicError, BitSet, LRU cache, FileStore or pool, and within one call of the mr functions, two accesses to the same memory location of the library of which one is a write (and not both atomic) are always ordered by the happens-before relation of the Go memory model; and what a goroutine did before an operation that put a value in happens before what another does after the operation that took it out.',
  'schedules histories', 'all interleavings of all operations', 'The tests run few goroutines, and the race detector sees only the executions they happen to produce.', [SYNC, MR, BS, LRU, FS, ERR, CT + 'gpool/syncpool.go'], [('locks, atomics and channels around every shared access', SYNC + ' Map, entry'), ('mutex', LRU), ('mutex', BS), ('mutex', FS)], observe=['recorded memory accesses and synchronisation operations of the library'])
p('C47', 'Random draws are unpredictable and uniform; skip list search is logarithmic',
  'The underlying generator is uniform, and skip list operations take logarithmic expected time.',
  'inputs', 'all sequences of draws', 'Statistical.', ['hack/fastrand/fastrand.go', SK], [('runtime generator', 'hack/fastrand/runtime19.go')])
p('C48', 'Independent calls do not interfere',
  'Calls of package functions (slices, maps, sets, numbers, random, crypto, password, strings, conversions), calls of methods of distinct objects (lists, rings, heaps, queues, trees, skip lists, caches, bit sets, maps) and calls that only look at one shared object (lookups, iteration, lengths) may be made from any number of goroutines at once: each has the outcome it has when it is made alone, and no two of their accesses to shared memory are a data race.',
  'schedules histories inputs', 'all interleavings of such calls', 'The tests call everything from one goroutine.', [RB, SK, CT + 'glist/list.go', CT + 'gring/ring.go', CT + 'gheap/heap.go', CT + 'gslice/slice.go', CT + 'gmap/map.go', 'library/stringx/stringx.go', 'library/cryptox/cryptox.go', 'library/password/password.go', 'hack/fastrand/fastrand.go', LRU, CH, BS], [('no package state that is written after initialisation', 'package variables of every package'), ('lookups that do not write', RB + ' Get, Traverse'), ('lookups that do not write', SK + ' Find')])
p('C49', 'Every cache is one map through the common interface',
  'Used through the Cache interface alone, without failures, an LRU cache and a FileStore with enough capacity and ttl, and any Chain of caches (nested chains included) of which at least one has enough of both, whatever the others forget, are indistinguishable from a single map: Get, MGet and Delete see exactly what Set and MSet wrote last, whatever mixture of single and batch calls is used; NoCache, and a chain of nothing else, behaves as a map that stays empty while every call succeeds. MGet of n keys returns n values and n flags in the order given, a repeated key being answered every time, and the package function MGet presents the same answers. Slices and maps that the caller passed or received are not shared with the cache.',
  'histories inputs configurations', 'all sequences of single and batch calls, all key and value types, all compositions of caches', 'The tests use each cache for itself, with a few calls.', [CH, LRU, FS], [('search and fill', CH + ' Chain.Get, MGet'), ('batch and single calls agree', LRU + ' MGet, MSet'), ('batch and single calls agree', FS + ' MGet, MSet')])
p('C50', 'The texts of the ordered containers show what they hold',
  'String of a red-black tree shows exactly its entries, key and value, in the order of its keys. String of a skip list shows its layers: one line for each entry in ascending order of keys, with the value of the entry, of the one before it, and of the one that follows it in each of the layers it takes part in (the lowest and all up to its height); the first and the last line show the first and the last entry of each layer that has any. All these links agree: in every layer exactly the entries that are high enough follow each other in order. String does not panic, whatever was inserted and deleted before.',
  'histories inputs', 'all sequences of insertions and deletions, all draws of levels, all key and value types', 'The tests look at a few texts of trees and print that of a skip list without looking at it.', [RB, SK],
  [('in-order walk', RB + ' printInOrder, String'), ('layers of forward links', SK + ' String, Insert, Delete')], [('next', 'links of each layer', SK + ' SkipListElement'), ('startLevels, endLevels', 'ends of each layer', SK + ' SkipList')])
open(OUT, 'w').write(''.join(json.dumps(x) + '\n' for x in P))
print(len(P))
