"""Source of properties.jsonl and MANIFEST.json: run tools/gen.py after editing."""
Q = lambda over, text: {'over': over.split(), 'text': text}

def P(id, title, statement, over, quant, why, files, mech, level_note=None, na=None):
    return dict(id=id, title=title, statement=statement, quantifier=Q(over, quant), why=why, files=files, mech=mech, note=level_note, na=na)

PROPS = [
P('F01', 'Raw file transfers move exactly the bytes they report',
  'fstream::read and write move exactly the requested bytes, in order, to or from the current file position, no matter how the kernel splits the transfer into short transfers or interrupts it with signals; they stop early only at end of file, when the call would block, or on an error. '
  'The returned count always equals the number of bytes that moved, the bytes delivered are the ones transferred, and no byte is skipped, repeated, or stored outside the caller\'s buffer. '
  'readsome returns as soon as one transfer succeeded, retries an interrupted call, and returns 0 only at end of file, on an error or when the call would block.',
  'fault_sequences inputs histories', 'all transfer sizes, positions and file kinds; all sequences of short, interrupted, would-block, zero-length and failing system calls',
  'The fstream test reads and writes one small regular file; the kernel never returns a short or interrupted transfer there.',
  ['fstream.cc', 'fstream.h'], ['fstream::read/readsome/write loops', 'EINTR retry and partial count arithmetic']),
P('F02', 'A failed file operation is recorded and thrown exactly as documented',
  'When a file stream operation fails its state gains the documented bits (failed open or attach: badbit; failed read, write, seek, mmap, munmap, msync, ioctl, fcntl: failbit; failed close or sync: badbit and failbit; end of file on read or a zero-length write: eofbit and failbit) and gains none when it succeeds; interrupted read, write and close calls and would-block transfers are not failures. '
  'An exception is thrown if and only if one of those bits is enabled by exceptions(): a file_exception naming the operation, the file and the errno of the failing call, or a stream_bounds_exception for end of file; size() and stat() always throw on failure, and destructors never throw. '
  'Bytes transferred before the failure stay counted in the file and the state bits persist until clear(), open() or attach().',
  'fault_sequences histories configurations', 'every operation, every errno, every exception mask, every position of the failure within a history of operations',
  'Tests provoke one failing open; no test makes read, write, close, sync, seek, mmap or ioctl fail, or varies the exception mask across failures.',
  ['fstream.cc', 'uios.h', 'uexception.cc'], ['fstream::set_and_throw', 'ios_base::set_and_throw', 'file_exception']),
P('F03', 'Descriptors are closed exactly once and never lost',
  'Every descriptor a file stream opens or is given is closed exactly once: by close(), by opening or attaching another file over it, or by destruction, whether or not that close reports an error, and also when opening, attaching or allocation fails half way. '
  'detach() gives the descriptor back without closing it; a closed stream never touches a descriptor number again; no descriptor the stream does not own is ever closed or used. '
  'ofstream\'s destructor leaves descriptors 0 to 2 open.',
  'fault_sequences histories', 'all histories of open, attach, detach, close and destroy over several streams, with failing and interrupted close and open calls and failing allocations',
  'No test makes close or open fail, replaces an open file, or counts descriptors.',
  ['fstream.cc', 'ofstream.cc', 'ofstream.h'], ['fstream::attach/close/detach/~fstream', 'ofstream::~ofstream']),
P('F04', 'Open modes, offsets, sizes and mappings follow the file model',
  'Opening with given mode bits reads and writes, creates (with the given permissions), truncates, appends, refuses to create (nocreate) or opens non-blocking exactly as the bits say, whatever the file\'s previous state. '
  'seek, pos and size agree with the file offset and length after every operation including failed and partial ones, in files of any size the system supports, appended writes go to the end, set_nonblock changes only the non-blocking mode, and ioctl and fcntl pass request, argument and result through. '
  'A mapping shows the requested range of the file, changes made through it are changes of the file, and munmap releases it.',
  'histories inputs fault_sequences', 'all mode combinations with in or out, all histories of operations on several streams over shared files, with faults in between',
  'The test opens one file in two modes and seeks twice.',
  ['fstream.cc', 'fstream.h'], ['fstream::om_to_flags', 'fstream::seek/pos/size/mmap/set_nonblock/ioctl/fcntl']),
P('F05', 'Synced file data survives a crash',
  'When fstream sync() or flush() returns without reporting a failure, every byte written through the stream before that call survives a crash at any later instant, unless overwritten or truncated afterwards. '
  'When the device reports that it could not sync, the stream reports a failure too.',
  'crash_points fault_sequences histories', 'every crash point between and inside operations, every subset and tearing of unsynced writes the disk may lose, failing syncs',
  'Tests never crash and never look at what is durable.',
  ['fstream.cc'], ['fstream::sync']),
P('O01', 'Text written to an ofstream reaches the file complete and in order',
  'The bytes in the file behind an ofstream are at every instant a prefix of the text written to the stream, each byte exactly once, whatever the buffer fill, write sizes, short writes, interruptions, would-block results and errors retried later. '
  'Once flush(), close() or the destructor has finished without leaving the stream in a failed state, all of the text is in the file, and on a seekable file not opened for appending tellp() is the offset at which the next text will be placed, pending text counted. '
  'Seeking or opening another file first sends the pending text to where it was meant to go.',
  'fault_sequences inputs histories', 'all interleavings of formatted and block writes, flushes, seeks, reopens with all sequences of partial, interrupted, would-block and failing device writes, with exceptions on and off',
  'Tests write short text to a regular file or to stdout that never fails or splits a write.',
  ['ofstream.cc', 'ofstream.h', 'sostream.cc', 'sostream.h'], ['ofstream::overflow/flush/close/seekp', 'ostringstream::write/overflow']),
P('O02', 'ofstream failures become visible and progress stays bounded',
  'If the device refuses part of the text, the stream reports it: the state of the ofstream shows the failure bits (or the enabled exception is thrown) by the time flush() or close() returns, and it never reports success while text was lost. '
  'With the device failing or full, every write, flush, close and destruction still finishes after a bounded number of system calls, and the memory in use stays proportional to the text not yet delivered, also while the device would block; while the device accepts text, no more than about a buffer plus the largest piece written or kept is held back. '
  'After the fault ends and the state is cleared, flush() delivers the retained text exactly once.',
  'fault_sequences histories', 'all device failure sequences including permanent ones, at every point of a history of writes and flushes, with every exception mask',
  'No test has a failing output device; a hang or a lost error cannot be sampled without one.',
  ['ofstream.cc', 'ofstream.h', 'sostream.cc'], ['ofstream::flush/overflow/close/~ofstream']),
P('I01', 'Reading a file stream does not depend on how the data arrives',
  'What an ifstream extracts (numbers of every integer and floating type that can hold them, words, quoted strings, characters, lines, blocks, counts) depends only on the bytes of the source and the sequence of extractions: it is the same whatever sizes the underlying reads return, wherever a token straddles a buffer boundary, whatever the buffer size, and however often reads are interrupted. '
  'It equals what an istringstream over the same bytes extracts, no byte is lost, repeated or invented, and no memory outside the source bytes is read.',
  'fault_sequences inputs histories configurations', 'all texts, extraction sequences, buffer sizes and all ways of splitting and interrupting the arrival of the data',
  'Tests read short in-memory strings and one small file that arrives in a single read, so no token ever meets a buffer boundary.',
  ['ofstream.cc', 'sistream.cc', 'sistream.h', 'mistream.h'], ['ifstream::underflow', 'istringstream::read_number/iread/get/getline/ignore']),
P('I02', 'ifstream positions are logical positions',
  'tellg() is the offset in the file of the next byte that will be extracted, regardless of read-ahead, and seekg() from the beginning, the end or the current position makes the next extraction, once the stream\'s state is clear, start exactly there. '
  'Closing and opening another file discards everything read ahead from the old one.',
  'histories fault_sequences inputs', 'all histories of extractions, tellg, seekg and reopen over all arrival splittings of the data',
  'The only test seeks nowhere and asks no position after buffered reads.',
  ['ofstream.cc', 'ofstream.h'], ['ifstream::seekg', 'ifstream::tellg', 'ifstream::open']),
P('I03', 'Pending cout output is written before cin waits for input',
  'Whenever extraction from cin has to read from the terminal, everything previously written to cout has been handed to the kernel first, in order, so a prompt is always visible before the program blocks; extraction that is satisfied from already buffered input need not flush. '
  'Failures of the output device neither lose nor corrupt input.',
  'schedules fault_sequences histories', 'all interleavings of prompts and extractions, all ways input arrives in pieces, short and failing output writes',
  'Tests redirect stdin and stdout to files and compare the final text, so the order of the two system calls is never observed.',
  ['ofstream.cc'], ['ifstream::underflow flushing cout']),
P('B01', 'Whole-file load and save move the whole file or throw',
  'read_file on a memory block leaves exactly the file\'s bytes in the block and write_file leaves exactly the block\'s bytes in the file (created, and replacing the previous contents in the default mode), whatever short or interrupted transfers occur. '
  'If anything fails (open, stat, read, write, allocation, a full disk, a file that shrinks while it is read) an exception is thrown; success is never reported for a partial transfer. '
  'No descriptor and no memory is lost either way, and the object remains usable.',
  'fault_sequences inputs', 'all file sizes and contents, every failing call, every short transfer pattern',
  'Tests save and load one small file without faults.',
  ['memblock.cc', 'cmemlink.cc', 'fstream.cc'], ['memblock::read_file', 'cmemlink::write_file']),
P('M01', 'Failed growth leaves strings, blocks and buffers unchanged',
  'When an allocation fails, an operation on a string, memblock, vector of plain values or in-memory output stream either completes or throws bad_alloc, and after a throw the object is intact: its contents, size, capacity bound, termination and ability to be used are as before the call (an output stream keeps everything written so far). '
  'No memory is leaked, freed twice, or accessed out of bounds, whichever allocation of whichever operation fails.',
  'fault_sequences inputs histories', 'all histories of operations, with any subset of allocation requests failing',
  'Allocation never fails in the tests.',
  ['memblock.cc', 'memlink.cc', 'ustring.cc', 'ustring.h', 'uvector.h', 'sostream.cc'], ['memblock::reserve/resize/manage/assign', 'string::append/insert/replace/vformat', 'vector::reserve']),
P('M02', 'Containers construct and destroy every element exactly once',
  'Every element object a container or a raw storage algorithm (uninitialized_copy and its relatives, construct, destroy) creates is destroyed exactly once and no uninitialised or destroyed object is ever used as an element, through every operation including growth, insertion, erasure, swap, copy and assignment, and also when an allocation fails or an element\'s constructor or assignment throws in the middle. '
  'After such a failure the container is still valid: it can be read, modified, emptied and destroyed, holds only constructed elements, and nothing leaks.',
  'fault_sequences histories inputs', 'all histories of container operations, with a failure at any allocation or any element copy',
  'Tests count constructions in one fault-free sequence; no element copy or allocation ever throws.',
  ['uvector.h', 'ulist.h', 'uset.h', 'umap.h', 'uqueue.h', 'ustack.h', 'umemory.h'], ['vector::push_back/emplace/insert/erase/resize/reserve', 'construct/destroy/uninitialized_copy']),
P('M03', 'Containers agree with their abstract model through any history',
  'map, set, multimap, multiset, list, queue, stack, priority_queue and vector return, after any history of operations, exactly what the corresponding mathematical object would: sorted unique or sorted duplicate keys, insertion order, FIFO, LIFO, greatest element first. Which keys are the same, and their order, is what the comparison object given to the container says: every operation of one container goes by it. '
  'An operation that adds or removes one element and fails for lack of memory leaves the contents as before the call; a failed whole-container operation leaves a valid container, and it keeps agreeing with the model afterwards.',
  'histories fault_sequences inputs', 'all histories of operations with allocation failures at any point',
  'Tests compare one fixed sequence of operations per container with expected output.',
  ['umap.h', 'umultimap.h', 'uset.h', 'umultiset.h', 'ulist.h', 'uqueue.h', 'ustack.h', 'uvector.h'], ['binary search insertion', 'lower_bound/upper_bound/equal_range', 'queue::pop compaction', 'heap algorithms']),
P('M04', 'Smart pointers own their object exactly once',
  'unique_ptr, shared_ptr and auto_ptr destroy the object they own exactly once: when the last owner goes, is reset or is reassigned; release() gives it back undestroyed. '
  'use_count() is the number of shared_ptr objects sharing it, moved-from pointers are empty, and scope guards run once or not at all when released. '
  'If an allocation fails while ownership is being taken the object is still destroyed exactly once and nothing leaks.',
  'histories fault_sequences', 'all histories of copies, moves, swaps, resets and assignments (self-assignment included) with allocation failures at any point',
  'Tests run one fixed sequence without failures.',
  ['umemory.h'], ['shared_ptr::reset/detach', 'unique_ptr::reset', 'auto_ptr', 'scope_exit']),
P('M05', 'Exceptions and backtraces work when memory is exhausted',
  'Throwing, copying, describing and destroying any library exception, and capturing, copying, printing and serialising the backtrace inside it, neither crash nor leak nor access memory out of bounds when any or all allocations fail, for any call stack depth and any symbol text. '
  'The exception that reaches the handler is the one thrown, with its operation, file name and error code intact; only its message text may be empty when there was no memory for it; error codes and conditions compare by category and value. '
  'Reading back a serialised backtrace that was cut short, damaged or captured deeper than the 64 frames kept either reports the shortage or takes exactly its own bytes, keeping the frames that fit and every symbol, and never reads outside the data.',
  'fault_sequences inputs', 'all subsets of failing allocations while an exception is in flight, all call stack shapes and symbol strings',
  'Tests throw a few exceptions with memory available and a fixed short stack.',
  ['uexception.cc', 'uexception.h', 'bktrace.cc', 'unew.cc', 'ustdxept.h'], ['CBacktrace::CBacktrace/GetSymbols/operator=', 'file_exception', 'bad_alloc::format']),
P('D01', 'Damaged or truncated serialised data is never read out of bounds',
  'Reading strings, vectors, containers, tuples and exceptions from a binary stream whose bytes were truncated, torn or flipped at any position never reads or writes outside the stream\'s memory and the destination objects, never crashes and never loops without bound; it ends with a value, with the stream\'s failure state set, or with an exception. '
  'Intact bytes read back exactly the value that was written, and reading stops exactly where writing stopped; stream_size_of a value, by which users size their buffers, is never less than what writing it from an aligned place takes.',
  'inputs fault_sequences configurations', 'all values, all truncation points and bit flips of their serialised form, exceptions enabled and disabled',
  'Tests only read back what they have just written, whole.',
  ['mistream.cc', 'mistream.h', 'uctrstrm.h', 'ustring.cc', 'strmsize.h', 'uexception.cc'], ['istream::verify_remaining', 'container_read', 'string::read', 'read_strz']),
P('D02', 'Fixed-size output streams never write past their block',
  'An output stream over a fixed memory block never writes outside it, whatever is written: what does not fit is refused as a whole value or cut at the block\'s end (a text stream may continue in memory of its own), reported by exception or failbit according to exceptions(), and everything accepted before stays intact. '
  'pos() and remaining() always stay within the block and describe exactly the bytes accepted, which are the values\' bytes or, in a text stream, the text printf gives for the value with the stream\'s width, fill, precision and flags.',
  'inputs histories configurations', 'all block sizes including zero, all sequences of writes, alignments, skips and seeks, exceptions on and off',
  'Tests give every stream a buffer that is large enough.',
  ['mistream.cc', 'mistream.h', 'sostream.cc', 'sostream.h'], ['ostream::verify_remaining/write/align', 'ostringstream::overflow']),
P('T01', 'shared_ptr copies in different threads share one lifetime',
  'Threads that copy, assign, move, reset and destroy their own shared_ptr objects sharing one object, in any interleaving, never destroy the object while an owner exists, destroy it exactly once when the last owner goes, and free the control block exactly once. '
  'Everything an owner wrote to the object before releasing it is visible to the destruction.',
  'schedules', 'all interleavings of the threads\' memory accesses',
  'The tests are single threaded.',
  ['umemory.h', 'uatomic.h'], ['atomic reference count in shared_ptr']),
P('T02', 'Atomic operations are indivisible and publish',
  'Concurrent operations on one atomic (load, store, exchange, compare-exchange, fetch-and-modify, the operators) behave as if executed one at a time in an order consistent with each thread and with real time, each returning the documented old or new value. '
  'With the default memory order, data written before a store or modification is visible to a thread that observed it, and operations on several atomics appear in one order all threads agree on. A weaker order given explicitly still provides what that order promises.',
  'schedules inputs', 'all interleavings of a few threads with a few operations each, all operand values',
  'The tests are single threaded.',
  ['uatomic.h'], ['atomic<T> members over __atomic builtins']),
P('T03', 'atomic_flag test-and-set gives mutual exclusion',
  'At most one of the threads that call test_and_set between two clears gets false, and a lock built from test_and_set and clear admits one thread at a time, with everything the previous holder wrote visible to the next one.',
  'schedules', 'all interleavings of threads locking and unlocking',
  'The tests are single threaded.',
  ['uatomic.h'], ['atomic_flag::test_and_set/clear']),
P('T04', 'Different objects can be used from different threads',
  'Threads working on their own strings, containers, streams, file streams and exceptions never interfere: each gets the same results as alone, with no data race on state shared behind the scenes. '
  'Objects that are only read may be shared.',
  'schedules histories', 'all interleavings of threads running independent workloads',
  'The tests are single threaded.',
  ['*.cc', '*.h'], ['absence of hidden mutable static state']),
P('K01', 'Clocks report the system clock they are documented to read',
  'Each clock\'s now() is the reading of the corresponding system clock (wall clock for system_clock, high_resolution_clock and system_clock_hr, monotonic for steady_clock) at some instant during the call, in that clock\'s units, rounded down to units of a second or finer, before the epoch and across wall clock jumps too; steady_clock never goes backwards. '
  'Differences, sums, comparisons and scaling of readings, conversions between units, time points and time_t, their text and their serialised form all agree with those instants, and the arithmetic and order of the ratios that units are made of is exact.',
  'inputs schedules histories', 'all clock readings, jumps and steps, at every query, within the range of 64 bit nanoseconds',
  'The test prints durations only; it cannot control the clock it reads.',
  ['uchrono.h'], ['system_clock::now', 'steady_clock::now', 'high_resolution_clock::now', 'hrtime_t', 'duration_cast']),
P('K02', 'random_shuffle permutes for every random sequence',
  'random_shuffle leaves a permutation of its input in the range and touches nothing outside it, whatever sequence the random number generator delivers, constant and extreme values included, neither loses nor duplicates an object, and asks for a number of random values linear in the length. With evenly distributed random numbers every permutation is about equally likely.',
  'inputs schedules', 'all random number sequences and range lengths',
  'The test shuffles one vector with the platform generator and checks little more than the length.',
  ['ualgo.h'], ['random_shuffle']),
P('A01', 'Algorithms do exactly their work, within their ranges, whatever element operation fails',
  'Every algorithm (searching, counting, copying, replacing, filling, generating, removing, rotating, partitioning, merging, sorting, heap, set, permutation and numeric ones, with operators or with given orders and predicates, on pointers, whole containers, reverse_iterators, move_iterators, index iterators, insert iterators and user written iterators, on plain and on class elements of any kind) computes exactly the documented result for every input, returns the documented position, keeps the order it promises to keep, and reads and writes nothing outside its ranges. When copying, assigning, comparing or creating an element throws, or an allocation fails, at any point, the exception arrives at the caller unchanged, ranges that are only read are unchanged, every element of every range is still a live object of its own, and no temporary is leaked. Iterator adaptors step, jump, compare and measure distances as the positions they stand for. Function objects, their adaptors and the small helpers (min, max, clamp, swap, exchange, align, bit and size helpers) compute what their names state for every operand.',
  'inputs faults', 'all inputs, and every point of an algorithm at which an element operation or allocation can fail',
  'Tests run each algorithm once on a short range of integers that cannot throw, and several (find_end, replace_copy, adjacent_difference, searches with an order) not at all.',
  ['ualgo.h', 'ualgobase.h', 'ualgobase.cc', 'upredalgo.h', 'uheap.h', 'unumeric.h', 'uiterator.h'], ['the algorithms', 'copy_n_fast', 'copy_backward_fast', 'fill_n8_fast', 'rotate_fast', 'reverse_iterator', 'move_iterator', 'index_iterate', 'insert_iterator', 'front_insert_iterator', 'back_insert_iterator']),
P('M06', 'Strings answer every question as the text they hold',
  'Whatever history a string has and wherever its text lies (its own memory, a literal, a link to unterminated or read-only memory), searching (find, rfind and the find_first and find_last families, with characters, strings, texts and counted texts, from any position), comparing (compare, and every relational operator between strings, texts and characters, on either side), copying out, substrings, concatenation, conversion from and to numbers, hashing (equal texts, equal hashes) and iterating in either direction answer exactly what the sequence of bytes it holds determines, compared as unsigned values, and leave it unchanged. Walking, counting, measuring, locating and converting UTF-8 characters agree with the code points encoded. Editing it in any form (assign, append, insert, erase and replace with characters, texts, strings, ranges, positions or iterators) gives exactly the text the operation describes. Nothing outside the text is read; a query that needs memory answers correctly or throws bad_alloc and leaks nothing.',
  'inputs histories faults', 'all texts, histories and positions, at every place in memory, and every allocation that can fail within a query',
  'Tests ask a few questions of short literals with plenty of memory behind them; several operators and overloads are never called.',
  ['ustring.h', 'ustring.cc', 'utf8.h', 'memlink.h', 'memlink.cc', 'cmemlink.h'], ['string::find', 'string::rfind', 'string::find_first_of', 'string::find_last_not_of', 'string::compare', 'PTR_STRING_CMP', 'string::substr', 'string::hash', 'utf8in_iterator', 'utf8out_iterator', 'string::wiat', 'memlink::fill']),
P('A02', 'Fixed-size containers compute element by element and own what they hold',
  'array, tuple, matrix and bitset hold exactly their number of elements and nothing outside is touched; element access, assignment, conversion from other element types, lists (shorter ones too), swapping, comparison, and arithmetic with one value, with a list or with another container give in every element what that operation on the elements gives, also when both operands are the same container. Packed (SIMD) operations, with two and with three operands, saturating, shifting, averaging, rounding and mathematical ones, give the same as the element operation, in every specialisation, and disturb nothing of the caller. Matrix products, transformed vectors, rows, columns, identity and transposition are those of linear algebra. Bit sets answer, set, clear, flip and combine each bit and range of bits by itself, to and from numbers and text. When an element operation throws or runs out of memory, the exception arrives unchanged, each element has its old value or its new one and is a live object, and nothing leaks.',
  'inputs histories faults', 'all element types and sizes, operand values and histories, and every element operation that can fail',
  'Tests compute a few results with plain elements; the operations with three operands did not compile, and the 4x4 float matrix product was wrong.',
  ['uarray.h', 'utuple.h', 'umatrix.h', 'ulaalgo.h', 'ubitset.h', 'ubitset.cc', 'simd.h'], ['tuple::operator+=', 'matrix::operator=', 'operator*(matrix,matrix)', 'load_identity', 'transpose', 'bitset::set', 'bitset::to_string', 'simd::packop', 'simd::passign', 'simd::pround']),
# not addressable by simulation
P('N04', 'Compile-time ratio arithmetic is exact', 'The sum, difference, product, quotient and comparison of ratio types are the exact results in lowest terms.',
  'inputs', 'all ratio types', 'Tests compute a few results.', ['uratio.h'], ['ratio_add', 'ratio_multiply', 'ratio_less'],
  na='evaluated by the compiler on types alone: nothing executes, so there is no run to simulate'),
]
