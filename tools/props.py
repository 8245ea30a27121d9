"""Per property settings of the checks."""
KERNEL = 'the kernel (descriptors, files, pipes, terminals, mappings, clocks): sim/core/simfs.cc behind the libc symbols open, close, read, write, lseek, fsync, fstat, mmap, munmap, msync, ioctl, fcntl'
HEAP = 'the heap: sim/core/sim.cc behind malloc, realloc, free (guard page after every block, no reuse, injected failures)'
REALIO = ['every source file of /repo, compiled from the working tree with the shipped flags (-Os -DNDEBUG, g++-12, supc++)', 'the C++ exception runtime', 'libc formatting and parsing']
AIO = ['the simulated kernel follows POSIX: a short transfer moves a prefix, EINTR on close leaves the descriptor open, any other close failure releases it',
       'seeded sampling: a clean batch is evidence, not proof']

def io(quick, stub=None, assume=None):
    return dict(bin='io', quick=quick, real=REALIO, stub=stub or [KERNEL, HEAP], assume=assume or AIO)

REALTHR = ['every source file of /repo, compiled from the working tree with the shipped flags plus thread instrumentation (g++-12 -fsanitize=thread, linked with the simulator instead of the sanitizer)', 'the C++ exception runtime', 'libc formatting and parsing']
THREADS = 'threads: sim/thr/thr.cc runs them as fibers; every access to shared memory is a scheduling point of the seeded scheduler, and atomic loads return any value the C++11 memory model allows'
ATHR = ['the memory model simulated is C++11 without load buffering (a load never returns a value stored later)',
        'accesses made inside libc are seen only for memcpy, memmove, memset, memcmp, strlen, printf and read/write buffers',
        'seeded sampling: a clean batch is evidence, not proof']
def thr(quick, stub=None):
    return dict(bin='thr', quick=quick, real=REALTHR, stub=stub or [THREADS, HEAP], assume=ATHR)

PROPS = {
    'F01': io(160000), 'F02': io(160000), 'F03': io(160000), 'F04': io(160000), 'F05': io(160000),
    'O01': io(160000), 'O02': io(160000),
    'I01': io(120000), 'I02': io(120000), 'I03': io(120000),
    'B01': io(160000),
    'M01': io(120000, stub=[HEAP]), 'M02': io(60000, stub=[HEAP]), 'M03': io(120000, stub=[HEAP]), 'M04': io(120000, stub=[HEAP]),
    'M05': io(120000, stub=[HEAP, 'the platform stack walk: backtrace and backtrace_symbols in sim/core/simfs.cc']),
    'D01': io(120000, stub=[HEAP]),
    'D02': io(120000, stub=[HEAP]),
    'K01': io(100000),
    'K02': io(60000),
    'T01': thr(120000), 'T02': thr(120000), 'T03': thr(120000),
    'T04': thr(60000, stub=[THREADS, HEAP, KERNEL]),
    'A01': io(100000, stub=[HEAP]),
    'M06': io(60000, stub=[HEAP]),
    'A02': io(60000),
}

TECH = {
 'A02': 'deterministic simulation: seeded histories of operations on fixed-size containers with a throwing, allocating element type and injected element and allocation failures, containers ending at unmapped pages, against an element-by-element model',
 'M06': 'seeded histories of edits, links and questions on strings whose texts end at guard pages (unterminated links, literals, own memory), with allocations failing inside questions, against a byte-sequence and code point model; text, liveness and leaks are checked after every step',
 'A01': 'seeded calls of 103 algorithm forms on ranges of tracked, plain and string elements that end at guard pages, through four kinds of iterators, with element copies, comparisons, predicates and allocations failing at chosen points, against direct models; liveness, fences and leaks are checked after every call',
 'T01': 'seeded schedules of two to four threads copying, assigning, moving, swapping, resetting and destroying shared_ptr objects of shared objects, preempted at any memory access, with weak memory effects and failing allocations; lifetimes, use counts, data races and visibility of every write are checked',
 'T02': 'seeded schedules of two to four threads operating on atomics of every size with every memory order, preempted at any access, with stale loads and spurious failures; histories are checked for linearizability, coherence, sequential consistency of default-order operations, publication of plain data and races',
 'T03': 'seeded schedules of threads competing for locks made of atomic_flag, preempted at any access and with weak memory effects; mutual exclusion, winners per round, races on the protected data and progress are checked',
 'T04': 'seeded schedules of two to four threads running 41 kinds of library work on their own objects and on shared constant ones, preempted at any memory access, with failing allocations and I/O; every result is compared with the same work done alone and every pair of unordered conflicting accesses is reported',
 'K02': 'seeded shuffles of raw arrays ending at guard pages, strings, vectors and vectors of owning objects, with random numbers that are even, constant zero, constant maximum, alternating, counting or extreme; frequency of every permutation of 3 and 4 elements under even ones',
 'K01': 'seeded histories of advancing, stepping and jumping simulated clocks (also in the middle of a query) around the epoch and other edges, querying nine clocks and computing with the readings, against 128 bit arithmetic on the simulated instants',
 'D02': 'seeded histories of every kind of write, alignment, skip, seek, insertion and relinking on binary and text output streams over guarded blocks of 0 to 200 bytes, with exceptions enabled, masked or partly enabled and failing allocations, against a model of the block',
 'D01': 'seeded histories of writing values of 64 types and reading them back from storage that was cut short or damaged at chosen places, into fresh or used objects, with exceptions enabled, masked or partly enabled and failing allocations; and of raw reads against a position model',
 'M05': 'seeded histories of throwing, nesting, copying, assigning, describing, printing, serialising and reading back every exception class on a simulated heap that fails chosen allocations and with simulated call stacks of any depth and symbol text, every field compared with what was thrown',
 'M04': 'seeded histories of copies, moves, swaps, resets and releases of smart pointers and guards, including chains of objects that own each other, with failing allocations and constructors, judged against an ownership model after every operation',
 'M03': 'seeded histories of container operations and queries with injected allocation failures, every result and the whole contents compared with a sorted, sequence, FIFO, LIFO or greatest-first model after every operation',
 'M02': 'seeded histories of container operations on elements that track their own life, with injected allocation failures and throwing copies at chosen points; liveness and identity of every element are checked after every operation',
 'M01': 'seeded histories of operations on strings, memory blocks, vectors and text output streams on a simulated heap that fails chosen allocations and guards every block, each object compared with a byte model after every operation and with its state before the call after every failed one',
 'B': 'seeded histories of whole file loads and saves of blocks and strings between modifications, on a simulated kernel with split, interrupted and failing transfers, full disks, files that end early and failing allocations, compared byte for byte with the stored files',
 'I03': 'seeded interleavings of prompts on cout and extractions from cin on a simulated terminal with split arrival, partial, blocked and failing output writes; at every read of standard input the simulator compares what the kernel has been given with everything printed',
 'I': 'seeded histories of text extractions, seeks and reopens of ifstreams on a simulated kernel that splits, interrupts and fails the arrival of the data, judged against a text extraction model and against an istringstream over the same bytes',
 'O': 'seeded histories of formatted writes, flushes, seeks, reopens and destructions of ofstreams on a simulated kernel with injected transfer splits, signals, would-block results, device errors, full disks and allocation failures, judged against an exactly-once delivery model',
 'F': 'seeded histories of file stream operations on a simulated kernel with injected transfer splits, signals, errors and crashes, judged against a file model',
}
NOTE = {
 'A02': '48 instantiations of array, tuple, matrix and bitset; libm and wide integer arithmetic as the reference',
 'M06': 'Seeded search on the real classes. Samples texts, does not enumerate. Positions of rfind with a string mean: lies before. Empty needles and malformed UTF-8 are excluded.',
 'A01': 'Seeded search on the real templates. sort passes elements to qsort, so nothing throws there. Samples, does not enumerate.',
 'T': 'Seeded search over schedules on the real code at the granularity of single memory accesses, with a happens-before race detector and a C++11 memory model. Samples, does not enumerate.',
 'K02': 'Seeded search on the real code; rand() is the simulator. Samples, does not enumerate.',
 'K01': 'Seeded search on the real code; the kernel clocks are simulated. Text of timespec durations is checked through text_write, since operator<< is ambiguous for them, and only when not negative. Samples, does not enumerate.',
 'D02': 'Seeded search on the real code; the block ends at a guard page and is preceded by checked bytes, everything accepted must stay intact. After a piece of a composite value was refused without an exception, what later pieces write is only bounded, not specified. Samples, does not enumerate.',
 'D01': 'Seeded search on the real code; the stored bytes end at a guard page and are read only, memory use is bounded, values before the damage must read exactly. The type name pointer inside a damaged stream_bounds_exception is never followed. Samples, does not enumerate.',
 'M05': 'Seeded search on the real exception classes and the real C++ runtime (its emergency pool included). Errno is captured by the constructor, so the checks set it there. Samples, does not enumerate.',
 'M04': 'Seeded search on the real templates with tracked objects; aliveness of every object and use_count of every pointer are compared with the ownership model after every operation. Samples, does not enumerate.',
 'M03': 'Seeded search on the real templates for 22 container, element and order combinations, against array models. Samples, does not enumerate.',
 'M02': 'Seeded search on the real container templates instantiated with tracked elements; every element serial is accounted for after every operation. Samples, does not enumerate.',
 'M01': 'Seeded search on the real library code over histories and over which allocations fail. Trusts the byte models; samples, does not enumerate.',
 'B': 'Seeded search on the real library code; every load and save is compared with the simulated file, blocks end at a guard page. Trusts the simulated kernel; samples, does not enumerate.',
 'I03': 'Seeded search on the real global streams; extracted values are compared with an istringstream over the same bytes (itself checked by I01). Trusts the simulated terminal; samples, does not enumerate.',
 'I': 'Seeded search on the real library code. Values, counts, state and position after every extraction are predicted from the text alone; sources end at a guard page. Trusts the extraction model and the simulated kernel; samples, does not enumerate.',
 'O': 'Seeded search on the real library code; the model tracks which bytes of the text are delivered, pending or visibly refused after every operation. Trusts the simulated kernel; samples, does not enumerate.',
 'F': 'Seeded search over operation histories and fault sequences on the real library code; every violation replays from its file. Trusts the simulated kernel\'s POSIX semantics and the file model; samples, does not enumerate.',
}
for k, v in PROPS.items():
    v.setdefault('technique', TECH.get(k, TECH.get(k[0])))
    v.setdefault('note', NOTE.get(k, NOTE.get(k[0])))
