"""property table: which contract tasks, which driver, level and notes"""
DRIVERS = {
 'varint': dict(main='varint.c', src=['src/varint.c'], count=4000),
}
PROPS = {}
def P(id, specs, drivers, level='proof', note='', **k):
    PROPS[id] = dict(specs=specs.split(), drivers=drivers.split(), level=level, note=note, **k)
VN = 'Bit-precise verification conditions from the IR of src/varint.c; every loop is bounded by the width and unrolled completely with the bound itself checked; all inputs symbolic.'
for i in ('C01', 'C02', 'C03'): P(i, 'varint', 'varint', note=VN, mods=['src/varint.c'])
DRIVERS['timetools'] = dict(main='timetools.c', src=['src/timetools.c'], wrap=['clock_gettime', 'nanosleep', 'clock_nanosleep'], count=20000)
TN = 'All inputs symbolic as mathematical integers with the 64-bit wrap-around modelled exactly; loop free, so no bound anywhere. Clock and sleep calls are replaced by assumed contracts that return any normalised reading or any failure.'
for i in ('C08', 'C09', 'C10'): P(i, 'timetools', 'timetools', note=TN, mods=['src/timetools.c'])
DRIVERS['list'] = dict(main='list.c', src=[], count=20000, n={'C05': 5000})
LN = 'Lists of any length: the ring is described by ghost functions over an address-indexed heap map, every operation is proved against the edited sequence; walks by inductive invariants with no bound on the length.'
for i in ('C04', 'C05'): P(i, 'listspec', 'list', note=LN, mods=['harness/list.c'])
DRIVERS['hash'] = dict(main='hash.c', src=['src/hash.c'], wrap=['calloc', 'malloc', 'free'], cflags=['-DFUTILS_LIST'], count=3000)
HN = 'Tables of any size with chains and entry lists of any length over an address-indexed heap map; the search loops by inductive invariants; remove_all and destroy against the contract of list_del (C04).'
for i in ('C06', 'C07'): P(i, 'hashspec', 'hash', note=HN, mods=['src/hash.c'])
DRIVERS['sync'] = dict(main='sync.c', src=['src/fdutils.c', 'src/synctools.c'], wrap=['fcntl', 'fcntl64', 'ioctl', 'open', 'open64', 'openat', 'openat64', 'close', 'fsync', 'fdatasync', 'strdup'], count=2000)
P('C27', 'syncspec', 'sync', note='Bit-precise over every descriptor, flag word and failing call; the kernel call is an assumed contract over a ghost flag word.', mods=['src/fdutils.c'])
P('C28', 'syncspec', 'sync', note='Every combination of outcomes of the opened objects, flushes, closes and allocation is a path; strings of any length; descriptors are ghost state.', mods=['src/synctools.c'])
DRIVERS['macros'] = dict(san='-fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=shift-base,null,object-size,pointer-overflow', main='macros.c', src=[], libs=['-lm'], count=3000)
P('C32', 'macros', 'macros', note='The macros are instantiated in a harness for all eight integer widths, float, double (IEEE terms, NaN excluded) and pointers (operands are calls, so evaluations are counted) and proved bit-precisely for every operand. The layout helpers are proved for an arbitrary member offset (offsetof is replaced by an arbitrary value) and for arrays of any length and element size, and on five structures and six arrays as compiled.', mods=['harness/macros.c'])
DRIVERS['systime'] = dict(main='systime.c', src=['src/systimetools.c'], count=30000)
SN = 'Mathematical integers with the 32/64-bit wrap-around modelled exactly; no bound on dates within the stated range. The parser is proved function by function: each part against the contract of the number and name fields, the whole against the contracts of the parts.'
for i in ('C11', 'C12', 'C13', 'C14'): P(i, 'systime', 'systime', note=SN, mods=['src/systimetools.c'], trusted=['gmtime_r, strtol, strncmp, snprintf, isdigit: assumed contracts of the C library'])
DRIVERS['clock'] = dict(main='clock.c', src=['src/systimetools.c'], wrap='settimeofday gettimeofday clock_settime clock_gettime time localtime_r adjtime adjtimex stime tzset'.split(), count=20000)
P('C34', 'clockspec', 'clock', note='Every combination of requested outputs, every reading of the clock and every failure is a path; loop free, so no bound.', mods=['src/systimetools.c'], trusted=['settimeofday, gettimeofday, time, localtime_r: assumed contracts (time and localtime_r do not fail for the present instant)'], assumptions=['the clock lies between 1970 and the year 34000', 'the builds with libputils and for Windows are not decided'])
DRIVERS['random'] = dict(main='random.c', src=['src/random.c'], wrap=['getrandom', 'syscall', 'open', 'open64', 'openat', 'read', 'close', 'abort', 'malloc', 'free'], libs=['-lm', '-lpthread'], count=1500)
RN = 'src/random.c bit-precisely: '
RT = ['getrandom, open, read, close: assumed contracts allowing every short read, interruption and failure', 'memory_order_relaxed atomics are modelled as a counter that may hold any value at every read (other threads)']
P('C15', 'randomspec', 'random', note=RN + 'for every maximum and every stream of words the result is the last word drawn under the smallest covering mask, a further word being drawn only after a rejected one (loops by invariant, no bound); reals as exact scaled integers.', mods=['src/random.c', 'harness/random.c'], trusted=['the words of the stream are uniform: the quality of ChaCha20 is not decided here'])
P('C16', 'randstr', 'random', note=RN + 'every buffer size, length and stream; base32 and base64 are split by the length of the last group (all cases); string over a character set of any length.', mods=['src/random.c'])
P('C17', 'randomspec', 'random', note=RN + 'the block function equals an independent ChaCha20 (RFC 8439); a request of any length from a pool in any fill state returns the next bytes of the key stream, erases them and replaces the key; well-formedness of the pool is an invariant of every operation.', mods=['src/random.c'], trusted=RT, assumptions=['requests below 2^38 bytes (the 32-bit block counter)'])
P('C18', 'randstr', 'random', note=RN + 'any element count and any element size (both symbolic): two tracked elements and one tracked byte with ghost positions, updated at each draw; the swap loop by invariant; a lemma shows that every permutation is the result of exactly one sequence of draws, up or down.', mods=['src/random.c'], trusted=['the draws are uniform and independent: the quality of ChaCha20 is not decided here'], assumptions=['nmemb * size is below 2^62 (the array exists in memory)'])
P('C19', 'randomspec', 'random', note=RN + 'every sequence of short reads, interruptions and failures of the sources (loops by invariant over a ghost record of delivered bytes).', mods=['src/random.c'], trusted=RT)
DRIVERS['mbox'] = dict(main='mbox.c', src=['src/mbox.c', 'src/dynmbox.c', 'src/fdutils.c', 'src/timetools.c'], wrap='calloc malloc free pipe pipe2 close pthread_mutex_lock pthread_mutex_unlock pthread_cond_signal pthread_cond_broadcast gettimeofday clock_gettime pthread_cond_wait pthread_cond_timedwait write read poll'.split(), count=600, n={'C33': 4000, 'C20': 1500})
P('C20', 'mboxspec', 'mbox', note='Every message size, every queue length and every sequence of interrupted and failing calls (retry loops by invariant); the pipe is a kernel FIFO by its assumed contract.', mods=['src/mbox.c'], trusted=['write of at most PIPE_BUF bytes to a non-blocking pipe is atomic and read returns the oldest bytes (POSIX)'])
DT = ['pthread mutex and condition variable: assumed contracts (mutual exclusion; a wait releases and retakes the lock; other threads re-establish the lock invariant)', 'write and read of one byte on the notification pipe below its capacity succeed']
P('C21', 'mboxspec', 'mbox', note='Every ring position, fill level, message size and history of queued messages of any length (ghost sequence over the ring): push appends, peek removes the oldest, anything refused changes nothing; copies proved against the ring for every split point.', mods=['src/dynmbox.c'], trusted=DT)
P('C22', 'mboxspec', 'mbox', note='Lock invariant (unread notification bytes = queued messages) required at every release of the lock, including the release inside a wait; hence it holds in every interleaving of any number of threads.', mods=['src/dynmbox.c'], trusted=DT)
P('C33', 'timetools mboxspec', 'timetools mbox', note='Every 32-bit timeout; the wait loops by invariant over any sequence of wake-ups, interruptions and time-outs.', mods=['src/dynmbox.c', 'src/mbox.c', 'src/timetools.c'], trusted=DT + ['poll and pthread_cond_timedwait wait until the deadline they are given'])
DRIVERS['safew'] = dict(main='safew.c', src=['src/safew.c'], wrap='fopen fopen64 fdopen fclose fflush fsync fdatasync rename unlink remove getc fgetc fread ferror fwrite vfprintf'.split(), count=400, n={'C24': 900}, san='-fsanitize=undefined -fno-sanitize-recover=all -fno-sanitize=shift-base,null,object-size')
FT = ['stdio, rename, unlink and fsync: assumed contracts (rename is atomic; data not synced may be lost or torn in a crash; directory operations reach storage in order)']
P('C23', 'safewspec', 'safew', note='Every sequence of successes and failures of the file operations is a path; a crash state (with every loss of unsynced data) is examined before every operation that changes a file and the decision table of the recovery applied to it; contents of any size (represented by their hash and completeness).', mods=['src/safew.c'], trusted=FT, assumptions=['incomplete new content does not by coincidence match a left-over check file (32-bit hash)'])
P('C24', 'safewspec', 'safew', note='All 36 combinations of the four files with symbolic check values (hence every coincidence); every crash point of every path is recovered again; every combination of failing file operations for the meaning of success; the hash loop by invariant over files of any size.', mods=['src/safew.c'], trusted=FT, assumptions=['which version is kept is decided for recoveries whose file operations succeed; under failing operations it is decided that success means a matching pair','a partially read payload does not hash to a stored check value by coincidence (32-bit hash)'])
DRIVERS['string'] = dict(main='string.c', src=['src/string.c'], wrap='iconv_open iconv_close calloc malloc free'.split(), count=4000)
P('C25', 'stringspec', 'string', note='Texts, character sets and buffers of any length; the replacing loop by an invariant over every index of the decoded text.', mods=['src/string.c'], trusted=['iconv by its assumed contract: the whole text is decoded to its characters or refused; encoding stores whole characters while they fit (the glibc converter also takes the code points beyond U+10FFFF of RFC 2279)', 'wcschr, wcslen, strlen: assumed contracts'], assumptions=['texts below 256 MB', 'input and output do not overlap'])
DRIVERS['fs'] = dict(main='fs.c', src=['src/fs.c'], wrap='opendir fdopendir closedir readdir lstat stat fstatat malloc calloc free'.split(), count=900)
P('C26', 'fsspec', 'fs', note='Directories with any number of entries of any kind, name and size; the walk by invariant, the sub-directories by the contract of the function itself (induction over the tree).', mods=['src/fs.c'], trusted=['opendir, readdir, lstat, snprintf: assumed contracts'], assumptions=['sums below 2^62', 'the tree does not change during the walk'])
DRIVERS['inotify'] = dict(main='inotify.c', src=['src/inotify.c', 'src/fdutils.c'], wrap='inotify_init inotify_init1 inotify_add_watch close fcntl fcntl64 ioctl read malloc free'.split(), count=1500)
P('C29', 'inotifyspec', 'inotify', note='Batches of any number of events, name lengths and total size; the walk by invariant over the event boundaries; every failing call is a path.', mods=['src/inotify.c'], trusted=['ioctl(FIONREAD), read, inotify_init, inotify_add_watch, close: assumed contracts (the kernel returns whole events)'], assumptions=['one reader per descriptor: the read returns the batch that was announced', 'the callback does not modify the event'])
DRIVERS['strcpp'] = dict(main='strcpp.cpp', src=['src/string.cpp', 'src/fs.cpp'], count=40000, n={'C31': 60000})
ST = 'members of std::string (copy, length, compare, iterators): assumed contracts over its text'
P('C30', 'cxxspec', 'strcpp', note='Strings of any length and content; lower-casing through the code of std::transform as compiled, by an invariant over every index.', mods=['src/string.cpp'], trusted=[ST, 'tolower in the C locale changes exactly A-Z'], assumptions=['string allocations do not fail'])
P('C31', 'cxxspec', 'strcpp', note='Paths of any length: a private copy is handed to the POSIX function, the result read before the copy is released.', mods=['src/fs.cpp'], trusted=[ST, 'dirname and basename of the C library: assumed contracts (checked against an independent implementation by the native sweep)'], assumptions=['string allocations do not fail', 'a path ends at its first NUL, as in POSIX'])
