"""Per-property settings of the checks."""
COMPONENTS = {
    "real": [
        "every source file of /repo/sources except win.cpp (both repository formats, the FUSE callback table, "
        "file table, B-tree directories, crypto streams, name translators, lookup table, parameters)",
        "Crypto++, SQLite (with its unix VFS), protobuf, argon2, ICU",
    ],
    "stub": [
        "the operating system's files, directories, extended attributes, locks and clocks: an in-memory simulated disk "
        "behind interposed libc calls",
        "absl synchronisation primitives and flat hash containers: shims driven by the simulated scheduler",
        "uni-algo (not installed here): a shim over ICU",
        "libfuse and the Linux VFS: a model of the checks the kernel makes before it calls a FUSE daemon",
    ],
}
ASSUMPTIONS = [
    "the simulated disk behaves like a POSIX file system and the simulated kernel like Linux's FUSE client",
    "x86-64 Linux, FUSE 2.9, one process; win.cpp and FUSE-T are not compiled",
]
_SEQ = ("a seeded random history of FUSE requests over a random repository configuration (format, block, IV and padding "
        "sizes, name options), executed on the real code over the simulated disk and compared step by step with a reference "
        "model, then again after a remount; non-trivial = at least 3 operations and a trace no other run produced")
_CRASH = ("a seeded random history of FUSE requests with process deaths at seeded system calls, after each of which a new simulated "
          "process mounts what is left on the simulated disk; non-trivial = a death fired, and a trace no other run produced")
_TAMPER = ("a seeded random history of FUSE requests, then seeded modifications of what is stored on the simulated disk alternating with reads, listings "
           "and remounts; non-trivial = something was really modified, and a trace no other run produced")
_CMD = ("a seeded random history of commands and FUSE requests, with process deaths, power losses or I/O errors at seeded system calls of the commands; "
        "non-trivial = at least 3 operations and a trace no other run produced")
_CONC = ("a seeded random history with bursts of concurrent FUSE requests under a seeded schedule, each burst checked for linearizability; "
         "non-trivial = at least 2 task switches and a trace no other run produced")
_LIFE = ("a seeded random history of FUSE requests to a mount made by the real `mount` command and ended in a seeded way at a seeded moment, under a seeded schedule of all its "
         "threads; non-trivial = at least 2 task switches and a trace no other run produced")
_LOG = ("a seeded random run of another property (sequential, with I/O errors, with modified storage, concurrent, a whole mount, or commands) with logging at a seeded level; "
        "non-trivial = at least one operation executed and a trace no other run produced")
_PASS = ("a seeded sequence of commands that take passwords from options, a pipe or a terminal, with mistakes, early ends and read errors; "
         "non-trivial = at least one command executed and a trace no other run produced")
PROPS = {
    "S01": dict(title="file contents", rule=_SEQ,
                design='Random histories of opens, reads, writes, appends, truncations and flushes on one to three files with several handles, hard links and unlinked-but-open files; offsets and lengths are biased to block boundaries and past the end; block sizes 64 to 4096, IV 12/16/32, padding 0 to 300. Every read is compared byte by byte with a sparse model; everything is read again at the end, and again after a remount.'),
    "S02": dict(title="name space", rule=_SEQ,
                design='Random name space histories over a small pool of names to depth 3, with open files, hard links and directory handles; every result and errno is compared with the model, the whole tree is compared at random points, at the end and after a remount, and the objects stored on the simulated disk are counted.'),
    "S03": dict(title="large directories", rule=_SEQ,
                design='Directories grow and shrink through 10 to 900 names of all lengths (1 to 255 arbitrary bytes, sequential or random order), in phases, with lookups, renames, listings and remounts; tree compared as in S02. Reaches three and four B-tree levels, node splits, merges, rotations and rebuilds.'),
    "S04": dict(title="clean unmounts", rule=_SEQ,
                design='Histories mixing every operation with frequent unmounts while handles are open, files are unlinked but open and thousands of objects are cached (file table eviction); the tree is compared after every mount and the stored objects are counted, so that leaked or lost objects show.'),
    "S05": dict(title="metadata", rule=_SEQ,
                design='chmod, chown, utimens (explicit, NOW, OMIT, NULL), stat by path and handle mixed with writes, truncations, links, renames, clock jumps and remounts; explicit times must be reported exactly, implied ones within the interval of simulated time in which they were made.'),
    "S06": dict(title="extended attributes", rule=_SEQ,
                design='set/get/list/remove with all flags, sizes, probe calls and undersized buffers against a map per file.'),
    "S07": dict(title="long names", rule=_SEQ,
                design='Name space histories in which most names sit around the threshold (threshold-1 to 255 bytes), with several thresholds and suffixes.'),
    "S08": dict(title="case folding and normalisation", rule=_SEQ,
                design='Name space histories over names that collide or not under case folding and NFC (Latin, Greek, Turkish, German, Hangul, combining marks) with the reference canonicalisation computed by ICU.'),
    "S09": dict(title="storage format", rule=_SEQ + "; after every unmount the stored bytes are decoded by the independent reader",
                design='Histories as in S04 plus long names, large directories and every configuration; after each unmount `sim/harness/fmt.cpp`, a reader of both formats written from their description that shares no code with securefs (only Crypto++ primitives), decodes the whole data directory and compares directory entries, headers, link counts, times, padding, contents, extended attributes, symbolic links and the long name tables with the model, and checks the B-tree order, fan-out and free list. A change that reads and writes a self-consistent but different format is a violation.'),
    "C01": dict(title="crashes in lite repositories", rule=_CRASH,
                design='Histories over lite repositories with one process death at a seeded system call of a seeded operation (any file-changing call; a write may be cut at a page boundary). A second simulated process with a new process id mounts what is left, SQLite recovers its journals, and the tree must equal the model before or after the interrupted operation; blocks of files being written are checked against the set of values each block ever had. Up to six crashes per history, the history continuing on the recovered repository.'),
    "C02": dict(title="crashes in full repositories", rule=_CRASH,
                design='The same for full repositories. The model records which objects were changed since they were last written back and which blocks the interrupted operation touched. The independent decoder of S09 then decides, object by object on the crash image, that everything else is authentic and equal to the model; if the root is clean the repository is mounted and the clean part of the tree is used through the callbacks as well.'),
    "C03": dict(title="fsync and power loss", rule=_CRASH,
                design='Histories rich in fsync, over both formats, with one power loss. The simulated disk journals every mutation: metadata calls survive as a prefix, at least up to the last fsync of anything; data that was not forced by fsync of its own file is dropped, kept or torn at 512-byte sectors by seed. Every file whose fsync had returned success is then decoded (full) or read through a new mount (lite) and every block not written since must be exact, and the whole object authentic if nothing touched it since. The full format finds the object by its id, because fsync of a file says nothing about directories that were not synced.'),
    "C04": dict(title="creating repositories and changing passwords", rule=_CMD,
                design='The real command line entry point runs create, chpass and info with random credentials (password, key file of 0 to 5000 bytes, both), formats, sizes and options, inside or outside the data directory, and on old JSON configurations written by an independent encoder. Three of four commands meet a process death at a seeded system call, a power loss (unsynced data dropped, kept or torn), or one to three I/O errors and short writes. Afterwards each of four credentials is tried on what is stored: exactly the allowed one opens it, with the same keys and parameters; the repository is mounted and its tree compared with the model.'),
    "C05": dict(title="migrating long names", rule=_CMD,
                design='A random tree with short and long names (thresholds 0, 20, 128; nested long-named directories, hard links, symbolic links, attributes) is built, then migrate-long-name runs one to five times with suffixes that contain or end with each other, three of four times with a death, power loss or I/O errors at a seeded system call. Credentials must still open the configuration; if the suffix is not the new one yet the command is repeated and must complete; then the tree is compared with the model through a mount with the stored parameters, and used further.'),
    "F01": dict(title="I/O errors", rule=_SEQ + "; with I/O errors injected at seeded system calls; a run counts only if one fired",
                design='Histories over both formats with one to twelve seeded faults: the n-th system call of a class within an operation (open, read, write, truncate, fsync, stat, unlink, mkdir, rmdir, rename, link, symlink, xattr, readdir, locks, mounts, ...) fails with a plausible errno once, several times or for the rest of the operation, writes fill the disk half way, or the disk is full for a stretch of operations. After an operation fails, the whole tree is compared with the model before and after the operation (one must match), files it was writing are read block by block (only blocks in the range being written may fail, in the lite format only after a short write or a truncation), and the history goes on from the state found. An operation that succeeds in spite of a fault must have its full effect.'),
    "F02": dict(title="short transfers and interrupted calls", rule=_SEQ + "; with short transfers and EINTR injected at seeded reads and writes; a run counts only if one fired",
                design='Histories of S01, S02, S06, S07 and S09 with a seeded share (2 to 40 %) of all reads and writes on underlying files (including those of SQLite) transferring only part of what was asked for, or failing with EINTR. Everything must be exactly as without them, down to the stored bytes as decoded by the reader of S09.'),
    "T01": dict(title="modified storage", rule=_TAMPER,
                design='A random tree is built, then seeded modifications of the simulated disk alternate with reads by path and through handles opened before or after, listings, stats and remounts: bit flips, runs of junk, blocks (or header entries) exchanged or duplicated within a file, exchanged together with their checksums, blocks and whole files of other objects put in place, files cut, extended or deleted; positions are biased to headers, block boundaries and block tails. The model knows what every block of every object really contained, so each read, name, attribute and target is either exact or an error, except where the statement excludes it; objects not modified are held to the exact model. Full-format directories are tampered with too, with up to three B-tree levels.'),
    "T02": dict(title="modified names, attributes and configuration", rule=_TAMPER,
                design='Stored names of the lite format are mutated (bits, characters, length), foreign entries of many shapes are added, long name tables are edited (rows dropped, changed, exchanged, added, tables deleted or replaced by junk), link targets and attribute names and values are mutated, exchanged and replaced, in unmounted and live repositories. Every name, target and value shown afterwards must be one the user created; everything not modified must be exact. A fifth of the runs instead open a configuration (current or JSON form with all key derivations and versions, written by an independent encoder) with wrong passwords or key files or after mutations of each of its fields.'),
    "N01": dict(title="secrecy and nonces", rule=_SEQ,
                design='Histories of all modifying operations over both formats (with plain, short and long names), an eighth of them through the real create, chpass and migrate commands, with recognisable random contents, names, targets, attributes, passwords and keys, the same data often written again elsewhere. An observer at the simulated disk sees every single write (also those to SQLite journals and temporary files) and, after every operation, every stored name, target and attribute: no 8 bytes of any secret may occur in them at any offset, nor its hexadecimal or base 32 form. From the writes it decodes nonce and tag of every block, header and attribute by the layout of the format: a nonce may never come back under the same key with another tag, a ciphertext never at another place.'),
    "N02": dict(title="logs and output", rule=_LOG,
                design='Runs of F01 (I/O errors), T01 and T02 (modified storage), S01, S06, K01, K02 (concurrent requests), P01 (passwords), M01 (the whole mount command, with `--log` and `--trace` or `--verbose`) and C04 (create, chpass, info), with the real logger writing to a stream of the simulator at a seeded level, sometimes with sensitive logging allowed, sometimes on a disk that refuses writes now and then or always. Every check of those properties applies, so that logging may not change results. Every line that reaches the stream is scanned, as it is and with its escapes undone, for any 8 bytes of the contents and values of the history and of the keys, and for passwords; so is what commands print. The stream is locked through the simulated flockfile and each print is a point of preemption: every line must be one whole message with one header. What `info` prints is parsed and compared with the true parameters, with and without `--unmask`.'),
    "P01": dict(title="passwords", rule=_PASS,
                design='The real `create`, `chpass` and `info` commands read passwords from a simulated standard input: a pipe that delivers in seeded pieces, or a terminal (settings, isatty, tcsetattr with flushing) whose user types one line whenever one is read. Passwords have 0 to 9000 bytes of any value around the limit of 4000, key files come with and without a password, lines end in a newline, a carriage return or the end of the input, and are mistyped, repeated differently, missing or followed by more; reads fail (EIO, EINTR, EAGAIN) at seeded points. A model of the prompts says which password each command has to use and whether it has to succeed. After each command the configuration is opened with exactly that password, must refuse similar ones and the former one, and must be untouched after a failure; the terminal must have its former settings, and must not echo whenever it is read.'),
    "K01": dict(title="concurrent file operations", rule=_CONC,
                technique="deterministic simulation: seeded schedules of concurrent requests, linearizability against a reference model",
                design='Two to four simulated threads issue FUSE requests on a few shared files (opens, reads, writes, truncations, stats, flushes, fsyncs, closes, attributes; through the same handle, separate handles and several hard links), one to eight bursts per history. A model of the kernel and libfuse decides which requests may be in flight together: inode locks, page locks, the rename lock, libfuse\'s path locks, requests by handle that hold no path lock, releases sent when the last user of a handle leaves. The seeded scheduler preempts at every lock operation and system call (uniformly, or by random priorities changed at random points, with and without writer priority of reader-writer locks). Each call and return is recorded; a depth-first search with memoisation looks for an order of the operations, consistent with real time, that gives every recorded result in the reference model and ends in the state then found by listing and reading everything. None is a violation; the history goes on from the order found, and ends with the remount and storage checks of the sequential properties.'),
    "K02": dict(title="concurrent name space operations", rule=_CONC,
                technique="deterministic simulation: seeded schedules of concurrent requests, linearizability against a reference model",
                design='As K01, with creations, removals, renames, links, lookups, listings and directory handles over few names in few directories (in both formats, with long names in the lite one), open files whose names go away, and objects opened while another thread closes them. In half of the runs over the full format the random generator draws object ids from two or four leading bytes, so that objects share storage directories and shards of the file table. After every burst all names, link counts, contents and attributes are compared, and after unmounting the stored objects are counted. In a sixth of the runs (`free.cpp`) nothing serialises the requests, as for front ends other than the Linux kernel, and two to four threads create, remove, move, link, look up and list the same few names at once, a third of the time mostly moving them between directories in opposite directions: every request then either succeeds or says the name is missing (or taken), no listing has a name twice or one that does not exist, the number of names is what was there plus creations and links minus removals, link counts are the numbers of names, and the same holds after a remount.'),
    "K03": dict(title="memory under concurrency", rule=_CONC, flavour="race",
                technique="deterministic simulation: seeded schedules of concurrent requests, happens-before race detection and a checking allocator",
                design='The histories of K01 and K02 (those of K02 without any serialisation of requests, too), with churn of objects in an almost empty repository and file table evictions, run on a second build in which the repository\'s sources are compiled with -fsanitize=thread while `sim/core/race.cpp` takes the place of the sanitizer\'s runtime: every load, store, atomic, memcpy and use of a cipher or MAC arrives there. Happens-before is built from the simulated mutexes, threads, atomics and requests alone, so a report depends only on the schedule of the run and repeats exactly; a quarantining allocator with byte-precise shadow memory finds accesses to freed or never allocated memory, double releases and writes past the end. Atomics and frees are scheduling points. The scheduler reports deadlocks, misuse of mutexes and requests that do not finish. The linearizability checks of K01 and K02 stay on.'),
    "M01": dict(title="the life of a mount", rule=_LIFE,
                technique="deterministic simulation: seeded schedules of a whole mount process, with stops at seeded moments",
                design='The real command line entry point runs `mount` in a simulated process: argument parsing, the encrypted configuration, its worker, cleanup, waiter and timer threads, signal handlers and self pipe are real, and libfuse\'s session layer is a stand-in that hands requests to whichever worker receives first, honours thread cancellation and installs libfuse\'s own signal handlers. Requests of a history go through it, together with one to three further threads that use the root. After a seeded number of requests the mount is stopped by a signal, two signals, the real `unmount` command (ioctl), a kernel unmount or an error from receiving; setting up the session may fail in three ways first. The end is checked (status, time, teardown, lock and PID file), and the repository, mounted again, must equal the model before or after the request that was in flight, with everything before it. Stored objects are counted at the end. A third of the runs mount with `--background`: posix_spawn, waitpid and the pipe to the child are simulated (descriptors of each process, end of file only when all writers are closed, partial writes), the child runs the real `protomount` command with process-wide state of its own, and the command in the foreground must end at the right time with the right status. A process that dies, or hangs, is a violation as well.'),
    "I01": dict(title="idle mounts", rule=_LIFE,
                technique="deterministic simulation: simulated time, seeded schedules of a whole mount process",
                design='As M01, with limits of 1 s to 1 h of simulated time and pauses between requests around the limit (0.9 to 0.999 and 1.001 to 3 times), further threads with random pauses, and a disk that stalls while mounting. The time between the last request and the end of the session is compared with the limit (50 ms slack), and after a pause longer than the limit the mount must have ended like after a signal.'),
    "L01": dict(title="one mount at a time", rule=_LIFE,
                technique="deterministic simulation: two processes with seeded interleavings",
                design='As M01, over full repositories, with a second simulated process (its own process id) that runs the `mount` command on the same repository at random moments: while it is used, from the moment the mount begins to end, from the moment the lock file goes away. An observer at the simulated disk sees which process opens and changes what. The second process may reach fuse_setup only when the first has ended, and nothing may be changed by the first after the second has taken the lock or opened the file in question; an attempt that is refused may not change anything; after the end an attempt must succeed. Lock files of earlier processes (dead, junk, empty, running) are there at the start of half of the runs.'),
}
