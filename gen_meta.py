#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json
from pathlib import Path
from proptable import PROPS

V = Path(__file__).resolve().parent
BOTH = ["sources/fuse_high_level_ops_base.cpp", "sources/full_format.cpp", "sources/lite_format.cpp"]


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=list(observe), hook_needed=hook))


CB = "results of the FUSE callbacks (fuse_operations table)"
DISK = "system calls and contents of the underlying data directory"
L = [
P("S01", "A file holds exactly the bytes written to it",
  "In both formats, reading any range of a regular file returns exactly what the history of writes, appends, truncations (path and handle), "
  "O_TRUNC opens and extensions determines, with bytes never written reading as zero and reads ending at the end of file, through every open handle and every hard link. "
  "A request that would make a file longer than its format can hold fails and changes nothing. "
  "This holds for every offset, length, block size, IV size and padding size, and again after remounting.",
  ["inputs", "histories", "configurations"],
  "all histories of file operations with arbitrary offsets and lengths over all repository configurations",
  "the unit tests use a few fixed sizes and one block size per stream; whole-system file content is only exercised by simple_test.py against a real mount",
  BOTH + ["sources/streams.cpp", "sources/lite_stream.cpp", "sources/crypto.cpp", "sources/files.cpp"],
  [("block-wise read-modify-write with zero filling", "sources/streams.cpp BlockBasedStream"),
   ("per-block AES-GCM with random padding", "sources/lite_stream.cpp AESGCMCryptStream"),
   ("full format crypto stream", "sources/streams.cpp make_cryptstream_aes_gcm")],
  [("block, IV and padding sizes", "fixed per repository", "protos/params.proto")], [CB]),
P("S02", "The name space behaves like a POSIX directory tree",
  "In both formats, creating, opening, linking, renaming and removing files, directories, symbolic links and hard links has the effect and error "
  "(ENOENT, EEXIST, ENOTDIR, EISDIR, ENOTEMPTY) of a POSIX directory tree; an operation that fails, as one with a name or link target too long to be stored, changes nothing, and open files stay usable after their names go away. "
  "Listings show exactly the current names once each with the right types, and symbolic links return the text they were made with.",
  ["inputs", "histories", "configurations"],
  "all histories of name space operations, names and nesting, over all repository configurations",
  "unit tests perform a handful of creations and renames in an otherwise empty tree",
  BOTH + ["sources/btree_dir.cpp", "sources/files.cpp", "sources/file_table_v2.cpp"],
  [("directory entries in an encrypted B-tree", "sources/btree_dir.cpp"),
   ("encrypted names on the underlying file system", "sources/lite_format.cpp NameTranslator"),
   ("reference counted open objects", "sources/file_table_v2.cpp FileTable")], [], [CB, DISK]),
P("S03", "Large directories never lose, duplicate or misdirect an entry",
  "However many entries a directory holds and in whatever order names of any length and bytes are added, replaced and removed, every lookup finds exactly the right object, "
  "every removed name is gone, and a listing returns each entry exactly once, before and after remounting.",
  ["inputs", "histories"], "all sequences of insertions, replacements and removals, with any names, sizes and remounts",
  "test_btree.cpp inserts and deletes one fixed random list of names and never reopens the tree",
  ["sources/btree_dir.cpp", "sources/btree_dir.h", "sources/full_format.cpp"],
  [("node split, merge and rebalance; free page list", "sources/btree_dir.cpp BtreeDirectory")],
  [("root page, free list", "in the directory's header", "sources/btree_dir.cpp")], [CB]),
P("S04", "Everything survives a clean unmount and remount",
  "After any history followed by a clean unmount, mounting again shows exactly the same tree, contents, attributes and extended attributes. "
  "The data directory then stores exactly the objects that are still reachable: nothing is lost and removed objects, including those removed while open, leave nothing behind.",
  ["histories", "configurations"], "all histories with any number of unmounts and mounts, any set of handles open or objects cached at the time",
  "no test unmounts and remounts a repository with many cached or open objects in it",
  ["sources/file_table_v2.cpp", "sources/files.cpp", "sources/lite_format.cpp"],
  [("flush of live and cached objects at unmount", "sources/file_table_v2.cpp ~FileTable"),
   ("deferred removal of unlinked open objects", "sources/file_table_v2.cpp close_internal")],
  [("live map and cache of closed objects", "file table shards", "sources/file_table_v2.h")], [CB, DISK]),
P("S05", "Mode, owner, times, size and link counts are reported as they were set",
  "stat reports the permission bits, owner and group last set, the exact size, the number of hard links, a stable inode number that no two live objects share, "
  "and the modification and access times last set explicitly (or the current time where UTIME_NOW was asked for, unchanged where UTIME_OMIT was), with a modification updating the modification time. "
  "The owner override options change what is reported and nothing else.",
  ["inputs", "histories", "configurations"], "all histories of attribute changes mixed with content changes, renames, links and remounts",
  "the tests never look at times after a sequence of operations, nor at handles and paths to the same object together",
  BOTH + ["sources/files.cpp", "sources/files.h", "sources/unix.cpp"],
  [("attributes in the encrypted per-object header", "sources/files.cpp"), ("attributes of the underlying file", "sources/unix.cpp")], [], [CB]),
P("S06", "Extended attributes form an exact per-file map",
  "For each regular file, getting an extended attribute returns exactly the value last set, listing returns exactly the names present, removal removes, and XATTR_CREATE, XATTR_REPLACE, "
  "size probes, too small and too large buffers and empty values behave as setxattr(2) and getxattr(2) say, across renames, links and remounts.",
  ["inputs", "histories"], "all histories with any names, values and buffer sizes",
  "the tests set one attribute and read it back",
  ["sources/full_format.cpp", "sources/lite_format.cpp", "sources/xattr_name.cpp", "sources/files.cpp"],
  [("encrypted attribute values", "sources/files.cpp setxattr"), ("wrapped attribute names and values", "sources/lite_format.cpp")], [], [CB]),
P("S07", "Long names in the lite format behave like any other name",
  "In the lite format with long component support, names longer than the threshold can be created, listed, renamed, hard linked and removed exactly like short ones, in any mixture with short names and across remounts, "
  "and each is always listed with its complete name. Directories containing or having contained long names can be removed when empty.",
  ["inputs", "histories", "configurations"], "all histories over long and short names, thresholds and suffixes",
  "one unit test creates and removes a single long name",
  ["sources/lite_long_name_lookup_table.cpp", "sources/lite_format.cpp", "sources/sqlite_helper.cpp"],
  [("per-directory table from hashed to full encrypted name", "sources/lite_long_name_lookup_table.cpp")],
  [(".long_names.db", "SQLite table in each directory holding long names", "sources/lite_format.cpp")], [CB, DISK]),
P("S08", "Case folding and Unicode normalisation modes are consistent",
  "With case-insensitive or normalisation-insensitive names enabled, two names that are equivalent under the mode always denote the same object for every operation, no directory ever holds two equivalent names, "
  "and names that are not equivalent stay distinct.",
  ["inputs", "histories", "configurations"], "all histories over names in any script, case and normalisation form",
  "the tests try a few ASCII names",
  ["sources/lite_format.cpp", "sources/btree_dir.cpp", "sources/full_format.cpp", "sources/myutils.cpp"],
  [("name comparison functions", "sources/full_format.cpp / sources/btree_dir.cpp"), ("name transformation before encryption", "sources/lite_format.cpp")], [], [CB]),
P("S09", "What is stored conforms to the repository format",
  "After any history and a clean unmount, the bytes in the data directory decode, by the published layout of the full and lite formats and nothing else, to exactly the tree the user sees: names, types, link counts, "
  "contents after padding, attributes, extended attributes, link targets and long names. Repositories therefore stay readable by other releases with the same keys, and directories are well-formed trees.",
  ["inputs", "histories", "configurations"], "all histories over all repository configurations",
  "the tests read a handful of repositories made by old releases and never check what this release writes",
  BOTH + ["sources/streams.cpp", "sources/lite_stream.cpp", "sources/btree_dir.cpp", "sources/files.cpp", "sources/crypto.cpp", "sources/xattr_name.cpp"],
  [("full format: data and meta file per object, header, HMAC", "sources/streams.cpp, sources/files.cpp"), ("lite format: stream header, per-block layout, AES-SIV names", "sources/lite_stream.cpp, sources/lite_format.cpp")],
  [], [DISK]),
P("C01", "A process crash never damages lite repositories beyond the write in flight",
  "If the process dies at any point, including half way through a write to the disk, remounting a lite repository shows every operation that had completed, the interrupted operation either entirely or not at all in the name space, "
  "and for a file the interrupted operation was writing, data that was written to it at some time in each block, or an error where a block was half written: never garbage. "
  "Files, names and long names the interrupted operation did not touch are intact, everything visible can be removed, and the repository keeps working.",
  ["crash_points", "histories", "configurations"], "process death after any system call of any operation in any history, with the last write cut at any page of the file",
  "no test interrupts an operation",
  ["sources/lite_format.cpp", "sources/lite_stream.cpp", "sources/streams.cpp", "sources/lite_long_name_lookup_table.cpp", "sources/sqlite_helper.cpp"],
  [("every block is written whole with its own IV and tag", "sources/lite_stream.cpp"), ("SQLite transaction around long name changes", "sources/lite_long_name_lookup_table.cpp")], [], [CB, DISK]),
P("C02", "A process crash never damages files at rest in full repositories",
  "If the process dies at any point, every file and directory of a full format repository that had not been changed since it was last written back (closed or fsynced) is still stored completely and authentically: content, attributes, extended attributes and HMAC. "
  "Directories not changed since list exactly the same entries, and blocks of open files the interrupted operation was not writing stay authentic. "
  "If the root directory was not being changed, the repository mounts and everything reachable through unchanged directories works.",
  ["crash_points", "histories", "configurations"], "process death after any system call of any operation in any history, with the last write cut at any page of the file",
  "no test interrupts an operation",
  ["sources/files.cpp", "sources/file_table_v2.cpp", "sources/btree_dir.cpp", "sources/streams.cpp", "sources/full_format.cpp"],
  [("one data and one meta file per object", "sources/file_table_v2.cpp"), ("HMAC over block tags in the meta file", "sources/streams.cpp")], [], [CB, DISK]),
P("C03", "What fsync acknowledged survives a power loss",
  "Once fsync of a file has returned success, the content the file had at that time is still stored, readable and authentic after a power loss that keeps only data the system forced to stable storage, "
  "except where later writes replaced it; if nothing touched the file since, so are its attributes and extended attributes. In the lite format the file is found under one of the names it had since.",
  ["crash_points", "histories", "fault_sequences"], "power loss at any point of any history, with any subset of unsynced system calls lost and writes torn",
  "no test can cut the power",
  ["sources/full_format.cpp", "sources/lite_format.cpp", "sources/files.cpp", "sources/streams.cpp", "sources/unix.cpp"],
  [("fsync forwarded to the underlying files", "vfsync in sources/full_format.cpp and sources/lite_format.cpp")], [], [CB, DISK]),
P("C04", "Creating a repository and changing its password are all or nothing",
  "Creating a repository makes one of the asked for form, with fresh keys, which opens with the given password and key file only. Where there is a repository already, creating one fails and changes nothing. "
  "Changing password or key file makes the new credentials work and the old ones fail, and changes neither keys, parameters nor contents; with wrong old credentials it fails and changes nothing. "
  "Interrupted at any point by a crash, a power loss or an I/O error, a change leaves a repository that opens with either the old or the new credentials, with the same contents, and a creation leaves either the repository or a directory in which it can be created by trying again; "
  "a command that reports success after an I/O error has had its full effect.",
  ["crash_points", "fault_sequences", "inputs", "configurations"], "all passwords, key files, forms of repository, interruption points and I/O errors",
  "the tests change a password once without interruption",
  ["sources/commands.cpp", "sources/params_io.cpp"],
  [("new configuration written to a temporary file and renamed", "sources/commands.cpp"), ("key wrapping by password and key file", "sources/params_io.cpp")],
  [(".config.pb / .securefs.json", "the encrypted master keys", "sources/commands.cpp")], ["commands run through their command line entry points", DISK]),
P("P01", "The password that was entered is the one that counts",
  "A password given as an option, through a pipe or at a terminal is used as it is, whatever its bytes and up to 4000 of them, with or without a key file; what opens a repository afterwards is that password and no other. Each prompt takes one line. "
  "When a password is too long, is repeated differently at a terminal, or cannot be read completely because reading fails, the command fails and changes nothing. "
  "A terminal never shows a password while it is read, and has its former settings when the command returns, also when it fails.",
  ["inputs", "fault_sequences", "configurations"], "all passwords, ways to enter them, mistakes and points where reading fails",
  "the tests pass short passwords without a terminal",
  ["sources/unix.cpp", "sources/commands.cpp", "sources/params_io.cpp"],
  [("reading passwords", "sources/unix.cpp OSService::read_password_no_confirmation"), ("which prompts there are", "sources/commands.cpp")],
  [(".config.pb", "the encrypted master keys", "sources/commands.cpp")], ["standard input and terminal", "commands run through their command line entry points"]),
P("C05", "Migrating long names preserves the repository",
  "Migrating a lite repository to another suffix for long names, or to the support of long names, leaves every file, directory, name and attribute as it was, whatever the tree. "
  "Where it is not possible (full format, symbolic links in a repository without long names, wrong credentials) it fails and changes nothing. "
  "Interrupted at any point by a crash, a power loss or an I/O error, it leaves a repository that opens with its credentials, and running it again completes it.",
  ["crash_points", "fault_sequences", "histories", "configurations"], "all trees, suffixes, interruption points and I/O errors",
  "the tests migrate one small tree without interruption",
  ["sources/commands.cpp", "sources/lite_format.cpp", "sources/lite_long_name_lookup_table.cpp"],
  [("change_long_name_suffix", "sources/lite_format.cpp"), ("MigrateLongNameCommand", "sources/commands.cpp")],
  [(".long_names.db", "the encrypted long names of a directory", "sources/lite_long_name_lookup_table.cpp")], ["commands run through their command line entry points", DISK]),
P("F01", "An I/O error damages nothing but the operation that met it",
  "When a system call on the data directory fails, the operation that needed it either has its full effect or reports an error, and an error leaves the name space and attributes as they were before the operation or as they would be after it; "
  "a listing is complete or fails. The process never crashes or hangs, other objects keep their contents and names, and once the errors stop, everything works again. "
  "Only blocks that the failing operation was writing or cutting off may be lost (they then read as an error), and in the full format errors are assumed to hit the first of the two writes that store a block and its checksum, or both. "
  "A mount that meets an error fails and can be repeated.",
  ["fault_sequences", "histories", "configurations"], "any errno from any system call at any point in any history",
  "no test makes a system call fail",
  BOTH + ["sources/unix.cpp", "sources/files.cpp", "sources/file_table_v2.cpp", "sources/lite_long_name_lookup_table.cpp"],
  [("exceptions translated to errno at the callback boundary", "sources/fuse_high_level_ops_base.cpp")], [], [CB, DISK]),
P("F02", "Short transfers and interrupted calls are invisible",
  "When reads and writes on underlying files transfer fewer bytes than asked for, or are interrupted by signals, as POSIX allows, every operation still behaves exactly as it does without them.",
  ["fault_sequences", "histories", "configurations"], "any pattern of short transfers and EINTR",
  "no test makes a transfer short",
  ["sources/unix.cpp"], [("positional read and write wrappers", "sources/unix.cpp UnixFileStream")], [], [CB]),
P("T01", "Modified ciphertext is never returned as file content",
  "With integrity verification on, whatever is done to the stored bytes of files, and in the full format also of directories, links and their headers (changed bits, overwritten, exchanged, duplicated or cut-off blocks and files, blocks of other objects), "
  "reading returns only content, names, attributes and link targets that this object really had at the time, or fails; it never returns anything else and never crashes the process. "
  "Objects whose stored bytes were not changed read as before, and an object of the full format whose stored data and checksums were changed before it is opened fails as a whole or reads exactly. "
  "The formats do not protect the following, which is excluded: cutting off a lite file at its end or a whole lite file put in place of another, blocks overwritten with zeros (which is what a hole looks like), bringing back older stored bytes, and, in the full format, blocks or checksums of one object exchanged among each other while it is in use.",
  ["inputs", "fault_sequences", "configurations"], "any modification of stored data at any time while unmounted or mounted",
  "the tests flip one byte of one stream",
  ["sources/lite_stream.cpp", "sources/streams.cpp", "sources/files.cpp", "sources/crypto.cpp", "sources/btree_dir.cpp"],
  [("AES-GCM tag per block bound to its index", "sources/lite_stream.cpp"), ("HMAC of the meta file bound to the file id", "sources/streams.cpp")], [], [CB, DISK]),
P("T02", "Modified names, attributes and configuration are never accepted as genuine",
  "Changing the stored form of a name, symbolic link target or extended attribute of the lite format (including long name tables), or of an extended attribute of the full format, or adding foreign entries and attributes, never makes a name, target or value appear "
  "that the user did not create, never crashes the process, and does not affect other objects or hide other names. Genuine names, targets and (in the lite format) attribute values may be moved to where others were, because the format does not bind them to their place. "
  "The configuration only opens with its own password and key file, and a modified configuration never opens with keys or parameters other than the ones stored in it (block, IV and padding sizes of the old JSON form are not protected).",
  ["inputs", "fault_sequences", "configurations"], "any modification of stored names, links, attributes and configuration",
  "no test modifies stored names or configuration",
  ["sources/lite_format.cpp", "sources/params_io.cpp", "sources/crypto.cpp", "sources/full_format.cpp"],
  [("AES-SIV for names", "sources/lite_format.cpp"), ("authenticated wrapping of the master keys", "sources/params_io.cpp")], [], [CB, DISK]),
P("N01", "Nothing secret reaches the disk in clear and no nonce is used twice",
  "File contents, names, link targets, attribute names and values, passwords and master keys never appear unencrypted in the data directory (names and targets may if plain text names were chosen), not even for a moment; "
  "every block, header and attribute value is encrypted under a nonce never used before with its key, every lite file has its own id (and hence key), every configuration its own salt and nonce, "
  "and writing the same content or attribute value twice never yields the same stored bytes. (Names and link targets are encrypted deterministically by design, and holes are visible.)",
  ["inputs", "histories", "configurations"], "all histories and configurations",
  "the tests do not inspect what is stored",
  ["sources/lite_stream.cpp", "sources/streams.cpp", "sources/crypto.cpp", "sources/lite_format.cpp", "sources/files.cpp", "sources/params_io.cpp"],
  [("random IV per block write", "sources/lite_stream.cpp, sources/streams.cpp")], [], [DISK]),
P("N02", "Logs and output reveal no contents, and logging changes nothing",
  "Unless sensitive logging is allowed, nothing that is logged, at any level and whatever fails, contains contents of files or values of extended attributes; passwords and keys are never logged or printed, except that the info command prints keys when asked to unmask them. "
  "The info command otherwise shows the parameters of the repository as they are. Messages of different threads never mix. "
  "Requests and commands have the same results with tracing as without, also when the log cannot be written.",
  ["inputs", "histories", "schedules", "fault_sequences"], "all histories, failures, levels and interleavings",
  "no test looks at what is logged",
  ["sources/fuse_tracer_v2.cpp", "sources/fuse_tracer_v2.h", "sources/fuse_high_level_ops_base.cpp", "sources/logger.cpp", "sources/commands.cpp"],
  [("redacted buffers", "sources/fuse_high_level_ops_base.cpp"), ("locked log file", "sources/logger.cpp"), ("masking of keys", "sources/commands.cpp")], [], [CB, "log file, standard output and standard error"]),
P("K01", "Concurrent file operations are linearizable",
  "Operations issued concurrently on the same and different files, through the same and different handles, behave as if each took effect at one instant between its call and return: "
  "no torn reads, no lost updates, no stale sizes. (A size reported by the lite format while another thread changes it may be in between.)",
  ["schedules", "histories", "configurations"], "every interleaving of concurrent requests the kernel may issue",
  "the tests issue requests from one thread",
  BOTH + ["sources/files.h", "sources/file_table_v2.cpp", "sources/lite_format.h"],
  [("per-object mutex", "sources/files.h LockGuard<FileBase>"), ("per-stream lock in the lite format", "sources/lite_format.h File")], [], [CB]),
P("K02", "Concurrent name space operations are linearizable",
  "Concurrent creations, removals, renames, links, lookups and listings behave as if executed one after the other, no entry is lost or duplicated, "
  "objects stay usable while open even if their names go away or they are reopened concurrently, and removed objects are reclaimed. Names and link counts also stay consistent if the caller does not serialise requests on the same directory.",
  ["schedules", "histories", "configurations"], "every interleaving of concurrent requests the kernel may issue",
  "the tests issue requests from one thread",
  BOTH + ["sources/file_table_v2.cpp", "sources/btree_dir.cpp", "sources/lite_long_name_lookup_table.cpp"],
  [("directory locks and ordered locking for rename", "sources/full_format.cpp"), ("sharded file table with reference counts", "sources/file_table_v2.cpp")], [], [CB, DISK]),
P("K03", "No schedule deadlocks, races on memory or uses freed objects",
  "Under every schedule of concurrent requests, background work and unmount, every request finishes once the others do, no two threads access the same memory without synchronisation, "
  "and no object is used after it was freed.",
  ["schedules", "histories", "configurations"], "every interleaving of concurrent requests, timers and unmount",
  "the tests are single threaded",
  ["sources/file_table_v2.cpp", "sources/files.h", "sources/lite_format.cpp", "sources/full_format.cpp", "sources/resettable_timer.cpp", "sources/thread_local.cpp"],
  [("lock ordering in rename and link", "sources/full_format.cpp"), ("file table closers", "sources/file_table_v2.cpp")], [], [CB]),
P("M01", "Mounting and stopping: what was done stays, nothing is left behind",
  "`securefs mount` serves requests until it is told to stop by SIGINT, SIGTERM or SIGHUP, by `securefs unmount` or by the kernel, at any moment, also while it starts, while requests are in flight and while files are open. "
  "The command then returns within 20 s, with status 0 (not 0 when receiving requests failed or when mounting failed), has torn down the FUSE session and removed its lock file and PID file; every request that was answered, "
  "and nothing else but the request that was in flight, is in the repository when it is mounted again, and storage of files that were unlinked while open is gone. A signal never kills the process without that. "
  "A mount command that meets an error of the operating system works all the same, or fails with a status other than 0, leaves no session, PID file or owned lock file behind, and the repository can be mounted afterwards. "
  "The options that the file system semantics rely on (hard_remove, atomic_o_trunc, big_writes, and use_ino for the full format) are passed to FUSE, and `ismount` tells whether it is mounted. "
  "With --background the command starts a process that serves, without passing it secrets as arguments, and returns 0 soon after the mount is usable; if that process ends before, it returns that status and not 0.",
  ["schedules", "histories", "configurations", "fault sequences"], "every moment and way of stopping a mount, under every interleaving of its threads",
  "the tests stop idle mounts only, and the moments that matter are narrow",
  ["sources/fuse2_workaround.cpp", "sources/internal_mount.cpp", "sources/commands.cpp", "sources/fuse_high_level_ops_base.cpp", "sources/file_table_v2.cpp"],
  [("worker threads, self pipe and cleanup", "sources/fuse2_workaround.cpp"), ("child process and pipe", "sources/unix.cpp OSService::execute_child_process_with_data"), ("unmount through an ioctl", "sources/fuse_high_level_ops_base.cpp"), ("flush at the end", "sources/file_table_v2.cpp")], [], [CB, DISK]),
P("I01", "An idle mount ends by itself, and only an idle one",
  "With --max-idle-seconds N, the mount ends by itself once no request came in for N seconds, in the same way as after a signal, and not before. Without the option, or with 0, it never ends by itself.",
  ["schedules", "histories", "times"], "every pattern of requests in time, and every interleaving of the timer with them",
  "time cannot be waited for in tests, and the timer races with requests",
  ["sources/resettable_timer.cpp", "sources/resettable_timer.h", "sources/fuse_hook.cpp", "sources/fuse_hook.h", "sources/internal_mount.cpp"],
  [("timer thread", "sources/resettable_timer.cpp"), ("activity notification", "sources/fuse_hook.h")], [], [CB]),
P("L01", "A full repository is served by one mount at a time",
  "While a full repository is mounted, until the last byte of that mount is written, another process that tries to mount it is refused with an error and changes nothing in the repository. "
  "Of two processes that begin to mount at the same time, exactly one serves. "
  "Once the mount has ended, or its process has died leaving its lock file behind, the repository can be mounted again, also by a process that happens to have the same ID; a lock file of another process that still runs is respected.",
  ["schedules", "histories"], "every interleaving of one process ending its mount with another one that tries to mount",
  "the tests never run two mounts of one repository, and the windows are narrow",
  ["sources/full_format.h", "sources/full_format.cpp", "sources/internal_mount.cpp"],
  [("RepoLocker", "sources/full_format.cpp"), ("order of lock and file table", "sources/internal_mount.cpp")], [], [CB, DISK]),
]
KEEP = {p["id"] for p in L}
NOT_YET = {}


def main():
    with open(V / "properties.jsonl", "w") as f:
        for p in L:
            f.write(json.dumps(p, ensure_ascii=True) + "\n")
    checks, na = [], []
    for p in L:
        i = p["id"]
        if i in PROPS:
            q = PROPS[i]
            checks.append(dict(
                property=i, quick_cmd=f"python3 check.py {i} --tier quick",
                thorough_cmd=f"python3 check.py {i} --tier thorough",
                technique=q.get("technique", "deterministic simulation: seeded histories checked against a reference model"),
                level="exploration",
                level_note=q.get("level_note", "Seeded search, not exhaustive: the property held on every simulated run counted in the evidence. "
                                 "Trusts the simulated disk, the kernel model and the reference model.")))
        else:
            na.append(dict(property=i, reason=NOT_YET.get(i, "the simulation of this property is not finished")))
    m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na)
    (V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


main()


def design():
    s = (V / "design_src.md").read_text()
    rows = []
    for p in L:
        i = p["id"]
        d = PROPS.get(i, {}).get("design", "not finished yet")
        rows.append(f"**{i} {p['title']}.** {d}\n")
    s = s.replace("@TABLE@", "\n".join(rows)).replace("@SEEDS@", (V / "seeds.md").read_text().strip())
    (V / "DESIGN.md").write_text(s)


design()
