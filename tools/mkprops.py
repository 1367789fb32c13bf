#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code only because JSON lines are unpleasant to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Restoring a backup reproduces every backed-up path exactly",
  "After a backup of any tree completes successfully and the originals are lost, restoring the latest backup recreates every backed-up regular file, symlink and directory with identical content or link target, permission bits (including set-id and sticky bits), owner, group and, for files and directories, modification time in whole seconds. This holds for every policy, file size, legal file name or link target, owner id and timestamp, and nothing else is created. Directories which only lead to a backed-up path are recreated when missing, with their recorded owner and permissions.",
  ["inputs", "configurations"],
  "All file trees (names and targets of any legal bytes, empty/inline/large files, every permission value, uid/gid, negative and 64-bit timestamps, sparse and multi-block files) under copy, mirror, track and mixed configurations.",
  "The suite has no test which restores anything; its full program tests only compare the output and the repository of a few fixed trees, all owned by the tester.",
  ["src/backup.c", "src/restore.c", "src/metadata.c", "src/repository.c", "src/file-hash.c", "src/safe-wrappers.c", "src/nb.c"],
  [("setPathHistoryState records the attributes", "src/backup.c"), ("addFileToRepo/copyFileIntoRepo store content", "src/backup.c"), ("metadataWrite/metadataLoad", "src/metadata.c"), ("restorePath/restoreFile", "src/restore.c")],
  ["tree snapshot before the backup against the tree after 'nb REPO 0'"])

p("C02", "Restore repairs a modified tree in place and touches nothing else",
  "Restoring onto a tree which was changed since the backup (content, type, owner, permissions, timestamps, link targets, removals, replacement by links, directories or special files) leaves every restored path exactly in its backed-up state. Paths which do not belong to the restored selection, including whatever a symlink found in the way points to and whatever shares a hard link with a restored path, keep their content and attributes; only what lies inside a directory that has to give way to a file or link is removed. Paths which already are in their backed-up state are neither rewritten nor replaced, and directories which merely lead to backed-up paths are created only when missing. A symlink to a directory in place of a recorded directory is followed, as during backups.",
  ["inputs", "histories"],
  "All pairs of a backed-up tree and an arbitrary later modification of it, for whole-backup and single-path restores. Paths with several hard links, among each other or with what is not restored, are included; paths recorded under two names through symbolic links are excluded, and the user is permitted to make the changes.",
  "No existing test runs a successful restore; the in-place branches of restore.c are executed by nothing in the suite.",
  ["src/restore.c", "src/backup-helpers.c", "src/safe-wrappers.c"],
  [("checkAndHandleChanges finds what differs", "src/restore.c"), ("finishRestoreRecursively applies it", "src/restore.c")],
  ["full snapshot (lstat, content, inode, ctime) before and after the restore", "system call trace of the restore"])

p("C03", "Every numbered backup of tracked paths stays restorable as it was",
  "For tracked paths, restoring backup number N reproduces each path as it was when the N-th latest backup was made: same type, content, target, owner, permissions and timestamp, and paths which did not exist then are not created. No later backup, garbage collection or policy-neutral configuration change alters what an already made backup of tracked paths restores to, other than shifting its number by one per new backup; backups to which no recorded version belongs any more are not counted. A path removed together with a parent which is not tracked itself is excepted: its history ends at its last state or is forgotten with the parent. Copied and mirrored paths ignore the number and restore to their latest recorded state.",
  ["histories", "inputs"],
  "All histories of backups with creations, content and attribute changes, type changes, removals and re-creations between them, and every number up to the oldest backup.",
  "Tests check the in-memory history after a few hand-made backups; restoring an older number is not tested at all and the number of possible histories is unbounded.",
  ["src/backup.c", "src/restore.c", "src/metadata.c", "src/nb.c"],
  [("track branch of handleFoundNode prepends history points", "src/backup.c"), ("markAsRemovedRecursively appends removals", "src/backup.c"), ("metadataWrite renumbers referenced backups", "src/metadata.c"), ("searchPathState selects by backup id", "src/restore.c")],
  ["snapshots taken at every backup against the tree after 'nb REPO N'"],
  [("backup ids", "0 is the newest, unreferenced backups vanish and the rest is renumbered", "src/metadata.c")])

p("C04", "Each policy keeps exactly what it promises over any history of backups",
  "After every backup in any sequence of tree changes and configuration changes, the repository records for each path exactly what its current policy promises: copy keeps the latest recorded version even after the path is removed, mirror forgets removed paths, track keeps the full history of changes and removals. (A path removed together with a leading directory which has no policy of its own, or with a copied one, keeps its last state.) A path which the configuration no longer covers or now ignores is forgotten entirely, leaving track for another policy keeps only the latest existing state, and entering track starts a history from there. (What was recorded below a path whose latest version is no directory counts as older history of it and goes when it leaves track.) The recorded state of a found path always equals its state on disk at the last backup which was confirmed.",
  ["histories", "configurations"],
  "All sequences of backups over arbitrary changes of the tree (including file type changes at any level) and of the configuration (policies, ignores, added and dropped rules). Changes of content which keep the size come with another timestamp in whole seconds.",
  "Unit tests hand-build a fixed list of transitions on single nodes; interactions of type changes, policy changes, nested rules and several rounds are sampled, not covered.",
  ["src/backup.c", "src/backup-helpers.c", "src/search.c", "src/metadata.c"],
  [("handleRemovedPath, handlePolicyChanges, handleFoundNode", "src/backup.c"), ("handleNotFoundSubnodes", "src/backup.c"), ("applyNodeChanges", "src/backup-helpers.c")],
  ["the metadata file after every backup, read by an independent parser, against an executable model"],
  [("path history", "list of states, newest first, per path", "metadata file")])

p("C05", "A backup contains exactly the paths the configuration selects",
  "A backup records exactly the existing files, symlinks and directories which the configuration selects: each configured path and, recursively, what lies below it, minus entries matched by an ignore expression unless a rule names them explicitly, plus the directories leading there; other file types are skipped. The rule for the most specific configured path decides the policy, expressions after a double slash are POSIX extended expressions matched against single path elements, and symlinks are followed only where they are a parent of a configured path. Two rules which match the same path end the backup with an error instead of picking one.",
  ["configurations", "inputs"],
  "All configurations (nested, overlapping, with expressions at any depth, ignore lists) over all trees.",
  "Tests use one fixture tree with a few fixed configurations; the rule/tree product is unbounded.",
  ["src/search-tree.c", "src/search.c", "src/backup.c", "src/safe-wrappers.c", "src/str.c"],
  [("searchTreeParse builds rules and inherits policies", "src/search-tree.c"), ("finishSearchStep/finishCurrentNode match entries", "src/search.c")],
  ["path list and policies in the metadata against an independent selection model"])

p("C06", "Bad configurations are rejected precisely; rules which match nothing are named",
  "A configuration which is malformed (unknown policy, pattern before any policy, relative or dotted path, path defined twice, invalid expression) ends the backup with a nonzero status and a message naming the first offending line, and one with null-bytes with a message saying so, before anything in the repository is changed. Every accepted configuration means the same no matter how it is laid out: byte order mark, comments, blank lines, missing final newline, trailing slashes and rule order change nothing. Rules which match nothing, or something other than the directory they need, are reported with their line number, and no rule which did match is.",
  ["configurations"],
  "All byte strings as configuration, in particular all single-fault variations of valid ones and all layouts of the same rules.",
  "Tests parse a handful of fixed files.",
  ["src/search-tree.c", "src/informations.c", "src/safe-wrappers.c", "src/nb.c"],
  [("searchTreeParse", "src/search-tree.c"), ("printSearchTreeInfos", "src/informations.c"), ("sRegexCompile", "src/safe-wrappers.c")],
  ["exit status, standard error, repository before/after"])

p("C07", "A backup killed at any moment loses nothing and the next one completes",
  "If a backup or a garbage collection is killed at any point, the repository afterwards describes either the state before or the complete new state, and every version the described backups need is present and intact, so all of them can be restored. The next backup succeeds without any manual repair, however often this happens, and ends in the same recorded state as if the interrupted run had never been started. Leftovers of interrupted runs neither block later runs nor stay behind after the next successful backup which changes something, or a garbage collection.",
  ["crash_points", "histories"],
  "Every system call which changes the file system during a backup or garbage collection as kill point (before and after it), over histories which include earlier interrupted runs.",
  "Tests never kill the program; there are as many crash points as system calls in a run.",
  ["src/repository.c", "src/backup.c", "src/metadata.c", "src/garbage-collector.c", "src/nb.c"],
  [("write to tmp-file, sync, rename", "src/repository.c repoWriterClose"), ("blobs before metadata, metadata before garbage collection", "src/nb.c backup"), ("stale lock files are harmless", "src/repository.c repoLock")],
  ["system call trace with a kill at every mutating call, then integrity, restore and a further backup"])

p("C08", "A power loss during a backup leaves a complete old or new repository",
  "If power is lost at any moment of a backup or garbage collection which started from a repository that is safely on disk, then, whatever subset of the not yet synchronised changes survived, the repository describes either the previous or the new set of backups, complete with every stored version they need. Once a backup has reported success by exiting with status zero, its data survives a power loss.",
  ["crash_points", "fault_sequences"],
  "Every prefix of the write, rename, mkdir, unlink and sync operations of a run, combined with the states a POSIX file system may leave behind there: lost or partial unsynchronised file data and lost unsynchronised directory entries.",
  "Nothing in the suite observes what is synchronised when; a missing or misplaced sync passes every test.",
  ["src/repository.c", "src/safe-wrappers.c", "src/metadata.c", "src/nb.c", "src/garbage-collector.c"],
  [("fTodisk before rename, fDatasync of directories after", "src/repository.c repoWriterClose"), ("order blobs, metadata, garbage collection", "src/nb.c")],
  ["recorded system calls replayed into a model of a disk with volatile caches"])

p("C09", "After any failing operation nothing is lost and success is not reported",
  "If any file operation or allocation of memory of a backup, garbage collection, integrity check or restore fails, or an operation transfers only part of its data, the run either still does its whole job or ends with a nonzero status and an error message. In both cases the repository keeps describing a complete old or new state whose stored versions are all intact, and once the fault is gone the next run succeeds. A short read, short write or failed sync never ends up as wrong stored or restored content under a zero exit status.",
  ["fault_sequences", "crash_points"],
  "Every system call of a run as failure point with the errors it may return (no space, I/O error, no permission, interrupted, too many files) every transfer shortened, and every allocation of memory refused; single and persistent.",
  "Tests cannot make a chosen system call fail; only a few missing-file errors are tested.",
  ["src/safe-wrappers.c", "src/repository.c", "src/error-handling.c", "src/nb.c", "src/restore.c", "src/garbage-collector.c", "src/integrity.c"],
  [("every wrapper dies on failure", "src/safe-wrappers.c"), ("fTodisk and sFclose results are checked", "src/repository.c")],
  ["injected system call results, then exit status, repository and restored tree"])

p("C10", "Files changing during a backup never end up as wrong stored data",
  "If files are modified, truncated, extended, replaced, removed or created while a backup runs, the backup either ends with a nonzero status, leaving the previous state in place, or every version it recorded is intact: the stored content matches its recorded size and checksum and passes the integrity check. The same holds for changes made while the confirmation prompt waits. Content recorded for a file is content the file had during the backup.",
  ["schedules", "inputs"],
  "All interleavings of one external modification (and short sequences of them) with the system calls of a backup.",
  "Tests are single-process; nothing modifies a file between two steps of a backup.",
  ["src/backup.c", "src/backup-helpers.c", "src/file-hash.c", "src/safe-wrappers.c"],
  [("size and end-of-file checks while reading", "src/backup.c copyFileIntoRepo, src/file-hash.c"), ("mtime check in addFileToRepo", "src/backup.c"), ("link size check", "src/safe-wrappers.c sSymlinkReadTarget")],
  ["modifications performed between chosen system calls, then integrity check and stored content"])

p("C11", "Equal content is stored once, different content never shares a stored file",
  "All recorded versions with equal content refer to one stored file (unless another file with the same checksum and size was collected in between), and versions with different content never do, even when their checksums and sizes collide. A stored file is never changed once it is in place: later backups only add or, when nothing refers to it any more, remove stored files. When a new file cannot be stored under its own name because every place for its checksum is taken, the backup fails instead of reusing one.",
  ["inputs", "histories"],
  "All sets of files and histories, with checksums as they are and with checksums weakened until most files collide.",
  "Checksum collisions cannot be produced with real files, so the slot search is only tested with hand-made repositories.",
  ["src/backup.c", "src/repository.c", "src/file-hash.c"],
  [("searchFileDuplicates compares byte by byte and picks the next slot", "src/backup.c"), ("fillPathBufferWithInfo derives the name", "src/repository.c")],
  ["stored files and metadata after each backup of builds with a weakened checksum; inodes and content of stored files over time"])

p("C12", "Garbage collection removes exactly what no recorded version needs",
  "After garbage collection, and after every backup that changed something, the repository contains its configuration, its metadata, every stored file any recorded version refers to, unchanged, and otherwise nothing but the directories leading to them and a lock file. It reports the total size of what it removed. It never follows symbolic links out of the repository and never removes or changes anything outside of it.",
  ["histories", "inputs"],
  "All repository states reachable by backups, interrupted runs and foreign files, directories and links of any kind dropped into them, at any spelling of the repository path. Links and files planted at the places which the collector expects stored files in count as stored files and are excluded while a backup runs.",
  "Tests run the collector on a few small repositories; foreign content, links and interrupted runs are hardly covered.",
  ["src/garbage-collector.c", "src/safe-wrappers.c", "src/nb.c"],
  [("populateTableRecursively and shouldBeRemoved", "src/garbage-collector.c"), ("sRemoveRecursivelyIf", "src/safe-wrappers.c")],
  ["directory listing and content of repository and surroundings before/after"])

p("C13", "The integrity check finds every damaged stored file and nothing else",
  "The integrity check exits with zero and reports a healthy repository exactly if every stored file needed by any recorded version exists as a regular file with the recorded size and content. Otherwise it exits nonzero and lists exactly the paths which have at least one damaged version in their history, each once. It changes nothing in the repository.",
  ["inputs", "histories"],
  "All repositories and all damages: single bit flips anywhere, truncation, extension, removal, replacement by other types, swapped files, any number of them, in current and in historic versions.",
  "Tests flip a handful of stored files of one fixture.",
  ["src/integrity.c", "src/file-hash.c", "src/nb.c"],
  [("storedFileIsHealthy", "src/integrity.c"), ("result cache by stored path", "src/integrity.c historyPointIsHealthy")],
  ["damage planted by the harness against the reported list"])

p("C14", "Corrupt metadata is refused without harm",
  "A metadata file which is damaged or malicious in any way is either refused with a nonzero status and a message, or is a well-formed description which is processed as such; it never makes the program crash, hang or access memory it must not. When it is refused, no command changes anything in the repository or the file system. No file name in it can make a restore touch a path outside of the tree the name is listed under.",
  ["inputs"],
  "All byte strings as metadata: truncations, bit flips, extreme lengths and counts, bad ids, types and policies, hostile names, deep nesting, trailing bytes; for all commands.",
  "Tests load nine broken files for the unit under test; the space of byte strings is unbounded and only one build without sanitizers runs.",
  ["src/metadata.c", "src/nb.c", "src/restore.c", "src/safe-math.c", "src/safe-wrappers.c"],
  [("assertBytesLeft, name checks, id range check, trailing byte check", "src/metadata.c")],
  ["exit status, signals, sanitizer reports, before/after snapshots, agreement with an independent parser"])

p("C15", "No command triggers undefined behaviour or a memory error",
  "No command, with any arguments, configuration, file tree, repository content or standard input, reads or writes memory outside of live objects, uses uninitialised values in decisions or output, or performs other undefined behaviour. Every run ends by exiting with status 0 or 1, never by a signal or an abort.",
  ["inputs", "configurations"],
  "All command lines, configurations, trees, prompts and repository contents; unusual ones in particular: very long paths and lines, non-UTF-8 bytes, odd arguments, extreme sizes and times, growth of every internal buffer.",
  "The suite runs without sanitizers on small well-formed inputs, so silent memory errors pass.",
  ["src/str.c", "src/string-table.c", "src/allocator.c", "src/safe-wrappers.c", "src/safe-math.c", "src/search-tree.c", "src/search.c", "src/informations.c", "src/nb.c", "third-party"],
  [("StringView bounds, region allocation, growable buffers", "src/str.c, src/allocator.c, third-party/CRegion"), ("overflow checked arithmetic", "src/safe-math.c")],
  ["AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer builds, exit status"])

p("C16", "Two commands never work on one repository at the same time",
  "Of any number of commands started on the same repository at most one at a time reads or changes its metadata and stored files; the others end with a nonzero status and a message that the repository is in use, without having changed anything. The lock is gone as soon as its owner has ended, in whatever way, and a left-over lock file blocks nobody. Reading commands on a read-only file system work without a lock.",
  ["schedules", "crash_points"],
  "All interleavings of the file system calls of two or three concurrent commands, with owners exiting, failing or being killed.",
  "Tests start one process; the race windows around taking and dropping the lock are a few system calls wide.",
  ["src/repository.c", "src/nb.c"],
  [("repoLock/cleanupLockfile", "src/repository.c"), ("lock taken before the metadata is read", "src/nb.c")],
  ["traces of interleaved processes scheduled call by call: overlap of their repository accesses"],
  [("lockfile", "advisory record lock on REPO/lockfile, removed on release", "src/repository.c")])

p("C17", "Every command writes only where it is supposed to",
  "A backup, garbage collection or integrity check never changes anything outside of the repository (the source files' content, attributes and names included), and an integrity check or restore changes nothing inside of it except for the lock file coming and going. A restore changes nothing outside of the requested path, the directories leading to it, and what lies below it. A backup that is declined or finds nothing to do leaves the repository as it was.",
  ["inputs", "histories", "configurations"],
  "All commands over all repositories, trees with links in and out of them, configurations and requested paths.",
  "Tests compare expected files only; a stray write elsewhere is invisible to them.",
  ["src/backup.c", "src/restore.c", "src/garbage-collector.c", "src/integrity.c", "src/repository.c", "src/nb.c"],
  [("all repository writes go through tmp-file and rename", "src/repository.c"), ("restore works on recorded paths below the requested one", "src/restore.c")],
  ["every mutating system call with its resolved path, and full snapshots"])

p("C18", "The change report shows exactly what changed",
  "Before asking for confirmation, a backup lists exactly the paths whose state, policy or membership in the repository changes and why (added, removed, dropped, changed content, type, owner, permissions, timestamp or policy, loss of history), hides only what a summarised directory stands for, and shows new, removed and lost totals in number and size that match. A restore lists in the same way exactly the paths it is about to create or change. Nothing else is listed, and unchanged paths never are. A terminal gets the same text, in colours which end with it. (Attributes of directories which only lead to something are not listed; such a directory is listed as lost while nothing in it matches.)",
  ["histories", "configurations", "inputs"],
  "All pairs of recorded state and current tree and configuration, with and without summarised directories, for backup and restore.",
  "The expected outputs in the suite cover a few dozen hand-written cases of backups and none of restores.",
  ["src/informations.c", "src/backup.c", "src/restore.c", "src/backup-helpers.c", "src/nb.c"],
  [("recursePrintOverTree, printNode, addNode", "src/informations.c"), ("backup hints set while searching", "src/backup.c")],
  ["standard output against a report derived from snapshots and an executable model"])

p("C19", "Repeating a backup or restore without changes does nothing",
  "A backup directly after a successful one, with nothing changed, reports no change, asks nothing, writes nothing to the repository and exits with zero; the only exceptions are removed paths which are kept with their last state, and directories leading only to rules which match nothing or to kept paths; these stay listed. (What was inside of a directory which was replaced by something else in the same backup in which its policy changed may be recorded as removed, or forgotten if it is ignored now, one backup later.) Likewise a restore of a state the tree already has changes nothing and asks nothing, and a restore directly after a backup or after the same restore is such a case. Running the garbage collection twice removes nothing the second time.",
  ["histories", "inputs", "configurations"],
  "All trees, configurations and histories, including ones with odd timestamps, ids, special files and links.",
  "Tests repeat a few backups; whether every reachable state is a fixpoint is not sampled.",
  ["src/backup.c", "src/backup-helpers.c", "src/restore.c", "src/informations.c", "src/nb.c"],
  [("containsChanges guards the write", "src/nb.c"), ("applyNodeChanges detects differences", "src/backup-helpers.c")],
  ["output and full repository snapshot (content, inode, ctime) around the second run"])

p("C20", "Restore addresses exactly the requested path and backup",
  "A restore of PATH acts on that path, everything below it and the directories leading to it, whether PATH is written absolute, relative to the working directory or with trailing slashes, and without a PATH it acts on everything. A path which is not in the repository, did not exist in the requested backup or had a non-directory as parent then, and a number or command line that is malformed, ends with a nonzero status and a message before anything is changed. Similarly named paths (common prefixes, siblings) are never affected.",
  ["inputs", "histories"],
  "All recorded trees, spellings of paths, backup numbers and command lines.",
  "Tests only cover some failing argument combinations, no successful restore of a path.",
  ["src/nb.c", "src/restore.c", "src/str.c"],
  [("buildFullPath, strStripTrailingSlashes", "src/nb.c"), ("strIsParentPath walk in initiateRestoreRecursively", "src/restore.c")],
  ["tree snapshot before/after, exit status"])

p("C21", "Repositories written by earlier builds stay readable, in the same format",
  "Repositories written by the present version remain fully usable by every later build: all backups in them can be restored exactly, verified, continued and collected. The metadata written follows the same documented-by-use layout (little-endian fixed width fields, stored files named by checksum, size and slot), so that a repository written by this tree can be read by an independent implementation of that layout, and stored files carry the BLAKE2b-160 checksum of their content in their name.",
  ["inputs", "histories"],
  "All repositories of the committed golden collection and all metadata written in the generated workloads.",
  "Tests write and read with the same build, so a symmetric change of both directions passes.",
  ["src/metadata.c", "src/repository.c", "src/file-hash.c", "third-party/BLAKE2"],
  [("read*/write* pairs", "src/metadata.c"), ("buildFilePath", "src/repository.c"), ("blake2b with 20 byte output", "src/file-hash.c")],
  ["golden repositories restored by the current build; fresh metadata decoded and re-encoded independently, stored names recomputed"])

p("C22", "A restore from damaged storage never passes off wrong content as success",
  "If stored files needed by a restore are missing, unreadable, too short or not regular files, the restore ends with a nonzero status and a message naming an affected path. It exits with zero only if every restored file has its recorded size and the content held in the repository, byte for byte. Damage in versions which the restore does not need does not stop it.",
  ["inputs", "fault_sequences"],
  "All placements of missing, truncated, replaced and unreadable stored files in repositories with history.",
  "There is no restore test in the suite.",
  ["src/restore.c", "src/repository.c"],
  [("repoReaderRead dies on a short read", "src/repository.c"), ("repoReaderOpenFile dies on a missing file", "src/repository.c")],
  ["exit status, message and restored content after planted damage"])

p("C23", "Size and shape of the input never break a run",
  "Backup, integrity check, garbage collection and restore work for trees and configurations of any size and shape the operating system can hold: directories with very many entries, all of them skipped or ignored too, long runs of missing configured paths, deeply nested paths (as deep as path length and the number of open files permit), configurations with thousands of rules, and many backups in one history. Memory and stack use per run stay within ordinary process limits, independent of how the program was compiled.",
  ["inputs", "configurations"],
  "Families of trees and configurations scaled up along each dimension, run with default stack limits in unoptimised and optimised builds.",
  "Test fixtures have a few dozen files.",
  ["src/search.c", "src/string-table.c", "src/allocator.c", "src/str.c", "src/metadata.c", "src/safe-wrappers.c"],
  [("iterator stack in search.c", "src/search.c"), ("string table growth", "src/string-table.c")],
  ["exit status and result of scaled workloads"])

p("C24", "Metadata is portable between machines of any byte order and word size",
  "The program builds for 32 and 64 bit, little and big endian machines, and a repository written on one of them means exactly the same on every other: machines of different kinds may take turns on one repository (backup, restore, garbage collection, integrity check) and each records, stores, prints and restores what any other would. Sizes beyond what a machine can address are handled in full. A time which a machine cannot represent is refused with an error and leaves the repository as it is; it is never silently changed.",
  ["histories", "configurations"], "All histories over all pairs of machine types, all recorded values of every width.",
  "Tests run on one machine type, whose byte order and word size hide every missing conversion.",
  ["src/metadata.c", "src/safe-math.c", "src/file-hash.c", "src/repository.c", "third-party/CRegion/region.c", "third-party/BLAKE2/blake2-impl.h"],
  [("convertEndian32/64, readSize, readTime", "src/metadata.c"), ("path of a stored file", "src/repository.c")],
  ["metadata bytes", "names and contents of stored files", "reports", "restored trees", "exit status"])

p("C25", "Repositories can be moved, copied and synchronised",
  "A repository directory may be renamed, moved, copied or addressed by any path spelling (relative, through links, with extra slashes) between any two commands without affecting what it contains or restores. The documented synchronisation of an older copy (copy missing files without overwriting, then configuration and metadata, then collect garbage) yields a repository equivalent to the newer one, also when both copies were continued separately and share stored files.",
  ["histories", "configurations"],
  "All repositories and pairs of diverged copies reachable by backups.",
  "Tests always use one repository at one path.",
  ["src/repository.c", "src/nb.c", "src/metadata.c", "src/garbage-collector.c"],
  [("stored files are addressed relative to the repository", "src/repository.c"), ("content-derived names", "src/repository.c")],
  ["restore and integrity of moved, copied and synchronised repositories against the original"])

p("C26", "An interrupted restore can simply be repeated",
  "If a restore is killed or fails at any point, the repository is unaffected, and repeating the same restore completes it: the tree ends up exactly as an uninterrupted restore would have left it, except for attributes of directories which have no policy of their own. Until then nothing outside of the restored selection was changed.",
  ["crash_points", "fault_sequences"],
  "Every system call which changes the file system during a restore as kill or failure point, for fresh and in-place restores.",
  "No restore is executed by the suite, let alone interrupted.",
  ["src/restore.c", "src/backup-helpers.c"],
  [("the difference to the recorded state is recomputed on every run", "src/restore.c checkAndHandleChanges"), ("attributes are set after content", "src/restore.c restorePath")],
  ["tree snapshot after kill + repeat against the snapshot after an uninterrupted restore"])

p("C27", "Nothing is changed without the user's explicit consent",
  "When there is something to do, backup and restore show the changes and change nothing in the repository's data or in the file system until the user has answered y or yes on standard input. On n, no or end of input they exit nonzero with everything left as it was; any other answer, of any length and content, only repeats the question.",
  ["inputs"],
  "All byte strings on standard input, including partial lines, null-bytes, very long lines and answers after repeated questions.",
  "Tests answer with fixed single words.",
  ["src/nb.c", "src/safe-wrappers.c"],
  [("ensureUserConsent", "src/nb.c"), ("sReadLine", "src/safe-wrappers.c")],
  ["mutating system calls before the deciding answer, snapshots, exit status"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
