From a005b21de0485d3b58b5b8ac305dd08fd0da0b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 01/22] fix: restore replaces symlinks instead of writing
 through them

---
 src/restore.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/restore.c b/src/restore.c
index 44f138d..c59ba1a 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -117,6 +117,30 @@ static void handleFiletypeChanges(PathNode *node, const PathState *state,
   }
 }
 
+/** Returns the stats of the given nodes path as they are relevant for
+  restoring it to the specified state. Symlinks are only followed if they
+  lead to a directory and are in place of a directory. */
+static struct stat getRelevantStats(AllocatorPair *allocator_pair,
+                                    const PathNode *node,
+                                    const PathState *state)
+{
+  const struct stat stats = sLStat(node->path);
+
+  if(state->type == PST_directory && S_ISLNK(stats.st_mode))
+  {
+    struct stat target_stats;
+    const char *raw_path =
+      strGetContent(node->path, allocator_pair->reusable_buffer);
+
+    if(stat(raw_path, &target_stats) == 0 && S_ISDIR(target_stats.st_mode))
+    {
+      return target_stats;
+    }
+  }
+
+  return stats;
+}
+
 /** Checks the nodes path for changes.
 
   @param node The node representing the path. Its backup hint may be
@@ -132,7 +156,7 @@ static void checkAndHandleChanges(AllocatorPair *allocator_pair,
   if(could_exist && sPathExists(node->path))
   {
     const struct stat stats =
-      state->type == PST_symlink ? sLStat(node->path) : sStat(node->path);
+      getRelevantStats(allocator_pair, node, state);
 
     handleFiletypeChanges(node, state, stats);
     if(backupHintNoPol(node->hint) == BH_none)
-- 
2.43.0


From 74cbec359298f98748b1e27efda67a6b1d4df435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 02/22] fix: restore keeps set-id bits and can rewrite
 read-only files

---
 src/restore.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/restore.c b/src/restore.c
index c59ba1a..090c0ca 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -417,7 +417,18 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
         sChown(node->path, state->uid, state->gid);
       }
     }
-    if(node->hint & BH_permissions_changed)
+    if((node->hint & BH_content_changed) &&
+       state->type == PST_regular_file)
+    {
+      sChmod(node->path,
+             state->metadata.file_info.permission_bits | S_IWUSR);
+      restoreFile(node->path, &state->metadata.file_info, repo_path);
+    }
+
+    /* Changing the owner of a file or writing to it may have cleared its
+       set-user-ID and set-group-ID bits. */
+    if(node->hint &
+       (BH_owner_changed | BH_permissions_changed | BH_content_changed))
     {
       if(state->type == PST_regular_file)
       {
@@ -433,7 +444,6 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
     {
       if(state->type == PST_regular_file)
       {
-        restoreFile(node->path, &state->metadata.file_info, repo_path);
         sUtime(node->path, state->metadata.file_info.modification_time);
       }
       else if(state->type == PST_symlink)
-- 
2.43.0


From a55530cde5d35ef152d83449bd033cd3d33340c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 03/22] fix: restore the content of directories which are not
 writable

---
 src/restore.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/restore.c b/src/restore.c
index 090c0ca..9851474 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -334,7 +334,9 @@ void restoreFile(StringView path, const RegularFileInfo *info,
   }
 }
 
-/** Restores a path depending on the given state.
+/** Restores a path depending on the given state. Restored directories stay
+  accessible for their owner, so that their content can be restored, and
+  still need their final permissions.
 
   @param node The node representing the path to restore.
   @param state The state to which the path should be restored.
@@ -359,7 +361,8 @@ static void restorePath(const PathNode *node, const PathState *state,
   {
     sMkdir(node->path);
     sChown(node->path, state->uid, state->gid);
-    sChmod(node->path, state->metadata.directory_info.permission_bits);
+    sChmod(node->path,
+           state->metadata.directory_info.permission_bits | S_IRWXU);
     sUtime(node->path, state->metadata.directory_info.modification_time);
   }
 }
@@ -376,6 +379,7 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
                                      StringView repo_path)
 {
   bool affects_parent_timestamp = false;
+  bool changed_directory_permissions = false;
 
   const PathState *state = searchExistingPathState(node, id);
   if(state == NULL)
@@ -387,6 +391,7 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
   {
     restorePath(node, state, repo_path);
     affects_parent_timestamp = true;
+    changed_directory_permissions = state->type == PST_directory;
   }
   else if(backupHintNoPol(node->hint) >= BH_regular_to_symlink &&
           backupHintNoPol(node->hint) <= BH_other_to_directory)
@@ -403,6 +408,7 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
 
     restorePath(node, state, repo_path);
     affects_parent_timestamp = true;
+    changed_directory_permissions = state->type == PST_directory;
   }
   else if(node->policy != BPOL_none)
   {
@@ -436,7 +442,9 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
       }
       else if(state->type == PST_directory)
       {
-        sChmod(node->path, state->metadata.directory_info.permission_bits);
+        sChmod(node->path,
+               state->metadata.directory_info.permission_bits | S_IRWXU);
+        changed_directory_permissions = true;
       }
     }
 
@@ -478,6 +486,10 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
         finishRestoreRecursively(subnode, id, repo_path);
     }
 
+    if(changed_directory_permissions)
+    {
+      sChmod(node->path, state->metadata.directory_info.permission_bits);
+    }
     if(subnode_changes_timestamp && node->policy != BPOL_none)
     {
       sUtime(node->path, state->metadata.directory_info.modification_time);
-- 
2.43.0


From caf2249e1773b94e3f597a22cbf26dea7bcc7169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 04/22] fix: record an implicit parent as directory after a
 file was replaced by it

---
 src/backup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backup.c b/src/backup.c
index 898f544..d32fca1 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -376,7 +376,7 @@ static void handleNodeChanges(AllocatorPair *allocator_pair,
   {
     applyNodeChanges(allocator_pair, node, state, result.stats);
   }
-  else if(result.policy != BPOL_none)
+  else if(result.policy != BPOL_none || result.type == SRT_directory)
   {
     setPathHistoryState(allocator_pair->a, state, result);
   }
-- 
2.43.0


From 18fd944d8d2bb4dd702c87a03674a22e1ae73d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 05/22] fix: ignore combined attribute changes of directories
 without a policy

---
 src/informations.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/informations.c b/src/informations.c
index eeb7101..a82baa1 100644
--- a/src/informations.c
+++ b/src/informations.c
@@ -148,6 +148,16 @@ static void incrementExtraChangedAttributes(ChangeSummary *changes,
   }
 }
 
+/** Returns true if nothing but attributes like owner, permissions or
+  timestamp differ according to the given hint. */
+static bool onlyAttributesChanged(const BackupHint hint)
+{
+  const int attributes =
+    BH_owner_changed | BH_permissions_changed | BH_timestamp_changed;
+
+  return (hint & attributes) != 0 && (hint & ~attributes) == 0;
+}
+
 /** Adds statistics about the given nodes current change type to the
   specified change structure.
 
@@ -194,9 +204,7 @@ static void addNode(const PathNode *node, ChangeSummary *changes,
     incrementExtraChangedAttributes(changes, hint);
   }
   else if(node->hint > BH_unchanged &&
-          (node->policy != BPOL_none ||
-           (node->hint < BH_owner_changed ||
-            node->hint > BH_timestamp_changed)))
+          (node->policy != BPOL_none || !onlyAttributesChanged(node->hint)))
   {
     changes->other_changes_exist = true;
     changes->affects_parent_timestamp |=
@@ -546,8 +554,7 @@ static ChangeSummary recursePrintOverTree(const Metadata *metadata,
     else if(print && node->hint > BH_unchanged &&
             !(node->policy == BPOL_none &&
               (node->hint == BH_added ||
-               (node->hint >= BH_owner_changed &&
-                node->hint <= BH_timestamp_changed))))
+               onlyAttributesChanged(node->hint))))
     {
       const bool print_subnodes =
         backupHintNoPol(node->hint) > BH_other_to_directory;
-- 
2.43.0


From db9404ca427805dbb95b82173d681a6f4671581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 06/22] fix: never store a file whose content changed after it
 was hashed

---
 src/backup.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/backup.c b/src/backup.c
index d32fca1..ab33487 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -3,6 +3,7 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include "BLAKE2/blake2.h"
 #include "CRegion/alloc-growable.h"
 
 #include "backup-helpers.h"
@@ -620,6 +621,9 @@ static void copyFileIntoRepo(PathNode *node, StringView repo_path,
 
   io_buffer = CR_EnsureCapacity(io_buffer, blocksize);
 
+  blake2b_state state;
+  blake2b_init(&state, FILE_HASH_SIZE);
+
   while(bytes_left > 0)
   {
     const size_t bytes_to_read =
@@ -627,6 +631,7 @@ static void copyFileIntoRepo(PathNode *node, StringView repo_path,
 
     sFread(io_buffer, bytes_to_read, reader);
     repoWriterWrite(io_buffer, bytes_to_read, writer);
+    blake2b_update(&state, io_buffer, bytes_to_read);
 
     bytes_left -= bytes_to_read;
   }
@@ -634,7 +639,11 @@ static void copyFileIntoRepo(PathNode *node, StringView repo_path,
   const bool stream_not_at_end = sFbytesLeft(reader);
   sFclose(reader);
 
-  if(stream_not_at_end)
+  uint8_t hash_of_copy[FILE_HASH_SIZE];
+  blake2b_final(&state, hash_of_copy, FILE_HASH_SIZE);
+
+  if(stream_not_at_end ||
+     memcmp(hash_of_copy, file_info->hash, FILE_HASH_SIZE) != 0)
   {
     die("file has changed during backup: \"" PRI_STR "\"",
         STR_FMT(node->path));
-- 
2.43.0


From 2961d60dee35d6f6996eb4d18f0deefa66f2b6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 07/22] fix: close the lock race between a finishing and a
 starting process

The lockfile was removed after it was unlocked, so that a process which
locked it in between ended up with the lock of a removed file, while a
third one could lock a new file at the same path.
---
 src/repository.c | 58 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 5 deletions(-)

diff --git a/src/repository.c b/src/repository.c
index 693f94b..2dbdbfc 100644
--- a/src/repository.c
+++ b/src/repository.c
@@ -7,6 +7,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #include "CRegion/alloc-growable.h"
@@ -403,9 +404,11 @@ static void cleanupLockfile(void *lockfile_info_ptr)
   const int old_errno = errno;
   if(info->is_locked)
   {
+    /* Remove the file while it is still locked, so that no other process
+       can lock it in the meantime and lose it again. */
+    (void)remove(info->file_path);
     (void)lockf(info->file_descriptor, F_ULOCK, 0);
     (void)close(info->file_descriptor);
-    (void)remove(info->file_path);
   }
   else
   {
@@ -414,6 +417,48 @@ static void cleanupLockfile(void *lockfile_info_ptr)
   errno = old_errno;
 }
 
+/** Opens and locks the lockfile with the given path.
+
+  @param file_descriptor Will be assigned the descriptor of the opened
+  lockfile, or -1 if it could not be opened.
+
+  @return True, if the lockfile was locked successfully. Otherwise errno
+  will be set.
+*/
+static bool openAndLock(const char *file_path, int *file_descriptor)
+{
+  while(true)
+  {
+    *file_descriptor =
+      open(file_path, O_CREAT | O_WRONLY, S_IWUSR | S_IWGRP);
+    if(*file_descriptor == -1 || lockf(*file_descriptor, F_TLOCK, 0) != 0)
+    {
+      return false;
+    }
+
+    /* Ensure that the locked file was not removed by its previous owner
+       after it was opened. Such a lock would protect nothing. */
+    struct stat locked_file, current_file;
+    if(fstat(*file_descriptor, &locked_file) != 0)
+    {
+      return false;
+    }
+    if(stat(file_path, &current_file) == 0)
+    {
+      if(locked_file.st_dev == current_file.st_dev &&
+         locked_file.st_ino == current_file.st_ino)
+      {
+        return true;
+      }
+    }
+    else if(errno != ENOENT)
+    {
+      return false;
+    }
+    (void)close(*file_descriptor);
+  }
+}
+
 /** Lock the specified repository until the given region gets released. If
   the repository is already locked by another process, the program will be
   terminated with an error message. Calling this function twice from the
@@ -431,8 +476,8 @@ void repoLock(CR_Region *r, StringView repo_path,
   lockfile_info->is_locked = false;
   lockfile_info->file_path =
     strGetContent(strAppendPath(repo_path, str("lockfile"), a), a);
-  lockfile_info->file_descriptor =
-    open(lockfile_info->file_path, O_CREAT | O_WRONLY, S_IWUSR | S_IWGRP);
+  lockfile_info->is_locked = openAndLock(lockfile_info->file_path,
+                                         &lockfile_info->file_descriptor);
 
   if(lockfile_info->file_descriptor == -1)
   {
@@ -444,11 +489,14 @@ void repoLock(CR_Region *r, StringView repo_path,
     dieErrno("failed to create lockfile: \"%s\"",
              lockfile_info->file_path);
   }
+
+  const int lock_errno = errno;
   CR_RegionAttach(r, cleanupLockfile, lockfile_info);
+  errno = lock_errno;
 
-  if(lockf(lockfile_info->file_descriptor, F_TLOCK, 0) == 0)
+  if(lockfile_info->is_locked)
   {
-    lockfile_info->is_locked = true;
+    errno = old_errno;
   }
   else if(errno == EACCES || errno == EAGAIN)
   {
-- 
2.43.0


From 801ed7ba3ef85bc1ac373ca04e649554d0f30bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 08/22] fix: skip directory entries in a loop instead of
 recursing

Without optimisations every skipped entry or missing configured path cost
a stack frame, so that large directories overflowed the stack.
---
 src/search.c | 110 +++++++++++++++++++++++++++++----------------------
 1 file changed, 63 insertions(+), 47 deletions(-)

diff --git a/src/search.c b/src/search.c
index 0675775..56023c4 100644
--- a/src/search.c
+++ b/src/search.c
@@ -241,29 +241,12 @@ static bool nodeMatches(const SearchNode *node, StringView string)
   return strIsEqual(node->name, string);
 }
 
-/** Completes a search step by querying the next file from the currently
-  active directory stream. If this file is a directory, a recursion step
-  into it will be initialized.
-
-  @param iterator A valid iterator which current state represents a
-  directory search. It will be destroyed if the search reaches its end
-  trough this search step. In this case the returned SearchResult will have
-  the type SRT_end_of_search.
-*/
-static SearchResult finishSearchStep(SearchIterator *iterator)
+/** Returns the subnode of the currently searched directory which matches
+  the given directory entry, or NULL. Terminates the program with an error
+  message if there is more than one. */
+static SearchNode *matchSubnodes(const SearchIterator *iterator,
+                                 StringView dir_entry_name)
 {
-  StringView entry = sDirGetNext(iterator->state.access.search.dir);
-  if(strIsEmpty(entry))
-  {
-    sDirClose(iterator->state.access.search.dir);
-    return finishDirectory(iterator);
-  }
-
-  /* Create new path for matching. */
-  StringView dir_entry_name = strSplitPath(entry).tail;
-  replaceCurrentFilename(iterator, dir_entry_name);
-
-  /* Match subnodes against dir_entry. */
   SearchNode *matched_node = NULL;
   for(SearchNode *node = iterator->state.access.search.subnodes;
       node != NULL; node = node->next)
@@ -284,30 +267,65 @@ static SearchResult finishSearchStep(SearchIterator *iterator)
     }
   }
 
-  if(matched_node != NULL)
-  {
-    return finishNodeStep(iterator, matched_node, matched_node->policy);
-  }
-
-  /* Skip current path, if no fallback policy was defined. */
-  if(iterator->state.access.search.fallback_policy == BPOL_none)
-  {
-    return finishSearchStep(iterator);
-  }
+  return matched_node;
+}
 
-  /* Match against ignore expressions. */
+/** Returns true if the iterators current path matches an ignore
+  expression and marks this expression as matched. */
+static bool currentPathIsIgnored(const SearchIterator *iterator)
+{
   for(RegexList *element = iterator->ignore_expressions; element != NULL;
       element = element->next)
   {
     if(sRegexIsMatching(element->regex, iterator->current_path))
     {
       element->has_matched = true;
-      return finishSearchStep(iterator);
+      return true;
     }
   }
 
-  return finishNodeStep(iterator, NULL,
-                        iterator->state.access.search.fallback_policy);
+  return false;
+}
+
+/** Completes a search step by querying the next file from the currently
+  active directory stream. If this file is a directory, a recursion step
+  into it will be initialized.
+
+  @param iterator A valid iterator which current state represents a
+  directory search. It will be destroyed if the search reaches its end
+  trough this search step. In this case the returned SearchResult will have
+  the type SRT_end_of_search.
+*/
+static SearchResult finishSearchStep(SearchIterator *iterator)
+{
+  while(true)
+  {
+    StringView entry = sDirGetNext(iterator->state.access.search.dir);
+    if(strIsEmpty(entry))
+    {
+      sDirClose(iterator->state.access.search.dir);
+      return finishDirectory(iterator);
+    }
+
+    /* Create new path for matching. */
+    StringView dir_entry_name = strSplitPath(entry).tail;
+    replaceCurrentFilename(iterator, dir_entry_name);
+
+    SearchNode *matched_node = matchSubnodes(iterator, dir_entry_name);
+    if(matched_node != NULL)
+    {
+      return finishNodeStep(iterator, matched_node, matched_node->policy);
+    }
+
+    /* Skip current path, if no fallback policy was defined or if it is
+       ignored. */
+    if(iterator->state.access.search.fallback_policy != BPOL_none &&
+       !currentPathIsIgnored(iterator))
+    {
+      return finishNodeStep(iterator, NULL,
+                            iterator->state.access.search.fallback_policy);
+    }
+  }
 }
 
 /** Completes a search step by directly accessing next node available in
@@ -319,22 +337,20 @@ static SearchResult finishSearchStep(SearchIterator *iterator)
 */
 static SearchResult finishCurrentNode(SearchIterator *iterator)
 {
-  if(iterator->state.access.current_node == NULL)
+  while(iterator->state.access.current_node != NULL)
   {
-    return finishDirectory(iterator);
-  }
-
-  SearchNode *node = iterator->state.access.current_node;
-  iterator->state.access.current_node = node->next;
+    SearchNode *node = iterator->state.access.current_node;
+    iterator->state.access.current_node = node->next;
 
-  replaceCurrentFilename(iterator, node->name);
+    replaceCurrentFilename(iterator, node->name);
 
-  if(sPathExists(iterator->current_path))
-  {
-    return finishNodeStep(iterator, node, node->policy);
+    if(sPathExists(iterator->current_path))
+    {
+      return finishNodeStep(iterator, node, node->policy);
+    }
   }
 
-  return finishCurrentNode(iterator);
+  return finishDirectory(iterator);
 }
 
 /** Creates a new SearchIterator for searching the filesystem.
-- 
2.43.0


From 1d1f19f2b35efaf7ad063e13e8be4a6222b56995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 09/22] fix: refuse metadata with broken path entries

Paths without any history led to a null pointer access, paths nested
without limit to a stack overflow, and paths listed multiple times could
make a restore write through a symlink created by the same restore.
---
 src/metadata.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/metadata.c b/src/metadata.c
index 6cde6cf..4df8485 100644
--- a/src/metadata.c
+++ b/src/metadata.c
@@ -436,13 +436,41 @@ readPathSubnodes(Allocator *region_wrapper, const FileContent content,
       parent_node == NULL ? str("") : parent_node->path;
     strSet(&node->path, strAppendPath(parent_path, name, region_wrapper));
 
+#ifdef PATH_MAX
+    if(node->path.length >= PATH_MAX)
+    {
+      die("contains path which is too long: \"" PRI_STR "\"",
+          STR_FMT(metadata_path));
+    }
+#endif
+    if(strTableGet(metadata->path_table, node->path) != NULL)
+    {
+      die("contains path multiple times: \"" PRI_STR "\": \"" PRI_STR "\"",
+          STR_FMT(node->path), STR_FMT(metadata_path));
+    }
+
     /* Read other node variables. */
     strTableMap(metadata->path_table, node->path, node);
 
     node->hint = BH_none;
-    node->policy = read8(content, reader_position, metadata_path);
+
+    const uint8_t policy = read8(content, reader_position, metadata_path);
+    if(policy > BPOL_track)
+    {
+      die("contains path with invalid policy: \"" PRI_STR "\": \"" PRI_STR
+          "\"",
+          STR_FMT(node->path), STR_FMT(metadata_path));
+    }
+    node->policy = policy;
+
     node->history = readFullPathHistory(
       region_wrapper, content, reader_position, metadata_path, metadata);
+    if(node->history == NULL)
+    {
+      die("contains path without history: \"" PRI_STR "\": \"" PRI_STR
+          "\"",
+          STR_FMT(node->path), STR_FMT(metadata_path));
+    }
 
     node->subnodes =
       readPathSubnodes(region_wrapper, content, reader_position,
-- 
2.43.0


From d2d4a9f1c322f053a3fdcd319ba927cb118e9981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 10/22] fix: restore even if the line separator could not be
 printed

With a standard output which can't be written to, restoring did nothing and
reported success.
---
 src/nb.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nb.c b/src/nb.c
index 41240d4..b2abf2f 100644
--- a/src/nb.c
+++ b/src/nb.c
@@ -350,8 +350,9 @@ static void restore(CR_Region *r, StringView repo_arg, const size_t id,
   initiateRestore(metadata, id, full_path);
 
   const ChangeSummary changes = printMetadataChanges(metadata, NULL);
-  if(containsChanges(&changes) && printf("\n") == 1)
+  if(containsChanges(&changes))
   {
+    printf("\n");
     ensureUserConsent("restore?", allocatorWrapOneSingleGrowableBuffer(r));
     finishRestore(metadata, id, repo_arg);
   }
-- 
2.43.0


From 215b20a4ddc0e6a2574d33ca4c44ecd52520e6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 11/22] fix: refuse metadata with removals of paths which never
 existed

Changing the policy of such a path led to a null pointer access or to
comparisons with uninitialised memory.
---
 src/metadata.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/metadata.c b/src/metadata.c
index 4df8485..a5f25f4 100644
--- a/src/metadata.c
+++ b/src/metadata.c
@@ -371,6 +371,20 @@ static void writePathHistoryList(const PathHistory *starting_point,
   }
 }
 
+/** Returns true if the latest point in the given history exists or is the
+  removal of an existing state. Only tracked paths can be removed. */
+static bool historyIsConsistent(const PathHistory *history,
+                                const BackupPolicy policy)
+{
+  if(history->state.type != PST_non_existing)
+  {
+    return true;
+  }
+
+  return policy == BPOL_track && history->next != NULL &&
+    history->next->state.type != PST_non_existing;
+}
+
 /** Reads the subnodes of the given parent node recursively.
 
   @param content The content of the file from which the subnodes should be
@@ -471,6 +485,12 @@ readPathSubnodes(Allocator *region_wrapper, const FileContent content,
           "\"",
           STR_FMT(node->path), STR_FMT(metadata_path));
     }
+    if(!historyIsConsistent(node->history, policy))
+    {
+      die("contains path with invalid history: \"" PRI_STR "\": \"" PRI_STR
+          "\"",
+          STR_FMT(node->path), STR_FMT(metadata_path));
+    }
 
     node->subnodes =
       readPathSubnodes(region_wrapper, content, reader_position,
-- 
2.43.0


From 4b33485ecbe3f031dd47842c7d66b2ea0ed8eb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:22 +0000
Subject: [PATCH 12/22] fix: don't wait for a writer when a file was replaced
 by a FIFO

---
 src/repository.c    |  2 +-
 src/safe-wrappers.c | 28 ++++++++++++++++++++++++++--
 src/safe-wrappers.h |  1 +
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/repository.c b/src/repository.c
index 2dbdbfc..81b953f 100644
--- a/src/repository.c
+++ b/src/repository.c
@@ -184,7 +184,7 @@ RepoReader *repoReaderOpenFile(StringView repo_path,
                                const RegularFileInfo *info)
 {
   fillPathBufferWithInfo(repo_path, info);
-  FILE *stream = fopen(path_buffer, "rb");
+  FILE *stream = fOpenRead(path_buffer);
   if(stream == NULL)
   {
     dieErrno("failed to open \"" PRI_STR "\" in \"" PRI_STR "\"",
diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index f03495a..ff75ba7 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -117,7 +117,31 @@ static void closeFileHandle(void *data)
   errno = old_errno;
 }
 
-/** Safe wrapper around fopen().
+/** Opens the given file for reading. In contrast to fopen(), this function
+  does not wait for a writer if the path is a FIFO.
+
+  @return A file handle or NULL, in which case errno will be set.
+*/
+FILE *fOpenRead(const char *path)
+{
+  const int descriptor = open(path, O_RDONLY | O_NONBLOCK);
+  if(descriptor == -1)
+  {
+    return NULL;
+  }
+
+  FILE *handle = fdopen(descriptor, "rb");
+  if(handle == NULL)
+  {
+    const int old_errno = errno;
+    (void)close(descriptor);
+    errno = old_errno;
+  }
+
+  return handle;
+}
+
+/** Safe wrapper around fOpenRead().
 
   @param path The path to the file which should be opened for reading.
 
@@ -127,7 +151,7 @@ static void closeFileHandle(void *data)
 FileStream *sFopenRead(StringView path)
 {
   FileStream *result = newFileStream(path);
-  result->handle = fopen(nullTerminate(path), "rb");
+  result->handle = fOpenRead(nullTerminate(path));
   if(result->handle == NULL)
   {
     CR_RegionRelease(result->r);
diff --git a/src/safe-wrappers.h b/src/safe-wrappers.h
index a46e615..7e8b668 100644
--- a/src/safe-wrappers.h
+++ b/src/safe-wrappers.h
@@ -23,6 +23,7 @@ extern void sAtexit(void (*function)(void));
   printing better error messages. */
 typedef struct FileStream FileStream;
 
+extern FILE *fOpenRead(const char *path);
 extern FileStream *sFopenRead(StringView path);
 extern FileStream *sFopenWrite(StringView path);
 extern void sFread(void *ptr, size_t size, FileStream *stream);
-- 
2.43.0


From f1aab17abc2aeb071d1a1e7be2cee7770fb58dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:31 +0000
Subject: [PATCH 13/22] fix: integrity check lists files whose stored directory
 is broken

---
 src/integrity.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/integrity.c b/src/integrity.c
index e8bd968..450b1b0 100644
--- a/src/integrity.c
+++ b/src/integrity.c
@@ -1,8 +1,10 @@
 #include "integrity.h"
 
+#include <errno.h>
 #include <string.h>
 
 #include "CRegion/alloc-growable.h"
+#include "error-handling.h"
 #include "file-hash.h"
 #include "safe-math.h"
 #include "safe-wrappers.h"
@@ -90,13 +92,22 @@ static bool storedFileIsHealthy(IntegrityCheckContext *ctx,
   StringView path_to_stored_file = strAppendPath(
     ctx->repo_path, unique_subpath, ctx->reusable_buffer_allocator);
 
-  if(!sPathExists(path_to_stored_file))
+  struct stat stats;
+  if(lstat(strGetContent(path_to_stored_file,
+                         ctx->reusable_buffer_allocator),
+           &stats) != 0)
   {
+    /* The directory which should contain the file may be something else. */
+    if(errno != ENOENT && errno != ENOTDIR && errno != ELOOP)
+    {
+      dieErrno("failed to check existence of \"" PRI_STR "\"",
+               STR_FMT(path_to_stored_file));
+    }
+
     callProgressCallback(ctx, file_info->size);
     return false;
   }
 
-  const struct stat stats = sLStat(path_to_stored_file);
   if(!S_ISREG(stats.st_mode))
   {
     callProgressCallback(ctx, file_info->size);
-- 
2.43.0


From 7e97caf781218795a2c89820fc510fca51ee1719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:09 +0000
Subject: [PATCH 14/22] fix: keep found files when a path leaves track after
 becoming a directory again

---
 src/backup.c | 60 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/src/backup.c b/src/backup.c
index ab33487..a57c286 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -251,13 +251,18 @@ static void markAsRemovedRecursively(Metadata *metadata, PathNode *node,
   @param node The node to check for changes.
   @param policy The policy under which the node was found, or supposed to
   be found.
+
+  @return True if subnodes which are not found during the current backup
+  are not needed anymore and must be wiped by the caller.
 */
-static void handlePolicyChanges(Metadata *metadata, PathNode *node,
+static bool handlePolicyChanges(Metadata *metadata, PathNode *node,
                                 const BackupPolicy policy)
 {
+  bool subnodes_are_obsolete = false;
+
   if(node->policy == policy)
   {
-    return;
+    return subnodes_are_obsolete;
   }
 
   backupHintSet(node->hint, BH_policy_changed);
@@ -277,17 +282,28 @@ static void handlePolicyChanges(Metadata *metadata, PathNode *node,
       backupHintSet(node->hint, BH_loses_history);
     }
 
-    if(node->history->state.type != PST_directory)
-    {
-      for(PathNode *subnode = node->subnodes; subnode != NULL;
-          subnode = subnode->next)
-      {
-        prepareNodeForWipingRecursively(metadata, subnode);
-      }
-    }
+    subnodes_are_obsolete = node->history->state.type != PST_directory;
   }
 
   node->policy = policy;
+  return subnodes_are_obsolete;
+}
+
+/** Wipes all subnodes which where not found during the current backup.
+
+  @param metadata The metadata of the current backup.
+  @param node The node containing the subnodes to process.
+*/
+static void wipeNotFoundSubnodes(Metadata *metadata, PathNode *node)
+{
+  for(PathNode *subnode = node->subnodes; subnode != NULL;
+      subnode = subnode->next)
+  {
+    if(subnode->hint == BH_none)
+    {
+      prepareNodeForWipingRecursively(metadata, subnode);
+    }
+  }
 }
 
 /** Handles a node, which path was removed from the users filesystem.
@@ -299,7 +315,10 @@ static void handlePolicyChanges(Metadata *metadata, PathNode *node,
 static void handleRemovedPath(Metadata *metadata, PathNode *node,
                               const BackupPolicy policy)
 {
-  handlePolicyChanges(metadata, node, policy);
+  if(handlePolicyChanges(metadata, node, policy))
+  {
+    wipeNotFoundSubnodes(metadata, node);
+  }
 
   if(policy == BPOL_mirror)
   {
@@ -388,12 +407,16 @@ static void handleNodeChanges(AllocatorPair *allocator_pair,
   @param metadata The metadata of the current backup.
   @param node The node to check for changes.
   @param result The search result which has matched the given node.
+
+  @return True if subnodes which are not found during the current backup
+  must be wiped.
 */
-static void handleFoundNode(AllocatorPair *allocator_pair,
+static bool handleFoundNode(AllocatorPair *allocator_pair,
                             Metadata *metadata, PathNode *node,
                             const SearchResult result)
 {
-  handlePolicyChanges(metadata, node, result.policy);
+  const bool subnodes_are_obsolete =
+    handlePolicyChanges(metadata, node, result.policy);
 
   if(result.policy != BPOL_track)
   {
@@ -432,6 +455,8 @@ static void handleFoundNode(AllocatorPair *allocator_pair,
       node->history = point;
     }
   }
+
+  return subnodes_are_obsolete;
 }
 
 /** Checks which nodes where not found during the backup and handles them.
@@ -501,6 +526,7 @@ static SearchResultType initiateMetadataRecursively(
   }
 
   PathNode *node = strTableGet(metadata->path_table, result.path);
+  bool subnodes_are_obsolete = false;
 
   if(node == NULL)
   {
@@ -522,7 +548,8 @@ static SearchResultType initiateMetadataRecursively(
   }
   else
   {
-    handleFoundNode(allocator_pair, metadata, node, result);
+    subnodes_are_obsolete =
+      handleFoundNode(allocator_pair, metadata, node, result);
   }
 
   if(result.type == SRT_directory)
@@ -533,6 +560,11 @@ static SearchResultType initiateMetadataRecursively(
       ;
   }
 
+  if(subnodes_are_obsolete)
+  {
+    wipeNotFoundSubnodes(metadata, node);
+  }
+
   if(backupHintNoPol(node->hint) == BH_directory_to_regular ||
      backupHintNoPol(node->hint) == BH_directory_to_symlink)
   {
-- 
2.43.0


From 98b422c9de2b2f3ed8aa3947e9ec344cbe9afc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 15/22] fix: reject configured paths which are nested too
 deeply

They overflowed the stack. No existing path can have that many elements.
---
 src/search-tree.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/search-tree.c b/src/search-tree.c
index 44c1a1c..c5c11f6 100644
--- a/src/search-tree.c
+++ b/src/search-tree.c
@@ -1,5 +1,6 @@
 #include "search-tree.h"
 
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -123,6 +124,25 @@ static void inheritPolicyToSubnodes(SearchNode *parent_node)
   }
 }
 
+/** Returns true if the given path has more elements than any existing path
+  can have. Regular expressions are not counted by their length, since they
+  can be longer than the paths they match. */
+static bool isNestedTooDeeply(StringView path)
+{
+#ifdef PATH_MAX
+  size_t slashes = 0;
+  for(size_t index = 0; index < path.length; index++)
+  {
+    slashes += path.content[index] == '/';
+  }
+
+  return slashes >= PATH_MAX;
+#else
+  (void)path;
+  return false;
+#endif
+}
+
 SearchNode *searchTreeParse(CR_Region *r, StringView config)
 {
   if(memchr(config.content, '\0', config.length) != NULL)
@@ -240,6 +260,11 @@ SearchNode *searchTreeParse(CR_Region *r, StringView config)
     }
     else if(line.content[0] == '/')
     {
+      if(isNestedTooDeeply(strStripTrailingSlashes(line)))
+      {
+        die("config: line %zu: path is nested too deeply: \"" PRI_STR "\"",
+            line_nr, STR_FMT(line));
+      }
       if(strPathContainsDotElements(line))
       {
         die("config: line %zu: path contains \".\" or \"..\": \"" PRI_STR
-- 
2.43.0


From b1dfa72db555579eead7fdba390b0db103222330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:19 +0000
Subject: [PATCH 16/22] fix: drop a parameter which is not used anymore since
 paths which leave track are kept

---
 src/backup.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/backup.c b/src/backup.c
index a57c286..a0aab58 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -247,7 +247,6 @@ static void markAsRemovedRecursively(Metadata *metadata, PathNode *node,
 
 /** Checks and handles policy changes.
 
-  @param metadata The metadata of the current backup.
   @param node The node to check for changes.
   @param policy The policy under which the node was found, or supposed to
   be found.
@@ -255,8 +254,7 @@ static void markAsRemovedRecursively(Metadata *metadata, PathNode *node,
   @return True if subnodes which are not found during the current backup
   are not needed anymore and must be wiped by the caller.
 */
-static bool handlePolicyChanges(Metadata *metadata, PathNode *node,
-                                const BackupPolicy policy)
+static bool handlePolicyChanges(PathNode *node, const BackupPolicy policy)
 {
   bool subnodes_are_obsolete = false;
 
@@ -315,7 +313,7 @@ static void wipeNotFoundSubnodes(Metadata *metadata, PathNode *node)
 static void handleRemovedPath(Metadata *metadata, PathNode *node,
                               const BackupPolicy policy)
 {
-  if(handlePolicyChanges(metadata, node, policy))
+  if(handlePolicyChanges(node, policy))
   {
     wipeNotFoundSubnodes(metadata, node);
   }
@@ -416,7 +414,7 @@ static bool handleFoundNode(AllocatorPair *allocator_pair,
                             const SearchResult result)
 {
   const bool subnodes_are_obsolete =
-    handlePolicyChanges(metadata, node, result.policy);
+    handlePolicyChanges(node, result.policy);
 
   if(result.policy != BPOL_track)
   {
-- 
2.43.0


From c006c1f6e30264836a0307dd6c9ca32d1a357596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:05 +0000
Subject: [PATCH 17/22] fix: return the full 64 bit product, so that the
 program can be built for 32 bit machines

The definition of sUint64Mul() disagreed with its declaration wherever size_t
is not uint64_t.
---
 src/safe-math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/safe-math.c b/src/safe-math.c
index af9d8ef..1fc00fb 100644
--- a/src/safe-math.c
+++ b/src/safe-math.c
@@ -37,7 +37,7 @@ uint64_t sUint64Add(const uint64_t a, const uint64_t b)
 
 /** Multiplies two uint64_t values and terminates the program on overflows.
  */
-size_t sUint64Mul(const uint64_t a, const uint64_t b)
+uint64_t sUint64Mul(const uint64_t a, const uint64_t b)
 {
   if(b != 0 && a > UINT64_MAX / b)
   {
-- 
2.43.0


From 4f7d1e1858b287cbf780e03835382f93140c4720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:52 +0000
Subject: [PATCH 18/22] fix: keep region chunks aligned on machines with
 pointers smaller than 8 bytes

The size of a chunk list element was not a multiple of the alignment there,
which is why the program could not be built for 32 bit machines.
---
 third-party/CRegion/region.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/third-party/CRegion/region.c b/third-party/CRegion/region.c
index 8283674..2bd8ae6 100644
--- a/third-party/CRegion/region.c
+++ b/third-party/CRegion/region.c
@@ -28,10 +28,14 @@ struct CallbackList
 /** A list of allocated memory chunks. Each element is located at the
   beginning of the chunk. By freeing the element, the entire chunk will be
   freed. */
-typedef struct ChunkList ChunkList;
-struct ChunkList
+typedef union ChunkList ChunkList;
+union ChunkList
 {
   ChunkList *next;
+
+  /** Pads the element to the alignment of the memory which follows it, even
+    if pointers are smaller than that. */
+  uint64_t padding;
 };
 
 typedef struct
-- 
2.43.0


From dd101b43748584ae4e43d150b13cc63e94517196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 19/22] fix: don't treat failing to match an expression as a
 path which doesn't match

Since regexec() of the GNU C library returns REG_NOMATCH when it runs out of
memory, a backup under memory pressure left out paths which its
configuration selects, or included ones which it ignores, and reported
success.
---
 src/safe-wrappers.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index ff75ba7..1513eb5 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -856,7 +856,19 @@ const regex_t *sRegexCompile(CR_Region *r, StringView expression,
   return regex;
 }
 
+/** Match the given string and terminate the program if this is not possible.
+  Some implementations of regexec() report an exhausted memory as a string
+  which does not match. */
 bool sRegexIsMatching(const regex_t *regex, StringView string)
 {
-  return regexec(regex, nullTerminate(string), 0, NULL, 0) == 0;
+  const char *raw_string = nullTerminate(string);
+
+  errno = 0;
+  const int error = regexec(regex, raw_string, 0, NULL, 0);
+  if(error != 0 && (error != REG_NOMATCH || errno == ENOMEM))
+  {
+    die("not enough memory to match \"" PRI_STR "\"", STR_FMT(string));
+  }
+
+  return error == 0;
 }
-- 
2.43.0


From 5dea78742eb31cb368d3be552b95192d87328d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 20/22] fix: don't change other names of a file while restoring
 it

A changed file or symlink with several hard links was restored in place.
This altered its other names, which may be recorded with different states,
so that they were restored wrong. It also altered names which don't belong
to what gets restored. Such a file is now replaced by a new one.
---
 src/restore.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/restore.c b/src/restore.c
index 9851474..389adba 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -367,6 +367,14 @@ static void restorePath(const PathNode *node, const PathState *state,
   }
 }
 
+/** Returns true if the given nodes path is a file or symlink with more than
+  one name. Modifying it in place would affect its other names, which may
+  belong to different states or to no state at all. */
+static bool hasOtherHardLinks(const PathNode *node, const PathState *state)
+{
+  return state->type != PST_directory && sLStat(node->path).st_nlink > 1;
+}
+
 /** Recursive counterpart to finishRestore().
 
   @param node The node to restore.
@@ -410,6 +418,13 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
     affects_parent_timestamp = true;
     changed_directory_permissions = state->type == PST_directory;
   }
+  else if(node->policy != BPOL_none && node->hint != BH_none &&
+          hasOtherHardLinks(node, state))
+  {
+    sRemove(node->path);
+    restorePath(node, state, repo_path);
+    affects_parent_timestamp = true;
+  }
   else if(node->policy != BPOL_none)
   {
     if(node->hint & BH_owner_changed)
-- 
2.43.0


From 49600a18c469ca6921ec02ef96541c391463fc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:27 +0000
Subject: [PATCH 21/22] fix: don't abort the integrity check on huge recorded
 file sizes

The progress shown on terminals was calculated by multiplying the amount
of processed bytes by 1000. If damaged metadata contained a huge file
size, this overflowed and ended the check before it could report the
corrupted paths.
---
 src/nb.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nb.c b/src/nb.c
index b2abf2f..8a00980 100644
--- a/src/nb.c
+++ b/src/nb.c
@@ -111,8 +111,10 @@ static void printProgress(const bool assume_is_finished,
   }
   else if(processed_amount > 0)
   {
-    const size_t permille =
-      sUint64Mul(processed_amount, 1000) / total_amount;
+    /* Avoid overflows caused by (damaged) metadata with huge file sizes. */
+    const size_t permille = total_amount > UINT64_MAX / 1000
+      ? processed_amount / (total_amount / 1000 + 1)
+      : processed_amount * 1000 / total_amount;
     printf("%3zu.%zu%% (", permille / 10, permille % 10);
     printHumanReadableSize(amount_to_format);
     printf(" %s)\n", formatted_action_suffix);
-- 
2.43.0


From d3c57801b115b60e828db195ef131b5a3c9cc40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 22/22] fix: search entries of the root directory by their name

A rule with an expression for the first path element, or a policy for the
root directory itself, made the search see names with a leading slash.
Expressions and all other rules next to them never matched anything, and
backups of "/" wrote metadata which could not be read again.
---
 src/search.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/search.c b/src/search.c
index 56023c4..157b1a1 100644
--- a/src/search.c
+++ b/src/search.c
@@ -309,6 +309,11 @@ static SearchResult finishSearchStep(SearchIterator *iterator)
 
     /* Create new path for matching. */
     StringView dir_entry_name = strSplitPath(entry).tail;
+    if(dir_entry_name.content[0] == '/')
+    {
+      /* Entries of the root directory start with two slashes. */
+      strSet(&dir_entry_name, str(&dir_entry_name.content[1]));
+    }
     replaceCurrentFilename(iterator, dir_entry_name);
 
     SearchNode *matched_node = matchSubnodes(iterator, dir_entry_name);
-- 
2.43.0

