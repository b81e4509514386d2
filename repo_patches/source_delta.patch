From 4454989366c7f8a8f4fa6074519972c96b6b9e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 01/48] fix: keep every file when several of the same name are
 trashed at once

---
 zielen/filelogic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index ea17f3a..82a8001 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -841,6 +841,7 @@ class FilesManager:
                 filename_counter += 1
                 new_filename = "{0}({1}){2}".format(
                     name, filename_counter, extension)
+            trash_filenames.add(new_filename)
             new_filenames.append(new_filename)
 
         for old_path, new_filename in zip(old_paths, new_filenames):
-- 
2.43.0


From 3284b79c20d716b107ce171c10c161da7788a426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 02/48] fix: sync deletions of paths that are missing from the
 remote database

---
 zielen/filelogic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 82a8001..e3fa438 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -675,11 +675,11 @@ class FilesManager:
         remote_del_paths = known_paths - local_paths
         for path in local_del_paths.copy():
             sub_paths = set(self.profile.get_paths(root=path).keys())
-            sub_paths.remove(path)
+            sub_paths.discard(path)
             local_del_paths -= sub_paths
         for path in remote_del_paths.copy():
             sub_paths = set(self.remote_dir.get_paths(root=path).keys())
-            sub_paths.remove(path)
+            sub_paths.discard(path)
             remote_del_paths -= sub_paths
 
         # Compute files to be moved to the trash.
-- 
2.43.0


From 3a7dc7ef842f788640eb690600dff8a6c58f3b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 03/48] fix: accept StorageLimit units in any case, as the
 config check does

---
 zielen/profile.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 53d40f5..5278f3e 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -224,12 +224,16 @@ class Profile:
             r"^([0-9]+)\s*([KMG])(B|iB)?$",
             self._cfg_file.vals["StorageLimit"], re.IGNORECASE)[0]
 
-        if unit == "iB" or not unit:
+        # Units are not case-sensitive.
+        unit = unit.lower()
+        prefix = prefix.upper()
+
+        if unit == "ib" or not unit:
             base = 1024
-        elif unit == "B":
+        elif unit == "b":
             base = 1000
 
-        if prefix in ["k", "K"]:
+        if prefix == "K":
             exponent = 1
         elif prefix == "M":
             exponent = 2
-- 
2.43.0


From 160e07453e50889e7dc6a90279f5cff665891dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 04/48] fix: interpret boolean options in any case and default
 blank ones

---
 zielen/profile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 5278f3e..44d41d0 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -263,9 +263,9 @@ class Profile:
 
     def _convert_bool(self, value: str) -> bool:
         """Convert a string to a bool."""
-        if value in self._cfg_file.TRUE_VALS:
+        if value.lower() in self._cfg_file.TRUE_VALS:
             return True
-        elif value in self._cfg_file.FALSE_VALS:
+        elif value.lower() in self._cfg_file.FALSE_VALS:
             return False
 
     @property
@@ -975,7 +975,7 @@ class ProfileConfigFile(ConfigFile):
     @DictProperty
     def vals(self, key: str) -> Any:
         """Get defaults if corresponding raw values are unset."""
-        if key in self.raw_vals:
+        if self.raw_vals.get(key):
             return self.raw_vals[key]
         elif key in self._defaults:
             return self._defaults[key]
-- 
2.43.0


From 3367bd12cbed89c7ee1fe347205a4999471404f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 05/48] fix: select profiles by the path of their local
 directory

---
 zielen/commandbase.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index 97c42a1..ebcb1ea 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -28,7 +28,7 @@ import functools
 from zielen.paths import get_profiles_dir
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
 from zielen.profile import Profile
-from zielen.exceptions import InputError, StatusError
+from zielen.exceptions import FileParseError, InputError, StatusError
 
 
 def unlock(func):
@@ -86,11 +86,14 @@ class Command(abc.ABC):
         input_path = os.path.abspath(input_str)
         if os.path.exists(input_path):
             for name, profile in self.profiles.items():
-                if not profile.cfg.raw_vals:
-                    profile.cfg.read()
-                if os.path.samefile(
-                        input_path, profile.cfg.vals["LocalDir"]):
-                    return profile
+                try:
+                    profile.read()
+                    if os.path.samefile(input_path, profile.local_path):
+                        return profile
+                except (FileNotFoundError, FileParseError):
+                    # This profile is incomplete or its local directory
+                    # doesn't exist.
+                    continue
         raise InputError(
             "argument is not a profile name or local directory path")
 
-- 
2.43.0


From 2ba9a9b3fd457f8c2fd2d7e499e1fbda5d302539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 06/48] fix: transfer empty directories and symlinks to
 directories

---
 zielen/fstools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 65cee58..9709b27 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -67,11 +67,15 @@ def transfer_tree(
     else:
         rel_paths = set()
         for path in files:
+            rel_paths.add(path)
+            if os.path.islink(os.path.join(source, path)):
+                # Don't follow symlinks to directories.
+                continue
             try:
                 for entry in scan_tree(os.path.join(source, path)):
                     rel_paths.add(os.path.relpath(entry.path, source))
             except NotADirectoryError:
-                rel_paths.add(path)
+                pass
 
     if exclude is not None:
         rel_paths -= set(exclude)
-- 
2.43.0


From 3da0f0dfd2edfaeb689fa93731f95f02ac9f3b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 07/48] fix: don't follow symlinks when measuring transfer
 progress

---
 zielen/fstools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 9709b27..aab44f5 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -90,7 +90,7 @@ def transfer_tree(
     dest_paths = [os.path.join(dest, path) for path in rel_paths]
 
     if use_bar:
-        source_sizes = {path: os.stat(path).st_size for path in source_paths}
+        source_sizes = {path: os.lstat(path).st_size for path in source_paths}
         total_source_size = sum(source_sizes.values())
         transferred_size = 0
         transfer_bar = ProgressBar(PROGRESS_BAR_LENGTH, message=message)
-- 
2.43.0


From d4b68fc227138702cb37171fbecfda7af2804f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 08/48] fix: replace transferred files atomically

---
 zielen/fstools.py | 49 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index aab44f5..19d22e7 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -22,13 +22,17 @@ import sys
 import time
 import shutil
 import tempfile
+import contextlib
 from typing import Iterable, Optional, Set
 
-from zielen.utils import shell_cmd, ProgressBar
+from zielen.utils import shell_cmd, secure_string, ProgressBar
 from zielen.exceptions import FileTransferError
 
 PROGRESS_BAR_LENGTH = 0.35
 
+# Files are given a name with this prefix until they are completely written.
+TEMP_PREFIX = ".zielen-tmp-"
+
 
 def transfer_tree(
         source: str, dest: str, files=None, exclude=None,
@@ -98,12 +102,10 @@ def transfer_tree(
     for source_path, dest_path in zip(source_paths, dest_paths):
         os.makedirs(os.path.dirname(dest_path), exist_ok=True)
         try:
-            shutil.copy2(source_path, dest_path, follow_symlinks=False)
-        except (shutil.SameFileError, FileExistsError):
-            os.remove(dest_path)
-            shutil.copy2(source_path, dest_path, follow_symlinks=False)
-        except IsADirectoryError:
-            os.makedirs(dest_path, exist_ok=True)
+            if os.path.isdir(source_path) and not os.path.islink(source_path):
+                os.makedirs(dest_path, exist_ok=True)
+            else:
+                replace_file(source_path, dest_path)
         except PermissionError:
             raise FileTransferError("permission denied: {0}".format(
                 os.path.relpath(source_path, source)))
@@ -125,6 +127,36 @@ def transfer_tree(
         print()
 
 
+def replace_file(source: str, dest: str) -> None:
+    """Copy a file, preserving metadata, and atomically put it in place.
+
+    An existing file or symlink at the destination is replaced rather than
+    written to, so that it is never lost or left incomplete if the transfer is
+    interrupted. Symlinks are not followed.
+
+    Args:
+        source: The path of the file to copy.
+        dest: The path to copy the file to.
+    """
+    temp_path = temp_file_path(dest)
+    try:
+        shutil.copy2(source, temp_path, follow_symlinks=False)
+        os.replace(temp_path, dest)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.remove(temp_path)
+        raise
+
+
+def temp_file_path(path: str) -> str:
+    """Get an unused path for a temporary file in the directory of a file.
+
+    Args:
+        path: The path of the file.
+    """
+    return os.path.join(os.path.dirname(path), TEMP_PREFIX + secure_string(8))
+
+
 def symlink_tree(
         src_dir: str, dest_dir: str, src_files: Iterable[str],
         src_dirs: Iterable[str], overwrite=False) -> Set[str]:
@@ -193,6 +225,9 @@ def scan_tree(path: str):
         An os.DirEntry object for each file in the tree.
     """
     for entry in os.scandir(path):
+        if entry.name.startswith(TEMP_PREFIX):
+            # This was left behind by an interrupted transfer.
+            continue
         yield entry
         if entry.is_dir(follow_symlinks=False):
             yield from scan_tree(entry.path)
-- 
2.43.0


From 7f0ca44ae728feb9ecd1c150018816d720e23fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 09/48] fix: don't upload excluded files and unsafe symlinks
 with their directory

---
 zielen/filelogic.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index e3fa438..8644eb2 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -421,11 +421,18 @@ class FilesManager:
         Raises:
             RemoteError: The remote directory is unmounted.
         """
-        # Copy modified local files to the remote directory.
+        update_paths = set(update_paths)
+
+        # Copy modified local files to the remote directory. Files in a
+        # directory that aren't given themselves (e.g. excluded files and
+        # unsafe symlinks) aren't copied along with it.
         try:
             transfer_tree(
                 self.local_dir.path, self.remote_dir.safe_path,
-                files=update_paths, message="Updating remote files...")
+                files=update_paths,
+                exclude=self.local_dir.scan_paths(
+                    memoize=False).keys() - update_paths,
+                message="Updating remote files...")
         except FileNotFoundError:
             if not os.path.isdir(self.remote_dir.util_dir):
                 raise RemoteError("the remote directory could not be found")
-- 
2.43.0


From 6d6b5539fd45b0b7e495c99ee8cdc725155bd7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 10/48] fix: replace unneeded local files with symlinks
 atomically

---
 zielen/filelogic.py | 44 ++++++++++++++++++++++++--------------------
 zielen/fstools.py   | 12 ++++++++++++
 2 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 8644eb2..c207088 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -28,7 +28,8 @@ from zielen.profile import Profile, ProfileExcludeFile
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
 from zielen.utils import timestamp_path
 from zielen.fstools import (
-    is_unsafe_symlink, symlink_tree, transfer_tree, update_mtime)
+    is_unsafe_symlink, replace_with_symlink, symlink_tree, transfer_tree,
+    update_mtime)
 
 DeletedPaths = NamedTuple(
     "DeletedPaths",
@@ -367,27 +368,29 @@ class FilesManager:
         """
         update_paths = set(update_paths)
 
-        # Sort the file paths so that a directory's contents always come
-        # before the directory itself.
-        stale_paths = list(self.compute_stale(update_paths))
-        stale_paths.sort(key=lambda x: x.count(os.sep), reverse=True)
-
-        # Remove old, unneeded files to make room for new ones.
-        for stale_path in stale_paths:
+        # Replace old, unneeded files with symlinks to make room for new ones.
+        # This is done atomically so that an interrupted sync doesn't leave
+        # files missing, as that would cause the next sync to delete them from
+        # the remote directory.
+        stale_symlinks = set()
+        for stale_path in self.compute_stale(update_paths):
             full_stale_path = os.path.join(self.local_dir.path, stale_path)
+            full_remote_path = os.path.join(
+                self.remote_dir.safe_path, stale_path)
             if os.path.islink(full_stale_path):
-                # The path will just be replaced with a symlink anyways.
+                link_dest = os.readlink(full_stale_path)
+                if link_dest == full_remote_path:
+                    stale_symlinks.add(stale_path)
+                    continue
+                elif (is_unsafe_symlink(full_stale_path, self.local_dir.path)
+                        or os.path.islink(full_remote_path)
+                        and os.readlink(full_remote_path) == link_dest):
+                    # This symlink was created by the user.
+                    continue
+            elif os.path.isdir(full_stale_path):
                 continue
-            try:
-                os.remove(full_stale_path)
-            except IsADirectoryError:
-                try:
-                    os.rmdir(full_stale_path)
-                except OSError:
-                    # There are still files in the directory. This could
-                    # happen if there were symbolic links in the directory
-                    # that weren't deleted.
-                    pass
+            replace_with_symlink(full_remote_path, full_stale_path)
+            stale_symlinks.add(stale_path)
 
         try:
             nonlocal_paths = symlink_tree(
@@ -410,7 +413,8 @@ class FilesManager:
         for update_path in update_paths:
             self.profile.update_paths(
                 self.profile.get_paths(root=update_path).keys(), local=True)
-        self.profile.update_paths(nonlocal_paths, local=False)
+        self.profile.update_paths(
+            nonlocal_paths | stale_symlinks, local=False)
 
     def update_remote(self, update_paths: Iterable[str]) -> None:
         """Update the remote directory with local files.
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 19d22e7..e9c0ae8 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -148,6 +148,18 @@ def replace_file(source: str, dest: str) -> None:
         raise
 
 
+def replace_with_symlink(target: str, path: str) -> None:
+    """Atomically replace a file with a symlink.
+
+    Args:
+        target: The path that the symlink points to.
+        path: The path of the file to replace.
+    """
+    temp_path = temp_file_path(path)
+    os.symlink(target, temp_path)
+    os.replace(temp_path, path)
+
+
 def temp_file_path(path: str) -> str:
     """Get an unused path for a temporary file in the directory of a file.
 
-- 
2.43.0


From 90273a3c459b476d00be027a78f18ebaf8200bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 11/48] fix: record files copied to the local directory as
 local

---
 zielen/filelogic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index c207088..e762b99 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -410,11 +410,11 @@ class FilesManager:
 
         # Update the database with information about which paths are being
         # kept in the local directory.
+        self.profile.update_paths(
+            nonlocal_paths | stale_symlinks, local=False)
         for update_path in update_paths:
             self.profile.update_paths(
                 self.profile.get_paths(root=update_path).keys(), local=True)
-        self.profile.update_paths(
-            nonlocal_paths | stale_symlinks, local=False)
 
     def update_remote(self, update_paths: Iterable[str]) -> None:
         """Update the remote directory with local files.
-- 
2.43.0


From a1be44665966e7c26ce1541fab151abf262732d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 12/48] fix: don't follow symlinks in the trash

---
 zielen/filelogic.py | 6 +++---
 zielen/fstools.py   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index e762b99..1040e8a 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -873,10 +873,10 @@ class FilesManager:
         """Delete old files from the remote trash directory."""
         cutoff_time = time.time() - self.profile.cleanup_period
         for entry in os.scandir(self.remote_dir.trash_dir):
-            if entry.stat().st_mtime <= cutoff_time:
-                try:
+            if entry.stat(follow_symlinks=False).st_mtime <= cutoff_time:
+                if entry.is_dir(follow_symlinks=False):
                     shutil.rmtree(entry.path)
-                except NotADirectoryError:
+                else:
                     os.remove(entry.path)
 
     def get_excluded_size(self) -> int:
diff --git a/zielen/fstools.py b/zielen/fstools.py
index e9c0ae8..ce6a7a8 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -280,9 +280,9 @@ def update_mtime(path) -> None:
     Args:
         path: The path of the file or directory.
     """
-    if os.path.isdir(path):
+    if os.path.isdir(path) and not os.path.islink(path):
         tempfile.NamedTemporaryFile(dir=path).close()
-    elif os.path.exists(path):
+    elif os.path.lexists(path):
         current = time.time()
         os.utime(path, times=(current, current), follow_symlinks=False)
 
-- 
2.43.0


From 89894bbef111278f7541bb10f2754795d225eeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 13/48] fix: clean up the trash if TrashCleanupPeriod is zero

---
 zielen/commands/sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 61a0e55..0874bf9 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -131,7 +131,7 @@ class SyncCommand(Command):
         fm.rm_excluded_files(remote_excluded_files)
 
         # Clean up the remote trash directory.
-        if self.profile.cleanup_period:
+        if self.profile.cleanup_period is not None:
             fm.cleanup_trash()
 
         # The sync is now complete. Update the time of the last sync in the
-- 
2.43.0


From ca9de153fbf8309ee9064cb474936a6f2c725471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 14/48] fix: write the profile info file atomically

---
 zielen/containerbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 2991cdd..edf7229 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -106,8 +106,10 @@ class JSONFile:
 
     def write(self) -> None:
         """Write object to a file."""
-        with open(self.path, "w") as file:
+        temp_path = self.path + ".tmp"
+        with open(temp_path, "w") as file:
             json.dump(self.vals, file, indent=4)
+        os.replace(temp_path, self.path)
 
 
 class SyncDBFile:
-- 
2.43.0


From a1b751765c979b30a5f89146beddf78044dccf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 15/48] fix: inflate the priority of the first file in an empty
 profile

---
 zielen/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 44d41d0..89f8d41 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -642,7 +642,7 @@ class ProfileDBFile(SyncDBFile):
             dirs: The paths of directories to add to the database.
         """
         self._cur.execute("""\
-            SELECT MAX(priority) FROM nodes
+            SELECT COALESCE(MAX(priority), 0) FROM nodes
             WHERE directory = 0;
             """)
         max_priority = self._cur.fetchone()[0]
-- 
2.43.0


From 50bfeafd301d7b342d41c8b6570a55d519a6e765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 16/48] fix: match exclude patterns in directories with special
 characters in their path

---
 zielen/profile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 89f8d41..f6ca71a 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -352,6 +352,7 @@ class ProfileExcludeFile:
         """
         self._matches[start_path] = set()
         self._all_matches[start_path] = set()
+        escaped_path = glob.escape(start_path)
 
         for line in self._readlines():
             # This assumes that cases where the user may accidentally leave
@@ -361,10 +362,10 @@ class ProfileExcludeFile:
             if not line:
                 continue
             if line.startswith("/"):
-                glob_str = os.path.join(start_path, line.lstrip("/"))
+                glob_str = os.path.join(escaped_path, line.lstrip("/"))
             else:
                 # Glob patterns without a leading slash search the whole tree.
-                glob_str = os.path.join(start_path, "**", line)
+                glob_str = os.path.join(escaped_path, "**", line)
 
             for match_path in glob.glob(glob_str, recursive=True):
                 rel_match_path = os.path.relpath(match_path, start_path)
-- 
2.43.0


From 094c43b4a8cf5b0031562155a8e576eadb796650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 17/48] fix: remove renamed paths from the remote database too

---
 zielen/filelogic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 1040e8a..340b8e0 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -718,7 +718,7 @@ class FilesManager:
                 os.path.join(parent_dir, old_path),
                 os.path.join(parent_dir, new_path))
 
-        old_paths = (old_path for old_path, new_path in path_pairs)
+        old_paths = [old_path for old_path, new_path in path_pairs]
 
         # Separate paths of directories from paths of regular files based on
         # whether the old paths are entered as directories in the database.
-- 
2.43.0


From 70ae2b564eed13d121098cd903edd015e6ec8711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 18/48] fix: never rename a conflicting file to the name of an
 existing file

---
 zielen/filelogic.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 340b8e0..c9946bb 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -544,8 +544,10 @@ class FilesManager:
         local_diff = PathsDiff(local_paths)
         remote_diff = PathsDiff(remote_paths)
 
+        used_paths = local_mtimes.keys() | remote_mtimes.keys()
         for path in conflict_paths:
-            new_path = timestamp_path(path, keyword="conflict")
+            new_path = self._get_conflict_path(path, used_paths)
+            used_paths.add(new_path)
             path_data = self.profile.get_path_info(path)
             if path_data and path_data.directory:
                 continue
@@ -561,6 +563,22 @@ class FilesManager:
 
         return UpdatedPaths(local_diff.res_paths, remote_diff.res_paths)
 
+    @staticmethod
+    def _get_conflict_path(path: str, used_paths: Set[str]) -> str:
+        """Get an unused path for renaming a file involved in a conflict.
+
+        Args:
+            path: The relative path of the file.
+            used_paths: The relative paths of existing files.
+        """
+        new_path = timestamp_path(path, keyword="conflict")
+        name, extension = os.path.splitext(new_path)
+        counter = 0
+        while new_path in used_paths:
+            counter += 1
+            new_path = "{0}({1}){2}".format(name, counter, extension)
+        return new_path
+
     def compute_stale(self, retained_paths: Iterable[str]) -> Set[str]:
         """Compute the paths of files that are unneeded.
 
-- 
2.43.0


From ff09b619ab31aff613bd5d3aa12e25390725dc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 19/48] fix: tolerate differences between the remote directory
 and its database

---
 zielen/filelogic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index c9946bb..08de3e2 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -637,7 +637,8 @@ class FilesManager:
             self.local_dir.path)
         new_remote_paths = {
             path for path in self.remote_dir.scan_paths().keys()
-            if not self.profile.get_path_info(path)}
+            if not self.profile.get_path_info(path)
+            or not self.remote_dir.get_path_info(path)}
 
         return UpdatedPaths(new_local_paths, new_remote_paths)
 
@@ -676,8 +677,10 @@ class FilesManager:
             path for path, mtime in remote_mtimes
             if mtime > last_sync and self.profile.get_path_info(path)}
 
-        remote_mod_paths |= self.remote_dir.get_paths(
-            directory=False, min_lastsync=last_sync).keys()
+        remote_mod_paths |= (
+            self.remote_dir.get_paths(
+                directory=False, min_lastsync=last_sync).keys()
+            & self.remote_dir.scan_paths(dirs=False).keys())
 
         return UpdatedPaths(local_mod_paths, remote_mod_paths)
 
-- 
2.43.0


From 6878f5ae4404012a4e8295e0ab3d28b760fdc546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:18 +0000
Subject: [PATCH 20/48] fix: never delete files that have changed since the
 last sync

---
 zielen/commands/sync.py | 23 +++++++++-------
 zielen/filelogic.py     | 59 +++++++++++++++++++++++++++++++++++------
 2 files changed, 64 insertions(+), 18 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 0874bf9..004d121 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -63,18 +63,26 @@ class SyncCommand(Command):
         fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
         self.remote_dir.add_exclude_file(self.profile.exclude_path, self.profile.id)
 
+        # Sync deletions between the local and remote directories.
+        del_paths = fm.compute_deleted()
+        fm.rm_local_files(del_paths.local)
+        fm.rm_remote_files(del_paths.remote)
+        fm.trash_files(del_paths.trash)
+
         # Scan the local and remote directories.
         file_paths = (
-            self.local_dir.scan_paths(dirs=False).keys()
-            | self.remote_dir.scan_paths(dirs=False).keys())
+            self.local_dir.scan_paths(dirs=False, memoize=False).keys()
+            | self.remote_dir.scan_paths(dirs=False, memoize=False).keys())
         dir_paths = (
             self.local_dir.scan_paths(files=False, symlinks=False).keys()
             | self.remote_dir.scan_paths(files=False, symlinks=False).keys())
 
-        # Get the paths of files that have been added, deleted or modified
-        # since the last sync.
+        # Stop keeping track of files that aren't in the remote directory.
+        fm.rm_missing_paths()
+
+        # Get the paths of files that have been added or modified since the
+        # last sync.
         new_paths = fm.compute_added()
-        del_paths = fm.compute_deleted()
         mod_paths = fm.compute_modified()
 
         # Add new files to both databases, and inflate the priority of new
@@ -88,11 +96,6 @@ class SyncCommand(Command):
         self.remote_dir.add_paths(new_file_paths, new_dir_paths)
         self.profile.add_paths(new_file_paths, new_dir_paths)
 
-        # Sync deletions between the local and remote directories.
-        fm.rm_local_files(del_paths.local)
-        fm.rm_remote_files(del_paths.remote)
-        fm.trash_files(del_paths.trash)
-
         # Handle syncing conflicts.
         updated_paths = fm.handle_conflicts(
             mod_paths.local | new_paths.local,
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 08de3e2..630cfcb 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -25,8 +25,8 @@ from typing import Iterable, Tuple, Set, NamedTuple
 
 from zielen.exceptions import RemoteError, AvailableSpaceError
 from zielen.profile import Profile, ProfileExcludeFile
-from zielen.userdata import LocalSyncDir, RemoteSyncDir
-from zielen.utils import timestamp_path
+from zielen.userdata import SyncDir, LocalSyncDir, RemoteSyncDir
+from zielen.utils import get_path_ancestry, timestamp_path
 from zielen.fstools import (
     is_unsafe_symlink, replace_with_symlink, symlink_tree, transfer_tree,
     update_mtime)
@@ -690,21 +690,41 @@ class FilesManager:
         A file needs to be deleted if it is found in the local database but
         not in either the local or remote directory. A file moved to the
         trash if it needs to be deleted from the remote directory but is not
-        found in any of the local trash directories.
+        found in any of the local trash directories. A file that has been
+        added or modified since the last sync is never deleted, and neither
+        are excluded local files and the directories they're in.
 
         Returns:
             A named tuple containing three sets of relative file paths: local
             files to be deleted, remote files to be deleted and remote files to
             be moved to the trash.
         """
-        local_paths = self.local_dir.scan_paths().keys()
-        remote_paths = self.remote_dir.scan_paths().keys()
-        known_paths = self.profile.get_paths().keys()
+        # A file that has been replaced with a directory or vice versa counts
+        # as having been deleted.
+        local_paths = self._get_path_types(self.local_dir)
+        remote_paths = self._get_path_types(self.remote_dir)
+        known_paths = {
+            (path, data.directory)
+            for path, data in self.profile.get_paths().items()}
+
+        # Compute which files must be kept because they've changed.
+        mod_paths = self.compute_modified()
+        local_kept_paths = (
+            {path for path, directory in local_paths - known_paths}
+            | mod_paths.local
+            | self.profile.all_exclude_matches(self.local_dir.path))
+        remote_kept_paths = (
+            {path for path, directory in remote_paths - known_paths}
+            | mod_paths.remote)
 
         # Compute files that need to be deleted, not including the files
         # under selected directories.
-        local_del_paths = known_paths - remote_paths
-        remote_del_paths = known_paths - local_paths
+        local_del_paths = {
+            path for path, directory in known_paths - remote_paths}
+        remote_del_paths = {
+            path for path, directory in known_paths - local_paths}
+        local_del_paths -= set(get_path_ancestry(local_kept_paths))
+        remote_del_paths -= set(get_path_ancestry(remote_kept_paths))
         for path in local_del_paths.copy():
             sub_paths = set(self.profile.get_paths(root=path).keys())
             sub_paths.discard(path)
@@ -724,6 +744,29 @@ class FilesManager:
 
         return DeletedPaths(local_del_paths, remote_del_paths, trash_paths)
 
+    @staticmethod
+    def _get_path_types(sync_dir: SyncDir) -> Set[Tuple[str, bool]]:
+        """Get the paths in a directory and whether each is a directory."""
+        dir_paths = sync_dir.scan_paths(files=False, symlinks=False).keys()
+        return {
+            (path, path in dir_paths) for path in sync_dir.scan_paths().keys()}
+
+    def rm_missing_paths(self) -> None:
+        """Remove paths not in the remote directory from both databases.
+
+        Local files that were kept even though they've been deleted from the
+        remote directory are considered to be new as a result.
+        """
+        remote_paths = self._get_path_types(self.remote_dir)
+        missing_paths = {
+            path for path, data in (
+                *self.profile.get_paths().items(),
+                *self.remote_dir.get_paths().items())
+            if (path, data.directory) not in remote_paths}
+
+        self.profile.rm_paths(missing_paths)
+        self.remote_dir.rm_paths(missing_paths)
+
     def _rename_files(
             self, path_pairs: Iterable[Tuple[str, str]],
             parent_dir: str) -> None:
-- 
2.43.0


From 144afd912857e39e9c030b35ad3a4312e39c4dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 21/48] fix: rename files that clash with a directory on the
 other side

---
 zielen/commands/sync.py | 13 ++++++++++---
 zielen/filelogic.py     | 29 +++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 004d121..832bada 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -69,6 +69,16 @@ class SyncCommand(Command):
         fm.rm_remote_files(del_paths.remote)
         fm.trash_files(del_paths.trash)
 
+        # Scan the directories again now that files have been deleted.
+        self.local_dir.scan_paths(memoize=False)
+        self.remote_dir.scan_paths(memoize=False)
+
+        # Stop keeping track of files that aren't in the remote directory.
+        fm.rm_missing_paths()
+
+        # Handle files that have been replaced with directories or vice versa.
+        fm.rename_clashing_files()
+
         # Scan the local and remote directories.
         file_paths = (
             self.local_dir.scan_paths(dirs=False, memoize=False).keys()
@@ -77,9 +87,6 @@ class SyncCommand(Command):
             self.local_dir.scan_paths(files=False, symlinks=False).keys()
             | self.remote_dir.scan_paths(files=False, symlinks=False).keys())
 
-        # Stop keeping track of files that aren't in the remote directory.
-        fm.rm_missing_paths()
-
         # Get the paths of files that have been added or modified since the
         # last sync.
         new_paths = fm.compute_added()
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 630cfcb..5423f5c 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -767,6 +767,35 @@ class FilesManager:
         self.profile.rm_paths(missing_paths)
         self.remote_dir.rm_paths(missing_paths)
 
+    def rename_clashing_files(self) -> None:
+        """Rename files which are a directory on the other side.
+
+        As directories don't experience conflicts, it's always the file that is
+        renamed. Both paths are then considered to be new. Excluded files are
+        left as they are.
+        """
+        local_types = dict(self._get_path_types(self.local_dir))
+        remote_types = dict(self._get_path_types(self.remote_dir))
+        clashing_paths = {
+            path for path in local_types.keys() & remote_types.keys()
+            if local_types[path] != remote_types[path]}
+        clashing_paths -= self.profile.all_exclude_matches(self.local_dir.path)
+        used_paths = local_types.keys() | remote_types.keys()
+
+        for path in clashing_paths:
+            if local_types[path]:
+                parent_dir = self.remote_dir.safe_path
+            else:
+                parent_dir = self.local_dir.path
+            new_path = self._get_conflict_path(path, used_paths)
+            used_paths.add(new_path)
+            os.rename(
+                os.path.join(parent_dir, path),
+                os.path.join(parent_dir, new_path))
+
+        self.profile.rm_paths(clashing_paths)
+        self.remote_dir.rm_paths(clashing_paths)
+
     def _rename_files(
             self, path_pairs: Iterable[Tuple[str, str]],
             parent_dir: str) -> None:
-- 
2.43.0


From 5db4f23ceb69ecc5a953be8460c062a8f8e6b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 22/48] fix: don't take an unmounted remote directory for
 deleted files

---
 zielen/filelogic.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 5423f5c..be6c43f 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -707,6 +707,11 @@ class FilesManager:
             (path, data.directory)
             for path, data in self.profile.get_paths().items()}
 
+        # If the remote directory has been unmounted, its files only appear to
+        # have been deleted.
+        if not os.path.isdir(self.remote_dir.util_dir):
+            raise RemoteError("the remote directory could not be found")
+
         # Compute which files must be kept because they've changed.
         mod_paths = self.compute_modified()
         local_kept_paths = (
@@ -758,6 +763,8 @@ class FilesManager:
         remote directory are considered to be new as a result.
         """
         remote_paths = self._get_path_types(self.remote_dir)
+        if not os.path.isdir(self.remote_dir.util_dir):
+            raise RemoteError("the remote directory could not be found")
         missing_paths = {
             path for path, data in (
                 *self.profile.get_paths().items(),
-- 
2.43.0


From 814d89baac66c5ee6ffdc4e1b3cdb4d3ca304ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 23/48] fix: track files that were symlinked before
 initialization was interrupted

---
 zielen/filelogic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index be6c43f..220342f 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -496,7 +496,9 @@ class FilesManager:
             else:
                 raise
 
-        self._setup_dir(unsafe_symlinks)
+        # Unsafe symlinks aren't in the remote directory. If initialization
+        # was interrupted, they include links to files that are.
+        self._setup_dir(set())
 
     def setup_from_remote(self) -> None:
         """Symlink initial remote files to the local directory."""
-- 
2.43.0


From 2a77d4d9bbd141a6cd8f59917288bde1d0a9155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 24/48] fix: never lose files when a profile is reset

---
 zielen/commands/reset.py | 60 +++++++++++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 10 deletions(-)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 0725e17..dfe9fd4 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -19,9 +19,11 @@ along with zielen.  If not, see <http://www.gnu.org/licenses/>.
 """
 import os
 import shutil
+from typing import Set
 
 from zielen.exceptions import (
     RemoteError, AvailableSpaceError, FileTransferError)
+from zielen.filelogic import FilesManager
 from zielen.fstools import transfer_tree
 from zielen.commandbase import Command, unlock
 
@@ -51,19 +53,24 @@ class ResetCommand(Command):
         self.setup_profile()
 
         if not self.no_retrieve:
+            if not os.path.isdir(self.remote_dir.util_dir):
+                raise RemoteError("the remote directory could not be found")
+
             # Check if there is enough space locally to accommodate remote
             # files.
             if self.remote_dir.disk_usage() > self.local_dir.space_avail():
                 raise AvailableSpaceError(
                     "not enough local space to accommodate remote files")
 
+            # Never overwrite local files that haven't been synced.
+            unsynced_paths = self._get_unsynced_paths()
+
             # Retrieve remote files.
             try:
                 transfer_tree(
                     self.remote_dir.safe_path, self.local_dir.path,
-                    files=self.remote_dir.get_paths(),
-                    message="Retrieving files...",
-                    rm_source=not self.keep_remote)
+                    files=self.remote_dir.scan_paths(),
+                    exclude=unsynced_paths, message="Retrieving files...")
             except FileNotFoundError:
                 if not os.path.isdir(self.remote_dir.util_dir):
                     raise RemoteError(
@@ -72,19 +79,24 @@ class ResetCommand(Command):
                     raise
 
             if not self.keep_remote:
-                # Check that the remote directory contains only empty
-                # directories and the util directory.
-                if self.remote_dir.scan_paths(dirs=False, memoize=False):
-                    raise FileTransferError("some files were not retrieved")
+                # Check that every file was retrieved.
+                for path in self.remote_dir.scan_paths(memoize=False):
+                    if (not os.path.lexists(
+                                os.path.join(self.local_dir.path, path))
+                            or self._is_remote_link(path)):
+                        raise FileTransferError("some files were not retrieved")
 
                 # Close the database connection, and then remove the
                 # contents of the remote directory. If the database
                 # connection is not closed, the util directory will not be
-                # able to be deleted.
+                # able to be deleted. The util directory is removed first so
+                # that a sync can't take the rest for deleted files if this is
+                # interrupted.
                 self.remote_dir.close()
                 try:
+                    shutil.rmtree(self.remote_dir.util_dir)
                     for entry in os.scandir(self.remote_dir.path):
-                        if entry.is_dir:
+                        if entry.is_dir(follow_symlinks=False):
                             shutil.rmtree(entry.path)
                         else:
                             os.remove(entry.path)
@@ -94,7 +106,7 @@ class ResetCommand(Command):
         # Remove non-user-created symlinks from the local directory. These
         # are symlinks that point to the remote directory.
         local_symlinks = self.local_dir.scan_paths(
-            files=False, dirs=False).keys()
+            files=False, dirs=False, memoize=False).keys()
         for rel_path in local_symlinks:
             full_path = os.path.join(self.local_dir.path, rel_path)
             link_dest = os.readlink(full_path)
@@ -107,3 +119,31 @@ class ResetCommand(Command):
 
         self.remote_dir.rm_exclude_file(self.profile.id)
         shutil.rmtree(self.profile.path)
+
+    def _is_remote_link(self, path: str) -> bool:
+        """Check if a local file is a symlink to its remote counterpart."""
+        full_path = os.path.join(self.local_dir.path, path)
+        return (
+            os.path.islink(full_path) and os.readlink(full_path)
+            == os.path.join(self.remote_dir.safe_path, path))
+
+    def _get_unsynced_paths(self) -> Set[str]:
+        """Get the paths of local files with changes that haven't been synced.
+
+        Raises:
+            FileTransferError: The files would be removed from the remote
+                directory, but some have been changed there as well.
+        """
+        fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
+        mod_paths = fm.compute_modified()
+        unsynced_paths = mod_paths.local | {
+            path for path in self.local_dir.scan_paths(dirs=False)
+            if not self.profile.get_path_info(path)
+            and not self._is_remote_link(path)}
+        changed_paths = mod_paths.remote | fm.compute_added().remote
+        if unsynced_paths & changed_paths and not self.keep_remote:
+            raise FileTransferError(
+                "some files have been changed in both directories; run "
+                "'zielen sync' first")
+
+        return unsynced_paths
-- 
2.43.0


From 9a2d27ab39a7550d4a323a3025778d2e04f65052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 25/48] fix: lock the profile before reading it

---
 zielen/commandbase.py   | 3 ++-
 zielen/commands/init.py | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index ebcb1ea..bf7c612 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -103,8 +103,9 @@ class Command(abc.ABC):
         Raises:
             InputError: The selected profile is only partially initialized.
         """
-        self.profile.read()
+        # The profile must not be read until no other operation can change it.
         self.lock()
+        self.profile.read()
 
         # Warn if profile is only partially initialized.
         if self.profile.status == "partial":
diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 3abb4ff..7384af0 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -93,6 +93,10 @@ class InitCommand(Command):
 
         atexit.register(cleanup_profile)
         self.profile = Profile(self.profile_input)
+
+        # Lock profile if not already locked.
+        self.lock()
+
         try:
             self.profile.read()
         except FileNotFoundError:
@@ -102,9 +106,6 @@ class InitCommand(Command):
         if self.profile.status == "initialized":
             raise InputError("this profile already exists")
 
-        # Lock profile if not already locked.
-        self.lock()
-
         # Check whether an interrupted initialization is being resumed.
         if self.profile.status == "partial":
             # Resume an interrupted initialization.
-- 
2.43.0


From d7809cf6fcc40d8b030acb2ec570f9643d8fcc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 26/48] fix: don't measure excluded files renamed in a conflict

---
 zielen/filelogic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 220342f..3b5bcdb 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -987,7 +987,10 @@ class FilesManager:
         Returns:
             The disk usage as a number of bytes.
         """
+        # Excluded files may have been renamed since because of a conflict.
+        local_stats = self.local_dir.scan_paths()
         total_excluded_size = sum(
-            self.local_dir.scan_paths()[path].st_blocks * 512
-            for path in self.profile.all_exclude_matches(self.local_dir.path))
+            local_stats[path].st_blocks * 512
+            for path in self.profile.all_exclude_matches(self.local_dir.path)
+            if path in local_stats)
         return total_excluded_size
-- 
2.43.0


From 9f83a39b83a78004780bb1302dbb66686d3924c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 27/48] fix: never overwrite an excluded local file that has
 never been synced

---
 zielen/filelogic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 3b5bcdb..49a831f 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -635,8 +635,11 @@ class FilesManager:
             if not self.profile.get_path_info(path)
             and not is_unsafe_symlink(
                 os.path.join(self.local_dir.path, path), self.local_dir.path)}
-        new_local_paths -= self.profile.all_exclude_matches(
-            self.local_dir.path)
+        # Excluded files that are in the remote directory can be overwritten, so
+        # they must be included for conflicts to be found.
+        new_local_paths -= (
+            self.profile.all_exclude_matches(self.local_dir.path)
+            - self.remote_dir.scan_paths().keys())
         new_remote_paths = {
             path for path in self.remote_dir.scan_paths().keys()
             if not self.profile.get_path_info(path)
-- 
2.43.0


From 424882947354906425ef8af625da0e096907a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 28/48] fix: resolve clashes between excluded files and remote
 directories

---
 zielen/filelogic.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 49a831f..2d17558 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -783,15 +783,13 @@ class FilesManager:
         """Rename files which are a directory on the other side.
 
         As directories don't experience conflicts, it's always the file that is
-        renamed. Both paths are then considered to be new. Excluded files are
-        left as they are.
+        renamed. Both paths are then considered to be new.
         """
         local_types = dict(self._get_path_types(self.local_dir))
         remote_types = dict(self._get_path_types(self.remote_dir))
         clashing_paths = {
             path for path in local_types.keys() & remote_types.keys()
             if local_types[path] != remote_types[path]}
-        clashing_paths -= self.profile.all_exclude_matches(self.local_dir.path)
         used_paths = local_types.keys() | remote_types.keys()
 
         for path in clashing_paths:
-- 
2.43.0


From 130184784e5f156ffdd94be83feb7f46b90ac70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 29/48] fix: don't follow excluded symlinks

---
 zielen/profile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zielen/profile.py b/zielen/profile.py
index f6ca71a..1f5c6cb 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -371,6 +371,9 @@ class ProfileExcludeFile:
                 rel_match_path = os.path.relpath(match_path, start_path)
                 self._matches[start_path].add(rel_match_path)
                 self._all_matches[start_path].add(rel_match_path)
+                if os.path.islink(match_path.rstrip(os.sep)):
+                    # Don't follow symlinks, which may be broken.
+                    continue
                 try:
                     for entry in scan_tree(match_path):
                         self._all_matches[start_path].add(
-- 
2.43.0


From cc3b96483ca86a0b0128c3d3ba06d9bc34880178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 30/48] fix: don't follow symlinks or fail when deleting
 missing paths

---
 zielen/filelogic.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 2d17558..ecb4cc8 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -865,15 +865,17 @@ class FilesManager:
             else:
                 raise
 
-    def _rm_files(self, paths: Iterable[str], parent_dir: str) -> None:
+    def _rm_files(self, paths: Iterable[str], sync_dir: SyncDir) -> None:
         """Delete files and remove them from both databases.
 
         Args:
             paths: The relative paths of files to remove.
-            parent_dir: The directory in which the paths to be deleted reside.
+            sync_dir: The directory in which the paths to be deleted reside.
         """
-        for path in paths:
-            full_path = os.path.join(parent_dir, path)
+        # A missing path may have a file or a symlink in place of one of its
+        # parents, which must not be followed.
+        for path in sync_dir.scan_paths().keys() & set(paths):
+            full_path = os.path.join(sync_dir.path, path)
             try:
                 os.remove(full_path)
             except IsADirectoryError:
@@ -896,7 +898,7 @@ class FilesManager:
         """
         paths = set(paths)
         paths -= self.profile.all_exclude_matches(self.local_dir.path)
-        self._rm_files(paths, self.local_dir.path)
+        self._rm_files(paths, self.local_dir)
 
     def rm_remote_files(self, paths: Iterable[str]) -> None:
         """Delete remote files and remove them from both databases.
@@ -904,7 +906,7 @@ class FilesManager:
         Args:
             paths: The relative paths of files to remove.
         """
-        self._rm_files(paths, self.remote_dir.path)
+        self._rm_files(paths, self.remote_dir)
 
     def rm_excluded_files(self, excluded_paths: Iterable[str]) -> None:
         """Remove excluded files from the remote directory.
@@ -941,7 +943,7 @@ class FilesManager:
 
         trash_filenames = {
             entry.name for entry in os.scandir(self.remote_dir.trash_dir)}
-        old_paths = list(paths)
+        old_paths = list(self.remote_dir.scan_paths().keys() & set(paths))
         old_filenames = [os.path.basename(path) for path in old_paths]
 
         # Come up with a new filename if the current one collides with the
@@ -969,8 +971,8 @@ class FilesManager:
                 # This could happen if a previous sync was interrupted.
                 pass
 
-        self.profile.rm_paths(old_paths)
-        self.remote_dir.rm_paths(old_paths)
+        self.profile.rm_paths(paths)
+        self.remote_dir.rm_paths(paths)
 
     def cleanup_trash(self) -> None:
         """Delete old files from the remote trash directory."""
-- 
2.43.0


From 3402472b3f18b25261826573c5583a7fbbcade37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 31/48] fix: reset refuses to retrieve files over directories
 and vice versa

---
 zielen/commands/reset.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index dfe9fd4..d1caa87 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -141,9 +141,26 @@ class ResetCommand(Command):
             if not self.profile.get_path_info(path)
             and not self._is_remote_link(path)}
         changed_paths = mod_paths.remote | fm.compute_added().remote
-        if unsynced_paths & changed_paths and not self.keep_remote:
+
+        # A file can't be retrieved if there's a directory in its place or if
+        # one of its parent directories is a file.
+        local_dirs = self.local_dir.scan_paths(
+            files=False, symlinks=False).keys()
+        remote_dirs = self.remote_dir.scan_paths(
+            files=False, symlinks=False).keys()
+        clashing_paths = {
+            path for path in (self.local_dir.scan_paths().keys()
+                              & self.remote_dir.scan_paths().keys())
+            if (path in local_dirs) != (path in remote_dirs)}
+
+        if ((unsynced_paths & changed_paths or clashing_paths)
+                and not self.keep_remote):
             raise FileTransferError(
                 "some files have been changed in both directories; run "
                 "'zielen sync' first")
 
-        return unsynced_paths
+        return unsynced_paths | {
+            path for path in self.remote_dir.scan_paths()
+            if any(path == clashing_path
+                   or path.startswith(clashing_path + os.sep)
+                   for clashing_path in clashing_paths)}
-- 
2.43.0


From 3d1c12bd7c252b5dcedf2471ec1fa388600dced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 32/48] fix: exclude patterns don't match files behind symlinks

---
 zielen/profile.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/zielen/profile.py b/zielen/profile.py
index 1f5c6cb..f94acea 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -369,6 +369,9 @@ class ProfileExcludeFile:
 
             for match_path in glob.glob(glob_str, recursive=True):
                 rel_match_path = os.path.relpath(match_path, start_path)
+                if self._is_behind_symlink(rel_match_path, start_path):
+                    # The file isn't in the directory that's being searched.
+                    continue
                 self._matches[start_path].add(rel_match_path)
                 self._all_matches[start_path].add(rel_match_path)
                 if os.path.islink(match_path.rstrip(os.sep)):
@@ -381,6 +384,16 @@ class ProfileExcludeFile:
                 except NotADirectoryError:
                     pass
 
+    @staticmethod
+    def _is_behind_symlink(rel_path: str, start_path: str) -> bool:
+        """Return whether any parent directory of a file is a symlink."""
+        parent_path = os.path.dirname(rel_path)
+        while parent_path:
+            if os.path.islink(os.path.join(start_path, parent_path)):
+                return True
+            parent_path = os.path.dirname(parent_path)
+        return False
+
     def matches(self, start_path: str) -> Set[str]:
         """Get the paths of files that match globbing patterns.
 
-- 
2.43.0


From bd6960d25ee9d9c7f6f6a21be58027e920006186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 33/48] fix: record uploaded files before replacing local files
 with symlinks

---
 zielen/commands/sync.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 832bada..b8d4af1 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -118,6 +118,11 @@ class SyncCommand(Command):
         # Update the remote directory with modified local files.
         fm.update_remote(updated_paths.local)
 
+        # Other clients learn about these files from the database. This must
+        # happen before any of them are replaced with symlinks, as they won't
+        # be uploaded again if the sync is interrupted after that.
+        self.remote_dir.write()
+
         # At this point, the differences between the two directories have been
         # resolved.
 
-- 
2.43.0


From 67957342a6542c0193ec720bb7520f6348393460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 34/48] fix: init cleans up before it unlocks the profile

---
 zielen/commandbase.py   | 14 +++++++++++---
 zielen/commands/init.py |  6 +++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index bf7c612..1e80d17 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -39,9 +39,14 @@ def unlock(func):
             return func(self, *args, **kwargs)
         finally:
             try:
-                self.lock_socket.close()
-            except AttributeError:
-                pass
+                # No other operation may start until this one has cleaned up.
+                for cleanup_func in reversed(self.cleanup_funcs):
+                    cleanup_func()
+            finally:
+                try:
+                    self.lock_socket.close()
+                except AttributeError:
+                    pass
     return wrapper
 
 
@@ -54,6 +59,8 @@ class Command(abc.ABC):
         local_dir: A LocalSyncDir object representing the local directory.
         remote_dir: A RemoteSyncDir object representing the remote directory.
         lock_socket: A unix domain socket used for locking a profile.
+        cleanup_funcs: A list of functions to call before the profile is
+            unlocked.
     """
     def __init__(self) -> None:
         os.makedirs(get_profiles_dir(), exist_ok=True)
@@ -65,6 +72,7 @@ class Command(abc.ABC):
         self.local_dir = None
         self.remote_dir = None
         self.lock_socket = None
+        self.cleanup_funcs = []
 
     @abc.abstractmethod
     def main(self) -> None:
diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 7384af0..83803d4 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -91,11 +91,11 @@ class InitCommand(Command):
                 raise InputError(
                     "argument for '--template' is not a valid file")
 
-        atexit.register(cleanup_profile)
         self.profile = Profile(self.profile_input)
 
         # Lock profile if not already locked.
         self.lock()
+        self.cleanup_funcs.append(cleanup_profile)
 
         try:
             self.profile.read()
@@ -121,7 +121,7 @@ class InitCommand(Command):
             fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
         else:
             # Start a new initialization.
-            atexit.register(delete_profile)
+            self.cleanup_funcs.append(delete_profile)
 
             # Generate all files in the profile directory.
             init_options = {
@@ -151,7 +151,7 @@ class InitCommand(Command):
             # initialization is interrupted from this point, it can be
             # resumed.
             atexit.register(self.print_interrupt_msg)
-            atexit.unregister(delete_profile)
+            self.cleanup_funcs.remove(delete_profile)
 
         self.remote_dir.generate()
 
-- 
2.43.0


From 8893f320cefab0ec655971f8a841a17ae053ed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 35/48] fix: a command that waited for the lock used the
 database of a profile that had been replaced

---
 zielen/commandbase.py   |  4 ++++
 zielen/containerbase.py | 16 +++++++++++++++-
 zielen/profile.py       |  1 +
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index 1e80d17..fcf5fa4 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -143,6 +143,10 @@ class Command(abc.ABC):
         except socket.error:
             raise StatusError(
                 "another operation on this profile is already taking place")
+        # The profile may have been deleted and created again by another
+        # operation since its database was opened.
+        if self.profile.is_replaced():
+            self.profile = Profile(self.profile.name)
 
     @staticmethod
     def print_interrupt_msg() -> None:
diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index edf7229..eff69ba 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -23,7 +23,7 @@ import json
 import sqlite3
 import contextlib
 import hashlib
-from typing import List, Generator, Iterable
+from typing import List, Generator, Iterable, Optional, Tuple
 
 from zielen.exceptions import FileParseError, RemoteError
 from zielen.utils import secure_string
@@ -138,9 +138,11 @@ class SyncDBFile:
         path: The path of the database file.
         _conn: The sqlite connection object for the database.
         _cur: The sqlite cursor object for the connection.
+        _version: What identifies the database file that was opened.
     """
     def __init__(self, path: str) -> None:
         self.path = path
+        self._version = self._get_version()
         if os.path.isfile(self.path):
             self._conn = sqlite3.connect(
                 self.path,
@@ -216,6 +218,18 @@ class SyncDBFile:
         return int.from_bytes(
             path_hash.digest()[:8], byteorder="big", signed=True)
 
+    def _get_version(self) -> Optional[Tuple[int, int]]:
+        """Get what identifies the current database file, if there is one."""
+        try:
+            file_stat = os.stat(self.path)
+        except FileNotFoundError:
+            return None
+        return file_stat.st_ino, file_stat.st_ctime_ns
+
+    def is_replaced(self) -> bool:
+        """Check if the database file isn't the one that was opened."""
+        return self._get_version() != self._version
+
     def commit(self) -> None:
         """Commit the database transaction."""
         self._conn.commit()
diff --git a/zielen/profile.py b/zielen/profile.py
index f94acea..fbb561f 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -81,6 +81,7 @@ class Profile:
         self.get_paths = self._db_file.get_paths
         self.increment = self._db_file.increment
         self.adjust_all = self._db_file.adjust_all
+        self.is_replaced = self._db_file.is_replaced
 
     def read(self) -> None:
         """Load data from persistent storage."""
-- 
2.43.0


From 77cc4614d84b9711b147d8aebaa813059869d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 36/48] fix: an interrupted init could leave a profile that can
 be neither resumed nor removed

---
 zielen/containerbase.py |  8 ++++++++
 zielen/profile.py       | 28 ++++++++++++----------------
 zielen/userdata.py      | 20 +++++---------------
 3 files changed, 25 insertions(+), 31 deletions(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index eff69ba..46272b0 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -237,3 +237,11 @@ class SyncDBFile:
     def close(self) -> None:
         """Close the database connection."""
         self._conn.close()
+
+    def remove(self) -> None:
+        """Remove the database file and what belongs to it."""
+        for suffix in ["-journal", "-wal", "-shm", ""]:
+            try:
+                os.remove(self.path + suffix)
+            except FileNotFoundError:
+                pass
diff --git a/zielen/profile.py b/zielen/profile.py
index fbb561f..4c292e7 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -100,12 +100,11 @@ class Profile:
         os.makedirs(self.path, exist_ok=True)
 
         self._exclude_file.generate(exclude_path)
-        self._info_file.generate(self.name, init_options)
 
-        try:
-            self._db_file.create()
-        except FileExistsError:
-            pass
+        # There may be a database if the profile directory was only partially
+        # created or deleted before.
+        self._db_file.remove()
+        self._db_file.create()
 
         if template_path:
             template_file = ProfileConfigFile(template_path)
@@ -123,6 +122,10 @@ class Profile:
             self._cfg_file.write(os.path.join(
                 sys.prefix, "share/zielen/config-template"))
 
+        # The initialization can be resumed from this point, so this must be
+        # done last.
+        self._info_file.generate(self.name, init_options)
+
     def write(self) -> None:
         """Write data to persistent storage."""
         self._info_file.write()
@@ -469,14 +472,7 @@ class ProfileDBFile(SyncDBFile):
         _cur: The sqlite cursor object for the connection.
     """
     def create(self) -> None:
-        """Create a new empty database.
-
-        Raises:
-            FileExistsError: The database file already exists.
-        """
-        if os.path.isfile(self.path):
-            raise FileExistsError("the database file already exists")
-
+        """Create a new empty database if there isn't one already."""
         self._conn = sqlite3.connect(
             self.path,
             detect_types=sqlite3.PARSE_DECLTYPES,
@@ -491,7 +487,7 @@ class ProfileDBFile(SyncDBFile):
                 PRAGMA foreign_keys = ON;
                 PRAGMA journal_mode = WAL;
 
-                CREATE TABLE nodes (
+                CREATE TABLE IF NOT EXISTS nodes (
                     id          INTEGER NOT NULL,
                     path        TEXT    NOT NULL,
                     directory   BOOL    NOT NULL,
@@ -500,7 +496,7 @@ class ProfileDBFile(SyncDBFile):
                     PRIMARY KEY (id) ON CONFLICT IGNORE
                 );
 
-                CREATE TABLE closure (
+                CREATE TABLE IF NOT EXISTS closure (
                     ancestor    INT     NOT NULL,
                     descendant  INT     NOT NULL,
                     depth       INT     DEFAULT 0,
@@ -511,7 +507,7 @@ class ProfileDBFile(SyncDBFile):
                         REFERENCES nodes(id) ON DELETE CASCADE
                 ) WITHOUT ROWID;
 
-                CREATE TABLE collisions (
+                CREATE TABLE IF NOT EXISTS collisions (
                     path        TEXT    NOT NULL,
                     salt        TEXT    NOT NULL,
                     PRIMARY KEY (path) ON CONFLICT IGNORE
diff --git a/zielen/userdata.py b/zielen/userdata.py
index 5d06371..a9d416c 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -170,10 +170,7 @@ class RemoteSyncDir(SyncDir):
         os.makedirs(self._exclude_dir, exist_ok=True)
         os.makedirs(self.trash_dir, exist_ok=True)
 
-        try:
-            self._db_file.create()
-        except FileExistsError:
-            pass
+        self._db_file.create()
 
     def write(self) -> None:
         """Write data to persistent storage."""
@@ -261,14 +258,7 @@ class RemoteDBFile(SyncDBFile):
         _cur: The sqlite cursor object for the connection.
     """
     def create(self) -> None:
-        """Create a new empty database.
-
-        Raises:
-            FileExistsError: The database file already exists.
-        """
-        if os.path.isfile(self.path):
-            raise FileExistsError("the database file already exists")
-
+        """Create a new empty database if there isn't one already."""
         self._conn = sqlite3.connect(
             self.path,
             detect_types=sqlite3.PARSE_DECLTYPES,
@@ -282,7 +272,7 @@ class RemoteDBFile(SyncDBFile):
             self._cur.executescript("""\
                 PRAGMA foreign_keys = ON;
 
-                CREATE TABLE nodes (
+                CREATE TABLE IF NOT EXISTS nodes (
                     id          INTEGER NOT NULL,
                     path        TEXT    NOT NULL,
                     directory   BOOL    NOT NULL,
@@ -290,7 +280,7 @@ class RemoteDBFile(SyncDBFile):
                     PRIMARY KEY (id) ON CONFLICT IGNORE
                 );
 
-                CREATE TABLE closure (
+                CREATE TABLE IF NOT EXISTS closure (
                     ancestor    INT     NOT NULL,
                     descendant  INT     NOT NULL,
                     depth       INT     DEFAULT 0,
@@ -301,7 +291,7 @@ class RemoteDBFile(SyncDBFile):
                         REFERENCES nodes(id) ON DELETE CASCADE
                 ) WITHOUT ROWID;
 
-                CREATE TABLE collisions (
+                CREATE TABLE IF NOT EXISTS collisions (
                     path        TEXT    NOT NULL,
                     salt        TEXT    NOT NULL,
                     PRIMARY KEY (path) ON CONFLICT IGNORE
-- 
2.43.0


From c8bff29dd8a15afb43f0c36e60bd9f3e6a1f288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 37/48] fix: init took the profile's own leftover config for
 one that overlaps

---
 zielen/commands/init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 83803d4..81a333d 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -198,7 +198,8 @@ class InitCommand(Command):
 
         overlap_profiles = []
         for name, profile in self.profiles.items():
-            if profile is self.profile or not os.path.isfile(profile.cfg_path):
+            if (name == self.profile.name
+                    or not os.path.isfile(profile.cfg_path)):
                 continue
 
             profile.read()
-- 
2.43.0


From 57159c76b0530575216f86b61b8f76d6aa257b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 38/48] fix: a profile was marked as initialized before its
 database was written

---
 zielen/profile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 4c292e7..e06386d 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -128,8 +128,10 @@ class Profile:
 
     def write(self) -> None:
         """Write data to persistent storage."""
-        self._info_file.write()
+        # The status must not say that the profile is initialized before
+        # everything else has been written.
         self._db_file.commit()
+        self._info_file.write()
 
     @property
     def status(self) -> str:
-- 
2.43.0


From a0794ee020f66d6e9e1dd0826e081f707eeea2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:11 +0000
Subject: [PATCH 39/48] fix: an interrupted reset left a profile without its
 database

---
 zielen/commands/init.py  |  3 +--
 zielen/commands/reset.py |  2 +-
 zielen/profile.py        | 11 +++++++++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 81a333d..a4b46b1 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -20,7 +20,6 @@ along with zielen.  If not, see <http://www.gnu.org/licenses/>.
 import os
 import re
 import time
-import shutil
 import atexit
 import textwrap
 from typing import Optional
@@ -70,7 +69,7 @@ class InitCommand(Command):
         def delete_profile() -> None:
             """Delete the profile directory."""
             try:
-                shutil.rmtree(self.profile.path)
+                self.profile.remove()
             except FileNotFoundError:
                 pass
 
diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index d1caa87..e9ad4d3 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -118,7 +118,7 @@ class ResetCommand(Command):
                 os.remove(full_path)
 
         self.remote_dir.rm_exclude_file(self.profile.id)
-        shutil.rmtree(self.profile.path)
+        self.profile.remove()
 
     def _is_remote_link(self, path: str) -> bool:
         """Check if a local file is a symlink to its remote counterpart."""
diff --git a/zielen/profile.py b/zielen/profile.py
index e06386d..85afd15 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -22,6 +22,7 @@ import re
 import sys
 import glob
 import uuid
+import shutil
 import getpass
 import sqlite3
 import datetime
@@ -126,6 +127,16 @@ class Profile:
         # done last.
         self._info_file.generate(self.name, init_options)
 
+    def remove(self) -> None:
+        """Remove all files of this profile."""
+        # A profile without an info file doesn't exist. This must be removed
+        # first so that a partially removed profile isn't used.
+        try:
+            os.remove(self._info_file.path)
+        except FileNotFoundError:
+            pass
+        shutil.rmtree(self.path)
+
     def write(self) -> None:
         """Write data to persistent storage."""
         # The status must not say that the profile is initialized before
-- 
2.43.0


From 0d6776765c32117ff55033815cb1da57cd32b4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:11 +0000
Subject: [PATCH 40/48] fix: an interrupted reset left a part of the util
 directory

---
 zielen/commands/reset.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index e9ad4d3..46a79f1 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -89,12 +89,14 @@ class ResetCommand(Command):
                 # Close the database connection, and then remove the
                 # contents of the remote directory. If the database
                 # connection is not closed, the util directory will not be
-                # able to be deleted. The util directory is removed first so
-                # that a sync can't take the rest for deleted files if this is
-                # interrupted.
+                # able to be deleted. The util directory is renamed first so
+                # that a sync can't take the rest for deleted files, or find
+                # only a part of the util directory, if this is interrupted.
                 self.remote_dir.close()
                 try:
-                    shutil.rmtree(self.remote_dir.util_dir)
+                    os.rename(
+                        self.remote_dir.util_dir,
+                        self.remote_dir.util_dir + "-tmp-removed")
                     for entry in os.scandir(self.remote_dir.path):
                         if entry.is_dir(follow_symlinks=False):
                             shutil.rmtree(entry.path)
-- 
2.43.0


From 47ccc156821f371ecad4e6f3d3225f06fdd52da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:11 +0000
Subject: [PATCH 41/48] fix: a sync after an interrupted reset took missing
 symlinks for deleted files

---
 zielen/commands/reset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 46a79f1..1f667b3 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -105,6 +105,11 @@ class ResetCommand(Command):
                 except FileNotFoundError:
                     pass
 
+        # If this is interrupted, a sync must not take the symlinks that are
+        # missing for files deleted by the user.
+        self.profile.rm_paths(self.profile.get_paths().keys())
+        self.profile.write()
+
         # Remove non-user-created symlinks from the local directory. These
         # are symlinks that point to the remote directory.
         local_symlinks = self.local_dir.scan_paths(
-- 
2.43.0


From 4a48821df59ffc134c7741e7c1e280bb3895d52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:19 +0000
Subject: [PATCH 42/48] fix: the daemon kept using options that were removed
 from the config file

---
 zielen/containerbase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 46272b0..0e4be9a 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -48,6 +48,7 @@ class ConfigFile:
 
     def read(self) -> None:
         """Parse file for key-value pairs and save in a dictionary."""
+        raw_vals = {}
         try:
             with open(self.path) as file:
                 for line in file:
@@ -55,9 +56,11 @@ class ConfigFile:
                     if (not self.COMMENT_REGEX.search(line)
                             and self.SEPARATOR in line):
                         key, value = line.partition(self.SEPARATOR)[::2]
-                        self.raw_vals[key.strip()] = value.strip()
+                        raw_vals[key.strip()] = value.strip()
         except OSError:
             raise FileParseError("could not open the configuration file")
+        # Values that were in the file before may have been removed.
+        self.raw_vals = raw_vals
 
     def write(self, template_path: str) -> None:
         """Generate a new config file based on the input file."""
-- 
2.43.0


From eadd55d89a0a193b5756f4d4f5d1c4a09c31e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:19 +0000
Subject: [PATCH 43/48] fix: the daemon stopped counting file access after a
 long sync

---
 zielen/containerbase.py | 4 ++++
 zielen/daemon.py        | 3 +++
 zielen/profile.py       | 1 +
 3 files changed, 8 insertions(+)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 0e4be9a..bddd9e7 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -237,6 +237,10 @@ class SyncDBFile:
         """Commit the database transaction."""
         self._conn.commit()
 
+    def rollback(self) -> None:
+        """Roll back the database transaction."""
+        self._conn.rollback()
+
     def close(self) -> None:
         """Close the database connection."""
         self._conn.close()
diff --git a/zielen/daemon.py b/zielen/daemon.py
index 766ba73..f210381 100644
--- a/zielen/daemon.py
+++ b/zielen/daemon.py
@@ -146,6 +146,9 @@ class Daemon(Command):
                 self.profile.read()
                 self.profile.write()
             except sqlite3.OperationalError:
+                # If the transaction stays open, the database can't be written
+                # to any more once the sync has changed it.
+                self.profile.rollback()
                 continue
             else:
                 deduplicated_paths = []
diff --git a/zielen/profile.py b/zielen/profile.py
index 85afd15..011cdcb 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -82,6 +82,7 @@ class Profile:
         self.get_paths = self._db_file.get_paths
         self.increment = self._db_file.increment
         self.adjust_all = self._db_file.adjust_all
+        self.rollback = self._db_file.rollback
         self.is_replaced = self._db_file.is_replaced
 
     def read(self) -> None:
-- 
2.43.0


From a6f6a66d92b08b45b9a18cde1d5477c8c8ca6fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:19 +0000
Subject: [PATCH 44/48] fix: the daemon reverted the time of the last sync

---
 zielen/daemon.py  | 15 ++++++++-------
 zielen/profile.py |  1 +
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/zielen/daemon.py b/zielen/daemon.py
index f210381..c98a0bf 100644
--- a/zielen/daemon.py
+++ b/zielen/daemon.py
@@ -143,8 +143,8 @@ class Daemon(Command):
                 self._adjust()
                 self.profile.increment(
                     deduplicated_paths, self.INCREMENT_AMOUNT)
+                self.profile.commit()
                 self.profile.read()
-                self.profile.write()
             except sqlite3.OperationalError:
                 # If the transaction stays open, the database can't be written
                 # to any more once the sync has changed it.
@@ -158,18 +158,19 @@ class Daemon(Command):
     def _adjust(self) -> None:
         """Adjust the priority values in the database at regular intervals."""
         if time.time() >= self.profile.last_adjust + self.ADJUST_INTERVAL:
-            # This is necessary because a sync may have occurred since
-            # the last adjustment, which updates a value in the info
-            # file. If we don't read the info file before writing to it,
-            # that value will get reset.
-            self.profile.read()
-
             # Use the formula for half-life to calculate the constant to
             # multiply each priority value by.
             half_life = self.profile.priority_half_life
             adjust_constant = 0.5 ** (self.ADJUST_INTERVAL / half_life)
 
+            # This fails if a sync is using the database.
             self.profile.adjust_all(adjust_constant)
+
+            # This is necessary because a sync may have occurred since
+            # the last adjustment, which updates a value in the info
+            # file. If we don't read the info file before writing to it,
+            # that value will get reset.
+            self.profile.read()
             self.profile.last_adjust = time.time()
             self.profile.write()
 
diff --git a/zielen/profile.py b/zielen/profile.py
index 011cdcb..6aa40bc 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -82,6 +82,7 @@ class Profile:
         self.get_paths = self._db_file.get_paths
         self.increment = self._db_file.increment
         self.adjust_all = self._db_file.adjust_all
+        self.commit = self._db_file.commit
         self.rollback = self._db_file.rollback
         self.is_replaced = self._db_file.is_replaced
 
-- 
2.43.0


From f559a918140973b6ddb2f430ff2bc6e91f06e030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:19 +0000
Subject: [PATCH 45/48] fix: a sync reverted the time of the last priority
 adjustment

---
 zielen/commands/sync.py | 2 ++
 zielen/profile.py       | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index b8d4af1..6bc3333 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -152,5 +152,7 @@ class SyncCommand(Command):
         # The sync is now complete. Update the time of the last sync in the
         # info file.
         self.remote_dir.write()
+        # The daemon may have changed the info file since the sync started.
+        self.profile.read_info()
         self.profile.last_sync = time.time()
         self.profile.write()
diff --git a/zielen/profile.py b/zielen/profile.py
index 6aa40bc..6a17f15 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -96,6 +96,10 @@ class Profile:
         self._cfg_file.check_all()
         self._exclude_file.reset()
 
+    def read_info(self) -> None:
+        """Load just the metadata from persistent storage."""
+        self._info_file.read()
+
     def generate(
             self, init_options: Dict[str, Any], exclude_path=None,
             template_path=None) -> None:
-- 
2.43.0


From f834d0746f0fc53ef3f209eb95622cdbf7a4916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:19 +0000
Subject: [PATCH 46/48] fix: say so if the remote directory is missing when
 emptying the trash

---
 zielen/commands/emptytrash.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/zielen/commands/emptytrash.py b/zielen/commands/emptytrash.py
index 89cf782..530e84a 100644
--- a/zielen/commands/emptytrash.py
+++ b/zielen/commands/emptytrash.py
@@ -20,6 +20,7 @@ along with zielen.  If not, see <http://www.gnu.org/licenses/>.
 import os
 import shutil
 
+from zielen.exceptions import RemoteError
 from zielen.commandbase import Command, unlock
 
 
@@ -35,9 +36,16 @@ class EmptyTrashCommand(Command):
 
     @unlock
     def main(self) -> None:
-        """Run the command."""
+        """Run the command.
+
+        Raises:
+            RemoteError: The remote directory could not be found.
+        """
         self.setup_profile()
 
+        if not os.path.isdir(self.remote_dir.util_dir):
+            raise RemoteError("the remote directory could not be found")
+
         files_deleted = 0
         for path in os.scandir(self.remote_dir.trash_dir):
             try:
-- 
2.43.0


From 7590fa644b37e00a99d5dda90df9b8f385faf72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:19 +0000
Subject: [PATCH 47/48] fix: reset --no-retrieve failed if the remote directory
 is not a directory

---
 zielen/containerbase.py | 2 +-
 zielen/userdata.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index bddd9e7..210ef4b 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -225,7 +225,7 @@ class SyncDBFile:
         """Get what identifies the current database file, if there is one."""
         try:
             file_stat = os.stat(self.path)
-        except FileNotFoundError:
+        except OSError:
             return None
         return file_stat.st_ino, file_stat.st_ctime_ns
 
diff --git a/zielen/userdata.py b/zielen/userdata.py
index a9d416c..d1c2fcd 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -203,7 +203,7 @@ class RemoteSyncDir(SyncDir):
         """
         try:
             os.remove(os.path.join(self._exclude_dir, profile_id))
-        except FileNotFoundError:
+        except (FileNotFoundError, NotADirectoryError):
             pass
 
     def check_excluded(
-- 
2.43.0


From a1626c24ece1f1f21fa361573797bb5440f54ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:19 +0000
Subject: [PATCH 48/48] fix: find excluded files if the local directory is a
 symlink

---
 zielen/profile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 6a17f15..bb64b11 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -397,7 +397,8 @@ class ProfileExcludeFile:
                     continue
                 self._matches[start_path].add(rel_match_path)
                 self._all_matches[start_path].add(rel_match_path)
-                if os.path.islink(match_path.rstrip(os.sep)):
+                if (rel_match_path != os.curdir
+                        and os.path.islink(match_path.rstrip(os.sep))):
                     # Don't follow symlinks, which may be broken.
                     continue
                 try:
-- 
2.43.0

