From 2b1eb252949dbc0c2089aebc713713e36d7c397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:39 +0000
Subject: [PATCH 01/34] fix: move onto an occupied name no longer loses the
 source

Moving into a directory that already holds that name detached the node
before the collision was detected, so the node vanished.
---
 sandfs/vfs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 3ee64e4..ffef819 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -622,6 +622,9 @@ class VirtualFileSystem:
         if dest_parent is node:
             raise InvalidOperation("Cannot move a node into itself")
 
+        dest_parent.ensure_loaded(self)
+        if dest_name in dest_parent.children:
+            raise NodeExists(f"Node {dest_name} already exists in {dest_parent_path}")
         parent.remove_child(node.name)
         node.name = dest_name
         dest_parent.add_child(node)
-- 
2.43.0


From 1288806f7506e9febca66eb85db713bb037e1057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:42 +0000
Subject: [PATCH 02/34] fix: a failed copy no longer deletes the destination
 file

The file being overwritten was removed before the copy was known to succeed
(directory copied into itself, failing provider).
---
 sandfs/vfs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index ffef819..6c95d3c 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -650,6 +650,7 @@ class VirtualFileSystem:
         dest_path = self._normalize(target)
         dest_parent: VirtualDirectory
         dest_name: str
+        replaced: VirtualNode | None = None
 
         try:
             dest_node = self._resolve_node(dest_path)
@@ -662,6 +663,7 @@ class VirtualFileSystem:
         else:
             if isinstance(dest_node, VirtualDirectory):
                 self._ensure_write_allowed(dest_node)
+                dest_node.ensure_loaded(self)
                 dest_parent = dest_node
                 dest_name = node.name
             else:
@@ -670,7 +672,7 @@ class VirtualFileSystem:
                     raise InvalidOperation("Cannot overwrite root directory")
                 self._ensure_write_allowed(parent_node)
                 self._ensure_write_allowed(dest_node)
-                parent_node.remove_child(dest_node.name)
+                replaced = dest_node
                 dest_name = dest_node.name
                 dest_parent = parent_node
 
@@ -685,6 +687,8 @@ class VirtualFileSystem:
 
         clone = self._clone_node(node, recursive=recursive)
         clone.name = dest_name
+        if replaced is not None:
+            dest_parent.remove_child(dest_name)
         dest_parent.add_child(clone)
         if isinstance(clone, VirtualFile):
             self._index_file(clone)
-- 
2.43.0


From 1246a0ec5c9f28016d9a362d091e065db190fd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:45 +0000
Subject: [PATCH 03/34] fix: copying over a file no longer resets its version

A writer holding a stale expected_version could succeed after the version
counter had been reset by a copy.
---
 sandfs/vfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 6c95d3c..3a5c465 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -688,6 +688,8 @@ class VirtualFileSystem:
         clone = self._clone_node(node, recursive=recursive)
         clone.name = dest_name
         if replaced is not None:
+            if isinstance(clone, VirtualFile):
+                clone.version = replaced.version + 1
             dest_parent.remove_child(dest_name)
         dest_parent.add_child(clone)
         if isinstance(clone, VirtualFile):
-- 
2.43.0


From 618ede859f7898fb2ae0f57ed2e72e97f6f8d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:47 +0000
Subject: [PATCH 04/34] fix: read-only directories reject new entries from
 every writer

write_file, append_file, touch and mkdir(parents=True) could add entries below
a read-only directory, while mkdir(exist_ok=True) of an existing directory was
refused because of its parent.
---
 sandfs/vfs.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 3a5c465..160a268 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -127,6 +127,19 @@ class VirtualFileSystem:
             current = next_node
         return current
 
+    def _missing_entry(self, path: str | PurePosixPath) -> tuple[VirtualDirectory, str] | None:
+        """Return where creating ``path`` would add its first new entry, if anywhere."""
+        current: VirtualNode = self.root
+        for part in self._iterate_parts(self._normalize(path)):
+            if not isinstance(current, VirtualDirectory):
+                return None
+            directory = current
+            try:
+                current = directory.get_child(part, self)
+            except NodeNotFound:
+                return directory, part
+        return None
+
     def _ensure_file(self, path: str | PurePosixPath, *, create: bool = False) -> VirtualFile:
         target = self._normalize(path)
         parent_path = target.parent
@@ -488,8 +501,10 @@ class VirtualFileSystem:
         normalized = self._normalize(path)
         if normalized == PurePosixPath("/"):
             return self.root
+        missing = self._missing_entry(normalized)
+        if missing is not None:
+            self._ensure_write_allowed(missing[0])
         parent = self._resolve_dir(normalized.parent or PurePosixPath("/"), create=parents)
-        self._ensure_write_allowed(parent)
         name = normalized.name
         if not name:
             raise InvalidOperation("Directory name missing")
@@ -513,6 +528,9 @@ class VirtualFileSystem:
         append: bool = False,
         expected_version: int | None = None,
     ) -> VirtualFile:
+        missing = self._missing_entry(path)
+        if missing is not None:
+            self._ensure_write_allowed(missing[0], append=True)
         node = self._ensure_file(path, create=True)
         self._ensure_write_allowed(node, append=append)
         self._check_version(node, expected_version)
@@ -541,6 +559,9 @@ class VirtualFileSystem:
         return node.read(self)
 
     def touch(self, path: str | PurePosixPath) -> VirtualFile:
+        missing = self._missing_entry(path)
+        if missing is not None:
+            self._ensure_write_allowed(missing[0], append=True)
         node = self._ensure_file(path, create=True)
         self._ensure_write_allowed(node, append=True)
         node.modified_at = time.time()
-- 
2.43.0


From 5046e36c19da3ec16831ad50aae6caa1ce8ef0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:50 +0000
Subject: [PATCH 05/34] fix: appending to a provider-backed file keeps the
 provided content

The append replaced everything a reader had seen, even on append-only files.
---
 sandfs/vfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 160a268..693234f 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -535,7 +535,7 @@ class VirtualFileSystem:
         self._ensure_write_allowed(node, append=append)
         self._check_version(node, expected_version)
         previous_version = node.version
-        node.write(data, append=append)
+        node.write(node.read(self) + data if append else data)
         node.version += 1
         node.modified_at = time.time()
         self._persist_storage(node, previous_version)
-- 
2.43.0


From f8425ac13fb76c4e126514e0d93798b7ebb992c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:53 +0000
Subject: [PATCH 06/34] fix: a failed write leaves the tree unchanged

A version mismatch or storage conflict left the new content, an empty file or
newly created parent directories behind.
---
 sandfs/vfs.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 693234f..5216309 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -243,7 +243,6 @@ class VirtualFileSystem:
         try:
             adapter.write(relative, node.read(self), version=previous_version)
         except ValueError as exc:
-            node.version = previous_version
             raise InvalidOperation(f"Storage conflict for {node.path()}") from exc
 
     def _delete_storage_entry(self, node: VirtualFile) -> None:
@@ -532,13 +531,21 @@ class VirtualFileSystem:
         if missing is not None:
             self._ensure_write_allowed(missing[0], append=True)
         node = self._ensure_file(path, create=True)
-        self._ensure_write_allowed(node, append=append)
-        self._check_version(node, expected_version)
         previous_version = node.version
-        node.write(node.read(self) + data if append else data)
-        node.version += 1
-        node.modified_at = time.time()
-        self._persist_storage(node, previous_version)
+        previous = (node._content, node._provider, node.modified_at)
+        try:
+            self._ensure_write_allowed(node, append=append)
+            self._check_version(node, expected_version)
+            node.write(node.read(self) + data if append else data)
+            node.version += 1
+            node.modified_at = time.time()
+            self._persist_storage(node, previous_version)
+        except Exception:
+            node._content, node._provider, node.modified_at = previous
+            node.version = previous_version
+            if missing is not None:
+                missing[0].remove_child(missing[1])
+            raise
         self._index_file(node)
         event_type = "create" if previous_version == 0 else "update"
         self._emit_write_event(node, append=append, event_type=event_type)
-- 
2.43.0


From b52de6f10d14c2c45346d3153373b56b50faf648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:56 +0000
Subject: [PATCH 07/34] fix: a failing storage back end no longer drops nodes
 from the tree

remove() detached the file before the back end had deleted it, and
sync_storage() emptied the mount before the back end had been listed.
---
 sandfs/vfs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 5216309..d95d941 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -255,9 +255,10 @@ class VirtualFileSystem:
 
     def _load_storage_mount(self, prefix: PurePosixPath, adapter: StorageAdapter) -> None:
         directory = self._resolve_dir(prefix)
+        entries = adapter.list()
         directory.children.clear()
         directory._loaded = True
-        for rel_path, entry in adapter.list().items():
+        for rel_path, entry in entries.items():
             absolute = prefix.joinpath(PurePosixPath(rel_path))
             file_node = self._ensure_file(absolute, create=True)
             file_node.write(entry.content)
@@ -595,9 +596,10 @@ class VirtualFileSystem:
                 if child_node is None:
                     continue
                 self.remove(child_node.path(), recursive=True)
-        parent.remove_child(node.name)
         if isinstance(node, VirtualFile):
             self._delete_storage_entry(node)
+        parent.remove_child(node.name)
+        if isinstance(node, VirtualFile):
             self._remove_index_entry(node.path())
             self._emit_path_event(node.path(), "delete", None)
 
-- 
2.43.0


From 63f6b525f1bfed06d212e96ed12543a07e59817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:58 +0000
Subject: [PATCH 08/34] fix: restore works for snapshots containing read-only
 directories

Rebuilding the tree went through the policy checks and failed below a
read-only directory, leaving a partial tree.
---
 sandfs/vfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index d95d941..b7b4948 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -835,7 +835,7 @@ class VirtualFileSystem:
                 target.modified_at = node_state.modified_at
                 continue
             if node_state.is_dir:
-                directory = self.mkdir(path, parents=True, exist_ok=True)
+                directory = self._resolve_dir(path, create=True)
                 directory.metadata = dict(node_state.metadata)
                 directory.policy = self._clone_policy(node_state.policy)
                 directory.version = node_state.version
-- 
2.43.0


From 85e2a7e9b8ad39f62d7dda17ea2979698b2a4b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:00 +0000
Subject: [PATCH 09/34] fix: restore works when the current directory had been
 removed

The snapshot then names a directory that is not part of the tree and restore
raised after rebuilding it; use the nearest surviving ancestor.
---
 sandfs/vfs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index b7b4948..04d9688 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -849,7 +849,10 @@ class VirtualFileSystem:
                 file_node.version = node_state.version
                 file_node.created_at = node_state.created_at
                 file_node.modified_at = node_state.modified_at
-        self.cwd = self._resolve_dir(snapshot.cwd)
+        cwd = snapshot.cwd
+        while not self.is_dir(cwd):
+            cwd = cwd.parent
+        self.cwd = self._resolve_dir(cwd)
         self._rebuild_index()
 
     def export_to_path(
-- 
2.43.0


From 1cfe120022a0f83e93ed54706dd87250b326aa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:34 +0000
Subject: [PATCH 10/34] fix: failing redirections and expansions report an
 error result

They raised out of exec(), which ends the CLI session and crashes hosts that
rely on getting a CommandResult.
---
 sandfs/shell.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 1c9f9dc..1fd8bef 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -306,12 +306,17 @@ class SandboxShell:
             }
             env.update(expanded_assignments)
             name = self._expand_vars(spec.name, env)
-            args = self._expand_args(spec.args, env, command_name=name)
-
             stdin_data = stdout_pipe
-            if spec.stdin is not None:
-                stdin_path = self._expand_vars(spec.stdin, env)
-                stdin_data = self._read_from_path(stdin_path)
+            try:
+                args = self._expand_args(spec.args, env, command_name=name)
+                if spec.stdin is not None:
+                    stdin_path = self._expand_vars(spec.stdin, env)
+                    stdin_data = self._read_from_path(stdin_path)
+            except Exception as exc:
+                stderr_chunks.append(str(exc))
+                return self._enforce_output_limit(
+                    CommandResult(stderr="".join(filter(None, stderr_chunks)), exit_code=1)
+                )
 
             ctx = CommandContext(
                 stdin=stdin_data,
@@ -334,7 +339,13 @@ class SandboxShell:
             output = result.stdout
             if spec.stdout is not None:
                 out_path = self._expand_vars(spec.stdout, env)
-                self._write_to_path(out_path, output, append=spec.append)
+                try:
+                    self._write_to_path(out_path, output, append=spec.append)
+                except Exception as exc:
+                    stderr_chunks.append(str(exc))
+                    return self._enforce_output_limit(
+                        CommandResult(stderr="".join(filter(None, stderr_chunks)), exit_code=1)
+                    )
                 output = ""
             stdout_pipe = output
 
-- 
2.43.0


From 4c66d1a0e4680dfdf8efaebf8d441b99476ad5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:36 +0000
Subject: [PATCH 11/34] fix: allowed_commands also covers host fallback and the
 empty list

Unknown commands went to the host without consulting the allow-list, and an
empty allow-list allowed everything.
---
 sandfs/shell.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 1fd8bef..ced0ae4 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -69,7 +69,9 @@ class SandboxShell:
         self.last_command_name: str | None = None
         self.py_exec = python_executor or PythonExecutor(vfs)
         self.view = view or VisibilityView()
-        self.allowed_commands: set[str] | None = set(allowed_commands) if allowed_commands else None
+        self.allowed_commands: set[str] | None = (
+            set(allowed_commands) if allowed_commands is not None else None
+        )
         self.max_output_bytes = max_output_bytes
         self.host_fallback = host_fallback
         self._handler_accepts_ctx: dict[str, bool] = {}
@@ -355,13 +357,13 @@ class SandboxShell:
 
     def _run_command(self, name: str, args: list[str], ctx: CommandContext) -> CommandResult:
         self.last_command_name = name
+        if self.allowed_commands is not None and name not in self.allowed_commands:
+            return CommandResult(stderr=f"Command '{name}' is disabled in this shell", exit_code=1)
         handler = self.commands.get(name)
         if handler is None:
             if self.host_fallback:
                 return self._run_host_process([name, *args], None, stdin=ctx.stdin, env=ctx.env)
             return CommandResult(stderr=f"Unknown command: {name}", exit_code=127)
-        if self.allowed_commands is not None and name not in self.allowed_commands:
-            return CommandResult(stderr=f"Command '{name}' is disabled in this shell", exit_code=1)
         try:
             if self._handler_accepts_ctx.get(name):
                 result = handler(args, ctx)
-- 
2.43.0


From 9714abc401ade9655068527d688a5d6dae3e9112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:38 +0000
Subject: [PATCH 12/34] fix: max_output_bytes counts bytes, not characters

---
 sandfs/shell.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index ced0ae4..edc6686 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -126,7 +126,10 @@ class SandboxShell:
     def _enforce_output_limit(self, result: CommandResult) -> CommandResult:
         if self.max_output_bytes is None:
             return result
-        total = len(result.stdout) + len(result.stderr)
+        total = sum(
+            len(text.encode("utf-8", errors="surrogatepass"))
+            for text in (result.stdout, result.stderr)
+        )
         if total <= self.max_output_bytes:
             return result
         return CommandResult(
-- 
2.43.0


From 758bf258e2f0acbd71392da6ec49060c53492583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:41 +0000
Subject: [PATCH 13/34] fix: search separates its results with newlines

They were joined with a literal backslash-n.
---
 sandfs/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index edc6686..f22b93a 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -948,7 +948,7 @@ class SandboxShell:
                     results.append(f"{match.path}:{match.line_no}:{match.line_text}")
                 else:
                     results.append(f"{match.path}:{match.line_text}")
-        return CommandResult(stdout="\\n".join(results))
+        return CommandResult(stdout="\n".join(results))
 
     def _search(
         self,
-- 
2.43.0


From 392ac019efee3c4772a67d7bdeaf321d2dfdd2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:43 +0000
Subject: [PATCH 14/34] fix: searching below a missing path finds nothing
 instead of raising

The guard around the lazy iterator never took effect, so scanning behaved
differently from the index.
---
 sandfs/vfs.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 04d9688..afe96a2 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -427,10 +427,12 @@ class VirtualFileSystem:
 
         file_results: list[SearchResult] = []
         try:
-            files = self.iter_files(
-                query.path_prefix or "/",
-                recursive=True,
-                skip_prefixes=[self._search_view_prefix] if self._search_view_prefix else None,
+            files = list(
+                self.iter_files(
+                    query.path_prefix or "/",
+                    recursive=True,
+                    skip_prefixes=[self._search_view_prefix] if self._search_view_prefix else None,
+                )
             )
         except (NodeNotFound, InvalidOperation):
             return file_results
-- 
2.43.0


From c7380be91203c6eb47981cc421b7357e9d14d290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:06 +0000
Subject: [PATCH 15/34] fix: searching no longer discloses unreadable files

grep, rg, search, the index and the search view printed lines of files whose
policy forbids reading.
---
 sandfs/shell.py |  2 ++
 sandfs/vfs.py   | 16 ++++++----------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index f22b93a..c1935c2 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -970,6 +970,8 @@ class SandboxShell:
             for file_path, file_node in self.vfs.iter_files(target, recursive=recursive):
                 if self.view and not self.view.allows_node(file_node):
                     continue
+                if not file_node.policy.readable:
+                    continue
                 text = file_node.read(self.vfs)
                 lines = text.splitlines()
                 for idx, line in enumerate(lines, start=1):
diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index afe96a2..b22a4fe 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -401,16 +401,12 @@ class VirtualFileSystem:
         *,
         view: VisibilityView | None = None,
     ) -> list[SearchResult]:
+        try:
+            self._ensure_read_allowed(self._resolve_node(query.path_prefix or "/"))
+        except (NodeNotFound, InvalidOperation):
+            return []
         if self._full_text_index is not None:
             results = self._full_text_index.search(query)
-            if view is None:
-                if self._search_view_prefix is None:
-                    return results
-                return [
-                    result
-                    for result in results
-                    if not result.path.is_relative_to(self._search_view_prefix)
-                ]
             filtered: list[SearchResult] = []
             for result in results:
                 if self._search_view_prefix and result.path.is_relative_to(
@@ -421,7 +417,7 @@ class VirtualFileSystem:
                     node = self.get_node(result.path)
                 except (NodeNotFound, InvalidOperation):
                     continue
-                if view.allows_node(node):
+                if node.policy.readable and (view is None or view.allows_node(node)):
                     filtered.append(result)
             return filtered
 
@@ -442,7 +438,7 @@ class VirtualFileSystem:
         for path, node in files:
             if self._search_view_prefix and path.is_relative_to(self._search_view_prefix):
                 continue
-            if view and not view.allows_node(node):
+            if not node.policy.readable or (view and not view.allows_node(node)):
                 continue
             text = node.read(self)
             for idx, line in enumerate(text.splitlines(), start=1):
-- 
2.43.0


From d8dc22556ba7415986035df013bc862470bb92fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:08 +0000
Subject: [PATCH 16/34] fix: input redirection through the search view respects
 the view

'cat < /@search?q=x/../secret.txt' read a hidden file because the path that
was finally read had not been checked.
---
 sandfs/shell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index c1935c2..dede48c 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -429,6 +429,7 @@ class SandboxShell:
         resolved = self._resolve_search_nav(parsed)
         with self.vfs.search_view_context(parsed.query, view=self.view):
             self.vfs._reset_directory(parsed.base)
+            self._ensure_visible_path(resolved)
             return self.vfs.read_file(resolved)
 
     def _write_to_path(self, path: str, content: str, *, append: bool) -> None:
-- 
2.43.0


From b8e593af320d7639048851071a566597a1985d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:11 +0000
Subject: [PATCH 17/34] fix: search view results do not outlive the query for
 other views

The results of one shell's query stayed below the search directory as public
files, where shells with narrower views could list and read them.
---
 sandfs/shell.py | 11 +++++++----
 sandfs/vfs.py   | 20 +++++++++++++++++++-
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index dede48c..dc2d850 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -277,10 +277,13 @@ class SandboxShell:
     # ------------------------------------------------------------------
     def exec(self, command: str) -> CommandResult:
         last_result = CommandResult()
-        for segment in filter(None, (line.strip() for line in command.splitlines())):
-            last_result = self._exec_pipeline(segment)
-            if last_result.exit_code != 0:
-                return last_result
+        try:
+            for segment in filter(None, (line.strip() for line in command.splitlines())):
+                last_result = self._exec_pipeline(segment)
+                if last_result.exit_code != 0:
+                    return last_result
+        finally:
+            self.vfs._discard_search_results()
         return last_result
 
     def _exec_pipeline(self, command: str) -> CommandResult:
diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index b22a4fe..77e86f9 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -66,6 +66,7 @@ class VirtualFileSystem:
         self._full_text_index: FullTextIndex | None = None
         self._search_view_prefix: PurePosixPath | None = None
         self._search_view_context: SearchViewContext | None = None
+        self._search_results_loaded = False
 
     # ------------------------------------------------------------------
     # Path helpers
@@ -323,9 +324,21 @@ class VirtualFileSystem:
         directory.children.clear()
         directory._loaded = False
 
+    def _discard_search_results(self) -> None:
+        """Drop query results once nobody is working inside them."""
+        prefix = self._search_view_prefix
+        if prefix is None or not self._search_results_loaded:
+            return
+        if self.cwd.path().is_relative_to(prefix):
+            return
+        if self.is_dir(prefix):
+            self._reset_directory(prefix)
+        self._search_results_loaded = False
+
     def _search_view_provider(self) -> Mapping[str, ProvidedNode]:
         if self._search_view_context is None:
             return {}
+        self._search_results_loaded = True
         query = self._search_view_context.query
         view = self._search_view_context.view
         results = self.search(query, view=view)
@@ -353,7 +366,12 @@ class VirtualFileSystem:
             content_lines = [
                 f"{path}:{match.line_no}:{match.line_text}" for match in matches
             ]
-            cursor[parts[-1]] = ProvidedNode.file(content="\n".join(content_lines))
+            source = self.get_node(path)
+            cursor[parts[-1]] = ProvidedNode.file(
+                content="\n".join(content_lines),
+                metadata=source.metadata,
+                policy=self._clone_policy(source.policy),
+            )
         return root
 
     # ------------------------------------------------------------------
-- 
2.43.0


From 45780860c0d841b5582b03f10915a82391c45c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:14 +0000
Subject: [PATCH 18/34] fix: the search view keeps answering queries after
 restore

restore() rebuilt the search directory as a plain one.
---
 sandfs/vfs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 77e86f9..79bdf4d 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -299,11 +299,10 @@ class VirtualFileSystem:
     def enable_search_view(self, prefix: str | PurePosixPath = "/@search") -> None:
         normalized = self._normalize(prefix)
         self._search_view_prefix = normalized
+        self.mount_directory(normalized, self._load_search_view)
 
-        def provider(_: NodeContext) -> Mapping[str, ProvidedNode]:
-            return self._search_view_provider()
-
-        self.mount_directory(normalized, provider)
+    def _load_search_view(self, _: NodeContext) -> Mapping[str, ProvidedNode]:
+        return self._search_view_provider()
 
     @contextlib.contextmanager
     def search_view_context(
@@ -869,6 +868,8 @@ class VirtualFileSystem:
         while not self.is_dir(cwd):
             cwd = cwd.parent
         self.cwd = self._resolve_dir(cwd)
+        if self._search_view_prefix is not None and self.is_dir(self._search_view_prefix):
+            self._resolve_dir(self._search_view_prefix).loader = self._load_search_view
         self._rebuild_index()
 
     def export_to_path(
-- 
2.43.0


From e6f9bb0af11d8458b48d31afbeb3f0681d45df76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:17 +0000
Subject: [PATCH 19/34] fix: a failing provider no longer breaks index rebuilds

With the index enabled, moving or copying any directory raised after the fact
as soon as one provider-backed file in the tree failed.
---
 sandfs/vfs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 79bdf4d..9449291 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -12,7 +12,7 @@ from dataclasses import dataclass
 from pathlib import Path, PurePosixPath
 
 from .adapters import StorageAdapter
-from .exceptions import InvalidOperation, NodeExists, NodeNotFound
+from .exceptions import InvalidOperation, NodeExists, NodeNotFound, SandboxError
 from .hooks import WriteEvent, WriteHook
 from .integrations import PathEvent, PathHook
 from .nodes import VirtualDirectory, VirtualFile, VirtualNode
@@ -273,7 +273,7 @@ class VirtualFileSystem:
         for path, file_node in self.iter_files("/", recursive=True, skip_prefixes=skip_prefixes):
             try:
                 content = file_node.read(self)
-            except InvalidOperation:
+            except SandboxError:
                 continue
             entries.append((path, content))
         self._full_text_index.build(entries)
@@ -283,7 +283,7 @@ class VirtualFileSystem:
             return
         try:
             self._full_text_index.index_file(node.path(), node.read(self))
-        except InvalidOperation:
+        except SandboxError:
             return
 
     def _remove_index_entry(self, path: PurePosixPath) -> None:
-- 
2.43.0


From 6ad1103fcb680da3e1652a1a2d02bc18f7f289f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:19 +0000
Subject: [PATCH 20/34] fix: cp -r and mv cannot pull hidden nodes into a
 view's prefixes

Copying or moving a parent directory of an allowed prefix made everything else
below it visible at the new place.
---
 sandfs/shell.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index dc2d850..267f332 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -123,6 +123,18 @@ class SandboxShell:
         if not self.view.allows_node(node):
             raise InvalidOperation(f"Path {path} is hidden for this view")
 
+    def _ensure_visible_subtree(self, path: str) -> None:
+        """Refuse to relocate nodes that lie outside the view's path prefixes."""
+        prefixes = self.view.path_prefixes
+        if prefixes is None:
+            return
+        for node_path, _ in self.vfs.walk(path):
+            if not any(
+                node_path.is_relative_to(prefix) or prefix.is_relative_to(node_path)
+                for prefix in prefixes
+            ):
+                raise InvalidOperation(f"Path {path} contains nodes hidden for this view")
+
     def _enforce_output_limit(self, result: CommandResult) -> CommandResult:
         if self.max_output_bytes is None:
             return result
@@ -697,6 +709,7 @@ class SandboxShell:
         self._ensure_visible_path(source)
         self._ensure_visible_path(dest)
         try:
+            self._ensure_visible_subtree(source)
             self.vfs.copy(source, dest, recursive=recursive)
         except (InvalidOperation, NodeNotFound) as exc:
             return CommandResult(stderr=str(exc), exit_code=1)
@@ -711,6 +724,7 @@ class SandboxShell:
         self._ensure_visible_path(source)
         self._ensure_visible_path(dest)
         try:
+            self._ensure_visible_subtree(source)
             self.vfs.move(source, dest)
         except (InvalidOperation, NodeNotFound) as exc:
             return CommandResult(stderr=str(exc), exit_code=1)
-- 
2.43.0


From 11e84a878e268c6bf6aff302bcca127d236c1344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:21 +0000
Subject: [PATCH 21/34] fix: host commands no longer rewrite files they did not
 touch

Reading the materialised copy back translated line endings and could not
compare unreadable files, so such files were rewritten after every command.
---
 sandfs/shell.py | 15 ++++++---------
 sandfs/vfs.py   |  2 +-
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 267f332..a65dd6c 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -244,20 +244,17 @@ class SandboxShell:
                     self.vfs.mkdir(sandbox_path, parents=True, exist_ok=True)
                 continue
             host_files.add(sandbox_path)
+            data = path.read_bytes()
             try:
-                text = path.read_text()
+                text = data.decode()
             except UnicodeDecodeError:
-                text = path.read_bytes().decode(errors="ignore")
+                text = data.decode(errors="ignore")
             self.vfs.mkdir(sandbox_path.parent, parents=True, exist_ok=True)
             should_write = True
             if self.vfs.is_file(sandbox_path):
-                try:
-                    existing = self.vfs.read_file(sandbox_path)
-                except InvalidOperation:
-                    existing = None
-                else:
-                    if existing == text:
-                        should_write = False
+                existing = self.vfs.get_node(sandbox_path)
+                if isinstance(existing, VirtualFile) and existing.read(self.vfs) == text:
+                    should_write = False
             if should_write:
                 self.vfs.write_file(sandbox_path, text)
         self._remove_missing(host_dirs, host_files)
diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 9449291..43d66b3 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -903,7 +903,7 @@ class VirtualFileSystem:
                 self._export_directory(child, target)
             elif isinstance(child, VirtualFile):
                 target.parent.mkdir(parents=True, exist_ok=True)
-                target.write_text(child.read(self))
+                target.write_bytes(child.read(self).encode("utf-8"))
             else:
                 raise InvalidOperation(f"Unsupported node type during export: {type(child)!r}")
 
-- 
2.43.0


From 13f8d2322a70e2ae637aba460bd12f7c1ee4952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:24 +0000
Subject: [PATCH 22/34] fix: FileSystemAdapter preserves line endings

Reading translated \r\n and \r to \n, so text did not survive a round trip.
---
 sandfs/adapters.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sandfs/adapters.py b/sandfs/adapters.py
index 601d4be..1fb70fe 100644
--- a/sandfs/adapters.py
+++ b/sandfs/adapters.py
@@ -82,6 +82,9 @@ class FileSystemAdapter(StorageAdapter):
             raise ValueError(f"Path escapes adapter root: {path}")
         return target
 
+    def _read_text(self, target: Path) -> str:
+        return target.read_bytes().decode(self.encoding, errors="replace")
+
     def _refresh_version(self, rel_path: str, *, target: Path | None = None) -> int:
         if target is None:
             target = self._resolve(rel_path)
@@ -104,7 +107,7 @@ class FileSystemAdapter(StorageAdapter):
         if not target.exists():
             raise FileNotFoundError(path)
         version = self._refresh_version(path, target=target)
-        content = target.read_text(encoding=self.encoding, errors="replace")
+        content = self._read_text(target)
         return StorageEntry(content=content, version=version)
 
     def write(self, path: str, content: str, *, version: int) -> StorageEntry:
@@ -113,7 +116,7 @@ class FileSystemAdapter(StorageAdapter):
         if current != version:
             raise ValueError("version mismatch")
         target.parent.mkdir(parents=True, exist_ok=True)
-        target.write_text(content, encoding=self.encoding, errors="replace")
+        target.write_bytes(content.encode(self.encoding, errors="replace"))
         mtime = target.stat().st_mtime_ns
         new_version = current + 1
         self._versions[path] = new_version
@@ -127,7 +130,7 @@ class FileSystemAdapter(StorageAdapter):
                 continue
             rel_path = path.relative_to(self.root).as_posix()
             version = self._refresh_version(rel_path, target=path)
-            content = path.read_text(encoding=self.encoding, errors="replace")
+            content = self._read_text(path)
             entries[rel_path] = StorageEntry(content=content, version=version)
         return entries
 
-- 
2.43.0


From 95b8ca418c7c076505e1b70f598b23988aab8472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:26 +0000
Subject: [PATCH 23/34] fix: FileSystemAdapter.list no longer follows links out
 of its root

A symbolic link below the root exposed files outside it, which read() refuses.
---
 sandfs/adapters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandfs/adapters.py b/sandfs/adapters.py
index 1fb70fe..7b41fd2 100644
--- a/sandfs/adapters.py
+++ b/sandfs/adapters.py
@@ -126,7 +126,7 @@ class FileSystemAdapter(StorageAdapter):
     def list(self) -> dict[str, StorageEntry]:
         entries: dict[str, StorageEntry] = {}
         for path in self.root.rglob("*"):
-            if not path.is_file():
+            if not path.is_file() or not path.resolve().is_relative_to(self._root_resolved):
                 continue
             rel_path = path.relative_to(self.root).as_posix()
             version = self._refresh_version(rel_path, target=path)
-- 
2.43.0


From 7e67d22f267d90e52915d6d61b4fe2e070f32181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:29 +0000
Subject: [PATCH 24/34] fix: tail with a count of zero prints nothing

---
 sandfs/shell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index a65dd6c..4491464 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -1267,9 +1267,9 @@ class SandboxShell:
 
             if mode == "lines":
                 lines = content.splitlines(keepends=True)
-                output.append("".join(lines[-count:]))
+                output.append("".join(lines[-count:] if count else []))
             else:
-                output.append(content[-count:])
+                output.append(content[-count:] if count else "")
 
             if i < len(paths) - 1:
                 output.append("")
-- 
2.43.0


From 6a8cf3875f75936b14b77164dd05f4c5b9b4fbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:56 +0000
Subject: [PATCH 25/34] fix: tree without a path checks that the current
 directory is visible

ls and find already refuse a hidden current directory.
---
 sandfs/shell.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 4491464..8bc6eca 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -728,12 +728,10 @@ class SandboxShell:
         return CommandResult()
 
     def _cmd_tree(self, args: list[str], ctx: CommandContext | None = None) -> CommandResult:
-        target = args[0] if args else None
-        if target:
-            with self._maybe_search_context(target) as resolved:
-                self._ensure_visible_path(resolved)
-                return CommandResult(stdout=self.vfs.tree(resolved, view=self.view))
-        return CommandResult(stdout=self.vfs.tree(target, view=self.view))
+        target = args[0] if args else self.vfs.pwd()
+        with self._maybe_search_context(target) as resolved:
+            self._ensure_visible_path(resolved)
+            return CommandResult(stdout=self.vfs.tree(resolved, view=self.view))
 
     def _cmd_write(self, args: list[str], ctx: CommandContext | None = None) -> CommandResult:
         if not args:
-- 
2.43.0


From 2e8b966d0ccdb6ab45f3460c7a770b325271106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:08 +0000
Subject: [PATCH 26/34] fix: searching normalises the path it is limited to

---
 sandfs/vfs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 43d66b3..41bd154 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -8,7 +8,7 @@ import re
 import tempfile
 import time
 from collections.abc import Iterable, Iterator, Mapping, MutableMapping
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from pathlib import Path, PurePosixPath
 
 from .adapters import StorageAdapter
@@ -418,6 +418,8 @@ class VirtualFileSystem:
         *,
         view: VisibilityView | None = None,
     ) -> list[SearchResult]:
+        if query.path_prefix is not None:
+            query = replace(query, path_prefix=self._normalize(query.path_prefix))
         try:
             self._ensure_read_allowed(self._resolve_node(query.path_prefix or "/"))
         except (NodeNotFound, InvalidOperation):
-- 
2.43.0


From f85acf7b9d05c0aee70e85da7dee20f6eddf8276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:20 +0000
Subject: [PATCH 27/34] fix: a storage back end that cannot be listed is not
 mounted half-way

---
 sandfs/vfs.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 41bd154..da0d9c6 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -11,7 +11,7 @@ from collections.abc import Iterable, Iterator, Mapping, MutableMapping
 from dataclasses import dataclass, replace
 from pathlib import Path, PurePosixPath
 
-from .adapters import StorageAdapter
+from .adapters import StorageAdapter, StorageEntry
 from .exceptions import InvalidOperation, NodeExists, NodeNotFound, SandboxError
 from .hooks import WriteEvent, WriteHook
 from .integrations import PathEvent, PathHook
@@ -254,9 +254,10 @@ class VirtualFileSystem:
         relative = self._relative_storage_path(node.path(), prefix)
         adapter.delete(relative)
 
-    def _load_storage_mount(self, prefix: PurePosixPath, adapter: StorageAdapter) -> None:
+    def _load_storage_mount(
+        self, prefix: PurePosixPath, entries: Mapping[str, StorageEntry]
+    ) -> None:
         directory = self._resolve_dir(prefix)
-        entries = adapter.list()
         directory.children.clear()
         directory._loaded = True
         for rel_path, entry in entries.items():
@@ -969,11 +970,12 @@ class VirtualFileSystem:
         policy: NodePolicy | None = None,
     ) -> VirtualDirectory:
         normalized = self._normalize(path)
+        entries = adapter.list()
         directory = self.mkdir(normalized, parents=True, exist_ok=True)
         if policy is not None:
             directory.policy = policy
         self._storage_mounts[normalized] = adapter
-        self._load_storage_mount(normalized, adapter)
+        self._load_storage_mount(normalized, entries)
         self._rebuild_index()
         return directory
 
@@ -982,7 +984,7 @@ class VirtualFileSystem:
         adapter = self._storage_mounts.get(normalized)
         if adapter is None:
             raise InvalidOperation(f"No storage mount at {normalized}")
-        self._load_storage_mount(normalized, adapter)
+        self._load_storage_mount(normalized, adapter.list())
         self._rebuild_index()
 
     def register_write_hook(self, prefix: str | PurePosixPath, hook: WriteHook) -> None:
-- 
2.43.0


From e9d5b92c600eab89890283a6be4aca8e951e7cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:34 +0000
Subject: [PATCH 28/34] fix: index maintenance no longer fails an operation
 that already took effect

With the root unreadable or a directory provider failing, rebuilding the
full-text index raised after move/copy/restore had already changed the tree.
---
 sandfs/vfs.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index da0d9c6..138a1b1 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -270,13 +270,22 @@ class VirtualFileSystem:
         if self._full_text_index is None:
             return
         entries = []
-        skip_prefixes = [self._search_view_prefix] if self._search_view_prefix else None
-        for path, file_node in self.iter_files("/", recursive=True, skip_prefixes=skip_prefixes):
+        pending: list[VirtualNode] = [self.root]
+        while pending:
+            node = pending.pop()
+            path = node.path()
+            if path == self._search_view_prefix:
+                continue
+            # Results are filtered by policy when searching; a node that cannot be
+            # loaded right now must not fail the operation that triggered the rebuild.
             try:
-                content = file_node.read(self)
-            except SandboxError:
+                if isinstance(node, VirtualDirectory):
+                    node.ensure_loaded(self)
+                    pending.extend(reversed(list(node.iter_children(self))))
+                elif isinstance(node, VirtualFile):
+                    entries.append((path, node.read(self)))
+            except Exception:  # providers may raise anything
                 continue
-            entries.append((path, content))
         self._full_text_index.build(entries)
 
     def _index_file(self, node: VirtualFile) -> None:
-- 
2.43.0


From 21dbf41142b97cf2aeab89a1cb350fe099800af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:00 +0000
Subject: [PATCH 29/34] fix: host fallback obeys the output limit and never
 raises out of exec

---
 sandfs/shell.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 8bc6eca..0ea7446 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -375,12 +375,12 @@ class SandboxShell:
         if self.allowed_commands is not None and name not in self.allowed_commands:
             return CommandResult(stderr=f"Command '{name}' is disabled in this shell", exit_code=1)
         handler = self.commands.get(name)
-        if handler is None:
-            if self.host_fallback:
-                return self._run_host_process([name, *args], None, stdin=ctx.stdin, env=ctx.env)
+        if handler is None and not self.host_fallback:
             return CommandResult(stderr=f"Unknown command: {name}", exit_code=127)
         try:
-            if self._handler_accepts_ctx.get(name):
+            if handler is None:
+                result = self._run_host_process([name, *args], None, stdin=ctx.stdin, env=ctx.env)
+            elif self._handler_accepts_ctx.get(name):
                 result = handler(args, ctx)
             else:
                 result = handler(args)
-- 
2.43.0


From ccbdfac9a50a31ce9495d12f2c621e9e0b0cd50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:49 +0000
Subject: [PATCH 30/34] fix: host command arguments keep relative paths and
 URLs, and map every sandbox path

Path translation rewrote any '/...' found inside a token, so 'src/app.py' or
'http://a/b' were mangled when /app.py or /a/b existed in the sandbox, while '/'
itself and names outside [A-Za-z0-9._-] were passed to the host untouched.
---
 sandfs/shell.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 0ea7446..bea4df6 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -204,20 +204,29 @@ class SandboxShell:
         return [self._translate_token(token, fs_root) for token in tokens]
 
     def _translate_token(self, token: str, fs_root: Path) -> str:
+        if token.startswith("/") and not token.startswith("//") and self.vfs.exists(token):
+            return self._render_host_path(token, fs_root, PurePosixPath(self.vfs._normalize(token)))
+
         def replacer(match: re.Match[str]) -> str:
-            candidate = match.group(0)
-            if match.start() >= 3 and token[match.start() - 3 : match.start()] == "://":
-                return candidate
+            flag, candidate = match.group(1) or "", match.group(2)
+            if candidate.startswith("//") and token[: match.start(2)].endswith(":"):
+                return match.group(0)
             sandbox_path = self._eligible_sandbox_path(candidate)
             if sandbox_path is None:
-                return candidate
-            host_path = self._sandbox_to_host_path(fs_root, sandbox_path)
-            rendered = str(host_path)
-            if candidate.endswith("/") and not rendered.endswith("/"):
-                rendered = f"{rendered}/"
-            return rendered
-
-        return re.sub(r"/[A-Za-z0-9._/\-]+", replacer, token)
+                return match.group(0)
+            return flag + self._render_host_path(candidate, fs_root, sandbox_path)
+
+        # A path starts a word (or follows an option such as -I); a slash inside a
+        # relative path belongs to that path.
+        return re.sub(
+            r"(?<![A-Za-z0-9._/\-])(-[A-Za-z0-9._\-]*)?(/[A-Za-z0-9._/\-]+)", replacer, token
+        )
+
+    def _render_host_path(self, text: str, fs_root: Path, sandbox_path: PurePosixPath) -> str:
+        rendered = str(self._sandbox_to_host_path(fs_root, sandbox_path))
+        if text.endswith("/") and not rendered.endswith("/"):
+            rendered = f"{rendered}/"
+        return rendered
 
     def _eligible_sandbox_path(self, path_str: str) -> PurePosixPath | None:
         try:
-- 
2.43.0


From ea6dfb5f8e1e0bd4032feaf91780782ecbbb530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:49 +0000
Subject: [PATCH 31/34] fix: undecodable output of a host command no longer
 discards its changes

The decoding error escaped before the copy was synced back.
---
 sandfs/shell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index bea4df6..01cf424 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -176,6 +176,7 @@ class SandboxShell:
                     input=stdin,
                     capture_output=True,
                     text=True,
+                    errors="replace",
                     check=False,
                     env=merged_env,
                 )
-- 
2.43.0


From e16075663880b71e5de926d0cc01f7af2c1f3ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:49 +0000
Subject: [PATCH 32/34] fix: a host command may replace a file by a directory
 and vice versa

Syncing back stopped at the first node whose kind had changed.
---
 sandfs/shell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index 01cf424..c50c6f2 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -250,6 +250,8 @@ class SandboxShell:
             sandbox_path = PurePosixPath("/").joinpath(*path.relative_to(fs_root).parts)
             if path.is_dir():
                 host_dirs.add(sandbox_path)
+                if self.vfs.is_file(sandbox_path):
+                    self.vfs.remove(sandbox_path)
                 if sandbox_path != PurePosixPath("/"):
                     self.vfs.mkdir(sandbox_path, parents=True, exist_ok=True)
                 continue
@@ -260,6 +262,8 @@ class SandboxShell:
             except UnicodeDecodeError:
                 text = data.decode(errors="ignore")
             self.vfs.mkdir(sandbox_path.parent, parents=True, exist_ok=True)
+            if self.vfs.is_dir(sandbox_path):
+                self.vfs.remove(sandbox_path, recursive=True)
             should_write = True
             if self.vfs.is_file(sandbox_path):
                 existing = self.vfs.get_node(sandbox_path)
-- 
2.43.0


From f36f52d28d286bfb59e171c6040afe71a5afbed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:54 +0000
Subject: [PATCH 33/34] fix: mounting or syncing a back end whose entries clash
 leaves no trace

---
 sandfs/vfs.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sandfs/vfs.py b/sandfs/vfs.py
index 138a1b1..27ed698 100644
--- a/sandfs/vfs.py
+++ b/sandfs/vfs.py
@@ -254,6 +254,12 @@ class VirtualFileSystem:
         relative = self._relative_storage_path(node.path(), prefix)
         adapter.delete(relative)
 
+    def _check_storage_layout(self, entries: Mapping[str, StorageEntry]) -> None:
+        files = {PurePosixPath(rel_path) for rel_path in entries}
+        for path in files:
+            if path == PurePosixPath(".") or any(parent in files for parent in path.parents):
+                raise InvalidOperation(f"Storage entry {path} clashes with a directory or file")
+
     def _load_storage_mount(
         self, prefix: PurePosixPath, entries: Mapping[str, StorageEntry]
     ) -> None:
@@ -980,6 +986,7 @@ class VirtualFileSystem:
     ) -> VirtualDirectory:
         normalized = self._normalize(path)
         entries = adapter.list()
+        self._check_storage_layout(entries)
         directory = self.mkdir(normalized, parents=True, exist_ok=True)
         if policy is not None:
             directory.policy = policy
@@ -993,7 +1000,9 @@ class VirtualFileSystem:
         adapter = self._storage_mounts.get(normalized)
         if adapter is None:
             raise InvalidOperation(f"No storage mount at {normalized}")
-        self._load_storage_mount(normalized, adapter.list())
+        entries = adapter.list()
+        self._check_storage_layout(entries)
+        self._load_storage_mount(normalized, entries)
         self._rebuild_index()
 
     def register_write_hook(self, prefix: str | PurePosixPath, hook: WriteHook) -> None:
-- 
2.43.0


From 524059247b646dedf649fc9d781ebf5adb45efb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:54 +0000
Subject: [PATCH 34/34] fix: a host command that failed without an error number
 had no exit code

---
 sandfs/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandfs/shell.py b/sandfs/shell.py
index c50c6f2..f51191f 100644
--- a/sandfs/shell.py
+++ b/sandfs/shell.py
@@ -186,7 +186,7 @@ class SandboxShell:
         except FileNotFoundError as exc:
             return CommandResult(stderr=str(exc), exit_code=127)
         except OSError as exc:
-            return CommandResult(stderr=str(exc), exit_code=getattr(exc, "errno", 1))
+            return CommandResult(stderr=str(exc), exit_code=exc.errno or 1)
         return CommandResult(
             stdout=completed.stdout,
             stderr=completed.stderr,
-- 
2.43.0

