"""Writes /verif/properties.jsonl (the one source for the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=None)))

p("C01", "Sandbox operations never touch the host",
  "No filesystem call and no built-in shell command (other than the explicit escape hatches: host, bash, sh, host fallback, python, export/materialize, and a mounted host-directory adapter) opens, creates, changes or removes a file on the host, or starts a process. This holds whatever paths, names and contents are used, including '..' chains and names that look like host paths.",
  ["inputs", "histories"], "every history of API calls and shell commands outside the escape hatches, over every path spelling",
  "The tests run a handful of calls and never look at the host; one stray open() on one command would go unnoticed.",
  ["sandfs/vfs.py", "sandfs/shell.py", "sandfs/nodes.py"],
  [("pure in-memory nodes", "sandfs/nodes.py"), ("handler table without host fallback by default", "sandfs/shell.py:_run_command")],
  ["host accesses observed by the interpreter's audit events during a call"])
p("C02", "Every path spelling names the same node and stays inside the tree",
  "A path is resolved against the current directory; '.', repeated slashes and trailing slashes are ignored, '..' goes to the parent and stops at the root. Two spellings that denote the same location therefore always reach the same node in every operation (also after the current directory has been moved), and no spelling reaches anything outside the tree.",
  ["inputs", "histories"], "all relative and absolute spellings, all current directories, for every path-taking operation",
  "Tests use a few clean absolute paths; spellings x current directories x operations is unbounded.",
  ["sandfs/vfs.py"],
  [("path normalisation", "sandfs/vfs.py:_normalize"), ("resolution", "sandfs/vfs.py:_resolve_node/_resolve_dir/_ensure_file")],
  ["results and tree after each call"], [("cwd", "current directory", "sandfs/vfs.py:cwd")])
p("C03", "Tree operations have exactly their documented effect",
  "Reading a path returns what the last write, append, copy, move, restore or load put there; mkdir, touch, write, append, remove, move and copy change precisely the entries they name and leave every other node's content, kind, policy and metadata untouched. Listing and existence queries always agree with that tree. A node, with its content, is never lost or duplicated by a move, and a copy is independent of its source.",
  ["histories", "inputs"], "all sequences of tree operations over all tree shapes",
  "Tests check single operations on small fixed trees; lost or aliased nodes appear only in particular multi-step histories.",
  ["sandfs/vfs.py", "sandfs/nodes.py"],
  [("mkdir/write_file/touch/remove/move/copy", "sandfs/vfs.py"), ("child table", "sandfs/nodes.py:VirtualDirectory")],
  ["whole tree after each call, results of read/ls/exists/walk/iter_files/tree"],
  [("tree", "path -> node", "sandfs/vfs.py:root")])
p("C04", "A failed operation leaves no trace",
  "When a filesystem call raises (missing or wrong-kind path, name already taken, policy refusal, version mismatch, storage conflict or storage failure), the tree, every node's content and version, the current directory and the storage back ends are exactly as before, and no hook fired. The only exception is a recursive remove that meets a protected node part-way: what it already removed stays removed.",
  ["inputs", "histories", "fault_sequences"], "every failing call in every reachable state, with storage faults injected at every adapter call",
  "Tests assert that an exception is raised, not that nothing changed, and never make an adapter fail.",
  ["sandfs/vfs.py", "sandfs/adapters.py"],
  [("checks before mutation and rollback on storage failure", "sandfs/vfs.py:write_file,_persist_storage,remove,move,copy,_load_storage_mount")],
  ["whole state before and after a call that raised"])
p("C05", "Write protection holds on every path to a node",
  "A file marked non-writable keeps its content, version and name through every filesystem call and built-in command, and an append-only file's content only ever grows at the end; a directory marked non-writable never gains or loses an entry, and an append-only one never loses one. Only host-side administration (set_policy, mount/sync, restore) lifts this. A permitted operation is not refused because of an unrelated protected node.",
  ["histories", "inputs", "configurations"], "all policies on all nodes, all operations, all histories",
  "Two tests try write_file on one protected file; the other mutators (copy over, move, remove, touch, mkdir -p, redirection, host sync) and directories are untested.",
  ["sandfs/vfs.py", "sandfs/policies.py", "sandfs/shell.py"],
  [("write checks", "sandfs/vfs.py:_ensure_write_allowed and its callers")],
  ["contents, versions and entry sets of protected nodes before/after each call"],
  [("policy", "readable/writable/append_only flags", "sandfs/policies.py:NodePolicy")])
p("C06", "Unreadable content is never disclosed",
  "The content of a file whose policy says it is not readable is never returned by a read, by any built-in command (cat, head, tail, wc, grep, rg, search, input redirection, copies) or by search results, with or without the search index and even if the policy changed after indexing. An unreadable directory cannot be entered or listed directly. Readable files are unaffected.",
  ["histories", "inputs", "configurations"], "all placements of the unreadable flag and all read paths",
  "Tests cover ls on one unreadable directory only; every other read path is unchecked.",
  ["sandfs/vfs.py", "sandfs/shell.py", "sandfs/search.py"],
  [("read checks", "sandfs/vfs.py:_ensure_read_allowed"), ("search filtering", "sandfs/vfs.py:search, sandfs/shell.py:_search")],
  ["outputs of read/search calls and commands"])
p("C07", "A shell view discloses exactly the nodes it allows",
  "A shell bound to a view never lists, globs, finds, matches or prints the content of a node the view does not allow (classification, principals, path prefixes, metadata), by any built-in command or redirection, nor what another shell's search left behind; and nodes the view allows are shown as usual. The rule is: if a node names principals, the view must share one; otherwise its classification must be accepted; and the path must lie on or under, or lead to, an allowed prefix, and all metadata filters must match. The python and host/bash/sh escape hatches are excluded.",
  ["configurations", "inputs", "histories"], "all views x all node policies/metadata x all commands, with several shells sharing one filesystem",
  "Tests check ls and cat for a few views; the product of views, labels and ~20 commands, and cross-shell histories, is out of reach.",
  ["sandfs/policies.py", "sandfs/shell.py", "sandfs/vfs.py"],
  [("view predicate", "sandfs/policies.py:VisibilityView.allows/allows_node"), ("per-command checks", "sandfs/shell.py:_ensure_visible_path"),
   ("filtered listing/search/tree/glob", "sandfs/vfs.py:ls/search/glob/tree")],
  ["stdout of shell commands, results of ls/search/glob/tree with a view"])
p("C08", "A shell view cannot alter hidden nodes it names",
  "A built-in command of a shell bound to a view that names a hidden path as its target or source (write, append, redirection, touch, mkdir, rm, cp, mv) fails and changes nothing. Relocating or copying a directory never makes a node visible to a view that did not allow it before.",
  ["configurations", "inputs", "histories"], "all views x all policies x all mutating commands",
  "No test lets a restricted shell write anything.",
  ["sandfs/shell.py", "sandfs/policies.py"],
  [("visibility check before mutation", "sandfs/shell.py:_ensure_visible_path in _write_to_path,_cmd_touch,_cmd_mkdir,_cmd_rm,_cmd_cp,_cmd_mv")],
  ["tree before/after a command"])
p("C09", "Optimistic versions admit no lost update",
  "Every successful write or append of a file increases its version by exactly one and nothing else an agent can do lowers it while the file exists; reading never changes it. A write that states an expected version succeeds only if that is the file's current version (0 for a file that does not exist yet), otherwise it fails and changes nothing. So of several writers holding the same version at most one succeeds.",
  ["histories", "schedules"], "all interleavings of readers and writers holding possibly stale versions",
  "One linear test exercises three writes; interleavings of several clients, copies over files and failed writes are not reached.",
  ["sandfs/vfs.py"],
  [("version check and increment", "sandfs/vfs.py:_check_version, write_file")],
  ["get_version and node versions after each call, success of conditional writes"],
  [("version", "write counter of a file", "sandfs/nodes.py:VirtualNode.version")])
p("C10", "Storage mounts are written through and refreshed exactly",
  "After a successful write or append under a storage mount the back end of the innermost mount holds that content at the mount-relative path, with the version the file shows, and no other back-end entry changed; a successful remove deletes exactly the removed files' entries. Mounting or syncing makes the mounted directory contain exactly the back end's entries with their contents and versions, and changes nothing elsewhere.",
  ["histories", "configurations"], "all histories of writes, removes, syncs and external changes over nested and sibling mounts and both adapters",
  "Tests use one mount and two or three operations; routing among nested/sibling mounts and multi-step histories are not covered.",
  ["sandfs/vfs.py", "sandfs/adapters.py"],
  [("write-through", "sandfs/vfs.py:_persist_storage,_delete_storage_entry"), ("mount routing", "sandfs/vfs.py:_find_storage_mount"),
   ("load", "sandfs/vfs.py:_load_storage_mount"), ("adapters", "sandfs/adapters.py")],
  ["adapter entries and mounted subtree after each call"])
p("C11", "A change made behind the mount is never overwritten silently",
  "If a back-end entry was modified by someone else since the filesystem last loaded or wrote it, a write or append to that file fails as a conflict, and both the back end and the file keep what they had; after a sync the write is accepted again. A write is never refused when nobody else touched the entry. Holds for both the in-memory and the host-directory adapter.",
  ["histories", "schedules"], "all interleavings of sandbox writes, external writes and syncs",
  "One test has one external write; repeated conflicts, retries after sync, appends and the host-directory adapter are not covered.",
  ["sandfs/adapters.py", "sandfs/vfs.py"],
  [("compare-and-set on version", "sandfs/adapters.py:MemoryStorageAdapter.write, FileSystemAdapter.write/_refresh_version"),
   ("conflict translation and rollback", "sandfs/vfs.py:_persist_storage")],
  ["success of writes, adapter and tree contents"])
p("C12", "The host-directory adapter is confined and lossless",
  "A host-directory adapter never reads, lists, writes or deletes anything outside its root, whatever the relative path ('..', absolute, through symbolic links); such requests are rejected. Inside the root, text that was written is read, listed and reloaded unchanged character for character (including carriage returns and non-ASCII), and what is on disk after a write or delete is exactly what was asked.",
  ["inputs", "histories"], "all relative paths and symlink layouts; all texts",
  "One test tries one '../' write; symlinks, listing, reads, deletes and line endings are untested.",
  ["sandfs/adapters.py"],
  [("root confinement", "sandfs/adapters.py:FileSystemAdapter._resolve, list")],
  ["adapter results and the scratch directory tree around the root"])
p("C13", "Restore brings back exactly the snapshotted tree",
  "restore(snapshot) makes the whole tree - paths, kinds, contents, versions, policies, metadata, timestamps - the current directory and the set of storage mounts equal to what they were when the snapshot was taken, for every reachable state and regardless of policies in the tree. A snapshot is immutable: nothing done afterwards, including earlier restores and in-place policy or metadata changes, alters what it restores. Hooks, search index and search view keep working afterwards.",
  ["histories"], "all interleavings of operations, snapshots and restores (several live snapshots, repeated restores)",
  "Two tests restore two-file trees; protected directories, removed current directory, aliasing through policies/metadata and repeated restores need specific histories.",
  ["sandfs/vfs.py"],
  [("deep capture", "sandfs/vfs.py:snapshot,_clone_policy"), ("rebuild", "sandfs/vfs.py:restore")],
  ["whole tree after restore vs at snapshot"], [("VFSSnapshot", "captured nodes, cwd, mounts", "sandfs/vfs.py")])
p("C14", "Hooks report every write and removal exactly once",
  "Every successful write or append of a file calls each write hook registered on that path or an ancestor once, in registration order, with the path, full new content, new version and append flag, and each such path hook once with 'create' for a file's first version and 'update' later; removing files (also recursively) produces one 'delete' per removed file. Hooks elsewhere (including siblings with a common name prefix) are never called, and no hook fires for reads, failed calls or directories.",
  ["histories", "configurations"], "all hook registrations x all operation histories",
  "Tests register one hook and do three operations; prefix boundaries, several hooks, recursive removal and failures are not covered.",
  ["sandfs/vfs.py", "sandfs/hooks.py", "sandfs/integrations.py"],
  [("event emission", "sandfs/vfs.py:_emit_write_event,_emit_path_event,_path_matches_prefix")],
  ["recorded hook calls per operation"])
p("C15", "All search front ends agree with the files",
  "At every moment a search returns precisely the lines of current file contents that match (literal or regex, optional case folding, limited to the requested path), one result per matching line with its path, number and text; results are the same with and without the full-text index, and grep, rg, search and the search view report those same lines. This stays true after any sequence of writes, appends, moves, copies, removals, syncs and restores; only for provider-backed nodes, whose content changes outside the sandbox, the index may lag behind.",
  ["histories", "inputs"], "all histories of updates, all queries and path scopes",
  "Two tests check one query after four operations; index maintenance across all mutators and query options is not covered.",
  ["sandfs/search.py", "sandfs/vfs.py", "sandfs/shell.py"],
  [("index maintenance", "sandfs/vfs.py:_index_file,_remove_index_entry,_rebuild_index"), ("matching", "sandfs/search.py, sandfs/vfs.py:search, sandfs/shell.py:_search,_search_text"),
   ("search view", "sandfs/vfs.py:_search_view_provider,_build_search_tree, sandfs/shell.py:_parse_search_path")],
  ["results of search/grep/rg/@search"])
p("C16", "Shell exec always answers and stops at the first failure",
  "Executing any command text returns a result with stdout, stderr and exit code and never raises into the host; a failing stage, redirection or expansion yields a non-zero exit code and a message. In a pipeline no later stage runs after a failed one, and in a multi-line script no later line runs after a failed one, so their effects do not happen.",
  ["inputs", "histories"], "all command texts, pipelines and scripts in all states",
  "Tests check a few parse errors and one missing command; failures in redirections, globs, middle stages and later lines are not covered.",
  ["sandfs/shell.py", "sandfs/shell_parser.py"],
  [("dispatcher", "sandfs/shell.py:exec,_exec_pipeline,_run_command"), ("parser", "sandfs/shell_parser.py")],
  ["CommandResult or exception; tree after the call"])
p("C17", "Command allow-list and output limit cannot be bypassed",
  "A shell with an allow-list runs only listed commands - in any pipeline stage, through variable expansion, and with host fallback enabled - and refuses everything else with a non-zero exit and no effect; an empty list allows nothing. A shell with an output limit never returns or pipes on more than that many bytes (UTF-8) of command output: larger output is replaced by an error, and smaller or equal output is passed through unchanged.",
  ["configurations", "inputs"], "all allow-lists x all commands and spellings; all limits x all outputs incl. multi-byte text",
  "Tests try one forbidden command and one oversized ASCII file.",
  ["sandfs/shell.py"],
  [("allow-list check", "sandfs/shell.py:_run_command"), ("limit", "sandfs/shell.py:_enforce_output_limit")],
  ["CommandResult, tree after the call, process starts"])
p("C18", "Pipelines, redirections and variables carry data faithfully",
  "In a pipeline each stage receives exactly the previous stage's output (or the redirected file's content); '>' replaces and '>>' extends the target file with exactly the stage's output, which then does not flow on. Variables are expanded from the shell environment plus the stage's own assignments; stage assignments do not outlive the stage, and bare assignments persist. Text tools (echo, cat, head, tail, wc, grep) compute their documented result on any text.",
  ["inputs", "histories"], "all pipelines over the built-in text commands and all texts",
  "Tests run four one- or two-stage pipelines.",
  ["sandfs/shell.py", "sandfs/shell_parser.py"],
  [("pipeline executor", "sandfs/shell.py:_exec_pipeline,_expand_vars,_read_from_path,_write_to_path"), ("text commands", "sandfs/shell.py:_cmd_*")],
  ["stdout and files written"])
p("C19", "The host bridge mirrors the tree both ways",
  "A host command sees exactly the sandbox's tree, in the directory that corresponds to the requested sandbox directory, and sandbox paths in its arguments are mapped into that copy. Afterwards the sandbox equals the tree the command left: changed files are written once, new ones created, vanished ones removed, and everything untouched keeps its content, version, policy and metadata with no hook fired; protected nodes stay unchanged and the temporary copy is gone.",
  ["histories", "inputs"], "all trees (texts, policies, nesting) and all host-side edits",
  "Tests run a few real commands on a two-file tree; untouched-file stability with unusual texts and policies is not covered.",
  ["sandfs/shell.py", "sandfs/vfs.py"],
  [("materialise/run/sync", "sandfs/shell.py:_run_host_process,_sync_from_host,_remove_missing,_translate_token"), ("export", "sandfs/vfs.py:materialize,_export_directory")],
  ["materialised copy, command line given to the process, tree afterwards"])
p("C20", "Export reproduces the subtree on disk and nothing else",
  "Exporting or materialising a directory creates on disk exactly its descendants - every directory (also empty ones) and every file with its exact text - below the target, writes nothing outside the target, and leaves the sandbox unchanged. A materialised copy disappears when its context ends, also when it ends with an error.",
  ["inputs", "histories"], "all trees, sources and targets",
  "Two tests export a three-file tree.",
  ["sandfs/vfs.py"],
  [("export", "sandfs/vfs.py:export_to_path,_export_directory,materialize")],
  ["directory tree on disk, sandbox tree"])
p("C21", "Provider-backed nodes behave like the data they provide",
  "A provider-backed file yields the provider's current answer for its current path and metadata on every read, until a write replaces it or an append extends what a reader saw; a failing provider surfaces as a provider error and damages nothing. A provider-backed directory asks its provider at most once per mount, on first need, and then behaves as a normal directory holding the provided nodes with their policies and metadata; entries created explicitly win over provided ones.",
  ["histories", "fault_sequences"], "all interleavings of provider changes/failures with reads, writes, moves and copies",
  "Two tests read one provider file and list one provider directory.",
  ["sandfs/nodes.py", "sandfs/providers.py", "sandfs/vfs.py"],
  [("dynamic read", "sandfs/nodes.py:VirtualFile.read/write"), ("lazy load", "sandfs/nodes.py:VirtualDirectory.ensure_loaded, instantiate_provided_node")],
  ["read results, provider call log, tree"])
p("C22", "Python snippets share the sandbox and nothing else",
  "A Python snippet run by the sandbox acts on the same tree as the other commands, returns what it printed as its output, and by default import statements and open() fail in it; names it defines are not visible to later snippets, and it cannot disturb the helper names given to later ones. An exception in a snippet fails that command only: effects so far stay, and the shell remains usable.",
  ["histories", "inputs"], "all sequences of snippets and commands",
  "Three tests print one expression.",
  ["sandfs/pyexec.py", "sandfs/shell.py"],
  [("restricted namespace", "sandfs/pyexec.py:PythonExecutor.run"), ("python command", "sandfs/shell.py:_cmd_python")],
  ["stdout, exit code, tree"])
p("C23", "The command line runs the same shell on the mounted directories",
  "'sandfs exec' prints exactly the stdout and stderr of the command and exits with its code; 'sandfs shell' runs each input line in one session until the user quits, surviving failing commands. Each --mount makes exactly that host directory's files available at the sandbox path and writes made there land in it; host fallback is off unless requested.",
  ["inputs", "histories"], "all command sequences and mount sets",
  "Two tests run echo.",
  ["sandfs/cli.py"],
  [("entry points", "sandfs/cli.py:_run_exec,_run_shell,_build_vfs")],
  ["stdout/stderr/exit code of the CLI, mounted directories"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
