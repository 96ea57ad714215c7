#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, os
N = "src/node/mod.rs"; P = "src/store/paged_file_store.rs"; B = "src/store/blob_store.rs"; M = "src/store/mem_store.rs"; L = "src/lib.rs"
props = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("S01", "Acknowledged blobs survive a process crash",
  "If a write to the file-backed blob store returned an id, then after the process dies at any later instant (including in the middle of another write, a page close, or a previous recovery) and the file is opened again, reading that id returns exactly the bytes that were written. Opening a file left behind by a crash succeeds, and blobs written after the recovery neither damage nor alias the older ones.",
  ["crash_points", "histories", "inputs", "configurations"],
  "every sequence of blob sizes, page size and initial file age, every system call at which the process can stop (with any prefix of an in-flight write applied), any number of crash/reopen cycles",
  "The tests write and read back through one live handle and reopen at most a cleanly written file; none stops the process between two system calls of one append.",
  [P], [("append writes the record first and moves the committed size in the header afterwards", f"{P}:Inner::append, Inner::commit, write_size"),
        ("open truncates the file to the committed size", f"{P}:Inner::new, read_size"),
        ("page close pads and maps the page", f"{P}:Inner::close_page, pad_to, load_page")],
  [("committed size", "8 byte big endian file offset 16; the only durable pointer to the end of the data", "file header")],
  ["BlobStore::read / write / PagedFileStore::new / last_id on a simulated disk"])
p("S02", "A successful sync makes everything written before it durable",
  "Once sync on a file-backed store has returned success, every blob acknowledged before that sync is readable with its exact bytes after a power failure at any later point, whichever of the file's not-yet-synced sectors and file sizes happen to have reached the disk. If nothing was written after the sync, the id the store reports as its last one is also the same after the power failure. A sync that could not make the data durable reports an error.",
  ["crash_points", "fault_sequences", "histories"],
  "every history of writes, syncs and reopenings, every power-cut point, every subset and order of unsynced sectors persisted (with torn multi-sector writes), failing fsync calls",
  "Tests never lose the page cache; a sync that does nothing passes all of them.",
  [P, B], [("sync flushes the file", f"{P}:BlobStore::sync"), ("open trusts only the committed size", f"{P}:Inner::new")],
  None, ["BlobStore::sync, and reads after PagedFileStore::new on the surviving image"])
p("S03", "The last id always names the newest committed blob",
  "On an open file-backed store the reported last id is the id of the most recently acknowledged blob (none for a new file), whatever writes failed in between. After a process crash and reopen it is the id of the last acknowledged blob, or of a later append that failed or was in flight when the process died, and that id is always readable and yields exactly that blob's bytes.",
  ["crash_points", "histories", "fault_sequences", "configurations"],
  "every history of appends of any size, failed appends, crash points inside an append or page close, and reopenings",
  "No test looks at the last id after a crash or a failed append; the window between closing a page and committing the next record is never visited.",
  [P], [("last id is recovered from the committed size in the header", f"{P}:Inner::new"), ("commit after the complete record", f"{P}:Inner::append, commit")],
  [("last_id", "id of the newest blob; entry point to find the newest tree root again", P)], ["PagedFileStore::last_id"])
p("S04", "Blob ids are unique and a blob never changes",
  "Every blob a provided store accepted, from the empty blob up to the largest allowed size and including contents equal to an earlier blob, is returned byte for byte by every later read of its id, no matter how many blobs were written since, whether its page was closed, evicted or mapped, or whether the store was closed and reopened. No two writes share an id unless the contents are equal, and a blob handed out earlier keeps its contents after the store and all its clones are dropped.",
  ["histories", "inputs", "configurations"],
  "every append/read/reopen history, blob sizes around every page boundary, page sizes, file offsets beyond 4 GiB, and all provided stores (memory, file, dynamic)",
  "Tests cover a few random block lists with one page size on a fresh file, and read each id once while warm.",
  [P, M, B], [("append-only log with end offsets as ids", f"{P}:append, bytes, load_recent"), ("owner keeps the mapped page or vector alive", f"{B}:Blob; {P}:Page::bytes"), ("next id is the largest key plus one", f"{M}:write")],
  None, ["BlobStore::read / write for MemStore, PagedFileStore, DynBlobStore; Blob"])
p("S05", "A failed I/O operation is reported and contained",
  "When the operating system fails or shortens any read, write, seek, resize, map or sync a file-backed store issues, the store either absorbs it (short and interrupted calls) or returns an error; it never reports success for a blob that cannot be read back, never returns wrong bytes, and does not panic. Blobs acknowledged earlier stay readable, a blob larger than the page allows is refused without side effects, and as soon as the fault is gone the same store accepts and serves new blobs correctly, also after reopening.",
  ["fault_sequences", "histories", "inputs"],
  "every placement of EIO, ENOSPC, EINTR, short transfers and mapping failures over the system calls of every operation history, transient or persistent",
  "Tests never see a failing system call.",
  [P], [("error propagation through every step of append and read", f"{P}:Inner::*"), ("every append re-seeks to the end of the file", f"{P}:append")],
  None, ["results of PagedFileStore operations under injected system call results"])
p("S06", "Concurrent use of one store is linearizable",
  "Any number of threads may write, read, sync and query clones of one provided store at the same time: every operation behaves as if it took effect atomically at one instant between its call and its return, each thread reads back exactly what any finished write stored, ids are never shared by different blobs, and the last id follows that same order. No interleaving deadlocks or loses an operation, and a thread stopped by a crash leaves only complete blobs behind.",
  ["schedules", "crash_points", "histories"],
  "every interleaving of two to four client threads at lock operations, system calls and operation boundaries",
  "All tests are single threaded.",
  [P, M, B], [("one mutex around file cursor, page cache and last id", f"{P}:PagedFileStore(Arc<Mutex<Inner>>)"), ("mutex around the map", f"{M}:MemStore")],
  None, ["concurrent histories of BlobStore operations"])
p("T01", "A persisted tree reloads to the same contents",
  "A tree attached or re-attached to a store can be loaded again from the id it was persisted under, through the same handle or after the store was closed, crashed or (if synced) lost power, and then has exactly the keys and values it had when it was persisted. This holds for every store and id length, for the empty tree, and for keys and values of any length including those kept out of line; detaching the loaded tree gives an equal in-memory tree.",
  ["histories", "inputs", "crash_points", "configurations"],
  "every tree contents and persist history, store kinds and id lengths 1 to 126, crash and power-loss points after the persist",
  "Round-trip tests use one in-memory store with 8 byte ids, short keys and no restart.",
  [N, L, P], [("serialize / deserialize of nodes", f"{N}:TreeNode::serialize, deserialize, BorrowedTreeNode::read_one"), ("indirect prefixes and values", f"{N}:OwnedBlobRef::serialize, load_prefix, load_value")],
  None, ["RadixTree::try_attached / try_reattach / try_load / try_detached"])
p("T02", "A persisted root is an immutable version",
  "Every id ever returned by persisting a tree keeps denoting the contents of that moment: any later inserts, removals, bulk operations or re-persists of trees sharing structure with it, failed operations included, leave the tree loaded from that id unchanged. The same holds for every older version in the same store at the same time, before and after restarts.",
  ["histories", "crash_points", "fault_sequences"],
  "every history of versions derived from each other by any operations, with restarts and failed operations in between",
  "Tests persist a tree once and never look at an older version after changing and re-persisting a newer one.",
  [N, P], [("copy on write of nodes; children referenced by id", f"{N}:load_children_mut, Arc::make_mut"), ("append-only stores", f"{P}; {M}")],
  None, ["RadixTree::try_load of every published id"])
p("T03", "A failed persist changes nothing and can be retried",
  "If attaching or re-attaching a tree fails because the store failed at any point, the in-memory tree keeps its exact contents and stays usable, and nothing that was persisted earlier is damaged. Retrying once the store works again succeeds, and what is then loaded from the returned id equals the tree.",
  ["fault_sequences", "histories", "crash_points"],
  "every position of a failing or partly completed store write within a persist of every tree, transient or repeated, plus crashes inside the persist",
  "No test makes a store write fail.",
  [N, P], [("the node is replaced only after everything was written", f"{N}:try_reattach, TreeNode::serialize")],
  None, ["RadixTree::try_reattach / try_attached results and contents"])
p("T04", "Stored bytes follow the documented format in both directions",
  "At every moment, including on the image left by a crash, the blobs reachable from a persisted root parse under the documented node format (header bytes, inline and indirect prefix, value and children, constant record size marker, first prefix byte kept with an indirect prefix, children ordered and prefixes non-empty below the root) by an independent decoder, which yields exactly the tree's contents. Conversely every file and blob set produced by an independent encoder of that format is opened and answered correctly.",
  ["histories", "inputs", "crash_points", "configurations"],
  "every tree contents, mutation and persist history, id length and page layout; both directions",
  "Tests check a few hand-written byte strings and otherwise read data only with the code that wrote it.",
  [L, N, P], [("documented data format", f"{L}: module docs, 'Data format'"), ("node codec", f"{N}:serialize, read_one, Header"), ("record and header layout", f"{P}:append, bytes, write_size")],
  [("node record", "prefix, value, children each as header byte plus up to 127 bytes", L)], ["raw blobs in the store and bytes of the file image"])
p("T05", "A tree is a map whatever mix of memory and store holds it",
  "After any history of inserts, overwrites, removals, attaching, detaching, persisting and reloading (also across restarts), a tree answers get, contains, iteration and value loading exactly like an ordinary ordered byte-string map that saw the same updates. Parts kept in memory and parts kept in the store are indistinguishable to the caller, for all key and value lengths, and a value obtained from the tree loads the stored bytes.",
  ["histories", "inputs", "configurations", "crash_points"],
  "every operation history over every store kind, with nested, empty, and long keys and values around the inline/indirect limits",
  "Model tests exist only for in-memory trees built from small random maps; mutation of trees whose nodes are in a store is not exercised.",
  [N], [("lookup over owned and borrowed nodes", f"{N}:find"), ("in-place combine used by insert and remove", f"{N}:outer_combine_with, left_combine_with"), ("on-demand loading of children", f"{N}:load_children_mut, split, canonicalize")],
  None, ["try_get, try_contains_key, try_insert, try_remove, try_iter, Value::load"])
p("T06", "Bulk combine equals the per-key definition across stores",
  "Outer, inner and left combination of two trees, as new trees, in place, or as predicates, give exactly what applying the combiner key by key to the two maps gives, and call the combiner exactly on the keys both trees hold with the values of those keys, whichever of the operands live in memory, in the same store, or in different stores. With read faults in either store they either return that result or an error.",
  ["histories", "inputs", "fault_sequences", "configurations"],
  "every pair of trees with every history and storage placement, combiner decisions including deletions, and read faults",
  "Tests combine small in-memory trees only; operands in stores are never combined.",
  [N], [("recursive merge of children", f"{N}:outer_combine*, inner_combine*, left_combine*, OuterJoin"), ("converters between stores", f"{N}:DetachConverter, DowncastConverter, IdentityConverter")],
  None, ["try_*_combine, try_*_combine_with, try_*_combine_pred"])
p("T07", "Prefix queries and prefix edits are exact",
  "For every prefix, has-prefix, prefix scan, subtree extraction with substitution, grouping, prefix removal, and retaining or removing by the prefixes in another tree select exactly the keys an ordered map would select, with their full keys and values and in order, whichever nodes are in memory or in a store. This also holds when the prefix ends exactly at, inside, or beyond a stored key or shared segment, and for the empty prefix and the empty tree.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "every tree history and storage placement and every prefix relation, with predicates, and with read faults (then the result or an error)",
  "Prefix tests use in-memory trees and mostly random prefixes; stored trees and exact node hits are hardly visited.",
  [N], [("find with exact, inside and no match", f"{N}:find, scan_prefix, filter_prefix"), ("prefix set operations", f"{N}:retain_prefix_with, remove_prefix_with"), ("grouping", f"{N}:GroupBy")],
  None, ["try_has_prefix, try_scan_prefix, try_filter_prefix, try_group_by, try_remove_prefix, try_retain_prefix_with, try_remove_prefix_with"])
p("T08", "Traversal is sorted, complete and consistent with first and last",
  "Iterating keys and values, or values alone, over any tree in memory, in a store, or partly in both yields every entry exactly once in strictly ascending key order; the two iterations agree, keys already handed out never change as iteration goes on, and the first and last value and entry (with any caller-supplied key prefix) are the ends of that sequence or absent for the empty tree. This holds at every point of every history.",
  ["histories", "inputs", "configurations"],
  "every history, storage placement, fan-out up to 256 and nesting depth, with handed-out keys retained or dropped",
  "Order is tested on in-memory trees from small maps.",
  [N], [("stack based iterators", f"{N}:KeyValueIter, ValueIter, IterKey"), ("ordered children", f"{N}:sort_by_key, OuterJoin, InPlaceVecBuilder merges")],
  None, ["try_iter, try_values, try_first_value, try_last_value, try_first_entry, try_last_entry"])
p("T09", "A query that meets a failing store is right or reports the error",
  "When any store read fails during a query, the query returns either the correct answer or an error, never a wrong or partial answer presented as complete, and it does not panic. An iterator yields a correct prefix of the sequence, then exactly one error, then ends; the tree stays usable, and the same query gives the full correct answer once the store works again.",
  ["fault_sequences", "histories", "inputs"],
  "every placement of transient and permanent read failures over the reads of every query on every stored or partly stored tree",
  "No test uses a store whose reads fail.",
  [N, L], [("error propagation from every load", f"{N}:find, load_children, load_prefix, iterators' next"), ("fallible variants of all methods", L)],
  None, ["results of all try_ queries"])
p("T10", "A failed update leaves the tree as it was",
  "If an in-place update of a tree (insert, remove, prefix removal, in-place combination, retain or remove by prefix) returns an error because a store read or the caller's combiner failed, the tree still has exactly the contents it had before the call, and repeating the call without the fault gives the correct result. Trees and iterators sharing structure with it are unaffected.",
  ["fault_sequences", "histories", "inputs"],
  "every read or combiner failure position within every in-place update on every stored or partly stored tree",
  "No test lets a store read or a combiner fail in the middle of an update.",
  [N], [("update works on a copy-on-write clone or fails before changing anything", f"{N}:try_*_with")],
  None, ["try_insert, try_remove, try_*_with and contents afterwards"])
p("T11", "An unreadable blob affects only the keys stored under it",
  "If some blobs of a stored tree cannot be read, looking up a key fails only if one of those blobs lies on that key's own path, and every other key is still answered correctly. Loading a tree and looking up a key read only blobs on that key's path, never siblings or unrelated values, so a tree far larger than memory can be queried. The same goes for prefix tests, for the first and last entry (the blobs on the way to it), for listing the keys under a prefix (the way to the prefix and what is stored under it), and for inserting or removing a key (its path, the children of the node where it ends, and the prefix of a node merged with its parent). Combining or editing a stored tree in place with an in-memory tree, and inner combinations, need only what updating the keys of the in-memory tree would. So do left combinations and prefix edits of an in-memory tree with a stored one.",
  ["fault_sequences", "inputs", "histories"],
  "every set of unreadable blobs over every stored tree and every present or absent key or prefix",
  "No test loses a blob or observes which blobs a lookup reads.",
  [N, L], [("children, prefixes and values are loaded on demand", f"{N}:find, load_children, load_prefix, Value::load"), ("documented on-disk querying without deserializing", L)],
  None, ["ids passed to BlobStore::read during lookups"])
p("T12", "Clones and iterators are isolated snapshots",
  "A clone of a tree, and an iterator or value taken from a tree, keep showing exactly the contents of the moment they were taken, however the original, other clones or trees combined from it are updated, persisted or dropped afterwards, on the same or other threads, in any interleaving. Updates of one clone are never visible in another.",
  ["schedules", "histories", "inputs"],
  "every interleaving of updates, steps of open iterators, persists and drops over a family of clones on up to four threads",
  "Tests neither interleave iteration with updates nor share clones between threads.",
  [N], [("Arc based copy on write", f"{N}:Arc::make_mut in load_children_mut, canonicalize"), ("iterators own the nodes they walk", f"{N}:OwnedTreeNodeIter::new_owned, IterKey")],
  None, ["contents of clones and iterators while others are updated"])
p("T13", "Equality and shape depend on contents only, not on history",
  "Two in-memory trees compare equal if and only if they hold the same keys with the same values, whatever histories of inserts, removals, combinations, failures, persists and reloads produced them, and emptiness, leaf-ness, root prefix and root value follow from the contents alone. Consequently persisting equal trees to a content-addressed store yields the same root id.",
  ["histories", "inputs", "configurations"],
  "every pair of histories ending in equal or nearly equal contents",
  "Tests compare trees built one way; canonical form after removals or reloads is not compared with a freshly built tree.",
  [N], [("canonicalize after every operation", f"{N}:canonicalize"), ("structural equality", f"{N}:PartialEq for TreeNode")],
  None, ["PartialEq, is_empty, is_leaf, prefix, value, root id in a content-addressed store"])
p("T14", "No history leaks, double-frees or uses freed memory",
  "Whatever mix of operations, errors, failing callbacks, drops, clones and threads is executed, memory owned by the library is freed exactly once and only after its last use: when all trees, iterators, values, blobs and stores are dropped nothing stays allocated or mapped, and nothing is freed twice or touched after being freed. In particular a dropped store or iterator never invalidates a blob, value or clone that is still held.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "every history of tree and store operations with injected errors and every drop order of trees, iterators, values, blobs and stores, on up to four threads",
  "The unions and lifetime extensions are checked by no test; leaks and stale reads are invisible to assertions on contents.",
  [N, B, P], [("manual reference counting in unions", f"{N}:CompactOwnedBlob, ChildrenRef manual_clone/manual_drop, Drop"), ("lifetime extension with owners", f"{B}:Blob::from_arc_vec; {N}:extend_lifetime; {P}:Page::bytes")],
  None, ["allocation ledger and canaries of the simulated allocator, mapping table"])
p("T15", "Persisting is incremental",
  "Re-persisting a tree that was loaded or persisted before writes only what changed: subtrees, long keys and long values no update touched are referenced by their existing ids and not written again, so the number of blobs written is bounded by the paths of the updated keys, and re-persisting an unchanged tree writes a single blob. Subtrees taken over unchanged from another persisted tree of the same store by an outer combination keep their ids too. This holds across restarts and after failed persists.",
  ["histories", "inputs", "fault_sequences"],
  "every history of updates between persists on every stored tree",
  "No test observes what a persist writes.",
  [N], [("ids are kept for untouched children, prefixes and values", f"{N}:TreeNode::serialize, OwnedBlobRef::serialize, set_children_id, split")],
  None, ["BlobStore::write calls during try_reattach"])
p("T16", "Map macro, debug output and memory footprint are as documented",
  "The literal-building macro creates the listed entries, debug and hex output show the data, and the in-memory nodes stay as compact as documented.",
  ["inputs"], "every literal and every value printed",
  "Tests sample these; nothing but the input matters.",
  [L, "src/util.rs", N], [("macro and formatting code", f"{L}; src/util.rs")])
p("T17", "The browser file systems behave like files over a chunk cache",
  "The browser package's synchronous file view over the web cache returns, for every sequence of writes that begin at or before the end of the file, appends, truncations, deletions and reopenings by this or a later worker, the bytes, lengths and existence an ordinary file would have; records and blobs come back as they were appended, and a PagingFile serves every blob it accepted and, after the worker has died at any instant, every blob that was synced. Names mean the same file to every worker. A write, append or deletion that is interrupted by the death of the worker or by a rejected cache call has happened completely or not at all; an operation reports success only if it happened; reads under rejected cache calls are right or an error, and reading what is not there is an error, never a panic.",
  ["histories", "crash_points", "fault_sequences", "schedules"], "every history of file and blob operations, every cache call at which the worker dies (before or after its effect) or which is rejected, every delay of a promise",
  "The browser package has unit tests of the planned chunk operations only; nothing executes a plan, interrupts one, or opens the file again, because that needs a browser.",
  ["browser/src/web_cache_fs.rs", "browser/src/sync_fs.rs", "browser/src/paging_file.rs", "browser/src/lib.rs"],
  [("chunks named by level, offset and length; a write puts the new chunk above the old ones before it deletes any", "browser/src/web_cache_fs.rs:add, truncate, execute_plan"),
   ("command loop between synchronous handles and the asynchronous cache", "browser/src/sync_fs.rs; browser/src/web_cache_fs.rs:WebCacheFs::run"),
   ("pages closed when full, last page written by sync", "browser/src/paging_file.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in props: f.write(json.dumps(x) + "\n")
print(len(props))
