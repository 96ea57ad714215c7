//! The checks: which world a property is explored in, and how much.
use crate::blobs;
use crate::conc;
use crate::engine::Prop;
use crate::fail::{p, R};
use simrt::ctx::ctx;
use crate::world::{self, Op::*, Profile};

const REAL_S: &str = "radixdb PagedFileStore (open, write, read, sync, page close, mapping, recovery), Blob, MemStore, std::fs::File and std's I/O retry code, memmap2";
const STUB_S: &str = "the operating system's file behind libc (simulated disk: process crash, power cut, short/interrupted/failed calls), parking_lot and futex (deterministic scheduler), the allocator (ledger, poison, quarantine)";

static S01: blobs::Cfg = blobs::Cfg { base: p::S01, crash: 14, power: 0, faults: 3, reopen: 2, sync: 2, aged: 20, max_ops: 14 };
static S02: blobs::Cfg = blobs::Cfg { base: p::S02, crash: 3, power: 12, faults: 3, reopen: 2, sync: 12, aged: 20, max_ops: 14 };
static S03: blobs::Cfg = blobs::Cfg { base: p::S03, crash: 10, power: 3, faults: 6, reopen: 4, sync: 4, aged: 20, max_ops: 14 };
static S04: blobs::Cfg = blobs::Cfg { base: p::S04, crash: 2, power: 0, faults: 0, reopen: 3, sync: 2, aged: 10, max_ops: 40 };
static S05: blobs::Cfg = blobs::Cfg { base: p::S05, crash: 2, power: 0, faults: 16, reopen: 3, sync: 3, aged: 20, max_ops: 16 };

static C01: conc::Cfg = conc::Cfg { base: p::S01, ends: [1, 16, 0, 1], sync: 1, last: 3, kinds: [0, 2, 6] };
static C02: conc::Cfg = conc::Cfg { base: p::S02, ends: [0, 1, 16, 0], sync: 10, last: 1, kinds: [0, 2, 6] };
static C03: conc::Cfg = conc::Cfg { base: p::S03, ends: [8, 6, 2, 3], sync: 1, last: 10, kinds: [0, 2, 6] };
static C04: conc::Cfg = conc::Cfg { base: p::S04, ends: [12, 1, 0, 0], sync: 1, last: 2, kinds: [3, 2, 6] };
static C05: conc::Cfg = conc::Cfg { base: p::S05, ends: [0, 1, 1, 16], sync: 2, last: 3, kinds: [0, 2, 6] };

/// Mostly one thread; now and then several
fn run_s(b: &'static blobs::Cfg, t: &'static conc::Cfg) -> R<()> {
    if ctx().chance(1, 8) {
        conc::run_store(t)
    } else {
        blobs::run(b)
    }
}

const REAL_T: &str = "radixdb in full: RadixTree and every node operation, iterators, serialisation, Blob, IterKey, MemStore, DynBlobStore, PagedFileStore with std::fs::File and memmap2";
const STUB_T: &str = "a reference blob store (arbitrary id length, content addressing) used beside the provided ones, the operating system's file behind libc (simulated disk), parking_lot and futex (deterministic scheduler), the allocator (ledger, poison, quarantine)";

const AS_S: &[&str] = &[
    "process crash: completed system calls survive, the one in progress may have happened up to any byte",
    "power cut: after the last successful sync any subset of 512-byte sectors and of size changes may have reached the medium; a sector is written atomically",
    "one process uses a file at a time, with one page size for its life; page sizes are multiples of 8",
    "ids passed to read were returned by the same file",
    "threads are sequentially consistent (weak memory orders are not simulated)",
    "sampled, not exhaustive",
];
const AS_T: &[&str] = &[
    "stores behave as documented: a blob that was written keeps its bytes; failing calls report an error",
    "combiners are deterministic functions of their two values",
    "an in-memory (detached) target is not combined with an operand whose store fails: the API gives that case no error value and panics by design",
    "process crash and power cut as in the store properties, 512-byte sectors",
    "threads are sequentially consistent (weak memory orders are not simulated)",
    "sampled, not exhaustive",
];

macro_rules! mix {
    ($($op:ident $w:expr),* $(,)?) => { &[$(($op, $w)),*] };
}
static T01: Profile = Profile {
    base: p::T01, qf: 0, uf: 5, cp: 0, pf: 10, crash: 50, power: 20, reopen: 50, kinds: [4, 2, 2, 4], max_stores: 2, attached: 30, import: 10, max_ops: 26,
    w: mix![Insert 10, Remove 4, RemovePrefix 1, CombineWith 1, Combine 1, PrefixEdit 1, Attach 6, Persist 12, Load 8, Detach 3, Clone 2, Drop 2, New 5, Sync 5, VerifyRoot 10, Fan 1],
};
static T02: Profile = Profile {
    base: p::T02, qf: 0, uf: 8, cp: 0, pf: 12, crash: 15, power: 10, reopen: 15, kinds: [4, 3, 1, 3], max_stores: 2, attached: 70, import: 10, max_ops: 34,
    w: mix![Insert 12, Remove 6, RemovePrefix 2, CombineWith 4, Combine 3, PrefixEdit 3, FilterPrefix 2, Persist 14, Load 8, Clone 4, Drop 3, New 2, Sync 2, VerifyRoot 12, Fan 1],
};
static T03: Profile = Profile {
    base: p::T03, qf: 0, uf: 5, cp: 0, pf: 70, crash: 10, power: 5, reopen: 10, kinds: [5, 1, 2, 4], max_stores: 2, attached: 30, import: 10, max_ops: 24,
    w: mix![Insert 12, Remove 5, RemovePrefix 2, CombineWith 3, PrefixEdit 2, Attach 6, Persist 16, Load 5, Clone 3, Drop 2, New 4, Sync 2, VerifyRoot 5, Fan 1],
};
static T04: Profile = Profile {
    base: p::T04, qf: 0, uf: 6, cp: 0, pf: 15, crash: 25, power: 15, reopen: 20, kinds: [5, 1, 2, 5], max_stores: 2, attached: 50, import: 60, max_ops: 24,
    w: mix![Insert 12, Remove 6, RemovePrefix 2, CombineWith 4, Combine 2, PrefixEdit 3, FilterPrefix 3, GroupBy 1, Attach 5, Persist 14, Load 8, Detach 2, Clone 2, Drop 2, New 4, Get 3, Sync 3, Ends 2, Fan 1, VerifyRoot 14],
};
static T05: Profile = Profile {
    base: p::T05, qf: 0, uf: 0, cp: 0, pf: 0, crash: 15, power: 5, reopen: 20, kinds: [3, 3, 1, 3], max_stores: 2, attached: 40, import: 10, max_ops: 40,
    w: mix![Insert 20, Remove 12, RemovePrefix 3, CombineWith 2, Combine 1, PrefixEdit 2, FilterPrefix 1, Attach 4, Persist 8, Load 5, Detach 3, Clone 2, Drop 2, New 3, Get 20, Iter 6, Hold 5, Sync 1, Fan 1],
};
static T06: Profile = Profile {
    base: p::T06, qf: 15, uf: 15, cp: 3, pf: 0, crash: 0, power: 0, reopen: 5, kinds: [5, 2, 1, 3], max_stores: 3, attached: 55, import: 10, max_ops: 26,
    w: mix![Insert 5, Remove 2, CombineWith 16, Combine 16, CombinePred 12, PrefixEdit 2, Attach 3, Persist 5, Load 4, Detach 2, Clone 2, Drop 4, New 8, Fan 1],
};
static T07: Profile = Profile {
    base: p::T07, qf: 15, uf: 15, cp: 0, pf: 0, crash: 0, power: 0, reopen: 5, kinds: [5, 2, 1, 3], max_stores: 2, attached: 45, import: 10, max_ops: 26,
    w: mix![Insert 8, Remove 3, RemovePrefix 10, CombineWith 2, PrefixEdit 16, PrefixQuery 20, FilterPrefix 12, GroupBy 10, Attach 3, Persist 5, Load 4, Detach 2, Drop 3, New 7, Fan 1],
};
static T08: Profile = Profile {
    base: p::T08, qf: 5, uf: 0, cp: 0, pf: 0, crash: 3, power: 0, reopen: 10, kinds: [5, 2, 1, 3], max_stores: 2, attached: 45, import: 10, max_ops: 30,
    w: mix![Insert 12, Remove 6, RemovePrefix 2, CombineWith 3, Combine 2, PrefixEdit 2, FilterPrefix 2, Attach 3, Persist 5, Load 4, Detach 2, Clone 1, Drop 3, New 6, Iter 20, Ends 16, Fan 6, IterOpen 5, IterStep 15],
};
static T09: Profile = Profile {
    base: p::T09, qf: 80, uf: 0, cp: 0, pf: 0, crash: 0, power: 0, reopen: 5, kinds: [6, 1, 2, 4], max_stores: 2, attached: 85, import: 10, max_ops: 26,
    w: mix![Insert 6, Remove 3, RemovePrefix 1, Persist 8, Load 8, Detach 2, Drop 3, New 6, Get 14, Iter 10, PrefixQuery 10, FilterPrefix 6, GroupBy 6, Ends 8, CombinePred 8, Combine 8, IterOpen 5, IterStep 16, Hold 3, Inspect 4, Fan 1],
};
static T10: Profile = Profile {
    base: p::T10, qf: 0, uf: 80, cp: 3, pf: 0, crash: 0, power: 0, reopen: 5, kinds: [6, 1, 2, 4], max_stores: 2, attached: 80, import: 10, max_ops: 26,
    w: mix![Insert 12, Remove 10, RemovePrefix 10, CombineWith 12, PrefixEdit 12, Persist 6, Load 8, Clone 3, Drop 3, New 6, IterOpen 3, IterStep 6, Fan 1],
};
static T11: Profile = Profile {
    base: p::T11, qf: 0, uf: 4, cp: 0, pf: 4, crash: 8, power: 4, reopen: 20, kinds: [6, 2, 1, 3], max_stores: 2, attached: 80, import: 40, max_ops: 22,
    w: mix![Insert 10, Remove 4, RemovePrefix 1, CombineWith 2, PrefixEdit 1, Persist 10, New 6, Drop 2, PathReads 40],
};
static T12: Profile = Profile {
    base: p::T12, qf: 2, uf: 8, cp: 4, pf: 8, crash: 0, power: 0, reopen: 3, kinds: [4, 2, 1, 3], max_stores: 2, attached: 35, import: 10, max_ops: 40,
    w: mix![Insert 14, Remove 8, RemovePrefix 4, CombineWith 7, Combine 5, PrefixEdit 5, FilterPrefix 3, GroupBy 2, Attach 4, Persist 6, Load 3, Detach 3, Clone 16, Drop 5, New 2, IterOpen 10, IterStep 20, Hold 6, Inspect 1, Fan 1],
};
static T13: Profile = Profile {
    base: p::T13, qf: 0, uf: 8, cp: 0, pf: 5, crash: 0, power: 0, reopen: 5, kinds: [4, 2, 1, 3], max_stores: 2, attached: 25, import: 10, max_ops: 34,
    w: mix![Insert 12, Remove 10, RemovePrefix 5, CombineWith 8, Combine 5, PrefixEdit 7, FilterPrefix 5, GroupBy 3, Attach 5, Persist 8, Load 5, Detach 8, Clone 3, Drop 3, New 4, Equality 18, RootId 8, Fan 1],
};
static T14: Profile = Profile {
    base: p::T14, qf: 15, uf: 20, cp: 12, pf: 20, crash: 5, power: 3, reopen: 10, kinds: [3, 2, 2, 4], max_stores: 2, attached: 40, import: 10, max_ops: 34,
    w: mix![Insert 10, Remove 6, RemovePrefix 4, CombineWith 7, Combine 5, CombinePred 2, PrefixEdit 6, FilterPrefix 4, GroupBy 3, PrefixQuery 2, Attach 4, Persist 7, Load 5, Detach 3, Clone 8, Drop 8, New 5, Get 3, Iter 3, Ends 3, Fan 1, IterOpen 8, IterStep 12, Hold 6, Sync 1, Inspect 3],
};

static T15: Profile = Profile {
    base: p::T15, qf: 0, uf: 5, cp: 0, pf: 20, crash: 10, power: 5, reopen: 25, kinds: [6, 2, 1, 3], max_stores: 2, attached: 80, import: 25, max_ops: 24,
    w: mix![Insert 10, Remove 4, RemovePrefix 2, CombineWith 5, Combine 1, Attach 3, Persist 10, Load 4, Clone 4, Drop 3, New 5, Detach 1, Get 3, Iter 4, IterOpen 1, IterStep 2, Incremental 30, Fan 1],
};

static T14B: blobs::Cfg = blobs::Cfg { base: p::T14, crash: 4, power: 2, faults: 4, reopen: 5, sync: 1, aged: 0, max_ops: 14 };

fn run_t12(pf: &'static Profile) -> R<()> {
    if ctx().chance(2, 5) {
        conc::run_trees(p::T12)
    } else {
        world::run(pf)
    }
}
fn run_t14(pf: &'static Profile) -> R<()> {
    match ctx().weighted(&[8, 3, 1, 1]) {
        0 => world::run(pf),
        1 => conc::run_trees(p::T14),
        2 => conc::run_store(&conc::ANY),
        _ => blobs::run(&T14B),
    }
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    macro_rules! blob {
        ($id:literal, $cfg:ident, $thr:ident, $n:expr, $rule:expr) => {
            v.push(Prop {
                id: $id,
                mask: p::$cfg,
                run: || run_s(&$cfg, &$thr),
                quick: $n,
                thorough: $n * 33,
                level: "exploration",
                rule: concat!($rule, " One run in eight is run by two to four simulated threads on one store under a drawn schedule, as in S06, with the faults of this property."),
                real: REAL_S,
                stub: STUB_S,
                assumptions: AS_S,
            })
        };
    }
    blob!("S01", S01, C01, 260000, "One run: open a simulated file with a page size drawn from 64 bytes to 1 MiB, then up to 14 drawn actions (writes with lengths at and around every page and record boundary, reads, syncs, last-id queries, oversized writes, close and reopen), with process crashes at a drawn system call (before, inside or after it, torn at drawn byte counts), also during recovery, and I/O faults armed inside the system calls of drawn actions; after each action and each restart the store is compared with a model of the acknowledged blobs. Non-trivial: a process crash was armed inside the calls of an action. Distinct: by hash of all choices and I/O.");
    blob!("S02", S02, C02, 260000, "One run: open a simulated file with a page size drawn from 64 bytes to 1 MiB, then up to 14 drawn actions (writes with lengths at and around every page and record boundary, reads, syncs, last-id queries, oversized writes, close and reopen), with power cuts at a drawn system call: any subset of the sectors and sizes not yet synced reaches the medium armed inside the system calls of drawn actions; after each action and each restart the store is compared with a model of the acknowledged blobs. Non-trivial: a power cut was armed while at least one blob was covered by a successful sync.");
    blob!("S03", S03, C03, 260000, "One run: open a simulated file with a page size drawn from 64 bytes to 1 MiB, then up to 14 drawn actions (writes with lengths at and around every page and record boundary, reads, syncs, last-id queries, oversized writes, close and reopen), with process crashes, power cuts and I/O faults armed inside the system calls of drawn actions; after each action and each restart the store is compared with a model of the acknowledged blobs. Non-trivial: a process crash was armed inside the calls of an action.");
    blob!("S04", S04, C04, 260000, "One run: up to 40 writes, reads and reopens of MemStore, PagedFileStore and its DynBlobStore form without faults, blobs held across page closes, reopens and the drop of the store, lengths at and around every page and record boundary; every blob is compared with what was written. Non-trivial: more than one blob was stored.");
    blob!("S05", S05, C05, 260000, "One run: open a simulated file with a page size drawn from 64 bytes to 1 MiB, then up to 16 drawn actions (writes with lengths at and around every page and record boundary, reads, syncs, last-id queries, oversized writes, close and reopen), with EIO, ENOSPC, full-disk caps, short and interrupted calls, failed seeks, truncates, maps and syncs, single or in bursts armed inside the system calls of drawn actions; after each action and each restart the store is compared with a model of the acknowledged blobs. Non-trivial: more than one blob was stored.");
    v.push(Prop {
        id: "S06",
        mask: p::S06,
        run: || conc::run_store(&conc::ANY),
        quick: 400_000,
        thorough: 4_000_000,
        level: "exploration",
        rule: "One run: two or three simulated threads execute drawn programs of writes, reads, last-id queries, syncs, clones and debug output on clones of one MemStore, PagedFileStore or DynBlobStore; the scheduler decides at every lock operation, futex call and system call, and between any two basic blocks of the code under test, who runs next; some runs add I/O faults, a process crash or a power cut in the middle. The recorded history is checked for a linearization against a register holding the last id, and every read against what finished writes stored. Non-trivial: at least two threads write.",
        real: REAL_S,
        stub: STUB_S,
        assumptions: AS_S,
    });
    macro_rules! tree {
        ($id:literal, $cfg:ident, $n:expr, $rule:expr) => {
            tree!($id, $cfg, $n, $rule, world::run)
        };
        ($id:literal, $cfg:ident, $n:expr, $rule:expr, $run:expr) => {
            v.push(Prop {
                id: $id,
                mask: p::$cfg,
                run: || $run(&$cfg),
                quick: $n,
                thorough: $n * 33,
                level: "exploration",
                rule: $rule,
                real: REAL_T,
                stub: STUB_T,
                assumptions: AS_T,
            })
        };
    }
    tree!("T01", T01, 240000, "One run: stores of drawn kinds (reference store with id lengths 1 to 126 and optional content addressing, MemStore, DynBlobStore, PagedFileStore on a simulated disk), several trees in memory, attached or loaded, and up to 26 drawn operations from a mix weighted towards the property, with store faults, process crashes and power cuts inside persists and clean reopens between operations; after every operation the tree concerned is compared with an ordered-map model, and at the end every tree, iterator, held value, persisted root and stored blob is. Non-trivial: a persisted root is loaded and compared.");
    tree!("T02", T02, 240000, "One run: stores of drawn kinds (reference store with id lengths 1 to 126 and optional content addressing, MemStore, DynBlobStore, PagedFileStore on a simulated disk), several trees in memory, attached or loaded, and up to 34 drawn operations from a mix weighted towards the property, with store faults in updates and persists, crashes and reopens; after every operation the tree concerned is compared with an ordered-map model, and at the end every tree, iterator, held value, persisted root and stored blob is. Non-trivial: an older root is loaded after later updates.");
    tree!("T03", T03, 240000, "One run: stores of drawn kinds (reference store with id lengths 1 to 126 and optional content addressing, MemStore, DynBlobStore, PagedFileStore on a simulated disk), several trees in memory, attached or loaded, and up to 24 drawn operations from a mix weighted towards the property, with write, read and sync failures at a drawn call inside persisting; after every operation the tree concerned is compared with an ordered-map model, and at the end every tree, iterator, held value, persisted root and stored blob is. Non-trivial: a persist failed.");
    tree!("T04", T04, 210000, "One run: stores of drawn kinds (reference store with id lengths 1 to 126 and optional content addressing, MemStore, DynBlobStore, PagedFileStore on a simulated disk), several trees in memory, attached or loaded, and up to 24 drawn operations from a mix weighted towards the property, with process crashes, power cuts and faults; 60 percent of the stores start from bytes written by an independent encoder; after every operation the tree concerned is compared with an ordered-map model, and at the end every tree, iterator, held value, persisted root and stored blob is. Non-trivial: a root was decoded by the independent decoder.");
    tree!("T05", T05, 240000, "One run: stores of drawn kinds (reference store with id lengths 1 to 126 and optional content addressing, MemStore, DynBlobStore, PagedFileStore on a simulated disk), several trees in memory, attached or loaded, and up to 40 drawn operations from a mix weighted towards the property, with restarts between operations; after every operation the tree concerned is compared with an ordered-map model, and at the end every tree, iterator, held value, persisted root and stored blob is. Non-trivial: the tree was updated or looked up and compared.");
    tree!("T06", T06, 240000, "One run: stores of drawn kinds (reference store with id lengths 1 to 126 and optional content addressing, MemStore, DynBlobStore, PagedFileStore on a simulated disk), several trees in memory, attached or loaded, and up to 26 drawn operations from a mix weighted towards the property, with read faults in one or both operands and combiner errors; after every operation the tree concerned is compared with an ordered-map model, and at the end every tree, iterator, held value, persisted root and stored blob is. Non-trivial: two trees were combined.");
    tree!("T07", T07, 240000, "One run: stores of drawn kinds (reference store with id lengths 1 to 126 and optional content addressing, MemStore, DynBlobStore, PagedFileStore on a simulated disk), several trees in memory, attached or loaded, and up to 26 drawn operations from a mix weighted towards the property, with read faults; after every operation the tree concerned is compared with an ordered-map model, and at the end every tree, iterator, held value, persisted root and stored blob is. Non-trivial: a prefix query or edit ran.");
    tree!("T08", T08, 150000, "One run: stores of drawn kinds (reference store with id lengths 1 to 126 and optional content addressing, MemStore, DynBlobStore, PagedFileStore on a simulated disk), several trees in memory, attached or loaded, and up to 30 drawn operations from a mix weighted towards the property, with read faults, and updates between the steps of open iterators; after every operation the tree concerned is compared with an ordered-map model, and at the end every tree, iterator, held value, persisted root and stored blob is. Non-trivial: a traversal was compared to its end.");
    tree!("T09", T09, 240000, "One run: stores of drawn kinds (reference store with id lengths 1 to 126 and optional content addressing, MemStore, DynBlobStore, PagedFileStore on a simulated disk), several trees in memory, attached or loaded, and up to 26 drawn operations from a mix weighted towards the property, with a read fault at a drawn load inside 80 percent of the queries; after every operation the tree concerned is compared with an ordered-map model, and at the end every tree, iterator, held value, persisted root and stored blob is. Non-trivial: a query failed because of an injected fault.");
    tree!("T10", T10, 240000, "One run: stores of drawn kinds (reference store with id lengths 1 to 126 and optional content addressing, MemStore, DynBlobStore, PagedFileStore on a simulated disk), several trees in memory, attached or loaded, and up to 26 drawn operations from a mix weighted towards the property, with a read fault at a drawn load, or a failing combiner, inside 80 percent of the updates; after every operation the tree concerned is compared with an ordered-map model, and at the end every tree, iterator, held value, persisted root and stored blob is. Non-trivial: an update failed because of an injected fault.");
    tree!("T11", T11, 240000, "One run: stores of drawn kinds (reference store with id lengths 1 to 126 and optional content addressing, MemStore, DynBlobStore, PagedFileStore on a simulated disk), several trees in memory, attached or loaded, and up to 22 drawn operations from a mix weighted towards the property, with drawn sets of blobs made unreadable for good; after every operation the tree concerned is compared with an ordered-map model, and at the end every tree, iterator, held value, persisted root and stored blob is. Non-trivial: lookups ran in a stored tree of more than two blobs, with reads compared to the key's path.");
    tree!("T12", T12, 240000, "One run: stores of drawn kinds (reference store with id lengths 1 to 126 and optional content addressing, MemStore, DynBlobStore, PagedFileStore on a simulated disk), several trees in memory, attached or loaded, and up to 40 drawn operations from a mix weighted towards the property, with clones, open iterators and held values across updates of trees sharing structure; in two fifths of the runs two or three simulated threads update their own clones of one tree under a drawn schedule; after every operation the tree concerned is compared with an ordered-map model, and at the end every tree, iterator, held value, persisted root and stored blob is. Non-trivial: another tree, a held value or an iterator was compared after an update, or threads ran on a non-empty tree.", run_t12);
    tree!("T13", T13, 240000, "One run: stores of drawn kinds (reference store with id lengths 1 to 126 and optional content addressing, MemStore, DynBlobStore, PagedFileStore on a simulated disk), several trees in memory, attached or loaded, and up to 34 drawn operations from a mix weighted towards the property, with equal contents reached by different histories, in memory and in stores; after every operation the tree concerned is compared with an ordered-map model, and at the end every tree, iterator, held value, persisted root and stored blob is. Non-trivial: two trees with equal contents were compared.");
    tree!("T14", T14, 240000, "One run: stores of drawn kinds (reference store with id lengths 1 to 126 and optional content addressing, MemStore, DynBlobStore, PagedFileStore on a simulated disk), several trees in memory, attached or loaded, and up to 34 drawn operations from a mix weighted towards the property, with every fault kind, teardown in any order, threads in a third of the runs; the simulated allocator keeps a ledger, poisons and delays the reuse of freed memory; after every operation the tree concerned is compared with an ordered-map model, and at the end every tree, iterator, held value, persisted root and stored blob is. Non-trivial: more than two trees were alive at the end, a persist failed, an update failed on a fault, or threads ran.", run_t14);
    tree!("T15", T15, 240000, "One run: stores of drawn kinds (reference store with id lengths 1 to 126 and optional content addressing, MemStore, DynBlobStore, PagedFileStore on a simulated disk), several trees in memory, attached or loaded, and up to 24 drawn operations from a mix weighted towards the property, with faults, crashes and restarts; the written and read ids of each update and persist are compared with the paths it touches; after every operation the tree concerned is compared with an ordered-map model, and at the end every tree, iterator, held value, persisted root and stored blob is. Non-trivial: an updated tree with more than two entries was persisted again.");
    v
}
