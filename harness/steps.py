"""What each property's check runs: tool, workload and scale per tier."""
import os


def native(b, quick, thorough, **kw):
    return {"kind": "native", "bin": b, "scale": {"quick": quick, "thorough": thorough}, **kw}


def ship(of):
    """The same workload, smaller, built without debug assertions and overflow checks."""
    return {**of, "kind": "ship", "scale": {k: max(v / 4, 1) for k, v in of["scale"].items()}}


def asan(b, quick, thorough, **kw):
    return {"kind": "asan", "bin": b, "scale": {"quick": quick, "thorough": thorough}, **kw}


def tsan(b, quick, thorough, **kw):
    return {"kind": "tsan", "bin": b, "scale": {"quick": quick, "thorough": thorough}, **kw}


def aliasing(scale, seeds, shards=1):
    """Miri under both aliasing models, with a seed for every run; each run takes one of the shards of the subjects,
    each shard once per model in 2 * shards runs."""
    models = ["", "-Zmiri-tree-borrows"]
    return [("-Zmiri-seed=%d %s" % (s, models[s % 2]),
             {"VERIF_SEED": str(1000 * BASE_SEED + s), "VH_SCALE": scale, "VH_SHARD": "%d/%d" % (s // 2, shards)})
            for s in range(seeds)]


def miri(b, quick, thorough, **kw):
    """quick, thorough: lists of (flags, environment)."""
    def runs(l):
        return [{"flags": f, "env": e} for f, e in l]
    return {"kind": "miri", "bin": b, "runs": {"quick": runs(quick), "thorough": runs(thorough)}, **kw}


def abroad(b, scale, n):
    """Thorough tier only: a machine of the other byte order, under Miri."""
    runs = [("", {"VERIF_SEED": str(5000 * BASE_SEED + s), "VH_SCALE": scale}) for s in range(n)]
    return [{**miri(b, [], runs), "tiers": ["thorough"], "target": "s390x-unknown-linux-gnu"}]


BASE_SEED = int(os.environ.get("VERIF_SEED") or 1)
STEPS, TECHNIQUE, NOTES, LEVELS, NOT_APPLICABLE = {}, {}, {}, {}, {}


def prop(pid, technique, note, *steps, level="exploration"):
    STEPS[pid] = [s for step in steps for s in ([step, ship(step)] if step["kind"] == "native" else [step])]
    TECHNIQUE[pid] = technique
    NOTES[pid] = note
    LEVELS[pid] = level


prop("C01", "runtime monitoring: round-trip oracle over generated item sequences",
     "Held on every generated sequence: each row compared bit for bit through view, owned, borrowed and consuming "
     "iteration and an independent decoding of the buffers. Trusts the harness's generators and the standard library.",
     native("c01", 20, 600))

prop("C02", "runtime monitoring: mutation histories against a plain-list model",
     "Held on every generated history: contents, buffers and bystander clones compared after every operation.",
     native("c02", 60, 1500))

prop("C03", "runtime monitoring: hostile indices under overflow checks, on collections, nested views and children",
     "Held for every probed index: boundaries, powers of two, fractions and top of the index range over storage that "
     "extends past the logical end; built with overflow checks so that any arithmetic overflow is a panic.",
     native("c03", 60, 2000))

prop("C05", "runtime monitoring: independent Arrow decoder over the exposed buffers after every mutation",
     "Held in every state decoded. The decoder uses only the bytes, bit offset, offsets and child data.",
     native("c05", 60, 1500))

prop("C08", "runtime monitoring: null accounting recomputed from the decoded rows",
     "Held on every validity audited: explicit at any bit offset with garbage around it, or omitted, nested anywhere.",
     native("c08", 60, 1500))

prop("C04", "runtime monitoring: size bounds checked after every step of every iterator driving pattern",
     "Held on every driven iterator: both bounds after every step, skips, counts, early stops and resumption.",
     native("c04", 60, 1500))

prop("C06", "runtime monitoring: independent acceptance oracle for raw parts, with memory identity of what comes back",
     "Held on every part set tried, valid or damaged, including lengths no memory can back (storage-free "
     "collections); the first broken rule and its values are compared with an oracle written from the format.",
     native("c06", 60, 1500))

prop("C07", "runtime monitoring: bit-level reference reader with the surroundings of the window varied",
     "Held on every window, offset and surrounding tried; append and truncate compared bit by bit.",
     native("c07", 60, 1500))

prop("C15", "runtime monitoring: offset overflow boundaries over storage-free child data",
     "Held at and around every offset boundary reached; child data is virtual so that 2^31 items cost nothing.",
     native("c15", 100, 2000))

prop("C16", "runtime monitoring: list views against the list they denote, over damaged surroundings",
     "Held on every view compared, including copies, pairs of views and owned conversions.",
     native("c16", 60, 1500))

prop("C17", "runtime monitoring: allocation metering while collections are read and fingerprinted in place",
     "Held on every read: no storage request of the thread or of any buffer's allocator; rows equal by fingerprint.",
     native("c17", 40, 1500))

prop("C18", "runtime monitoring with fault injection: memory held and growths counted over histories",
     "Held on every history: memory held compared with the buffers after every operation and with nothing at the end; "
     "growths of long append sequences compared with doubling.",
     native("c18", 60, 3000))

prop("C19", "runtime monitoring: processor time per operation on few rows against many",
     "Held for every operation timed: not more than 20 times the time on 64 rows plus 400 ns, in at least one of "
     "six measurements; unaffected by load, and far below what any pass over the rows takes.",
     native("c19", 30, 600))

prop("C09", "runtime monitoring with fault injection: every storage request of a history refused in turn",
     "Held at every injected fault: each request of each history fails once, persistently, and from the growable "
     "storage by the global allocator; contents compared with the state before the failed operation.",
     native("c09", 40, 1000), level="fault_enumeration")

prop("C10", "runtime monitoring with fault injection: panics raised at every point of appended items and iterators",
     "Held at every planted panic: invariants and committed rows audited after the unwind, and use continued.",
     native("c10", 20, 800), level="fault_enumeration")

prop("C11", "runtime monitoring: size hints that lie in every direction, with allocation metering",
     "Held for every hint tried: contents, consumption and memory do not depend on what an iterator promises.",
     native("c11", 60, 1500))

prop("C12", "runtime monitoring: differential comparison of one set of parts across every storage backend",
     "Held on every part set: every backend read through every access path, handles partially consumed in between.",
     native("c12", 12, 600))

prop("C13", "runtime monitoring: storage requests attributed to numbered allocators, default allocator watched",
     "Held on every construction and history watched; every buffer's owner is read back at every level.",
     native("c13", 60, 1500))

prop("C14", "runtime monitoring: storage requests counted while reserved room is filled",
     "Held on every reservation watched, on storage without growth slack, so that a shortfall of one item or one bit "
     "is a counted request.",
     native("c14", 60, 2000))

prop("F01", "runtime monitoring: AddressSanitizer and Miri (both aliasing models) over generated consumer programs",
     "Held in every program run: reads, moves, imports, children taken out and releases in random order, under "
     "AddressSanitizer natively and under Miri with Stacked and Tree Borrows and its leak check; live memory metered.",
     native("f01", 10, 300), asan("f01", 3, 100), miri("f01", aliasing("0.02", 8, 4), aliasing("0.1", 64)),
     *abroad("f01", "0.05", 8))

prop("F02", "runtime monitoring: independent C data interface consumer over every export",
     "Held on every export read: type tree, counts, pointers and every value, read through the C layouts alone.",
     native("f02", 30, 1500))

prop("F03", "runtime monitoring: exposed addresses, storage owner counts and metered memory around every release",
     "Held on every export watched: addresses, owners of every shared buffer, bytes behind the pointers, memory given up.",
     native("f03", 30, 1500), asan("f03", 3, 100))

prop("F04", "runtime monitoring: round-trip oracle through export and import, every item type against every other",
     "Held on every round trip: repeated, simultaneous and chained imports read through every access path and located.",
     native("f04", 15, 600))

prop("F05", "runtime monitoring: independent producer and acceptance oracle, with damaged structures, under AddressSanitizer",
     "Held on every pair produced or damaged: outcome and error compared with an oracle of the rules; buffers are exactly "
     "as long as described, so reading further is caught by AddressSanitizer.",
     native("f05", 40, 2000), asan("f05", 10, 400), miri("f05", aliasing("0.01", 8, 4), aliasing("0.1", 32)),
     *abroad("f05", "0.05", 16))

prop("F06", "runtime monitoring: declared null counts and validity bits against an independent oracle",
     "Held on every declaration tried, exhaustive for up to 5 rows; nulls read through every accessor and view.",
     native("f06", 60, 2000))

prop("F07", "runtime monitoring: bit offsets read back from the array against the outcome of its export, owners and memory watched",
     "Held on every export tried, over storage whose owners and memory are watched.",
     native("f07", 60, 2000))

prop("F08", "runtime monitoring: AddressSanitizer and Miri over consumer programs that take children out of exports",
     "Held in every program: children and child schemas at every level outlive their parents, with values re-read after "
     "every release and the owners of the storage counted.",
     native("f08", 20, 500), asan("f08", 4, 150), miri("f08", aliasing("0.02", 8, 4), aliasing("0.1", 64)))

prop("F09", "runtime monitoring: release callbacks counted per structure by an instrumented foreign producer",
     "Held after every step of every program: each callback has run exactly as often as the fate of its structure demands, "
     "and imports leave every byte of the producer unchanged.",
     native("f09", 40, 2000), miri("f09", aliasing("0.02", 8, 4), aliasing("0.1", 24)))

prop("F10", "runtime monitoring: ThreadSanitizer and Miri's race detector over threads sharing exports",
     "Held in every interleaving observed: native stress under ThreadSanitizer (standard library instrumented too), and "
     "Miri schedules drawn from many seeds with weak memory and leak checks.",
     native("f10", 4, 200), tsan("f10", 3, 100),
     miri("f10", [("-Zmiri-seed=%d -Zmiri-preemption-rate=%s" % (100 * BASE_SEED + s, r), {"VERIF_SEED": str(1000 * BASE_SEED + s), "VH_SCALE": "0.1"})
                  for s, r in enumerate(["0.01", "0.1", "0.3", "0.01", "0.1", "0.05", "0.5", "0.02"])],
          [("-Zmiri-seed=%d -Zmiri-preemption-rate=%s" % (100 * BASE_SEED + s, r), {"VERIF_SEED": str(1000 * BASE_SEED + s), "VH_SCALE": "0.2"})
           for s, r in enumerate(["0.01", "0.1", "0.3", "0.01", "0.1", "0.05", "0.5", "0.02"] * 8)]))

NOT_APPLICABLE["X01"] = ("A sealing property is decided by the compiler rejecting programs; no execution of accepted "
                         "code can observe it, so runtime monitoring cannot apply.")
