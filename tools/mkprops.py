#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is this script's output)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": None}})

LAY = ["src/array.rs", "src/layout/mod.rs", "src/layout/boolean.rs", "src/layout/fixed_size_primitive.rs",
       "src/layout/fixed_size_list.rs", "src/layout/variable_size_list.rs"]
COL = ["src/collection/mod.rs", "src/collection/flatten.rs", "src/bitmap/mod.rs", "src/validity.rs", "src/offset.rs"]
READ = ["Collection::view", "Collection::owned", "Collection::iter_views", "Collection::into_iter_owned", "Length::len"]

p("C01", "Collected items read back unchanged through every access path",
  "For every supported item type (booleans, fixed-size scalars and scalar arrays, fixed-size and variable-size lists, each of them optionally nullable, nested to any depth) and every finite sequence of items, collecting the sequence into the corresponding array or collection yields a length equal to the number of items. Random access (borrowed and owned), borrowed iteration and consuming iteration all return exactly those items, bit for bit and in order. Null, empty and default values stay distinct, at every nesting level.",
  ["inputs", "configurations"], "all item types expressible by nesting, all finite item sequences (including NaN payloads, extremes, lengths around 8-bit and 1024-item boundaries), all construction routes (collect, collect with an allocator, fallible collect, default+extend)",
  "Unit tests round-trip a handful of short literals per layout; they reach few nestings, almost no lengths past a byte and compare with == (NaN and -0.0 invisible).",
  LAY + COL, [("layout selection", "src/layout/mod.rs: Layout/ArrayItem impls"), ("value/validity split and zip", "src/validity.rs: FromIterator, ValidityIter"), ("offset ranges", "src/offset.rs: Offsets::view, OffsetIntoIter"), ("chunking", "src/collection/flatten.rs: Flatten::view, ArrayChunks"), ("bit packing", "src/bitmap/packed.rs, src/bitmap/unpacked.rs")],
  observe=READ)

p("C02", "Any history of appends, truncations and reserves matches a plain list",
  "Starting from any valid collection, any interleaving of infallible and fallible appends, reservations, truncations and clones leaves it with exactly the contents obtained by performing the same appends and truncations on a plain list of the items. Truncating to a length at or above the current one and reserving never change contents, truncated items never reappear or influence later items, and mutating a clone never affects the original (nor the reverse).",
  ["histories", "inputs", "configurations"], "all operation sequences over all growable item types and storages, from empty, collected, pre-sized and raw-parts starting states (explicit or omitted validity, bit offsets, spare trailing data)",
  "Tests execute single append/truncate pairs on fresh collections; stale bits, stale child data and chunk boundaries only matter after specific multi-step histories.",
  COL + LAY, [("bit-level append over unspecified tail bits", "src/bitmap/mod.rs: Extend, CollectionRealloc::try_extend/truncate"), ("chunked validity append", "src/validity.rs: Extend, try_extend, VALIDITY_CHUNK"), ("drop of unreferenced data before append", "src/offset.rs: Extend, try_extend, truncate"), ("group-aligned child", "src/collection/flatten.rs: Extend, truncate")],
  state=[("Bitmap::bits", "number of logical bits; bytes past it are stale", "src/bitmap/mod.rs"), ("Offsets::offsets", "row boundaries into data", "src/offset.rs"), ("Validity::bitmap", "optional explicit validity", "src/validity.rs")], observe=READ)

p("C03", "Out-of-range access answers None for every index and never panics",
  "For every collection, nested list view and validity query, asking for the item (or its nullness) at an index below the length returns a value, and at any other index, up to the largest representable one, returns nothing. No index whatsoever causes a panic, overflow or a value outside the collection's logical range, even when the underlying storage physically extends beyond that range.",
  ["inputs", "configurations"], "all collections and nested views, all usize indices, windows with bit offsets, truncated collections and raw parts with spare data",
  "Tests probe index len on a few collections; extreme indices and every nesting level are not sampled.",
  COL + ["src/bitmap/validity.rs", "src/collection/vec.rs", "src/collection/slice.rs", "src/collection/rc.rs", "src/collection/arc.rs", "src/collection/box.rs", "src/collection/array.rs"],
  [("length guard before physical access", "src/bitmap/mod.rs: Bitmap::view"), ("length guard", "src/validity.rs: Validity::view"), ("offset lookup", "src/offset.rs: Offsets::view, OffsetView::view"), ("group lookup", "src/collection/flatten.rs: Flatten::view")],
  observe=["Collection::view", "Collection::owned", "ValidityBitmap::is_null", "ValidityBitmap::is_valid"])

p("C04", "Iterators report their exact remaining length at every step",
  "Borrowed iteration and consuming iteration over any collection or nested view yield exactly as many items as the collection's length, and after every single step both the lower and the upper bound they report equal the number of items still to come. Skipping ahead, advancing step by step, stopping early and counting agree with random access at the corresponding index.",
  ["inputs", "histories", "configurations"], "all collections, storages, bit offsets and every consumption pattern (next, nth, skip, step, partial then drop, last, count)",
  "Tests collect iterators to completion; size reports at intermediate steps, with bit offsets or after nth, are hardly exercised.",
  COL + ["src/bitmap/unpacked.rs", "src/collection/slice.rs"], [("bit iterator size", "src/bitmap/unpacked.rs: BitUnpacked::size_hint"), ("zip of values and bits", "src/validity.rs: ValidityIter"), ("chunk iterator", "src/collection/flatten.rs: ArrayChunks"), ("offset iterator", "src/offset.rs: OffsetIntoIter"), ("slice iterator", "src/collection/slice.rs: SliceIntoIter")],
  observe=["Collection::Iter size_hint", "Collection::IntoIter len"])

p("C05", "Physical buffers follow the Arrow columnar format",
  "After any construction or mutation the exposed physical buffers are a valid Arrow columnar encoding of the logical items: bits are packed least-significant first, an explicit validity has exactly one bit per row with 1 meaning valid, offsets start at zero, never decrease, number one more than the rows and never pass the child data, and fixed-size lists hold exactly width child slots per row. Null rows still occupy their slot in every sibling buffer, and decoding the buffers independently, by the Arrow rules alone, reproduces the logical items.",
  ["inputs", "histories", "configurations"], "all item types, contents and mutation histories",
  "Tests compare the physical bytes of a few literals; the encoding invariants must hold after every history and for every nesting.",
  COL + LAY, [("LSB-first packing", "src/bitmap/packed.rs"), ("placeholder values for nulls", "src/validity.rs: unwrap_or_default"), ("offset accumulation", "src/offset.rs: Extend"), ("child flattening", "src/collection/flatten.rs: Extend")],
  observe=["BufferRef::buffer_ref", "ChildRef::child_ref"])

p("C06", "Raw parts are accepted exactly when valid and returned untouched",
  "Building a bitmap, nullable collection, offset-based list or fixed-size list from raw parts succeeds exactly when the parts satisfy the format's rules (bit range within the bytes; equal lengths; offsets non-empty, starting at zero, non-negative, non-decreasing and within the data; child length a multiple of a non-zero width), with no panic for any metadata whatsoever. A rejection names the first rule broken with its actual values. Accepted parts, wrapped into layouts and arrays and unwrapped again, come back as the identical memory without copying.",
  ["inputs", "configurations"], "all buffers, lengths, offsets (including values near the integer limits) for both offset widths and all storages",
  "Tests check one or two examples per error variant; acceptance boundaries and extreme metadata are not enumerated.",
  ["src/bitmap/mod.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs", "src/array.rs"], [("range check", "src/bitmap/mod.rs: Bitmap::try_from_parts"), ("length check", "src/validity.rs: Validity::try_from_parts"), ("offset scan", "src/offset.rs: Offsets::try_from_parts"), ("multiple check", "src/collection/flatten.rs: Flatten::try_from_parts"), ("moves", "into_parts, from_buffer, into_buffer")],
  observe=["try_from_parts", "into_parts", "from_buffer", "into_buffer"])

p("C07", "Bitmap windows depend only on the bits inside the window",
  "A bitmap over any byte buffer with any bit offset and length reads as exactly the selected bits, least-significant first, whatever the bits and bytes outside the window contain. Appending, truncating and reserving at any bit position preserve the earlier bits of the window and the bits before it, and appended bits follow the window immediately.",
  ["inputs", "histories"], "all byte contents, bit offsets, lengths and append/truncate sequences",
  "Tests use a few offsets and patterns; correctness depends on every combination of offset mod 8, length mod 8, spare bytes and surrounding garbage.",
  ["src/bitmap/mod.rs", "src/bitmap/packed.rs", "src/bitmap/unpacked.rs"], [("bit/byte index arithmetic", "src/bitmap/mod.rs: bit_index, byte_index, trailing_bits"), ("in-place tail fill and overwrite", "src/bitmap/mod.rs: Extend, try_extend")],
  state=[("offset/bits", "window into the byte buffer", "src/bitmap/mod.rs: Bitmap")], observe=["Bitmap views, iterators, into_parts"])

p("C08", "Null accounting is exact",
  "For every nullable collection, whether its validity is explicit or omitted and whatever its bit offset, the null count and valid count equal the number of null and non-null items and sum to the length. The per-index null and valid queries match the items, and the any/all null/valid predicates are exactly the corresponding statements over all items, also for the empty collection. Omitted validity means every item is valid.",
  ["inputs", "histories", "configurations"], "all validity patterns, lengths, bit offsets, surrounding garbage and mutation histories, for every kind of nullable layout",
  "Tests count a few short patterns; popcount masking errors show only at particular offset/length/garbage combinations.",
  ["src/bitmap/validity.rs", "src/bitmap/mod.rs", "src/validity.rs"], [("masked popcount", "src/bitmap/mod.rs: Bitmap::count_ones"), ("predicates", "src/bitmap/validity.rs: ValidityBitmap")],
  observe=["ValidityBitmap methods"])

p("C09", "Failed reservations leave collections unchanged and usable",
  "When storage cannot be obtained at any point of a fallible construction, append or reservation, the operation returns an allocation error instead of panicking or aborting, and an existing collection keeps exactly its previous length and contents. The collection then remains fully usable: later reads, appends and truncations behave as if the failed call had never been made. Requests too large to represent are errors as well, and without a failure the operation succeeds completely.",
  ["fault_sequences", "histories", "configurations"], "every allocation request of every fallible operation failing (once or from then on), for all nested item types, states and both instrumented storage and the global allocator",
  "Tests inject a failure at one or two hand-picked points; the guarantee quantifies over every allocation point of every nested buffer.",
  ["src/collection/mod.rs", "src/collection/vec.rs", "src/bitmap/mod.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs"], [("rollback", "src/validity.rs: try_extend; src/offset.rs: try_extend; src/bitmap/mod.rs: try_extend; src/collection/vec.rs: try_extend"), ("checked capacity arithmetic", "src/collection/flatten.rs: try_with_capacity_in, try_reserve; src/offset.rs: try_with_capacity_in")],
  observe=["CollectionAllocIn::try_*", "CollectionRealloc::try_*"])

p("C10", "A panicking source leaves a committed prefix and a usable collection",
  "If the source of an append panics at any item, the collection afterwards contains its previous items followed by some prefix of the items the source had delivered, never an altered, partial or invented item. All access paths and the physical buffers agree on that content, and any later sequence of operations behaves as on a fresh collection with the same content.",
  ["fault_sequences", "histories", "configurations"], "a panic at every item position (around byte and 1024-item boundaries) of every append operation, for all nested item types and starting states, followed by arbitrary operations",
  "Tests panic at one position on a few flat layouts; misalignment appears only for certain nestings, positions and follow-up operations.",
  ["src/bitmap/mod.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs"], [("per-item or completion-only commit of bit counts", "src/bitmap/mod.rs: Extend"), ("validity appended after values", "src/validity.rs: Extend"), ("trim before append", "src/validity.rs, src/offset.rs: Extend"), ("complete chunks", "src/collection/flatten.rs: CompleteChunks")],
  observe=READ)

p("C11", "Only the delivered items matter, not size hints or late items",
  "Constructing from or appending any source consumes its items once, in order, up to the first end-of-items and stores exactly those, whatever lawful size bounds the source reports (exact, zero, unknown or vastly larger than the items delivered). Items a source would deliver after its first end-of-items are never requested into the collection, and a source that merely reports a huge upper bound neither exhausts memory nor fails.",
  ["inputs", "configurations"], "all lawful size hints, resumable sources and source lengths, for all constructors, appends and item types",
  "Tests use slices and ranges, whose hints are exact and which never resume after the end.",
  ["src/bitmap/mod.rs", "src/bitmap/packed.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs", "src/collection/vec.rs"], [("fuse", "src/bitmap/mod.rs: FromIterator, Extend, *_from_iter_in, try_extend"), ("lower-bound sizing", "src/validity.rs, src/offset.rs: *_from_iter_in"), ("chunk loop", "src/validity.rs: Extend")],
  observe=["FromIterator, Extend, from_iter_in, try_from_iter_in, try_extend"])

p("C12", "Contents do not depend on the storage backend",
  "The same physical parts held by growable, boxed, reference-counted, atomically reference-counted, borrowed or inline storage present the same length, items, views, iteration order and null information. Reading or partially consuming one handle to shared or borrowed storage never disturbs another handle to it.",
  ["configurations", "inputs"], "all item types crossed with all storage backends, all contents, shared handles",
  "Tests exercise each storage with a flat literal; nested layouts over non-default storages are barely touched.",
  ["src/buffer.rs", "src/collection/vec.rs", "src/collection/box.rs", "src/collection/rc.rs", "src/collection/arc.rs", "src/collection/slice.rs", "src/collection/array.rs"], [("storage selection", "src/buffer.rs: Buffer impls"), ("per-storage access", "src/collection/*.rs: Collection impls"), ("copying iterator over shared slices", "src/collection/slice.rs: SliceIntoIter")],
  observe=READ)

p("C13", "The caller's allocator is used for every buffer, nested or late",
  "A collection built with a caller-provided allocator obtains the storage of all its buffers, at every nesting level and including validity that is only materialised later, from that allocator and never from a default one. The collection keeps reporting that allocator, and two collections with different allocators never exchange storage requests.",
  ["configurations", "histories"], "all item types, constructors and mutation histories with distinguishable allocators",
  "Tests check routing for a few flat layouts right after construction.",
  ["src/collection/mod.rs", "src/validity.rs", "src/offset.rs", "src/bitmap/mod.rs", "src/collection/flatten.rs"], [("allocator threading", "*_in constructors"), ("late bitmap", "src/validity.rs: materialize_bitmap, try_materialize_bitmap")],
  observe=["storage-side event log", "CollectionRealloc::allocator"])

p("C14", "Requested capacity is really available",
  "After constructing with, or reserving (fallibly or not), capacity for n items, appending up to n items whose variable-size parts are empty makes no further storage request in any buffer, at any nesting level of fixed-size structure and at any current bit position. Reserving does not change contents, and fallible construction with a capacity that cannot be represented reports an error.",
  ["inputs", "histories", "configurations"], "all n, all item types, all prior states including unaligned bit positions and omitted validity",
  "Tests check capacity() of a flat vector once.",
  ["src/bitmap/mod.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs", "src/collection/vec.rs"], [("bits to bytes", "src/bitmap/mod.rs: bytes_for_bits, reserve, try_reserve"), ("n+1 offsets", "src/offset.rs: with_capacity_in"), ("width multiplication", "src/collection/flatten.rs: with_capacity_in, reserve")],
  observe=["storage-side growth log"])

p("C15", "List offsets never wrap or truncate",
  "Appending a list whose end position does not fit the offset width panics for infallible appends and returns an error for fallible ones; it never stores a wrapped, truncated or negative offset. The lists present before the failing call remain intact, and every total that does fit, up to and including the largest representable one, is accepted.",
  ["inputs", "histories"], "all child lengths and append histories around the limits of both offset widths",
  "Reaching the limits with real data needs gigabytes, so no test does.",
  ["src/offset.rs"], [("checked accumulation", "src/offset.rs: Offset::strict_add, Extend, try_extend")],
  state=[("offsets.last()", "next start position", "src/offset.rs")], observe=["Offsets after appends of virtual-length lists"])

p("C16", "List views behave exactly like the list they denote",
  "A borrowed view of a list row, at any nesting level, has the row's length and items through every access path, independent of neighbouring rows, unreferenced child data and the physical start position. It equals another collection exactly when both have the same length and pairwise equal items, converts to an owned list equal to the row, and copies of it are interchangeable.",
  ["inputs", "configurations"], "all lists and list pairs (equal, prefix, extension, one differing item), all nestings, offset widths and storages",
  "Tests compare a few views with literals; prefixes, empties, nested views and non-compact offsets are not covered.",
  ["src/offset.rs", "src/collection/flatten.rs", "src/collection/owned.rs"], [("view range", "src/offset.rs: OffsetView"), ("equality", "src/offset.rs: PartialEq for OffsetView"), ("group view", "src/collection/flatten.rs: FlattenView")],
  observe=["OffsetView, FlattenView API"])

p("C17", "Reading never asks for memory",
  "Asking any collection, nested view or imported array, of any item type, nesting and storage, for its length, its rows (by index or by driving borrowed iterators in any way), its null information and its physical buffers, and comparing list views, makes no storage request at all, however many rows there are and however long their lists. Any number of reads in any order return the same rows and leave contents and buffers as they were.",
  ["inputs", "configurations", "histories"], "all collections, storages, physical layouts and ways of reading",
  "Tests compare the results of reads and cannot see what a read allocates.",
  ["src/validity.rs", "src/offset.rs", "src/bitmap/mod.rs", "src/bitmap/validity.rs", "src/collection/flatten.rs", "src/collection/slice.rs", "src/array.rs"], [("views without containers", "src/offset.rs: OffsetView; src/collection/flatten.rs: FlattenView"), ("lazy unpacking", "src/bitmap/unpacked.rs"), ("null queries", "src/bitmap/validity.rs: ValidityBitmap"), ("equality", "src/offset.rs: PartialEq for OffsetView")],
  observe=["counting global allocator", "storage-side request counters"] + READ)

p("C18", "Storage follows the contents and is given back",
  "Appending rows in portions of any size makes each buffer of a growable collection grow only about logarithmically often, and the memory held never exceeds a small constant multiple of the most that contents and requested room have ever taken, however often equal reservations, truncations and refills, clones and refused or panicking operations are repeated. Once a collection and its iterators are dropped, wherever iteration stopped and whatever failed before, every byte obtained has been given back.",
  ["histories", "inputs", "fault_sequences"], "all histories of appends, reservations, truncations, failures and consumption, all item types",
  "Tests run short histories and look at contents; neither growth frequency nor leaks show.",
  ["src/collection/vec.rs", "src/bitmap/mod.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs"], [("amortised growth", "src/collection/vec.rs: CollectionRealloc"), ("bits to bytes", "src/bitmap/mod.rs: reserve, bytes_for_bits"), ("cleanup after failures", "src/validity.rs: CommittedItems; src/collection/flatten.rs: CompleteChunks; src/offset.rs: try_extend"), ("owning iterators", "src/offset.rs: OffsetIntoIter; src/collection/flatten.rs: ArrayChunks")],
  observe=["counting global allocator", "storage-side request counters", "physical buffer sizes"])

E_ = ["narrow-ffi/src/export/mod.rs", "narrow-ffi/src/export/boolean.rs", "narrow-ffi/src/export/fixed_size_primitive.rs", "narrow-ffi/src/export/fixed_size_list.rs", "narrow-ffi/src/export/variable_size_list.rs", "narrow-ffi/src/lib.rs"]
I_ = ["narrow-ffi/src/import/mod.rs", "narrow-ffi/src/import/boolean.rs", "narrow-ffi/src/import/fixed_size_primitive.rs", "narrow-ffi/src/import/fixed_size_list.rs", "narrow-ffi/src/import/variable_size_list.rs", "narrow-ffi/src/lib.rs"]

p("C19", "What a row costs does not grow with the number of rows",
  "For every collection type and storage, the length, random access to a row (borrowed or owned), a row's nullness, an index that is not there, an item of a list row, a new iterator and its remaining length take time that depends on the row at most, not on the number of rows or on the index, imported arrays included. A complete borrowed or consuming iteration, and any number of appends of few rows, take time proportional to what is read or appended; appending nothing, reserving room that is there and truncating by few rows do not depend on the length either. Excepted are the one-time costs of moving storage that is full, of writing out a validity that was omitted, of passing the bit offset of a bitmap when its iteration begins, and of counting nulls.",
  ["inputs", "configurations", "histories"], "all collection types, storages, lengths and indices, physical oddities, and mutation histories",
  "Tests use a few rows, where a scan of everything is as fast as a lookup, and measure nothing.",
  COL + LAY, [("bit lookup", "src/bitmap/mod.rs: Bitmap::view"), ("row lookup", "src/validity.rs: Validity::view; src/offset.rs: Offsets::view, OffsetView::view; src/collection/flatten.rs: Flatten::view"), ("last offset", "src/offset.rs: Extend, try_extend, truncate"), ("validity flushed in chunks", "src/validity.rs: Extend, try_extend")],
  observe=["Collection::view", "Collection::owned", "Collection::iter_views", "Collection::into_iter_owned", "Length::len", "Extend::extend", "CollectionRealloc"])

p("F01", "Exporting, consuming, importing and releasing is free of undefined behaviour",
  "For every exportable array and storage, any lawful sequence of moving the exported structures, reading everything they expose, importing them, dropping imports and releasing array and schema in either order performs no invalid, out-of-bounds, misaligned, uninitialised, dangling or aliasing-violating memory access and no double free. When everything has been released, no memory obtained by the export is left allocated.",
  ["histories", "programs", "configurations"], "all item types, storages, contents and lawful consumer programs",
  "Plain test runs do not notice undefined behaviour or leaks, and run one release order.",
  E_ + I_, [("pinned private data", "narrow-ffi/src/export/mod.rs: ArrayData, into_array"), ("schema private data", "narrow-ffi/src/export/*_list.rs"), ("release callbacks", "narrow-ffi/src/export/mod.rs: release_array, release_schema"), ("borrowing import", "narrow-ffi/src/import/*.rs")],
  observe=["Miri, AddressSanitizer, counting allocator"])

p("F02", "Exported structures conform to the Arrow C Data Interface",
  "A consumer that knows only the C structure layouts and the Arrow specification reads from every export the correct type tree (format strings, nullable flags, child counts), the correct length, null count and zero offset, the right number of buffers per type with non-null, sufficiently aligned pointers where data must exist, and values equal to the array's items. No release, child, buffer or format pointer the specification requires is missing, and no dictionary is present.",
  ["inputs", "configurations"], "all exportable item types and nestings, storages and contents, including empty arrays, omitted validity and histories with spare data",
  "Tests read single exported literals through the crate's own field names.",
  E_, [("field population", "narrow-ffi/src/export/mod.rs: into_array, ArrowSchema::flat"), ("per-layout buffers", "narrow-ffi/src/export/*.rs: buffers, children, null_count")],
  observe=["independent repr(C) consumer"])

p("F03", "Exports share the array's storage and hold it exactly until release",
  "Exporting copies no data: heap, shared and borrowed buffers are exposed at their original addresses. The storage stays alive and unchanged until the last structure exposing it is released, whatever happens to the schema, and is given up exactly once, at that release, also when the exported handle is simply dropped; releasing marks the structure as released.",
  ["histories", "configurations"], "all item types, storages and orders of moving, dropping and releasing array and schema",
  "Tests check one shared-storage array in one order.",
  E_, [("owner retained in private data", "narrow-ffi/src/export/mod.rs: ArrayData"), ("release", "narrow-ffi/src/export/mod.rs: release_array; narrow-ffi/src/lib.rs: Drop impls")],
  observe=["buffer addresses, reference counts, drop-tracking storage"])

p("F04", "Export followed by import returns the same array without copying",
  "Importing an exported array as the same item type succeeds and presents the identical length, items and null information through every access path, reading directly from the exported memory. It can be repeated any number of times while the export is alive, and importing it as an item type with a different Arrow representation is refused.",
  ["inputs", "configurations"], "all exportable item types and nestings, storages, contents and all pairs of item types",
  "Tests import a few literals as the matching type.",
  E_ + I_, [("export", "narrow-ffi/src/export"), ("import", "narrow-ffi/src/import")], observe=["Import::import result"])

p("F05", "Import accepts well-formed data and rejects every malformed description",
  "Data laid out by any producer according to the Arrow rules and within the supported subset (zero offset, exact fixed-size-list child length, matching nullability) is imported with exactly the produced items, whatever the producer puts in padding, null slots, unreferenced child data, names, metadata or unrelated flags. Any structure with a released handle, wrong or missing format, nullability, length, offset, null count, buffer or child count, dictionary, required pointer, alignment or offsets is refused, at every nesting level, with the error describing that defect and without panicking or reading memory the description does not entitle it to.",
  ["inputs", "fault_sequences"], "all producer encodings of all item types; every single-field corruption at every nesting level, and combinations",
  "Tests corrupt one field of one flat array at a time; nested corruptions and foreign encodings are mostly unsampled.",
  I_, [("common validation", "narrow-ffi/src/import/mod.rs: import_layout, import_child"), ("per-layout validation", "narrow-ffi/src/import/*.rs: import_validated")],
  observe=["Import::import result"])

p("F06", "Imported nulls are exactly those the producer declared",
  "An imported nullable array has precisely the nulls of the producer's validity bits, all rows valid when the bits are legitimately omitted, at every nesting level. A declared null count is either unknown (-1) or must equal the actual number of nulls, omitted bits are accepted only if there can be no nulls, and a non-nullable field never carries a known null.",
  ["inputs"], "all validity patterns, lengths, declared counts and omissions for all nullable item types, at every nesting level",
  "Tests cover a few patterns on flat arrays.",
  ["narrow-ffi/src/import/mod.rs"], [("validity wrapping", "narrow-ffi/src/import/mod.rs: ImportNullability::wrap"), ("null count validation", "narrow-ffi/src/import/mod.rs: import_layout, wrap")],
  observe=["Import::import result, ValidityBitmap on the import"])

p("F07", "Arrays with a bit offset are refused at every depth, without leaking",
  "Exporting an array in which any boolean or validity bitmap, at any nesting level, starts at a non-zero bit offset fails with an error carrying such an offset, and nothing is exposed. The refused array's storage is released completely; arrays in which every bitmap starts at offset zero are always exported, whatever their lengths or spare bytes.",
  ["inputs", "configurations"], "all item types, every position of an offset bitmap in the nesting, all offsets",
  "Tests refuse a top-level offset on a few layouts.",
  E_, [("offset check", "narrow-ffi/src/export/mod.rs: array; per-layout offset()")], observe=["Export::export result, counting allocator, reference counts"])

p("F08", "A child moved out of an export survives the release of its parent",
  "A consumer may move any child array or child schema out of its parent and release the parent, at any nesting level and in any order; the moved child stays readable with unchanged values until it is itself released. The shared storage is given up exactly when the last of the remaining structures is released.",
  ["histories", "configurations"], "all nested item types and storages, all subsets of moved children and release orders",
  "No test moves a child.",
  ["narrow-ffi/src/export/mod.rs", "narrow-ffi/src/export/fixed_size_list.rs", "narrow-ffi/src/export/variable_size_list.rs"], [("shared owner", "narrow-ffi/src/export/mod.rs: ArrayData owner"), ("release skips moved children", "narrow-ffi/src/lib.rs: Drop impls")],
  observe=["Miri, reference counts, counting allocator"])

p("F09", "Release callbacks run exactly once and only for live structures",
  "A foreign producer's release callback is invoked exactly once with the structure it belongs to when the handle is dropped, and never for a structure that is already released or was moved away. Importing, whether it succeeds or fails, neither releases, modifies nor moves the producer's structures, and never invokes a child's callback on its own.",
  ["histories", "inputs"], "all structure trees, import outcomes and drop orders",
  "Tests count releases for a single flat structure.",
  ["narrow-ffi/src/lib.rs", "narrow-ffi/src/import/mod.rs"], [("Drop", "narrow-ffi/src/lib.rs: Drop for ArrowArray, ArrowSchema"), ("shared borrow", "narrow-ffi/src/import/mod.rs: import takes shared references")],
  observe=["counting release callbacks, byte snapshots"])

p("F10", "Exports over thread-safe storage can be read and released on any thread",
  "When the storage is safe to share between threads, exported structures and children moved out of them may be handed to other threads, imported and read there concurrently and released there in any order, without data races. Every thread reads the correct values, and the storage is freed exactly once, after the last release.",
  ["schedules", "histories"], "all interleavings of readers and releasers over shared exports of nested types",
  "No test uses threads with exports.",
  ["narrow-ffi/src/export/mod.rs", "narrow-ffi/src/lib.rs"], [("atomically counted owner", "narrow-ffi/src/export/mod.rs: ArrayData owner"), ("immutable exposed tables", "narrow-ffi/src/export/mod.rs: into_array")],
  observe=["Miri data-race detector over many schedules, native stress with reference counts"])

p("X01", "Only supported fixed-size types can enter typed buffers",
  "Code outside the library cannot declare additional fixed-size, offset or nullability types, so no unsupported representation can enter a typed buffer or layout.",
  ["programs"], "all downstream programs",
  "A claim about programs that must not compile; no test execution can settle it.",
  ["src/fixed_size.rs", "src/offset.rs", "src/nullability.rs"], [("sealed traits", "sealed modules")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        assert q["statement"].count(". ") <= 2, (q["id"], q["statement"].count(". "))
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
