"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os

H = "include/z5/"
P = "src/python/module/z5py/"
L = "src/python/lib/"
props = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (pid, len(title))
    props.append(dict(
        id=pid, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=observe, hook_needed=None)))


prop("P01", "A dataset behaves as the array its write history defines",
     "For every format (n5, zarr v2, zarr v3, sharded zarr v3), data type, codec, shape, chunking and fill value, "
     "after any sequence of array, scalar and chunk writes, chunk removals and re-opens, every read of any region "
     "returns exactly the value most recently written to each element (a zero may lose its sign in an otherwise empty chunk), or the fill value (0 in n5) where "
     "nothing was written or the chunk was removed. A write never changes an element outside the region it names, nor the array it is given, and arrays returned by reads never change later.",
     ["histories", "configurations", "inputs"],
     "all operation sequences over all configurations of format, dtype, codec, shape, chunks, shards, fill value, "
     "thread count and chunk key layout",
     "The tests write one whole array (or one fixed sub-region) once to a regular grid and read it back with allclose; "
     "partial overwrites, edge chunks, erased chunks, non-zero fill values and their combinations over time are not enumerable.",
     [H + "multiarray/array_access.hxx", H + "multiarray/broadcast.hxx", H + "multiarray/array_util.hxx",
      H + "generic/dataset.hxx", H + "generic/sharded_dataset.hxx", H + "util/blocking.hxx", P + "dataset.py", L + "dataset.cxx"],
     [("region to chunk decomposition and read-modify-write of partial chunks", H + "multiarray/array_access.hxx"),
      ("chunk encode / store / decode", H + "generic/dataset.hxx"),
      ("per-shard read-modify-write", H + "generic/sharded_dataset.hxx")],
     ["Dataset.__getitem__", "Dataset.read_subarray", "Dataset.read_chunk", "z5::multiarray::readSubarray"])

prop("P02", "What z5 stores is valid n5 / zarr that other implementations read identically",
     "Every container z5 writes conforms to the public specification of its format: an independent reader (one written "
     "from the specification, zarr-python, and tensorstore) that sees only the stored files recovers exactly the shape, chunk "
     "and shard grid, data type, byte order, codec, fill value, attributes and every element that z5 was given.",
     ["inputs", "configurations", "histories"],
     "all datasets z5 can create and all data written to them, including edge chunks, absent chunks, every codec and option, both chunk key encodings and special fill values",
     "Interop tests read a handful of full arrays written with default options in one shape; spec details (header of clipped n5 chunks, padding "
     "of zarr edge chunks, key order, byte order, checksum) depend on the dimension count, dtype, codec and position.",
     [H + "metadata.hxx", H + "util/format_data.hxx", H + "filesystem/handle.hxx", H + "filesystem/metadata.hxx",
      H + "generic/dataset.hxx", H + "util/sharding.hxx", H + "compression/zlib_compressor.hxx", H + "types/types.hxx", P + "dataset.py"],
     [("metadata serialisation", H + "metadata.hxx"), ("chunk header and byte order", H + "util/format_data.hxx"),
      ("chunk paths", H + "filesystem/handle.hxx"), ("shard layout", H + "util/sharding.hxx")],
     ["files in the container directory"])

prop("P03", "z5 reads conforming containers written by others exactly",
     "Given any container that conforms to the n5, zarr v2 or zarr v3 specification within the documented feature set (the supported data types, "
     "codecs, C order, both chunk key styles, sharding), however it was produced, z5 opens it and returns its shape, chunks, dtype, fill value, attributes and every "
     "element exactly. A container that uses a feature z5 does not support is refused with an exception; it is never decoded into wrong data.",
     ["inputs", "configurations"],
     "all conforming containers produced by zarr-python, tensorstore and a spec-level encoder, with optional fields present, absent or in any order",
     "The tests read a few arrays from other writers with default settings; the set of conforming encodings (optional keys, compressor ids, levels, "
     "absent chunks, big-endian payloads, codec chains, index location) is open-ended.",
     [H + "metadata.hxx", H + "types/types.hxx", H + "filesystem/metadata.hxx", H + "filesystem/factory.hxx", H + "generic/dataset.hxx",
      H + "generic/sharded_dataset.hxx", H + "util/format_data.hxx", P + "file.py"],
     [("metadata parsing", H + "metadata.hxx"), ("codec option parsing", H + "types/types.hxx"),
      ("chunk decoding", H + "generic/dataset.hxx")],
     ["z5py.File(...)[name][...]"])

prop("P04", "Every codec is lossless and honours the requested options",
     "For every codec, every supported option value, every data type and every chunk content, decompressing what was compressed gives back the same bytes. "
     "The options requested at creation are the ones the encoder applies, the metadata records and the dataset reports after re-opening (the lz4 level of n5 is only recorded: the encoder has no such parameter); z5py refuses unknown options and codecs.",
     ["inputs", "configurations"],
     "all chunk contents (constant, periodic, random, tiny, large, incompressible) x codec x option values",
     "The compression tests round-trip one random array per codec at the default level; levels, shuffles, block sizes and codec-specific buffer "
     "bounds for incompressible or tiny inputs are not reached, nor whether an option has any effect.",
     [H + "compression/blosc_compressor.hxx", H + "compression/zlib_compressor.hxx", H + "compression/zstd_compressor.hxx",
      H + "compression/lz4_compressor.hxx", H + "compression/xz_compressor.hxx", H + "compression/bzip2_compressor.hxx",
      H + "compression/raw_compressor.hxx", H + "types/types.hxx", P + "dataset.py"],
     [("compress / decompress per codec", H + "compression/"), ("option parsing and defaults", H + "types/types.hxx")],
     ["z5::compression::*::compress/decompress", "Dataset.compression_opts", "codec fields in the metadata", "codec headers in the stored chunks"])

prop("P05", "Shard files always hold exactly the live inner chunks",
     "After any history of writes and removals on a sharded dataset, every shard file consists of encoded inner chunks followed by an index with a valid checksum that locates, "
     "in bounds and without overlap, exactly the inner chunks that hold data; updating some inner chunks leaves the others of that shard unchanged, and a shard without data has no file. "
     "An index that is corrupt makes reads and updates of that shard fail with an exception and never causes its data to be dropped or rewritten.",
     ["histories", "fault_sequences", "configurations"],
     "all histories of region / scalar / chunk writes and removals over shard geometries, and corruption of the index in between",
     "Tests write each shard once in full; partial updates of shards, emptied shards, ragged edge shards and damaged indices depend on the history.",
     [H + "generic/sharded_dataset.hxx", H + "filesystem/sharded_dataset.hxx", H + "util/sharding.hxx", H + "util/crc32c.hxx"],
     [("shard read-modify-write", H + "generic/sharded_dataset.hxx"), ("index encode / decode / checksum", H + "util/sharding.hxx")],
     ["shard files", "Dataset reads", "exceptions"])

prop("P06", "Damaged stored data is reported or contained, never a crash",
     "Whatever bytes the chunk, shard, attribute and metadata files of a container hold (truncated, bit-flipped, emptied, inconsistent or hostile), opening and reading it terminates and "
     "either returns an array of the requested shape or raises an exception: no crash, no memory access outside its buffers. "
     "Stored data that is too short for the chunk it encodes raises an exception instead of yielding elements that were never stored.",
     ["fault_sequences", "inputs"],
     "all mutations of all files of all container kinds",
     "Tests only read what z5 itself just wrote; the space of damaged inputs is what fuzzing under sanitizers is for.",
     [H + "generic/dataset.hxx", H + "util/format_data.hxx", H + "compression/", H + "util/sharding.hxx", H + "metadata.hxx",
      H + "types/types.hxx", H + "filesystem/metadata.hxx"],
     [("decode length checks", H + "compression/"), ("header parsing", H + "util/format_data.hxx"), ("index validation", H + "util/sharding.hxx"),
      ("metadata validation", H + "metadata.hxx")],
     ["AddressSanitizer / UndefinedBehaviorSanitizer reports", "process exit", "exceptions"])

prop("P07", "Dataset metadata round-trips through creation, files and re-opening",
     "Whatever valid shape, chunk shape, shard shape, data type, codec with options, fill value (including NaN and infinities) and chunk key layout a dataset is created with, in each format, "
     "the dataset returned by creation and every later opening report the same values, and the stored metadata file is complete and stays byte-identical under reads and data writes. "
     "Invalid metadata combinations are refused and leave no dataset behind.",
     ["inputs", "configurations"],
     "all metadata values, through the C++ and the Python interface",
     "The metadata tests compare one hand-written document per format.",
     [H + "metadata.hxx", H + "types/types.hxx", H + "factory.hxx", H + "filesystem/metadata.hxx", H + "filesystem/factory.hxx", L + "factory.cxx", P + "dataset.py"],
     [("toJson / fromJson", H + "metadata.hxx"), ("option conversion", H + "types/types.hxx")],
     ["Dataset properties", "metadata files", "z5::readMetadata"])

prop("P08", "Numpy-style indexing and assignment agree with numpy",
     "For every shape and every index made of integers, unit-step slices and at most one ellipsis, reading returns what numpy returns for the same index on the same array "
     "(shape, dtype, scalar versus array, values), and assigning a scalar or an array changes exactly the elements numpy changes; the one documented difference is that a slice starting before the first element selects nothing. "
     "Unsupported indices (steps, lists, masks, out-of-range integers, two ellipses, too many axes) and values that do not fit the selection raise and leave the dataset unchanged.",
     ["inputs"],
     "all shapes of 1 to 5 dimensions, all index expressions, all right-hand sides that rectification accepts",
     "The tests try about a dozen fixed index expressions on one 100^3 array of ones, which cannot tell positions apart.",
     [P + "shape_utils.py", P + "dataset.py", L + "dataset.cxx"],
     [("index normalisation", P + "shape_utils.py"), ("squeezing and scalar extraction", P + "dataset.py")],
     ["Dataset.__getitem__", "Dataset.__setitem__", "read_direct / write_direct"])

prop("P09", "Attributes behave as a persistent JSON dictionary beside protected metadata",
     "For every file, group and dataset in every format, any sequence of attribute sets, updates, deletions and reads behaves like a dict of JSON values that persists across re-opening and merges rather than replaces other keys. "
     "No attribute operation changes the object's own metadata or data: the reserved n5 dataset keys can be neither set nor deleted and are not visible as attributes.",
     ["histories", "inputs"],
     "all histories of attribute operations with arbitrary JSON keys and values on all object kinds",
     "The tests set three keys once per object.",
     [H + "attributes.hxx", H + "generic/attributes.hxx", H + "filesystem/attributes.hxx", L + "attributes.cxx", P + "attribute_manager.py"],
     [("merge on write, reserved key filter", H + "generic/attributes.hxx"), ("python mapping", P + "attribute_manager.py")],
     ["AttributeManager", "attribute files", "metadata files"])

prop("P10", "The hierarchy behaves as a tree of groups and datasets inside its root",
     "Any sequence of group and dataset creations, requirements, lookups, deletions, listings, visits and re-opens gives the results of the same sequence on a tree in memory: names, kinds, parents, "
     "membership, lengths, visit paths, and errors for duplicates and missing names, and deletion removes exactly the named subtree. "
     "Every group of a zarr container carries valid group metadata, and no operation creates, changes or removes anything outside the container's root directory.",
     ["histories", "configurations"],
     "all operation sequences over nested names, with and without leading slashes, in all formats",
     "The tests build one small tree per case; deletion, recreation and nesting orders are histories.",
     [P + "group.py", P + "file.py", H + "factory.hxx", H + "filesystem/factory.hxx", H + "filesystem/handle.hxx", H + "handle.hxx", L + "handles.cxx", L + "factory.cxx"],
     [("name handling", P + "group.py"), ("group creation", H + "filesystem/factory.hxx"), ("listing and removal", H + "filesystem/handle.hxx")],
     ["Group mapping interface", "visititems", "directory tree"])

prop("P11", "File modes grant exactly the documented rights",
     "For every existing or absent container and every mode: 'r' and 'r+' fail on a missing container, 'w-' and 'x' fail on an existing one, 'w' starts empty, 'a' opens or creates; the format and version found on disk are recovered. "
     "A container opened read-only is never modified by any operation: each mutating call on it, or on a group, dataset, attribute set or chunk reached through it, raises and leaves every file as it was, while every permitted operation works in the writable modes.",
     ["histories", "configurations"],
     "all pairs of container state and mode, all operations on all object kinds",
     "The permission tests try a few calls per mode.",
     [H + "util/file_mode.hxx", P + "file.py", P + "group.py", H + "filesystem/handle.hxx", H + "generic/dataset.hxx", H + "filesystem/attributes.hxx", H + "generic/sharded_dataset.hxx"],
     [("mode predicates", H + "util/file_mode.hxx"), ("open / create decision", P + "file.py"), ("write guards", H + "filesystem/handle.hxx")],
     ["exceptions", "snapshot of the directory tree"])

prop("P12", "Results do not depend on threads, and disjoint concurrent writes are not lost",
     "Every read, write, scalar write and dataset-wide utility gives the same result for every thread count as for one thread. "
     "Concurrent operations from several threads on the same dataset that touch different chunks (different inner chunks of one shard included, when made through the same dataset object), "
     "from several processes that touch different stored objects (chunks, shards, attribute sets), and concurrent readers, "
     "are free of data races and leave the state that some sequential order gives.",
     ["schedules", "inputs", "configurations"],
     "all thread counts and interleavings of disjoint chunk operations, for all formats and codecs",
     "The tests run one threaded full write and read per format, without a race detector and without concurrent callers.",
     [H + "multiarray/array_access.hxx", H + "multiarray/broadcast.hxx", H + "generic/sharded_dataset.hxx", H + "util/threadpool.hxx",
      H + "util/functions.hxx", H + "filesystem/handle.hxx", H + "generic/dataset.hxx"],
     [("per-thread buffers", H + "multiarray/array_access.hxx"), ("per-shard locking and grouping", H + "generic/sharded_dataset.hxx")],
     ["dataset contents", "ThreadSanitizer reports"])

prop("P13", "The chunk grid partitions the array and every region exactly",
     "For every shape, chunk shape and region, however large the extents, the blocks of the grid tile the array without gap or overlap, and the chunks reported for a region are exactly those that intersect it, "
     "with local offsets and extents that cover the region exactly once and a correct flag for full coverage. "
     "Conversions between block ids, coordinates and counts are mutually inverse.",
     ["inputs"],
     "all shapes, chunk shapes and regions of 1 to 5 dimensions, extents up to 2^48 included",
     "The tests use a couple of small 2d and 3d grids.",
     [H + "util/blocking.hxx"],
     [("grid arithmetic", H + "util/blocking.hxx")],
     ["z5::util::Blocking", "Dataset.chunks_per_dimension / number_of_chunks / chunk shapes", "region reads far out in huge arrays"])

prop("P14", "Chunk-level access agrees with region access, including varlen chunks",
     "For every dataset and chunk position, reading a chunk returns exactly the elements the region reads give for it (zarr edge chunks padded with the fill value, n5 edge chunks clipped), None or an error where it does not exist, and writing or removing it changes exactly its region; "
     "existence and shape queries agree with what is stored. A variable-length n5 chunk returns the exact 1d data written to it, for every length, dtype and codec.",
     ["histories", "inputs", "configurations"],
     "all interleavings of chunk-level and region-level operations at all grid positions",
     "The tests use full square chunks on a fully covered grid, plus one varlen round trip per dtype.",
     [H + "generic/dataset.hxx", H + "generic/sharded_dataset.hxx", H + "filesystem/dataset.hxx", H + "util/format_data.hxx", H + "dataset.hxx", L + "dataset.cxx", P + "dataset.py"],
     [("chunk read / write", H + "generic/dataset.hxx"), ("chunk header", H + "util/format_data.hxx")],
     ["read_chunk / write_chunk / chunk_exists / get_chunk_shape", "region reads"])

prop("P15", "Invalid requests are rejected without any effect",
     "A request that is out of bounds, of the wrong dimensionality, type or size (regions, chunk ids, shapes, offsets near the integer limits, mismatched element types, unknown codecs, dtypes or options, invalid chunk or shard shapes) raises an exception "
     "(reading, probing or removing a chunk that cannot exist may also report its absence), never crashes or touches memory outside its buffers, and leaves all stored data as it was.",
     ["inputs"],
     "all arguments of the Python and C++ access functions",
     "Tests exercise a few obviously invalid calls.",
     [H + "multiarray/array_util.hxx", H + "multiarray/array_access.hxx", H + "multiarray/broadcast.hxx", H + "dataset.hxx", H + "generic/dataset.hxx", H + "metadata.hxx", L + "dataset.cxx", P + "dataset.py"],
     [("request checks", H + "multiarray/array_util.hxx"), ("chunk id check", H + "generic/dataset.hxx"), ("metadata checks", H + "metadata.hxx")],
     ["exceptions", "sanitizers", "snapshot of the directory tree"])

prop("P16", "A write that could not be stored is reported",
     "Whenever the file system refuses or truncates a write of chunk, shard, metadata or attribute data, or a chunk cannot be read, the operation raises an exception, whatever the thread count; it never reports success for data that is not stored. "
     "A failed operation leaves every other object as it was and each chunk and attribute file it concerns either as it was or as written, and once the fault is gone the same operation succeeds.",
     ["fault_sequences"],
     "all fault points (no space, file size limit, path blocked, unreadable file) x all writing and reading operations",
     "No test injects an I/O fault.",
     [H + "filesystem/store.hxx", H + "filesystem/attributes.hxx", H + "filesystem/metadata.hxx", H + "generic/dataset.hxx", H + "generic/sharded_dataset.hxx", H + "util/threadpool.hxx", H + "multiarray/array_access.hxx"],
     [("stream error checks", H + "filesystem/store.hxx"), ("exception propagation from workers", H + "util/threadpool.hxx")],
     ["exceptions", "directory tree afterwards"])

prop("P17", "Empty chunks are never stored, and fill values are exact",
     "In every format a chunk is stored exactly when it was last written with at least one element different from the fill value; overwriting it entirely with the fill value removes it, so unwritten, emptied and removed chunks cost no storage. "
     "Reads of absent chunks give the dataset's fill value exactly, for every fill value the data type can represent, and for sharded, edge and partially covered chunks alike.",
     ["histories", "inputs", "configurations"],
     "all write histories, fill values (negative, fractional, NaN, infinities, integer extremes) and dtypes",
     "The tests check one chunk with fill value 0 and five float32 fill values.",
     [H + "generic/dataset.hxx", H + "generic/sharded_dataset.hxx", H + "multiarray/array_access.hxx", H + "multiarray/broadcast.hxx", H + "metadata.hxx"],
     [("fill test before writing", H + "generic/dataset.hxx"), ("fill on reading absent chunks", H + "multiarray/array_access.hxx")],
     ["set of chunk files / shard slots", "Dataset reads"])

prop("P18", "Dataset-wide utilities compute what a full read would give",
     "For every dataset, unique values and their counts equal those of the elements of the array in the chunks that hold data, removing trivial chunks removes exactly the chunks that are constant in the requested sense and nothing else, and iterating over chunks visits every chunk of the grid, or of the requested region, exactly once; "
     "all of this for every thread count.",
     ["inputs", "configurations"],
     "all contents, grids with ragged edges, formats, regions and thread counts",
     "The tests use one regular grid with a single thread setting.",
     [H + "util/functions.hxx", H + "util/for_each.hxx", H + "util/util.hxx"],
     [("parallel reductions", H + "util/functions.hxx"), ("chunk iteration", H + "util/for_each.hxx")],
     ["return values", "set of chunk files"])

prop("P19", "Pickled and re-opened handles denote the same objects",
     "For every file, group or dataset handle, however it was reached, the unpickled copy (also in another process) and a fresh handle to the same path refer to the same object: same name, kind, mode, format, metadata, attributes and data, with writes through either visible through the other. "
     "Pickling and unpickling never modify, truncate or create anything on disk.",
     ["histories", "configurations"],
     "all handle kinds, nesting depths, formats, chunk key layouts, modes and histories before and after pickling",
     "The tests pickle one handle of each kind in one state.",
     [P + "file.py", P + "group.py", P + "dataset.py", L + "handles.cxx"],
     [("reduce / rebuild by path", P + "file.py"), ("navigation", P + "dataset.py")],
     ["handle properties", "reads and writes through the copy", "directory tree"])

prop("P20", "Strided array views are read and written only within the view",
     "For every array view with arbitrary positive strides and offset (transposed, padded, sliced layouts) and every region, copying between views and buffers or reading and writing a dataset through the view transfers each element to its place and touches no memory element that is not part of the view.",
     ["inputs"],
     "all shapes, stride patterns, regions and chunk alignments of 1 to 6 dimensions and all dtypes",
     "The array utility tests use a few contiguous and simple strided cases.",
     [H + "multiarray/array_util.hxx", H + "multiarray/array_view.hxx", H + "multiarray/array_access.hxx", H + "multiarray/broadcast.hxx"],
     [("strided copies", H + "multiarray/array_util.hxx"), ("views", H + "multiarray/array_view.hxx")],
     ["memory around the view", "sanitizers"])

prop("P21", "Creating and requiring datasets follows the documented contract",
     "For every combination of arguments, create_dataset makes a new dataset with exactly the requested (or documented default) properties and contents and refuses an existing name or contradictory arguments, while require_dataset returns an existing dataset untouched if shape, dtype and chunks (where given) agree, raises if they do not, and otherwise creates it. "
     "A refused call changes no stored data.",
     ["inputs", "histories", "configurations"],
     "all argument combinations in all formats, on fresh and existing names",
     "The tests cover one matching case and a few refusals.",
     [P + "dataset.py", P + "group.py", P + "shape_utils.py", H + "factory.hxx", H + "filesystem/factory.hxx", L + "factory.cxx"],
     [("argument checks", P + "dataset.py"), ("intermediate groups", P + "group.py")],
     ["Dataset properties", "exceptions", "directory tree"])

prop("P22", "Parallel iteration runs every item exactly once and reports failures",
     "For every item count, thread count and iterator kind, a parallel loop calls its function exactly once per item with a thread id inside the pool, has finished all calls when it returns, and if any call throws, the caller receives an exception and no call runs afterwards. "
     "Each task submitted to a pool delivers its result or exception through its future once, and a pool that ends with tasks still queued neither hangs nor abandons them: each has either run completely or its future reports that it never will.",
     ["schedules", "inputs"],
     "all item counts, thread counts, iterator categories and throwing positions",
     "No test addresses the thread pool directly.",
     [H + "util/threadpool.hxx"],
     [("chunking of ranges, futures", H + "util/threadpool.hxx")],
     ["call counts per item", "thread ids", "exceptions", "ThreadSanitizer reports"])

prop("P23", "z5 opens whichever container it is given in its own format",
     "For every container path spelling and every format present on disk, opening recovers the format, version, chunk key layout and group or dataset kind from what is stored, so data written under one way of opening is found under every other; "
     "an inconsistent request (format contradicting the path or the stored version) is refused before anything is changed.",
     ["configurations", "histories"],
     "all path suffixes and spellings (trailing slash, relative, PathLike, upper case), formats, versions and separators",
     "The tests use the canonical suffix and the same options for writing and reading.",
     [P + "file.py", H + "filesystem/handle.hxx", H + "filesystem/metadata.hxx", H + "filesystem/factory.hxx", H + "handle.hxx"],
     [("format inference", P + "file.py"), ("isZarr / isZarrV3 / version", H + "filesystem/handle.hxx")],
     ["File properties", "reads"])

prop("P24", "An interrupted write leaves old or new content, never a torn one",
     "At whatever point of a region, chunk or attribute write, of a chunk removal, or of the creation or removal of an object the process is killed or another process reads the container, each chunk and each attribute set concerned reads as it was before or as written (never truncated, mixed or lost), "
     "all other chunks, attributes and objects (also those in the same shard or metadata file) are unchanged, the container opens and lists its objects, and repeating the operation completes it. "
     "Only the name of an object whose creation or removal was interrupted may be left as a directory without metadata, and unreferenced temporary files may stay.",
     ["crash_points", "histories", "configurations"],
     "every system call of every operation in all formats, codecs, chunk and shard layouts and thread counts",
     "No test interrupts an operation.",
     [H + "filesystem/store.hxx", H + "filesystem/attributes.hxx", H + "filesystem/metadata.hxx", H + "generic/attributes.hxx", H + "generic/dataset.hxx", H + "generic/sharded_dataset.hxx", H + "filesystem/factory.hxx"],
     [("replacing files", H + "filesystem/store.hxx"), ("shard rewriting", H + "generic/sharded_dataset.hxx"), ("merging attributes", H + "generic/attributes.hxx")],
     ["files after each system call", "reads from another process"])

prop("P25", "The S3 backend stores and answers what the file system backend does",
     "For every history of operations on a container in an S3 bucket, each operation gives the same result or refusal as on the file system, and leaves the same objects stored: the same keys below the container's prefix, chunks with the same bytes and metadata and attributes with the same contents (n5 groups without attributes and members, which have no object there, and n5 varlen chunks, which S3 does not support, excepted). "
     "Nothing outside of the container's prefix is read as part of it, changed or removed (also not objects whose keys only share the beginning of a name, or other buckets). Listings and removals are complete for any number of objects and any page size. "
     "A failed, denied or truncated request is reported by an exception; it is never taken for an absent object, a partial result or success. Damaged stored documents and chunks are judged as on the file system.",
     ["inputs", "histories", "fault_sequences", "configurations"],
     "all histories, page sizes, failing requests and stored bytes in all formats, through the C++ interface and z5py.S3File",
     "No test covers the S3 backend; it cannot be reached without a bucket.",
     [H + "s3/handle.hxx", H + "s3/store.hxx", H + "s3/attributes.hxx", H + "s3/metadata.hxx", H + "s3/factory.hxx", H + "factory.hxx", H + "attributes.hxx", P + "file.py"],
     [("prefixes, listings, removals", H + "s3/handle.hxx"), ("objects", H + "s3/store.hxx"), ("attribute and metadata documents", H + "s3/attributes.hxx"), ("S3File", P + "file.py")],
     ["results and exceptions", "objects in the bucket"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
print(len(props))
