"""A second process for P19: receives pickled handles, does something with them, answers."""
import os
import pickle
import struct
import sys


def describe(o):
    """Everything a user sees of a handle, as plain data."""
    import z5py
    d = dict(kind="file" if isinstance(o, z5py.File) else "group" if isinstance(o, z5py.Group) else "dataset",
             name=o.name, parent=o.parent.name, file=o.file.filename, is_zarr=bool(o.is_zarr),
             can_write=bool((o if isinstance(o, z5py.Group) else o.parent)._handle.mode().can_write()), mode=o.file._handle.mode().mode(), attrs=dict(o.attrs.items()))
    if d["kind"] == "dataset":
        d.update(shape=tuple(o.shape), dtype=str(o.dtype), chunks=tuple(o.chunks), shards=o.shards, compression=o.compression, opts=o.compression_opts,
                 ndim=o.ndim, size=o.size, len=len(o), grid=tuple(o.chunks_per_dimension), nchunks=o.number_of_chunks, threads=o.n_threads, data=o[...].tobytes())
    else:
        d.update(keys=sorted(o.keys()), groups=sorted(k for k in o.keys() if o.is_sub_group(k)))
    return d


def act(o, todo):
    """todo: ("describe",) / ("write", index, array) / ("attr", key, value) / ("create", name, kwargs) / ("group", name)"""
    if todo[0] == "write":
        o[todo[1]] = todo[2]
    elif todo[0] == "attr":
        o.attrs[todo[1]] = todo[2]
    elif todo[0] == "create":
        o.create_dataset(todo[1], **todo[2])
    elif todo[0] == "group":
        o.create_group(todo[1])
    return describe(o)


def main():
    sys.path.insert(0, sys.argv[1])
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        h = sys.stdin.buffer.read(8)
        if len(h) < 8:
            return
        buf = sys.stdin.buffer.read(struct.unpack("<Q", h)[0])
        try:
            blob, todo = pickle.loads(buf)
            o = pickle.loads(blob)
            res = ("ok", act(o, todo))
        except Exception as e:
            res = ("error", "%s: %s" % (type(e).__name__, e))
        b = pickle.dumps(res)
        out.write(struct.pack("<Q", len(b)) + b)
        out.flush()


if __name__ == "__main__":
    main()
