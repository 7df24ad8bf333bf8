"""In-memory stores the writers commit to and the readers read from (the environment of the code under test)."""
import io
import json

import orjson
import zstandard

from mabel.adapters.null import NullWriter
from mabel.data.readers.internals.base_inner_reader import BaseInnerReader


class StoreError(Exception):
    pass


class Store:
    """blobs: name -> bytes. log: every commit in order. `gate(name, data)` may raise to reject a commit."""

    def __init__(self, gate=None, latch=None):
        self.blobs = {}
        self.log = []
        self.rejected = []
        self.gate = gate
        self.latch = latch  # called before/after a commit, for schedulers
        self.fetched = []
        self.listed = []
        self.broken = set()
        store = self

        class MemoryWriter(NullWriter):
            def __init__(self, **kwargs):
                super().__init__(**kwargs)
                self.identity = kwargs.get("dataset")

            def commit(self, byte_data, override_blob_name=None):
                if override_blob_name:
                    name = override_blob_name
                else:
                    name = super().commit(b"")
                    name = name[name.index("(") + 1 : -1]
                data = bytes(byte_data)
                if store.latch:
                    store.latch("commit", name)
                if store.gate is not None:
                    try:
                        store.gate(name, data)
                    except StoreError:
                        store.rejected.append((name, data))
                        raise
                store.log.append((name, data))
                store.blobs[name] = data
                return name

        class MemoryReader(BaseInnerReader):
            def get_blobs_at_path(self, path):
                prefix = str(path).rstrip("/") + "/"
                store.listed.append(prefix)
                # a store lists in any order; deliberately not the sorted one
                return [b for b in reversed(list(store.blobs)) if b.startswith(prefix)]

            def get_blob_bytes(self, blob):
                store.fetched.append(blob)
                if blob in store.broken:
                    raise StoreError("cannot be fetched")
                return store.blobs[blob]

        self.Writer = MemoryWriter
        self.Reader = MemoryReader

    def put(self, name, data):
        self.blobs[name] = data

    def data_blobs(self):
        return [(n, d) for n, d in self.log if not n.endswith((".complete", ".ignore"))]

    def markers(self):
        return [n for n, d in self.log if n.endswith((".complete", ".ignore"))]


def folder(name):
    return name.rsplit("/", 1)[0]


def decode(name, data):
    """independent decoding of a data blob into records"""
    if name.endswith(".parquet"):
        import pyarrow.parquet as pq

        return pq.read_table(io.BytesIO(data)).to_pylist()
    if name.endswith(".zstd"):
        data = zstandard.ZstdDecompressor().decompress(data, max_output_size=1 << 26)
    if name.endswith(".txt"):
        return [l.decode("utf8") for l in data.split(b"\n")[:-1]]
    assert data == b"" or data.endswith(b"\n"), "blob does not end with a line break"
    return [json.loads(l.decode("utf8")) for l in data.split(b"\n")[:-1]]


def raw(name, data):
    """uncompressed size of the content of a text blob"""
    if name.endswith(".zstd"):
        return zstandard.ZstdDecompressor().decompress(data, max_output_size=1 << 26)
    return data


def lines(records):
    return b"".join(orjson.dumps(r) + b"\n" for r in records)


def zst(data):
    return zstandard.ZstdCompressor().compress(data)
