"""In-memory store for the demonstrations of planted bugs."""
import os
import sys

sys.path.insert(0, os.getcwd())
import logging

logging.disable(logging.CRITICAL)
from mabel.adapters.null import NullWriter  # noqa: E402
from mabel.data.readers.internals.base_inner_reader import BaseInnerReader  # noqa: E402

BLOBS, LOG = {}, []


class MemWriter(NullWriter):
    def commit(self, byte_data, override_blob_name=None):
        name = override_blob_name or self._build_path()
        LOG.append((name, bytes(byte_data)))
        BLOBS[name] = bytes(byte_data)
        return name


class MemReader(BaseInnerReader):
    def get_blobs_at_path(self, path):
        prefix = str(path).rstrip("/") + "/"
        return [b for b in BLOBS if b.startswith(prefix)]

    def get_blob_bytes(self, blob):
        return BLOBS[blob]
