"""one real multi-process read, in a process of its own: prints the records (or how long an abandoned read took to release)"""
import gc
import json
import os
import sys
import time

from mabel.adapters.disk import DiskReader
from mabel.data import Reader

if __name__ == "__main__":
    args = json.loads(sys.argv[1])
    import multiprocessing

    ds = Reader(dataset=args["dataset"], inner_reader=DiskReader, start_date="2020-02-03", end_date="2020-02-03", multiprocess=True, **args["kw"])
    t = time.monotonic()
    if args["take"] is None:
        out = []
        for i, r in enumerate(ds):
            out.append(r)
            if args["pause"] and i in (0, 3):
                time.sleep(args["pause"])
        print(json.dumps({"records": out, "seconds": time.monotonic() - t, "children": len(multiprocessing.active_children())}))
    else:
        it = iter(ds)
        for _ in range(args["take"]):
            next(it, None)
        time.sleep(args["pause"])
        t = time.monotonic()
        del it, ds
        gc.collect()  # the reader and its generator refer to each other
        took = time.monotonic() - t
        print(json.dumps({"seconds": took, "children": len(multiprocessing.active_children())}))
    sys.stdout.flush()
    os._exit(0)
