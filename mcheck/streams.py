"""Driving a StreamWriter under the controlled scheduler (C02, C03, C09)."""
import orso.logging, orso, pyarrow.parquet, zstandard, orjson, concurrent.futures, queue, logging  # noqa: before install
import numpy, pandas  # noqa

from mcheck import sched

sched.install()

from mabel.data import StreamWriter  # noqa: E402

from mcheck.store import Store, decode, folder  # noqa: E402


def now():
    return sched.S.now


class Run:
    """One execution: `threads` is a list of programs (lists of operations), the first one is the main thread."""

    def __init__(self, threads, config, gate=None, prefix=(), expected=None, lines=False, horizon=30000):
        self.events = []  # (virtual time, thread, what, ...)
        self.config, self.threads = config, threads
        self.store = Store(gate=gate, latch=lambda *a: sched.S.point("commit") if sched.cur() else None)
        self.errors = []
        self.writers = []
        self.s = sched.Scheduler(prefix, expected, lines=lines, horizon=horizon)
        self.commits = []
        store = self.store
        real = store.log

        run = self

        class Log(list):
            def append(self, item):
                list.append(self, item)
                run.events.append((sched.S.now if sched.S else None, None, "commit", len(self) - 1))

        store.log = Log()
        self.s.run(self.main)

    def op(self, who, k, op):
        ev = self.events
        if op[0] == "a":
            rec = {"id": f"{who}.{k}", "t": who, "n": k}
            for i, v in enumerate(op[1:]):
                rec["k" if i == 0 else f"k{i}"] = v
            ev.append((now(), who, "append", k, op[1:]))
            try:
                self.writers[0 if len(self.writers) == 1 else (op[2] if len(op) > 2 else 0)].append(rec)
                ev.append((now(), who, "appended", k, op[1:]))
            except Exception as e:
                ev.append((now(), who, "append-failed", k, op[1:], f"{type(e).__name__}: {e}"))
        elif op[0] == "s":
            sched.csleep(op[1])
        elif op[0] == "F":
            ev.append((now(), who, "finalize", k))
            for w in self.writers:
                try:
                    w.finalize()
                    ev.append((now(), who, "finalized", k))
                except Exception as e:
                    ev.append((now(), who, "finalize-failed", k, f"{type(e).__name__}: {e}"))
        elif op[0] == "start":
            self.children[op[1]].start()
        elif op[0] == "join":
            self.children[op[1]].join()

    def main(self):
        c = self.config
        for w in range(c.get("writers", 1)):
            self.writers.append(
                StreamWriter(
                    dataset=f"bucket/data{w}",
                    format=c.get("format", "jsonl"),
                    idle_timeout_seconds=c["idle"],
                    writer_pool_capacity=c["capacity"],
                    blob_size=c.get("blob", 10**6),
                    partitions=[c.get("template", "k_{k}")],
                    inner_writer=self.store.Writer,
                    schema=c.get("schema", False),
                    date="2020-02-03",
                )
            )
        self.children = {}
        for i, prog in enumerate(self.threads[1:], 1):
            self.children[i] = sched.CThread(target=self.body, args=(i, prog), name=f"driver{i}")
        self.body(0, self.threads[0])

    def body(self, who, prog):
        for k, op in enumerate(prog):
            self.op(who, k, op)

    # ---- results
    def problems(self):
        """failures of the run itself"""
        out = []
        why, text = self.s.aborting or ("end", "")
        if why in ("deadlock", "livelock"):
            out.append(f"{why}: {text}")
        for t in self.s.threads:
            if t.exc is not None:
                out.append(f"thread {t.name} failed: {type(t.exc).__name__}: {t.exc}")
        return out

    def committed(self):
        """[(folder, [records])] in commit order"""
        return [(folder(n), decode(n, d)) for n, d in self.store.log]
