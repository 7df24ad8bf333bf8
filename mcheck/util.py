"""Small shared helpers for the checks."""
import itertools


def seqs(alphabet, lo, hi):
    """every sequence over the alphabet, shortest first"""
    for n in range(lo, hi + 1):
        yield from itertools.product(alphabet, repeat=n)


def chunks(items, n):
    """split into at most n interleaved, non-empty parts (neighbouring cases cost alike)"""
    items = list(items)
    return [c for c in (items[i::n] for i in range(n)) if c]


def bags(items):
    """sortable multiset view"""
    import json

    return sorted(json.dumps(i, sort_keys=True, default=repr) for i in items)


def attempt(fn, *a, **k):
    """('ok', value) or ('raised', type name)"""
    try:
        return ("ok", fn(*a, **k))
    except Exception as e:
        return ("raised", type(e).__name__)
