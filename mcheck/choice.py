"""Depth-first enumeration of environment answers: choice 0 is the default answer, every other one a deviation."""


class Chooser:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []
        self.width = []
        self.frozen = False

    def __call__(self, n=2):
        if self.frozen:
            return 0
        i = len(self.taken)
        k = self.prefix[i] if i < len(self.prefix) else 0
        if k >= n:
            raise RuntimeError("replay diverged")
        self.taken.append(k)
        self.width.append(n)
        return k


def enumerate_answers(run, deviations):
    """run(prefix) -> Chooser; every answer sequence with at most `deviations` non-default answers is run once"""
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        c = run(prefix)
        n += 1
        used = sum(1 for x in prefix if x)
        if used >= deviations:
            continue
        for i in range(len(c.taken) - 1, len(prefix) - 1, -1):
            for alt in range(c.width[i] - 1, 0, -1):
                stack.append(tuple(c.taken[:i]) + (alt,))
    return n
