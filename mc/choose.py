"""Stateless exploration of all choice sequences (depth-first)."""


class Chooser:
    def __init__(self, part=0, parts=1):
        self.path, self.width, self.pos = [], [], 0
        self.part, self.parts = part, parts
        self.runs = 0

    def choose(self, n):
        if self.pos == len(self.path):
            self.path.append(0 if self.pos or self.parts == 1 else self.part)
            self.width.append(n)
        elif self.width[self.pos] != n:
            raise RuntimeError(f"non-deterministic replay: {self.width[self.pos]} != {n} at {self.pos}")
        c = self.path[self.pos]
        self.pos += 1
        return min(c, n - 1)

    def advance(self):
        """next path; False when everything has been explored"""
        del self.path[self.pos:], self.width[self.pos:]
        while self.path:
            step = self.parts if len(self.path) == 1 else 1
            if self.path[-1] + step < self.width[-1]:
                self.path[-1] += step
                self.pos = 0
                return True
            self.path.pop()
            self.width.pop()
        return False


def explore(body, part=0, parts=1):
    """calls body(chooser) for every choice sequence"""
    c = Chooser(part, parts)
    while True:
        c.pos = 0
        c.runs += 1
        body(c)
        if not c.path or not c.advance():
            return c.runs
