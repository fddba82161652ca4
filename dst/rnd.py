"""One integer decides everything: a tree of named pseudo-random streams."""

from __future__ import annotations

import hashlib
import random


class Rnd(random.Random):
    """Pseudo-random stream derived from a path of names."""

    def __init__(self, *path) -> None:
        self.path = path
        h = hashlib.sha256("/".join(map(str, path)).encode()).digest()
        super().__init__(int.from_bytes(h[:16], "big"))

    def sub(self, *name) -> "Rnd":
        return Rnd(*self.path, *name)

    def chance(self, p: float) -> bool:
        return self.random() < p

    def u32(self) -> int:
        return self.getrandbits(32)
