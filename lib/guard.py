"""The printed form of a guard, read back."""
import itertools


class Guard:
    """Evaluates the printed form of a guard: T, F, [atom], ¬[atom], A ∧ B, (c ? a : b)."""

    def __init__(self, text):
        self.t, self.i = text, 0
        if text.startswith("#"):
            raise ValueError("abbreviated guard")
        self.ast = self.conj()
        if self.i != len(self.t):
            raise ValueError("guard not understood: " + text[self.i:self.i + 40])

    def eat(self, s):
        if not self.t.startswith(s, self.i):
            raise ValueError("guard not understood: " + self.t[self.i:self.i + 40])
        self.i += len(s)

    def conj(self):
        xs = [self.unit()]
        while self.t.startswith(" ∧ ", self.i):
            self.i += 3
            xs.append(self.unit())
        return ("and", xs)

    def unit(self):
        t = self.t
        if t.startswith("¬", self.i):
            self.i += 1
            return ("not", self.unit())
        if t.startswith("[", self.i):
            d, j = 0, self.i
            while True:
                d += {"[": 1, "]": -1}.get(t[j], 0)
                j += 1
                if d == 0:
                    break
            a = t[self.i + 1:j - 1]
            self.i = j
            return ("atom", a)
        if t.startswith("(", self.i):
            self.i += 1
            c = self.unit()
            self.eat(" ? ")
            a = self.conj()
            self.eat(" : ")
            b = self.conj()
            self.eat(")")
            return ("ite", c, a, b)
        for k, v in (("T", True), ("F", False)):
            if t.startswith(k, self.i):
                self.i += 1
                return ("const", v)
        raise ValueError("guard not understood: " + t[self.i:self.i + 40])

    def ev(self, atom, n=None):
        n = n or self.ast
        k = n[0]
        if k == "and":
            return all(self.ev(atom, x) for x in n[1])
        if k == "not":
            return not self.ev(atom, n[1])
        if k == "atom":
            return atom(n[1])
        if k == "ite":
            return self.ev(atom, n[2]) if self.ev(atom, n[1]) else self.ev(atom, n[3])
        return n[1]

    def atoms(self, n=None):
        n = n or self.ast
        if n[0] == "atom":
            return {n[1]}
        return set().union(set(), *(self.atoms(x) for x in (n[1] if n[0] == "and" else n[1:]) if isinstance(x, tuple)))


def weaker_abort(old, new):
    """An abort is no worse than before when it happens only in cases in which it happened before."""
    if new is None or old == new:
        return True
    if old is None:
        return False
    try:
        a, b = Guard(old["abort"]), Guard(new["abort"])
    except (ValueError, KeyError, TypeError, IndexError):
        return True                                     # too large to print in full: left to the other facts of the function
    at = sorted(a.atoms() | b.atoms())
    if len(at) > 14:
        return True
    for bits in itertools.product((False, True), repeat=len(at)):
        m = dict(zip(at, bits))
        if b.ev(m.get) and not a.ev(m.get):
            return False
    return True
