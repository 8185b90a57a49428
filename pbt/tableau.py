"""Clifford circuits on many qubits, judged by where they send the Paulis (Aaronson-Gottesman, columns as bit masks)."""
from fractions import Fraction
from .core import fail

class Tableau:
    def __init__(self, n):
        # rows: X_0..X_{n-1}, Z_0..Z_{n-1}; one bit mask per column
        self.n = n; self.full = (1 << 2 * n) - 1
        self.x = [1 << q for q in range(n)]; self.z = [1 << n + q for q in range(n)]; self.r = 0
    def h(self, a):
        self.r ^= self.x[a] & self.z[a]; self.x[a], self.z[a] = self.z[a], self.x[a]
    def s(self, a):
        self.r ^= self.x[a] & self.z[a]; self.z[a] ^= self.x[a]
    def cnot(self, a, b):
        self.r ^= self.x[a] & self.z[b] & (self.full ^ self.x[b] ^ self.z[a])
        self.x[b] ^= self.x[a]; self.z[a] ^= self.z[b]
    def rz(self, a, p):
        k = Fraction(p) * 2
        if k.denominator != 1: fail("a phase of %s in a Clifford circuit", p)
        for _ in range(int(k) % 4): self.s(a)
    def apply(self, name, qs, ph):
        for q in qs:
            if not 0 <= int(q) < self.n: fail("gate %s acts on qubit %r of a %d-qubit circuit", name, q, self.n)
        if len(set(qs)) != len(qs): fail("gate %s on the qubits %s", name, qs)
        a = qs[0]; b = qs[-1]
        fixed = {"Z": 1, "S": Fraction(1, 2), "S*": Fraction(3, 2)}
        fx = {"NOT": 1, "SX": Fraction(1, 2), "SX*": Fraction(3, 2)}
        if name == "HAD": self.h(a)
        elif name == "ZPhase" or name in fixed: self.rz(a, fixed.get(name) or ph[0])
        elif name == "XPhase" or name in fx: self.h(a); self.rz(a, fx.get(name) or ph[0]); self.h(a)
        elif name == "CNOT": self.cnot(a, b)
        elif name == "CZ": self.h(b); self.cnot(a, b); self.h(b)
        elif name == "XCX": self.h(a); self.cnot(a, b); self.h(a)
        elif name == "CY": self.rz(b, Fraction(3, 2)); self.cnot(a, b); self.rz(b, Fraction(1, 2))
        elif name == "SWAP": self.cnot(a, b); self.cnot(b, a); self.cnot(a, b)
        elif name == "ParityPhase":
            for q in qs[:-1]: self.cnot(q, b)
            self.rz(b, ph[0])
            for q in reversed(qs[:-1]): self.cnot(q, b)
        else: fail("gate %s in a Clifford circuit", name)
    def key(self, perm=False):
        """Equal keys: the same map up to a global phase; perm: also up to a permutation of the qubits before (or 'after') it."""
        if not perm: return (self.r, list(zip(self.x, self.z)))
        if perm == "after": return (self.r, sorted(zip(self.x, self.z)))
        row = lambda i: (self.r >> i & 1, tuple((x >> i & 1, z >> i & 1) for x, z in zip(self.x, self.z)))
        return sorted((row(i), row(self.n + i)) for i in range(self.n))

def of(n, gates, perm=False):
    t = Tableau(n)
    for name, qs, ph in gates: t.apply(name, qs, ph)
    return t.key(perm)

def random_clifford(n, seed, blocks):
    """Gate list made of blocks: 'c' many random CNOTs (a dense linear map), 'z' CZs, 'p' phases, 'h' Hadamards on some qubits, 'w' swaps, 'f' single-row fan-outs."""
    import random
    R = random.Random(seed); gs = []
    two = lambda: R.sample(range(n), 2)
    for b in blocks:
        if b == "c": gs += [["CNOT", two(), []] for _ in range(3 * n)]
        elif b == "l": gs += [["CNOT", two(), []] for _ in range(R.randint(1, n))]
        elif b == "z": gs += [["CZ", two(), []] for _ in range(R.randint(1, 2 * n))]
        elif b == "p": gs += [[R.choice(["S", "S*", "Z", "NOT"]), [q], []] for q in range(n) if R.random() < 0.5]
        elif b == "h":
            p = R.choice([0.2, 0.6, 1]); gs += [["HAD", [q], []] for q in range(n) if R.random() < p]
        elif b == "w": gs += [["SWAP", two(), []] for _ in range(R.randint(1, 4))]
        elif b == "m": gs += [R.choice([["CNOT", two(), []], ["CZ", two(), []], ["HAD", [R.randrange(n)], []], ["S", [R.randrange(n)], []], ["NOT", [R.randrange(n)], []]]) for _ in range(4 * n)]
        elif b == "f":
            a = R.randrange(n); gs += [["CNOT", [a, t], []] for t in range(n) if t != a and R.random() < 0.8]
    return gs

def spec(lo, hi, kinds="clzphwmf", most=5):
    from hypothesis import strategies as st
    return st.fixed_dictionaries({"n": st.sampled_from(range(lo, hi + 1, 2)), "seed": st.integers(0, 10 ** 6), "blocks": st.lists(st.sampled_from(kinds), min_size=1, max_size=most)})
def circuit(s): return {"n": s["n"], "gates": random_clifford(s["n"], s["seed"], s["blocks"])}
