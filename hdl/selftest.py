"""Setup: the interpreter, nMigen and the abstract domain work here."""
from nmigen import Module, Signal, Elaboratable
from lib import *


class _T(Elaboratable):
    def __init__(self, ok):
        self.ok, self.a, self.b, self.o = ok, Signal(4), Signal(4), Signal(5)

    def elaborate(self, platform):
        m = Module()
        m.d.comb += self.o.eq(self.a + self.b if self.ok else (self.a + self.b)[:4])
        return m


def main():
    for ok in (True, False):
        t = _T(ok)
        d = Design(t)
        a, b = word("a", 4), word("b", 4)
        got = []
        for env, w in cases(lambda env: Ctx(d, {}, {id(t.a): a, id(t.b): b}, env).get(t.o)):
            want = bits_of(fadd(form_of(a), form_of(b)), 5)
            got.append(eqw(env, w, want))
        if all(got) != ok:
            print("self-test failed", ok, got)
            return 2
    print("self-test ok")
    return 0
