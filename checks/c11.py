"""C11: monomial orderings are total orders compatible with multiplication."""
import itertools
import mp


def run(chk):
    chk.rule("every entry point of both orderings ranks a pair of monomials, terms, or monomial and variable by the exponent vectors: graded: total "
             "degree, then the larger exponent of the first differing variable is smaller; lexical: the larger exponent of the first differing "
             "variable is larger. The two reference orders are checked to be total, compatible with multiplication and to have 1 as minimum")
    chk.assume("monomials in up to three variables with exponents at most two, which covers every way two exponent lists can run out or differ at the "
               "first, second and third entry")
    for key in (mp.mkey, tuple):
        for a, b, c in itertools.product(mp.M9, repeat=3):
            if key(a) < key(b):
                assert key(mp.mmul(a, c)) < key(mp.mmul(b, c))
        assert len(set(map(key, mp.M9))) == 27 and min(mp.M9, key=key) == mp.ONEM
    mp.drive(chk, mp.ordering_ops(), "ordering", lambda v: v.inv or (None if v.ok else "answer %s" % (v.got,)))
    chk.require("obligations", 10000)
