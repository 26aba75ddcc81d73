"""Bit-precise statements about the deposit steps, for every operand; decided by bit-blasting (z3) and a SAT solver (kissat).

Notation: acc has exponent K (biased field e), ulp 2^u; v is the value deposited, |v| <= 2^(K-2); q = v|1 (lowest mantissa bit set).
S_u(v) := fl(1.5*2^K + q) - 1.5*2^K  (as an integer multiple of 2^u).

  slice      fl(acc + q) - acc = S_u(v) for every acc in the binade with acc + S in [2^K + 2^u, 2^(K+1) - 2^u]
  symmetry   S_u(-v) = -S_u(v)
  on grid    if v is a multiple of 2^u then S_u(v) = v
  remainder  v - S_u(v) is a number of the format (no rounding) and at most 2^(u-1) in magnitude
  remainder0 the two half-steps used for bin 0 (compressed by 2^-14 / 2^-12) are each exact, final magnitude at most 2^(u+c-1)

fp.py replaces the floating-point operations by exact arithmetic only where one of these applies (or where the exact result
fits the format).  Each statement is also decided in a mutated form that is false (q = v instead of v|1, or a bound that is
too tight), which the solver must refute: this shows that the hypotheses are satisfiable and that the encoding can fail."""
import os, shutil, subprocess, tempfile, time
import z3
from z3 import BitVec, BitVecVal, Concat, Extract, FPSort, RNE, RTP, RTN, fpBVToFP, fpToIEEEBV, fpAdd, fpSub, fpMul, And, Or, Not, UGE, ULE, ZeroExt, If

KISSAT = shutil.which('kissat') or '/usr/local/bin/kissat'


def formula(name, W):
    EB, SB = (11, 53) if W == 64 else (8, 24)
    F = FPSort(EB, SB)
    mb = SB - 1
    twin = name.endswith('!')
    kind = name.rstrip('!')
    fp = lambda b: fpBVToFP(b, F)
    bv = fpToIEEEBV
    x = BitVec('x', W)
    e = BitVec('e', EB)
    hyp = []
    top = (1 << EB) - 2
    comp = 14 if W == 64 else 12
    if kind == 'remainder0':
        # bin 0: accumulator at the top binade
        ee = BitVecVal(top, EB)
        fin = Extract(W - 2, mb, x) != BitVecVal(top + 1, EB)
        hyp.append(fin)
        bias = (1 << (EB - 1)) - 1
        c = fp(BitVecVal((bias - comp) << mb, W))
        half = fp(BitVecVal((bias + comp - 1) << mb, W))
        y = bv(fpMul(RNE(), fp(x), c))
        q = y | 1
        ref = Concat(BitVecVal(0, 1), ee, BitVecVal(1 << (mb - 1), mb))
        r = bv(fpAdd(RNE(), fp(ref), fp(q)))
        M = fpSub(RNE(), fp(ref), fp(r))
        H = fpMul(RNE(), M, half)
        hx = fpMul(RTP(), M, half)
        hn = fpMul(RTN(), M, half)
        a1, a2 = fpAdd(RTP(), fp(x), H), fpAdd(RTN(), fp(x), H)
        t = fpAdd(RNE(), fp(x), H)
        b1, b2 = fpAdd(RTP(), t, H), fpAdd(RTN(), t, H)
        z = fpAdd(RNE(), t, H)
        same = lambda p, n: z3.fpEQ(p, n)
        # |z| <= 2^(K - mb + comp - 1)
        lim = (top - mb + comp - 1) << mb
        if twin:
            lim = (top - mb + comp - 2) << mb
        ok = And(same(hx, hn), same(a1, a2), same(b1, b2), ULE(Extract(W - 2, 0, bv(z)), BitVecVal(lim, W - 1)))
        return hyp, ok
    hyp += [UGE(e, 4), ULE(e, top)]
    mag = Extract(W - 2, 0, x)
    # |v| <= 2^(K-2): fields of 2^(K-2) are (e - 2, 0)
    hyp.append(ULE(mag, Concat(e - 2, BitVecVal(0, mb))))
    q = x | 1 if not (twin and kind == 'slice') else x
    ref = Concat(BitVecVal(0, 1), e, BitVecVal(1 << (mb - 1), mb))
    r = bv(fpAdd(RNE(), fp(ref), fp(q)))
    S = r - ref              # in units of 2^u: the sum stays in the binade of ref
    if kind == 'on grid':
        # acc + v without rounding for one (hence, in the binade, for every) acc: v is a multiple of 2^u
        v1, v2 = fpAdd(RTP(), fp(ref), fp(x)), fpAdd(RTN(), fp(ref), fp(x))
        if not twin:
            hyp.append(z3.fpEQ(v1, v2))
        return hyp, r == bv(v1)
    if kind == 'slice':
        m = BitVec('m', mb)
        acc = Concat(BitVecVal(0, 1), e, m)
        ms = ZeroExt(W - mb, m) + S
        hyp.append(And(ms >= 1, ms <= (1 << mb) - 1))
        return hyp, bv(fpAdd(RNE(), fp(acc), fp(q))) == acc + S
    if kind == 'symmetry':
        q2 = q ^ BitVecVal(1 << (W - 1), W)
        r2 = bv(fpAdd(RNE(), fp(ref), fp(q2)))
        return hyp, r2 - ref == (-S if not twin else S)
    if kind == 'remainder':
        s = fpSub(RNE(), fp(r), fp(ref))
        d1, d2 = fpSub(RTP(), fp(x), s), fpSub(RTN(), fp(x), s)
        d = bv(fpSub(RNE(), fp(x), s))
        # 2^(u-1): exponent field e - mb - 1, or a subnormal below
        k = ZeroExt(2, e) - (mb + 1)
        w = W - 1
        lim = If(k >= 1, Concat(Extract(EB - 1, 0, k), BitVecVal(0, mb)), BitVecVal(1, w) << (ZeroExt(w - EB - 2, BitVecVal(0, EB + 2)) + z3.SignExt(w - EB - 2, k) + (mb - 1)))
        if twin:
            lim = z3.LShR(lim, 0) - 1
        return hyp, And(z3.fpEQ(d1, d2), ULE(Extract(W - 2, 0, d), lim))
    raise ValueError(name)


def decide(name, W, limit):
    """'unsat' (the statement holds for all operands), 'sat' (it does not) or 'unknown'"""
    hyp, ok = formula(name, W)
    g = z3.Goal()
    g.add(*hyp)
    g.add(Not(ok))
    t = z3.Then('simplify', 'propagate-values', 'fpa2bv', 'simplify', 'propagate-values', 'elim-uncnstr', 'solve-eqs', 'bit-blast', 'simplify', 'tseitin-cnf')
    r = t(g)[0]
    if r.inconsistent():
        return 'unsat'
    d = tempfile.mkdtemp(prefix='lemma-', dir='/var/tmp')
    try:
        f = os.path.join(d, 'q.cnf')
        with open(f, 'w') as fh:
            fh.write(r.dimacs())
        p = subprocess.run([KISSAT, '-q', '-n', '--time=%d' % int(limit), f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return {10: 'sat', 20: 'unsat'}.get(p.returncode, 'unknown')
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Lemma:
    validate = 0

    def __init__(self, kind, W, weight):
        self.kind, self.W, self.weight, self.limit = kind, W, weight, 600

    def name(self):
        return 'lemma %s (%d-bit)' % (self.kind, self.W)

    key = site = name

    def needs(self):
        return set()

    needs_so = needs

    def execute(self, limit, seed):
        t0 = time.time()
        a = decide(self.kind, self.W, limit)
        b = decide(self.kind + '!', self.W, limit)
        st = 'held' if (a, b) == ('unsat', 'sat') else 'error'
        return dict(name=self.name(), status=st, msg='lemma: %s, mutated form: %s' % (a, b), paths=1, checks=1, queries=2, steps=0, solver_s=round(time.time() - t0, 2), sub=1, lemmas=[self.name()])

    def confirm(self, res, budget):
        return None


def all_lemmas():
    return [Lemma(k, W, (20 if W == 64 else 8) * (2 if k == 'remainder' else 1)) for W in (64, 32) for k in ('slice', 'symmetry', 'on grid', 'remainder', 'remainder0')]
