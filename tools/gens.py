"""Scripts for the conformance driver: one list of calls per case, per property.

Every function takes a random.Random and a budget (number of cases) and yields lists of driver
operations (see harness/src/main.rs). The operations carry no expected results: what must be
observed is decided by the TLA+ specification when the recorded trace is validated.
"""
from fractions import Fraction as F
from math import gcd

IMAX = 2**63 - 1
IMIN = -2**63
UMAX = 2**64 - 1


# --- integers and fractions of many shapes -------------------------------------------------

def fits(*vs):
    return all(IMIN <= v <= IMAX for v in vs)


def rint(r, bits):
    """an integer of at most `bits` bits: uniform, by length, around powers of two, round, tiny"""
    k = r.randrange(8)
    if k == 0:
        v = r.getrandbits(bits)
    elif k <= 2:
        v = r.getrandbits(r.randint(1, bits))
    elif k == 3:
        v = (1 << r.randint(0, bits - 1)) + r.randint(-2, 2)
    elif k == 4:
        v = (1 << bits) - 1 - r.randint(0, 3)
    elif k == 5:
        v = r.getrandbits(max(1, bits // 2)) << r.randint(0, bits // 2)
    else:
        v = r.randint(0, min(9, (1 << bits) - 1))
    v = max(0, min(v, (1 << bits) - 1))
    return -v if r.random() < .5 else v


def nz(r, bits):
    return rint(r, bits) or r.choice([1, -1, 2, 3])


def decode(s):
    """the fraction that delivers the symbols s (1 Amplify, 2 Uncover)"""
    p, q = 1, 2
    for c in reversed(s):
        if c == 1:
            if p % 2 == 0:
                p //= 2
            else:
                q *= 2
        else:
            p, q = q, p + q
    return p, q


def symword(r, qmax):
    """a fraction in (0,1) with denominator up to qmax made from a random sequence of symbols"""
    p, q = 1, 2
    bias = r.choice([.1, .3, .5, .7, .9])
    stop = r.randint(1, 60)
    for _ in range(stop):
        if r.random() < bias:
            a, b = (p // 2, q) if p % 2 == 0 else (p, 2 * q)
        else:
            a, b = q, p + q
        if b > qmax:
            break
        p, q = a, b
    return p, q


def unit(r, bits):
    """a fraction in (0,1) with terms of at most `bits` bits"""
    top = (1 << bits) - 1
    k = r.randrange(9)
    if top < 3 or k == 0:
        return symword(r, max(2, top))
    if k <= 3:
        return symword(r, top)
    q = r.randint(2, top) if r.random() < .5 else max(2, r.getrandbits(r.randint(2, bits)))
    if k == 4:
        p = r.randint(1, q - 1)
    elif k == 5:      # next to a special value
        p = r.choice([1, q - 1])
    elif k == 6:      # next to one half
        p = min(q - 1, max(1, q // 2 + r.randint(-1, 1)))
    elif k == 7:      # long runs
        b = r.randint(2, bits)
        q = (1 << b) - r.choice([0, 1, 1]) if b < bits else top
        q = max(q, 2)
        p = r.choice([1, max(1, q - 1), max(1, (1 << r.randint(0, b - 1)) - 1), min(q - 1, 1 << r.randint(0, b - 1))])
    else:             # golden ratio: many Uncovers
        a, b = 1, 2
        for _ in range(r.randint(0, 90)):
            if a + b > top:
                break
            a, b = b, a + b
        p, q = a, b
    p = max(1, min(p, q - 1))
    g = gcd(p, q)
    return p // g, q // g


def rat(r, bits, special=.12):
    """a value of any head"""
    if r.random() < special:
        return F(r.choice([-1, 0, 1]))
    p, q = unit(r, bits)
    v = F(p, q)
    if r.random() < .5:
        v = 1 / v
    if r.random() < .5:
        v = -v
    return v


def mkratio(r, dst, v, scale=True):
    """the operation that builds v from a ratio, possibly not in lowest terms"""
    p, q = v.numerator, v.denominator
    g = 1
    k = r.randrange(6)
    if max(abs(p), q) > IMAX:
        k = 0
    if scale and r.random() < .4:
        m = (UMAX if k == 0 else IMAX) // max(abs(p), q, 1)
        g = r.choice([2, 3, 4, 6, 15, 255, 256, 1 << 20, m, m - 1])
        g = max(1, min(g, m))
    if k == 0:
        return f"V {dst} {1 if p >= 0 else 0} {abs(p) * g} {q * g}"
    if k == 1:
        return f"R {dst} {-p * g} {-q * g}"
    if p in (0, 1, -1) and q == 1 and k == 2:
        return f"S {dst} {'ZPN'[p]}"
    return f"R {dst} {p * g} {q * g}"


def H(dst, x, c):
    return f"H {dst} {x} " + " ".join(map(str, c))


def B(dst, x, y, c):
    return f"B {dst} {x} {y} " + " ".join(map(str, c))


# --- coefficients ---------------------------------------------------------------------------

def coefs(r, n, bits):
    k = r.randrange(8)
    if k == 0:        # common factor
        g = r.choice([2, 3, 4, 6, 8])
        c = [rint(r, max(1, bits - 3)) * g for _ in range(n)]
    elif k == 1:      # sparse
        c = [rint(r, bits) if r.random() < .5 else 0 for _ in range(n)]
    elif k == 2:      # small among large
        c = [rint(r, bits) if r.random() < .3 else r.randint(-3, 3) for _ in range(n)]
    elif k == 3:      # even and odd mixtures
        c = [(rint(r, max(1, bits - 1)) & ~1) + (r.random() < .3) for _ in range(n)]
    else:
        c = [rint(r, bits) for _ in range(n)]
    if not any(c[n // 2:]):
        c[r.randrange(n // 2, n)] = 1
    m = (1 << bits) - 1
    return [max(-m, min(m, v)) for v in c]


def lin(c, x):
    return c[0] * x + c[1], c[2] * x + c[3]


def bil(c, x, y):
    return (c[0] * x * y + c[1] * x + c[2] * y + c[3], c[4] * x * y + c[5] * x + c[6] * y + c[7])


def target(r, bits=8):
    """values that are delicate for a result: specials, one half, their neighbours"""
    k = r.randrange(8)
    if k <= 2:
        return F(r.choice([-1, 0, 1]))
    q = max(2, abs(rint(r, bits)))
    if k == 3:
        return r.choice([-1, 1]) * (1 + F(r.choice([-1, 1]), q))
    if k == 4:
        return F(r.choice([-1, 1]), q)
    if k == 5:
        return r.choice([-1, 1]) * F(1, 2) ** r.choice([1, -1])
    if k == 6:
        return r.choice([-1, 1]) * (F(1, 2) + F(r.choice([-1, 1]), q))
    return rat(r, bits)


INF = "inf"


def hom_operand_for(c, t):
    """x with (c0 x + c1)/(c2 x + c3) = t, or None; t = INF asks for a pole"""
    if t == INF:
        a, b = c[2], c[3]
    else:
        a, b = c[0] - t * c[2], c[1] - t * c[3]
    if a == 0:
        return None
    return F(-b) / a


def com_operand_for(c, x, t):
    """y with value t"""
    if t == INF:
        a, b = c[4] * x + c[6], c[5] * x + c[7]
    else:
        a = c[0] * x + c[2] - t * (c[4] * x + c[6])
        b = c[1] * x + c[3] - t * (c[5] * x + c[7])
    if a == 0:
        return None
    return F(-b) / a


def big_ok(v):
    return v is not None and abs(v.numerator) <= IMAX and v.denominator <= IMAX


ADD, SUB = [0, 1, 1, 0, 0, 0, 0, 1], [0, 1, -1, 0, 0, 0, 0, 1]
MUL, DIV = [1, 0, 0, 0, 0, 0, 0, 1], [0, 1, 0, 0, 0, 0, 1, 0]


def hom_case(r, bits=8, opbits=8, pole=.03):
    """(coefficients, operand value)"""
    for _ in range(50):
        k = r.randrange(10)
        c = coefs(r, 4, bits)
        if k == 0:       # proportional rows: a constant function
            s, t = rint(r, max(1, bits // 2)), nz(r, max(1, bits // 2))
            m = [rint(r, max(1, bits // 2)) for _ in range(2)]
            c = [m[0] * s, m[1] * s, m[0] * t, m[1] * t]
        elif k == 1:     # numerator or denominator vanishing next to the operand
            pass
        x = rat(r, opbits)
        if k in (2, 3, 4, 5):
            t = INF if r.random() < pole else target(r)
            y = hom_operand_for(c, t)
            if y is None or max(abs(y.numerator), y.denominator) >= (1 << opbits):
                continue
            x = y
        n, d = lin(c, x)
        if d == 0 and r.random() > pole:
            continue
        if k == 6 and r.random() < .5:
            x = F(r.choice([-1, 0, 1]))
        if fits(*c):
            return c, x
    return [1, 0, 0, 1], F(1, 2)


def com_case(r, bits=5, opbits=5, pole=.03):
    for _ in range(60):
        k = r.randrange(14)
        c = coefs(r, 8, bits)
        h = max(1, bits // 2)
        if k == 0:
            c = list(r.choice([ADD, SUB, MUL, DIV]))
        elif k == 1:     # product of a function of x and a function of y
            a, b = [rint(r, h) for _ in range(2)], [rint(r, h) for _ in range(2)]
            e, f = [rint(r, h) for _ in range(2)], [rint(r, h) for _ in range(2)]
            c = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1],
                 e[0] * f[0], e[0] * f[1], e[1] * f[0], e[1] * f[1]]
        elif k == 2:     # ignores x or y, or both
            z = r.choice([(0, 1, 4, 5), (0, 2, 4, 6), (0, 1, 2, 4, 5, 6)])
            for i in z:
                c[i] = 0
        elif k == 3:     # constant
            m = [rint(r, h) for _ in range(4)]
            s, t = rint(r, h), nz(r, h)
            c = [v * s for v in m] + [v * t for v in m]
        elif k == 4:     # one-operand functions of x plus y
            c[0] = c[4] = 0
        x, y = rat(r, opbits), rat(r, opbits)
        if k in (5, 6, 7, 8, 9):
            t = INF if r.random() < pole else target(r, min(8, opbits))
            w = com_operand_for(c, x, t)
            if w is None or max(abs(w.numerator), w.denominator) >= (1 << opbits):
                continue
            y = w
        if k == 10:
            y = x
        if k == 11 and x != 0:
            y = r.choice([-x, 1 / x, -1 / x])
        n, d = bil(c, x, y)
        if d == 0 and r.random() > pole:
            continue
        if r.random() < .3:      # exchange the roles of the operands
            x, y = y, x
            c = [c[0], c[2], c[1], c[3], c[4], c[6], c[5], c[7]]
        if fits(*c):
            return c, x, y
    return list(ADD), F(1, 2), F(1, 3)


SIZES_H = [(3, 4), (5, 6), (8, 8), (8, 8), (8, 8), (12, 12), (16, 16), (24, 10), (8, 24)]
SIZES_B = [(2, 4), (3, 4), (5, 5), (5, 5), (5, 5), (6, 7), (8, 8), (10, 6)]


# --- properties -----------------------------------------------------------------------------

EDGE = sorted({0, 1, 2, 3, 4, 5, 6, 7, 255, 256, IMAX, IMAX - 1, IMAX - 2, IMAX // 2, IMAX // 2 + 1,
               IMAX // 3, 2 * (IMAX // 3), IMAX // 4, 2**62 - 1, 2**62, 2**62 + 1, 2**32 - 1, 2**32,
               2**32 + 1, 2**31, 10**18, 7540113804746346429, 4660046610375530309, 2880067194370816120})
EDGEU = sorted(set(EDGE) | {2**63, 2**63 + 1, UMAX, UMAX - 1, UMAX // 2, UMAX // 3, UMAX // 3 * 2, 12200160415121876738})


def c01(r, n, tier):
    k = 20 if tier == "quick" else 70
    for p in range(-k, k + 1):
        for q in range(-k, k + 1):
            if q:
                yield [f"R 0 {p} {q}", "D 0 3"]
    e = sorted(set(EDGE) | {-v for v in EDGE} | {IMIN, IMIN + 1, IMIN // 2})
    for p in e:
        for q in (e if tier == "thorough" else r.sample(e, 24)):
            if q:
                yield [f"R 0 {p} {q}", "D 0 2"]
    for p in EDGEU:
        for q in EDGEU:
            if q:
                yield [f"V 0 {r.randrange(2)} {p} {q}", "D 0 2"]
    for _ in range(n):
        k = r.randrange(6)
        if k == 0:
            p, q = rint(r, 63), nz(r, 63)
            yield [f"R 0 {p} {q}", "D 0 2"]
        elif k == 1:
            p, q = abs(rint(r, 64)), abs(nz(r, 64))
            yield [f"V 0 {r.randrange(2)} {p} {q}", "D 0 2"]
        elif k == 2:   # common factor
            p, q = unit(r, r.randint(3, 40))
            m = UMAX // q
            g = r.choice([2, 3, 1 << r.randint(0, 20), m, m - 1, r.randint(1, m)])
            g = max(1, min(g, m))
            a, b = p * g, q * g
            if r.random() < .5:
                a, b = b, a
            yield [f"V 0 {r.randrange(2)} {a} {b}", "D 0 2"]
        elif k == 3:
            p, q = unit(r, 64)
            yield [f"V 0 {r.randrange(2)} {p} {q}", "D 0 2"]
        else:
            v = rat(r, r.choice([6, 10, 20, 40, 62, 63, 64]), .02)
            yield [mkratio(r, 0, v), f"E 0 {r.randint(1, 9)}", "D 0 3"]


def c14(r, n, tier):
    L = 12 if tier == "quick" else 15
    for ln in range(L + 1):
        for w in range(1 << ln):
            s = [1 + ((w >> i) & 1) for i in range(ln)]
            p, q = decode(s)
            g = r.choice([1, 1, 1, 2, 3, 4, 5, 12, 64])
            yield [f"R 0 {p * g} {q * g}", "D 0 1"]
    for _ in range(n):
        k = r.randrange(6)
        bits = r.choice([8, 12, 20, 40, 62, 63, 64])
        p, q = unit(r, bits)
        if k <= 1:
            yield [mkratio(r, 0, F(p, q)), "D 0 1"]
        elif k == 2:    # the same value as a function
            p, q = unit(r, 8)
            c = coefs(r, 4, 7)
            x = hom_operand_for(c, F(p, q))
            if x is None or max(abs(x.numerator), x.denominator) > (1 << 40) or lin(c, x)[1] == 0:
                continue
            yield [mkratio(r, 0, x), H(1, 0, c), "D 1 1"]
        elif k == 3:    # as a sum or product
            p, q = unit(r, 5)
            y = rat(r, 5, 0)
            if r.random() < .5:
                yield [mkratio(r, 0, F(p, q) - y), mkratio(r, 1, y), B(2, 0, 1, ADD), "D 2 1"]
            else:
                yield [mkratio(r, 0, F(p, q) / y), mkratio(r, 1, y), B(2, 0, 1, MUL), "D 2 1"]
        elif k == 4:    # rest of a longer sequence
            yield [mkratio(r, 0, F(p, q)), f"E 0 {r.randint(1, 12)}", "W 1 0 " + r.choice("-TRG"), "D 1 1"]
        else:           # identity functions
            g = r.choice([1, 2, 3, -1])
            p, q = unit(r, 16)
            yield [mkratio(r, 0, F(p, q)), H(1, 0, [g, 0, 0, g]), "D 1 1"]


def life(r, dst, depth, tmp, small=True):
    """operations that leave a Number in register dst; returns (ops, value or None)"""
    hb, bb = (r.choice([2, 3, 5, 8]), r.choice([2, 3, 5])) if small else (r.choice([8, 12]), r.choice([5, 7]))
    if depth == 0:
        v = rat(r, r.choice([2, 3, 4, 5, 5, 8]), .1)
        return [mkratio(r, dst, v)], v
    k = r.randrange(10)
    if k <= 3:
        ops, v = life(r, dst, depth - 1, tmp, small)
        if v is None:
            return ops, None
        for _ in range(20):
            c = coefs(r, 4, hb)
            if r.random() < .3:
                c = r.choice([[1, 0, 0, 1], [0, 1, 1, 0], [-1, 0, 0, 1], [2, 0, 0, 1], [1, 0, 0, 2], [1, 1, 0, 1],
                              [1, 0, 1, 1], [1, 1, 1, -1], [1, -1, 1, 1]])
            a, b = lin(c, v)
            if b:
                return ops + [H(dst, dst, c)], F(a) / b
        return ops + [H(dst, dst, [0, 1, 0, 2])], F(1, 2)
    if k <= 7:
        o1, v = life(r, dst, depth - 1, tmp, small)
        o2, w = life(r, tmp[0], r.randint(0, depth - 1), tmp[1:], small)
        if v is None or w is None:
            return o1 + o2, None
        x, y = (dst, tmp[0]) if r.random() < .5 else (tmp[0], dst)
        if x != dst:
            v, w = w, v
        for _ in range(20):
            c = list(r.choice([ADD, SUB, MUL, DIV])) if r.random() < .6 else coefs(r, 8, bb)
            a, b = bil(c, v, w)
            if b:
                return o1 + o2 + [B(dst, x, y, c)], F(a) / b
        return o1 + o2 + [B(dst, x, y, ADD)], v + w
    ops, v = life(r, tmp[0], depth - 1, [dst] + tmp[1:], small)
    if k == 8:        # partially extracted and wrapped again
        p = r.choice("-TRG")
        e = r.randint(1, 4)
        if v is not None and v not in (-1, 0, 1):
            u = abs(v) if abs(v) < 1 else 1 / abs(v)
            for _ in range(e):
                u = 2 * u if u < F(1, 2) else 1 / u - 1 if u > F(1, 2) else u
            w = {"-": u, "T": 1 / u, "R": -u, "G": -1 / u}[p]
            return ops + [f"E {tmp[0]} {e}", f"W {dst} {tmp[0]} {p}"], w
    return ops + [f"M {dst} {tmp[0]}"], v


def chop(r, reg, total=True):
    """extraction of a register in pieces, then far beyond the end"""
    o = []
    for _ in range(r.randint(0, 4)):
        o.append(f"E {reg} {r.choice([1, 1, 2, 3, 7, r.randint(8, 60)])}")
    if total:
        o += [f"D {reg} {r.choice([1, 2, 5, 9, 1, 2, 5, 9, 40, 300])}"]
        if r.random() < .5:
            o += [f"E {reg} {r.randint(1, 4)}"]
    return o


def c02(r, n, tier):
    for _ in range(n):
        k = r.randrange(10)
        if k == 0:
            v = rat(r, r.choice([5, 10, 20, 62, 64]), 0)
            o = [mkratio(r, 0, v)] + chop(r, 0)
        elif k <= 3:
            c, x = hom_case(r, *r.choice(SIZES_H))
            o = [mkratio(r, 1, x), H(0, 1, c)] + chop(r, 0)
        elif k <= 5:
            c, x, y = com_case(r, *r.choice(SIZES_B))
            o = [mkratio(r, 1, x), mkratio(r, 2, y), B(0, 1, 2, c)] + chop(r, 0)
        elif k == 6:    # values whose rest is exactly one half, constants included
            u = F(1, 2) ** r.choice([1, -1]) * r.choice([1, -1])
            if r.random() < .5:
                g, h = nz(r, 4), rint(r, 4)
                c = [g, h, 2 * g, 2 * h]
                if r.random() < .5:
                    c = c[2:] + c[:2]
                o = [mkratio(r, 1, rat(r, 6, 0)), H(0, 1, c)] + chop(r, 0)
            else:
                c = coefs(r, 8, 3)
                x = rat(r, 4, 0)
                y = com_operand_for(c, x, u)
                if y is None or max(abs(y.numerator), y.denominator) > 10**6 or bil(c, x, y)[1] == 0:
                    continue
                o = [mkratio(r, 1, x), mkratio(r, 2, y), B(0, 1, 2, c)] + chop(r, 0)
        elif k == 7:
            v = rat(r, 62, 0)
            o = [mkratio(r, 1, v), "K 0 1"] + chop(r, 0)
        else:
            o, _ = life(r, 0, r.randint(1, 4), [1, 2, 3, 4, 5, 6, 7])
            o += chop(r, 0)
        yield o


def neighbours(r, bits):
    """two different values with a long common prefix"""
    p, q = unit(r, bits)
    # a neighbour in the Farey sense: p/q and a/b with |pb - aq| = 1
    if q <= 2:
        return F(p, q), F(p, q)
    b = pow(p, -1, q) if gcd(p, q) == 1 and q > 1 else 1
    a = (p * b - 1) // q
    if r.random() < .5:
        a, b = p - a, q - b
    if r.random() < .5 and a + p < IMAX and b + q < IMAX:
        a, b = a + p, b + q
    if b == 0:
        return F(p, q), F(p, q)
    return F(p, q), F(a, b)


def prefix(v, k):
    """the first symbols, up to k, of a value that is not special"""
    u = abs(v) if abs(v) < 1 else 1 / abs(v)
    s = []
    while u != F(1, 2) and len(s) < k:
        s.append(1 if u < F(1, 2) else 2)
        u = 2 * u if u < F(1, 2) else 1 / u - 1
    return s


def relative(r, v, k):
    """a value with the first k symbols of v, in the same interval or not, or a special one"""
    if v in (-1, 0, 1) or r.random() < .15:
        return F(r.choice([-1, 0, 1]))
    w = F(*decode(prefix(v, k) + [r.choice([1, 2]) for _ in range(r.randint(0, 4))]))
    w = w if abs(v) < 1 else 1 / w
    w = w if v > 0 else -w
    return w ** r.choice([1, 1, 1, -1]) * r.choice([1, 1, 1, -1])


def mirrored(r):
    """a function or combination of long operands, and another whose value is minus it, one over it or both"""
    if r.random() < .5:
        x, c, k = [rat(r, r.choice([20, 40, 62]), 0)], coefs(r, 4, r.choice([2, 10, 20, 30])), 2
    else:
        b = r.choice([10, 20, 31, 40, 62])
        x, k = [rat(r, b, 0), rat(r, b, 0)], 4
        c = list(r.choice([ADD, SUB, MUL, DIV])) if r.random() < .6 else coefs(r, 8, r.choice([2, 10, 20]))
    n, d = c[:k], c[k:]
    e = r.choice([[-q for q in n] + d, d + n, [-q for q in d] + n])

    def build(z, c):
        o = [mkratio(r, z + i, v) for i, v in enumerate(x)]
        return o + [H(z, z, c) if k == 2 else B(z, z, z + 1, c)]
    return build(0, c), build(4, e), 0


def c03(r, n, tier):
    vals = [F(s * p, q) for p in range(0, 8) for q in range(1, 8) for s in (1, -1)]
    vals = sorted(set(vals))
    if tier == "thorough":
        vals = sorted(set(F(s * p, q) for p in range(0, 14) for q in range(1, 14) for s in (1, -1)))
    for a in vals:
        for b in vals:
            if r.random() < (1 if tier == "thorough" else .5):
                yield [mkratio(r, 0, a, False), mkratio(r, 1, b, False), "C 0 1"]
    for _ in range(n):
        k = r.randrange(13)
        if k == 12 and r.random() < .5:     # Numbers that overflow once read, in different intervals or against a special one
            o, p, z = mirrored(r)
            if r.random() < .7:
                yield o + p + [f"E {q} {r.randint(0, 3)}" for q in (z, z + 4) if r.random() < .1] + [f"C {z} {z + 4}"]
            else:
                yield o + [f"S 7 {r.choice('ZPN')}", r.choice([f"C {z} 7", f"C 7 {z}"])]
        elif k == 12:   # a Number that may overflow after some symbols, against one that differs before
            g = room_case(r)
            if g is None:
                continue
            o, z = g
            v = outcome(o)
            w = relative(r, v, r.choice([0, 1, 2, 3, 5, 8, 13, 21, 34]))
            if big_ok(w):
                yield o + [mkratio(r, 7, w), r.choice([f"C {z} 7", f"C 7 {z}"])]
        elif k <= 3:
            a, b = neighbours(r, r.choice([4, 8, 16, 32, 61]))
            s = r.choice([1, -1])
            if r.random() < .5 and a and b:
                a, b = 1 / a, 1 / b
            a, b = s * a, s * b
            if not (big_ok(a) and big_ok(b)):
                continue
            if r.random() < .5:
                a, b = b, a
            yield [mkratio(r, 0, a), mkratio(r, 1, b), "C 0 1"]
        elif k == 4:    # equal
            a = rat(r, r.choice([4, 20, 61]))
            yield [mkratio(r, 0, a), mkratio(r, 1, a), "C 0 1"]
        elif k == 5:    # random pairs, full range
            yield [f"R 0 {rint(r, 63)} {nz(r, 63)}", f"R 1 {rint(r, 63)} {nz(r, 63)}", "C 0 1"]
        elif k == 6:    # specials against their neighbourhood
            q = abs(nz(r, 62)) + 1
            a = F(r.choice([-1, 0, 1]))
            b = r.choice([-1, 0, 1]) + F(r.choice([-1, 0, 1]), q)
            o = [mkratio(r, 0, a, False), mkratio(r, 1, b, False)]
            yield o + [r.choice(["C 0 1", "C 1 0"])]
        elif k <= 8:    # a computed value against a ratio equal to it or next to it
            o, v = life(r, 0, r.randint(1, 3), [1, 2, 3, 4, 5, 6])
            if v is None or not big_ok(v):
                continue
            w = v
            if r.random() < .6:
                w = v + F(r.choice([-1, 1]), r.choice([1, 7, 100, 10**4]))
            if not big_ok(w):
                continue
            yield o + [mkratio(r, 7, w), r.choice(["C 0 7", "C 7 0"])]
        elif k == 9:    # two computed values
            o1, v = life(r, 0, r.randint(1, 2), [2, 3, 4, 5])
            o2, w = life(r, 1, r.randint(1, 2), [2, 3, 4, 5])
            yield o1 + o2 + ["C 0 1"]
        elif k == 10:   # partially extracted
            a, b = neighbours(r, r.choice([8, 16, 40]))
            if not (big_ok(a) and big_ok(b)):
                continue
            e = r.randint(0, 5)
            f = e if r.random() < .7 else r.randint(0, 5)
            o = [mkratio(r, 0, a), f"E 0 {e}", mkratio(r, 1, b), f"E 1 {f}"]
            if r.random() < .5:
                p = r.choice("-TRG")
                o += [f"W 0 0 {p}", f"W 1 1 {r.choice(['-', 'T', 'R', 'G', p, p])}"]
            yield o + ["C 0 1"]
        else:           # transitivity triples: three comparisons of three copies
            q = r.choice([3, 5, 9])
            a, b, c = rat(r, q), rat(r, q), rat(r, q)
            yield [mkratio(r, 0, a), mkratio(r, 1, b), "C 0 1", mkratio(r, 0, b), mkratio(r, 1, c), "C 0 1",
                   mkratio(r, 0, a), mkratio(r, 1, c), "C 0 1"]


def c04(r, n, tier):
    # exhaustive neighbourhood just outside what the tests cover
    if tier == "thorough":
        xs = sorted(set(F(s * p, q) for p in range(0, 6) for q in range(1, 6) for s in (1, -1)))
        for a in range(-4, 5):
            for b in range(-4, 5):
                for c in range(-4, 5):
                    for d in range(-4, 5):
                        if c or d:
                            for x in r.sample(xs, 8):
                                if c * x + d:
                                    yield [mkratio(r, 0, x, False), H(1, 0, [a, b, c, d]), "D 1 1"]
    for _ in range(n):
        c, x = hom_case(r, *r.choice(SIZES_H), pole=0)
        k = r.randrange(20)
        if k < 3:
            c = brink(r, 4)
        elif k == 3:
            c = round_numbers(r, 4)
        if k < 5 and r.random() < .6:
            x = few(r)
        if lin(c, x)[1] == 0 or not big_ok(x):
            continue
        yield [mkratio(r, 0, x), H(1, 0, c), "D 1 1"]


def c05(r, n, tier):
    for _ in range(n):
        c, x, y = com_case(r, *r.choice(SIZES_B), pole=0)
        k = r.randrange(20)
        if k < 3:
            c = brink(r, 8)
        elif k == 3:
            c = round_numbers(r, 8)
        elif k == 4:
            c = coefs(r, 8, r.choice([30, 45, 55, 59]))
        if k < 5 and r.random() < .6:
            x, y = few(r), few(r)
        if bil(c, x, y)[1] == 0 or not (big_ok(x) and big_ok(y)):
            continue
        yield [mkratio(r, 0, x), mkratio(r, 1, y), B(2, 0, 1, c), "D 2 1"]


def deep(r, n):
    """n nested operations whose operands and results stay small"""
    v = rat(r, 5)
    o = [mkratio(r, 0, v)]
    z = 0
    while n > 0:
        if r.random() < .6:
            c = r.choice([[1, 1, 0, 1], [1, -1, 0, 1], [0, 1, 1, 0], [-1, 0, 0, 1], [1, 0, 1, 1], [0, 1, 1, 1], [1, 1, 1, -1],
                          [-1, 1, 0, 1], [2, 0, 0, 1], [1, 0, 0, 2], coefs(r, 4, 2), coefs(r, 4, 4)])
            a, b = lin(c, v)
            lim, op = HOM, H(z, z, c)
        else:
            w = rat(r, r.choice([1, 2, 3]), .3)
            c = list(r.choice([ADD, SUB, MUL, DIV, coefs(r, 8, 2)]))
            swap = r.random() < .5
            a, b = bil(c, w, v) if swap else bil(c, v, w)
            lim = COM
            op = [mkratio(r, 1, w), B(z, 1, z, c) if swap else B(z, z, 1, c)]
        n -= 1
        if not b:
            continue
        t = F(a) / b
        if max(abs(v.numerator), v.denominator, abs(t.numerator), t.denominator) > lim:
            continue
        v = t
        o += [op] if isinstance(op, str) else op
    return o, v, z


def alive(r, n):
    """n nested operations around an operand of many symbols, none of which comes to its end while building"""
    v = rat(r, r.choice([20, 30, 45, 60]), .0)
    o = [mkratio(r, 0, v)]
    costly = r.choice([0, 0, 2, 4])
    for _ in range(n):
        k = r.randrange(12)
        if k <= 7 or not v:
            g = r.choice([1, 1, 1, -1, 2, 3])
            c = [g * x for x in r.choice([[0, 1, 1, 0], [0, 1, 1, 0], [-1, 0, 0, 1], [0, -1, 1, 0], [1, 0, 0, 1], [1, 0, 0, -1]])]
            if lin(c, v)[1]:
                o.append(H(0, 0, c))
                v = F(lin(c, v)[0]) / lin(c, v)[1]
        elif k <= 9:
            w = F(r.choice([1, -1])) * r.choice([F(1), F(1), F(2), F(1, 2)])
            c = r.choice([MUL, DIV])
            t = v * w if c is MUL else v / w
            if big_ok(t):
                o += [mkratio(r, 1, w), B(0, 0, 1, c)]
                v = t
        elif costly:
            costly -= 1
            w = F(r.randint(-5, 5), r.choice([1, 1, 2, 3]))
            if big_ok(v + w) and big_ok(w - v):
                c = r.choice([ADD, SUB])
                o += [mkratio(r, 1, w), B(0, 1, 0, c)]
                v = w + v if c is ADD else w - v
    return o, v, 0


def c06(r, n, tier):
    for _ in range(n):
        k = r.randrange(8)
        if k <= 3:
            o, v = life(r, 0, r.randint(2, 4 if tier == "quick" else 5), [1, 2, 3, 4, 5, 6, 7])
            yield o + ["D 0 1"]
        elif k <= 5:    # the same function of two Numbers of equal value
            o1, v = life(r, 0, r.randint(1, 2), [2, 3, 4, 5, 6])
            if v is None or not big_ok(v):
                continue
            o2 = None
            m = r.randrange(4)
            if m == 0:
                o2 = [mkratio(r, 1, v)]
            elif m == 1:
                w = rat(r, 5)
                if not big_ok(v - w):
                    continue
                o2 = [mkratio(r, 2, v - w), mkratio(r, 3, w), B(1, 2, 3, ADD)]
            elif m == 2 and v:
                o2 = [mkratio(r, 2, 1 / v), H(1, 2, [0, 1, 1, 0])]
            else:
                g = r.choice([1, 2, 3, -1, -2])
                o2 = [mkratio(r, 2, v), H(1, 2, [g, 0, 0, g])]
            if r.random() < .5:
                for _ in range(9):
                    c = coefs(r, 4, r.choice([2, 4, 7]))
                    if lin(c, v)[1]:
                        break
                o3 = [H(0, 0, c), H(1, 1, c)]
            else:
                w = rat(r, 5)
                c = list(r.choice([ADD, SUB, MUL, MUL, coefs(r, 8, 3)]))
                o3 = [mkratio(r, 6, w), B(0, 0, 6, c), mkratio(r, 7, w), B(1, 1, 7, c)]
            yield o1 + o2 + o3 + (["D 0 1", "D 1 1"] if r.random() < .5 else ["C 0 1"])
        elif k == 6:    # chains of one-operand functions
            v = rat(r, 6)
            o = [mkratio(r, 0, v)]
            for _ in range(r.randint(2, 6)):
                for _ in range(9):
                    c = r.choice([[2, 0, 0, 1], [1, 0, 0, 2], [1, 1, 0, 1], [1, -1, 0, 1], [0, 1, 1, 0], [-1, 0, 0, 1],
                                  [1, 0, 1, 1], [0, 1, 1, 1], [3, 1, 0, 2], [1, 1, 1, -1], coefs(r, 4, 3)])
                    if lin(c, v)[1]:
                        break
                else:
                    continue
                a, b = lin(c, v)
                v = F(a) / b
                o.append(H(0, 0, c))
            yield o + ["D 0 1"]
        elif r.random() < .2:    # deep expressions
            o, v, z = r.choice([deep, alive])(r, r.choice([12, 30, 30, 60, 60, 120, 300, 1000] if tier == "quick" else [30, 100, 300, 1000]))
            yield o + r.choice([[f"D {z} 1"], [f"D {z} 1"], [mkratio(r, 5, v), f"C {z} 5"], [f"K 6 {z}", "D 6 1"]])
        else:           # consumed and put together again
            o, v = life(r, 0, r.randint(1, 2), [2, 3, 4, 5, 6])
            yield o + ["K 1 0", "D 1 1", "C 0 1"]


def c07(r, n, tier):
    for v in [F(s * p, q) for p in range(0, 9) for q in range(1, 9) for s in (1, -1)]:
        yield [mkratio(r, 0, v, False), "K 1 0", "D 1 1"]
    for s in "ZPN":
        yield [f"S 0 {s}", "K 1 0"]
    for _ in range(n):
        k = r.randrange(8)
        if k <= 2:
            v = rat(r, r.choice([8, 16, 30, 31, 32, 33, 40, 50, 60, 62, 63, 64]), .02)
            o = [mkratio(r, 0, v)]
        elif k == 3:
            o = [f"R 0 {rint(r, 63)} {nz(r, 63)}"]
        elif k == 4:
            p, q = unit(r, 64)
            o = [f"V 0 {r.randrange(2)} {p} {q}" if r.random() < .5 else f"V 0 {r.randrange(2)} {q} {p}"]
        elif k == 5:
            o = [mkratio(r, 0, rat(r, r.choice([10, 40, 62, 64]), 0)), f"E 0 {r.randint(0, 9)}", f"W 0 0 {r.choice('-TRG')}"]
        elif k == 6:
            o, _ = life(r, 0, r.randint(1, 3), [1, 2, 3, 4, 5, 6])
        else:           # more bits than the coefficients can hold, through a function
            c, x = hom_case(r, r.choice([8, 20]), r.choice([30, 50]), 0)
            o = [mkratio(r, 1, x), H(0, 1, c)]
        o += ["K 1 0"]
        if r.random() < .4:
            o += ["K 2 1", "D 2 1"]
        else:
            o += [f"E 1 {r.randint(0, 3)}", "D 1 1"]
        yield o


def c08(r, n, tier):
    for p in (0, 1, -1, 2, 7, IMAX, IMIN, IMIN + 1):
        yield [f"R 0 {p} 0"]
    for p in (0, 1, 2, IMAX, UMAX, 2**63):
        yield [f"V 0 1 {p} 0"]
        yield [f"V 0 0 {p} 0"]
    for x in [F(s * p, q) for p in range(0, 5) for q in range(1, 5) for s in (1, -1)]:
        for c in ([1, 12, 0, 0], [0, 0, 0, 0], [0, 3, 0, 0], [2, 0, 0, 0]):
            yield [mkratio(r, 0, x, False), H(1, 0, c), "D 1 1"]
        yield [mkratio(r, 0, x, False), H(1, 0, [1, 1, x.denominator, -x.numerator]), "D 1 1"]
        yield [mkratio(r, 0, x, False), H(1, 0, [0, 1, x.denominator, -x.numerator]), "D 1 1"]
        yield [mkratio(r, 0, x, False), H(1, 0, [x.denominator, -x.numerator, x.denominator, -x.numerator]), "D 1 1"]
        yield [mkratio(r, 0, x, False), H(1, 0, [x.denominator, -x.numerator, 2 * x.denominator, -2 * x.numerator]), "D 1 1"]
        for y in [F(s * p, q) for p in range(0, 3) for q in range(1, 4) for s in (1, -1)]:
            for c in ([1, 1, 1, 1, 0, 0, 0, 0], [0] * 8, list(DIV), [0, 0, 0, 1, 1, 0, 0, 0], [0, 0, 0, 1, 0, 1, -1, 0],
                      [0, 1, 1, 0, 0, 1, 1, 0]):
                yield [mkratio(r, 0, x, False), mkratio(r, 1, y, False), B(2, 0, 1, c), "D 2 1"]
    for _ in range(n):
        k = r.randrange(16)
        near = r.random() < .35
        if k <= 3:       # homographic at a pole, or next to it
            bits = r.choice([2, 3, 5, 8, 16, 30])
            x = rat(r, bits, .2)
            g = r.choice([1, 1, 2, 3, -1, -2])
            m = [rint(r, bits), rint(r, bits)]
            if r.random() < .2:   # numerator vanishes as well
                h = rint(r, 3)
                m = [x.denominator * h, -x.numerator * h]
            c = m + [x.denominator * g, -x.numerator * g]
            if near:
                c[3] += r.choice([-1, 1])
            if not fits(*c):
                continue
            yield [mkratio(r, 0, x), H(1, 0, c), "D 1 1"]
        elif k <= 8:     # combination at a pole
            bits, ob = r.choice([(2, 3), (3, 4), (5, 5), (5, 5), (7, 7)])
            c = coefs(r, 8, bits)
            m = r.randrange(5)
            x = rat(r, ob, .15)
            if m == 0:   # denominator ignores y
                c[4:] = [0, x.denominator, 0, -x.numerator]
                y = rat(r, ob, .15)
            elif m == 1:  # vanishes at x whatever y is
                g, h = rint(r, 3), rint(r, 3)
                c[4:] = [x.denominator * g, x.denominator * h, -x.numerator * g, -x.numerator * h]
                y = rat(r, ob, .15)
            elif m == 2:  # difference
                c[4:] = [0, 1, -1, 0]
                y = x
            elif m == 3:
                c[4:] = [0, 0, 1, 0]
                y = F(0)
            else:
                y = com_operand_for(c, x, INF)
                if y is None or max(abs(y.numerator), y.denominator) >= 1 << 20:
                    continue
            if near:
                c[7] += r.choice([-1, 1])
            o = [mkratio(r, 0, x), mkratio(r, 1, y)]
            if r.random() < .4:   # exchanged
                c = [c[0], c[2], c[1], c[3], c[4], c[6], c[5], c[7]]
                o.append(B(2, 1, 0, c))
            else:
                o.append(B(2, 0, 1, c))
            yield o + ["D 2 1"]
        elif k == 9:     # computed operand at a pole
            o, v = life(r, 0, r.randint(1, 3), [2, 3, 4, 5, 6])
            if v is None or not big_ok(v):
                continue
            c = [rint(r, 3), rint(r, 3), v.denominator, -v.numerator]
            if near:
                c[3] += r.choice([-1, 1])
            if not fits(*c):
                continue
            yield o + [H(1, 0, c), "D 1 1"]
        elif k == 10:    # computed operands, combination
            o, v = life(r, 0, r.randint(1, 2), [2, 3, 4, 5, 6])
            if v is None or not big_ok(v):
                continue
            w = v if not near else v + 1
            yield o + [mkratio(r, 1, w), B(2, 0, 1, [rint(r, 2), rint(r, 2), rint(r, 2), 1, 0, 1, -1, 0]), "D 2 1"]
        elif k >= 13:    # sums that overflow, in particular to zero
            if r.random() < .4:
                c = hot(r, 4)
                if r.random() < .4:
                    c[2:] = r.choice([[IMIN, IMIN], [IMIN, IMAX], [2**62, 2**62], [IMAX, -IMAX], [IMAX, 1 - IMAX], [-2**62, -2**62], [IMIN, 2**62]])
                yield [mkratio(r, 0, few(r), False), H(1, 0, c), "D 1 1"]
            else:
                c = hot(r, 8)
                if r.random() < .4:
                    c[4:] = [r.choice([IMIN, IMIN, IMAX, 2**62, -2**62, 0, 0, 1, -1, IMIN + 1]) for _ in range(4)]
                yield [mkratio(r, 0, few(r), False), mkratio(r, 1, few(r), False), B(2, 0, 1, c), "D 2 1"]
        elif k == 12:    # overflow on the way
            c, x = hom_case(r, r.choice([40, 55, 62]), r.choice([8, 30, 60]), 0)
            c2, x2, y2 = com_case(r, r.choice([20, 40, 60]), r.choice([5, 20, 60]), 0)
            yield r.choice([[mkratio(r, 0, x), H(1, 0, c), "D 1 1"], [mkratio(r, 0, x2), mkratio(r, 1, y2), B(1, 0, 1, c2), "D 1 1"]])
        else:            # ordinary
            if r.random() < .5:
                c, x = hom_case(r, 8, 8, 0)
                yield [mkratio(r, 0, x), H(1, 0, c), "D 1 1"]
            else:
                c, x, y = com_case(r, 5, 5, 0)
                yield [mkratio(r, 0, x), mkratio(r, 1, y), B(2, 0, 1, c), "D 2 1"]


EXTREME = [IMIN, IMIN + 1, IMIN + 2, -IMAX // 2, -(2**62), -(2**62) - 1, -(2**62) + 1, 2**62, 2**62 - 1, 2**62 + 1,
           IMAX, IMAX - 1, IMAX - 2, IMAX // 3, -(IMAX // 3), 2**61, 2**61 + 1, 2**61 - 1, -2**61]


def wide(r):
    k = r.randrange(6)
    if k == 0:
        return r.choice(EXTREME)
    if k == 1:
        return r.randint(-3, 3)
    if k == 2:
        return r.choice([-1, 1]) * (1 << r.randint(0, 62))
    if k == 3:
        return (rint(r, 62) >> 1) << 1
    return max(IMIN, min(IMAX, rint(r, r.choice([20, 32, 40, 50, 60, 61, 62, 63]))))


def hot(r, n):
    """n coefficients, many of them zero and a few huge, so that single sums of two overflow"""
    c = [r.choice([0, 0, 0, 0, 0, 0, 1, -1, 2, -3]) for _ in range(n)]

    def huge():
        b = r.choice([63, 63, 63, 62, 62, 61])
        return (1 << b) - 1 - r.choice([0, 0, 1, 2, 3, 7, r.getrandbits(20), r.getrandbits(b - 2)])
    for i in r.sample(range(n), r.choice([0, 0, 1, 1, 2, 3])):
        c[i] = r.choice([1, -1]) * huge()
    i, j = r.choice([(0, 1), (2, 3)] if n == 4 else [(k + p, k + q) for k in (0, 4) for p, q in ((0, 1), (0, 2), (1, 3), (2, 3))])
    s = r.choice([1, -1])
    c[i], c[j] = s * huge(), s * r.choice([1, 1, -1]) * huge()
    if r.random() < .4:
        c = [v & -2 for v in c]
    elif r.random() < .2:
        c = [-(1 << 63) if v < -(1 << 62) and r.random() < .5 else v for v in c]
    return c


def brink(r, n):
    """n coefficients of a function that is nearly constant, next to a value where decisions are made"""
    p, q = r.choice([(1, 2), (1, 2), (1, 2), (1, 1), (0, 1), (-1, 1), (1, 3), (2, 3), (1, 4), (3, 4), (2, 1), (-1, 2), (-2, 1), (5, 8)])
    k = n // 2
    num, den = [0] * k, [0] * k
    sizes = [r.choice([20, 40, 50, 54, 56, 58, 60])] + [r.choice([0, 0, 1, 5, 10, 20, 30, 40, 50]) for _ in range(k - 1)]
    for i, b in zip([k - 1] + list(range(k - 1)), sizes):
        m = r.getrandbits(b) if b else r.choice([0, 0, 1])
        m = (m | 1 << b - 1) if b else m
        m *= r.choice([1, 1, -1]) if i < k - 1 else 1
        j = r.choice([0, 0, 1, 2, 8])
        num[i], den[i] = p * m + r.randint(-j, j), q * m + r.randint(-j, j)
    return [max(IMIN, min(IMAX, v)) for v in num + den]


def round_numbers(r, n):
    """n coefficients that are zero or plus or minus a power of two"""
    b = r.choice([8, 32, 62])
    return [0 if r.random() < .4 else r.choice([1, -1]) * (1 << r.choice([0, r.randint(0, b), 32 if b > 32 else b, b])) for _ in range(n)]


def few(r):
    """a special value or one with few symbols"""
    if r.random() < .35:
        return F(r.choice([-1, 0, 1]))
    return short(r, r.choice([0, 0, 0, 1, 1, 2, 3]))


def steep(r):
    """four coefficients m, keeping one sign in every corner, of which the first is the smallest integer"""
    d = -r.choice([1 << 61, (1 << 61) + r.getrandbits(59), (1 << 62) - r.getrandbits(60) - 1])
    b, c = (-d - r.choice([1, 1, 2, 1 + r.getrandbits(40)]) for _ in range(2))
    return [IMIN, b, c, d]


def least(r):
    """coefficients that cannot be negated"""
    if r.random() < .3:
        small = [r.choice([0, 0, 0, 1, -2]) for _ in range(3)] + [IMAX - r.choice([0, 0, 1, r.getrandbits(60)])]
        c = steep(r) + small
        if r.random() < .5:
            c = c[4:] + c[:4]
        if r.random() < .2:
            c = [min(IMAX, v + 1) if r.random() < .3 else v for v in c]
        return [mkratio(r, 0, abs(short(r, r.randint(0, 3)))), mkratio(r, 1, abs(short(r, r.randint(0, 3)))), B(2, 0, 1, c), "D 2 2"]
    k = r.choice([4, 8])
    c = [r.choice([0, 0, 0, 1, -1, 2, -4, r.choice([1, -1]) << r.randint(0, 62)]) for _ in range(k)]
    for i in r.sample(range(k), r.choice([1, 1, 2])):
        c[i] = IMIN
    x = [-abs(few(r)) if r.random() < .8 else few(r) for _ in range(k // 4)]
    o = [mkratio(r, i, v) for i, v in enumerate(x)]
    return o + [H(2, 0, c) if k == 4 else B(2, 0, 1, c), "D 2 2"]


def c09(r, n, tier):
    for _ in range(n):
        if r.random() < .1:
            yield least(r)
            continue
        if r.random() < .1:
            if r.random() < .4:
                yield [mkratio(r, 0, r.choice([few(r), rat(r, 20)])), H(1, 0, brink(r, 4)), "D 1 2"]
            else:
                yield [mkratio(r, 0, few(r)), mkratio(r, 1, r.choice([few(r), rat(r, 20)])), B(2, 0, 1, brink(r, 8)), "D 2 2"]
            continue
        if r.random() < .5:
            if r.random() < .25:
                yield [mkratio(r, 0, few(r), False), H(1, 0, hot(r, 4)), "D 1 2"]
            else:
                x, y = few(r), few(r)
                if r.random() < .3:     # the second ends while the first goes on
                    x, y = short(r, r.choice([1, 1, 2, 3])), short(r, 0)
                yield [mkratio(r, 0, x, False), mkratio(r, 1, y, False), B(2, 0, 1, hot(r, 8)), "D 2 2"]
            continue
        k = r.randrange(12)
        ob = r.choice([2, 3, 4, 8, 20, 40, 60, 62, 63, 64])
        if k <= 5:
            m = r.randrange(5)
            if m == 0:
                c = [wide(r) for _ in range(4)]
            elif m == 1:      # one or two extreme coefficients
                c = [r.randint(-2, 2) for _ in range(4)]
                for _ in range(r.randint(1, 2)):
                    c[r.randrange(4)] = r.choice(EXTREME)
            elif m == 2:      # all of a size
                b = r.choice([30, 45, 55, 59, 60, 61, 62])
                c = [rint(r, b) for _ in range(4)]
            else:
                b = r.choice([20, 30, 40, 58, 60, 61])
                c, x = hom_case(r, b, ob, 0)
            x = rat(r, ob, .15)
            if m == 4:        # a delicate result
                t = target(r, 8)
                y = hom_operand_for(c, t)
                if big_ok(y):
                    x = y
            o = [mkratio(r, 0, x), H(1, 0, c)]
            e = r.randrange(4)
            yield o + (["D 1 2"] if e else ["K 2 1", "D 2 1"])
        elif k <= 9:
            ob = r.choice([2, 3, 4, 6, 10, 20, 40])
            m = r.randrange(5)
            if m == 0:
                c = [wide(r) for _ in range(8)]
            elif m == 1:
                c = [r.randint(-2, 2) for _ in range(8)]
                for _ in range(r.randint(1, 3)):
                    c[r.randrange(8)] = r.choice(EXTREME)
            elif m == 2:
                b = r.choice([30, 45, 55, 58, 59, 60, 61])
                c = [rint(r, b) for _ in range(8)]
            elif m == 3:
                c = list(r.choice([ADD, SUB, MUL, DIV]))
                ob = r.choice([20, 30, 31, 40, 62])
            else:
                c, _, _ = com_case(r, r.choice([12, 20, 30, 58]), 4, 0)
            x, y = rat(r, ob, .1), rat(r, ob, .1)
            yield [mkratio(r, 0, x), mkratio(r, 1, y), B(2, 0, 1, c), "D 2 2"]
        elif k == 10:    # chains that overflow at some point
            o = [mkratio(r, 0, rat(r, 20, 0))]
            for _ in range(r.randint(2, 5)):
                o.append(H(0, 0, coefs(r, 4, r.choice([10, 20, 30]))))
            yield o + ["D 0 1"]
        else:
            v, w = neighbours(r, 61)
            if not (big_ok(v) and big_ok(w)):
                continue
            c = [wide(r) for _ in range(4)]
            yield [mkratio(r, 0, v), H(0, 0, c), mkratio(r, 1, w), H(1, 1, c), "C 0 1"]


HOM, COM = 767, 95


def longs(m, fib):
    """fractions with terms up to m whose expansions are long"""
    h = (m + 1) // 2
    return [F(*v) for v in ((1, m), (m - 1, m), (1, m - 1), (m, m - 1), (h - 1, h), (1, h), fib, (fib[1] - fib[0], fib[1]),
                            (1, h - 1), (h - 2, h - 1), (2, m), (m - 2, m), (h, m), (h - 1, m), (1, m - 2), (m, 1))]


LONG_HOM = longs(511, (233, 377)) + longs(HOM, (377, 610))
LONG_COM = longs(63, (34, 55)) + longs(COM, (55, 89))


def edgecoef(r, m):
    return r.choice([m, m, -m, -m, m - 1, 1 - m, (m + 1) // 2, -(m + 1) // 2, m // 2, 1, -1, 0, r.randint(-m, m)])


ROOM = 56


def short(r, m):
    """a value with m symbols"""
    bias = r.choice([0, .2, .5, .8, 1])
    v = F(*decode([1 if r.random() < bias else 2 for _ in range(m)]))
    return v ** r.choice([1, -1]) * r.choice([1, -1])


def tall(r, n, m):
    """n coefficients that leave no more than a little room after m symbols are read"""
    top = 1 << max(0, ROOM - m - r.choice([0, 0, 1, 2, 3, 5, 8, 13]))
    c = [r.choice([top, -top, top - 1, 1 - top, top // 2, -(top // 2), top // 2 + 1, 1, -1, 0, r.randint(-top, top)])
         for _ in range(n)]
    if r.random() < .2:
        c = [v & -2 for v in c[:n // 2]] + c[n // 2:]
    return c


def room_case(r):
    """operations just inside the guaranteed room for growth"""
    m = r.choice([0, 1, 2, 3, 5, 8, 13, 20, 30, 40, 50, 55])
    if r.random() < .5:
        x = short(r, m) if r.random() < .9 else F(r.choice([-1, 0, 1]))
        c = tall(r, 4, m)
        if r.random() < .3:
            c = [a + b for a, b in zip(c, tall(r, 4, m + 1))]
        return None if lin(c, x)[1] == 0 else ([mkratio(r, 0, x), H(1, 0, c)], 1)
    k = r.randint(0, m)
    x, y = short(r, k), short(r, m - k)
    if r.random() < .1:
        x = F(r.choice([-1, 0, 1]))
    if r.random() < .1:
        y = F(r.choice([-1, 0, 1]))
    c = tall(r, 8, m)
    return None if bil(c, x, y)[1] == 0 else ([mkratio(r, 0, x), mkratio(r, 1, y), B(2, 0, 1, c)], 2)


def outcome(ops):
    """the value that ratios and one function or combination of them leave"""
    reg = {}
    for o in ops:
        f = o.split()
        c = [int(x) for x in f[2:] if f[0] != "S"]
        if f[0] == "R":
            v = F(c[0], c[1])
        elif f[0] == "V":
            v = F(c[1], c[2]) * (1 if c[0] else -1)
        elif f[0] == "S":
            v = F({"Z": 0, "P": 1, "N": -1}[f[2]])
        else:
            a, b = lin(c[1:], reg[f[2]]) if f[0] == "H" else bil(c[2:], reg[f[2]], reg[f[3]])
            v = F(a) / b
        reg[f[1]] = v
    return v


def c10(r, n, tier):
    for _ in range(n):
        k = r.randrange(16)
        if k >= 12:
            g = room_case(r)
            if g is None:
                continue
            o, z = g
        elif k <= 5:
            if k <= 2:
                c = [edgecoef(r, HOM) for _ in range(4)]
                x = r.choice(LONG_HOM)
                if r.random() < .3:
                    x = rat(r, 9, .05)
                x = x ** r.choice([1, -1]) * r.choice([1, -1]) if x else x
            else:
                c, x = hom_case(r, 9, 9, 0)
            if r.random() < .25:
                y = hom_operand_for(c, target(r, 9))
                if y is not None and max(abs(y.numerator), y.denominator) <= HOM:
                    x = y
            if lin(c, x)[1] == 0:
                continue
            o = [mkratio(r, 0, x), H(1, 0, c)]
            z = 1
        else:
            if k <= 8:
                c = [edgecoef(r, COM) for _ in range(8)]
                x, y = r.choice(LONG_COM), r.choice(LONG_COM)
                if r.random() < .3:
                    x = rat(r, 6, .05)
                x, y = [v ** r.choice([1, -1]) * r.choice([1, -1]) if v else v for v in (x, y)]
            else:
                c, x, y = com_case(r, 6, 6, 0)
            if r.random() < .25:
                w = com_operand_for(c, x, target(r, 6))
                if w is not None and max(abs(w.numerator), w.denominator) <= COM:
                    y = w
            if bil(c, x, y)[1] == 0:
                continue
            o = [mkratio(r, 0, x), mkratio(r, 1, y), B(2, 0, 1, c)]
            z = 2
        e = r.randrange(6)
        if e == 0:
            o += [f"K 3 {z}"]
        elif e == 1:
            o += [mkratio(r, 3, rat(r, 8)), f"C {z} 3"]
        else:
            o += [f"D {z} 1"]
        yield o


def one_life(r, a, b):
    """a Number in register a that is made, extracted bit by bit, and ends; b is free for its use"""
    k = r.randrange(6)
    if k == 0:
        o = [mkratio(r, a, rat(r, r.choice([4, 8, 30]), .05))]
    elif k <= 2:
        c, x = hom_case(r, *r.choice([(3, 4), (5, 6), (8, 8)]), pole=0)
        o = [mkratio(r, b, x), H(a, b, c)]
    elif k <= 4:
        c, x, y = com_case(r, *r.choice([(2, 4), (3, 4), (5, 5)]), pole=0)
        o = [mkratio(r, a, x), mkratio(r, b, y), B(a, a, b, c)]
    else:
        v = rat(r, 8, 0)
        o = [mkratio(r, a, v), f"E {a} {r.randint(1, 3)}", f"W {b} {a} {r.choice('-TRG')}", f"M {a} {b}"]
    for _ in range(r.randint(1, 5)):
        o.append(f"E {a} {r.randint(1, 4)}")
    e = r.randrange(10)
    if e == 0:
        o.append(f"X {a}")
    elif e == 9:      # ends in a panic
        w = rat(r, 8)
        c = coefs(r, 2, 4)
        o += r.choice([
            [f"R {a} {rint(r, 8)} 0"],
            [mkratio(r, b, w), H(b, b, c + [w.denominator, -w.numerator])],
            [H(a, a, c + [0, 0])],
            [mkratio(r, b, w), B(b, b, a, coefs(r, 4, 3) + [0, w.denominator, 0, -w.numerator])],
            [mkratio(r, b, rat(r, 20, 0)), B(b, b, a, [wide(r) for _ in range(8)]), f"D {b} 1"],
            [H(a, a, [wide(r) for _ in range(4)]), f"D {a} 1"],
            [mkratio(r, b, w), f"Q {'o' if abs(w) == 1 or not w else 's'} {b}"]])
    elif e == 1:
        o += [f"K {a} {a}"]
    elif e == 2:
        o += [mkratio(r, b, rat(r, 8)), r.choice([f"C {a} {b}", f"C {b} {a}"])]
    else:
        o += [f"D {a} 1"]
    return o


def weave(r, lives, late=0):
    """one history out of many; late: all of them are made first"""
    out = []
    if late:
        for o in lives:
            for _ in range(r.randint(1, min(4, len(o)))):
                out.append(o.pop(0))
    live = [x for x in lives if x]
    while live:
        i = r.randrange(len(live))
        for _ in range(r.choice([1, 1, 1, 2])):
            if live[i]:
                out.append(live[i].pop(0))
        if not live[i]:
            live[i] = live[-1]
            live.pop()
    return out


def c11(r, n, tier):
    for m in [20, 40, 70, 130, 260] * (3 if tier == "quick" else 20) + [1100]:     # crowds
        yield weave(r, [one_life(r, i, i + m) for i in range(m)], r.random() < .5)
    for _ in range(n):
        # independent lives of two to four Numbers, interleaved
        m = r.randint(2, 4)
        lives = [one_life(r, i, i + 4) for i in range(m)]
        if r.random() < .4:      # the same life twice
            def ren(t):
                f = t.split()
                idx = {"R": [1], "V": [1], "S": [1], "H": [1, 2], "B": [1, 2, 3], "C": [1, 2], "K": [1, 2],
                       "E": [1], "D": [1], "W": [1, 2], "Q": [2], "M": [1, 2], "X": [1]}[f[0]]
                for j in idx:
                    f[j] = str(int(f[j]) + 1)
                return " ".join(f)
            lives[1] = [ren(t) for t in lives[0]]
        yield weave(r, lives)


def c12(r, n, tier):
    g = [c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c13]
    for f in g:
        yield from cap(f(r, n // len(g), "quick"), n // len(g) + 200, r)


def lasting(r):
    """a Number of very many symbols in register 0, through one or two operations that leave it so; and a partner in 1"""
    k = r.choice([20, 40, 60, 62, 62])
    v = F((1 << k) - r.choice([0, 1, 3]), r.choice([1, 3, (1 << k) - 5, (1 << (k - 1)) + 1])) ** r.choice([1, -1]) * r.choice([1, -1])
    o = [mkratio(r, 0, v)]
    m = r.randrange(4)
    if m == 1:
        o.append(H(0, 0, r.choice([[1, 0, 0, 1], [0, 1, 1, 0], [-1, 0, 0, 1], [3, 0, 0, 3], [0, -1, 1, 0]])))
    elif m == 2:
        o += [mkratio(r, 1, F(r.choice([1, -1, 2]))), B(0, 0, 1, r.choice([MUL, DIV]))]
    elif m == 3:
        o += [mkratio(r, 1, short(r, r.choice([3, 8, 20]))), B(0, *r.choice([(0, 1), (1, 0)]), r.choice([ADD, SUB, MUL]))]
    if r.random() < .3:
        o.append(H(0, 0, r.choice([[1, 0, 0, 1], [0, 1, 1, 0], [-1, 0, 0, 1]])))
    for _ in range(r.randint(0, 3)):
        o.append(f"E 0 {r.choice([10, 100, 700])}")
    return o + r.choice([[], ["D 0 1"], ["D 0 30"], ["X 0"], ["K 0 0"], [mkratio(r, 1, v), "C 0 1"], ["E 0 50", "W 1 0 T", "E 1 50"]])


def c16(r, n, tier):
    for m in [20, 70, 200] * (1 if tier == "quick" else 10):
        yield weave(r, [one_life(r, i, i + m) for i in range(m)], r.random() < .5)
    for _ in range(n // 40):
        yield lasting(r)
        o, v, z = r.choice([deep, alive])(r, r.choice([3, 6, 12, 30, 60]))
        yield o + r.choice([[], [f"E {z} 5"], [f"D {z} 1"], [f"X {z}"], [f"K 6 {z}"], [mkratio(r, 5, v), f"C {z} 5"]])
    for f, w in ((c11, .35), (c02, .12), (c03, .05), (c04, .06), (c05, .08), (c06, .05), (c07, .04), (c08, .08), (c09, .12), (c13, .05)):
        yield from (o for o in cap(f(r, int(n * w), "quick"), int(n * w), r) if len(o) < 200)      # crowds have been


def c17(r, n, tier):
    for f, w in ((c09, .45), (c10, .15), (c08, .1), (c01, .1), (c07, .05), (c03, .05), (c11, .05), (c13, .05)):
        yield from cap(f(r, int(n * w), "quick"), int(n * w) + 200, r)


def unitary(r):
    """coefficients of x, -x, 1/x or -1/x, and that function"""
    g = abs(nz(r, 56)) if r.random() < .6 else r.choice([1, 1, 1, 2, 3, 2**56, 2**r.randrange(57), 2**56 - 1])
    s, t = r.choice([1, -1]), r.choice([1, -1])
    if r.random() < .5:
        return [s * g, 0, 0, t * g], lambda x: s * t * x
    return [0, s * g, t * g, 0], lambda x: F(s * t) / x


def long_value(r):
    v = rat(r, r.choice([3, 5, 8, 8, 20, 40, 56, 61, 62, 63]), .04)
    if r.random() < .2:
        b = r.randrange(64)
        v = F(r.choice([1, -1]) * max(1, 2**b + r.choice([-1, 0, 1]))) ** r.choice([1, -1])
    return v


def fixed(c, i, s):
    """the function that is left of the combination c when its operand i is s"""
    k = [(0, 2), (1, 3), (4, 6), (5, 7)] if i == 0 else [(0, 1), (2, 3), (4, 5), (6, 7)]
    return [c[a] * s + c[b] for a, b in k]


def c18(r, n, tier):
    for x in [F(2**63 - 1), F(1, 2**63 - 1), F(2**64 - 1, 2**63), F(2**63, 2**64 - 1), F(6358610611625529182), F(3), F(1, 3), F(2, 3)]:
        for s in (1, -1):
            for g in (1, 3, 2**56):
                for c in ([g, 0, 0, g], [-g, 0, 0, g], [g, 0, 0, -g], [-g, 0, 0, -g], [0, g, g, 0], [0, -g, g, 0], [0, g, -g, 0], [0, -g, -g, 0]):
                    yield [mkratio(r, 0, s * x), H(0, 0, c), "D 0 1"]
    for _ in range(n):
        x = long_value(r)
        o = [mkratio(r, 0, x)]
        if x not in (-1, 0, 1) and r.random() < .15:
            o.append(f"E 0 {r.randint(1, 9)}")
            if r.random() < .5:
                o.append(f"W 0 0 {r.choice('-TRG')}")
            x = None
        for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5, 9])):
            k = r.randrange(12)
            if k < 7:
                c, f = unitary(r)
                if x == 0 and c[0] == 0:
                    continue
                o.append(H(0, 0, c))
                x = None if x is None else f(x)
            elif k < 11:      # a combination with a special value that leaves such a function
                s = r.choice([-1, 0, 1])
                i = r.randrange(2)
                f = None
                if k == 7:
                    c = r.choice([ADD, SUB, MUL, DIV])
                    s = r.choice([1, -1]) if c in (MUL, DIV) else 0
                    g = fixed(c, i, s)
                else:
                    m = r.choice([3, 20, 54])
                    g, f = unitary(r)
                    if max(map(abs, g)) > 2**55:
                        continue
                    c = [0] * 8
                    pairs = [(0, 2), (1, 3), (4, 6), (5, 7)] if i == 0 else [(0, 1), (2, 3), (4, 5), (6, 7)]
                    for (a, b), v in zip(pairs, g):
                        c[a] = rint(r, m)
                        c[b] = v - c[a] * s
                if x == 0 and g[3] == 0:
                    continue
                o += [mkratio(r, 1, F(s)), B(0, 1, 0, c) if i == 0 else B(0, 0, 1, c)]
                if x is not None:
                    x = (g[0] * x + g[1]) / (g[2] * x + g[3])
            else:             # a constant
                c = [0, rint(r, 56), 0, nz(r, 56)]
                o.append(H(0, 0, c))
                x = F(c[1], c[3])
            if x not in (-1, 0, 1) and r.random() < .2:
                o.append(f"E 0 {r.randint(1, 5)}")
                x = None
        e = r.randrange(8)
        if e == 0:
            o += ["K 2 0"]
        elif e == 1 and x is not None and big_ok(x):
            w = x if r.random() < .6 else relative(r, x, r.choice([1, 5, 20, 40]))
            if not big_ok(w):
                continue
            o += [mkratio(r, 3, w), r.choice(["C 0 3", "C 3 0"])]
        else:
            o += ["D 0 1"]
        yield o


def cap(it, m, r):
    """an even sample of at most m cases"""
    l = list(it)
    return l if len(l) <= m else r.sample(l, m)


def c13(r, n, tier):
    for x in [F(s * p, q) for p in range(0, 7) for q in range(1, 7) for s in (1, -1)]:
        for q in "so":
            yield [mkratio(r, 0, x), f"Q {q} 0", "D 0 1"]
    for _ in range(n):
        if r.random() < .08:
            if r.random() < .5:
                yield [mkratio(r, 0, few(r)), H(1, 0, brink(r, 4)), f"Q {r.choice('so')} 1", "E 1 5"]
            else:
                yield [mkratio(r, 0, few(r)), mkratio(r, 2, few(r)), B(1, 0, 2, brink(r, 8)), f"Q {r.choice('so')} 1", "E 1 5"]
            continue
        k = r.randrange(10)
        if k <= 4:
            bits = r.choice([2, 3, 5, 8, 8])
            c = coefs(r, 4, bits)
            if r.random() < .25:
                s, t = nz(r, 3), nz(r, 3)
                if r.random() < .6:
                    t = s * r.choice([1, -1])
                m = [rint(r, 4), rint(r, 4)]
                c = [m[0] * s, m[1] * s, m[0] * t, m[1] * t]
                x = rat(r, 8)
            else:
                x = hom_operand_for(c, target(r, r.choice([3, 8, 20])))
            if x is None or not big_ok(x) or max(abs(x.numerator), x.denominator) > 2**30 or lin(c, x)[1] == 0:
                continue
            o, z = [mkratio(r, 0, x), H(1, 0, c)], 1
        elif k <= 7:
            c = coefs(r, 8, r.choice([2, 3, 5]))
            if r.random() < .3:
                c = list(r.choice([ADD, SUB, MUL, DIV]))
            x = rat(r, r.choice([3, 5]))
            if r.random() < .2:
                s = nz(r, 2)
                t = s * r.choice([1, -1])
                m = [rint(r, 2) for _ in range(4)]
                c = [v * s for v in m] + [v * t for v in m]
                y = rat(r, 5)
            else:
                y = com_operand_for(c, x, target(r, r.choice([3, 5, 8])))
            if y is None or max(abs(y.numerator), y.denominator) > 2**16 or bil(c, x, y)[1] == 0:
                continue
            if r.random() < .4:
                x, y = y, x
                c = [c[0], c[2], c[1], c[3], c[4], c[6], c[5], c[7]]
            o, z = [mkratio(r, 0, x), mkratio(r, 1, y), B(2, 0, 1, c)], 2
        elif k == 8:
            o, z = [mkratio(r, 0, target(r, r.choice([4, 20, 61])))], 0
        else:
            o, _ = life(r, 0, r.randint(1, 3), [1, 2, 3, 4, 5, 6])
            z = 0
        e = r.randrange(5)
        if e <= 1:
            o = o + [f"Q {'so'[e]} {z}"]
        elif e == 2:
            o = o + [f"E {z} {r.randint(0, 3)}", f"Q o {z}", f"D {z} 1"]
        else:
            o = o + [f"Q o {z}", f"D {z} 1"]
        yield o


ALL = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10,
           C11=c11, C12=c12, C13=c13, C14=c14, C16=c16, C17=c17, C18=c18)
