"""C04: subbytes against bytes slices, chained operations over every small size."""
import itertools
from vlib.core import Group
from snmp.utils import subbytes

IDX = list(range(-7, 8))
OPT = [None] + IDX

def same(ctx, view, ref, whole, trail):
    """Every observation of the view equals the observation of the slice."""
    def ck(cond, what):
        ctx.check_that(cond, what, f"{what} differs from the bytes slice", view=repr(view), slice=ref, operations=trail)
    ck(len(view) == len(ref), "length")
    ck(bool(view) is bool(ref), "truth")
    ck(list(view) == list(ref), "iteration")
    ck(bytes(view) == ref, "bytes()")
    ck(view == ref and not (view != ref), "equality")
    ck(view[:] == ref, "full slice")
    ck(not view == ref + b"\0" and view != ref + b"\0", "inequality with longer")
    if ref:
        ck(not view == ref[:-1], "inequality with shorter")
        ck(not view == bytes([ref[0] ^ 1]) + ref[1:], "inequality with altered")
        ck(view.dereference() == ref[0], "dereference")
    else:
        try:
            view.dereference()
        except IndexError:
            pass
        else:
            ck(False, "dereference of an empty view")
    ck(view.data == whole, "data")
    ctx.count("observations", 12)

def index(ctx, view, ref, k, trail):
    try:
        want = ref[k]
    except IndexError:
        want = "IndexError"
    try:
        got = view[k]
    except IndexError:
        got = "IndexError"
    ctx.check_that(got == want, "indexing", "indexing differs", view=repr(view), slice=ref, index=k, got=got, want=want, operations=trail)
    ctx.count("indexed")

def slicing(ctx, view, ref, s, trail):
    got = view[s]
    ctx.check_that(type(got) is bytes and got == ref[s], "slicing", "slicing differs", view=repr(view), slice=ref, index=s, got=got, want=ref[s], operations=trail)
    ctx.count("sliced")

def exhaust(ctx, rng, i):
    """One buffer length and start per case: every stop, every second-level view, index and slice."""
    n, a = divmod(i, len(OPT))
    data = bytes(range(65, 65 + n))
    a = OPT[a]
    for b in OPT:
        v, r = subbytes(data, a, b), data[a:b]
        trail = [(a, b)]
        same(ctx, v, r, data, trail)
        ctx.distinct(n, a, b)
        for k in IDX:
            index(ctx, v, r, k, trail)
        for lo, hi in itertools.product(OPT, OPT):
            slicing(ctx, v, r, slice(lo, hi), trail)
            w, s = subbytes(v, lo, hi), r[lo:hi]
            same(ctx, w, s, data, trail + [(lo, hi)])
            ctx.distinct(n, a, b, lo, hi)
            for k in (-2, -1, 0, 1, 2):
                index(ctx, w, s, k, trail + [(lo, hi)])
            for st in (-3, -2, -1, 1, 2, 3):
                slicing(ctx, v, r, slice(lo, hi, st), trail)
        for k in IDX:
            x, y = v.split(k)
            same(ctx, x, r[:k], data, trail + [("split", k, 0)])
            same(ctx, y, r[k:], data, trail + [("split", k, 1)])
        same(ctx, v.advance(), r[1:], data, trail + ["advance"])
        new = rng.randbytes(rng.randrange(0, 4))
        lo, hi, _ = slice(a, b).indices(n)
        hi = max(lo, hi)
        ctx.check_that(v.replace(new) == data[:lo] + new + data[hi:], "replace", "replace() substitutes another range", data=data, view=(a, b), new=new)
        ctx.count("replaced")

def chains(ctx, rng, i):
    for _ in range(40):
        n = rng.choice([0, 1, 2, 3, 5, 8, 16, 40, 200, 70000 if rng.random() < .02 else 9])
        data = rng.randbytes(n)
        v, lo, hi, trail = subbytes(data), 0, n, []
        for _ in range(rng.randrange(1, 9)):
            m = rng.random()
            size = hi - lo
            p = lambda: rng.choice([None, rng.randrange(-size - 3, size + 4), rng.randrange(-size - 3, size + 4), 10**6, -10**6, 2**70, -2**70])
            if m < .45:
                a, b = p(), p()
                v = subbytes(v, a, b)
                s, e, _ = slice(a, b).indices(size)
                trail.append((a, b))
            elif m < .6:
                v = v.advance()
                s, e = min(1, size), size
                trail.append("advance")
            elif m < .9:
                k = p() or 0
                side = rng.randrange(2)
                v = v.split(k)[side]
                s, e, _ = (slice(k) if side == 0 else slice(k, None)).indices(size)
                trail.append(("split", k, side))
            else:
                v = subbytes(v)
                s, e = 0, size
                trail.append("view")
            lo, hi = lo + s, lo + max(s, e)
            ref = data[lo:hi]
            if n < 1000:
                same(ctx, v, ref, data, trail)
            for _ in range(4):
                k = rng.choice([rng.randrange(-len(ref) - 2, len(ref) + 3), 2**65, -2**65])
                index(ctx, v, ref, k, trail)
                q = lambda: rng.choice([None, rng.randrange(-len(ref) - 2, len(ref) + 3), 2**66, -2**66])
                slicing(ctx, v, ref, slice(q(), q(), rng.choice([None, 1, 2, 3, -1, -2, 7])), trail)
        new = rng.randbytes(rng.randrange(0, 20))
        want = data[:lo] + new + data[hi:]
        ctx.check_that(v.replace(new) == want, "replace", "replace() substitutes another range", data=data[:300], operations=trail, range=(lo, hi), got=v.replace(new)[:300], want=want[:300])
        other = subbytes(data[lo:hi])
        ctx.check_that(v == other and other == v, "view-equality", "equal views differ", operations=trail)
        r = repr(v)
        ctx.check_that(bytes(eval(r, dict(subbytes=subbytes))) == data[lo:hi], "repr", "repr() denotes another view", repr=r[:300], operations=trail)
        ctx.check_that(data == v.data, "data", "the buffer was altered", operations=trail)
        ctx.distinct(len(data), trail)
        ctx.count("chains")
    ctx.sample(dict(size=n, operations=repr(trail), range=[lo, hi]))

def pairs(ctx, rng, i):
    """Views compared with each other: of one buffer or of several, at the same place or at others."""
    n = rng.choice([0, 1, 2, 4, 6, 9])
    word = rng.randbytes(rng.choice([1, 1, 2, 3]))
    data = (word * n)[:n]
    twin = bytes(bytearray(data))
    views = []
    for d in (data, twin, bytes(reversed(data))):
        for a in range(n + 1):
            for b in range(a, n + 1):
                views.append((subbytes(d, a, b), d[a:b]))
    for v, r in views:
        for w, s in views if len(views) < 40 else rng.sample(views, 40):
            ctx.check_that((v == w) is (r == s) and (v != w) is (r != s), "view-equality", "two views compare otherwise than the bytes they stand for",
                           left=repr(v), right=repr(w))
            ctx.count("view-pairs")
        for other in (bytearray(r), memoryview(r), list(r), tuple(r)):
            ctx.check_that(v == other and not v != other, "equality", "a view differs from an equal sequence of bytes", view=repr(v), other=repr(other))
        for other in (None, 5, "x" * len(r), object()):
            ctx.check_that((v == other) is (r == other) or (not r and other == ""), "equality", "a view equals something that is no sequence of bytes", view=repr(v), other=repr(other))
    ctx.distinct("pairs", data)

GROUPS = [Group("exhaust", exhaust, 6 * len(OPT), 7 * len(OPT)), Group("chains", chains, 1200, 40000), Group("pairs", pairs, 60, 600)]
