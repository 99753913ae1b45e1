"""C03: OIDs against tuples of sub-identifiers; index fields against an independent reader."""
from vlib.core import Group
from vlib import gen as G, ref_ber as R
from snmp.smi import OID
import snmp.smi

def valid(arcs):
    return (len(arcs) <= 128 and all(0 <= a < 2**32 for a in arcs)
            and (len(arcs) < 1 or arcs[0] < 3) and (len(arcs) < 2 or arcs[1] < 40))

def refused(ctx, what, fn, exc=ValueError, **detail):
    try:
        got = fn()
    except exc as e:
        ctx.count("refused")
        return e
    ctx.fail("not-refused", f"{what} is not refused", got=got, **detail)

def related(rng, a):
    """A tuple likely to share a prefix with a."""
    m = rng.random()
    if m < .25:
        return a[:rng.randrange(0, len(a) + 1)]
    if m < .5:
        return (a + G.oid(rng)[2:])[:128]
    if m < .75 and len(a) > 2:
        k = rng.randrange(2, len(a))
        return a[:k] + (max(0, min(2**32 - 1, a[k] + rng.choice([-1, 1]))),) + a[k + 1:]
    return G.oid(rng, rng.choice([0, 1, 2]))

def relations(ctx, rng, i):
    for _ in range(60):
        a = G.oid(rng, rng.choice([0, 1, 2, 2, 2]))
        b = rng.choice([a, related(rng, a), related(rng, a)])
        x, y = OID(*a), OID(*b)
        ctx.distinct(a, b)
        check = lambda cond, key, what: ctx.check_that(cond, key, f"{what} disagrees with the sub-identifiers", a=a, b=b)
        check(tuple(x) == a and len(x) == len(a) and list(iter(x)) == list(a), "sequence", "iteration or length")
        check((x == y) is (a == b) and (x != y) is (a != b), "equality", "equality")
        check(x < y if a < b else not x < y, "order", "ordering")
        check(x > y if a > b else not x > y, "order", "ordering")
        check(a != b or hash(x) == hash(y), "hash", "hash")
        check(len({x, y}) == len({a, b}), "hash", "set membership")
        check(x.startswith(y) is (a[:len(b)] == b), "startswith", "startswith")
        check(y.startswith(x) is (b[:len(a)] == a), "startswith", "startswith")
        check(x.startswith(x) and x.startswith(OID()), "startswith", "startswith")
        text = ".".join(map(str, a))
        check(str(x) == text, "print", "str()")
        check(OID.parse(text) == x and tuple(OID.parse(text)) == a, "parse", "parse()")
        check(tuple(OID.parse("." + text)) == a if a else True, "parse", "parse() with a leading dot")
        lo, hi, st = (rng.choice([None, rng.randrange(-len(a) - 2, len(a) + 3)]) for _ in range(3))
        st = st or None
        check(tuple(x[lo:hi:st]) == a[lo:hi:st], "slice", f"slice {lo}:{hi}:{st}")
        for k in range(-len(a) - 1, len(a) + 1):
            try:
                w = a[k]
            except IndexError:
                refused(ctx, "an index out of range", lambda: x[k], IndexError, a=a, k=k)
            else:
                check(x[k] == w, "index", f"index {k}")
        more = tuple(G.arc(rng) for _ in range(rng.randrange(0, 5)))
        if valid(a + more):
            z = x.extend(*more)
            check(tuple(z) == a + more and type(z) is OID and tuple(x) == a, "extend", "extend()")
            check(z.startswith(x), "extend", "extend() then startswith()")
        else:
            refused(ctx, "an extension past the limits", lambda: x.extend(*more), a=a, more=more)
        check(x == sorted([x, y])[0] or y < x, "sort", "sorting")
        ctx.count("relations")
    ctx.sample(dict(a=text[:200], b=str(b)[:200]))

def limits(ctx, rng, i):
    for first in range(0, 5):
        for second in (0, 1, 38, 39, 40, 41, 79, 80, 127, 128, 2**32 - 1):
            for rest in ((), (1,)):
                a = (first, second) + rest
                t = ".".join(map(str, a))
                if valid(a):
                    ctx.check_that(tuple(OID(*a)) == a == tuple(OID.parse(t)), "limits", "a valid OID is altered", arcs=a)
                    ctx.count("limit-accepted")
                else:
                    refused(ctx, "an invalid first arc pair", lambda: OID(*a), arcs=a)
                    refused(ctx, "an invalid first arc pair", lambda: OID.parse(t), arcs=a)
    for k in range(0, 6):
        for bad in (-1, -2**31, 2**32, 2**32 + 1, 2**40, 2**64, 2**70):
            a = list((1, 3, 6, 1, 4, 1)[:max(k, 1)] + (1,) * 3)
            a[k if k < len(a) else 0] = bad
            refused(ctx, "a sub-identifier out of range", lambda: OID(*a), arcs=a)
            refused(ctx, "a sub-identifier out of range", lambda: OID.parse(".".join(map(str, a))), arcs=a)
            refused(ctx, "a sub-identifier out of range", lambda: OID(1, 3).extend(*a), arcs=a)
    for n in range(120, 129):
        a = (1, 3) + (n,) * (n - 2)
        ctx.check_that(tuple(OID(*a)) == a and str(OID.parse(str(OID(*a)))) == ".".join(map(str, a)), "limits", "a valid OID is altered", n=n)
    for n in (129, 130, 200, 1000):
        a = (1, 3) + (n,) * (n - 2)
        refused(ctx, "an OID of more than 128 arcs", lambda: OID(*a), n=n)
        refused(ctx, "an OID of more than 128 arcs", lambda: OID.parse(".".join(map(str, a))), n=n)
        refused(ctx, "an OID of more than 128 arcs", lambda: OID(*a[:100]).extend(*a[100:]), n=n)
    for t in ("1.3.", "1..3", "a", "1.3.x", "..1.3", "1,3", "1.3.6.1.0x10", ".", "1.3.-1", "1.3.6.1e3", "1.3 .b", "iso.3"):
        refused(ctx, "a malformed dotted string", lambda: OID.parse(t), text=t)

KINDS = ["int", "g32", "c32", "tt", "c64", "str", "opaque", "ip", "oid", "null"]

def asoid(v, implied):
    k = v[0]
    if k in R.RANGE:
        return (v[1],)
    if k in ("str", "opaque"):
        return (() if implied else (len(v[1]),)) + tuple(v[1])
    if k == "ip":
        return tuple(v[1])
    if k == "oid":
        return (() if implied else (len(v[1]),)) + v[1]
    return ()

class Bad(Exception):
    pass

def ref_decode(arcs, kinds, implied):
    out, pos = [], 0
    def take(n):
        nonlocal pos
        if pos + n > len(arcs):
            raise Bad("short")
        pos += n
        return arcs[pos - n:pos]
    for j, k in enumerate(kinds):
        imp = implied and j == len(kinds) - 1
        if k in R.RANGE:
            n = take(1)[0]
            if not R.RANGE[k][0] <= n <= R.RANGE[k][1]:
                raise Bad("range")
            out.append((k, n))
        elif k in ("str", "opaque", "ip"):
            if k == "ip":
                b = take(4)
            elif imp:
                b = take(len(arcs) - pos)
            else:
                b = take(take(1)[0])
            if any(x > 255 for x in b):
                raise Bad("byte")
            out.append((k, bytes(b)))
        elif k == "oid":
            o = take(len(arcs) - pos) if imp else take(take(1)[0])
            if not valid(o):
                raise Bad("oid")
            out.append((k, tuple(o)))
        else:
            out.append((k,))
    if pos != len(arcs):
        raise Bad("long")
    return tuple(out)

def decode_lib(oid, prefix, kinds, implied):
    try:
        got = oid.decodeIndex(prefix, *[G.cls_of(k) for k in kinds], **({'implied': True} if implied else {}))
    except OID.BadPrefix:
        return "prefix"
    except OID.IndexDecodeError:
        return "index"
    return tuple(G.from_lib(v) for v in got)

def compare(ctx, arcs, plen, kinds, implied, prefix=None):
    prefix = arcs[:plen] if prefix is None else prefix
    if arcs[:len(prefix)] != prefix:
        want = "prefix"
    else:
        try:
            want = ref_decode(arcs[len(prefix):], kinds, implied)
        except Bad:
            want = "index"
    got = decode_lib(OID(*arcs), OID(*prefix), kinds, implied)
    ctx.check_that(got == want, "decodeIndex", "an index is decoded differently", oid=arcs, prefix=prefix, types=kinds,
                   implied=implied, got=got, want=want)
    ctx.count("decoded:" + (want if isinstance(want, str) else "value"))
    ctx.distinct(arcs, prefix, tuple(kinds), implied)
    if len(kinds) == 1:
        try:
            one = (G.from_lib(OID(*arcs).getIndex(OID(*prefix), G.cls_of(kinds[0]), **({'implied': True} if implied else {}))),)
        except OID.BadPrefix:
            one = "prefix"
        except OID.IndexDecodeError:
            one = "index"
        ctx.check_that(one == want, "getIndex", "getIndex differs", oid=arcs, prefix=prefix, types=kinds, got=one, want=want)
        if kinds[0] == "int" and not implied and not isinstance(want, str):
            ctx.check_that(OID(*arcs).getIndex(OID(*prefix)).value == want[0][1], "getIndex", "getIndex without a type differs", oid=arcs)

def indexes(ctx, rng, i):
    for _ in range(40):
        prefix = G.oid(rng, 2, 20)
        kinds = [rng.choice(KINDS) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
        vals = []
        for k in kinds:
            if k in R.RANGE:
                vals.append((k, G.integer(rng, 0, min(R.RANGE[k][1], 2**32 - 1))))
            elif k == "oid":
                vals.append((k, G.oid(rng, 0, 12)))
            else:
                vals.append(G.value(rng, [k], 30))
        implied = rng.random() < .35
        shared = len(vals) > 1 and rng.random() < .25
        if shared:                    # the same object for several fields
            for j in range(len(vals)):
                if rng.random() < .6:
                    vals[j] = vals[-1]
            ctx.count("shared-objects")
        arcs = prefix + tuple(a for j, v in enumerate(vals) for a in asoid(v, implied and j == len(vals) - 1))
        objs = [G.to_lib(v) for v in vals]
        if shared:
            objs = [objs[-1] if v is vals[-1] else o for v, o in zip(vals, objs)]
        if not valid(arcs):
            refused(ctx, "an index past the limits", lambda: OID(*prefix).withIndex(*objs, implied=implied), arcs=arcs)
            continue
        built = OID(*prefix).withIndex(*objs, **({'implied': True} if implied else {}))
        ctx.check_that(tuple(built) == arcs, "withIndex", "withIndex builds another OID", values=vals, implied=implied, got=str(built), want=arcs)
        back = built.decodeIndex(OID(*prefix), *[type(o) for o in objs], implied=implied)
        ctx.check_that(tuple(back) == tuple(objs) and [G.from_lib(b) for b in back] == vals, "index-roundtrip",
                       "decoding an index does not give back its values", values=vals, implied=implied, got=[repr(b) for b in back])
        ctx.count("index-roundtrips")
        compare(ctx, arcs, len(prefix), kinds, implied)
        # near misses: truncated, extended, altered, other types, other prefix
        for k in range(len(prefix), len(arcs)):
            compare(ctx, arcs[:k], len(prefix), kinds, implied)
        if len(arcs) < 128:
            compare(ctx, arcs + (G.arc(rng),), len(prefix), kinds, implied)
        for _ in range(4):
            if len(arcs) > len(prefix):
                k = rng.randrange(len(prefix), len(arcs))
                mut = arcs[:k] + (rng.choice([0, 1, 4, 127, 128, 255, 256, 2**31 - 1, 2**31, 2**32 - 1, G.arc(rng)]),) + arcs[k + 1:]
                if valid(mut):
                    compare(ctx, mut, len(prefix), kinds, implied)
        compare(ctx, arcs, len(prefix), [rng.choice(KINDS) for _ in kinds], implied)
        compare(ctx, arcs, len(prefix), kinds, not implied)
        compare(ctx, arcs, 0, kinds, implied, prefix=related(rng, prefix))
        compare(ctx, prefix[:-1], 0, kinds, implied, prefix=prefix)
    ctx.sample(dict(oid=str(built)[:200], types=kinds, implied=implied))

GROUPS = [Group("limits", limits, 2, 2), Group("relations", relations, 900, 20000), Group("indexes", indexes, 700, 20000)]
