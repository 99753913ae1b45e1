"""What checks see of the framework: Context (one per worker) and Group."""
import hashlib, os, random, time, traceback

class Group:
    """fn(ctx, rng, index) runs one case; quick/thorough are numbers of cases."""
    def __init__(self, name, fn, quick, thorough):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough

class CaseFailed(Exception):
    """Raised by ctx.fail(): the property is violated in this case."""
    def __init__(self, key, message, detail):
        super().__init__(message)
        self.key, self.message, self.detail = key, message, detail

class Context:
    MAXV = int(os.environ.get("VERIF_MAXV") or 4)
    def __init__(self, check, seed, tier, stage):
        self.check, self.seed, self.tier, self.stage = check, seed, tier, stage
        self.counters, self.samples, self.hashes = {}, {}, set()
        self.violations, self.errors = [], []
        self.evaluations = 0
        self.group = self.index = None
        self.maxima = {}

    # -- measurement
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n
    def maximum(self, name, value):
        if value > self.maxima.get(name, value - 1):
            self.maxima[name] = value
    def distinct(self, *key):
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        self.hashes.add(int.from_bytes(h, "big"))
    def sample(self, value, cap=2):
        lst = self.samples.setdefault(self.group, [])
        if len(lst) < cap:
            lst.append(str(value)[:600])

    # -- verdicts
    def fail(self, key, message, /, **detail):
        raise CaseFailed(key, message, detail)
    def check_that(self, cond, key, message, /, **detail):
        if not cond:
            raise CaseFailed(key, message, detail)
    def record(self, key, message, detail):
        self.violations.append(dict(key=key, message=message, group=self.group, index=self.index,
                                    seed=self.seed, tier=self.tier,
                                    detail={k: repr(v)[:int(os.environ.get("VERIF_DETAIL", 4000))] for k, v in detail.items()}))
    def full(self):
        return len(self.violations) >= self.MAXV

    def run_case(self, group, index):
        self.group, self.index = group.name, index
        rng = random.Random(f"{self.seed}/{self.check}/{group.name}/{index}")
        random.seed(rng.getrandbits(64))
        self.count("cases:" + group.name)
        self.evaluations += 1
        try:
            group.fn(self, rng, index)
        except CaseFailed as f:
            self.record(f.key, f.message, f.detail)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            last = tb[-1].filename if tb else ""
            inlib = not str(e).startswith("harness: ") and any(self.stage and fr.filename.startswith(self.stage) for fr in tb)
            text = "".join(traceback.format_exception(e))[-3000:]
            if inlib:
                self.record("unexpected-exception:" + type(e).__name__,
                            f"unexpected {type(e).__name__} from the library: {e}", dict(traceback=text))
            else:
                self.errors.append(f"{group.name}[{index}]: {text}")

    def result(self):
        return dict(counters=self.counters, samples=self.samples, hashes=sorted(self.hashes),
                    violations=self.violations, errors=self.errors[:5], maxima=self.maxima,
                    evaluations=self.evaluations)
