"""How the runner executes each check (imports nothing of the library)."""
META = {}
META["C01"] = dict(mode="direct", rule="a case builds random and boundary values, encodes, compares with an independent encoder and decodes in 6 ways; distinct = distinct encodings",
                   required={"roundtrips": 20000, "community-messages": 1000, "v3-messages": 1000, "tlvs": 1000, "oid-values": 500},
                   hang_is_violation=True)
META["C02"] = dict(mode="direct", rule="valid encodings truncated everywhere, corrupted byte by byte, mutated as TLV trees, plus garbage; distinct = distinct accepted inputs, each compared with an independent reader",
                   required={"decodes": 100000, "accepted": 3000, "rejected": 30000, "truncations": 20000, "out-of-range": 100},
                   hang_is_violation=True)
META["C03"] = dict(mode="direct", rule="pairs of related OIDs compared with tuples of sub-identifiers; index tuples built, decoded, truncated and altered against an independent reader; distinct = distinct (OID, prefix/other, types)",
                   required={"relations": 20000, "index-roundtrips": 5000, "decoded:value": 10000, "decoded:index": 10000, "decoded:prefix": 3000, "refused": 1000},
                   hang_is_violation=True)
META["C04"] = dict(mode="direct", rule="every (start, stop) and second-level operation on buffers of 0..5 bytes, then random chains; distinct = distinct (buffer size, operation chain)",
                   required={"observations": 100000, "sliced": 100000, "indexed": 50000, "replaced": 500, "chains": 10000},
                   hang_is_violation=True)
META["C15"] = dict(mode="direct", rule="secret lengths around hash blocks, 1 MiB and its divisors plus random ones, for six protocols; distinct = distinct (protocol, secret, engine ID)",
                   required={"keys": 600, "digests": 5000, "credentials": 300, **{"keys:" + p: 80 for p in ("md5", "sha", "sha224", "sha256", "sha384", "sha512")}},
                   hang_is_violation=True)
META["C16"] = dict(mode="direct", rule="every size 0..69 and boundary sizes, random keys, clocks and salts, on both backends; distinct = distinct (protocol, size, key length, boots, time, salt)",
                   variants=[dict(name="native", native=True, shards=4), dict(name="nossl", native=False, shards=4)],
                   required={"encryptions:aes": 1000, "encryptions:des": 1000, "decryptions:aes": 3000, "decryptions:des": 3000, "refused": 3000, "interop": 200,
                             "backend:openssl": 1, "backend:pycryptodome": 1, "messages-in": 1000, "messages-out": 1000},
                   hang_is_violation=True)

SIMRULE = " in virtual time on the real library with a seeded scheduler; distinct = distinct (schedule, datagrams, outcomes) histories"
SIMASSUME = ["threads switch at locks, events, sockets and (in part of the runs) between any two lines, not inside C calls",
             "the simulated network delivers whole datagrams; a reference agent written from the RFCs answers"]
def sim(prop, rule, required, **kw):
    META[prop] = dict(mode="sim", rule=rule + SIMRULE, required=required, hang_is_violation=True, assumptions=SIMASSUME, **kw)
sim("C06", "several managers, agents and threads with loss, duplication, late delivery, replays and near-miss forgeries",
    {"matched": 3000, "matched-errors": 200, "replayed": 1000, "waits": 4000, **{"forged:" + k: 50 for k in ("id", "community", "version", "type", "v3-msgid", "v3-reqid", "v3-context", "v3-contextengine", "v3-engine", "v3-level", "v3-type", "v3-user", "v3-nokey")}})
sim("C07", "threads issue and wait in any order while answers are lost, early, late, refused with reports, or impossible to send; every wait is timed",
    {"waits": 5000, "outcome:timeout": 1000, "outcome:ok": 3000, "authenticated-reports": 50, "unauthenticated-reports": 150, "refused": 200, "beside-refused": 200, "held-served": 200,
     **{"report:" + k: 30 for k in ("user", "digest", "decrypt", "level", "context")}})
sim("C08", "departure times of every transmission compared with each request's own schedule, with silent, late, and selectively answering agents",
    {"transmissions": 8000, "retransmissions": 3000, "retransmissions-due": 2000, "due-moments": 1500, "late-waits": 300, "overdue-sent": 60, "dropped": 300, "probes-due": 500, "sent-at-once": 2000,
     "answered-after:3": 30, "defaults:timeout": 10, "defaults:refreshPeriod": 10, "answered-after:5": 20})
sim("C05", "whole periods of generators of up to 2^17 (thorough 2^21) values; identifiers of all transmissions of many managers and threads, also with generators narrowed to 4 and 5 bits;",
    {"full-periods": 400, "values": 1000000, "message-ids": 3000, "request-ids": 3000, "identified": 8000, "tiny-periods-exhausted": 50, "ranges-seen": 8})
sim("C12", "histories of hints and authenticated messages with boundary boots and times against a model clock, at the time keeper, the security module and the wire;",
    {"estimates": 80000, "accepted": 10000, "rejected": 5000, "older-boots": 2000, "boots-at-maximum": 1000, "outside-window": 2000, "hints": 5000, "forged": 500,
     "held-back:ok": 20, "held-back:timeout": 20, "maximum-refused": 50, "idle-estimates": 100, "registered-again": 1000})
sim("C14", "random histories of adding users, registering and releasing engines, judged through messages sealed and opened with independent USM code;",
    {"added": 2000, "added-again": 400, "added-after-registration": 400, "refused:clash": 600, "refused:level": 200, "registered": 1000, "registration-refused": 500, "released": 300,
     "outgoing-verified": 1500, "incoming-verified": 1500, "incoming-refused": 2000, "defaults": 10000, "served-on-wire": 500, "denied-on-wire": 30})
sim("C17", "salts of long sequences, of threads preempted between lines, of redefined users and rebooting engines, from counters near the wrap-around, on both backends;",
    {"salts": 20000, "concurrent": 5000, "messages": 5000, "redefinitions": 500, "registrations": 500, "ciphertexts-on-wire": 3000, "wrapped": 30, "long-runs": 16, "boundaries": 400, "spans": 4},
    variants=[dict(name="native", native=True, shards=4), dict(name="nossl", native=False, shards=4)])
sim("C22", "random operations, names, values and argument forms in every version and level, compared at the agent and at the caller with answers of every status;",
    {"requests-compared": 5000, "results-compared": 2000, "errors-compared": 2000, "cause:request": 300, "cause:binding": 300, "cause:index": 100, "implicit-wait": 500,
     **{"value:" + k: 100 for k in ("int", "str", "null", "oid", "ip", "c32", "g32", "tt", "opaque", "c64", "nso", "nsi", "eomv")}, **{"status:%d" % k: 20 for k in range(1, 19)}})
sim("C10", "every datagram of worlds with mixed users, levels and namespaces, reboots, idle times, forged reports and refused levels is opened with independent USM code;",
    {"messages:0": 500, "messages:1": 1500, "messages:2": 3000, "probes": 1000, "clocks": 2000, "refused": 300, "forged-reports": 2000, "searched-for-plaintext": 3000, "confidential-requests": 2000})
sim("C11", "answers altered in every byte, forged with wrong keys, engines, users, levels and digests, and reports nobody authenticated, before or instead of genuine answers;",
    {"secured-requests": 3000, "genuine": 800, "unaffected": 800, "only-altered": 200, "altered-in-turn": 10000, "altered:bit": 2000, "report:unauthenticated": 2000, "report:wrong-key": 300, "report:other-engine": 200,
     **{"forged:" + k: 50 for k in ("noauth", "privonly", "authonly", "empty", "zero", "short", "long", "protocol", "unlocalized", "otherengine", "otheruser", "wrongkey", "wrongprivkey",
         "claimuser", "model", "context", "contextengine", "engineid", "usmengine", "cleartext")}})
sim("C13", "agents that reboot, idle, drift, swap addresses or change engine ID between requests, with no retransmission to help, with bounded loss, and with held requests;",
    {"requests-completed": 3000, "discovered": 1000, "completed-despite-loss": 1500, "packets-lost": 1000, "held": 500, "unheld": 200, "held-for-unsecured": 30, "addressed": 2000, "misnamed": 30, "exchanges:1": 500, "exchanges:2": 200, "exchanges:3": 50,
     **{"change:" + k: 100 for k in ("boot", "boots", "engine", "swap", "ahead", "drift", "idle")}, **{"level:%d" % k: 500 for k in range(3)},
     **{"unanswered:" + k: 50 for k in ("retransmission", "next", "dropped")}})
META["C20"] = dict(mode="direct", kind="real", rule="real loopback sockets: bursts, queued backlogs, perpetual floods, receive errors, repeated stops and registrations on both multiplexors and families; distinct = distinct (multiplexor, family, sequence of sizes heard)",
                   required={"datagrams": 10000, "compared": 10000, "mux:posix": 100, "mux:generic": 100, "ipv4": 100, "stops": 500, "stopped-with-backlog": 50, "queued-while-stopped": 300, "registered-later": 100,
                             "floods": 50, "served-during-flood": 200, "receive-errors": 200, "dispatchers": 30, "closed": 500},
                   hang_is_violation=True, assumptions=["Linux loopback delivers every datagram that fits the receive buffer"])
sim("C21", "engines and managers of random configurations, supported or not, whose every datagram is compared with a model of the configuration,",
    {"messages-compared": 5000, "requests-configured": 4000, "transports": 1500, "transports-shared": 500, "addresses": 5000, "big-responses": 50, "waits": 500, "handles": 500,
     **{"managers:v%d" % k: 300 for k in (0, 1, 3)}, "refused:level": 50, "refused:no-user": 20, "engine-ids": 30,
     **{"refused-default:" + k: 5 for k in ("version", "domain", "model", "twice", "foreign", "empty-namespace")},
     **{"refused:" + k: 20 for k in ("host", "type", "port", "zero-port", "family", "version", "domain", "local-host", "local-type", "local-port", "local-family", "model", "user", "namespace")}})
REAL = lambda *groups: dict(name="real", mode="direct", native=True, shards=4, groups=list(groups))
sim("C19", "garbage, broken BER, mutations of genuine messages, unacceptable messages with genuine identifiers, receive errors and spurious wake-ups while requests are outstanding,",
    {"hostile": 20000, "hostile:garbage": 10000, "hostile:mutation": 10000, "hostile:forged": 5000, "hostile:near": 2000, "hostile:echo": 200, "hostile:control": 500, "receive-errors": 500, "spurious-wake-ups": 500, "served-afterwards": 1000,
     "real-hostile": 5000, "real-served": 1000},
    variants=[dict(name="sim", native=True, shards=6, groups=["storm", "direct"]), dict(name="generic", native=True, shards=2, groups=["storm"], env=dict(VERIF_OSNAME="generic-os")), REAL("real")])
sim("C09", "requests ended in every way (answered, refused, timed out, dropped before, during and after sending, held back, impossible to send), a census of reachable state, weak references, narrowed identifiers, descriptors and threads,",
    {"requests-ended": 10000, "objects-gone": 5000, "censuses": 400, "identifiers-reused": 150, "registrations-gone": 600, "engines-named": 300, "namespaces-taken-over": 400, "shutdowns": 1000, "real-shutdowns": 50,
     **{"fate:" + k: 200 for k in ("ok", "error", "timeout", "dropped", "dropped-late", "held-dropped", "refused", "send-error", "report", "kept")},
     **{"shutdown:" + k: 40 for k in ("plain", "twice", "with", "with-raise", "outstanding", "waiting", "empty", "listening")}},
    variants=[dict(name="sim", native=True, shards=7, groups=["growth", "identifiers", "registrations", "shutdown"]), dict(name="generic", native=True, shards=1, groups=["shutdown"], env=dict(VERIF_OSNAME="generic-os")), REAL("real")])
sim("C23", "threads preempted between lines and instructions on shared managers, during discovery and resynchronization, with managers and users added and garbage collected meanwhile; real threads that switch constantly,",
    {"operations": 6000, "salts": 500, "message-ids": 3000, "request-ids": 2000, "managers-meanwhile": 200, "users-meanwhile": 150, "collected": 1500, "released": 200, "draws": 3000, "real-operations": 1000, "cycles": 200, "contended": 1000,
     **{"settling:" + k: 30 for k in ("fresh", "known", "reboot", "engine", "late")}},
    variants=[dict(name="sim", native=True, shards=8, groups=["crowd", "draws", "settling", "collect"]), REAL("real")])
META["C18"] = dict(mode="direct", kind="native", rule="operations of every length in the AddressSanitizer and UBSan build with a layer that checks every buffer and context handed to libcrypto and makes calls fail, and the same operations under memcheck; distinct = distinct (protocol, lengths, operation sequences)",
                   required={"encryptions": 2000, "decryptions": 2500, "refused": 1000, "operations": 5000, "contexts": 10000, "concurrent": 3000, "keys-refused": 100, "messages-refused": 1000, "messages-accepted": 300, "memcheck-cases": 100,
                             **{"failed:" + k: 200 for k in ("new", "init", "update")}},
                   variants=[dict(name="asan", prepare="native", envfn=True, shards=4, groups=["lengths", "keys", "histories", "threads", "messages"]),
                             dict(name="memcheck", native=True, shards=4, groups=["memcheck"], env=dict(PYTHONMALLOC="malloc"), wrap=["valgrind", "-q", "--num-callers=25", "--error-limit=no"])],
                   crash_is_violation=True, logscan="native", assumptions=["libcrypto itself accesses no more of a buffer than its documentation says"])
