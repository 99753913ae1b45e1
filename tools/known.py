"""Writes known_findings.json: FINDINGS by hand, the repairs from the fix: commits of /repo."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = []   # dict(property, key, what)
FIXED = [  # property, start of the subject, what failed
 ("C01", "combine the first two", "OIDs whose second arc is 40 or more, or first arc 2, were encoded with |, not +"),
 ("C02", "reject an OID whose last", "an OID ending in an unfinished sub-identifier after 0x80 was accepted"),
 ("C03", "decode IpAddress, OID and string", "index fields did not decode as encoded; IpAddress and octets above 255 raised other errors"),
 ("C04", "give subbytes the semantics", "slices with stop below start or a negative step did not agree with bytes"),
 ("C12", "keep the engine boots", "boots or time outside 0..2^31-1 were accepted or sent"),
 ("C16", "return exactly the bytes", "the OpenSSL backend returned its whole output buffer, not what was written"),
 ("C16", "check the DES salt length", "DES accepted salts of any length and padded the ciphertext it decrypts"),
 ("C08", "schedule a v1 or v2c request only after", "a v1/v2c request could be refreshed before it was sent"),
 ("C07", "do not wait forever or fail", "wait() blocked for ever or raised TypeError/IndexError when the heap emptied"),
 ("C07", "return a v1 or v2c response that arrived", "a v1/v2c response that arrived before wait() was turned into a timeout"),
 ("C19", "keep listening when a socket", "BlockingIOError/ConnectionError in recvfrom ended the listening thread"),
 ("C21", "report an unsupported transport", "an unsupported domain raised KeyError"),
 ("C06", "discard a v3 response that carries", "a v3 response with another request-id completed the request"),
 ("C09", "release the message ID of a v3", "the message ID of a request that closed while being sent stayed reserved"),
 ("C09", "close the pipe of a UDP", "the multiplexor closed its pipe descriptors twice"),
 ("C08", "move the next refresh past", "a refresh exactly on the due moment was sent twice"),
 ("C07", "stop waiting for a held v3", "a held v3 request waited for longer than its timeout"),
 ("C08", "do not send v3 requests that are answered", "answered or expired held v3 requests were transmitted"),
 ("C07", "stop waiting for a v1 or v2c request at its own", "wait() overran the timeout by up to a period of another request"),
 ("C13", "send held v3 requests once", "held requests stayed held after a response synchronized the manager"),
 ("C07", "report a failure to send a v3", "the failure of one request to be sent was raised into another waiter"),
 ("C05", "generate v3 request IDs one", "concurrent calls could draw equal or out-of-range v3 request IDs"),
 ("C13", "keep the state of a v3 manager", "a timed-out probe reset a manager that had become synchronized, starving held requests"),
 ("C08", "refresh a v3 request on time", "a v3 request that had been held was refreshed late"),
 ("C17", "draw every salt once", "concurrent encryptions with one key could use the same salt"),
 ("C11", "do not end a v3 request for an authenticated report of another", "an authenticated report by another engine of the same user ended a request at once"),
 ("C11", "keep waiting when an unauthenticated report", "an unauthenticated unknownEngineID or notInTimeWindow report with an engine ID of another namespace ended a request with DiscoveryError"),
 ("C13", "let a held v3 request probe", "authenticated requests that were held while an unauthenticated one met another engine ID were not sent until their own period had passed"),
 ("C17", "keep the salt of a user", "adding an equal user again restarted its salt while its engine stayed registered"),
 ("C23", "let a request close while", "a request collected while its thread held a cache or registry lock deadlocked that thread"),
 ("C19", "keep listening after a spurious", "a receive error on the control socket of the portable multiplexor ended the listening thread"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed, used = [], set()
for prop, start, what in FIXED:
    for line in log:
        h, s = line.split(" ", 1)
        if s.startswith("fix: " + start):
            fixed.append(f"fixed: property={prop} {h} {what}")
            used.add(h)
for line in log:
    if " fix: " in line and line.split()[0] not in used:
        print("not described:", line)
json.dump(dict(findings=FINDINGS, fixed=fixed), open(here + "/known_findings.json", "w"), indent=1)
print(len(fixed))
