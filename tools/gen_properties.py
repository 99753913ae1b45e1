"""Writes properties.jsonl (kept as a script so that the texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Encoding is standard BER, and decoding inverts it",
 "Every value of the SMI types (OIDs of at least two arcs), every variable binding, PDU and v1/v2c/v3 message (with its security parameters) that can be built through the API encodes to exactly the definite-length, minimal BER that the SNMP standards prescribe for it. Decoding those bytes, alone or followed by other data, gives back an equal value and exactly the data that followed.",
 ["inputs"], "all constructible values: integers over their whole range, strings of 0..65535 bytes, OIDs of 2 to 128 arcs, nested PDUs and messages",
 "The unit tests compare a few dozen hand-written encodings; boundary lengths (127/128, 255/256, 65535), sign boundaries, first-arc combinations and multi-byte arcs are only sampled.",
 ["snmp/ber.py","snmp/asn1.py","snmp/smi.py","snmp/pdu.py","snmp/message/core.py","snmp/message/v3.py","snmp/security/usm/parameters.py"],
 [("tag, length and value encoders","snmp/ber.py encode, encode_length, Tag.encode"),("serialize/deserialize pairs","snmp/asn1.py, snmp/smi.py, snmp/pdu.py")],
 ["return values of encode() and decode() of the public types"])

prop("C02", "Decoding any bytes yields the encoded value or a clean rejection",
 "Decoding an arbitrary byte string as any SMI type, variable binding, PDU or message either returns a value identical to what an independent BER reader finds in those bytes, within the range its type allows, or raises the library's incoming-message error, and never any other exception. A truncated encoding, a length that overruns its container, trailing bytes, a wrong tag or an out-of-range value is always rejected.",
 ["inputs"], "all byte strings: valid encodings, every truncation and single-byte corruption of them, grammar-based and random garbage",
 "Tests try single malformed examples per branch; the input space of a network-facing decoder is unbounded.",
 ["snmp/ber.py","snmp/asn1.py","snmp/smi.py","snmp/pdu.py","snmp/message/core.py","snmp/message/v3.py","snmp/message/version.py","snmp/security/usm/parameters.py","snmp/utils.py"],
 [("bounds checks in decode","snmp/ber.py decode, decode_length, Tag.decode"),("range checks","snmp/smi.py BoundedInteger.construct, OctetString.check"),("PDU field checks","snmp/pdu.py deserialize")],
 ["return values and exceptions of decode()"])

prop("C03", "OIDs behave like their dotted form, and index fields round-trip",
 "Parsing and printing an OID are inverse, and extension, prefix tests, ordering, equality, hashing and slicing agree with the sequence of its sub-identifiers; what lies outside the limits (128 arcs of 32 bits, first arc below 3, second below 40) is refused with ValueError. For every prefix and every tuple of index values, decoding the index of the OID built from them returns equal values; an OID that is no such encoding is refused with the documented prefix or index error, and nothing else is raised.",
 ["inputs"], "all prefixes, index tuples of every index type with and without an implied last field, and mutated sub-identifier sequences",
 "Tests decode a handful of fixed indexes; truncated fields, octets above 255, nested lengths and type combinations are not covered.",
 ["snmp/asn1.py","snmp/smi.py"],
 [("index encoding","snmp/asn1.py withIndex and the asOID methods"),("index decoding","snmp/asn1.py decodeIndex and the fromOID methods")],
 ["OID.parse, str, extend, withIndex, decodeIndex, getIndex"])

prop("C04", "A byte view behaves exactly like the bytes slice it stands for",
 "For every byte string and every chain of sub-range, split and advance operations on a view of it, length, truth value, iteration, equality, indexing and slicing give what the same operations on the corresponding bytes slice give, including out-of-range, negative and crossed bounds. Replacing a view's content yields the original string with exactly that range substituted.",
 ["inputs","programs"], "all byte strings, bounds of either sign in and out of range, and compositions of view operations",
 "Tests check selected indexes on one short string.",
 ["snmp/utils.py"],
 [("index translation and clamping","snmp/utils.py subbytes.translate")],
 ["subbytes methods"])

prop("C05", "Message and request identifiers do not repeat within a period",
 "A generator of n-bit identifiers yields every n-bit integer of its signed or unsigned range exactly once per period of 2^n, with zero last. Consequently the identifiers of all simultaneously outstanding requests of an engine and protocol version are distinct, non-zero and inside the protocol's range (31-bit non-negative message IDs for v3, 32-bit signed request IDs).",
 ["inputs","histories","schedules"], "all widths and start states of the generator; all histories of requests issued and completed from any number of managers and threads",
 "A test samples one generator run; collisions with long-lived outstanding requests and wrap-around need long histories.",
 ["snmp/utils.py","snmp/message/v1.py","snmp/message/v2c.py","snmp/message/v3.py","snmp/manager/v3.py"],
 [("odd step modulo a power of two","snmp/utils.py NumberGenerator"),("allocation under a lock, skipping zero and outstanding IDs","snmp/message/*.py cache()")],
 ["identifiers in datagrams leaving the engine"],
 [("outstanding","ID to request handle","snmp/message/v1.py, v2c.py, v3.py")])

prop("C06", "A response completes only the request it answers",
 "Whatever datagrams arrive (lost, duplicated, reordered, delayed past completion, or made up from other identifiers, communities, users, engines, contexts or protocol versions), a request on any manager returns only the bindings or error of a response that carries its own identifiers and credentials and was sent in answer to that very request. No other request, thread or manager ever receives that response.",
 ["schedules","fault_sequences","histories"], "any number of concurrent requests over managers, versions and threads; any network behaviour; any mismatched response",
 "The tests push one hand-made response at a time into a single manager; cross-talk needs many requests, late and duplicated packets and forgeries in one history.",
 ["snmp/manager/v1.py","snmp/manager/v2c.py","snmp/manager/v3.py","snmp/message/v1.py","snmp/message/v2c.py","snmp/message/v3.py","snmp/dispatcher.py"],
 [("outstanding table and field comparison","prepareDataElements in snmp/message/*.py"),("per-request handle and event","snmp/manager/*.py")],
 ["datagrams on both sides, values returned by wait()"],
 [("outstanding","ID to request handle","snmp/message/*.py")])

prop("C07", "Every request completes in time, with a documented outcome",
 "Waiting for a request always ends: with its bindings, the agent's error, or a report, as soon as the matching response is processed, and otherwise with a timeout or an unauthenticated report received meanwhile, when its own timeout has elapsed and not before. A response that arrived in time is never turned into a timeout, and waiting raises nothing else, for any number of threads sharing a manager and any order in which requests are waited for.",
 ["schedules","fault_sequences","histories"], "all timeouts and refresh periods, numbers of requests and waiting threads, response arrival times, losses and report contents",
 "Tests use mocked time with one or two requests; hangs need a response to race an expiry or one waiter to consume another's schedule entry.",
 ["snmp/manager/v1.py","snmp/manager/v2c.py","snmp/manager/v3.py","snmp/dispatcher.py"],
 [("expiry test and event wait loop","Request.wait in snmp/manager/*.py"),("shared refresh heap","refresh() in snmp/manager/*.py"),("first report kept, authenticated report ends the wait","snmp/manager/v3.py processException")],
 ["start and end of wait(), its result, virtual clock"],
 [("active/requests heap","requests by next refresh time","snmp/manager/*.py")])

prop("C08", "Unanswered requests are retransmitted on schedule, and only those",
 "While a request is being waited for and has not been answered, its message goes out again once per refresh period, counted from its first transmission and whatever other requests share the manager, with an unchanged PDU, and never after the timeout. Nothing is sent on its behalf once its result has been returned, and a peer that stays silent receives at most one transmission per period.",
 ["schedules","fault_sequences","configurations"], "all mixes of timeouts, refresh periods, loss patterns and numbers of concurrent requests per manager",
 "Tests check one request with one period; the schedule of several requests with different periods sharing one manager is not examined.",
 ["snmp/manager/v1.py","snmp/manager/v2c.py","snmp/manager/v3.py"],
 [("next refresh arithmetic","Request.refresh, nextRefresh"),("heap order by next refresh","snmp/utils.py ComparableWeakRef")],
 ["departure time and content of each datagram"],
 [("nextRefresh","time of the next retransmission","snmp/manager/*.py")])

prop("C09", "Finished and abandoned requests leave nothing behind",
 "Once a request has completed, failed or timed out, or has been dropped, the engine keeps no outstanding identifier or engine registration for it, and once its timeout has passed and its manager has waited for another request, no object either, so state does not grow with the number of requests made. After shutdown, or after leaving the context manager, the listening thread has ended and every descriptor is closed, also when shutdown is called twice or requests are still outstanding.",
 ["histories","schedules","fault_sequences"], "all sequences of successful, failing, timed-out, late-answered and abandoned requests; managers created and discarded; shutdown at any point",
 "Leaks are invisible to tests that inspect one result; they show only as growth over many operations and in rare interleavings of completion and retransmission.",
 ["snmp/manager/v1.py","snmp/manager/v2c.py","snmp/manager/v3.py","snmp/message/v1.py","snmp/message/v2c.py","snmp/message/v3.py","snmp/security/usm/users.py","snmp/engine.py","snmp/dispatcher.py","snmp/transport/posix/udp.py","snmp/transport/generic/udp.py"],
 [("close callbacks remove cache entries","Request.close, RequestMessage.close, uncache"),("weak references to handles","CacheEntry, ComparableWeakRef"),("reference-counted engine registrations","snmp/security/usm/users.py assign/release"),("stop message, join, close","snmp/dispatcher.py shutdown")],
 ["live library objects, thread list, open descriptors"])

prop("C10", "Outgoing v3 messages carry exactly the protection requested",
 "Every v3 request message that leaves at a level with authentication names the user and engine, declares that level, and carries a digest that verifies over the whole message under the user's key localized to that engine, with the engine's current boots and time; at authPriv the scoped PDU leaves only as ciphertext that decrypts to it. No message ever leaves with less protection than the request asked for, except the discovery probe, which carries no user name, no variable binding and no credentials; a level that the user cannot support is refused and nothing but that probe is sent.",
 ["inputs","configurations","histories"], "all auth and privacy protocols, users, engine IDs, message sizes and contents, retransmissions, resynchronizations and rediscoveries",
 "Tests verify a couple of recorded messages; the digest position, key choice and level must be right for every message of every exchange.",
 ["snmp/security/usm/implementation.py","snmp/security/usm/auth.py","snmp/security/usm/credentials.py","snmp/message/v3.py","snmp/manager/v3.py"],
 [("flags from the requested level","snmp/message/v3.py prepareOutgoingMessage"),("encrypt, pack, sign in place","snmp/security/usm/implementation.py prepareOutgoing"),("discovery probe","snmp/manager/v3.py reallySend")],
 ["datagrams leaving the engine, checked by an independent USM implementation"])

prop("C11", "Only authentic v3 messages affect a secured request",
 "A request made with authentication returns data or an error only from a message whose digest verifies under that user's key for that engine, at no lower level than requested, from the engine it was sent to and in its context; at authPriv the PDU must also have come encrypted. Altering any byte of the message, removing or weakening its protection, or using another user, key or engine makes it be ignored, and an unauthenticated report never ends such a request before its timeout.",
 ["inputs","fault_sequences"], "all single and multiple byte alterations of genuine responses, all downgraded, re-signed, truncated-digest, replayed and cross-user or cross-engine forgeries, at any point of the exchange",
 "Tests flip one byte of a sample message; an attacker chooses the byte, the field, the moment and the combination.",
 ["snmp/security/usm/implementation.py","snmp/security/usm/parameters.py","snmp/security/usm/auth.py","snmp/message/v3.py","snmp/manager/v3.py"],
 [("digest recomputed over the message with the field zeroed","processIncoming"),("level, engine, user and context compared with the request","snmp/message/v3.py prepareDataElements"),("report handling by authentication flag","snmp/manager/v3.py processException")],
 ["result of wait() under an active attacker"])

prop("C12", "Timeliness follows the USM time window rules",
 "For every remote engine, an authenticated message is accepted exactly when its boots and time satisfy the RFC 3414 rule for a non-authoritative engine: boots not below the known value and not at the maximum, and time no more than 150 seconds behind the local estimate. The estimate only moves forward through authenticated messages and advances with the local clock between them; unauthenticated values never change it once an authenticated message has been seen, and the values sent in requests are this estimate, always within 0..2147483647.",
 ["histories","inputs"], "all sequences of authenticated and unauthenticated messages with any boots and time values, from any number of engines, at any times",
 "Tests step through short scripted sequences; boundary values around the window, boots maximum and interleaved engines form long histories.",
 ["snmp/security/usm/timekeeper.py","snmp/security/usm/implementation.py","snmp/security/usm/parameters.py"],
 [("per-engine boots and latest boot time","snmp/security/usm/timekeeper.py EngineTime.update/hint"),("window test","TimeKeeper.updateAndVerify")],
 ["acceptance of incoming messages, boots/time in outgoing ones"],
 [("table","engine ID to boots, boot time, authenticated","snmp/security/usm/timekeeper.py")])

prop("C13", "Discovery and resynchronization succeed in a bounded exchange",
 "Against a conforming agent, a request at any level completes with the agent's answer within a bounded number of message exchanges when no packet is lost, and within its timeout when some are, whether or not the engine ID was given, and although the agent may have rebooted, been idle for any time, or taken on another engine ID. Requests issued while a discovery probe is outstanding are held and all sent as soon as it is answered, none is held afterwards, and an unanswered probe is repeated by retransmission or by the next request. A new request is addressed to the engine ID that was given or last authenticated, not to one that only an unauthenticated message named.",
 ["schedules","fault_sequences","histories"], "all losses and delays of discovery and synchronization messages; reboots and clock jumps between and during requests; any number of concurrent requests at mixed levels and engine IDs given or not",
 "Tests walk through single state transitions with hand-made reports; the combinations of loss, reboot, mixed levels and concurrency are not driven.",
 ["snmp/manager/v3.py","snmp/security/usm/timekeeper.py","snmp/security/usm/users.py"],
 [("discovery state machine","snmp/manager/v3.py State subclasses"),("held requests","unsent queue, poke, onReport"),("time synchronization from reports","snmp/security/usm/timekeeper.py hint")],
 ["results of wait() and datagrams exchanged with a reference agent"],
 [("state","discovery state of a manager","snmp/manager/v3.py")])

prop("C14", "Credentials are those configured, kept apart by namespace",
 "After any sequence of adding users and of registering and releasing engines, the credentials used with an engine are exactly those added for that user name in the namespace the engine is registered under, localized to that engine, whether the user was added before or after; an engine belongs to one namespace at a time, until it has been released as often as it was registered. A conflicting redefinition of a user is refused without changing anything, and default user and default level are the first, or the explicitly chosen, ones.",
 ["histories","inputs"], "all interleavings of user additions (equal, conflicting, default or not), registrations, releases and lookups over several namespaces and engines",
 "Tests perform a few calls each; reference counts and refusals must hold for every order of calls.",
 ["snmp/security/usm/users.py","snmp/security/usm/credentials.py","snmp/security/usm/implementation.py","snmp/engine.py"],
 [("per-namespace configuration, per-engine localized keys, registration count","snmp/security/usm/users.py")],
 ["UserBasedSecurityModule methods; keys used in messages"],
 [("engines","engine ID to namespace, count, keys","snmp/security/usm/users.py")])

prop("C15", "Keys and digests are those of RFC 3414 and RFC 7860",
 "For every supported authentication protocol, secret of any length of at least one byte, engine ID and message, the derived key, the localized key and the truncated digest equal those of an independent implementation of the password-to-key, localization and HMAC algorithms. The digest length is the one defined for the protocol.",
 ["inputs"], "all protocols, secrets (including lengths that do not divide 1048576), engine IDs and messages of any length",
 "Tests use the RFC example secret and one or two messages.",
 ["snmp/security/usm/auth.py","snmp/security/usm/credentials.py"],
 [("password-to-key and HMAC","snmp/security/usm/auth.py")],
 ["computeKey, localizeKey, localize, sign"])

prop("C16", "Privacy follows RFC 3414 and RFC 3826 on every backend",
 "With either cryptography backend, encryption produces exactly the AES-CFB-128 or DES-CBC ciphertext of the (for DES, padded) plaintext under the key and the initialization vector formed from key, boots, time and the returned salt, and decryption returns exactly the plaintext for a ciphertext made by an independent implementation. The backends are interchangeable, and a salt or ciphertext of invalid length is refused with the library's decryption error.",
 ["inputs","configurations"], "all plaintext lengths including 0, all keys, boots and time values, salts of right and wrong length, both backends",
 "Each test encrypts one example per backend; block boundaries, long data and wrong salt lengths are not covered, and one stable failure was already present.",
 ["snmp/security/usm/priv/openssl/__init__.py","snmp/security/usm/priv/openssl/aes.py","snmp/security/usm/priv/openssl/des.py","snmp/security/usm/priv/pycryptodome/aes.py","snmp/security/usm/priv/pycryptodome/des.py","snmp/cffi/openssl.py"],
 [("IV packing","packIV, computeIV"),("EVP calls and output length","snmp/security/usm/priv/openssl/__init__.py"),("cipher modes","snmp/security/usm/priv/pycryptodome/*.py")],
 ["encrypt() and decrypt() of the privacy protocols"])

prop("C17", "An initialization vector is never used twice with a key",
 "While an engine stays registered, successive encryptions for a user never produce the same salt, across engine reboots, clock changes, threads and concurrent requests, until the salt space is exhausted, and so no two messages under a key share an initialization vector. The salt carried in each message is the one its ciphertext was made with.",
 ["histories","schedules"], "all sequences and interleavings of encryptions with a key, from any number of threads, from any starting salt including the wrap-around",
 "Tests compare two consecutive salts in one thread.",
 ["snmp/security/usm/priv/openssl/aes.py","snmp/security/usm/priv/openssl/des.py","snmp/security/usm/priv/pycryptodome/aes.py","snmp/security/usm/priv/pycryptodome/des.py","snmp/security/usm/implementation.py"],
 [("salt counter with a random start","encrypt()")],
 ["privacy parameters of outgoing messages, salts returned by encrypt()"],
 [("salt","last salt used","priv/*/aes.py, des.py")])

prop("C18", "The native encryption code is memory safe",
 "No sequence of encryptions and decryptions, with keys, plaintexts, ciphertexts and salts of any content and length that the API accepts, makes the native code read or write outside the buffers it was given, use freed memory, or read uninitialized memory into its result. Every native context it allocates is released, also when an operation fails.",
 ["inputs","histories"], "all data lengths (each residue of the block size, empty and large), salts of any length, repeated and failing operations",
 "An out-of-bounds access of a few bytes or a leaked context passes any functional test.",
 ["snmp/security/usm/priv/openssl/__init__.py","snmp/security/usm/priv/openssl/aes.py","snmp/security/usm/priv/openssl/des.py","snmp/cffi/openssl.py"],
 [("output buffer size","Envelope.allocateOutputBuffer"),("context manager","EnvelopeContext")],
 ["sanitizer reports on the calls into libcrypto, allocation counts"])

prop("C19", "No datagram can disturb the engine",
 "Whatever bytes arrive from any address, the listening thread keeps running, nothing is raised into the application, and every genuine response that arrives afterwards is still delivered to its request. A receive error or spurious wake-up on a socket does not stop delivery either, and messages that are malformed, of another version, or not responses have no effect on any request.",
 ["inputs","fault_sequences","schedules"], "all datagrams: empty, random, truncated, mutated genuine traffic, valid messages of every type, version and security level, before, between and after genuine traffic; receive errors at any point",
 "Tests deliver single well-formed messages; robustness is a statement about every possible datagram.",
 ["snmp/dispatcher.py","snmp/message/version.py","snmp/message/v1.py","snmp/message/v2c.py","snmp/message/v3.py","snmp/manager/v3.py","snmp/transport/posix/udp.py","snmp/transport/generic/udp.py","snmp/security/usm/implementation.py"],
 [("catch-all around message processing","snmp/dispatcher.py hear"),("receive loop","listen() in snmp/transport/*/udp.py")],
 ["liveness of the listening thread, results of concurrent requests"])

prop("C20", "Each received datagram reaches the engine once, unchanged",
 "While a multiplexor listens, every datagram received on a registered socket is handed to the listener exactly once, whole, with the sender's address and the socket it came in on; no socket starves while others are busy, over IPv4 and IPv6 and on every multiplexor implementation. Stopping makes listening return promptly without losing datagrams still queued, and listening can be resumed with further sockets registered, any number of times.",
 ["schedules","fault_sequences","histories"], "all numbers of sockets, datagram sizes up to the receive size, arrival orders, and stop/register/listen sequences",
 "Tests send one datagram; duplication, misattribution and stop/restart races need traffic on many sockets at once.",
 ["snmp/transport/posix/udp.py","snmp/transport/generic/udp.py","snmp/transport/udp.py","snmp/transport/__init__.py","snmp/dispatcher.py"],
 [("poll/select loop and stop channel","snmp/transport/posix/udp.py, generic/udp.py"),("restart on connect","snmp/dispatcher.py connectTransport")],
 ["calls of the listener; bytes on loopback sockets"])

prop("C21", "Requests go where and as the manager was configured",
 "A manager sends every message from its local address to its agent's address, with the agent port defaulting to 161 and the version, community, user and level given or defaulted on the engine; managers with equal local address and domain share one transport, others do not. The message size that an engine was configured with is announced in its SNMPv3 messages, and responses up to that size are received whole. Addresses, versions, domains, security models and levels that are not supported are refused with ValueError (or TypeError for a non-string host) before anything is sent.",
 ["configurations","inputs"], "all combinations of engine defaults and manager arguments, address forms and invalid values",
 "Tests cover single combinations; the defaulting rules form a product space.",
 ["snmp/engine.py","snmp/transport/udp.py","snmp/transport/__init__.py","snmp/message/version.py"],
 [("defaulting and transport reuse","snmp/engine.py Manager"),("address normalization","snmp/transport/udp.py normalizeAddress")],
 ["socket calls, source and destination of each datagram, fields of the message"])

prop("C22", "Operations reach the agent and results reach the caller faithfully",
 "For each operation and any names and values, the message received by the agent is that operation with exactly those variable bindings in order, and its own non-repeaters and max-repetitions; the caller gets back exactly the bindings of the response, in order, with their SMI types and values, including the exception values. An error status is raised as an error whose status and cause (the indexed binding of the request, the request itself for index 0, or the bare index if there is no such binding) are those the agent reported.",
 ["inputs","configurations"], "all operations, versions, security levels, binding lists of any length and value type, error statuses and indexes",
 "Tests check one binding per operation; the mapping must hold for all values and all error indexes.",
 ["snmp/manager/v1.py","snmp/manager/v2c.py","snmp/manager/v3.py","snmp/pdu.py","snmp/smi.py"],
 [("PDU construction","get, getNext, getBulk, set in snmp/manager/*.py"),("error mapping","snmp/pdu.py ErrorResponse")],
 ["datagrams decoded by a reference agent, results of wait()"])

prop("C23", "Concurrent use of an engine neither deadlocks nor corrupts state",
 "Any number of threads may issue, wait for and drop requests on shared managers while one thread uses the engine itself, creating managers and adding users, the listening thread delivers responses and reports, and the garbage collector releases requests and managers anywhere; under every interleaving each operation finishes, raises only documented errors, and yields what it would yield alone. No interleaving deadlocks, loses a wake-up, drops or duplicates a request's schedule, or reuses an identifier or salt that is in use.",
 ["schedules"], "all interleavings, at line granularity, of user threads, listener thread and clock",
 "The tests are single-threaded; races between completion, expiry, retransmission and discovery appear only under particular schedules.",
 ["snmp/manager/v1.py","snmp/manager/v2c.py","snmp/manager/v3.py","snmp/message/v1.py","snmp/message/v2c.py","snmp/message/v3.py","snmp/dispatcher.py","snmp/security/usm/implementation.py","snmp/engine.py"],
 [("manager lock, active lock, cache locks, USM locks","snmp/manager/*.py, snmp/message/*.py, snmp/security/usm/implementation.py")],
 ["outcomes of all calls, lock waits, virtual clock under a controlled scheduler"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
