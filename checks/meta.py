"""What each check runs. Imported by the orchestrator (plain python3)."""

LEVEL_NOTE = "Holds on the executions observed; the oracle is independent of the code under test."

PROPS: dict[str, dict] = {}


def prop(pid, **kw):
    kw.setdefault("variants", ["plain"])
    PROPS[pid] = kw


prop(
    "C02",
    rule="responses are generated from a value model and built by an independent BER encoder, then read through the real API; a case is distinct by (operation, configuration, number of varbinds, value kinds and magnitude classes)",
    quick_s=40,
)
prop(
    "C01",
    rule="datagrams are grown from valid replies (TLV-tree and byte mutations, hostile values, names, USM fields, re-encrypted and re-signed), plus random and exhaustive short ones; distinct by (configuration, operation, mutation class, size class, leading octets)",
    variants=["plain", "det", "asan"],
    quick_s=50,
    share={"det": 0.4, "asan": 0.6},
    workers={"det": 4},
    natives=[
        {"variant": "plain", "bin": "r_decode", "mode": "garbage", "n": 1_000_000, "thorough": 1_000_000_000, "share": 0.2},
        {"variant": "asan", "bin": "r_decode", "mode": "garbage", "n": 300_000, "thorough": 200_000_000, "share": 0.2},
        {"variant": "cov", "bin": "r_decode", "mode": "grow", "n": 120_000, "thorough": 2_000_000_000, "share": 0.2},
    ],
)
prop(
    "C03",
    rule="random histories of requests, replies, garbage and refused requests over 1..4 concurrently open sessions of any version/security (and 2..6 threads sharing the buffer pool); every datagram on the wire is judged; distinct by (configuration, operation, number of OIDs, datagram size, max-repetitions class)",
    quick_s=50,
)
prop(
    "C04",
    rule="scripts of requests, superseding requests, refused requests, and datagrams (genuine, duplicated, stale, rewritten request-id/message id/community/user/engine id, malformed, of another version), interpreted by a queue model; distinct by (configuration, script) or (configuration, operation, mismatch class)",
    quick_s=50,
    confirm=("sync", "async"),
)
prop(
    "C05",
    rule="RFC 3416 agent over generated MIBs (entries inside, at, before and after the base; every sub-identifier width; look-alike siblings) plus every subset of an 8-entry universe from 7 bases; distinct by (configuration, API, max-repetitions, agent cap, sizes)",
    quick_s=60,
)
prop(
    "C06",
    rule="hostile agents: every reply sequence over a 13-symbol universe (bulk: 0..3 varbinds; getnext: three replies) and random ones mixing forward, repeated, backward, out-of-subtree names and no-data values; each request/reply/yield is fed to an online walk specification; distinct by (configuration, reply sequence)",
    quick_s=60,
)
prop(
    "C07",
    rule="every combination of 0..3 varbinds x {data, falsy data, NULL, noSuchObject, noSuchInstance, endOfMibView} x 9 configurations x get/get_many, random longer replies (repeated OIDs, error-status set), v3 Reports in clear and authenticated; distinct by (client, operation, configuration, kinds and leading octets of the values)",
    quick_s=60,
)
prop(
    "C08",
    rule="grammar- and mutation-generated OID texts (all pairs of leading arcs 0..261, every sub-identifier within 512 of an encoding boundary, leading zeros, signs, blanks, foreign digits, overflow), through every entry of the API; raw octets at the agent against big-integer X.690, and the echo; distinct by (text, entry)",
    quick_s=60,
)
prop(
    "C09",
    rule="random v3 histories (discovery, key installations, requests of every type, refused requests, replies, reports, noise), a sweep of message sizes and of the widths of everything before the field, sync and async sessions; every emitted datagram is re-MACed with hashlib; distinct by (configuration, key type, field offset, datagram size, entry)",
    quick_s=60,
)
prop(
    "C10",
    rule="otherwise-matching replies forged in 25 ways of the MAC (each bit, truncated and extended fields, other keys and digests, replayed, computed over other octets) x 4 flags x clear/encrypted x 6 configurations x 5 operations, tampered content, bursts around the genuine reply, inside of random histories and against sessions; distinct by (configuration, operation, MAC class, flags, body, entry)",
    quick_s=60,
)
prop(
    "C11",
    rule="random v3 histories, runs of unanswered requests, every request size and every reply size, sync and async sessions under {DES, AES} x {MD5, SHA-1} x key types; each emitted msgData is decrypted by an independent cipher and compared with the request, each reply encrypted by it (any salt, boots/time, padding) is compared with what is delivered; distinct by (configuration, direction, operation, ciphertext size, padding, width of boots and time)",
    quick_s=70,
)
prop(
    "C12",
    rule="password lengths 1..256, every power of two and its neighbours up to 2^21, and log-uniform ones; engine ids of 0..32 octets (and longer); keys as returned by the functions and as used by sessions (MAC and payload of emitted messages, acceptance of replies); malformed keys of 0..64 octets and all 256 algorithm codes in every place; distinct by (place, algorithms, key types, sizes)",
    quick_s=70,
)
prop(
    "C13",
    rule="43 combinations of digest, cipher and key types x engine ids of 5..32 octets x {given, discovered} x {low level, sync, async}; the agent changes boots and time between replies, strangers carry other ones; each message is compared with the most recent accepted one; distinct by (entry, configuration, key types, engine id size, widths of boots and time)",
    quick_s=70,
)
prop(
    "C14",
    rule="random v3 histories and long runs of mixed requests under one key installation, counters started next to their ends by a replaced random source, sync and async sessions; each salt is fed to an online monitor, each message is searched for the plaintext; distinct by (configuration, operation, datagram size, width of boots) or (configuration, start)",
    variants=["plain", "det"],
    share={"det": 0.5},
    workers={"det": 4},
    quick_s=70,
)
prop(
    "C15",
    rule="every INTEGER of 1..3 contents octets and within 2^16 of each boundary, random i64, OIDs, NULL, OCTET STRINGs of every size, Get/GetNext/GetBulk messages of the three versions are encoded, compared with an independent minimal encoder and decoded back (r_encode); datagrams of the API are compared with the minimal encoding of their fields; distinct by value, (configuration, operation, size, max-repetitions, widths)",
    variants=["plain", "det"],
    share={"det": 0.4},
    workers={"det": 4},
    quick_s=40,
    natives=[
        {"variant": "plain", "bin": "r_encode", "mode": "ints", "n": 8_000_000, "thorough": 4_000_000_000},
        {"variant": "plain", "bin": "r_encode", "mode": "oids", "n": 400_000, "thorough": 200_000_000},
        {"variant": "plain", "bin": "r_encode", "mode": "messages", "n": 400_000, "thorough": 200_000_000},
    ],
)
prop(
    "C16",
    rule="an element of every type and message layer is decoded alone and followed by any octets, every inner length of a message is stretched past the enclosing element (r_decode: the decoders, plain and AddressSanitizer); the same on whole replies of the API; distinct by (type, leading octets) and (configuration, operation, element, excess)",
    variants=["plain"],
    quick_s=50,
    natives=[
        {"variant": "plain", "bin": "r_decode", "mode": "small", "n": 1, "share": 0.12},
        {"variant": "plain", "bin": "r_decode", "mode": "elements", "n": 3_000_000, "thorough": 1_000_000_000},
        {"variant": "plain", "bin": "r_decode", "mode": "messages", "n": 400_000, "thorough": 100_000_000},
        {"variant": "plain", "bin": "r_decode", "mode": "varbinds", "n": 800_000, "thorough": 200_000_000},
        {"variant": "plain", "bin": "r_decode", "mode": "garbage", "n": 1_000_000, "thorough": 300_000_000},
        {"variant": "cov", "bin": "r_decode", "mode": "grow", "n": 240_000, "thorough": 2_000_000_000, "share": 0.4},
        {"variant": "asan", "bin": "r_decode", "mode": "elements", "n": 400_000, "thorough": 100_000_000},
        {"variant": "asan", "bin": "r_decode", "mode": "messages", "n": 60_000, "thorough": 10_000_000},
        {"variant": "asan", "bin": "r_decode", "mode": "garbage", "n": 200_000, "thorough": 50_000_000},
    ],
)
prop(
    "C17",
    rule="sequences of buffer operations against a shadow model (random, every size at the edges; plain, AddressSanitizer, Miri), the pool from several threads; through the API every size of the varbinds, of one name, of the community, user name and engine id octet by octet up to and over the capacity, refused and sent requests interleaved; distinct by operation sequence and (configuration, field, size)",
    variants=["plain", "det", "asan"],
    share={"det": 0.7, "asan": 0.4},
    quick_s=60,
    natives=[
        {"variant": "plain", "bin": "r_buffer", "mode": "ops", "n": 400_000, "thorough": 200_000_000},
        {"variant": "plain", "bin": "r_buffer", "mode": "edges", "n": 1},
        {"variant": "plain", "bin": "r_buffer", "mode": "pool", "n": 3_000, "thorough": 300_000},
        {"variant": "asan", "bin": "r_buffer", "mode": "ops", "n": 80_000, "thorough": 20_000_000},
        {"variant": "asan", "bin": "r_buffer", "mode": "edges", "n": 1},
        {"variant": "asan", "bin": "r_buffer", "mode": "pool", "n": 400, "thorough": 40_000},
        {"variant": "miri", "bin": "miri", "mode": "ops", "n": 320, "thorough": 40_000, "hang_s": 300},
        {"variant": "miri", "bin": "miri", "mode": "pool", "n": 40, "thorough": 4_000, "hang_s": 300},
    ],
)
prop(
    "C18",
    rule="arrival schedules of non-matching datagrams (even, next to the end of a restarted clock, bursts, mixed, dense, flood) with the matching reply in time, late or never, three calls in a row per session, timeouts from 1 ns to 4e9 s (waited out up to 12 s, thorough 45 s), signals during the wait; every call is timed from the outside; distinct by (client, configuration, operation, schedule, reply, timeout, number of strays)",
    quick_s=60,
    confirm=("sync", "async", "odd", "long", "signals", "flood"),
)
prop(
    "C19",
    rule="decisions of the real policer over generated call times (any rate, idle gaps of every relation to the interval) judged exactly over all windows; for every interval of 1..20 ns the whole graph of reachable phases and its shortest paths; constructor arguments; arrivals at the agent from sync/async sessions with the library's sleeps skipped, and with the real clock; distinct by (mode, rate, length) and (client, configuration, rate, script)",
    quick_s=60,
    confirm=("sync", "async", "real"),
)
