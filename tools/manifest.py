#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json

T = {
    "C01": ("structured fuzzing of replies against the real client under crash/panic/exception monitors and AddressSanitizer", "Documented exception or result for each datagram explored, no abort, hang, panic or sanitizer report. Trusts the independent BER/USM builder."),
    "C02": ("differential run-time oracle: values of an independent BER encoder read back through the API", "Exact equality with the value model on the responses generated."),
    "C03": ("online monitor of the wire: independent strict decoder against the API calls, with threads and interleaved sessions", "Every datagram emitted on the explored histories is the one requested."),
    "C04": ("queue-model oracle over fault scripts (loss, duplication, delay, rewritten identifiers)", "Outcome of each call is the one of the model on the scripts explored; timing is re-confirmed."),
    "C05": ("agent and MIB model as the oracle of complete walks", "Walks over the generated MIBs equal the model."),
    "C06": ("online walk-specification monitor against hostile agents, small universe exhausted", "Every observed request/reply/yield obeys the walk specification."),
    "C07": ("table oracle over all small replies and random larger ones", "Results and exceptions equal the documented mapping."),
    "C08": ("big-integer reference parser against octets observed at the agent", "Accepted texts are sent as exactly their OID, all others are refused."),
    "C09": ("independent HMAC recomputation over every emitted datagram", "Every emitted authenticated datagram carries the right MAC at its place."),
    "C10": ("forgery matrix with a delivery monitor", "No value of a forged or downgraded reply is delivered on the forgeries explored."),
    "C11": ("independent DES/AES implementation decrypting/encrypting every message", "Ciphertext and plaintext correspond on every message exchanged."),
    "C12": ("hashlib re-implementation of RFC 3414 A.2 as the oracle", "Keys equal the reference on the lengths and engine ids explored; malformed keys are refused."),
    "C13": ("online state monitor of engine id, boots, time and user over v3 histories", "Every emitted header equals the state of the last accepted reply."),
    "C14": ("salt-log uniqueness monitor and plaintext search, replaced random source", "No salt is repeated and no plaintext name/value is visible in the traffic observed."),
    "C15": ("independent minimal BER encoder and round trip, exhaustive small integers", "Encodings equal the minimal ones and decode back, on the values explored."),
    "C16": ("metamorphic run-time oracle (suffixes, stretched inner lengths), AddressSanitizer", "No decoder result depends on octets outside of its element, on the inputs explored."),
    "C17": ("shadow-model monitor of buffer operations, octet-by-octet size sweeps, AddressSanitizer and Miri", "A message is sent whole or refused, no operation leaves the storage, on the sequences explored."),
    "C18": ("timing monitor over scripted arrival schedules", "Each call ends within its timeout (with slack for the scheduler), deviations are re-confirmed."),
    "C19": ("exact rational window monitor over releases; virtual time for sessions", "No window of releases observed exceeds the rate; state graphs of small intervals exhausted."),
}
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"python3 check.py {p} --tier quick",
            "thorough_cmd": f"python3 check.py {p} --tier thorough",
            "technique": t,
            "level": "exploration",
            "level_note": n,
        }
        for p, (t, n) in T.items()
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: the monitors observe the wire, the API and the crate built as a library of the harness.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
