#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run by hand after editing)."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
mods = open(os.path.join(root, "harness/src/props/mod.rs")).read()
built = set(x.upper() for x in re.findall(r"mod (c\d\d);", mods))
NOTES = {
 "C01": ("property-based round trips over generated databases, settings and credentials", "exploration",
  "Random exploration from the seed; compares full content. Sizes aimed at exact block boundaries up to 3 MiB. Trusts chrono/uuid for building values."),
 "C02": ("property-based testing against an independent KDBX 4 decoder and XML reader", "exploration",
  "Random exploration; trusts the reference decoder and the RustCrypto/argon2 primitives it shares with the library."),
 "C03": ("property-based testing with an independent KDBX 4 encoder", "exploration",
  "Random exploration over writer freedoms; trusts the reference encoder and the shared cryptographic primitives."),
 "C04": ("property-based testing with an independent KDBX 3.1 encoder, and fault injection", "exploration",
  "Random files and random byte edits/truncations; an altered payload may only be rejected or read the same."),
 "C05": ("property-based testing of credential pairs and attempt sequences", "exploration",
  "Near-miss and random credentials; expectation from an independent composite key computation."),
 "C06": ("exhaustive byte-flip and truncation faults on generated archives, plus random edits", "fault_enumeration",
  "Every byte position of each small archive is altered and every prefix tried; archives themselves are sampled."),
 "C07": ("structure-aware and mutational fuzzing", "exploration",
  "Random malformed files with repaired checksums at every layer, malformed XML, codecs. Nesting depth limited (see known findings)."),
 "C08": ("fuzzing with lying length fields under a counting allocator", "exploration",
  "Peak heap of the calling thread is measured against a linear bound; Argon2 memory and decompressed size are accounted for."),
 "C09": ("property-based testing with scripted readers and injected read faults", "fault_enumeration",
  "Chunkings sampled, error positions enumerated on small files and sampled on larger ones."),
 "C10": ("property-based testing with scripted writers and injected write faults", "fault_enumeration",
  "Every failure position of small archives is enumerated; chunkings sampled."),
 "C11": ("property-based testing of the protected-value keystream against a reference", "exploration",
  "Random databases, inner ciphers and field edit sequences; reference keystream from independent set-up."),
 "C12": ("property-based XML round trips over Unicode text", "exploration",
  "Random texts incl. every XML-relevant character class; well-formedness judged by an independent parser."),
 "C13": ("property-based insertion of foreign XML content (metamorphic)", "exploration",
  "Random location-aware insertions; the result must equal the document without them."),
 "C14": ("stateful property-based testing against a tree model", "exploration",
  "Random operation sequences with duplicate identifiers."),
 "C15": ("stateful property-based testing against an ordered-list model", "exploration",
  "Random operation sequences with duplicate keys."),
 "C16": ("property-based testing of locked copies of reference-encoded archives", "exploration",
  "Random KDBX 3.1 and 4 files from an independent writer."),
 "C17": ("stateful property-based testing of archive life cycles with a reference decoder", "exploration",
  "Random histories of edits, key and setting changes, saves and reopens."),
 "C18": ("statistical property-based testing of generated secrets", "exploration",
  "Distinctness, sizes, per-bit balance (8 sigma) over thousands of archives, within and across processes."),
 "C19": ("property-based testing of codecs against independent arithmetic", "exploration",
  "Random and boundary dates, identifiers and strings; child processes under several time zones."),
 "C20": ("property-based testing of one-time-password settings", "exploration",
  "Random secrets, periods, digits and parameter orders."),
 "C21": ("property-based testing of supported and unsupported settings, and forged files", "exploration",
  "Random settings with an independent classification of what can be honoured."),
 "C22": ("property-based testing of the built command-line tools", "exploration",
  "Random archives and invocations in a scratch directory."),
 "C23": ("property-based testing of header parsing with an independent encoder", "exploration",
  "Random known and unknown header values; every rejection class."),
 "C24": ("property-based search for plaintext and key material in archives; sensitivity tests", "exploration",
  "Window search over random archives; not a proof of confidentiality."),
 "C25": ("stateful property-based testing of attachments and foreign headers with a reference decoder", "exploration",
  "Random archives and edit/save cycles."),
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        t, lv, n = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f"./run.sh check {i}", thorough_cmd=f"./run.sh thorough {i}",
            evidence_file=f"evidence/{i}.json", technique=t, level=lv, level_note=n))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./run.sh build",
    hooks=dict(guard="none", enable="no hooks: the checks use the public interface of the unmodified build", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="One Rust harness (harness/) decides all properties with proptest strategies, per-case seeds derived from VERIF_SEED, shrinking and replay files (./run.sh replay FILE). known_findings.txt lists repaired and open defects.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
