#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from /repo's fix: commits."""
import json, subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
 "scripts must close their own": "C01", "only a pay-to-script-hash locking script": "C02", "CHECKMULTISIG reports": "C03", "OP_1NEGATE": "C04",
 "a script handed out by ScriptBuilder": "C22", "encoding the smallest": "C04", "buffer reads with": "C24", "writing to a buffer": "C22",
 "Bech32Encode does not write": "C22", "segwit programs with": "C24", "Bech32Encode refuses": "C24", "a segwit address decodes": "C09",
 "legacy signature hashes": "C06", "witness signature hashes": "C06", "signing or attaching": "C07", "EmbedIdxEcdsa": "C22",
 "a pay-to-witness-script-hash output": "C07", "the witness of an input": "C07", "a deserialized transaction keeps": "C05", "Deserialize reads what": "C05",
 "transactions whose counts": "C20", "transaction sizes": "C05", "printing a transaction": "C20", "only a pay-to-script-hash input": "C06",
 "the estimated fee": "C08", "the transaction builder adds": "C08", "only points of the curve": "C21", "multiples of the point": "C21",
 "ECDSA signatures with trailing": "C12", "Schnorr signatures of the wrong": "C13", "the Schnorr helpers": "C22", "multi-party Schnorr signatures commit": "C15",
 "multi-party sessions keep": "C22", "merkle roots": "C17", "merkle proofs": "C17", "Paillier keys are": "C16", "Paillier encryption uses": "C16",
 "Paillier operations refuse": "C16", "extracting the secret": "C14", "empty and out-of-range HD": "C10", "deriving below depth": "C10", "extended keys that BIP32": "C10",
 "mnemonic entropy comes": "C11", "surplus white space": "C11", "the mnemonic word list": "C25", "Decrypt takes numbers": "C16",
}
EXTRA = os.path.join(HERE, "tools", "fixes_extra.json")
if os.path.exists(EXTRA):
    PROP.update(json.load(open(EXTRA)))
out = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"]).decode().strip().split("\n")
fixed = []
for l in out:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = [v for k, v in PROP.items() if s.startswith(k)]
    assert len(p) == 1, s
    fixed.append("fixed: property=%s %s %s" % (p[0], h, s))
f = os.path.join(HERE, "known_findings.json")
k = json.load(open(f))
k["fixed"] = fixed
json.dump(k, open(f, "w"), indent=1)
open(f, "a").write("\n")
