# Regenerates MANIFEST.json: python3 tools/manifest.py C01 C02 ...   (the claimed properties)
import json, sys
claimed = sys.argv[1:]
NOTE = {
"C01": "Several senders and receivers with real derivation, scanning and index code; oracle is an independent implementation of the protocol. Samples; trusts secp256k1 and hashing.",
"C02": "Simulated signing device that fails per request, PSBT defects and restarts between attempts; byte-for-byte comparison after errors, receiver scan after success. Also the v1 command line's to-silent-payment on incomplete and foreign inputs.",
"C03": "Several owners sign one transaction in any order with corrupted metadata; signatures are verified with libsecp256k1 against independently computed sighashes. Both command line programs also pay from coins they scanned; the network's rules, the recipients and the next scan judge the transaction.",
"C04": "Random legal delivery orders, batches, duplicates and restarts against an in-memory truth; both index flavours.",
"C05": "Simulated disk: the store file is cut or damaged after any number of bytes of unsynced writes; real bdk_file_store and wallet/index change sets.",
"C06": "Real filter pipeline under a seeded task scheduler with simulated peer events and reorganisations; real redb on a scratch file.",
"C07": "Real tweak subscriber and HTTP client logic over a simulated transport on virtual time; seeded scheduler.",
"C08": "Whole light client (node events, filters, tweaks, wallet, persistence) in one process on virtual time against the true coins of the simulated chain.",
"C09": "The real command line programs (v1, v2) and their RPC client against a simulated node, disk and clock: RPC failures, reorganisations, crashes at every write; coins compared with the true chain.",
"C10": "Real tweak client over a simulated HTTP transport on virtual time.",
"C11": "Address text through a damaging channel, end to end to the payment.",
"C12": "Wallet under random histories of blocks, reorganisations, replacements and reloads against a simple coin model.",
"C13": "Address generation, saves, crashes and payments interleaved; every address ever given out keeps receiving.",
"C14": "Hostile transactions and tweaks among genuine payments in both index flavours and the wallet.",
"C15": "Sessions of several provers and verifiers over a corrupting, replaying transport, with stuck randomness.",
}
NA = {"C16": "A pure function of its input: no schedule, fault, clock or history for a simulator to decide. C01 compares every derived script with an independent implementation along the way."}
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash /verif/check.sh build", "checks": [], "not_applicable": [],
 "notes": "One simulator binary (sim/, no hooks in /repo) decides every property; see DESIGN.md. Replay a violation with: target/release/spsim replay --file <path>."}
for i in props:
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": f"bash /verif/check.sh {i} quick", "thorough_cmd": f"bash /verif/check.sh {i} thorough",
          "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": NOTE[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "Not built yet.")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
