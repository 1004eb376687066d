import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","A payment made by any sender reaches its recipient, and nobody else",
 "Whatever mix of coins a sender spends and in whatever order inputs, recipients and outputs are listed, every output the sender creates for a silent payment address (labelled or not, several per recipient, self-change included) is found by the owner of that address when the transaction is later seen, is found by nobody else, and is spendable with the keys the owner derives. Outputs of independent transactions or different recipients never collide. All send interfaces agree with each other, with the receiving side and with the protocol.",
 ["inputs","schedules","histories"],"every interleaving of several senders/receivers, every mix and permutation of eligible, ineligible and malleated inputs, every recipient list with repeats and labels, every order in which transactions of different parties arrive at the receivers",
 "Tests replay the published vectors and a few fixed transactions; they never let independently generated senders and receivers meet, nor vary input kinds, witness shapes and orders together.",
 ["silentpayments/src/send/","silentpayments/src/receive/","silentpayments/src/lib.rs","silentpayments/src/hashes.rs","indexer/src/","wallet/src/"],
 [("output derivation for all recipients sharing an input hash","silentpayments/src/send/mod.rs:create_silentpayment_scriptpubkeys"),("eligibility and public key extraction per input","silentpayments/src/receive/mod.rs:extract_pubkey, silentpayments/src/send/bip32.rs, silentpayments/src/send/psbt/"),("scanning of a transaction's outputs against the receiver's keys and labels","silentpayments/src/receive/mod.rs:scan_txouts, silentpayments/src/receive/scan.rs")],
 observe=["derived scriptPubKeys","found outputs and their tweaks"])
p("C02","Preparing a partially signed payment is all-or-nothing and can be retried",
 "Deriving silent payment outputs into a partially signed transaction either completes all recipients' outputs so that every recipient finds its payment, or fails and leaves the transaction byte for byte as it was. It never succeeds with outputs that no recipient can find, and a failed attempt never spoils a later one, including after the transaction was saved and reloaded.",
 ["fault_sequences","inputs","histories"],"every sequence of attempts under every combination of signing device failures (absent key, wrong key, refused request), missing previous outputs, unsigned inputs and defective recipient lists, with restarts between attempts",
 "Tests exercise a cooperative key provider on a complete transaction; no test makes a device fail half way or retries.",
 ["silentpayments/src/send/psbt/","silentpayments/src/send/error.rs","silentpayments/src/send/bip32.rs","cli/v1/src/main.rs"],
 [("collecting input secrets from the key provider","silentpayments/src/send/psbt/mod.rs:derive_sp"),("replacing the placeholder scripts","silentpayments/src/send/psbt/mod.rs:update_outputs")])
p("C03","A received output can be signed by its owner, and only the owner can",
 "Every silent payment output a wallet reports as its own can be spent: signing a transaction that spends it, alone or mixed with other parties' and ordinary inputs, yields a signature valid for that output under consensus rules. Signing never produces an invalid signature, never touches inputs of others, never aborts on foreign or damaged data in the transaction, and is unaffected by the order in which several parties sign or by re-signing.",
 ["schedules","inputs","fault_sequences"],"every interleaving of several owners signing one transaction, every mix of inputs, and every corruption of the metadata passed along with it",
 "Tests sign a single input with a single owner on well formed metadata.",
 ["silentpayments/src/send/psbt/sign.rs","wallet/src/signers.rs","cli/v1/src/main.rs","cli/v2/src/main.rs"],
 [("signing extension for partially signed transactions","silentpayments/src/send/psbt/sign.rs"),("key map from the index","wallet/src/signers.rs")])
p("C04","What an index reports depends on what happened, not on how it was told",
 "For the same set of transactions and tweaks, the index reports the same owned outputs, amounts, labels and spending keys however they were batched, duplicated, interleaved with labels being added in time, or replayed; it reports exactly the outputs that belong to the wallet's keys and a transaction is relevant exactly when it creates or spends one. Applying the emitted changes to an empty index reproduces the index.",
 ["histories","schedules","inputs"],"every delivery order that respects spend-after-create, every batching, duplication and interleaving with restarts from the accumulated changes",
 "Tests index one or two fixed transactions in one order.",
 ["indexer/src/lib.rs","indexer/src/v2/"],
 [("index of derived outputs","indexer/src/lib.rs:SpIndexer, indexer/src/v2/mod.rs:SpIndexerV2"),("change sets and their merge","indexer/src/lib.rs:SpIndexesChangeSet, indexer/src/v2/mod.rs:ChangeSet")])
p("C05","A crash never loses or corrupts what was saved",
 "After a crash at any instant, including in the middle of a write, reopening the stored data yields the state as of some moment not earlier than the last completed save, never an error, an abort or a mixture; nothing saved is lost, and continuing from there (re-scanning what came after) ends in the same state as a run that never crashed. Saved data reads back identically in the formats the project uses.",
 ["crash_points","fault_sequences","histories"],"every crash point of every sequence of saves and scans, with the last write complete, lost or torn at any byte, and repeated crashes",
 "Tests never stop the program between or during writes; persistence is tested by clean round trips at most.",
 ["wallet/src/","indexer/src/","cli/v1/src/main.rs","cli/v2/src/main.rs"],
 [("staged changes","wallet/src/lib.rs"),("serialised change sets","indexer/src/lib.rs:SpIndexesChangeSet, indexer/src/v2/indexes.rs:Label, wallet/src/lib.rs:ChangeSet")])
p("C06","Every block filter reaches the wallet exactly as the best chain has it",
 "Whatever the interleaving of filters, reorganisations and progress messages from the peer-to-peer node, the filter pipeline hands on every filter of the final best chain at or above the wallet's birthday, the latest one for each height and none from a replaced block after its replacement, in batches of bounded size, and everything received before the node reports being in sync is handed on before the sync notice. Nothing is lost, stuck or reordered across a height when the node or the consumer is slow or goes away.",
 ["schedules","fault_sequences","histories"],"every interleaving of node events, buffer flushes and consumer progress, including reorganisations at any height and closed channels",
 "The pipeline has no tests with a reorganisation, a slow consumer or a closed channel.",
 ["oracles/src/filters/"],
 [("buffer of pending filters","oracles/src/filters/kyoto.rs:DatabaseBuffer"),("event loop over node events","oracles/src/filters/kyoto.rs:FilterSubscriber::run")])
p("C07","Block matching misses no block that matters, even when the tweak server fails",
 "For every block of the final chain at or above the birthday that contains an output of the wallet or spends one known to the wallet, a match carrying that block's tweaks is delivered before the sync notice, in spite of failed, slow or out-of-order tweak server replies, provided the server eventually answers. Matching never ends early, never waits for ever once faults stop, and never aborts because its consumer went away.",
 ["fault_sequences","schedules","histories"],"every pattern of HTTP errors, delays, timeouts, truncated and malformed replies, and every interleaving of the producer, the requests in flight and the consumer",
 "There are no tests of this component: it needs a live server and node.",
 ["oracles/src/tweaks/","oracles/src/filters/"],
 [("tweak retrieval and matching","oracles/src/tweaks/blindbit.rs"),("script derivation for a tweak","indexer/src/v2/mod.rs:derive_spks_for_tweak")])
p("C08","A light client that has synced holds exactly the wallet's true coins",
 "When the light client reports being in sync, its balance, unspent coins, transactions and chain tip equal those of the wallet's keys on the best chain from the birthday on, for every chain history including reorganisations during or between sessions, crashes and restarts, and tweak server and peer faults that stop before the end. It never reports a coin that does not exist on the best chain it reports.",
 ["histories","fault_sequences","crash_points","schedules"],"every chain history with payments, spends and reorganisations, every schedule of the tasks and every sequence of faults that ends",
 "No test runs the pieces together; the only end to end test needs a live network.",
 ["wallet/src/","oracles/src/","indexer/src/v2/","cli/v2/src/main.rs"],
 [("wallet applying relevant blocks","wallet/src/lib.rs"),("filter and tweak pipelines","oracles/src/")])
p("C09","A full-node wallet converges to its true coins after any node trouble",
 "Scanning through a full node's RPC interface ends, once faults stop, with exactly the wallet's true coins of the best chain, whatever reorganisations, RPC failures, restarts and crashes happened on the way, and transactions it sees in the mempool are reported as unconfirmed until mined. A failing lookup never makes the scan abort the program or silently drop a payment that a later scan would have to find.",
 ["histories","fault_sequences","crash_points"],"every chain history with reorganisations and mempool traffic, every pattern of RPC failures and every crash point between saves",
 "Integration tests need a regtest node and follow one fixed story without failures.",
 ["indexer/src/lib.rs","cli/v1/src/main.rs","cli/v2/src/main.rs"],
 [("prevout lookups and tweak computation","indexer/src/lib.rs:Custom"),("block scanning loop","cli/v1/src/main.rs")])
p("C10","The tweak server client returns the server's answer or an error, in time",
 "Each request to a tweak server either returns exactly what the server sent for that request or an error, within the promised time, and never aborts or returns made-up, partial or another request's data, for every malformed, truncated, oversized or delayed reply and any number of concurrent requests. A server error status is reported as an error.",
 ["fault_sequences","inputs","schedules"],"every reply shape (status, body, truncation, garbage, wrong types) and delay, at every interleaving of concurrent requests",
 "Tests use fixed fixtures or none; no failing server is simulated.",
 ["oracles/src/tweaks/"],
 [("HTTP client","oracles/src/tweaks/blindbit.rs")])
p("C11","An address damaged in transit is never mistaken for another one",
 "A silent payment address that was altered on its way (mistyped, truncated, extended, case-mixed, spliced from two addresses or moved to another network) is rejected, never accepted as a different recipient; any text that is accepted names exactly the keys, network and version it displays when printed again. Handling hostile text never aborts.",
 ["inputs","fault_sequences"],"every fault pattern on the text channel between receiver and sender up to the distance the checksum guarantees, and arbitrary hostile text",
 "Tests decode a few valid and a few hand-picked invalid addresses.",
 ["silentpayments/src/encoding/mod.rs","silentpayments/src/encoding/error.rs"],
 [("decoding and checksum","silentpayments/src/encoding/mod.rs")])
p("C12","Balance and spendable coins follow the best chain through reorgs and replacements",
 "At every moment the wallet's balance, unspent coins and spend candidates are those of its keys on its best chain plus its unconfirmed transactions: each coin counted once, with the right amount, and gone once spent by a canonical transaction; coins reappear when the spend disappears. This holds across reorganisations, replaced and conflicting transactions, and reloads.",
 ["histories","schedules","crash_points"],"every history of blocks, reorganisations, mempool arrivals, replacements and reloads",
 "Tests apply one or two blocks to a wallet and never reorganise or replace.",
 ["wallet/src/","indexer/src/v2/"],
 [("canonical view of the chain and graph","wallet/src/lib.rs"),("index of owned outputs","indexer/src/v2/")])
p("C13","Every address ever handed out keeps receiving",
 "Payments to any address the wallet ever gave out (plain, labelled or change) are found at any later time, after any number of further addresses, saves, crashes and reloads, with the label they were made for. The change label is never given out as an ordinary address and different labels give different addresses.",
 ["histories","crash_points"],"every interleaving of address generation, payments, saves, crashes and reloads",
 "Tests generate labels once and scan in the same process.",
 ["silentpayments/src/receive/","indexer/src/","wallet/src/"],
 [("label bookkeeping","silentpayments/src/receive/, indexer/src/"),("address generation","wallet/src/lib.rs")])
p("C14","Hostile chain data never stops or blinds a scanner",
 "No transaction, block or tweak that a third party can put on the chain or send to the wallet makes scanning abort, reports a coin the wallet cannot spend, or hides a genuine payment in the same or a later block. This includes malformed scripts and witnesses, invalid points, zero or cancelling key sums, coinbases and crowds of outputs.",
 ["inputs","histories","fault_sequences"],"every placement of hostile data among genuine payments, in both index flavours and the wallet",
 "Tests use well formed transactions from the vectors only.",
 ["silentpayments/src/receive/","indexer/src/","wallet/src/"],
 [("input public key extraction","silentpayments/src/receive/mod.rs:extract_pubkey"),("scan loop","silentpayments/src/receive/mod.rs:scan_txouts, indexer/src/v2/mod.rs:index_tx")])
p("C15","Proofs exchanged between signers stay sound and leak nothing under faults",
 "When several signers exchange proofs that two points share one secret, a verifier accepts a proof exactly when it belongs to that signer's points, base and message, whatever the transport did to it (flipped bits, swapped, replayed or mixed with another session's data), and never aborts. Even when the randomness source of a signer is stuck or repeats, its proofs still verify and no two proofs for different statements or messages reveal its secret.",
 ["fault_sequences","histories","inputs"],"every interleaving of proof sessions of several signers, every message corruption, replay or swap, and every randomness source failure",
 "Tests replay the published vectors with fixed randomness and no transport.",
 ["dleq/src/lib.rs"],[("proof generation","dleq/src/lib.rs:dleq_generate_proof"),("verification","dleq/src/lib.rs:dleq_verify_proof")])
p("C16","Outputs are those the published protocol prescribes for fixed inputs",
 "For given keys, inputs and recipients the derived output scripts equal, bit for bit, the values the published protocol prescribes.",
 ["inputs"],"every set of keys, inputs and recipients",
 "Only the published vectors are replayed.",
 ["silentpayments/src/send/mod.rs","silentpayments/src/hashes.rs"],[("hash tags and tweak computation","silentpayments/src/hashes.rs")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
