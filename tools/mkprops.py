#!/usr/bin/env python3-vt
"""Writes ../properties.jsonl. The text of every property lives here."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

IN, OUT, FEES, SIGN, SH, BR, TX, PR, FP, CMD = ("inputs.go", "outputs.go", "fees.go", "sign.go", "sig_hash.go", "break_value.go", "txbuilder.go", "print.go", "fees/fees.go", "cmd/main.go")

prop("P01", "Payments survive funding, fee changes and signing",
 "Adding funding, calculating or adjusting the fee, and signing never change the position, locking script, value, flags or key identifier of an output that is not marked to receive the remainder (and does not pay one of the change addresses given in that call). They never remove an output the caller added; only a change output that an earlier fee adjustment itself added may be removed. The only outputs they add are change outputs, appended after the existing ones. Inputs keep their place and data (funding may add inputs), and the version, lock time and fee rates stay, as does the change destination, which only funding with broken change may set to the first address given.",
 ["histories", "inputs"], "every sequence of builder calls, every mix of payment, data, dust and remainder outputs in any order, every fee rate",
 "The tests look at one or two outputs in fixed positions; whether a payment survives depends on where the change output sits, how it came to exist and which fee path runs.",
 [FEES, IN, SIGN], [("fee adjustment", "TxBuilder.AdjustFee"), ("funding", "TxBuilder.AddFunding, AddFundingBreakChange"), ("signing", "TxBuilder.Sign")], ["outputs before and after each call"])

prop("P02", "Successful funding, fee calculation and signing pay the fee rate",
 "When adding funding or calculating the fee succeeds, input value minus output value is at least the fee rate times the estimated signed size of the resulting transaction, rounded up. When signing succeeds it is at least the fee rate times the actual serialized size, and when signing only lacks keys it still covers the estimated size of the completed transaction. This holds for any number of inputs and outputs, including where the serialized counts get longer.",
 ["inputs", "histories"], "all fee rates, script templates, numbers of inputs and outputs (1 to several hundred), existing partial funding, and values up to the 21 million coin supply",
 "The fee depends on rounding, on count boundaries such as 253, on script mix and on which of the funding branches runs; tests sample a few round numbers.",
 [IN, FEES, SIGN], [("funding loop", "TxBuilder.AddFunding, AddFundingBreakChange"), ("fee adjustment", "TxBuilder.AdjustFee, CalculateFee"), ("sign fee loop", "TxBuilder.Sign"), ("fee rounding", "EstimatedFeeValue")], ["inputs and outputs after the call"])

prop("P03", "Surplus value goes to change, not to the miner",
 "When adding funding, calculating the fee or signing succeeds, the fee is above the required fee only by rounding (one satoshi per input or output added; for signing, at most three satoshis or five percent of the required fee) unless the surplus is too small to be change. Too small means: at most the dust limit when there is already a remainder output to add it to, otherwise not more than the fees for adding a change output plus the larger of that output's dust limit and the cost of creating and spending it (twice those costs when no change script is known).",
 ["inputs", "histories"], "all surplus sizes around every threshold, all fee and dust rates, with and without existing remainder outputs, all histories of edits before the call",
 "A surplus leak shows only for amounts in specific windows relative to fee and dust thresholds.",
 [FEES, IN, SIGN], [("change creation", "TxBuilder.AddFunding, AdjustFee"), ("break change", "AddFundingBreakChange, BreakValue"), ("sign fee loop", "TxBuilder.Sign")], ["fee after the call"])

prop("P04", "Insufficient value is reported exactly when value is insufficient",
 "Adding funding reports insufficient value only if all the offered unspent outputs together with the existing inputs cannot cover the outputs and the fee (counting the fee of each added input rounded up, and for funding with broken-up change the cost of one change output), calculating or raising the fee only if the first remainder output cannot give the amount, and signing only if the inputs do not cover the current outputs plus the estimated fee. Conversely none of these calls succeeds with outputs exceeding inputs when the shortage could be detected, and adding funding or calculating the fee fails for no other reason than missing value, a missing or unusable change destination, or outputs below their minimum.",
 ["inputs", "histories"], "all offered sets of unspent outputs and all existing inputs and outputs, in particular totals within a few satoshis of the required amount",
 "The boundary is an exact satoshi amount that depends on sizes, rounding and earlier calls.",
 [IN, FEES, SIGN], [("funding loop", "TxBuilder.AddFunding, AddFundingBreakChange"), ("fee increase", "TxBuilder.AdjustFee"), ("sign check", "TxBuilder.Sign")], ["returned error", "values after the call"])

prop("P05", "No output is ever spent twice",
 "No sequence of adding, inserting, updating, removing inputs or adding funding makes a builder spend the same previous output in two inputs, whatever the position of the existing input. An attempt is rejected as a duplicate (or skipped when adding funding), and previous outputs that differ in only the transaction or only the index are not mistaken for duplicates.",
 ["histories", "inputs"], "all histories of input edits and funding calls over previous outputs that share transactions and indexes",
 "Tests try one duplicate right after the original; duplicates can arrive through any call and after removals and updates.",
 [IN], [("duplicate checks", "AddInput, AddInputUTXO, InsertInput, UpdateInputUTXO"), ("funding skip", "AddFunding, AddFundingBreakChange")], ["outpoints of all inputs", "returned error"])

prop("P06", "Funding spends the offered outputs in order and only as needed",
 "Adding funding appends the offered unspent outputs in the order given, skipping those already spent by the transaction, and stops at the first one with which the outputs and fee are covered. Each new input carries the offered outpoint, locking script, value and key identifier, a final sequence number and no unlocking script. A transaction that is already funded gets no further inputs, and when everything is to be sent every offered output is used.",
 ["inputs", "histories"], "all lists of offered outputs including duplicates, tiny values that cost more than they add, and all pre-existing inputs",
 "Stopping one input early or late depends on an exact comparison against accumulated fees.",
 [IN], [("funding loop", "TxBuilder.AddFunding, AddFundingBreakChange")], ["inputs after the call"])

prop("P07", "Change only goes where the caller said",
 "Value that is left over is given only to the first output marked as remainder, or, when there is none, to one appended output that pays the configured change script, is marked as remainder and carries the configured change key identifier. If change is needed and no change script is configured the call reports that a change address is needed, and it reports this only then.",
 ["histories", "inputs"], "all combinations of remainder outputs (none, one, several), change script set, unset or changed between calls, and surplus sizes",
 "Sending change to the wrong script loses money silently; tests check one layout.",
 [FEES, IN, OUT], [("change output", "AdjustFee, AddFunding"), ("change designation", "SetChangeAddress, SetChangeLockingScript")], ["outputs after the call", "returned error"])

prop("P08", "Edits keep inputs, outputs and their data in step",
 "Adding, inserting, updating or removing inputs and outputs and setting the change destination act like the corresponding operations on two ordered lists: exactly the addressed entry is changed, all others keep their order, and every input keeps its own locking script, value and key identifier and every output its own remainder flag, dust flag and key identifier. A call that addresses an existing entry and violates no limit succeeds. A new builder is empty with version 1, lock time 0 and the fee rates given. Setting the change destination additionally marks exactly the existing outputs paying that script as remainder with the given key identifier.",
 ["histories"], "all histories of list edits at all positions",
 "Misalignment between the transaction and the supplemental lists shows only after specific insert, remove and shuffle sequences.",
 [IN, OUT, BR, TX], [("input edits", "AddInput, AddInputUTXO, InsertInput, UpdateInputUTXO, RemoveInput"), ("output edits", "AddOutput, InsertOutput, RemoveOutput, UpdateOutput, AddOutputs, AddPaymentOutput, AddMaxOutput"), ("change destination", "SetChangeLockingScript")], ["full builder state after each call"])

prop("P09", "Rejected calls have no effect and never panic",
 "A call to edit an input or output, adjust or zero the fee, or sign a single input that is rejected (duplicate input, index past the end, amount below the limit, unusable address, not enough change, wrong key or script) returns an error and leaves the builder exactly as it was. Calls with an index past the end, or with different numbers of public keys and signatures, return an error or a negative answer instead of panicking.",
 ["histories", "inputs"], "all calls with invalid arguments in all reachable states, including empty builders and the index equal to the length",
 "Error paths after partial mutation and off-by-one range checks are rarely exercised.",
 [IN, OUT, FEES, SIGN], [("range checks", "all indexed methods"), ("fee increase", "AdjustFee"), ("limits", "AddOutput, InsertOutput, AddValueToOutput, SubtractValueFromOutput")], ["full builder state", "returned error", "panics"])

prop("P10", "Dust limits and output minimums are enforced",
 "The dust limit of an output is three times the dust fee rate for its size plus 148 bytes, rounded down and at least one satoshi. A dust output gets exactly that value and the first value added to it replaces it and must reach the limit; other outputs are accepted only with at least the fee for including them, except unspendable data outputs and the output that receives everything. Adding value adds exactly that value, and subtracting fails if the result would be below the dust limit.",
 ["inputs", "histories"], "all script sizes, dust and fee rates including zero, values around each limit, and sequences of adding, subtracting and resetting to dust",
 "Limits are exact satoshi boundaries that move with script size and two rates.",
 [OUT], [("dust limit", "DustLimit*, OutputFeeAndDust*"), ("minimum", "AddOutput, InsertOutput"), ("value edits", "AddValueToOutput, SubtractValueFromOutput, SetOutputToDust")], ["output values", "returned error"])

prop("P11", "Fee adjustments move exactly the requested amount",
 "Raising the fee takes exactly the requested amount from the first remainder output, or removes that output if an earlier fee adjustment added it and less than the cost of creating and spending it would be left. Lowering the fee gives exactly the amount to the first remainder output, or to a new change output after deducting the fee for that output if more than the cost of creating and spending it remains, and otherwise changes nothing. The returned flag says whether no further adjustment makes sense, calculating the fee applies this to the difference to the estimated fee, and zeroing the fee to the whole fee.",
 ["inputs", "histories"], "all amounts around each threshold, histories that add, remove and re-add change, several remainder outputs",
 "Outcomes depend on which call created the change output and on exact thresholds.",
 [FEES], [("adjustment", "TxBuilder.AdjustFee"), ("wrappers", "CalculateFee, ZeroizeFee")], ["outputs, returned flag and error"])

prop("P12", "Every signed input is valid for the final transaction",
 "After signing succeeds, the unlocking script of every input satisfies the locking script it spends under full script evaluation against the transaction as returned, for pay to public key hash, pay to public key and all m-of-n multiple public key hash scripts, any mix and any number of inputs. Signatures commit to all inputs and outputs, and unlocking scripts hold the needed number of signatures and nothing beyond what the locking script uses. Signatures produced for a single input or by signing only the unsigned inputs are valid in the same way and stay valid until something they commit to changes.",
 ["inputs", "histories"], "all mixes of script templates, key orders, thresholds up to 20 keys, histories of edits and repeated signing, and fee changes during signing",
 "A stale hash or misordered unlocking script shows only when outputs change between signing passes or for particular key subsets.",
 [SIGN, SH], [("signing", "Sign, SignOnly, SignP2PKHInput, signInput"), ("unlocking scripts", "P2PKHUnlockingScript, P2PKUnlockingScript, P2MultiPKHUnlockingScript"), ("hash cache", "SigHashCache")], ["script evaluation of each input"])

prop("P13", "Missing keys are reported and the rest is signed",
 "Signing signs every input for which enough of the offered keys match, in whatever order the keys are given, and reports missing keys exactly if some input it has to sign cannot be completed; such an input keeps its previous unlocking script. An unsupported locking script is not reported as a missing key. The keys returned are exactly those used for the inputs signed, each once, and for m-of-n scripts exactly m keys are used.",
 ["inputs", "configurations"], "all subsets and orders of offered keys, with unrelated keys, against all script mixes",
 "Subsets of keys against m-of-n scripts are combinatorial; tests use all keys or one missing key.",
 [SIGN], [("key matching", "signInput"), ("result", "Sign, SignOnly, appendKeys")], ["returned keys and error", "unlocking scripts"])

prop("P14", "Signing without fee adjustment changes only unlocking scripts",
 "Signing only the unsigned inputs, or one given input, leaves the version, lock time, outpoints, sequences, outputs and all supplemental data exactly as they were. Signing only the unsigned inputs never touches an input that already has an unlocking script; signing one input touches no other input.",
 ["histories", "inputs"], "all partially signed transactions, including foreign unlocking scripts, in every order of signers",
 "Requires partially signed states with several parties.",
 [SIGN], [("sign only", "SignOnly"), ("single input", "SignP2PKHInput")], ["full builder state"])

prop("P15", "Signature hashes commit to exactly the specified data",
 "The signature hash of an input is the double SHA-256 of the fork-id (BIP-143 style) preimage: version, outpoints, sequences, spent outpoint, script code after the last code separator byte for byte, value, sequence, outputs, lock time and hash type, with the outpoint, sequence and output hashes zeroed or narrowed to the matching output exactly as the all, none, single and anyone-can-pay types require. Two calls give the same hash exactly if all committed data are equal.",
 ["inputs"], "all hash types, input positions with and without matching output, script codes with separators and any push encoding, values up to 64 bits",
 "The test vectors cover one or two hash types; each type and position pair commits to a different subset.",
 [SH], [("preimage", "SignatureHash, SignatureHashPreimageBytes, SignaturePreimage"), ("partial hashes", "HashPrevOuts, HashSequence, HashOutputs"), ("script code", "afterOpCodeSeparator")], ["preimage bytes and hash"])

prop("P16", "The signature hash cache never changes a result",
 "Computing a signature hash with a cache gives the same result as with a fresh cache for every input and hash type and any order of earlier uses, provided the cache was cleared after the transaction changed. Clearing only the outputs is enough when only outputs changed.",
 ["histories"], "all orders of hash computations over inputs and hash types sharing one cache, interleaved with transaction edits and clears",
 "Poisoning needs a particular earlier use (for example a single or anyone-can-pay hash) before the observed one.",
 [SH], [("cache", "SigHashCache.Clear, ClearOutputs, HashPrevOuts, HashSequence, HashOutputs")], ["hash with shared cache against fresh cache"])

prop("P17", "Estimated size bounds the signed size closely",
 "The estimated size of a transaction whose inputs are of supported script types is never below its serialized size after signing, and above it by at most eight bytes per signature. The estimates for single inputs, outputs, unlocking scripts and their fees use the same sizes: fee rate times size rounded up.",
 ["inputs"], "all script templates including nested agent scripts and m-of-n up to 20, numbers of inputs and outputs across the count length boundaries, script lengths across their length boundaries",
 "Size prefixes change at 253 and 65536 and each template has its own constants.",
 [FEES, IN, OUT], [("size estimate", "EstimatedSize, UnlockingScriptSize, InputSize, OutputSize, VarIntSerializeSize"), ("fees", "UTXOFee, UTXOInputSizeAndFee, LockingScriptInputFee, LockingScriptOutputFee, AddressOutputFee, OutputTotalCost")], ["returned sizes and fees", "serialized size"])

prop("P18", "Breaking a value conserves it",
 "Breaking a value over addresses or scripts pays only a leading part of them, each at most once and with its own key identifier, and the output values plus, if fees are subtracted, the fee for including each output add up to exactly the given value; only a value too small to pay for one output gives no outputs, addresses are left unused only if what was left would not have paid for one more output, and an address that cannot be paid is rejected. If nine tenths of the break value exceed the fee to spend an output, every output is worth more than that fee (at least equal when it is the last one and fees are not subtracted), and when the last one is to be the remainder exactly one output is marked, the one paying the last address used. All other outputs are the break value times 1, 2 or 5 times 1, 10, 100 or 1000, varied by at most ten percent, or whatever was left; 10, 100 and 1000 are used only if twice the value per address (not counting one of several) is at least 5, 50 or 500 times the break value. Every such multiple that fits occurs, varied or not, and the amounts are spread over the addresses in random order.",
 ["inputs", "schedules"], "all values, break values, address lists (one to dozens, mixed templates), fee rates and every random choice the algorithm can make",
 "The result is random; a test sees one draw per run.",
 [BR], [("break", "BreakValue, BreakValueLockingScripts")], ["returned outputs"])

prop("P19", "Breaking a quantity conserves it",
 "Breaking a quantity returns at most the requested number of values, all positive, adding up to exactly the given quantity; nothing is returned only for quantity zero, and fewer than requested only if none is larger than a single piece can be. All but at most one of them are the break value times 1, 2 or 5 times 1, 10, 100 or 1000, varied by at most ten percent, or whatever was left, and the odd one can be at any position; 10, 100 and 1000 are used only if twice the quantity per value (not counting one of several) is at least 5, 50 or 500 times the break value, and every such multiple that fits occurs, varied or not.",
 ["inputs", "schedules"], "all quantities, break values, counts from one up and every random choice",
 "The result is random and untested.",
 [BR], [("break", "BreakQuantity")], ["returned values"])

prop("P20", "Shuffling outputs only reorders them",
 "Randomizing the outputs yields a permutation of them in which every output keeps its own script, value, flags and key identifier; randomizing after an index leaves all outputs up to and including that index in place. Later fee adjustments treat each output as before, and repeated shuffling can reach every order.",
 ["histories", "schedules"], "all output lists, indexes and permutations the random source can produce, followed by further edits",
 "The order is random and the supplemental data must follow it.",
 [BR], [("shuffle", "RandomizeOutputs, RandomizeOutputsAfter")], ["outputs before and after"])

prop("P21", "Copies and separate builders are independent",
 "A copy of a builder is equal to the original in every field, and behaves the same in every later call. No call on one builder changes any other builder (unless both were built around the same transaction object), in particular not its copy or the one it was copied from, nor the lists and outputs the caller passed in, nor what an earlier call returned (serialized bytes, preimages, hashes, signatures, broken values, keys).",
 ["histories"], "all interleavings of calls on an original and its copies, and on unrelated builders, and of the functions that need no builder",
 "Aliasing shows only when a particular field is modified on one side after the copy.",
 [TX], [("copy", "TxBuilder.Copy, InputSupplement.Copy, OutputSupplement.Copy")], ["state of all builders after each call"])

prop("P22", "Imported transactions get the right input data",
 "Building from an existing transaction attaches to every input the locking script, value and (if known) key identifier of exactly the output it spends, whatever the order of the supplied transactions or unspent outputs, and leaves the transaction itself and its existing unlocking scripts unchanged with plain outputs. If data for an input is missing this is reported as missing input data and the returned builder still works, counting that input as without value.",
 ["inputs"], "all transactions with inputs spending different outputs of shared and separate transactions, with supersets, permutations and gaps in the supplied data",
 "Confusing index and transaction matches needs several inputs with shared transactions.",
 [TX], [("constructors", "NewTxBuilderFromWire, NewTxBuilderFromWireUTXOs, NewTxBuilderFromTransactionWithOutputs")], ["resulting builder", "returned error"])

prop("P23", "Embedded unlocking data counts like real inputs",
 "An input whose locking script and value are unknown but whose unlocking script embeds unlocking data counts with the embedded value and embedded unlocking size in all totals, estimates, funding and fee calculations. The embedded value is used only when the value is unknown and the embedded size only when the locking script is unknown.",
 ["inputs", "histories"], "all embedded sizes and values, any mix with ordinary inputs, through funding and fee calls",
 "Only one fixed case is tested; the fallback conditions differ for size and value.",
 [FEES], [("embedded data", "InputValue, EstimatedSize")], ["totals, estimates, funding results"])

prop("P24", "The stand-alone fee functions are exact",
 "The functions of the fees package give, for any transaction with known spent outputs or embedded unlocking data, the exact sum of input and output values, their difference as fee, and the estimated size as base size plus inputs (unlocking size from the given unlocker or embedded data) plus outputs. Fees are rounded up, dust limits are three times the rate for the size plus 148 bytes rounded up and at least one, unlocking sizes match those of the builder, and inputs without the needed data give an error.",
 ["inputs"], "all transactions, script templates, embedded data and rates",
 "This package has no tests.",
 [FP], [("sizes", "EstimateSize, EstimateInputSize, EstimateUnlockingSize, OutputSize"), ("values", "InputValue, InputsValue, OutputsValue, Fee"), ("costs", "EstimateFee, OutputTotalCost, DustLimit*")], ["returned values"])

prop("P25", "Reported totals always match the transaction",
 "After any history the reported input value, output value with and without change, fee (zero if negative), signed fee, recoverable change, estimated size and fee, input and output counts and signed-input status equal what follows from the current inputs and outputs. Reading them changes nothing.",
 ["histories"], "all reachable builder states, values up to the coin supply",
 "Totals must hold after any history, not for one constructed transaction.",
 [FEES, SIGN, TX], [("totals", "InputValue, OutputValue, Fee, ActualFee, Remainder, EstimatedSize, EstimatedFee"), ("status", "InputIsSigned, AllInputsAreSigned, InputCount, OutputCount, InputOutput, InputAddress, OutputAddress")], ["returned values"])

prop("P26", "Funding with broken change distributes all change",
 "When funding with broken-up change succeeds without a remainder output in place (and not everything is to be sent), all value beyond the outputs and the fee (unless it is too small to create and spend one output) is distributed over new outputs to a leading part of the given change addresses, each used at most once with its key identifier, exactly one of the new outputs being marked as remainder, and the configured change script is not used; change addresses that cannot be paid are rejected. If there is a remainder output (or the transaction is already funded and an existing output pays the first change address, which then becomes one) it receives everything and no output is added.",
 ["inputs", "schedules"], "all offered outputs, break values, change address lists and random choices",
 "Random distribution plus fee accounting for a number of outputs not known in advance.",
 [IN, BR], [("funding", "AddFundingBreakChange"), ("break", "BreakValue, AddOutputs")], ["outputs after the call"])

prop("P27", "The command line tool prints valid, correct transactions",
 "Every transaction the command line tool prints spends exactly the given outpoints (or all unspent outputs of the key when consolidating), is fully signed and valid, pays the requested amount to the receive address and the rest to the key's own address (or everything to the recipient when consolidating) with at least the configured fee rate. In a chain of transactions each spends the first output of the one before it, and the extended format carries the same transaction with the right spent outputs.",
 ["inputs", "fault_sequences"], "all keys, amounts, outpoint lists, source transactions and service failures",
 "The tool has no tests and needs a network service.",
 [CMD], [("commands", "CreateSend, CreateSends, Consolidate"), ("service", "GetTx, GetUTXOs")], ["printed transactions"])

prop("P28", "Signing again reproduces the same transaction",
 "Signing a fully signed transaction again with the same keys succeeds and gives the identical transaction, and signing after a missing-keys report with the complete set of keys succeeds if the first attempt had enough value (not counting embedded value that signing replaced). Signing always terminates.",
 ["histories"], "all signed and partially signed states, key sets growing over several attempts",
 "Needs multi-step signing histories; the fee loop must reach a fixed point.",
 [SIGN, FEES], [("sign fee loop", "TxBuilder.Sign")], ["transaction bytes after repeated signing"])

prop("P29", "Sending everything leaves nothing behind",
 "After adding an output that receives everything and adding funding, every distinct offered output is spent, all other outputs keep their value, and the receiving output gets exactly the total input value minus the other outputs and the estimated fee. If that is not possible insufficient value is reported. That everything is to be sent stays so in all later funding, fee changes and signing.",
 ["inputs", "histories"], "all sets of offered outputs (including several hundred and duplicates), other payments, scripts and fee rates",
 "Tests use one or two inputs.",
 [OUT, IN, FEES], [("send max", "AddMaxOutput, AddMaxScriptOutput, AddFunding")], ["inputs and outputs after funding"])

prop("P30", "Serialized and printed forms show the actual transaction",
 "The serialized bytes decode to exactly the builder's transaction and the reported identifier is the double SHA-256 of those bytes. The printed forms state the identifier, the exact value of each input and output, the fee, sizes, addresses, key identifiers and flags of the current transaction; a fee or size that cannot be known and an address that does not exist are not printed. The supplements' JSON form states the same values under its field names and reads back unchanged.",
 ["histories", "inputs"], "all reachable builder states, values up to the coin supply",
 "Formatting loses precision only for larger values.",
 [TX, PR], [("serialize", "Serialize, TxID"), ("print", "String, TxString")], ["bytes and text"])

prop("P31", "Builders used at the same time do not interfere",
 "Using different builders, and the functions that need no builder, from several goroutines at the same time gives exactly the outcomes of using them one after the other, apart from random choices, and there are no data races. Several goroutines may read, print, serialize and copy one builder at the same time and all see its actual contents, as long as none changes it.",
 ["schedules", "histories"], "all interleavings of calls on different builders and of reading calls on one builder, with different scripts, sizes and fee rates",
 "Tests use one goroutine.",
 [TX, SIGN, SH, FEES], [("shared state", "package level variables, SignatureHash, UnlockingScriptSize"), ("reading", "queries, String, Serialize, Copy")], ["outcomes compared with the same calls alone", "race reports"])

p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(p, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
