#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe if isinstance(observe, list) else [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

FE="fbpcf/frontend/"; SC="fbpcf/scheduler/"; GK="fbpcf/scheduler/gate_keeper/"; EN="fbpcf/engine/"
TG="fbpcf/engine/tuple_generator/"; OT=TG+"oblivious_transfer/"; CM="fbpcf/engine/communication/"; UT="fbpcf/engine/util/"
ML="fbpcf/mpc_std_lib/"; IO="fbpcf/io/"; UDP=ML+"unified_data_process/"

# ------------------------------------------------------------------ language
p("F01","Integer operators of the MPC language compute fixed-width arithmetic",
  "For every integer width, signedness, batch size and every mix of public and secret operands, addition, subtraction, negation, the comparisons, equality, selection, minimum, maximum, absolute value and width casts yield, when opened, exactly the value that fixed-width two's-complement (or unsigned) arithmetic gives. Values that do not fit the declared width are rejected on input, and mismatched batch sizes are rejected instead of producing a value.",
  ["inputs","configurations"],"all operand values of each width (incl. the minimum, maximum, zero and width 1), all public/secret and scalar/batch combinations",
  "intTest samples a few hundred random pairs for a handful of widths; overflow, sign and boundary values are not swept and the test cannot be built in this sandbox.",
  [FE+"Int.h",FE+"Int_impl.h",FE+"util.h"],
  [("ripple-carry adder/subtractor","Int_impl.h operator+, operator-"),("borrow-chain comparison","Int_impl.h operator<"),("tree equality","util.h equalityCheck"),("sign extension on cast","Int_impl.h cast")],
  observe="openToParty(...).getValue()")
p("F02","Bit and bit-string operators are exact boolean algebra",
  "For all operand values and every public/secret and scalar/batch combination, and, xor, not, equality and selection on bits and bit strings yield, when opened, the boolean function of the operands, element by element and in order. The composite forms that combine one bit with many give the same results as the single operations, and operands of different lengths or batch sizes are rejected.",
  ["inputs","configurations"],"all bit values, string lengths and batch sizes up to the stated bound, all public/secret combinations",
  "bitTest/bitStringTest run with mocks or a few values, and cannot be built here; no combination sweep exists.",
  [FE+"Bit.h",FE+"Bit_impl.h",FE+"BitString.h",FE+"BitString_impl.h",FE+"util.h"],
  [("free/non-free dispatch","Bit_impl.h operator&, operator^, operator!"),("composite and","BitString_impl.h"),("mux","Bit_impl.h / BitString_impl.h mux")],observe="getValue()")
p("F03","A wire lives exactly as long as some handle refers to it",
  "Whatever sequence of copying, moving, assigning (including to itself), overwriting and destroying program values takes place, a value that still has a handle can be read and has the value it was computed with. Once the last handle to a value is gone and the deferred work that uses it is done, its storage is released, and no storage is released twice.",
  ["histories","programs"],"all handle histories up to the stated length over scalar and batch values, under the plaintext and the deferred scheduler",
  "The tests exercise a few fixed lifetimes; the reference-count arithmetic must balance for every copy/move/assign order.",
  [FE+"Bit.h",FE+"Bit_impl.h",SC+"WireKeeper.h",SC+"WireKeeper.cpp",GK+"INormalGate.h",GK+"ICompositeGate.h",GK+"IArithmeticGate.h"],
  [("handle copy/move adjusts reference counts","Bit_impl.h copy/move constructors and assignments"),("release at count zero","WireKeeper.cpp decreaseReferenceCount"),("gates hold references","INormalGate.h constructor/destructor")],
  state=[("reference count","number of live handles and pending gates of a wire")],observe="getValue(), wire statistics")
p("F04","Batching and unbatching are inverse rearrangements",
  "Concatenating batches and splitting them again with the same sizes returns the original batches in order and unchanged, for bits, integers and bit strings. Every element of a concatenation is the corresponding element of its source, and immediate execution rejects a split that asks for more elements than the batch has (deferred execution leaves that to the caller).",
  ["inputs","configurations"],"all batch contents and all size vectors up to the stated bound, including zero-length batches, on every scheduler",
  "Tests use one or two fixed size patterns.",
  [FE+"Bit_impl.h",FE+"Int_impl.h",FE+"BitString_impl.h",GK+"RebatchingGate.h",SC+"PlaintextScheduler.cpp",SC+"EagerScheduler.cpp",SC+"LazyScheduler.cpp"],
  [("rebatching","batchingUp / unbatching in each scheduler"),("deferred rebatching","RebatchingGate.h")],observe="getValue() of the rebatched values")
# ------------------------------------------------------------------ scheduling
p("S01","Deferred execution gives the same results as immediate execution",
  "Every program of boolean, integer, composite, rebatching and opening operations computes the same opened values whether its operations are executed immediately or deferred and grouped by the scheduler, and whichever order results are requested in. Opening a value forces everything it depends on, and work the program still needs is never dropped.",
  ["programs","inputs"],"all straight-line programs up to the stated number of operations, over all operand choices, operation kinds, input values and points at which results are requested",
  "schedulerTest runs fixed programs against an ideal engine; ordering errors appear only for particular dependency shapes.",
  [SC+"LazyScheduler.cpp",SC+"LazyScheduler.h",SC+"EagerScheduler.cpp",GK+"GateKeeper.cpp",GK+"BatchNormalGate.h",GK+"NormalGate.h",GK+"CompositeGate.h",GK+"BatchCompositeGate.h"],
  [("execute up to the level of the requested wire","LazyScheduler.cpp forceWire/executeTillLevel"),("two-phase execution of non-free gates","compute / collectScheduledResult in the gate classes")],
  state=[("unexecuted level queue","gates waiting, grouped by level")],observe="values opened to a party")
p("S02","Gates are placed after everything they read and run exactly once",
  "Every recorded operation is placed in a level strictly later than (or, where permitted, equal to but after) the level that produces each of its inputs, free and interactive work never share a level, and levels are handed out for execution in increasing order, each exactly once. The limit on outstanding work is signalled exactly when the number of recorded and not yet handed-out operations exceeds it.",
  ["histories","programs"],"all sequences of recorded operations and level pops up to the stated length, over all operand choices",
  "gateKeeperTest (not buildable here) checks one fixed circuit.",
  [GK+"GateKeeper.cpp",GK+"GateKeeper.h",GK+"IGateKeeper.h"],
  [("level computation","GateKeeper.cpp addGate / nextAvailableLevel"),("pop","GateKeeper.cpp popFirstUnexecutedLevel"),("batching limit","GateKeeper.cpp hasReachedBatchingLimit")],
  observe="popFirstUnexecutedLevel, getFirstUnexecutedLevel, level of each returned wire")
p("S03","Wire storage never aliases, loses or resurrects a live value",
  "Between its allocation and its release, a stored value has an identifier no other live value has, and reading it returns what was last written, however many other values are allocated, written and released meanwhile. Identifiers of released values may be reused, but reading a released or unknown identifier is reported by the checked variants instead of returning another value.",
  ["histories","inputs"],"all allocate/write/release/read histories up to the stated length, including growth past an arena boundary",
  "allocatorTest runs one fixed history per variant.",
  [SC+"IAllocator.h",SC+"VectorArenaAllocator.h",SC+"UnorderedMapAllocator.h",SC+"WireKeeper.cpp",SC+"WireKeeper.h"],
  [("free list and arenas","VectorArenaAllocator.h allocate/free"),("map ids","UnorderedMapAllocator.h")],observe="get, getWritableReference, free")
p("S04","The two-party plaintext network scheduler agrees on every opened value",
  "When both parties run the same program on the networked plaintext scheduler, every private input reaches the other party, an opened value is identical on both sides and equals the plaintext result, and values recovered from shares are the xor (for bits) or sum (for integers) of the parties' shares. Values extracted as shares recombine to the original.",
  ["inputs","programs"],"all inputs and share values, all programs up to the stated size",
  "Tests cover single operations with fixed inputs.",
  [SC+"NetworkPlaintextScheduler.cpp",SC+"NetworkPlaintextScheduler.h",SC+"PlaintextScheduler.cpp"],
  [("input broadcast","NetworkPlaintextScheduler.cpp privateBooleanInput*"),("share exchange","recoverBooleanWire*, recoverIntegerWire*")],observe="getBooleanValue / getIntegerValue on both parties")
# ------------------------------------------------------------------ engine
p("E01","Secret-shared evaluation reconstructs the plaintext function",
  "For every input, every sharing of it and every correlated randomness, the parties' output shares of xor, and, not, composite and, integer addition, negation and multiplication recombine to the function of the recombined inputs, for single values and for batches of any length. Free operations on public and private mixes are applied so that the shared constant is counted exactly once.",
  ["inputs","configurations"],"all input bits / 64-bit integers, all share splits, all tuple values, batch sizes within the bound, both parties",
  "secretShareEngineTest draws random inputs and random shares; identities such as counting a constant twice show up only for some splits.",
  [EN+"SecretShareEngine.cpp",EN+"SecretShareEngine.h",EN+"ISecretShareEngine.h"],
  [("Beaver reconstruction","SecretShareEngine.cpp computeSecretAndWithGroupedShares and friends"),("asymmetric xor/not","computeAsymmetricXOR/NOT")],observe="shares returned by the engine; reveal results")
p("E02","Values are opened only to the designated party",
  "Opening a shared value to one party gives that party exactly the recombined value and gives every other party nothing that depends on it, for single values and batches, booleans and integers. The results are returned in the order the openings were requested.",
  ["inputs","configurations"],"all shares, both choices of receiving party, batch sizes within the bound",
  "Tests assert the receiving side's value for random inputs; non-receiving sides are not examined.",
  [EN+"SecretShareEngine.cpp",SC+"EagerScheduler.cpp",SC+"LazyScheduler.cpp",CM+"SecretShareEngineCommunicationAgent.cpp"],
  [("reveal","SecretShareEngine.cpp revealToParty"),("agent","SecretShareEngineCommunicationAgent.cpp openSecretsToParty")],observe="return value at each party")
p("E03","What a party sends is masked: it is independent of its secrets",
  "For any two values of a party's private input, the messages it sends when it shares that input, and when it takes part in a multiplication, have the same distribution over its own randomness: each can be explained by either value. Input sharing uses fresh randomness for every bit or integer shared, never the same mask twice.",
  ["inputs"],"all pairs of secrets, all values of the party's randomness, batch sizes within the bound",
  "Tests check only that results recombine; an unmasked or re-used mask passes all of them.",
  [EN+"SecretShareEngine.cpp",TG+"TwoPartyTupleGenerator.cpp",UT+"aes.cpp"],
  [("input masking with a pairwise random generator","SecretShareEngine.cpp setInput / setBatchInput"),("masking with correlated tuples","computeSecretAnd*")],observe="bytes handed to the communication agent")
p("E04","Correlated tuples satisfy their product relation across parties",
  "The boolean tuples the parties obtain recombine so that the third component is the product of the first two, composite tuples so that each product uses the one shared factor, and integer tuples likewise modulo 2^64, for every amount requested and across successive requests. No tuple is handed out twice.",
  ["inputs","configurations","histories"],"all outputs of the underlying transfers/generators, request sizes and histories within the bound, every generator variant that runs here",
  "tupleGeneratorTest samples random outputs for a few sizes.",
  [TG+"TwoPartyTupleGenerator.cpp",TG+"TupleGenerator.cpp",TG+"ProductShareGenerator.cpp",TG+"DummyTupleGenerator.h",TG+"NullTupleGenerator.h",TG+"DummyArithmeticTupleGenerator.h"],
  [("product shares from random transfers","ProductShareGenerator.cpp"),("expansion by hashing/masking","TwoPartyTupleGenerator.cpp")],observe="getBooleanTuple, getCompositeTuple, getNormalAndCompositeBooleanTuples")
p("E05","Correlated oblivious transfer keeps the correlation relation",
  "In every correlated-transfer construction, for each position the receiver's block equals the sender's block, xored with the sender's correlation exactly when the choice bit stored in the block is set, for every correlation value, every choice and every seed. This holds across successive extensions, which never repeat an output.",
  ["inputs","configurations","histories"],"all correlation values, seeds, choices and base-transfer outputs, small parameter sets of each extension",
  "Tests sample a few random seeds per construction.",
  [OT+"IknpShRandomCorrelatedObliviousTransfer.cpp",OT+"ExtenderBasedRandomCorrelatedObliviousTransfer.cpp",OT+"ferret/RcotExtender.cpp",OT+"ferret/SinglePointCot.cpp",OT+"ferret/RegularErrorMultiPointCot.cpp",OT+"ferret/TenLocalLinearMatrixMultiplier.cpp"],
  [("IKNP transpose","IknpShRandomCorrelatedObliviousTransfer.cpp"),("GGM tree","SinglePointCot.cpp"),("local linear code","TenLocalLinearMatrixMultiplier.cpp")],observe="rcot() outputs of both roles")
p("E06","Bidirectional transfers deliver exactly the chosen message",
  "In every round of the bidirectional oblivious transfer each party receives, for each position, exactly the one of the other party's two input bits selected by its own choice bit, in order, for any number of positions and any history of calls.",
  ["inputs","histories"],"all choice bits, input bits and correlated blocks, sizes and call histories within the bound",
  "Tests sample random bits at fixed sizes.",
  [OT+"RcotBasedBidirectionObliviousTransfer.cpp",OT+"DummyBidirectionObliviousTransfer.cpp",OT+"IBidirectionObliviousTransfer.h"],
  [("hash and mask","RcotBasedBidirectionObliviousTransfer.cpp biDirectionOT")],observe="received bits")
p("E07","AES primitives implement FIPS-197 for every key and block",
  "Key expansion computes the FIPS-197 round keys, and the decryption key schedule of the equivalent inverse cipher, for every key. Encrypting a vector of any length in place replaces each block by its AES-128 encryption, independently of the others, and hashing it replaces each block by its encryption xored with itself.",
  ["inputs","configurations"],"all 128-bit keys and blocks, vector lengths within the bound",
  "aesTest checks a few vectors.",
  [UT+"aes.cpp",UT+"aes.h"],
  [("key schedule","aes.cpp expandEncryptionKey/expandDecryptionKey"),("rounds","aes.cpp encryptInPlace / inPlaceHash")],observe="returned blocks")
p("E08","A pseudo-random stream does not depend on how it is read",
  "For a given seed, the stream of bytes drawn from a buffered generator is the same whatever sizes it is drawn in and whatever its buffer size, as are the bits (drawn in whole bytes), integers and blocks built from it, and two generators with the same seed stay in step. The in-place generator continues its stream from call to call. No part of the stream is skipped, repeated or returned uninitialised, and a generator without a buffer rejects buffered requests.",
  ["inputs","histories","schedules"],"all seeds, all splits of the stream into requests within the bound, all interleavings of the background producer",
  "prgTest compares a few chunkings by value on one schedule.",
  [UT+"AesPrg.cpp",UT+"AesPrg.h",UT+"AesPrgFactory.h",UT+"AsyncBuffer.h"],
  [("counter mode","AesPrg.cpp getRandomDataInPlace"),("buffer hand-over","AsyncBuffer.h getData")],state=[("counter","next block to encrypt")],observe="getRandomBytes / getRandomBits / getRandomUInt64")
p("E09","A background-filled buffer hands out every element once and in order",
  "Whatever sizes are requested and however the refilling task is scheduled, a background-filled buffer returns the generator's elements exactly once each and in production order. It never deadlocks, and destroying it at any moment waits for the pending refill without crashing.",
  ["schedules","histories","configurations"],"all buffer sizes and request histories within the bound, all interleavings of consumer and producer",
  "asyncBufferTest runs one schedule.",
  [UT+"AsyncBuffer.h"],[("double buffer","AsyncBuffer.h")],observe="returned data")
p("E10","Bit-matrix and 128-bit helpers are exact",
  "Reading, setting and clearing the least or most significant bit, extracting the low bits, building blocks from bytes and shifting 128-bit blocks touch exactly the bits they name, big numbers reduce to their remainder, and each key of a list expands to two children that depend on that key and the index only. Unmasking with the key of a choice inverts masking for booleans and integers, and requests for more bits than a block has are rejected.",
  ["inputs","configurations"],"all 128-bit operands, lengths within the bound",
  "utilTest samples a few values.",
  [UT+"util.h",UT+"util.cpp",UT+"Masker_impl.h"],[("getLsb/setLsb/getMsb/shift","util.h"),("buildM128i / extract bytes","util.h")],observe="return values")
# ------------------------------------------------------------------ communication
p("N01","Messages between parties arrive complete, in order and unchanged",
  "Whatever mixture of typed, boolean, block and byte messages two parties exchange over an in-memory or socket connection, the receiver obtains exactly the bytes sent, in order, and boolean vectors of every length survive packing. Traffic counters equal the number of bytes moved.",
  ["inputs","histories","fault_sequences"],"all message contents and length sequences within the bound; for sockets all split points of partial reads and writes",
  "Tests send a few fixed messages; partial transfers never occur on a local socket.",
  [CM+"IPartyCommunicationAgent.h",CM+"InMemoryPartyCommunicationAgent.cpp",CM+"InMemoryPartyCommunicationAgentHost.cpp",CM+"SocketPartyCommunicationAgent.cpp"],
  [("typed send/receive","IPartyCommunicationAgent.h sendT/receiveT/sendBool/receiveBool"),("host queues","InMemoryPartyCommunicationAgentHost.cpp"),("socket I/O","SocketPartyCommunicationAgent.cpp sendImpl/recvImpl")],observe="receive results, getTrafficStatistics")
p("N02","In-memory links never deadlock, lose or mix messages under any schedule",
  "Two parties exchanging messages through the in-memory link obtain the same results under every interleaving of their threads: no message is lost, duplicated or delivered to the wrong side, and a receiver whose data has been sent always wakes up.",
  ["schedules"],"all interleavings at synchronisation operations of two parties exchanging messages within the bound",
  "Each test run sees one schedule.",
  [CM+"InMemoryPartyCommunicationAgentHost.cpp",CM+"InMemoryPartyCommunicationAgentHost.h",CM+"InMemoryPartyCommunicationAgentFactory.h"],
  [("condition variable hand-over","InMemoryPartyCommunicationAgentHost.cpp send/receive")],observe="receive results")
p("N03","Shared secrets are opened consistently through the engine's link layer",
  "For any shares and any number of parties within the bound, exchanging shares for opening makes every party recombine the same values, opening to one party gives only that party the values, and the boolean and integer forms keep positions.",
  ["inputs","configurations"],"all share values, 2 parties (and 3 where supported), vector lengths within the bound",
  "Tests use fixed or random vectors.",
  [CM+"SecretShareEngineCommunicationAgent.cpp",CM+"SecretShareEngineCommunicationAgent.h"],
  [("openSecretsToAll / openSecretsToParty","SecretShareEngineCommunicationAgent.cpp")],observe="return values")
# ------------------------------------------------------------------ std lib
p("M01","The AES circuit equals AES for every key and plaintext",
  "Encrypting, and decrypting, inside MPC yields when opened exactly the AES-128 result of the reference implementation under the same round keys, for every block, any number of blocks per row and any batch size; the counter mode built on it xors the data with exactly the encrypted counters, so decryption inverts encryption.",
  ["inputs","configurations"],"all 128-bit round keys and blocks (S-box, per-round and whole-cipher), batch sizes within the bound",
  "Tests use a few random blocks; an S-box error on one of 256 inputs or a wrong column in one round position can escape.",
  [ML+"aes_circuit/AesCircuit.h",ML+"aes_circuit/AesCircuit_impl.h",ML+"aes_circuit/AesCircuitCtr.h",ML+"aes_circuit/AesCircuitCtr_impl.h"],
  [("S-box circuit","AesCircuit_impl.h sbox"),("mixColumns/shiftRows","AesCircuit_impl.h")],observe="opened ciphertext")
p("M02","Permuters realise exactly the requested permutation",
  "For every size and every requested order, permuting secret values yields at position i the element the order asks for, for batches, composite records and bit strings, and whichever party holds the order. Orders that are not permutations are rejected.",
  ["inputs","configurations"],"all permutations of every size up to the bound, all element values",
  "Tests try random permutations of a few sizes.",
  [ML+"permuter/AsWaksmanPermuter_impl.h",ML+"permuter/AsWaksmanPermuter.h",ML+"permuter/AsWaksmanPermuterForBitString_impl.h",ML+"permuter/AsWaksmanParameterCalculator.h",ML+"permuter/IPermuter.h",ML+"permuter/DummyPermuter.h"],
  [("network routing","AsWaksmanParameterCalculator.cpp"),("switch evaluation","AsWaksmanPermuter_impl.h")],observe="opened result")
p("M03","Shuffling outputs a permutation of its input that both parties share",
  "For all inputs and all randomness, shuffling returns every input element exactly once, and repeating elements keep their multiplicity. The random permutations it draws are permutations of the requested size for all randomness, and every permutation can occur.",
  ["inputs"],"all element values and random draws, sizes within the bound",
  "Tests compare sorted outputs for a few runs.",
  [ML+"shuffler/PermuteBasedShuffler.h",ML+"shuffler/NonShuffler.h",ML+"util/secureRandomPermutation.cpp",ML+"util/secureRandomPermutation.h"],
  [("Fisher-Yates with modular draw","util/secureRandomPermutation.cpp"),("two permuter passes","PermuteBasedShuffler.h")],observe="opened result")
p("M04","Compaction keeps exactly the labelled items",
  "For every choice of labels, compaction returns all and only the labelled items, each with its own data and label, however many there are (none, some or all), and at both parties alike. The shuffle-based compactor refuses to run when it may not reveal how many there are.",
  ["inputs","configurations"],"all label vectors (including none and all labelled) and item values, sizes within the bound",
  "Tests use random labels at a few sizes; the empty selection is not tried.",
  [ML+"compactor/ShuffleBasedCompactor.h",ML+"compactor/ShuffleBasedCompactor_impl.h",ML+"compactor/DummyCompactor_impl.h",ML+"compactor/DummyCompactor.h"],
  [("shuffle then reveal labels","ShuffleBasedCompactor_impl.h compaction")],observe="opened result")
p("M05","Oblivious memory behaves like an array",
  "For any history of oblivious reads and accumulating writes with secret indexes, the opened content of the memory is what an ordinary array updated by the same operations would hold, for every index (including out-of-range ones being without effect) and every value type supported.",
  ["inputs","histories"],"all indexes, values and histories within the bound, memory sizes that are and are not powers of two",
  "Tests run random histories at a few sizes.",
  [ML+"oram/LinearOram_impl.h",ML+"oram/WriteOnlyOram_impl.h",ML+"oram/SinglePointArrayGenerator.cpp",ML+"oram/ObliviousDeltaCalculator.h",ML+"oram/DifferenceCalculator.h"],
  [("linear scan","LinearOram_impl.h"),("single-point arrays","WriteOnlyOram_impl.h, SinglePointArrayGenerator.cpp")],observe="publicRead / secretRead results")
p("M06","Single-point arrays differ in exactly the chosen place",
  "For every secret index and every seed, the arrays generated by the two parties agree everywhere except at the index, where the indicator bits differ, for every array length; they agree everywhere if the index is beyond the length.",
  ["inputs","configurations"],"all indexes, seeds and lengths within the bound",
  "Tests sample random indexes.",
  [ML+"oram/SinglePointArrayGenerator.cpp",ML+"oram/ObliviousDeltaCalculator.cpp",ML+"oram/DummySinglePointArrayGenerator.h",ML+"oram/DummyObliviousDeltaCalculator.h"],
  [("GGM expansion with corrections","SinglePointArrayGenerator.cpp")],observe="generateSinglePointArrays output at both parties")
p("M07","Breakdown encoding is injective on what the filters keep",
  "Encoding combinations of attribute values assigns different codes to different combinations among those that pass every filter and a reserved code to every filtered-out combination, never exceeding the announced number of codes. Decoding returns the combination that was encoded, for combinations of at least one value.",
  ["inputs","configurations"],"all attribute combinations, filter kinds and thresholds within the bound",
  "Tests use one fixed table.",
  [ML+"oram/encoder/OramEncoder.h",ML+"oram/encoder/OramEncoder.cpp",ML+"oram/encoder/OramDecoder.h",ML+"oram/encoder/OramMappingConfig.h",ML+"oram/encoder/IFilter.h"],
  [("mapping tables","OramEncoder.cpp generateORAMIndexes"),("filters","IFilter.h")],observe="indexes and decoded values")
p("M08","Fixed-width native integers wrap correctly",
  "Native integers of arbitrary bit width construct only from representable values, and addition, subtraction and negation on them give the mathematically exact result reduced to the width, for all operands, signed and unsigned.",
  ["inputs","configurations"],"all operand values for every width class (1, odd, native, 63, 64), signed and unsigned",
  "IntpTest samples random operands of a few widths.",
  [ML+"util/Intp_impl.h",ML+"util/uint32_impl.h",ML+"util/bool_impl.h"],
  [("round to width","Intp_impl.h")],observe="getValue()")
p("M09","Conversions between native data and secret bits are faithful",
  "Converting integers, 128-bit blocks, booleans, pairs, bit strings and aggregation records to bits and back returns the original for every value, and the adapters' oblivious swap, selection, opening and share extraction act on every component and keep components paired.",
  ["inputs","configurations"],"all values, widths and batch sizes within the bound",
  "Tests use random samples.",
  [ML+"util/util.h",ML+"util/util.cpp",ML+"util/aggregationValue_impl.h",ML+"util/uint32_impl.h",ML+"util/pair_impl.h",ML+"util/bitstring_impl.h"],
  [("convertToBits / convertFromBits","util.h"),("MpcAdapters / obliviousSwap","*_impl.h")],observe="return values")
p("M10","Both parties agree on the jointly sampled public seed or abort",
  "When both parties follow the protocol they obtain the same jointly sampled seed, which is the combination of both contributions for every contribution. A party whose peer opens a value different from the one it committed to aborts rather than returning a seed.",
  ["inputs","fault_sequences"],"all contributions; every alteration of the opened value",
  "Tests check agreement on honest runs only.",
  [ML+"util/secureSamplePublicSeed.h",ML+"util/secureSamplePublicSeed.cpp"],
  [("commit then reveal","secureSamplePublicSeed.cpp")],observe="returned seed / exception")
p("M11","Secure matrix multiplication computes the noised product exactly",
  "For every 0/1 label sharing, every feature matrix and noise vector representable in the fixed-point type, the feature owner obtains the sum of the selected feature columns plus the noise, up to the fixed-point rounding, for any dimensions. An incompatible number of columns, columns of different lengths and calls on the wrong side are rejected.",
  ["inputs","configurations"],"all label shares, fixed-point features, keys and noise; dimensions within the bound",
  "Tests sample random matrices and compare approximately.",
  [ML+"walr_multiplication/OTBasedMatrixMultiplication_impl.h",ML+"walr_multiplication/util/NumberMapper.h",ML+"walr_multiplication/util/COTWithRandomMessage.cpp"],
  [("correction messages","OTBasedMatrixMultiplication_impl.h"),("fixed point","NumberMapper.h")],observe="returned vector")
p("M12","MAC primitives compute AES-CMAC and S2V",
  "The message authentication code of a message of any length equals AES-CMAC of it, whatever was authenticated before with the same object. The synthetic initialisation vector authenticates a message shorter than a block after padding it with one bit to a block and xoring the doubled MAC of the zero block (the block doubled as a little-endian number), and any other message after xoring the undoubled MAC of the zero block onto its last 16 bytes, so different messages never coincide by construction. Equal inputs always give equal outputs.",
  ["inputs","configurations"],"all messages of each length up to the bound, all keys, the MAC taken as an arbitrary function of its input for the derivation",
  "Tests use published vectors only.",
  ["fbpcf/primitive/mac/S2v.cpp","fbpcf/primitive/mac/S2v.h","fbpcf/primitive/mac/AesCmac.cpp"],
  [("dbl/pad/xorend","S2v.cpp getMac128")],observe="returned tag")
# ------------------------------------------------------------------ UDP
p("U01","Private data processing yields exactly the rows of the intersection",
  "Given the two parties' maps from the union to their rows, the processed result has one row per common identifier, in the same order at both parties, each holding both parties' data for that identifier, and nothing of rows outside the intersection.",
  ["inputs","configurations"],"all union maps and row contents within the bound",
  "Tests use random maps of a few sizes.",
  [UDP+"adapter/Adapter.h",UDP+"adapter/Adapter_impl.h",UDP+"data_processor/DataProcessor_impl.h",UDP+"data_processor/DummyDataProcessor_impl.h"],
  [("union map to intersection","Adapter_impl.h adapt"),("select encrypted rows","DataProcessor_impl.h")],observe="opened rows and index lists")
p("U02","Row encryption for data processing decrypts to the original rows",
  "For every key, row width, number of rows and index assignment, the ciphertext rows and nonces produced for upload decrypt under the expanded key to the original rows, the receiving side keeps exactly the rows it asked for in the order it asked for them, and no counter block is used for two different rows of one batch. The same objects can be used for several rounds, rows numbered from an offset keep those numbers, and calling the steps out of order or passing rows of another width than announced is rejected.",
  ["inputs","histories","configurations"],"all row contents, keys, index lists and call orders within the bound",
  "Tests use one batch and matching indexes.",
  [UDP+"data_processor/UdpUtil.cpp",UDP+"data_processor/UdpUtil.h",UDP+"data_processor/UdpEncryption.cpp",UDP+"data_processor/UdpEncryption.h"],
  [("counter blocks","UdpUtil.cpp generateCounterBlocks/localEncryption"),("cherry-pick by index","UdpEncryption.cpp processPeerData")],observe="getProcessedData, getExpandedKey, localEncryption")
p("U03","Rows serialise to bytes and deserialise to the same secret values",
  "Serialising columns of integers, packed flags and fixed-size arrays into rows and deserialising secret-shared rows gives back, for every column and row, the value that was put in, for every mix and order of columns. A column with too few or too many values for the rows, or a row with too few or too many elements or flags in it, is rejected.",
  ["inputs","configurations"],"all column values (extreme values included) and row layouts within the bound",
  "Tests use a few fixed layouts.",
  [UDP+"serialization/RowStructureDefinition.h",UDP+"serialization/IntegerColumn.h",UDP+"serialization/FixedSizeArrayColumn.h",UDP+"serialization/PackedBitFieldColumn.h"],
  [("byte layout","RowStructureDefinition.h"),("little-endian integers","IntegerColumn.h")],observe="opened deserialised columns")
p("U04","Sharding processed data loses and duplicates nothing",
  "Splitting encryption results into any number of shards yields shards whose concatenation is the original, with sizes that differ by at most one and sum to the total, and writing results or keys to storage and reading them back is the identity.",
  ["inputs","configurations"],"all totals and shard counts; all contents within the bound",
  "Tests use one size.",
  [UDP+"data_processor/UdpUtil.cpp",UDP+"data_processor/UdpUtil.h"],
  [("shard size","UdpUtil.h getShardSize"),("split / file format","UdpUtil.cpp splitEncryptionResults, write*/read*")],observe="returned shards, read-back values")
# ------------------------------------------------------------------ I/O
p("I01","Buffered reading returns the file's bytes exactly, whatever the chunking",
  "For any content, any chunk size and any sequence of block and line reads, a buffered reader returns the underlying bytes in order without loss, duplication or stale data, splits lines exactly at newlines, returns a final unterminated line, and reports end of data exactly when everything has been consumed.",
  ["inputs","configurations","histories"],"all contents, chunk sizes and read histories within the bound, including short reads by the underlying reader",
  "bufferedReaderTest uses fixed files and a few chunk sizes, and does not run here.",
  [IO+"api/BufferedReader.cpp",IO+"api/BufferedReader.h",IO+"api/FileIOWrappers.cpp"],
  [("chunk refill","BufferedReader.cpp loadNextChunk/read/readLine")],state=[("position in chunk","next unread byte")],observe="read, readLine, eof")
p("I02","Buffered writing delivers every byte once and in order, or fails loudly",
  "For any chunk size and any sequence of writes, flushes and closes, the underlying writer receives exactly the written bytes in order, everything is delivered by close, and an underlying write that is refused or short raises an error instead of silently losing data.",
  ["inputs","configurations","histories","fault_sequences"],"all write sizes, chunk sizes, contents and failure positions within the bound",
  "bufferedWriterTest uses fixed sizes and no failures, and does not run here.",
  [IO+"api/BufferedWriter.cpp",IO+"api/BufferedWriter.h"],[("flush on full chunk","BufferedWriter.cpp write/flush/close")],observe="bytes given to the underlying writer")
p("I03","Cloud transfers cover the object exactly and surface failures",
  "Reading a cloud object in chunks requests consecutive ranges that cover it exactly once, and uploading sends consecutively numbered parts in order, retries a failed part a bounded number of times without renumbering, and completes only with all parts; a part that fails for good aborts the upload and is reported to the caller, and success is reported exactly if the whole object is stored. An empty range yields nothing and an inverted one is refused.",
  ["inputs","fault_sequences","configurations"],"all object lengths, buffer sizes and failure patterns within the bound",
  "Cloud tests use mocks for the happy path and cannot be built here.",
  [IO+"api/CloudFileReader.cpp",IO+"api/CloudFileWriter.cpp",IO+"cloud_util/S3FileUploader.cpp",IO+"cloud_util/S3FileReader.cpp",IO+"cloud_util/GCSFileUploader.cpp"],
  [("range arithmetic","S3FileReader.cpp readBytes"),("part numbering and retry","S3FileUploader.cpp upload")],observe="requests issued, return values")
p("I04","File names and URIs select the right store, bucket and key",
  "Every path is classified as local or cloud (an address whose scheme is https, s3 or gs is a cloud address), and each supported cloud URI form is split into the bucket, region and full key it names, including bucket names that contain dots; forms that name no bucket or key are rejected.",
  ["inputs"],"all bucket/region/key spellings within the bound for each supported form",
  "Tests list a few URIs.",
  ["fbpcf/aws/S3Util.cpp","fbpcf/gcp/GCSUtil.cpp",IO+"api/IOUtils.h",IO+"FileManagerUtil.cpp",IO+"cloud_util/CloudFileUtil.cpp"],
  [("uriToObjectReference","S3Util.cpp, GCSUtil.cpp"),("isCloudFile","IOUtils.h")],observe="returned references")
p("I05","Comma-separated lines split into exactly their fields",
  "Splitting a line yields one field per comma plus one, each being the text between commas with surrounding white space removed, for every line including empty ones, empty fields and a trailing comma.",
  ["inputs"],"all lines up to the stated length over all byte values",
  "ioUtilsTest lists a few lines.",
  [IO+"api/IOUtils.h",IO+"api/FileIOWrappers.cpp"],[("trim and split","IOUtils.h splitByComma")],observe="returned fields")
p("I06","Local file ranges return exactly the requested bytes",
  "Reading a byte range of a local file returns exactly the bytes from the start position up to the end position or the end of the file, for every content including zero bytes, and an inverted or out-of-file range is rejected. What is written to a file is what is read back, and writing, copying or transferring to a device that is full is reported instead of leaving a shortened file behind silently.",
  ["inputs"],"all contents and ranges within the bound",
  "Tests read text ranges of one file.",
  [IO+"LocalFileManager.cpp",IO+"api/LocalFileReader.cpp",IO+"api/LocalFileWriter.cpp"],[("seek and read","LocalFileManager.cpp readBytes")],observe="returned string")
# ------------------------------------------------------------------ examples / misc
p("X01","The example games compute their advertised functions",
  "For all amounts the billionaire example tells exactly whether the second party's 32-bit total is larger, and the edit-distance example's strings report lengths, upper-casing, selection and padding exactly as the corresponding plaintext string operations do.",
  ["inputs"],"all amounts and all strings within the bound",
  "Example tests use fixed values and cannot be built here.",
  ["example/billionaire_problem","example/edit_distance/AsciiString_impl.h","example/edit_distance/AsciiString.h"],
  [("comparison","BillionaireProblemGame_impl.h"),("string circuits","AsciiString_impl.h")],observe="opened results")
p("X02","Element-wise vector helpers and metric totals are exact",
  "Element-wise map, reduce, addition and xor give at each position the function of the operands at that position, unequal lengths and empty reductions are rejected, and aggregated metrics equal the sum of what each recorder reports.",
  ["inputs"],"all element values, lengths within the bound, all recorder contents",
  "functionalUtilTest and vectorUtilTest use one fixed vector.",
  ["fbpcf/common/FunctionalUtil.h","fbpcf/common/VectorUtil.h","fbpcf/util/MetricCollector.h"],
  [("apply","VectorUtil.h"),("aggregateMetrics","MetricCollector.h")],observe="return values")
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
