C = "crypten/"
NOT_APPLICABLE = {}

prop("C01", "Encrypted linear and bilinear arithmetic equals plaintext arithmetic",
     "Any program of additions, subtractions, negations, multiplications, matrix products, convolutions, squares, products, divisions by public values, sums, means, polynomial evaluation, average pooling, indexing, reshaping, padding, concatenation and scatter over secret-shared tensors decrypts to the plaintext result of the same program, within the rounding error of the configured fixed-point precision. "
     "This holds whichever party supplied each input, for any number of parties, tuple provider and multiplication protocol, and under any interleaving and message timing.",
     ["programs", "inputs", "configurations", "schedules"],
     "all straight-line programs and inputs in the encoder's range x 1..5 parties x trusted-first-party / trusted-third-party tuples x beaver / replicated x precision bits x every schedule and message delay",
     TESTS + ", one operation per test, on a few fixed shapes; the dedicated test of the secret-shared tensor type is not among the stable tests, and third-party tuples, 3+ parties and operation sequences are not covered",
     [C + "mpc/mpc.py", C + "mpc/primitives/arithmetic.py", C + "mpc/primitives/beaver.py", C + "mpc/primitives/replicated.py", C + "encoder.py", C + "common/functions/regular.py"],
     [("Beaver triples, squares and wraps", C + "mpc/primitives/beaver.py"), ("scale tracking and rescaling after products", C + "mpc/primitives/arithmetic.py"), ("replicated secret sharing", C + "mpc/primitives/replicated.py")],
     ["decrypted values at every party"],
     note="Random programs with a float64 reference that carries per-element error bounds; a wrong value must recur under independent secret randomness before it is reported (truncation is probabilistic). Sampling, not proof.")

prop("C02", "Comparisons, sharing conversions and selections are exact",
     "Comparisons, equality tests, signs, absolute values, ReLU, maxima, minima, argmax, argmin, max pooling, conditional selection, conversions between arithmetic and binary sharing and bitwise operations on secret-shared values decrypt to exactly what the fixed-point encodings of the inputs imply, including at ties, zero and values one unit apart. "
     "Argmax and argmin return a one-hot (or index) marking one true extremum, for every reduction algorithm, dimension and shape.",
     ["inputs", "programs", "configurations", "schedules"],
     "all inputs in the comparable range incl. ties and adjacent values x dims x reduction algorithms x 1..5 parties x providers x schedules",
     TESTS + "; inputs are drawn uniformly so ties, zeros and neighbouring encodings are almost never compared, and conversions are checked with two parties only",
     [C + "mpc/primitives/binary.py", C + "mpc/primitives/circuit.py", C + "mpc/primitives/converters.py", C + "common/functions/logic.py", C + "common/functions/maximum.py", C + "common/functions/pooling.py"],
     [("carry-lookahead adder circuit", C + "mpc/primitives/circuit.py"), ("A2B/B2A conversion", C + "mpc/primitives/converters.py"), ("tournament / pairwise / log reductions", C + "common/functions/maximum.py")],
     ["decrypted values at every party"],
     note="Exact oracle on encoded integers; argmax judged as membership in the set of true extrema.")

prop("C03", "Nonlinear functions stay within their accuracy envelope",
     "exp, log, reciprocal, division by encrypted values, sqrt, inverse sqrt, integer and real powers, norms, cos, sin, sigmoid, tanh, erf, softmax and log-softmax of encrypted values decrypt to the true mathematical value within a fixed relative or absolute error on their working ranges, for every tensor shape, input owner, number of parties, tuple provider, protocol and approximation method offered by the configuration. "
     "None of them changes its input tensor.",
     ["inputs", "configurations", "schedules"],
     "all inputs of the working range of each function x shapes x 1..4 parties x providers x protocols x approximation methods x schedules; 16 bits of precision and default iteration counts",
     TESTS + "; the tests use loose tolerances on a few uniformly random tensors, two parties, one method",
     [C + "common/functions/approximations.py", C + "common/functions/power.py", C + "mpc/mpc.py"],
     [("limit, Householder and Newton-Raphson iterations", C + "common/functions/approximations.py"), ("power and norms", C + "common/functions/power.py")],
     ["decrypted values at every party"],
     note="The oracle is the true function; the tolerance per sub-range is a measured envelope of the pinned tree widened by about two, so a degradation below that factor is not seen. Reciprocals of magnitudes above 10 with three or more parties are outside the property: Newton-Raphson at 16 bits is numerically unstable there.")

prop("C04", "All parties decrypt the same value, and revealing to one party tells only that party",
     "Decrypting a secret-shared tensor gives every party bit-for-bit the same plaintext, whichever operations produced it. "
     "Revealing or decrypting to one chosen destination gives that party the same value a public decryption would, and gives every other party nothing: no other party receives any of the shares involved. Decrypting changes neither the tensor nor what a later decryption returns.",
     ["programs", "inputs", "configurations", "schedules"],
     "all programs and inputs x 2..5 parties x destinations x providers and protocols x schedules",
     TESTS + "; a test only looks at the value its own party obtained, so different values at different parties or shares delivered to the wrong party go unseen",
     [C + "mpc/primitives/arithmetic.py", C + "mpc/primitives/binary.py", C + "mpc/mpc.py", C + "cryptensor.py"],
     [("reveal / get_plain_text / reveal_batch", C + "mpc/primitives/arithmetic.py"), ("all_reduce and reduce", C + "communicator/distributed_communicator.py")],
     ["decrypted values at every party, compared across parties", "messages delivered to each party"])

prop("C05", "Nothing a party receives depends on the other parties' secrets",
     "Before a value is deliberately decrypted, the number, order, endpoints, types and sizes of all messages are the same whatever the secret inputs are, no message contains a recognisable plaintext or encoding of another party's secret, and every value opened inside a protocol is masked: its distribution over the secret randomness is uniform and does not depend on the inputs.",
     ["inputs", "programs", "configurations", "histories"],
     "all pairs of secret inputs of the same shape x operations x 2..4 parties x providers and protocols x schedules",
     "tests assert on decrypted results only; a protocol that leaks its inputs on the wire still computes the right answer",
     [C + "mpc/primitives/beaver.py", C + "mpc/primitives/arithmetic.py", C + "mpc/primitives/binary.py", C + "mpc/primitives/converters.py", C + "common/functions", C + "mpc/provider"],
     [("masked openings epsilon, delta", C + "mpc/primitives/beaver.py"), ("input sharing", C + "mpc/primitives/arithmetic.py"), ("PRZS", C + "mpc/primitives/arithmetic.py")],
     ["every message recorded by the simulated network"],
     note="The two-input comparison of message patterns is exact; uniformity is a statistical test over simulated repetitions with independent secret randomness, with thresholds chosen for a negligible false-alarm rate. Point-to-point shares of the replicated protocol are left to C06.")

prop("C06", "Secret randomness is fresh, unpredictable and never reused",
     "No mask, tuple or zero-sharing is used twice, within a session, across sessions or after re-initialising; the shares of an input, of zero and of a product are unpredictable to any party that lacks the owner's entropy; tuples of the trusted third party and of the trusted first party depend on their own entropy and not on a constant; and what is sent when a product is re-shared carries fresh randomness.",
     ["histories", "configurations", "schedules"],
     "all sequences of operations and of init/uninit sessions x 2..4 parties x providers and protocols x schedules",
     "a reused or constant mask changes no decrypted value; nothing in the tests looks at randomness",
     [C + "__init__.py", C + "mpc/provider/ttp_provider.py", C + "mpc/provider/tfp_provider.py", C + "common/rng.py", C + "mpc/primitives/arithmetic.py", C + "mpc/primitives/replicated.py", C + "cuda/cuda_tensor.py"],
     [("generator seeding in init", C + "__init__.py"), ("TTP request seeds", C + "mpc/provider/ttp_provider.py"), ("re-sharing", C + "mpc/primitives/replicated.py")],
     ["messages and shares recorded across simulated runs in which single parties' entropy is replaced"],
     note="Decided by re-running the same schedule with one entropy source replaced and comparing what each party holds; equality of random values is treated as reuse.")

prop("C07", "Results do not depend on timing, and every run ends",
     "With the same inputs and secret randomness, the decrypted values, the held shares and the sequence of messages of every party are the same whatever the interleaving of the parties, the message delays, and temporary stalls, partitions and clock jumps; and every program ends, on every party, once the disturbances stop.",
     ["schedules", "faults", "programs"],
     "all programs x 2..5 parties plus third party x interleavings x delays x sequences of process stalls, healed partitions and clock jumps",
     TESTS + "; a race or a deadlock that needs an unusual interleaving never appears on an idle machine",
     [C + "communicator/distributed_communicator.py", C + "mpc/provider/ttp_provider.py", C + "__init__.py", C + "mpc"],
     [("pairing of collectives and point-to-point messages", C + "communicator/distributed_communicator.py"), ("generator synchronisation", C + "__init__.py"), ("third-party request loop", C + "mpc/provider/ttp_provider.py")],
     ["values, shares and per-link message sequences, compared to a calm run with the same entropy"])

prop("C08", "A party's failure stops the computation instead of corrupting it",
     "If a party or the third party dies at any point of a session, no surviving party ever obtains a wrong, partial or unverified result: each value a survivor decrypts equals the plaintext result, and every survivor that still needs the dead party ends with an error and does not hang.",
     ["crash points", "programs", "schedules"],
     "all programs x 2..4 parties plus third party x which process dies x at which step x schedules and delays",
     "no test kills a party",
     [C + "communicator/distributed_communicator.py", C + "mpc/provider/ttp_provider.py", C + "mpc/primitives"],
     [("collectives and point-to-point calls", C + "communicator/distributed_communicator.py"), ("error propagation out of primitives", C + "mpc/primitives/converters.py")],
     ["values decrypted by survivors", "how each survivor ends"],
     level="fault_enumeration",
     note="A crash is simulated as gloo reports it: pending and later operations with the dead peer fail with an error. Detection of silent failures by timeout is the transport's job and not modelled.")

prop("C09", "Every communicator operation delivers exactly what was sent, to whom it was sent",
     "For any sequence of send, recv, isend, irecv, scatter, reduce, all_reduce (single and batched, with every reduction operator), gather, all_gather, broadcast (single and batched), barrier and object transfers among any number of parties, each call returns exactly the tensors or objects the operation defines, with the same shape, element type and 64-bit wrap-around arithmetic, at the parties that should get them and nowhere else, without changing the caller's tensors, and whatever the interleaving and the delays.",
     ["histories", "inputs", "schedules", "configurations"],
     "all sequences of communicator calls x tensor shapes and extreme values x 1..5 parties x with and without a third party x schedules and timing faults",
     TESTS + "; they check one call at a time, on small values, with two parties",
     [C + "communicator/distributed_communicator.py", C + "communicator/communicator.py"],
     [("collectives and point-to-point", C + "communicator/distributed_communicator.py")],
     ["return values and arguments of every call at every party", "recipients recorded by the simulated network"])

prop("C10", "Threads of one process communicate as parties do, whatever the thread schedule",
     "The in-process communicator, which lets threads of one process play the parties, gives every operation the result it would have between processes, for every interleaving of the threads: messages of different senders, of different operations and of successive calls are never confused, a thread that falls behind or runs ahead gets its own messages in order, and no thread waits forever.",
     ["schedules", "histories"],
     "all sequences of calls x 1..5 threads x thread interleavings and stalls, several sessions in one process",
     "the tests of this communicator run under one operating-system schedule and are not among the reliable ones",
     [C + "communicator/in_process_communicator.py"],
     [("mailbox queues and barrier", C + "communicator/in_process_communicator.py")],
     ["return values of every call in every thread", "progress of every thread"],
     note="Only the communicator is claimed. Secure computation over threads is not supported by the code (the generators are process-global), batched, bitwise and object operations are not implemented there.")

prop("C11", "An object received from another party never runs code of that party's choosing",
     "Whatever bytes a party sends as an object, receiving them never imports, looks up, calls or instantiates anything outside the set of safe classes: hostile, malformed or truncated objects are refused with an error before any effect, at every receiving call (receiving an object, broadcasting an object, loading from another party). Objects built only from safe classes, including classes registered as safe, arrive equal to what was sent, and the connection still works after a refusal.",
     ["inputs", "faults", "configurations"],
     "all serialised objects a malicious sender can craft (pickle opcodes, names, nested and dotted attributes, torch containers) or a fault can damage x receiving calls x 2..4 parties x schedules",
     "the tests try one malicious class and one registered class",
     [C + "common/serial.py", C + "communicator/distributed_communicator.py", C + "__init__.py"],
     [("restricted unpickler and safe classes", C + "common/serial.py"), ("recv_obj, broadcast_obj", C + "communicator/distributed_communicator.py")],
     ["calls of planted canaries", "attempts to import", "the object or error at every receiver"],
     level="fault_enumeration",
     note="Hostile payloads refer to a canary that only records; a payload is never given a destructive target.")

prop("C12", "What was saved is what is loaded, across crashes, and loading reveals nothing to others",
     "A secret-shared tensor, a container of them or a private model that every party saved with a completed save is loaded by a later session with the same shares, type, precision and decrypted value, also when a party or all of them crashed afterwards, and a crash in the middle of a later save never damages what other files hold. "
     "A plaintext tensor or model that one party holds in a file and loads for all of them has its values only at that party: the others obtain the same type, shape and structure but no message shows them the values, and a failure at the loading party is an error at every party and not a hang.",
     ["crash points", "faults", "histories", "schedules"],
     "all sequences of saves and loads x kinds of object x 2..3 parties x crash of one or all at any step, torn or full disk x schedules",
     "the tests save and load once in the same process without a failure",
     [C + "__init__.py", C + "nn/module.py", C + "mpc/mpc.py"],
     [("save, load, load_from_party, save_from_party", C + "__init__.py"), ("serialisation of shares", C + "mpc/primitives/arithmetic.py")],
     ["decrypted values and shares after restart", "messages during the load", "outcome at each party"],
     level="fault_enumeration",
     note="Only durable (completed) saves are claimed; the write of a file is not atomic in this code and no caller is promised that. The disk is simulated in memory.")

prop("C13", "Tuples prepared in advance give the same results and are used at most once",
     "Recording the tuples a computation requests, generating them in advance, saving and reloading them, and then computing gives the same decrypted results as generating tuples on demand, for every order of trace, fill, save, load and run, when the cache holds too few, too many or other tuples, and after a restart; no prepared tuple is ever used for two operations, none is used that does not fit the operation, and all parties always use the same one.",
     ["histories", "crash points", "configurations", "schedules"],
     "all sequences of trace, trace_once, fill, save, load, run, restart x programs x 2..3 parties x providers x schedules",
     "the tests fill the cache once for one operation and compare bookkeeping, with two parties",
     [C + "mpc/provider/provider.py", C + "mpc/provider/tfp_provider.py", C + "mpc/provider/ttp_provider.py"],
     [("request trace, cache lookup", C + "mpc/provider/provider.py")],
     ["decrypted values", "the tuple shares each multiplication consumed, compared across uses and parties"],
     level="fault_enumeration",
     note="The parties are assumed to trace, fill, save and load at the same points of the program.")

prop("C18", "Communication statistics account for exactly the traffic that happened",
     "While verbose communication is on, the reported rounds and bytes grow by exactly what each communicator call moved, by its definition, at every party and number of parties; while it is off, and right after a reset, nothing is counted; elapsed communication time never exceeds the time that passed. Counting never changes a result or a message.",
     ["histories", "configurations", "schedules"],
     "all sequences of communicator calls and secure operations, with verbose switched and statistics reset at any point x 1..5 parties x schedules and clock skew",
     "the tests count single calls with two parties",
     [C + "communicator/communicator.py", C + "communicator/distributed_communicator.py", C + "debug/__init__.py"],
     [("_log_communication, _log_communication_time, _logging decorator", C + "communicator/communicator.py")],
     ["get_communication_stats before and after each call", "messages recorded by the simulated network"],
     note="Sizes of transferred objects are estimates in this code and not checked; for the replicated protocol only totals per call are.")
