#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 properties_src.py)."""
import json
P = []
def p(id, title, statement, over, q, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=mech, where=files[0])], **kw)))
A = "crypten/mpc/primitives/arithmetic.py"; B = "crypten/mpc/primitives/binary.py"
p("C01", "Encrypting then revealing a tensor returns the tensor",
  "For every number of parties, source party, sharing type (additive or XOR), fixed-point precision, dtype and shape, encrypting a representable tensor and revealing it gives every party the source party's value, to within one unit of the last fixed-point place plus rounding of the element type (exactly for integers that the element type represents). Revealing to one recipient gives that recipient the value and gives no other party a value. The parties' shares always recombine to the encoding of the source's value; non-source parties' inputs never influence it.",
  ["inputs", "configurations"], "all tensors in range, party counts, sources, recipients, precisions, sharing types",
  "tests sample one precision, two or three parties and a few random tensors; they compare with a loose tolerance and never look at each party's share",
  [A, B, "crypten/mpc/mpc.py", "crypten/encoder.py"], "input() adds the encoded plaintext to a pseudo-random sharing of zero at the source; reveal() all-reduces / reduces shares; encoder decodes")
p("C02", "Shares and messages reveal nothing about secrets before a reveal",
  "Whatever a proper subset of the parties sees during a computation - its own shares of any secret, and every word other parties send it other than an explicit reveal of a result to it - is masked by randomness that subset does not know: it changes from run to run with fresh randomness, takes every bit value, and is never a value masked with a mask that was used before. No share held by a party equals, or is a fixed function of, a secret of another party, also when shares of any proper subset are combined.",
  ["inputs", "programs", "histories", "configurations"], "all secrets, operations, party counts, sharing types, providers, and proper subsets of parties",
  "secrecy is a property of the distribution of shares and transcripts over all randomness and all subsets; a functional test sees one run and only checks the decrypted result",
  [A, B, "crypten/mpc/primitives/beaver.py", "crypten/mpc/primitives/replicated.py", "crypten/mpc/provider/tfp_provider.py", "crypten/mpc/provider/ttp_provider.py", "crypten/__init__.py"],
  "PRZS masks, Beaver openings x-a, y-b, provider tuples, seed distribution to neighbours")
p("C03", "Linear operations are exact and leave their operands untouched",
  "Addition, subtraction, negation, sums (also cumulative, trace, mean numerator), products with public integer scalars and mixed-precision or mixed public/private addition give exactly the plaintext fixed-point result, with broadcasting as for ordinary tensors, for every party count. An operation that is not in-place never changes the value, shape or precision of any operand or any other live tensor; an in-place one changes exactly its target (and views of it) and returns it.",
  ["programs", "inputs", "histories", "configurations"], "all finite programs over these operations, tensors in range, operand kinds and party counts",
  "aliasing and mutation bugs need particular sequences of operations on shared operands; tests run each operation once on fresh tensors",
  [A, "crypten/mpc/mpc.py", "crypten/cryptensor.py", "crypten/encoder.py"], "share-local arithmetic, rank-0 public addition, encoder scale alignment, shallow copies that share encoders")
p("C04", "Products of private tensors are correct under every protocol",
  "Element-wise, matrix, and (transposed, strided, padded, dilated, grouped) 1- and 2-D convolution products and squares of private tensors, and of private with public real-valued tensors, equal the plaintext products up to a few units in the last fixed-point place (bounded by the number of parties plus operand rounding), for every number of parties, every provider of correlated randomness, both multiplication protocols where supported, and with active-security checks on or off. Operands are unchanged.",
  ["inputs", "configurations", "programs"], "all operand values in range, shapes, strides, party counts, providers, protocols",
  "tests use few shapes with loose absolute tolerances and do not cover protocols, providers and party counts jointly",
  [A, "crypten/mpc/primitives/beaver.py", "crypten/mpc/primitives/replicated.py", "crypten/mpc/provider/provider.py"], "Beaver / replicated multiplication followed by truncation to the encoder scale")
p("C05", "Public division and rescaling stay within a few last-place units",
  "Dividing a private tensor by a public nonzero integer or real, taking means, and changing a tensor's precision give the plaintext quotient to within a number of last-place units bounded by the number of parties (for real divisors plus the rounding of the divisor's reciprocal to the working precision), for both signs, every party count and every in-range magnitude; converting to a finer precision and back is lossless. The wrap count on which division by more than two parties relies equals the true number of ring overflows of the shares.",
  ["inputs", "configurations"], "all in-range dividends, divisors, party counts and precisions",
  "truncation errors are share-dependent and of probability-one size only for some share patterns or party counts; tests tolerate 1e-2..1e-1 absolute error",
  [A, "crypten/mpc/primitives/beaver.py", "crypten/common/util.py"], "local truncation for two parties, wraps protocol for more")
p("C06", "XOR-shared computation is bit-exact",
  "And, or, xor, not, shifts, additions, comparisons of bits and sums on XOR-shared tensors, with private or public operands and broadcasting, give bit-for-bit the result of the same 64-bit integer operation, for every word value, shape and party count; operands of non-in-place operations are unchanged.",
  ["inputs", "programs", "configurations"], "all 64-bit words, operation sequences, shapes and party counts",
  "adders have carry chains that only particular bit patterns exercise; tests draw small random integers",
  [B, "crypten/mpc/primitives/circuit.py", "crypten/mpc/primitives/beaver.py"], "Beaver AND, set-propagate-kill adder, public operand applied by one party")
p("C07", "Converting between additive and XOR sharing preserves the value",
  "Converting any tensor between additive and XOR sharing, in either direction and repeatedly, preserves its plaintext exactly (including negative values, boundary words, single-bit conversions and the tensor's precision), leaves the source usable, and yields a sharing that recombines across all parties for every party count.",
  ["inputs", "histories", "configurations"], "all words, conversion sequences, bit widths, precisions and party counts",
  "conversion uses carries between the parties' shares: only some share patterns overflow, which differs per run and per party count",
  ["crypten/mpc/primitives/converters.py", B, "crypten/mpc/mpc.py"], "A2B sums XOR-sharings of each arithmetic share with the adder; B2A uses shared random bits")
p("C08", "Comparisons, extrema and selections agree with the plaintext ones",
  "For in-range operands, less/greater/equal comparisons (private or public right-hand side), sign, absolute value, rectification, clamping-style selection, where, maximum, minimum, arg-maximum/minimum (as a one-hot tensor or index that selects a true extremum exactly once per slice, ties included) and max-pooling agree with the plaintext result - exactly, or to the last fixed-point place where the result is a product with a real-valued mask - for every method, dimension, party count and provider.",
  ["inputs", "configurations"], "all operand values including equal, negative, extreme and tied ones; all methods, dims, party counts",
  "ties, equal values, single-element dims and non-power-of-two lengths are data-dependent branches of the tree reductions that random float tests almost never hit",
  ["crypten/common/functions/logic.py", "crypten/common/functions/maximum.py", "crypten/common/functions/pooling.py", "crypten/mpc/mpc.py"], "sign bit by A2B, tree/pairwise reductions with weighted tie-breaking")
p("C09", "Correlated randomness is valid, fresh, single-use and cache-safe",
  "Every tuple of correlated randomness handed to a protocol (products, squares, ANDs, wrap counts, shared bits) satisfies its defining relation when all parties' parts are combined, all parties receive parts of the same tuple, and no tuple is ever handed out twice. With caching, any history of tracing, filling, saving, loading and computing (including requests the cache does not hold or no longer holds) gives correct results, and a trace plus fill makes an identical repetition run entirely from the cache.",
  ["histories", "configurations", "inputs"], "all request histories and cache operations, party counts, providers, request kinds and shapes",
  "reuse and exhaustion only show over histories of requests; tests check one request of each kind and one fixed cache scenario",
  ["crypten/mpc/provider/provider.py", "crypten/mpc/provider/tfp_provider.py", "crypten/mpc/provider/ttp_provider.py"], "request tracing, per-request tuple cache, provider generation")
p("C10", "Trusted-third-party mode stays in lockstep over any history",
  "With a trusted third party providing randomness, any sequence of requests of any kinds, shapes and sizes by the parties is served with valid correlated randomness that is the same tuple at every party; server and clients never get out of step or deadlock, results equal those of first-party randomness, and shutting down and re-initialising starts a fresh, consistent session with new seeds.",
  ["histories", "configurations"], "all request sequences, shapes, party counts and init/uninit cycles",
  "seed and generator streams diverge only after particular request mixes; tests run each operation kind in isolation at one world size",
  ["crypten/mpc/provider/ttp_provider.py", "crypten/__init__.py", "crypten/communicator/distributed_communicator.py"], "clients expand shares from seeds shared with the server; the server corrects party 0's part")
p("C11", "Collective communication has its stated meaning for all parties",
  "Point-to-point and collective operations (send/receive, scatter, gather, all-gather, reduce, all-reduce, broadcast, object variants, barrier), single or batched, deliver to every party exactly the data the operation is defined to deliver - sums, products and XORs over all parties exactly once, results in rank order - for every party count, root, dtype, shape and subgroup, and never modify the caller's input tensors unless asked to be in place.",
  ["inputs", "programs", "configurations"], "all sequences of collectives, roots, reduce operators, dtypes, shapes and party counts",
  "tests use two parties and a few roots; batched, object and XOR variants and interleavings of different collectives are barely sampled",
  ["crypten/communicator/distributed_communicator.py", "crypten/communicator/communicator.py"], "wrappers over torch.distributed with cloning, batching and rank groups")
p("C12", "In-process (threaded) parties agree under every thread schedule",
  "When parties run as threads of one process, every sequence of matching collective (broadcast, scatter, gather, all-gather, reduce, all-reduce) and point-to-point tensor operations delivers to each party the same data as between separate processes and terminates, whatever the interleaving of the threads.",
  ["schedules", "programs"], "all interleavings of the party threads and all matching operation sequences",
  "a test observes the few schedules the OS happens to produce; a mis-delivery needs one party to run ahead of another between two operations",
  ["crypten/communicator/in_process_communicator.py"], "per-party mailboxes plus a cyclic barrier; operations put into and get from mailboxes")
p("C13", "Received data can only deserialize to allow-listed, hook-free objects",
  "Bytes received from another party deserialize only if every class or function they reference is explicitly allow-listed by module and name (built-in list or registered by the user); anything else is rejected with an error and executes no code from the payload, whatever opcodes, protocol, nesting or names the payload uses. A received tensor or module with (backward) hooks attached to it, its submodules or its parameters is refused. Allow-listed objects round-trip unchanged.",
  ["inputs", "histories"], "all byte strings an adversarial party may send and all registration histories",
  "the adversary chooses the payload; tests try a handful of payloads",
  ["crypten/common/serial.py", "crypten/communicator/distributed_communicator.py"], "restricted unpickler consulted on every global lookup")
p("C14", "Back-propagation accumulates exact gradients over any computation graph",
  "For every graph of differentiable operations - with tensors used several times, diamonds, unused branches, detached and non-differentiable parts - one backward pass gives each tensor that requires a gradient the sum over all paths, computed once per node whatever the order of construction, and leaves others without one; repeated passes accumulate until reset. Nothing is recorded while gradients are disabled, and calling backward where it is not defined fails with an error instead of giving a wrong gradient.",
  ["programs", "histories"], "all finite operation graphs, root choices, gradient-mode changes and repeated backward calls",
  "tests check single functions and one or two hand-made graphs; ordering and multiple-use errors depend on graph shape",
  ["crypten/cryptensor.py"], "child counters and visited sets drive reverse traversal; gradient functions save tensors in a context")
p("C15", "Each operation's gradient is the adjoint of its derivative",
  "For every differentiable operation and every accepted argument form (dimensions, keep-dimension, broadcasting, public or private operands, repeated indices), the gradient it back-propagates equals the transpose of the operation's own derivative applied to the incoming gradient, to within fixed-point rounding, and has the shape of the input it belongs to.",
  ["inputs", "configurations"], "all operations, argument combinations, input and incoming-gradient values away from kinks",
  "each operation has many argument forms; tests check one or two of them against PyTorch with loose tolerances, in single precision plaintext only",
  ["crypten/gradients.py", "crypten/cryptensor.py"], "one forward/backward pair per operation with saved context")
p("C16", "Settings and gradient-mode changes are scoped and always restored",
  "Any nesting of temporary configuration overrides, gradient-mode switches and gradient-mode decorators, left normally or through an exception at any point, restores on exit exactly the settings in force at entry and makes only the named settings different inside, with exactly the given values; assigning a setting affects exactly that setting, loading a configuration file replaces the settings by the file's (the default file restores the defaults), and computations leave all settings as they were.",
  ["programs", "histories", "fault_sequences"], "all nestings, orders, override sets and exception points",
  "tests open one scope and leave it normally",
  ["crypten/config/config.py", "crypten/cryptensor.py"], "context managers that copy and restore configuration and a class-level gradient flag")
p("C17", "Saving and loading move only what the source party intends",
  "Loading a tensor or model from one party gives the source its object and every other party an object of the same structure carrying none of the source's values - parameters or buffers - so that the values can only be obtained by later encryption from the source; saving is done by exactly the chosen party, save followed by load returns the same values, and encrypting a loaded model from its recorded source gives every party shares of the source's values under the right names. A load that fails at the source raises an error at every party, and a save that fails raises at the source, instead of leaving parties waiting.",
  ["inputs", "configurations", "fault_sequences"], "all tensors, models, sources, party counts and source-side failures",
  "leaks are invisible to functional tests, which only look at the result at the source or after encryption",
  ["crypten/__init__.py", "crypten/communicator/distributed_communicator.py"], "source broadcasts a zeroed dummy object and the others adopt it")
p("C18", "Communication statistics count every operation exactly once",
  "With statistics enabled, after any sequence of communication operations the reported number of rounds and bytes equals the sum of the costs defined for each operation performed, resetting sets them to zero, disabling stops counting, and measuring never changes what is communicated or computed.",
  ["programs", "histories", "configurations"], "all operation sequences, sizes, party counts and resets",
  "tests check one operation at a time and mostly with one fixed tensor",
  ["crypten/communicator/communicator.py", "crypten/communicator/distributed_communicator.py"], "logging decorator around each operation")
p("C19", "The optimizer follows the momentum-SGD recurrence over any history",
  "Over every history of gradient accumulation, zeroing and steps, with any setting of learning rate, momentum, dampening, weight decay and Nesterov momentum and any parameter groups, each parameter follows exactly the documented momentum-SGD recurrence (to fixed-point rounding); parameters without gradients and parameters of other groups are untouched, gradients are cleared as requested, and invalid settings are rejected.",
  ["histories", "configurations", "inputs"], "all step/zero histories and hyper-parameter settings",
  "tests compare a few steps of one or two settings with PyTorch",
  ["crypten/optim/sgd.py", "crypten/optim/optimizer.py"], "per-parameter momentum buffer in optimizer state, group defaults")
p("C20", "Model state is consistent through any encrypt/decrypt/train/load history",
  "Through any history of encrypting, decrypting, switching train/eval mode, saving and loading state, updating parameters and running forward passes, a model (nested, sequential or an arbitrary computation graph) keeps all of its parameters and buffers with their values, encrypts and decrypts all of them together, refuses mixed plaintext/ciphertext inputs where documented, evaluates every graph node its outputs need exactly once (and no node twice), after its inputs, whatever order nodes were added in, and produces the same output in equivalent states.",
  ["histories", "programs"], "all operation histories and all module trees / acyclic graphs",
  "tests run one fixed history per layer; graph tests use a chain",
  ["crypten/nn/module.py", "crypten/nn/onnx_converter.py"], "recursive application over children, encrypted flag, graph scheduler with reference clearing")
p("C21", "Data-movement operations permute shares exactly as plaintext elements",
  "Reshaping, transposing, permuting, flipping, rolling, narrowing, indexing, gathering, scattering, selecting, splitting, stacking, concatenating, repeating, expanding and padding (the latter for additive sharing), in every argument form accepted for ordinary tensors, move elements of private (additive or XOR) tensors exactly as they do for ordinary tensors, consistently at all parties, keep the precision and sharing type, and size and shape queries agree with the plaintext tensor's.",
  ["inputs", "configurations", "programs"], "all shapes, argument forms, dims (negative too), sharing types and party counts",
  "many argument forms per operation; tests use two parties, one sharing type and selected forms",
  ["crypten/common/functions/regular.py", A, B, "crypten/mpc/mpc.py", "crypten/cryptensor.py"], "share-wise application of the plaintext operation")
p("C22", "Shared randomness stays synchronised between exactly the right parties",
  "After initialisation (and after setting seeds in debug mode) each party shares one random stream with its predecessor, one with its successor, one with everybody and one with nobody; after any history of operations the streams of the parties that share them are at the same position, so every pseudo-random sharing of zero recombines to zero and is nonzero and different each time, and rebuilding the same history from the same seeds reproduces it.",
  ["histories", "configurations"], "all operation histories, party counts, tensor sizes and seeds",
  "streams drift only after operations that consume randomness unevenly between parties; tests check one zero-sharing right after start",
  ["crypten/__init__.py", A, B, "crypten/common/rng.py"], "prev/next/local/global generators seeded by neighbour exchange")
p("C23", "Oblivious transfer delivers the chosen message and only that",
  "For every pair of messages and choice bit, batch size and pair of parties, the receiver obtains exactly the chosen message of each pair, and what travels between the parties depends on fresh randomness each time, so that neither the choice bits nor the other message appear on the wire or repeat across executions.",
  ["inputs", "histories"], "all message pairs, choice vectors, batch sizes and repetitions",
  "tests run one random batch between two parties",
  ["crypten/mpc/primitives/ot/baseOT.py"], "Diffie-Hellman style base OT over a fixed prime group")
p("C24", "Launching parties and re-initialising is clean for any history",
  "Running a function across any number of parties gives the caller each party's return value in rank order, for return values of any size, and reports failure (never wrong or missing values) when any party fails at any point; initialising and shutting down repeatedly always leaves a usable, correctly configured set of parties.",
  ["histories", "crash_points", "configurations"], "all party counts, return values, failure points and init/uninit histories",
  "tests always launch the same way and succeed",
  ["crypten/mpc/context.py", "crypten/__init__.py", "crypten/communicator/__init__.py", "crypten/communicator/distributed_communicator.py"], "process launcher with a result queue; singletons for communicator and provider")
p("C25", "Encrypted layers and losses compute their plaintext function",
  "For every supported layer and loss, and every accepted hyper-parameter setting (stride, padding, dilation, groups, reduction, dimension, momentum, training or evaluation mode), the encrypted forward result equals the plaintext definition of the layer on the same inputs and parameters to within fixed-point rounding, also for state carried between calls.",
  ["inputs", "configurations", "histories"], "all layer hyper-parameters, inputs in range and call histories",
  "tests fix one or two hyper-parameter settings per layer and allow a large tolerance",
  ["crypten/nn/module.py", "crypten/nn/loss.py", "crypten/common/functions/pooling.py", "crypten/common/functions/dropout.py"], "layer forward functions over private tensor operations")
p("C26", "Approximated functions satisfy their defining equations",
  "Within the documented input ranges, the approximated functions (exponential, logarithm, reciprocal, square root and its inverse, sine, cosine, sigmoid, tanh, error function, softmax, log-softmax, powers and norms) satisfy their defining equations - for example x*reciprocal(x)=1, sqrt(x)^2=x, softmax sums to one and preserves order, odd/even symmetry, sin^2+cos^2=1, integer powers are repeated products - to the documented accuracy, with every method and iteration setting honoured and restored.",
  ["inputs", "configurations"], "all inputs in the documented ranges, methods and iteration settings",
  "tests sample random points with absolute tolerances up to 0.1 or larger and one setting",
  ["crypten/common/functions/approximations.py", "crypten/common/functions/power.py"], "iterative approximations on private tensors controlled by configuration")
p("C27", "Random sampling on private tensors stays in its exact domain",
  "Privately sampled values never leave their domain: uniform samples lie in [0,1) on the fixed-point grid, Bernoulli samples are exactly 0 or 1 and are 0 (1) wherever the probability is 0 (1), dropout zeroes whole elements or features and scales the rest by exactly the inverse keep probability (identity in evaluation mode), and weighted selection returns exactly one index per slice, always with nonzero weight.",
  ["inputs", "configurations"], "all shapes, probabilities, dims, party counts and random seeds",
  "tests check empirical means only",
  ["crypten/common/functions/sampling.py", "crypten/common/functions/dropout.py", "crypten/mpc/mpc.py", A], "shared random bits converted to fixed point, comparisons against weights")
if __name__ == "__main__":
    with open("/verif/properties.jsonl", "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
