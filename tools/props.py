"""The properties: statement, anchors, and which scenarios decide them.

tools/gen_meta.py writes properties.jsonl and MANIFEST.json from this file."""
REAL = ["spu/core", "spu/mpc (semi2k, aby3, cheetah protocol and OT layers, securenn, swift, spdz2k, ref2k, common, utils, ab_api/api dispatch, tiling)",
        "spu/kernel (hal, hlo)", "beaver tfp/ttp/cache code", "device io and symbol table"]
STUB = ["yacl link (simulated network)", "yacl parallel_for, entropy, PRG block cipher (counter hash)", "threads, mutexes, condition variables, clocks (simulated)",
        "brpc (simulated rpc with streams)", "leveldb (simulated store)", "Ferret OT extension and base OT (functional, same interface)", "Cheetah homomorphic-encryption matmul/dot (functional; SEAL is not installed)"]
ASSUME = ["Sampling: a clean run is evidence over the sampled seeds, not a proof.",
          "Preemption happens at network, lock, condition variable, thread and clock operations and at the memory accesses and atomic operations of libspu code (as the compiler's access instrumentation places them), under sequentially consistent memory; library code (absl, protobuf, spdlog) is not preempted.",
          "Stubbed components behave as their interfaces document."]
WEATHER = "delays, retransmitted losses, duplicates, reordering across connections, partitions that heal and slow parties"

PROPS = {}


def prop(pid, **kw):
    PROPS[pid] = kw


prop("P01",
     title="Secure operations compute what the plain operations compute",
     statement="For every protocol, ring, party count and program of protocol operations on public, private and secret tensors, every party that reveals a result gets exactly the value of the same operation over the plaintext ring (within the documented one-unit rounding for truncation). This holds whatever the order in which messages arrive and the parties' threads run, as long as every message is eventually delivered.",
     over=["programs", "inputs", "schedules", "configurations"],
     text="Every program over the protocol API, all operand visibilities, shapes, strides and storage types, every supported protocol/ring/party-count/runtime-option combination, and every schedule of the parties' tasks and message deliveries without permanent faults.",
     why="The operation tests run each kernel alone on a few shapes, over an in-memory link with one schedule; most of them are not even built here. They sample neither sequences of operations (where share types, bit widths and strides of one kernel feed the next) nor schedules.",
     files=["src/libspu/mpc/semi2k", "src/libspu/mpc/aby3", "src/libspu/mpc/cheetah", "src/libspu/mpc/securenn", "src/libspu/mpc/experimental/swift", "src/libspu/mpc/ref2k", "src/libspu/mpc/ab_api.cc", "src/libspu/mpc/api.cc", "src/libspu/mpc/common"],
     mech=[("type dispatch between public, private, arithmetic and boolean shares", "src/libspu/mpc/api.cc"), ("protocol kernels", "src/libspu/mpc/*/arithmetic.cc, boolean.cc, conversion.cc, permute.cc"), ("splitting of large operations into concurrent tiles", "src/libspu/mpc/utils/tiling_util.h")],
     scenarios={"correct_semi2k": 5000, "correct_aby3": 4000, "correct_cheetah": 3000, "correct_securenn": 2500, "correct_swift": 2000, "correct_ref2k": 1500},
     rule="Random programs of protocol operations (arithmetic, boolean, conversion, shift, truncation, comparison, permutation, shape operations) over public, private and secret operands, run by all parties under a seeded schedule, with " + WEATHER + "; every register is revealed at the end and compared element by element with a plaintext ring model of the operation on the revealed operands.",
     must_reach=["fault:loss_retransmit", "fault:partition", "fault:slow_node", "op:mul", "op:mmul", "op:trunc", "op:msb", "op:a2b", "op:b2a", "op:perm_p"],
     design="Oracle: a plaintext interpreter over the ring (harness/prog.cc ref_op), applied to the revealed operands of every operation, so that one wrong operation is named even in a long program. Interleavings come from the simulator: every party is a fiber, tiles and parallel loops of a party are further fibers.")

prop("P02",
     title="Results and traffic do not depend on the schedule",
     statement="For fixed programs, inputs and randomness, every schedule of message deliveries and of the parties' internal threads gives the same results and the same traffic on every connection: same senders, keys, order and sizes, and, where the protocol draws its randomness in program order, the same bytes. No schedule makes the parties hang or fail while all messages are eventually delivered.",
     over=["schedules", "programs", "configurations"],
     text="All pairs of schedules (delivery orders, delays, duplicated deliveries, thread interleavings, partitions of parallel loops) of the same program with the same entropy.",
     why="The tests run one schedule per execution, chosen by the machine, and never compare two; a message matched to the wrong operation or a race on shared scratch data shows only under some interleavings.",
     files=["src/libspu/mpc/common/communicator.cc", "src/libspu/mpc/common/prg_state.cc", "src/libspu/mpc/utils/tiling_util.h", "src/libspu/core/parallel_utils.h", "src/libspu/core/context.cc"],
     mech=[("message tags and per-context counters", "src/libspu/mpc/common/communicator.cc"), ("forked communicator and PRG state per tile", "src/libspu/mpc/utils/tiling_util.h"), ("parallel loops", "src/libspu/core/parallel_utils.h")],
     scenarios={"confluence_semi2k": 2600, "confluence_aby3": 2600, "confluence_other": 2200},
     rule="Each case runs one random program two or three times with the same entropy: first under a calm first-in-first-out schedule, then under random or priority schedules with " + WEATHER + " and preempted, differently split parallel loops; results and per-connection message sequences are compared.",
     must_reach=["fault:loss_retransmit", "fault:partition", "fault:slow_node", "payloads_compared"],
     design="Oracle: equality of two histories of the same case. Message bytes are compared where all randomness is drawn in program order (semi2k, aby3, swift without intra-operation parallelism); elsewhere message shape and results.")

prop("P03",
     title="Concurrent evaluation contexts do not interfere",
     statement="Programs that run at the same time on contexts forked from one parent give the results they would give alone, on every party and under every interleaving. The parent can go on computing meanwhile, and forks of forks behave alike.",
     over=["schedules", "programs", "configurations"],
     text="All interleavings of two to five forked contexts (also nested) and their parent, each running its own program.",
     why="Tests of forked contexts run a few operations under whatever schedule the machine picks; a shared counter, cache or connection shows only when two contexts reach it in a particular order, differently on different parties.",
     files=["src/libspu/core/context.cc", "src/libspu/mpc/common/communicator.h", "src/libspu/mpc/common/prg_state.cc", "src/libspu/mpc/semi2k/state.h", "src/libspu/mpc/semi2k/beaver"],
     mech=[("fork of per-context states", "src/libspu/core/object.cc, src/libspu/mpc/common/*.cc"), ("sub-connections created in the same order on every party", "src/libspu/mpc/common/communicator.h"), ("beaver generators spawned per fork", "src/libspu/mpc/semi2k/beaver/beaver_impl")],
     scenarios={"forks_semi2k": 2600, "forks_aby3": 2000, "forks_other": 1600},
     rule="Each case forks two to five contexts, also nested, runs a random program on each in its own thread while the parent runs another, under a seeded schedule with " + WEATHER + "; every register of every context is compared with the plaintext model.",
     must_reach=["fault:loss_retransmit", "fault:partition"],
     design="Oracle: the plaintext model of every fork's program on its own. Cheetah is left out: its state does not implement forking.")

prop("P04",
     title="Faults surface as errors, never as wrong results or hangs",
     statement="When a party crashes, a message is lost for good, or a party stalls longer than the configured timeout, every surviving party either completes with right results or reports an error within a bounded number of timeouts. No surviving party hangs or reveals a wrong value.",
     over=["crash_points", "fault_sequences", "programs", "schedules"],
     text="Every network operation of every party as crash, loss or stall point, in every program and schedule.",
     why="No test injects a crash, a permanent loss or a stall.",
     files=["src/libspu/mpc/common/communicator.cc", "src/libspu/mpc/semi2k/beaver/beaver_impl", "src/libspu/mpc/utils/tiling_util.h", "src/libspu/core/parallel_utils.h", "src/libspu/mpc/cheetah/state.h"],
     mech=[("receive timeouts become exceptions", "src/libspu/mpc/common/communicator.cc"), ("exceptions of concurrent tiles are collected and rethrown", "src/libspu/mpc/utils/tiling_util.h"), ("errors of the beaver service", "src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc")],
     scenarios={"permanent_semi2k": 5000, "permanent_aby3": 5000, "permanent_other": 2500},
     rule="Each case measures a fault-free run of a random program, then runs it again with one crash, lost message or stall placed uniformly over the victim's network operations, on top of " + WEATHER + "; values revealed before the error are compared with the plaintext model, and every survivor must end within a bound of simulated time.",
     must_reach=["fault:crash", "fault:message_lost", "fault:stall", "fault_surfaced_as_error", "fault_without_effect"],
     design="Oracle: plaintext model for everything revealed, plus bounded liveness in simulated time after the fault.")

prop("P10",
     title="A party's view reveals nothing about the others' secrets",
     statement="Whatever a single party receives during a computation is independent of the other parties' private inputs, except for what is deliberately revealed to it: no received word, and no difference or exclusive or of two received words, is a function of the others' secrets alone. The number, order, senders and sizes of the messages it receives do not depend on secret values either.",
     over=["programs", "inputs", "schedules", "configurations"],
     text="All programs, all pairs of secret inputs that agree on what the party may know, all choices of the observing party (for the trusted-first-party dealer mode: all parties but the dealer), and all randomness of the other parties.",
     why="Tests look at results only. A value opened to a party that knows its mask, a mask used twice, or a message whose size depends on data leaves every result right.",
     files=["src/libspu/mpc/semi2k", "src/libspu/mpc/aby3", "src/libspu/mpc/securenn", "src/libspu/mpc/experimental/swift", "src/libspu/mpc/common/prg_state.cc"],
     mech=[("masks from pairwise and private generators", "src/libspu/mpc/common/prg_state.cc"), ("multiplication triples and masks", "src/libspu/mpc/semi2k/beaver"), ("which party learns which opened value", "src/libspu/mpc/*/arithmetic.cc, conversion.cc, boolean.cc")],
     scenarios={"view_semi2k": 3100, "view_aby3": 3100, "view_other": 930, "view_hl_semi2k": 186, "view_hl_other": 310, "view_io": 930},
     rule="Each case picks a program, an observing party and two assignments of the other parties' secrets. Executions are repeated with the observer's randomness (and every random word of others that was sent to it) held fixed and the rest varied. Words that never vary with the randomness but differ between the two assignments, pairs of words whose difference or exclusive or does so, and traffic that varies, are violations.",
     must_reach=["known_draws", "view_bytes"],
     design="Oracle: a two-world test over recorded views; candidates found with four executions per world are confirmed with forty before they are reported, so that coincidences do not alarm. Cheetah is left out: its oblivious transfers and homomorphic encryption are stubbed, so that its real messages do not exist here.",
     assumptions=["First-order test: leaks that need three or more words combined, or statistical bias short of determinism, are not seen."])

prop("P06",
     title="Correlated randomness is valid and never handed out twice",
     statement="Every tuple that a semi2k randomness generator (trusted first party or trusted third party) hands out satisfies its relation when the parties' shares are combined: products, squares, matrix products, bitwise ands, truncation pairs, random bits, permutation pairs and zero-test pairs, over the ring and over the Mersenne prime field. All parties agree on it in every sequence of requests, from generators that are spawned and used at the same time, for every chunk size of the service. A replayed mask is exactly the mask it replays, transposed where asked; all other shares are fresh: no random word is handed out twice.",
     over=["request sequences", "sizes", "configurations", "schedules"],
     text="All sequences and interleavings of requests of all kinds, sizes, rings, numbers of parties, adjusting ranks, chunk sizes, replay descriptors and spawned generators.",
     why="The beaver tests issue each kind of request a few times from one generator; offsets drift only after particular sequences (odd sizes, permutations, replays), and reuse of a mask leaves every relation intact.",
     files=["src/libspu/mpc/semi2k/beaver", "src/libspu/mpc/common/prg_tensor.h", "src/libspu/mpc/utils/permute.cc", "src/libspu/mpc/utils/gfmp_ops.cc"],
     mech=[("generators keep one counter per seed and advance it identically on all parties", "src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc, beaver_ttp.cc"), ("the dealer recomputes all shares and sends the correction", "src/libspu/mpc/semi2k/beaver/beaver_impl/trusted_party/trusted_party.cc"), ("chunked streaming of corrections", "src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc")],
     scenarios={"beaver_tuples": 30000},
     rule="Each case draws a sequence of requests, with replay descriptors, and up to three spawned generators with sequences of their own that run at the same time as the parent, under a seeded schedule with " + WEATHER + " and re-framed streams; all shares are recorded and recombined.",
     must_reach=["generator:ttp/2", "generator:ttp/5", "generator:tfp/3", "tuple:dot", "tuple:perm", "tuple:eqz", "tuple:mul_priv_gfmp", "replays", "fault:rpc_stream_reframed"],
     design="Oracle: the defining relation of each tuple over integers modulo 2^k (or the Mersenne prime), recomputed in the harness; equality of replayed masks; a set of all 64-bit words handed out (64 and 128 bit rings), in which no word may appear twice.")

prop("P07",
     title="The trusted-third-party service survives faults and malformed requests",
     statement="A request to the randomness service either fails with an error on the requesting party or yields a valid tuple, whatever happens to it: refused connections, broken or re-framed streams, failed writes, lost responses (requests are retried), a crash and restart of the server. Parties that send no request do not fail. As soon as the faults end, all parties get valid tuples again. A malformed request is answered with an error, never crashes the server, and does not affect other clients.",
     over=["fault_sequences", "requests", "schedules"],
     text="All placements of connection, stream, response and server faults over all request sequences, and all single deviations from a well-formed request.",
     why="The tests talk to a healthy local server with well-formed requests.",
     files=["src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc", "src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc"],
     mech=[("stream parser of the client", "src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc (ProgressiveReader)"), ("request validation and error replies", "src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc (BuildOperand, AdjustAndSend)")],
     scenarios={"beaver_rpc": 20000, "beaver_server": 15000},
     rule="beaver_rpc: a random sequence of requests under one kind of service fault at a random rate or byte position, then a fault-free phase that must succeed. beaver_server: one to three clients send random requests, most with one deviation (counts, sizes, seeds, fields, dimensions, flags, permutations), next to a well-behaved group of parties.",
     must_reach=["fault:rpc_connect_failure", "fault:rpc_stream_cut", "fault:rpc_write_failure", "fault:rpc_response_lost", "fault:server_crash", "fault:server_restart", "fault:rpc_retry", "request_failed", "after_an_error", "after_faults", "refused", "valid_request"],
     design="Oracle: the tuple relations of P06 for every request that every party reports as successful; success of everything after the faults ended; error replies for exactly the malformed requests; an exception that leaves a request handler, and a reader destroyed during its own callback, are violations because they end or corrupt a real process.")

prop("P08",
     title="The cache of opened operands never changes a result",
     statement="Multiplications on tensors with the operand cache enabled give the same results as without it: across reuse as left, right, transposed, squared or sliced operand, across enabling and disabling, from several contexts at the same time, and when the disk behind the cache fails to open, write, read or delete or runs full. A disk error surfaces as an error on the affected party; no party reveals a wrong value or hangs.",
     over=["programs", "fault_sequences", "schedules"],
     text="All programs over cached tensors and views of them, and all placements of disk faults on one or all parties.",
     why="The tests use the cache in two fixed patterns on a healthy disk; a cached value that goes with the wrong mask, or to the wrong view, gives garbage only in particular reuse patterns.",
     files=["src/libspu/mpc/semi2k/beaver/beaver_cache.cc", "src/libspu/mpc/semi2k/beaver/beaver_cache.h", "src/libspu/mpc/semi2k/arithmetic.cc"],
     mech=[("lookup by address, shape and strides, also transposed", "src/libspu/mpc/semi2k/beaver/beaver_cache.cc"), ("mask replay for cached operands", "src/libspu/mpc/semi2k/arithmetic.cc (MulOpen, SquareA)")],
     scenarios={"cache_faults": 9000, "cache_views": 9000, "cache_forks": 5000, "cache_store": 2500, "cache_forks_cold": 16},
     rule="cache_faults: random programs of multiplications, matrix products and views over cached tensors with disk faults at a random rate or position; cache_views: random products over many views (sub-blocks, strided selections, transposes) of one cached tensor; cache_forks: several contexts multiply with one cached tensor at the same time; cache_store: random calls on the store itself, also with values of several slices, against a model.",
     must_reach=["fault:disk_open_error", "fault:disk_write_error", "fault:disk_read_error", "fault:disk_full", "fault_surfaced_as_error", "cache_hit", "cache_stored_slices", "cached_views"],
     design="Oracle: the plaintext ring model (programs, contexts) and a map from view to stored value (store).")

prop("P15",
     title="Parallel evaluation of a block equals its sequential evaluation",
     statement="Executing the operations of a block on concurrent threads gives every party the values of executing them one by one in program order: every operation runs exactly once, after everything it uses (also in nested regions), and after every earlier operation with a side effect, which is itself not overtaken. An operation that fails makes the evaluation report an error on that party, on whatever thread it ran; no schedule hangs or ends the process, and no party gets a wrong value.",
     over=["programs", "schedules", "fault_sequences", "configurations"],
     text="All blocks of operations with all dependency structures (nested regions, captured values, operations with side effects, operations without results or operands), numbers of threads, also different on each party, failures of any one operation, message loss and stalls, and all schedules.",
     why="No test runs the parallel executor with side effects, with nested regions or with failures, and none controls the order in which its threads wake up.",
     files=["src/libspu/device/executor.cc", "src/libspu/device/executor.h", "src/libspu/core/context.cc"],
     mech=[("dependency tracking by symbol scope and an event", "src/libspu/device/executor.cc (OpExecTask)"), ("side effects become dependencies of all later operations", "src/libspu/device/executor.cc (BlockParallelRunner::run)"), ("one forked context per operation", "src/libspu/core/context.cc (SPUContext::fork)")],
     scenarios={"executor_semi2k": 9000, "executor_aby3": 6000, "executor_other": 2500},
     rule="Each case turns a random program into a block with nested regions, arguments, captures, side effects and prints, runs it with runRegion on one to six simulated threads per party under a seeded schedule with " + WEATHER + ", in part with an operation that throws, a lost message or a stall; results, execution counts and the order of side effects are checked.",
     must_reach=["executor:parallel", "executor:sequential", "nested_region", "nested_twice", "side_effects", "kernel_error_surfaced", "executor_under_network_fault", "fault:message_lost", "fault:stall"],
     design="Oracle: the plaintext model of every operation, plus the recorded start and end of every operation. The MLIR library is not installed: device/executor.cc runs for real over a small stand-in for mlir::Operation, Block, Region and Value (sim/include/mlir), and the operations are protocol programs of this harness instead of the pphlo dialect dispatch.",
     stub=STUB + ["MLIR operation, block and region classes (small stand-in)"],
     assumptions=["An operation with neither operands nor a side effect may run at any time: its order is not checked."])
prop("P16",
     title="Numeric kernels compute the plaintext function within the fixed-point error",
     statement="Every numeric hlo and hal kernel (arithmetic, comparison, selection, shifts and bit operations, casts, rounding, division, products, powers, elementary functions, complex parts, public randomness) gives at every party the same result, of the documented shape and type, and equal to the plaintext function of its operands: exactly for integer, boolean and comparison results, and within the error of the fixed-point encoding and of the documented approximation otherwise. This holds for every protocol, ring, fraction width, approximation mode, mix of public, private and secret operands, share representation, broadcastable shape and schedule.",
     over=["inputs", "programs", "configurations", "schedules"],
     text="All typed programs of numeric kernels over all mixes of public, private and secret operands in all share representations, with edge values of their documented domains, all protocols, rings, fraction widths and approximation modes, and all schedules and message delays.",
     why="The unit tests run each kernel on one small tensor per visibility, on one fraction width and with tolerances of a percent, on a free running schedule.",
     files=["src/libspu/kernel/hal", "src/libspu/kernel/hlo", "src/libspu/mpc/api.cc", "src/libspu/core/encoding.cc"],
     mech=[("typed dispatch and mixed operands", "src/libspu/kernel/hal/polymorphic.cc, integer.cc, fxp_base.cc"), ("approximations", "src/libspu/kernel/hal/fxp_approx.cc"), ("ring level operations by visibility", "src/libspu/kernel/hal/ring.cc"), ("casts and encoding", "src/libspu/kernel/hal/type_cast.cc, src/libspu/core/encoding.cc")],
     scenarios={"math_semi2k": 10200, "math_aby3": 10200, "math_other": 8500},
     rule="Each case is a random typed program of up to five kernels on all parties under a seeded schedule with " + WEATHER + "; every register is revealed, must agree at all parties, and is compared with a plaintext model applied to the revealed operands, so that errors do not accumulate in the oracle.",
     must_reach=["op:add", "op:mul", "op:div", "op:exp", "op:log", "op:sqrt", "op:cast", "op:select", "op:dot", "op:atan2", "op:power_int", "op:uniform", "op:less", "op:arshift"],
     design="Oracle: exact integer models, and long double functions with an error bound per kernel (in units of the last place, growing with the number of parties and the documented approximation error; about twice to ten times the largest error seen). Operands outside of a documented domain are not generated.",
     assumptions=["Operands stay four bits below the ring size, and inside the documented domains of the approximations.", "Truncation without msb error (trunc_allow_msb_error=false)."])

prop("P17",
     title="Data movement, indexing, sorting and control flow keep plaintext semantics",
     statement="Every structural kernel (transpose, broadcast, reshape, slice, pad, concatenate, reverse, views feeding kernels; gather, scatter, dynamic slice and update with public, private or secret indices; reduce, windows, arg max, select and scatter, convolution; sort, top k, shuffle, permute, group by; if, case, while; the oblivious PRF) gives at every party the same result, equal to the plaintext semantics: elements are moved, never mixed, lost or read from beside the operand; sorted results are ordered permutations that keep keys and payloads together (stable where asked); a secret index or condition selects exactly what it designates. This holds for every protocol, ring, layout (strided, broadcast, offset views), mix of public, private and secret operands, share representation and schedule.",
     over=["inputs", "programs", "configurations", "schedules"],
     text="All typed programs of structural kernels over all mixes of public, private and secret operands and indices in all share representations and layouts, with ties, out of range indices and one-element dimensions, all protocols, rings, sort methods, and all schedules and message delays.",
     why="The unit tests run each kernel on one contiguous tensor, mostly with all operands of one visibility; combinations of layouts, visibilities of indices and protocols' optional kernels (permutation, ORAM, OT) are never met.",
     files=["src/libspu/kernel/hlo", "src/libspu/kernel/hal/permute.cc", "src/libspu/kernel/hal/shape_ops.cc", "src/libspu/core/ndarray_ref.cc", "src/libspu/mpc/semi2k/permute.cc", "src/libspu/mpc/aby3/permute.cc", "src/libspu/mpc/cheetah/permute.cc", "src/libspu/mpc/aby3/oram.cc"],
     mech=[("views of tensors", "src/libspu/core/ndarray_ref.cc"), ("secret indexing and ORAM lookups", "src/libspu/kernel/hlo/indexing.cc, src/libspu/kernel/hal/ring.cc, src/libspu/mpc/aby3/oram.cc"), ("sorting, top k and permutations", "src/libspu/kernel/hal/permute.cc"), ("windows", "src/libspu/kernel/hlo/reduce.cc, src/libspu/kernel/hlo/select_and_scatter.cc, src/libspu/kernel/hlo/convolution.cc"), ("control flow", "src/libspu/kernel/hlo/control_flow.cc")],
     scenarios={"move_semi2k": 6600, "move_aby3": 6600, "move_other": 5500},
     rule="Each case is a random typed program of up to five structural kernels on all parties under a seeded schedule with " + WEATHER + "; every register is revealed, must agree at all parties, and is compared with a plaintext model applied to the revealed operands. Results with freedom (ties of arg max, unstable sorts, shuffles, top k) are judged by the relation they must satisfy.",
     must_reach=["op:transpose", "op:broadcast", "op:slice", "op:pad", "op:dynamic_slice", "op:dynamic_update_slice", "op:gather", "op:reduce", "op:reduce_window", "op:argmax", "op:convolution", "op:simple_sort", "op:topk", "op:permute", "op:sort_keys", "op:group_by_sum", "op:if_else", "op:case", "op:while"],
     design="Oracle: exact plaintext models of the moves and selections (fixed-point convolution and averages within the rounding error), relations for sorts, top k, shuffles and arg max.",
     assumptions=["Dynamic slices by private or secret indices need a ring of 64 bits or more (their bounds are 64 bit constants); select and scatter with a zero initial value and no padding; the operands of one permutation share a visibility; conditions of if are public or secret."])

prop("P05",
     title="A deviating party is detected, never believed",
     statement="Under SPDZ-2k, whatever a deviating party sends, or holds in place of its share or its MAC, an honest party that opens a value gets the right one or stops with an error (except with the statistical probability the MAC allows). Everything opened on the way is covered: products, squares, matrix products, truncations, conversions. A committed opening is accepted only if the committed value itself is opened.",
     over=["messages of a deviating party", "programs", "inputs", "schedules"],
     text="All single and repeated deviations (flipped bits, added offsets, replaced and zeroed words) at every message, or in any share held before any operation, of one of two parties, over programs of arithmetic operations; and all deviations in commitments and openings among two to five parties.",
     why="No test has a party deviate: with two honest parties a MAC check that is missing or that never fails changes nothing.",
     files=["src/libspu/mpc/spdz2k/arithmetic.cc", "src/libspu/mpc/spdz2k/commitment.cc", "src/libspu/mpc/spdz2k/conversion.cc", "src/libspu/mpc/spdz2k/state.h"],
     mech=[("opening with MAC check", "src/libspu/mpc/spdz2k/arithmetic.cc (BatchMacCheck, SingleCheck)"), ("commit then open", "src/libspu/mpc/spdz2k/commitment.cc (commit_and_open)")],
     scenarios={"evil_spdz2k": 12000, "commit_open": 12000},
     rule="evil_spdz2k: two parties run a random program under SPDZ-2k; party 1 changes one message or a run of messages that it sends, or changes a share or MAC it holds between two operations; every register the honest party opens is compared with the plaintext model. commit_open: two to five parties commit and open, one tampers with its messages; an honest party must refuse or get the committed bytes. Both under a seeded schedule with " + WEATHER + ".",
     must_reach=["fault:tamper", "evil:detected sent", "evil:detected held", "evil:check_failed", "evil:opened", "commit:refused", "commit:honest"],
     design="Oracle: the plaintext ring model at the honest party: opened and right, or an error. Only rank 1 deviates, because rank 0 is the trusted dealer of the tuples in this mode. Arithmetic programs only: the boolean kernels of SPDZ-2k give wrong results for honest parties on many shapes and the factory does not offer the protocol.",
     assumptions=["The dealer of the tuples (rank 0) is honest: the built-in tuple source is the trusted first party.", "What the deviating party contributes as its own input is its to choose."])

prop("P09",
     title="Collective exchanges are exact, at every party and in every schedule",
     statement="Every collective exchange (all-reduce, reduce, gather, broadcast, rotate, send and receive, over tensors and over plain arrays) gives every party that should have it exactly the combination of what the parties put in, for every operation, root, element type, layout and party count. It leaves its arguments unchanged, does not interfere with exchanges of other contexts running at the same time, and accounts exactly the rounds and bytes it used.",
     over=["programs", "configurations", "schedules"],
     text="All sequences of exchanges, also several at the same time on forked communicators, for two to five parties, all ring and prime-field types, contiguous and strided tensors, and all schedules.",
     why="The tests run each exchange once, on a contiguous tensor, with nothing else under way.",
     files=["src/libspu/mpc/common/communicator.cc", "src/libspu/mpc/common/communicator.h"],
     mech=[("exchanges over a numbered channel per communicator", "src/libspu/mpc/common/communicator.cc"), ("reduction of received buffers in place", "src/libspu/mpc/common/communicator.cc (allReduce, reduce)"), ("accounting", "src/libspu/mpc/common/communicator.cc (Stats)")],
     scenarios={"collectives": 40000},
     rule="Each case runs a random sequence of exchanges on two to five parties, in part several sequences at the same time on forked communicators, under a seeded schedule with " + WEATHER + "; every result, every argument after the call and the accounted rounds and bytes are compared with a model.",
     must_reach=["coll:allReduce", "coll:reduce", "coll:gather", "coll:broadcast", "coll:rotate", "coll:allReduce<T>", "fault:loss_retransmit", "fault:partition"],
     design="Oracle: the exchange computed on the gathered arguments, over integers modulo the ring size; rounds and bytes as each exchange defines them.")

prop("P11",
     title="Declared communication costs are what operations incur",
     statement="The number of rounds and of bits that a kernel declares is what every party spends on running it (within the tolerance the kernel itself declares), for every shape, ring, number of parties, share width and number of bits, and whatever the schedule. Optimisations and cost estimates rest on these numbers.",
     over=["shapes", "configurations", "schedules"],
     text="All kernels with a static cost of the protocols of the factory, all shapes (scalars, empty and long tensors, matrices), rings, party counts and operand types, and all schedules.",
     why="The tests measure each kernel on one shape per ring; costs that only differ for odd shapes, narrow shares or other party counts are not seen, and most of these tests are not built here.",
     files=["src/libspu/mpc/kernel.h", "src/libspu/core/cexpr.h", "src/libspu/mpc/semi2k", "src/libspu/mpc/aby3", "src/libspu/mpc/securenn", "src/libspu/mpc/cheetah", "src/libspu/mpc/experimental/swift", "src/libspu/mpc/common/communicator.h"],
     mech=[("declared cost", "src/libspu/mpc/*/arithmetic.h, boolean.h, conversion.h (latency, comm)"), ("accounting of rounds and bytes", "src/libspu/mpc/common/communicator.cc, src/libspu/mpc/utils/tiling_util.h")],
     scenarios={"cost_semi2k": 15000, "cost_aby3": 15000, "cost_other": 5000},
     rule="Each case runs a few kernels with static costs on random shapes and operand types at all parties, under a seeded schedule with " + WEATHER + ", and compares what each party's communicator accounted with the declared formulas, evaluated for the shape, ring and number of parties.",
     must_reach=["cost:semi2k:mul_aa", "cost:semi2k:and_bb", "cost:aby3:mul_aa", "cost:aby3:and_bb", "fault:loss_retransmit"],
     design="Oracle: the declared formulas. Only the plain evaluation is measured (no splitting of an operation into concurrent tiles, which repeats the rounds per tile by design). That the accounting itself is exact is P09.",
     assumptions=["Vectorised evaluation of independent operations on, splitting of large operations off: the setting in which the declared cost is meant."])

prop("P13",
     title="Concurrent tasks of a party never race on memory",
     statement="Whatever runs at the same time inside one party (operations of the executor, forked contexts, tiles of a split operation, pieces of parallel loops, the beaver server's requests) never accesses the same memory unordered with one access being a write, and never uses memory after it was freed. A wrong value, a crash or a lost record that needs two tasks to collide on a word can therefore not happen, under any schedule and on any number of cores.",
     over=["schedules", "programs", "configurations"],
     text="All pairs of accesses by libspu's own code during random programs, on forked contexts, the parallel executor, the beaver cache and server, the collectives and the input/output of every protocol, related by the orders that hold in every schedule of the same program.",
     why="A test observes one schedule on one machine, and most unordered accesses do no visible harm in it; the few tests that use threads check results only.",
     files=["src/libspu/mpc", "src/libspu/core", "src/libspu/kernel", "src/libspu/device/executor.cc", "src/libspu/mpc/semi2k/beaver"],
     mech=[("shared tables behind locks", "src/libspu/device/executor.cc (SymbolScope), src/libspu/mpc/semi2k/beaver/beaver_cache.cc, src/libspu/core/trace.cc"), ("state forked per task", "src/libspu/core/context.cc (fork), src/libspu/mpc/common/communicator.h, prg_state.h"), ("pieces of loops write disjoint ranges", "src/libspu/core/parallel_utils.h (pforeach)")],
     scenarios={"race_correct_semi2k": 310, "race_correct_aby3": 186, "race_correct_cheetah": 186, "race_correct_securenn": 62, "race_forks_semi2k": 186, "race_forks_aby3": 124, "race_forks_other": 14,
                "race_executor_semi2k": 930, "race_executor_aby3": 930, "race_executor_other": 14, "race_cache_forks": 1860, "race_cache_faults": 620, "race_beaver_tuples": 930, "race_beaver_rpc": 930, "race_beaver_server": 930,
                "race_collectives": 1240, "race_permanent_semi2k": 186, "race_permanent_aby3": 93, "race_math_semi2k": 248, "race_math_aby3": 248, "race_math_other": 93, "race_move_semi2k": 62, "race_move_aby3": 62, "race_move_other": 37,
                "race_colocated_semi2k": 620, "race_colocated_other": 620},
     rule="The scenarios of the other properties, with happens-before race detection on: every access of libspu's own code to memory is related to the earlier ones to the same bytes through the orders that thread starts and joins, locks, one-time initialisation, futures and atomics impose. Pieces of a parallel loop count as concurrent whichever way the simulator runs them. Executions run under a seeded schedule with " + WEATHER + ".",
     must_reach=["executions_checked_for_races", "fault:loss_retransmit"],
     design="Oracle: vector clocks. One run decides all schedules with the same orders, so a race is found without the two accesses having to meet. The other checks judge the same executions by their results.",
     assumptions=["Accesses inside compiled libraries (standard library, yacl, Eigen's and OpenSSL's own code where not inlined) are not seen.", "Atomic loads and stores that are not relaxed synchronise; atomic additions (counters, reference counts) order nothing, save that the task which drops the last reference sees what the others did before dropping theirs.", "Ended tasks' clocks are used again: an order may be overlooked, none is invented."])

prop("P14",
     title="What parties provide is what programs read and outputs give back",
     statement="A tensor that a party provides, through the share-making client or the colocated I/O of its runtime, is what programs compute on and what outputs give back, for every element type, layout, visibility, owner, protocol, ring, chunk size and order of chunks: floats within one unit of the encoding (saturated to its range, NaN as zero), integers exactly, or refused where the ring is too small. The announced share size is the real one. Damaged chunk lists and names provided twice are refused, by every party. Several rounds of synchronisation work in a row, under any schedule.",
     over=["inputs", "layouts", "chunk sequences", "configurations", "schedules"],
     text="All element types, shapes, strides, visibilities, owners, protocols, rings and fraction widths; all splittings, reorderings and damages of chunk lists; all assignments of variables to parties over several rounds of synchronisation; all schedules.",
     why="The tests send one small contiguous tensor through each path, in one chunk, between parties that run in lock step.",
     files=["src/libspu/device/io.cc", "src/libspu/core/value.cc", "src/libspu/core/encoding.cc", "src/libspu/core/pt_buffer_view.cc", "src/libspu/mpc/io_interface.h", "src/libspu/mpc/semi2k/io.cc", "src/libspu/mpc/aby3/io.cc", "src/libspu/mpc/securenn/io.cc", "src/libspu/mpc/cheetah/io.cc"],
     mech=[("encoding and sharing", "src/libspu/device/io.cc (IoClient), src/libspu/core/encoding.cc"), ("chunked transport form of a value", "src/libspu/core/value.cc (toProto, fromProto)"), ("exchange of inputs among the runtimes", "src/libspu/device/io.cc (ColocatedIo::sync)")],
     scenarios={"io_client": 2500, "colocated_semi2k": 9000, "colocated_other": 9000},
     rule="io_client: random tensors of every element type and layout are shared, cut into chunks, reordered or damaged, put together and combined. colocated: the parties set random variables, synchronise in one to three rounds under a seeded schedule with " + WEATHER + ", compute on them and fetch them back.",
     must_reach=["io:wire", "io:transposed", "io:sliced", "io:rounds", "io:duplicate", "io:too_big", "fault:loss_retransmit", "fault:partition"],
     design="Oracle: the tensor that was provided; an independent model of the fixed-point encoding and of the chunk list's validity.",
     assumptions=["Values that the interface documents as unsupported (revealing public or private values through hal::reveal, complex and bit-set tensors on some paths) are not used.", "hostGetVar only for public values: the others are not implemented."])

# which checks catch which planted bugs, where it is not just the property's own check
CAUGHT = {"p04-rotate-retry": "P04 (since its sends are counted per party, so that faults hit the retried operation)",
          "p14-imag-layout": "P14 (since the parts of a share are laid out in memory independently)"}
CAMPAIGN = """Campaign: mutations tried against the checks without keeping a demonstration. Misses that led to
stronger checks: a bit width off by one in the semi2k `and` (boundary widths are now drawn), aby3 `and` with a public value
(same), stale owner when merging sort keys (sorting by up to four keys of several owners, which also found a genuine defect),
the sign bit of unsigned keys in descending order (unsigned keys with promised ranges). Misses found equivalent: the executor's list of
side effects reduced to the last one (transitive), prints without result treated as side effects, aby3 conversion of nine bits
by oblivious transfer. Races planted and found by P13: locks dropped around the symbol table, the executor's queue, the tracer
registry, profile records and the cache of opened operands, identifiers of spans, and a random draw beside a running
`std::async` (the last three needed profiled runs, views of one cached tensor, and a detector in which counters do not order)."""
