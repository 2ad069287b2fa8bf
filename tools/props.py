"""Budgets (runs quick, thorough) and texts per property."""
TRUST = (" Trusted: the simulator (sim/core), the stubbed transport and Paillier, testing/synctest, the oracles in sim/scen and the "
         "independent curve implementation in sim/ref. Nothing is claimed beyond the schedules, faults and inputs that were sampled.")


def p(quick, thorough, oracle, rule, note):
    return dict(runs=(quick, thorough), oracle=oracle, rule=rule, note=note + TRUST)


PROPS = {
 "C01": p(20000, 400000, "a reference model of rounds over the recorded byte streams",
   "Random multi-round workloads over the real sync server: 2-5 parties, 1-5 rounds, broadcast and per-recipient payloads of 0-70000 bytes, stalls, resets, crashes, rejections and mis-framed frames of a Byzantine sender.",
   "Seeded sampling of schedules, fragmentations, payloads and failures; every callback argument is compared with what was submitted."),
 "C02": p(20000, 400000, "a reference model of rounds over the recorded byte streams",
   "As C01 with the mix weighted towards failures.",
   "The set named by every failed round is compared with the set computed from what reached the receiver."),
 "C03": p(20000, 400000, "progress within a bounded number of steps once faults have stopped",
   "As C01; every run must end by itself with every call returned.",
   "Liveness as absence of deadlock and livelock within 400000 steps."),
 "C04": p(20000, 400000, "the time of the first payload byte on every link",
   "Random start times, per-party clock skews, delays before the first round, dial and accept failures and stalled handshakes.",
   "Simulated clock; skew is modelled as different start instants."),
 "C05": p(12000, 300000, "absence of panics, hangs and disproportionate allocation, and a model of the honest parties' rounds",
   "A hostile peer speaks raw bytes to the real sync server (bad, slow, repeated and junk handshakes; frames of wrong round, identity, length, truncated, closed); in every protocol the payloads of a hostile party are flipped, truncated, extended, replaced, replayed or given extreme lengths.",
   "Any panic of the code under test ends the worker process and is reported; allocation is measured per validation (12 MB) and per run."),
 "C06": p(20000, 500000, "the objects that were written, decoded from the same stream",
   "A writer task encodes 1-12 points, commitments and proofs to a simulated stream, a reader task decodes them through random fragmentation; in half of the runs the stream ends, fails or is damaged at a random offset or a write fails.",
   "Equality is judged by the independent curve implementation, not by the code's own Equal."),
 "C07": p(20000, 500000, "an independent implementation of the curve group",
   "Hostile encodings (off the curve, out of range, non-canonical, wrong lengths) through a fragmenting stream; random group and commitment operations on values shared between concurrent tasks, including neutral elements, inverse pairs and scalars at or above the order.",
   "Results and operands are compared with sim/ref before and after."),
 "C08": p(20000, 500000, "the parties' committed and published values and the generated secret keys, recomputed with an independent curve",
   "Key generation among 2-5 parties with delays, crashes at random points and a Byzantine party that opens another value, a foreign or damaged one, or equivocates per recipient.",
   "Each run with a deviation checks that every recipient fails and names the party."),
 "C09": p(2500, 40000, "the sum of the values committed to, read from the simulated parties' memory, and the count of available shares",
   "Reshare and reveal programs of 2-5 parties, every threshold, chained resharings, with 0-n crashes at random operations of the network, calls or rounds.",
   "Every completed reveal is compared with the sum modulo the group order; too few survivors must yield errors."),
 "C10": p(2000, 40000, "the generator times the sum of the values committed to, in an independent curve implementation",
   "As C09 with Exp in place of and beside Reveal.",
   "Every completed Exp is compared with the reference point."),
 "C11": p(5000, 100000, "the deviation that was applied and the recipients that saw it",
   "A dealer deviates in one of 43 ways (in commitments, openings, dealt shares, proofs, replays, per recipient or to all) in a resharing of 2-4 parties, under delays and crashes of others.",
   "Every honest recipient of the deviation must fail naming the dealer; completed resharings must be consistent with the committed sum."),
 "C12": p(10000, 300000, "whether the statement is true, known to the simulator which built it",
   "Prover and verifier tasks over fragmenting streams: true statements with arbitrary values, wrong statements, altered transcripts, wrong witnesses, and forgeries built without a witness by fixing responses first or reusing transcripts.",
   "Forgeries cover the simulator strategies that a missing or weak challenge would admit; this is sampling, not a soundness proof."),
 "C13": p(2000, 40000, "the same linear combination of the values committed to, modulo the group order",
   "Programs of generate, reshare, linear combination, reveal and Exp over several secrets, with crashes.",
   "Inputs are re-revealed after the combination."),
 "C14": p(2500, 40000, "the product modulo the group order of the committed values, and the commitments opened with the trapdoor of the commitment base",
   "Multiplications of 2-4 parties with boundary and random share values, chained into resharing, reveal and further multiplications, with crashes and failing rounds.",
   "Paillier is a textbook stand-in for the absent tss-lib."),
 "C15": p(20000, 500000, "whether the triple is true, and the deviation that was applied",
   "CheckDH of true and false triples (including the neutral element and wrong by one) among 2-5 parties with delays, crashes and a Byzantine party that changes its opening, its published value or its commitment.",
   "A party that equivocates or deviates must make every recipient fail."),
 "C16": p(1000, 15000, "signatures of the same simulated world with other messages and crash sets, and the ECDSA equation",
   "Init, Presign and Sign of 2-4 parties; the same seed is re-run with other messages and other crash sets and the signatures are compared.",
   "The affine dependence on the message is checked over re-executions of the same presignature."),
 "C17": p(1500, 20000, "a model of the presignature store and the nonces observed on the wire",
   "Sequences of Presign and Sign with failures injected at every round, crashes and failing draws.",
   "Presignatures are told apart by the nonce point recovered from what was opened."),
 "C18": p(2000, 20000, "an observer of every message and of the parties' memory",
   "Fault-free and faulty runs of every operation up to the deliberate reveal; every payload is searched for shares in any encoding, sub-shares are matched with their addressees and interpolated.",
   "Leaks that hide a share in a derived value are found only for the forms that are searched for."),
 "C19": p(3000, 30000, "the failing draw and what was sent or returned after it",
   "For every operation the randomness source fails, or returns short, at a random draw of one party; later operations are retried with a working source.",
   "The randomness source is crypto/rand.Reader."),
 "C20": dict(p(20000, 600000, "the keys that were generated, recorded at the key generator, and the configured addresses",
   "Runs of gen_keys for 2-37 members (directed: up to 1100) onto a simulated disk with write, create, close, read and open errors, a full disk, failing key generation or randomness, and crashes that lose or tear what was not synced; the files are then read by the loaders of cmd/tecdsa with short reads, read errors, cuts and damage.",
   "Unmodified program sources are compiled against a simulated os, flag, os/signal and syscall package (import paths replaced at build time). Success means no exit code, no panic and nothing on standard error."),
   real="cmd/gen_keys and the file readers of cmd/tecdsa from /repo's working tree (import paths of os, flag, os/signal, syscall and io/ioutil replaced)",
   stub="disk, process arguments, standard streams and exit (simulated os), tss-lib paillier (textbook implementation with the same API), crypto/rand.Reader (seeded stream)"),
 "C21": dict(p(1800, 40000, "the run of the library with the same options, and the files and options each process was given",
   "Deployments of 2-4 processes of cmd/tecdsa with files written by gen_keys, started at different moments before the agreed start, under delays, stalls and dial and accept failures; with processes crashing, connections breaking or one process late; and with one process given unusable files, options or an address that is taken.",
   "Every process runs its own copy of the unmodified program with its own simulated disk, arguments and exit."),
   real="cmd/tecdsa and cmd/gen_keys (import paths of os, flag, os/signal, syscall and io/ioutil replaced), pkg/sync, pkg/tecdsa, pkg/arith, pkg/curve, pkg/crypto/... from /repo's working tree",
   stub="core-go network and tcp (simulated transport and address binding), disk, process arguments, standard streams, signals and exit (simulated os), tss-lib paillier, crypto/rand.Reader (seeded), clock (testing/synctest)"),
 "C22": p(5000, 120000, "whether the message that was delivered decodes, known to the simulator which damaged it",
   "Every message of every protocol (key generation, DH check, generation, resharing, public key, multiplication, initialisation, presigning, signing) of one party is cut, emptied, given a point off the curve or a length beyond its end, for one recipient or for all, among 2-4 parties under delays and crashes; directed runs cover every message of every operation.",
   "Messages that are mere integers (shares in the clear, Paillier ciphertexts) cannot be unreadable and are left out."),
 "C23": p(15000, 400000, "a reference model of rounds over the recorded byte streams, and the state of every simulated connection at the end",
   "Random multi-round workloads of 2-5 parties in which parties stop before the first round, between rounds, during a round (from another task, at a random scheduling point), twice, or go on calling rounds after having stopped, under delays, stalls and small buffers.",
   "Every run ends with every party stopped; connections still open are reported."),
}
NOT_APPLICABLE = {}
