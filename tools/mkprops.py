#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here in readable form)."""
import json, os
S="schedules"; CR="crash_points"; I="inputs"; H="histories"; C="configurations"; F="fault_sequences"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],hook_needed=None)))
SY="pkg/sync/server.go"; ER="pkg/sync/error.go"; DS="pkg/arith/distributed_secret.go"; DK="pkg/arith/distributed_key.go"
RS="pkg/arith/reshare.go"; MU="pkg/arith/mult.go"; DH="pkg/arith/checkDH.go"; PO="pkg/arith/poly.go"; CF="pkg/arith/config.go"
TE="pkg/tecdsa/tecdsa.go"; CU="pkg/curve/secp256k1.go"; CO="pkg/crypto/commitment/commitment.go"; ZK="pkg/crypto/zkpok/zkpok.go"; HA="pkg/crypto/hash.go"

p("C01","Each round delivers exactly the payload every peer sent for that round",
 "In every communication round, what a party hands to its validation callback for a peer is byte-for-byte what that peer submitted for that recipient in that same round, at most once per peer and never for itself; the callback may keep it, later rounds do not change it. The callback is never called again before an earlier call has returned, nor after the round has. This holds however the network fragments, delays or interleaves the byte streams, for broadcast and for per-recipient payloads of any size, and after earlier rounds have failed. A round that returns success has validated the payload of every other party exactly once.",
 [S,I,F,H],"all interleavings of senders and receivers, all stream fragmentations, all payload sizes, all sequences of successful and failed rounds",
 "the existing sync tests run one round over a whole-message in-memory pipe; they never fragment a header, never run a second round after a failure and never interleave sends of two rounds",
 [SY],[("length/id/round framing",SY+": sendToAll, receiveFromAll"),("round counter",SY+": Round")],["arguments of the check callback passed to Server.Round","bytes on each connection"],[("roundID","number of the round in progress","server")])
p("C02","A round tells the truth about which parties failed",
 "When a round fails because some peers' payloads were absent, broken, for another round, or rejected by the validation callback, the returned error names exactly those peers as missing, and the payloads that did arrive intact from the other peers are still validated. A peer whose payload was delivered and accepted is never blamed. A round never reports success while any peer's payload was absent or rejected.",
 [S,F,H],"all combinations of broken, silent-then-closed, mis-framed, stale and rejecting peers in any round, in any delivery order",
 "the existing tests have no failing peer at all",
 [SY,ER],[("collection of per-peer errors",SY+": receiveFromAll, Round"),("missing set",ER)],["error returned by Server.Round, its Missing()"])
p("C03","Rounds complete, and end when a connection fails",
 "As long as every party keeps calling rounds and every message is eventually delivered, every party's start-up and every round completes, whatever the delays, slow peers, transient dial or accept failures, payload sizes and socket buffer limits. When, after start-up, a peer crashes or a connection breaks, the round in progress ends with an error instead of blocking forever. A round also ends, naming the silent peer, when a connected peer simply stops sending.",
 [S,F,C],"all schedules with finite delays, bounded socket buffers, healed partitions, crash points",
 "tests use an unbounded in-memory pipe without failures and never measure progress",
 [SY],[("one goroutine per peer and direction",SY+": sendToAll, receiveFromAll"),("retry loops",SY+": Start"),("round deadline",SY+": Round endRound")],["return of Server.Round / Server.Stop in simulated time"])
p("C04","No first-round message leaves before the agreed start time",
 "A party transmits nothing of its first round before the agreed start time on its own clock, and a party that begins its first round after the start time gets an error without transmitting a payload. Clock skew between parties and late or slow connection set-up do not change this, and never make a round accept a payload belonging to another round.",
 [S,C,F],"all clock skews, connection set-up delays and start times",
 "tests use one shared start time 50 ms in the future and look only at the result",
 [SY],[("sleep until start",SY+": Round")],["time of the first frame byte per party"])
p("C05","No peer input or disconnect can crash or exhaust an honest node",
 "Whatever bytes a peer sends, in the connection handshake or in any protocol message, and wherever it disconnects, an honest process does not panic or exit and does not allocate memory out of proportion to the bytes actually received; it reports an error for the affected operation. Malformed connection attempts by one peer do not prevent the honest parties from connecting and completing rounds with each other.",
 [I,F,CR,S],"all byte strings a peer may send at any point of set-up, round framing and of each protocol's messages, and all disconnect points",
 "tests only ever exchange messages produced by the same honest code",
 [SY,CU,CO,ZK,DK,RS,DS,DH,MU],[("frame validation",SY+": receiveFromAll, Start"),("length-prefixed decoders",CU+": Decode; "+ZK+": Decode; "+DK+": NMCtmp.decode; "+RS+": STEP 8 check")],["process liveness, heap allocation, returned errors"])
p("C06","Encoded objects survive any stream fragmentation; damage is reported",
 "Any sequence of curve points (including the neutral element), commitments and proofs written to a stream decodes, from the same stream and with nothing left over, to equal objects in the same order, however the reader fragments the bytes. If the stream ends or fails early, or a write fails, the affected encode or decode returns an error; no decode ever succeeds with an object that was not completely received.",
 [S,I,F],"all object sequences, all fragmentations of reads, truncation, read and write errors at every byte position",
 "tests encode one non-neutral object into an in-memory buffer that always returns everything in a single read",
 [CU,CO,ZK],[("length-prefixed encoding",CU+": Encode, Decode"),("composite encodings",CO+", "+ZK)],["Encode/Decode results"])
p("C07","Peer-chosen values stay inside the group and sharing values is safe",
 "Decoding accepts only encodings of actual group elements, so corrupted or hostile bytes never yield an off-curve point. Group and commitment operations on any accepted elements and any non-negative scalars (including the neutral element, inverse pairs and scalars at or above the group order) agree with the group law, and never modify their operands, so values shared between concurrent callers give the same results under every interleaving.",
 [I,S,F],"all decodable elements, all non-negative scalars, all interleavings of callers sharing points, scalars and commitments",
 "tests use a handful of small scalars and never the neutral element in multiplications, inverse pairs, large scalars or shared operands",
 [CU,CO],[("affine wrapper over the curve library",CU),("component-wise commitments",CO)],["results of Group and ElGamal operations"])
p("C08","Key generation: one key for all, and no change after committing",
 "All honest parties that complete distributed key generation hold the same public key, equal to the sum of the published shares and matching the parties' secret shares. If any party crashes, or opens a share different from the one it committed to, no honest party that saw this completes, and the error names that party.",
 [S,CR,F,I],"all schedules, crash points and deviating openings, any number of parties",
 "tests check only that honest runs of 2 and 10 parties finish; they never compare the keys",
 [DK,TE],[("commit round then open round",DK+": GenExpReveal"),("NMCtmp.Verify",DK)],["DKey.PublicKey, error, CheckDH against the key"])
p("C09","A threshold secret survives any n-t crashes and is what was shared",
 "After a secret generated by all parties is reshared with threshold t, revealing it yields, at every surviving party and for every set of at least t survivors, the same value: the sum (modulo the group order) of the values the parties originally committed to. With fewer than t shares available the reveal returns an error, never a value; this holds wherever during the operation the other parties crash.",
 [S,CR,F,C],"all n and 1<=t<=n, all crash points during reveal, all schedules",
 "tests never reveal a reshared secret, never compare values and have no crashed party",
 [RS,DS,PO,CF],[("polynomial sharing",RS),("interpolation",PO+": lagrangeCoef; "+DS+": Reveal")],["TDSecret.Reveal result"],[("skShare","party's share","DSecret")])
p("C10","The public key of a shared secret matches the secret at every survivor",
 "Computing the public key of a threshold secret gives every surviving party the same point, equal to the generator multiplied by the secret that the parties would reveal, for every set of at least t survivors and wherever the others crash. With fewer than t shares available it returns an error.",
 [S,CR,F,C],"all n and 1<=t<=n, all crash points and survivor sets",
 "tests check only that the operation finishes with everybody alive",
 [DS,DK,PO],[("Lagrange interpolation in the exponent",DS+": Exp; "+PO)],["TDKey.PublicKey vs TDSecret.Reveal"])
p("C11","A cheating dealer cannot get a bad sharing accepted",
 "During resharing, a party that proves a false statement, opens something other than it committed to, changes the value it originally committed to, deals a share inconsistent with its commitments, or replays another party's messages is detected: every honest party that received the deviating message returns an error naming that party, and never completes the resharing. Whenever all honest parties do complete, their shares are consistent and determine exactly the originally committed sum.",
 [I,F,S],"all deviations of one party in any resharing round, any recipients, any n and t",
 "tests run honest parties only",
 [RS,ZK,DK],[("zero-knowledge proofs on every step",RS+": check callbacks"),("commit/open",DK+": NMCtmp")],["ADSecret.Reshare errors"])
p("C12","Proofs convince exactly when the statement is true and known",
 "A proof produced from a valid witness is accepted by every verifier after travelling over any stream, for every value and randomness. A proof is rejected when presented for a different statement, after any alteration, when produced from a wrong witness, or when constructed without knowing a witness; in particular a commitment is accepted as a refreshment of another only if both commit to the same value.",
 [I,F,S],"all values and randomness, all adversarially built, replayed or altered proofs, any delivery",
 "tests check one valid proof and one wrong commitment with small constants; they never try to build a proof without a witness",
 [ZK,HA,CO],[("Fiat-Shamir challenge",ZK+": New*, Verify; "+HA),("verification equation",ZK+": Verify")],["Verify results"])
p("C13","Linear combinations of threshold secrets reveal the combined value",
 "For threshold secrets a and b held by all parties and any public coefficients, every party can take part in operations on the locally computed linear combination, and revealing it gives all surviving parties the same linear combination, modulo the group order, of the values that a and b reveal, also when up to n-t parties have crashed. The inputs stay usable and unchanged.",
 [S,I,CR,C],"all coefficients, n, t, crash points and schedules, chains of combinations",
 "no test calls the linear combination directly; signing tests only check that something is returned",
 [DS],[("share-wise combination",DS+": Lin")],["TDSecret.Reveal of the combination"])
p("C14","Multiplying secrets yields the product of the secrets",
 "When all parties complete the multiplication protocol on two secrets, the resulting secret's value is the product of the two values modulo the group order, for every pair of values that parties may hold, and the published commitments commit to what they should (those of the result to the parties' actual shares, those of the intermediate products to the product), so that the result can be used in further protocols. A party whose round fails gets an error and no result.",
 [S,I,CR,F],"all secret values including extremes, n, schedules, crash points",
 "tests only check that multiplication finishes; the project's CI even skips them",
 [MU,CF],[("additive-share multiplication over Paillier",MU+": PrivMult"),("published commitments",MU+": Mult")],["Reveal of the reshared product"])
p("C15","The DH check accepts exactly the true triples",
 "With honest parties, the distributed Diffie-Hellman check succeeds at every party if the claimed second point is the first multiplied by the shared secret key, and fails at every party otherwise. A party that opens values different from those it committed to, publishes a wrong value, or disconnects makes every other party fail rather than accept.",
 [S,I,F,CR],"all points and key sharings, schedules, crash points and deviating messages",
 "tests check one true and one false triple with two honest parties",
 [DH,DK],[("random linear test with commit/open",DH)],["CheckDH error"])
p("C16","All signers obtain the same, correct signature",
 "All parties that complete signing a message with the same presignature return the same signature, also when up to n-t parties crash during signing; its first component depends only on the presignature and its second is determined, modulo the group order, by the message and the presignature as in ECDSA (affine in the message). The signature is a valid ECDSA signature of the message under the generated public key.",
 [S,CR,F,I],"all messages, n, t, crash points during signing and schedules",
 "tests check only that a non-nil signature comes back from two live parties; they compare and verify nothing",
 [TE,DS],[("use of presignature",TE+": Sign")],["Signature returned by Protocol.Sign"])
p("C17","A presignature is used at most once and only if complete",
 "Every signing attempt, successful or failed, consumes exactly one presignature, and no two attempts ever use the same one, so no nonce is ever repeated. A presigning attempt that fails leaves no usable presignature behind, and signing without a presignature returns an error and sends nothing.",
 [S,CR,F,H],"all histories of presign and sign operations with failures at any point",
 "tests sign once per run and have no failures",
 [TE],[("presignature queue",TE+": Presign, Sign")],["nonce points on the wire, errors of Sign"],[("presig","queue of unused presignatures","Protocol")])
p("C18","Fewer than t parties never learn enough; shares go only to their owner",
 "Before a secret is deliberately revealed, no party's share appears in any message to another party, each dealt sub-share travels only to its addressee, and the sub-shares dealt lie on a polynomial of degree exactly t-1 with fresh randomness for every sharing, so t shares determine the secret and any t-1 do not.",
 [S,C,H],"all n, t, histories and schedules as observed by any coalition on the network",
 "tests do not look at messages at all",
 [RS,PO,DS],[("random polynomial",PO+": poly"),("per-recipient messages",RS+": STEP 8")],["messages on each link"])
p("C19","Failure of the randomness source aborts, never weakens",
 "If the source of randomness fails at any point of an operation, that operation returns an error at that party without crashing, and no secret, key, proof, product or presignature is produced from missing randomness; no message derived from the failed draw is sent. Once randomness works again, new operations succeed.",
 [F,CR,S],"every draw of every operation as failure point",
 "tests use the operating system source, which never fails",
 [DS,DK,RS,MU,DH,PO,ZK],[("error checks on every draw","pkg/arith; pkg/crypto/zkpok")],["errors returned, messages sent"])
p("C20","Generated key files load back to the generated keys",
 "When gen_keys ends without reporting an error (nothing on standard error, no failing exit), the files <pid>.pk and keys_addrs it wrote for a committee load back in cmd/tecdsa, on every member, to exactly the generated private and public keys, the configured addresses (host:port, one per line of the address file, without blanks or '|'; 127.0.0.1:10000+pid without a file) and the process ids, for every committee size and also over files left by earlier or interrupted runs. If generating a key, reading the addresses (too few of them included) or writing, creating or closing a file fails, gen_keys reports an error. A private key cut short in its file is refused on loading, a file that cannot be read to its end does not load as something else, a key file whose process id is not a number and a committee file with a line that is not a key and an address are refused, and no damaged file crashes the reader. Started with arguments it cannot use (a missing or illegible committee size, fewer than two members, further arguments), gen_keys reports an error and writes nothing.",
 [I,C,F,CR],"all committee sizes, keys and addresses, all points at which writing, reading or the process may fail",
 "there are no tests for the command-line programs, and no test makes a disk fail",
 ["cmd/gen_keys/main.go","cmd/tecdsa/main.go"],[("private key encoding","cmd/gen_keys/main.go: encodePaillierPrivateKey"),("parsing","cmd/tecdsa/main.go: getMember, getCommittee")],["files written, values parsed, standard error"])
p("C21","A deployment of the signing program signs what it was asked to sign",
 "Processes of cmd/tecdsa started with the files of gen_keys, the same start time, threshold and number of signatures find each other at their configured addresses (each listening on the address of its own process id and dialling the address of the intended peer), complete initialisation, every requested presignature and every requested signature, say so in their log and end, whatever the order of their starts before the agreed time, delays and transient connection failures; when no more processes than the threshold allows crash while signing, the others still complete every signature. When processes crash or connections break after start-up, no process waits for ever. A process whose files or options are missing, unusable or out of range (a committee of one, a process id outside the committee, a threshold below one or above the committee's size, no signatures to make), whose address is taken, or which starts after the agreed time, reports an error, takes part in no round and does not claim to be done; neither does a process that could not complete its initialisation or presignatures, and a process that could not complete a signature because fewer processes than the threshold were left reports an error.",
 [S,CR,F,C],"all committee sizes, thresholds and numbers of signatures, start orders, delays, crash points and unusable inputs",
 "there are no tests for the command-line programs; end-to-end behaviour needs several processes, a start time and failures between them",
 ["cmd/tecdsa/main.go","cmd/gen_keys/main.go",TE,SY],[("main","cmd/tecdsa/main.go: main"),("reading of options and files","cmd/tecdsa/main.go: getOptions, getMember, getCommittee")],["log, exit, rounds on the wire, addresses bound and dialled"])
p("C22","A message that cannot be read is never used",
 "In every protocol (generation, resharing, key generation, multiplication, DH check, initialisation, presigning) a message that does not decode - empty, ending before its last component is complete, or with a point that is not on the curve - makes the operation of every party that received it fail with an error naming its sender; the operation neither completes with it nor in place of it with something else. Where any t parties suffice (the public key of a threshold secret, the nonce point of a signature), its sender counts as absent instead: the result is the right one if t other shares are there, and an error otherwise.",
 [I,F,S],"all messages of all protocols, all ways in which they may be unreadable, any sender and recipients",
 "unit tests exchange well-formed messages only",
 [DS,DK,RS,MU,DH,TE],[("validation callbacks of the rounds","pkg/arith: check")],["errors returned to the API user, keys and signatures returned"])
p("C23","Stopping a party ends what waits for it, and loses nothing it has sent",
 "Once start-up is complete, Stop returns, also while a round is in progress, before the first round and when called again, and leaves no connection of the party open. Whatever the party had sent in rounds it completed still reaches its peers, so rounds that were over at the party before it stopped are not disturbed; every later round of a peer ends with an error that names the stopped party (unless its payload for that round had been sent completely), and rounds of the stopped party itself, in progress or called later, end with an error instead of waiting.",
 [S,C],"all schedules of stopping, rounds and deliveries, all payload sizes and buffer limits",
 "existing tests have no test of stopping; the effects depend on what is in flight at that moment",
 [SY],[("Stop",SY+": Stop")],["return of Stop, state of connections, errors and validated payloads at the peers"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
