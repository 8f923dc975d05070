"""The properties and how each is decided (source of properties.jsonl and MANIFEST.json)."""
G, GI, V, M, MT = "gossiper/gossiper_server.go", "gossiper/Interface.go", "definition/Verify.go", "monitor/monitor.go", "monitor/types.go"
PROPS = [
 dict(id="P01", title="A statement an honest entity publishes converges everywhere",
  statement="When at least threshold monitor/gossiper pairs run, at least one of their monitors obtains an honest logger's or CA's statement for the period, and messages between them arrive before the period's update is made, every running gossiper and monitor ends up with exactly one threshold signed object on that statement. The monitors' updates for the period then carry it, and no proof of misbehaviour against anyone. This holds for every order in which gossip messages arrive and signing timers fire.",
  over=["schedules", "configurations"], text="all delivery orders of all gossip messages, all orders of simultaneous timers, every set of running pairs of size >= threshold, every set of monitors that got the statement",
  tests="The network tests run one wall-clock schedule of four processes; an interleaving where a fragment overtakes its statement or two gossipers complete at once never occurs.",
  files=[G, GI, "gossiper/gen.go", M], mech=[("statement, fragment and full handlers", G), ("fragment counting", GI), ("update generation", "monitor/client-update-monitor.go")],
  observe=["gossiper storage", "monitor storage", "GET /monitor/get-update"],
  note="Complete state space (visited-state reduction) of one period: 3 pairs t=2 quick; 3 pairs t=3 and 4 pairs t=2,3 in thorough within the time budget; up to 2 overtaking timers."),
 dict(id="P02", title="A threshold object needs the signatures of threshold distinct gossipers",
  statement="No gossiper, monitor, CA, logger or client accepts, stores, acts on or passes on a threshold signed object unless at least threshold distinct gossipers of the deployment signed exactly that content. Every object that at least threshold distinct gossipers signed is accepted.",
  over=["inputs", "configurations"], text="all claimed signer multisets (repeated, unknown, non-gossiper) against all relations to the real signers, all statement kinds, moved and altered signatures",
  tests="The tests verify one well-formed object; repeated or unknown signers and signatures moved to another statement are never tried.",
  files=["crypto/crypto_config.go", "crypto/bls.go", V, G, MT], mech=[("threshold verification", "crypto/crypto_config.go"), ("object verification", V)],
  observe=["verification result", "gossiper and monitor storage", "messages sent"],
  note="All signer multisets up to size t+1 for n<=4 (n=5 thorough), judged against an independent BLS oracle."),
 dict(id="P03", title="A statement is accepted only from the entity it is about",
  statement="A gossiper stores, forwards or signs a tree head or revocation statement only if it is signed by the entity it is about and for the period it is labelled with. A forged or altered statement neither has any effect nor keeps the authentic one from being accepted.",
  over=["inputs", "histories"], text="all combinations of subject, signing key, claimed signature identity and claimed signer; altered contents and periods; before, after or without the authentic statement",
  tests="The tests only verify authentic statements.",
  files=[V, G, "crypto/rsa.go"], mech=[("signature and content check", V), ("statement handlers", G)],
  observe=["verification result", "gossiper storage and traffic"],
  note="Complete enumeration of the forgery grammar over two loggers, two CAs, monitors and gossipers."),
 dict(id="P04", title="A conflict proof is accepted exactly when it proves a conflict",
  statement="A proof of equivocation is accepted, blacklists the accused and is passed on exactly if it holds two different statements, both signed by the accused for the same period. Nobody can construct a proof against an entity that did not sign two such statements.",
  over=["inputs"], text="all ordered pairs of statements over two entities, two periods, two contents and authentic or foreign keys, each accusing either entity",
  tests="The tests build one true conflict; false proofs are never tried.",
  files=[V, G, GI, MT], mech=[("conflict proof verification", V), ("conflict handler", G)],
  observe=["verification result", "blacklist", "monitor storage", "messages sent"],
  note="Complete enumeration of the proof grammar, on the verifier, a running gossiper and a running monitor."),
 dict(id="P05", title="Equivocation is exposed to everyone and never threshold signed",
  statement="When a logger or CA hands out two different statements for one period and each reaches a running gossiper, then, for every order in which messages arrive and timers fire, every running gossiper blacklists the entity, and every running monitor receives exactly one proof holding both signed statements and puts it in its update, which carries no statement of that entity. If both statements are known before anyone signs, no threshold object on either is created. A gossiper that sees the conflicting pair exposes it whatever fragments or threshold objects it already holds.",
  over=["schedules", "histories"], text="all delivery orders and timer orders of one period for every assignment of the two statements to monitors; all orders of statements, fragments, threshold object and signing time at one gossiper",
  tests="The network tests start honest entities; the equivocating simulation runs in one schedule and asserts nothing.",
  files=[G, GI, M, MT], mech=[("statement handlers and conflict detection", G), ("blacklist", GI), ("monitor object handling", M)],
  observe=["gossiper blacklist", "monitor proofs", "GET /monitor/get-update", "messages sent"],
  note="Complete state space of one period with 2-3 pairs, up to 2 overtaking timers; all 720 orders of six events at one gossiper, STH and REV."),
 dict(id="P06", title="Fewer than threshold byzantine pairs cannot harm an honest entity",
  statement="With fewer than threshold byzantine monitor/gossiper pairs, whatever objects they send, no honest gossiper blacklists an honest logger or CA, no honest monitor's update carries a proof of misbehaviour against one, every object in the update is genuinely threshold signed, and the honest statement is in the update.",
  over=["inputs", "histories"], text="every object (thorough: ordered pair) of a grammar of accusations, fragments, threshold objects, conflict proofs and statements the byzantine pair can make, at three phases of the period",
  tests="No test has a byzantine gossiper or monitor.",
  files=[G, GI, V, M, MT, "crypto/crypto_config.go"], mech=[("accusation, fragment, full and conflict handlers", G), ("verification", V)],
  observe=["gossiper blacklist", "GET /monitor/get-update"],
  note="3 pairs, t=2, one byzantine; about 70 forged objects, all phases; pairs of objects in thorough."),
 dict(id="P07", title="Accusations take effect exactly when threshold monitors make them",
  statement="A gossiper blacklists an entity for not answering, and tells its monitor so with one threshold signed accusation, exactly if the monitors of at least threshold running pairs accused it: fewer accusers never suffice however often their accusations are sent or to whom, and with enough of them every running gossiper does, for every order of messages. A logger or CA that answers nobody during a period is in every update of that period as accused. Nobody else is affected.",
  over=["schedules", "configurations"], text="all sets of running pairs and accusers, all delivery orders, accusations sent to every gossiper",
  tests="No test has an accusation reach the threshold.",
  files=[G, GI, M, "monitor/monitor-server.go"], mech=[("accusation handlers", G), ("accusing a silent entity", M)],
  observe=["gossiper blacklist and storage", "messages to monitors", "GET /monitor/get-update"],
  note="3 pairs t=2 (all sets) and 4 pairs t=3; complete state spaces."),
 dict(id="P08", title="A blacklisted entity stays excluded",
  statement="Once a proof of misbehaviour against an entity (conflict proof or threshold accusation) has been accepted, a gossiper does not store, sign, forward or complete statements of that entity, in that period and after any number of storage rollovers. A monitor holding a conflict proof against an entity does not query it in any later period and puts no statement of it in its updates. Other entities are treated as before.",
  over=["histories"], text="all combinations of proof kind, entity kind, statement known before, number of rollovers and form of the later statement",
  tests="No test continues after a proof.",
  files=[G, GI, M, MT], mech=[("blacklist checks in the handlers", G), ("blacklist", GI), ("query loop", M)],
  observe=["gossiper storage and messages", "queries of the monitor"],
  note="Complete enumeration, 0-3 rollovers, on a running gossiper and a running monitor."),
 dict(id="P09", title="Gossip terminates: no object is sent on twice",
  statement="A gossiper passes a given object to its peers and its monitor at most once: receiving it again, from whomever and in whatever order, changes neither its storage nor its blacklist and causes no further message. After every period's statements the gossip falls silent by itself.",
  over=["schedules", "histories"], text="all delivery orders for three pairs with agreeing, conflicting and missing answers; all sequences of 3-4 (thorough 5) objects of 8 kinds, each repeated",
  tests="The tests do not look at traffic.",
  files=[G, GI], mech=[("duplicate checks", G), ("storage", GI)],
  observe=["messages sent", "gossiper storage"],
  note="Complete state spaces for three pairs, all object sequences to depth 4 (quick)."),
 dict(id="P10", title="Fragments combine exactly when threshold gossipers signed one thing",
  statement="For every sequence of partial signatures a gossiper receives - valid ones, repeated ones, ones under a wrong name, of unknown signers, unparsable ones, and ones on another statement - it produces a threshold signed object exactly when it holds valid ones of at least threshold distinct gossipers on the same statement, the object verifies, and it names exactly gossipers that signed. Invalid fragments are not stored, counted or forwarded.",
  over=["inputs", "histories"], text="all sequences of up to 4 (thorough 5) fragments over the grammar, STH, REV and accusation, (n,t) = (3,2), (4,3)",
  tests="The tests combine one set of valid fragments of one statement.",
  files=[G, GI, "crypto/bls.go", "crypto/crypto_config.go"], mech=[("fragment handler", G), ("fragment counting", GI), ("aggregation", "crypto/bls.go")],
  observe=["gossiper storage", "messages sent", "verification result"],
  note="Complete enumeration of fragment sequences to the stated depth."),
 dict(id="P11", title="Concurrent requests to a gossiper act like some serial order",
  statement="When requests to a gossiper, its signing timers, its statistics and its storage rollover run at the same time, no interleaving crashes it, deadlocks it or accesses a map unsynchronised; concurrent requests leave storage, blacklist and messages as after some serial order, in particular two conflicting statements always expose the conflict and a threshold object is made once. Against a rollover or a blacklisting no interleaving yields an invalid object or loses the blacklisting.",
  over=["schedules"], text="all interleavings, at lock granularity up to the preemption bound, of every pair of operations, from several starting situations; the same pairs under the race detector",
  tests="No test issues concurrent requests.",
  files=[G, GI, "gossiper/gen.go"], mech=[("handlers", G), ("storage and locks", GI)],
  observe=["gossiper storage, blacklist", "messages sent", "process crash"],
  tech="systematic concurrency testing of the implementation: exhaustive enumeration of interleavings at lock granularity under a controlled scheduler, with a preemption bound; race-detector build for data accesses",
  note="All pairs of operations, 2 preemptions quick, 3 and triples in thorough; linearizability against the serial executions of the same code."),
 dict(id="P12", title="Concurrent requests to a monitor lose and duplicate nothing",
  statement="When gossip objects, client requests, queries and the end-of-period task reach a monitor at the same time, no interleaving crashes it, deadlocks it or accesses a map unsynchronised. Every accepted proof of misbehaviour and statement is in exactly one period's update as after some serial order, and revocation vectors are applied once.",
  over=["schedules"], text="all interleavings, at lock granularity up to the preemption bound, of every pair of monitor operations including the end-of-period task; the same under the race detector",
  tests="No test issues concurrent requests.",
  files=[M, MT, "monitor/client-update-monitor.go", "monitor/monitor-server.go"], mech=[("object handling", M), ("storage", MT), ("update generation", "monitor/client-update-monitor.go")],
  observe=["monitor storage", "updates of both periods", "process crash"],
  tech="systematic concurrency testing of the implementation: exhaustive enumeration of interleavings at lock granularity under a controlled scheduler, with a preemption bound; race-detector build for data accesses",
  note="All pairs of operations with 2 preemptions (quick), 3 in thorough."),
 dict(id="P13", title="A monitor takes from a logger or CA only what is valid, and accuses the silent",
  statement="For every reply of a logger or CA - nothing, an error, garbage, somebody else's statement, one of another period or with a bad signature, revocation data that do not fit, or a good one - at any time and speed, a monitor passes on to its gossiper exactly the valid statements. It accuses the entity exactly if it has no valid statement of it within the waiting time, neither from itself nor through gossip. One entity's reply has no influence on how the others are treated.",
  over=["inputs", "histories"], text="every kind of reply x what the gossiper tells meanwhile and when x fast or slow reply, for loggers and CAs, and the same in the following period",
  tests="The tests query honest entities only.",
  files=[M, "monitor/monitor-server.go", MT], mech=[("query loop", M), ("accusation", M)],
  observe=["objects sent to the gossiper", "monitor storage"],
  note="Complete enumeration of reply kinds, gossip events and speeds over one and two periods on a running monitor."),
 dict(id="P14", title="A monitor's update holds exactly the period's objects, each in one update",
  statement="Whatever arrives at a monitor and whenever, the update it serves for a period consists of exactly the threshold signed statements and accusations of that period and the conflict proofs received since the last one, each once, with the monitor's label and period. It is found under the period's number for every minute of the hour and stays the same however often it is requested.",
  over=["histories", "schedules"], text="all combinations of arrival times of several objects over three periods; every minute label of an hour",
  tests="The tests make one update from a static directory.",
  files=["monitor/client-update-monitor.go", "monitor/monitor-server.go", MT], mech=[("update generation", "monitor/client-update-monitor.go"), ("end of period task", M)],
  observe=["GET /monitor/get-update"],
  note="All arrival combinations of 3 objects over 3 periods (4 in thorough); 61 consecutive periods."),
 dict(id="P15", title="Revocations reach the client completely and exactly",
  statement="For every history of revocations by a CA, the statements it issues period by period lead monitors and clients to exactly its set of revoked certificates as of each statement: nothing lost, nothing added, nothing mixed up between CAs. A statement is valid exactly for parties in the state it builds on.",
  over=["histories", "inputs"], text="all histories of revocations (first, last and out-of-range index, repeated, none, before and after the statement is made, mass revocation) over 2-3 periods; all pairs of previous and current sets over five positions",
  tests="The tests compute one delta; they never apply a sequence at a monitor and a client.",
  files=["CA/CRV.go", "CA/server.go", M, MT, "client/client.go"], mech=[("revocation statement", "CA/CRV.go"), ("SRH check and application", MT), ("client update", "client/client.go")],
  observe=["CRVs of CA, monitor and client", "result of HandleUpdate"],
  note="All histories over 2 and 3 periods (4 in thorough) through a real CA, monitor and client; 1944 set combinations."),
 dict(id="P16", title="An honest CA or logger issues one valid statement per period",
  statement="A CA or logger, started at any second, answers every request from its second full period on with a statement that is signed by it, labelled and signed for the current period, and the same throughout the period. This holds for every minute of the hour including the wrap at 59, and whether or not other entities answer it.",
  over=["histories", "configurations"], text="63 consecutive periods from three starting minutes, seven instants of each; start at every half second of a minute",
  tests="The tests start the entities and print what they do for some seconds.",
  files=["CA/server.go", "CA/CRV.go", "Logger/server.go", "Logger/buildmerkle.go"], mech=[("CA periodic task", "CA/server.go"), ("logger periodic task", "Logger/server.go"), ("tree head", "Logger/buildmerkle.go")],
  observe=["GET /ctng/v2/get-sth", "GET /ctng/v2/get-revocation"],
  note="Complete enumeration of all minute labels and all half-second starting offsets in virtual time."),
 dict(id="P17", title="A CA's certificates carry the loggers' valid proofs and a unique revocation ID",
  statement="Every precertificate a CA issues is validly signed by it, is sent to every reachable logger even if others never answer, and has a revocation number no other certificate of that CA has. When the CA signs its certificates, each carries its own revocation number and, once per logger, the tree head and inclusion proof that this logger sent for it and that verify. This holds for every order, overlap, loss and repetition of the loggers' messages and whatever else is sent to the CA.",
  over=["schedules", "inputs", "fault_sequences", "histories"], text="all delivery orders of tree heads and proofs with up to two losses, 23 hostile messages at each point, all interleavings with up to two preemptions, six periods of issuing",
  tests="The tests issue certificates of one CA in one fixed order.",
  files=["CA/server.go", "CA/ca.go", "CA/types.go"], mech=[("CA endpoints", "CA/server.go"), ("precertificate pool", "crypto/certpool.go"), ("certificate generation", "CA/ca.go")],
  observe=["POST /CA/receive-sth", "POST /CA/receive-poi", "the CA's precertificate pool and signed certificates"],
  note="Real CA and logger code; proofs judged by an independent hash tree."),
 dict(id="P18", title="A logger's tree proves exactly the certificates it contains",
  statement="For every number of precertificates the logger's tree head has the root and size of the hash tree over them, and every precertificate gets a proof that verifies against this root. No certificate outside the tree, and no altered, shortened or exchanged proof, verifies.",
  over=["inputs"], text="every tree size 0..70 (thorough 0..300), every leaf, every pair of leaf and foreign proof, every altered, cut or extended proof",
  tests="The tests build one tree of one size.",
  files=["Logger/buildmerkle.go", "crypto/MerkleTree.go"], mech=[("tree and proofs", "Logger/buildmerkle.go"), ("proof check", "crypto/MerkleTree.go")],
  observe=["the logger's STH and inclusion proofs", "VerifyPOI"],
  note="Compared with an independently written hash tree."),
 dict(id="P19", title="A logger puts every accepted precertificate into exactly one tree",
  statement="A logger accepts exactly the well-formed precertificates that are validly signed by a CA it knows. Each accepted one is in exactly one of its trees, and its issuer gets one valid inclusion proof for it; what it refuses is in no tree and disturbs nothing. This holds for every instant and interleaving of submissions, queries and the making of the tree, and even if another CA never answers.",
  over=["inputs", "schedules", "histories"], text="all pairs of 17 kinds of submissions, all pairs of instants over two periods, all interleavings with up to two preemptions",
  tests="The tests submit well-formed precertificates at unhurried instants.",
  files=["Logger/server.go", "Logger/buildmerkle.go"], mech=[("submission endpoint", "Logger/server.go"), ("periodic task", "Logger/server.go"), ("tree and proofs", "Logger/buildmerkle.go")],
  observe=["POST /Logger/receive-precerts", "GET /ctng/v2/get-sth", "the messages to the CAs"],
  note="Real logger; an independent tree over the accepted precertificates is the oracle."),
 dict(id="P20", title="A client accepts exactly the certificates that are proven and not revoked",
  statement="A client accepts a certificate only if a logger against which it holds no proof of misbehaviour has proven that the certificate is in a tree head this client received, and the issuer's revocation information shows it not revoked. It accepts every certificate for which that is so. This holds after every history of updates, whatever the certificate's extension contains.",
  over=["inputs", "histories"], text="all pairs of 15 kinds of logger entries x proofs of misbehaviour x revocation states; all histories of three periods (thorough four)",
  tests="The tests check one good certificate against one update.",
  files=["client/client.go", "crypto/MerkleTree.go"], mech=[("certificate decision", "client/client.go"), ("proof check", "crypto/MerkleTree.go")],
  observe=["ClientContext.VerifyCTngextension"],
  note="The decision is compared with one computed from the history."),
 dict(id="P21", title="A client takes over a valid update completely and an invalid one not at all",
  statement="If any object of an update is not validly threshold signed, is a wrong conflict proof, or contains revocations that do not match the signed hash, the client rejects the update and its databases and decisions are as before. Otherwise every object of the update takes effect. Updates and certificate decisions that run at the same time have the effect of some serial order.",
  over=["inputs", "schedules"], text="23 changes to each object of an update (thorough: pairs), all interleavings of updates and decisions with up to three preemptions",
  tests="The tests only apply updates that are valid.",
  files=["client/client.go", "crypto/crypto_config.go", "definition/Verify.go"], mech=[("update handling", "client/client.go"), ("object verification", "definition/Verify.go")],
  observe=["ClientContext.HandleUpdate", "the client's databases", "ClientContext.VerifyCTngextension"],
  note="Databases are compared with ones computed from the accepted updates."),
 dict(id="P22", title="Stored data survives a crash at any point",
  statement="If a client or monitor process dies at any point while it saves its data, each file afterwards has its complete old or its complete new content. A restarted client has the same data and takes the same decisions, and taking the interrupted update again leads to the state without the crash; a monitor serves each update completely or not at all.",
  over=["crash_points", "histories"], text="a crash before every disk operation and inside every write, for all orders of the client's saves, all subsets of updates, several file sizes",
  tests="The tests never interrupt a process.",
  files=["client/client.go", "util/IO.go", "monitor/client-update-monitor.go", "monitor/monitor.go"], mech=[("file writing", "util/IO.go"), ("client databases", "client/client.go"), ("monitor storage", "monitor/monitor.go")],
  observe=["the data files", "the restarted client's databases", "the monitor's update endpoint"],
  note="Every disk operation of the real code is a crash point; process crashes, not power loss."),
 dict(id="P23", title="A generated deployment is consistent and keeps secrets apart",
  statement="For every number of monitor/gossiper pairs, threshold, loggers and CAs, the generated files let every entity start with its own identity, addresses every peer rightly, and pairs each monitor with its gossiper. Every entity can verify every other entity's signatures, every gossiper's fragments, and the signature of any threshold of gossipers. No entity's files contain another entity's secret key.",
  over=["configurations"], text="2, 3, 4 and 12 pairs, all thresholds (lowest, middle, highest for 12), 1-3 and 11 loggers, 1, 2 and 11 CAs, two target directories (thorough: up to 20 pairs)",
  tests="The tests generate one fixed deployment and do not check it.",
  files=["Gen/Gen.go", "crypto/crypto_IO.go", "crypto/types.go"], mech=[("generator", "Gen/Gen.go"), ("key storage", "crypto/crypto_IO.go")],
  observe=["the generated files", "the contexts every entity loads from them"],
  note="Complete enumeration of the deployment sizes; every pair of entities is checked by signing and verifying with the loaded keys."),
 dict(id="P24", title="Mapping a deployment to IP addresses changes the addresses and nothing else",
  statement="After a generated deployment is mapped to a list of addresses, every reference to an entity, in every file of every entity, is that entity's own new address and port, and everything else is as before. All keys and signatures still work under the new identities. The list itself survives being written and read.",
  over=["configurations"], text="deployments of 2, 3 and 12 pairs, 1, 2, 4 and 11 loggers, 1, 3 and 11 CAs, six address layouts (thorough: up to 20 pairs)",
  tests="The test maps one deployment and does not look at the result.",
  files=["Gen/IPmapping.go"], mech=[("mapping", "Gen/IPmapping.go")],
  observe=["the mapped files", "the contexts every entity loads from them"],
  note="Complete enumeration of deployments and layouts, compared with the deployment before the mapping."),
 dict(id="P26", title="Hostile or broken peers cannot stop an entity",
  statement="Whatever bytes a peer sends to any endpoint of a gossiper, monitor, CA or logger, answers to a monitor's query, or shows a client as update or certificate, no process ends. Afterwards the entity handles the valid messages about other entities as usual, in the same period and the next.",
  over=["inputs", "histories"], text="all single-place malformations of every kind of message, at the outside and inside nested and signed content (re-signed by the hostile entity), on every endpoint, reply, update and certificate: about 34,000 exchanges",
  tests="No test sends a malformed message.",
  files=[G, M, "monitor/types.go", "CA/server.go", "Logger/server.go", "client/client.go", "client/parser.go", V], mech=[("request handlers", G), ("queries", M), ("request handlers", "CA/server.go"), ("request handlers", "Logger/server.go"), ("updates", "client/client.go"), ("verification", V)],
  observe=["ends of processes", "what is sent, answered and decided after the malformed message"],
  note="Complete enumeration of a mutation grammar; liveness is probed with a following valid exchange."),
 dict(id="P27", title="Clients accept exactly what was issued, despite any single fault",
  statement="In a running deployment every client accepts, after each period's update, exactly the certificates that the CAs issued with a logger's proof and had not revoked, whichever monitor it asks. One lost message between any two entities, or one entity cut off or not answering for any time, changes this only for the clients of the monitor concerned and for the certificates of the CA or logger cut off. No proof of misbehaviour arises against any other entity.",
  over=["fault_sequences", "schedules", "histories"], text="3 pairs with threshold 2, 2 loggers, 2 CAs, 4 clients, 3 periods with revocations: every single message refused or never answered; every entity cut off or never answering at 12 instants for 4 lengths (thorough: 4 pairs with threshold 3, 3 loggers)",
  tests="The network tests run one fault-free deployment for minutes of real time and judge nothing.",
  files=["CA/server.go", "Logger/server.go", M, G, "client/client.go"], mech=[("issuing", "CA/server.go"), ("inclusion", "Logger/server.go"), ("querying and updates", M), ("agreement", G), ("verification", "client/client.go")],
  observe=["what every client accepts", "proofs of misbehaviour at clients"],
  note="Complete enumeration of single losses and of single cut-offs over whole runs of the real entities."),
 dict(id="P29", title="An entity that shows different or no statements is caught by every client",
  statement="When a CA or a logger shows its monitors different statements for a period, or none, every client holds a proof of it after the update of that period, of the right kind, and goes on accepting the certificates of the other CAs that the other loggers prove. An entity that behaves is never caught.",
  over=["configurations", "histories"], text="each CA and logger, each of the seven built-in kinds of behaviour, misbehaviour intervals 1..3, 4 periods (thorough: 4 pairs, intervals 1..5, 5 periods)",
  tests="The network tests start such entities but judge nothing.",
  files=["CA/server.go", "Logger/server.go", M, G, "client/client.go"], mech=[("behaviours", "CA/server.go"), ("behaviours", "Logger/server.go"), ("conflict detection", G), ("accusations", M), ("blacklists", "client/client.go")],
  observe=["updates of every monitor", "proofs of misbehaviour at every client", "certificates accepted"],
  note="Complete enumeration of entities, kinds and intervals over whole runs of the real entities."),
 dict(id="P28", title="A gossiper signs at most one statement of an entity per period",
  statement="Whatever statements, fragments, threshold objects and storage rollovers occur, a gossiper never partially signs two different statements of one entity for one period. Hence with threshold 2 of 3 no two threshold objects on different statements can come into being, even when messages are lost or late.",
  over=["histories", "schedules", "crash_points"], text="all histories of 4 (thorough 6) events at one gossiper; all delivery orders with a lost message for three pairs",
  tests="No test offers a second statement after the rollover.",
  files=[G, GI], mech=[("signing memory", GI), ("signing timers", G)],
  observe=["fragments sent"],
  note="All histories of 4 events (quick) over 8 events; complete three-pair state spaces with one lost message."),
]
NOT_APPLICABLE = []
