# how each property is decided: (what is enumerated, oracle, granularity)
MECH = {
"P01": "Running gossipers and monitors (real servers in virtual time), honest logger and CA; every delivery order of all gossip messages of a period, every order of simultaneous timers, up to two overtaking timers, for every set of running pairs of at least threshold size and every set of monitors that were answered. Oracle: at the end every running monitor's update carries the threshold object on exactly that statement, with a signature the independent BLS oracle accepts, and no accusation.",
"P02": "All claimed signer multisets x relations to the real signers x object kinds and signature moves, against `Verify`, a running gossiper, a running monitor and a client. Oracle: independent threshold check (distinct known signers >= t, aggregate BLS verification).",
"P03": "Complete forgery grammar (subject x signing key x identity in the signature x claimed signer x content/period alteration) against `Verify` and a running gossiper. Oracle: authentic iff the grammar says so.",
"P04": "Complete grammar of conflict proofs (ordered pairs of statements x accused x key), against `Verify`, gossiper and monitor. Oracle: two different validly signed statements of the accused for one period.",
"P05": "Complete one-period state space with an equivocating entity for every assignment of its two statements to monitors; all orders of six events at one gossiper; also equivocation while the storage rolls over. Oracle: every running monitor gets a valid conflict proof, no threshold object on either statement appears after the conflict is known.",
"P06": "One byzantine pair of three (t=2): every object (thorough: ordered pairs) of a grammar of what it can make, at three phases. Oracle: no honest entity is blacklisted, accused in an update or loses its statement.",
"P07": "All sets of running pairs and of accusing monitors, all delivery orders. Oracle: threshold accusation exists iff >= t distinct running monitors accused, then everywhere.",
"P08": "Proof kind x entity kind x earlier knowledge x rollovers x form of later statements, on gossiper and monitor. Oracle: nothing of the entity is stored, signed, queried or published afterwards; others unaffected.",
"P09": "Complete three-pair state spaces and all object sequences (depth 4 quick, 5 thorough), each object repeated. Oracle: no (sender, receiver, object) is sent twice.",
"P10": "All sequences of fragments over a grammar (valid, other content, other signer, repeated, garbage). Oracle: threshold object exactly when t distinct gossipers' valid fragments on one content arrived.",
"P11": "All interleavings at lock granularity (2 preemptions quick, 3 and triples thorough) of all pairs of operations from several starting situations; linearizability against serial executions of the same code, weakened to safety for operations against a storage wipe; race build.",
"P12": "The same for monitors, including the end-of-period task.",
"P13": "Every kind of reply (valid, altered, foreign, old, malformed, broken, slow) x gossip events x speed over one and two periods at a running monitor. Oracle: gossips exactly valid statements of the queried entity and accuses exactly those without one.",
"P14": "All arrival-time combinations of objects over three periods; 61 consecutive periods. Oracle: every update holds exactly its objects, each object in exactly one update.",
"P15": "All revocation histories over 2-3 periods through a real CA, monitor and client; all pairs of previous and current sets. Oracle: set arithmetic.",
"P16": "63 consecutive periods, seven instants each, several starting minutes; starts at every half second. Oracle: one valid statement per period, the same at every instant.",
"P17": "Delivery orders with up to two losses, hostile messages at each point, interleavings, issuing over six periods with loggers refusing or hanging, up to 9 loggers and 40 certificates; real CA and loggers. Oracle: independent hash tree and signature checks on signed certificates; RIDs unique.",
"P18": "Every tree size, leaf and altered/foreign proof. Oracle: independently written hash tree.",
"P19": "All pairs of kinds of submissions, instants, interleavings, race build at a running logger. Oracle: independent tree over accepted precertificates; each in exactly one tree with one proof.",
"P20": "All pairs of kinds of logger entries x misbehaviour x revocation state, histories of three periods. Oracle: decision computed from the history.",
"P21": "All single changes to the objects of an update (pairs thorough), interleavings of updates and decisions, race build. Oracle: databases computed from the accepted updates.",
"P22": "Every disk operation is a crash point and every write torn, for saves of client and monitor. Oracle: old or new content, restart works, same decisions.",
"P23": "All deployment sizes of a list; every pair of entities signs and verifies with loaded keys; secrets appear in one place only.",
"P24": "Deployments x address layouts; all files compared with the deployment before the mapping under the mapping.",
"P26": "Every endpoint of every entity, every reply to a monitor's query, every update and certificate shown to a client: all single-place malformations (recursively, also inside nested JSON and hex, also re-signed by the hostile entity). Oracle: no process ends, and a following valid exchange about other entities, in this and the next period, works as usual (so a lock left held or a dead timer shows).",
"P27": "Whole systems (CAs, loggers, gossipers, monitors, clients) over three periods with revocations; every single lost or never answered message, every cut-off or silence of an entity at 12 instants x 4 lengths; deployments of other shapes, an hour's run. Oracle: acceptance computed from what was issued, proven and revoked.",
"P28": "All histories of events at one gossiper including rollovers; three-pair state spaces with one lost message. Oracle: at most one content signed per entity and period; no two threshold objects.",
"P29": "Each CA and logger x seven behaviours x intervals over four periods of a whole system. Oracle: what the entity actually told the monitors decides whether every client must hold a proof.",
}
