"""Genuine defects of the repository found by the checks.  (property, commit in /repo, what failed)"""
FIXED = [
 ("P02", "fd11399", "an object signed by fewer than threshold gossipers (one signer repeated, or unknown signers) was accepted as threshold signed"),
 ("P26", "55d1fb4", "a fragment or threshold object whose signature does not parse crashed the entity (nil signature)"),
 ("P16", "155bcc1", "in ten minutes of the hour statement and object carried different period labels (\"5\" and \"05\", \"60\" and \"00\")"),
 ("P03", "dd0e058", "an STH or REV about one entity signed by another, or relabelled to another period, was accepted"),
 ("P04", "7e77383", "two statements of different periods, or the same statement twice, were accepted as a conflict proof"),
 ("P02", "5306e8c", "a threshold object could be relabelled to another type or period: neither is covered by the signature"),
 ("P02", "d0969d2", "a gossiper handed threshold objects that failed verification to its monitor"),
 ("P07", "a8285ef", "a gossiper signed accusations of other monitors, so that one monitor reached the threshold alone"),
 ("P05", "562b682", "two conflicting statements handled at the same time hid the conflict"),
 ("P10", "6f1a247", "invalid, repeated or foreign fragments counted towards the threshold and blocked the valid object"),
 ("P11", "2ea0a00", "the gossiper storage, locks included, was replaced while requests were handled"),
 ("P11", "675e126", "concurrent map iteration and map write in the gossiper's statistics"),
 ("P02", "c031c69", "a monitor stored objects without verifying them"),
 ("P08", "fbac746", "a monitor queried a CA again in the period after the conflict proof against it"),
 ("P14", "9e097b5", "a request for the update of an unknown period ended the monitor's process"),
 ("P13", "4d943a8", "a monitor gossiped another entity's or an old statement as the answer instead of accusing"),
 ("P12", "c5b4a0a", "concurrent map access in the monitor while its storage was wiped or read"),
 ("P21", "13fe604", "a client kept parts of an update it rejected, and blacklisted on unverified proofs"),
 ("P20", "131a053", "a certificate of a CA without revocation information crashed the client; a blacklisted logger was not recognised"),
 ("P22", "c61f616", "a restarted client had forgotten the proofs of misbehaviour"),
 ("P22", "4da32b8", "a crash while a data file was written destroyed the previous content"),
 ("P15", "21d8924", "revocations after the first period never reached the revocation delta"),
 ("P15", "19cf9fb", "a monitor could not follow a CA's revocations over several periods and lost earlier ones"),
 ("P05", "1710a21", "the second statement of the simulated split-world CA was rejected, so its equivocation went unnoticed"),
 ("P14", "707b493", "a proof of misbehaviour arriving while the update was built was in no update"),
 ("P18", "115ecab", "a period with no or one precertificate crashed the logger or had no valid inclusion proof"),
 ("P24", "11e8312", "the CA list of a logger was not mapped to IP addresses"),
 ("P19", "7cf82ed", "a logger accepted precertificates of any CA and crashed on malformed ones"),
 ("P24", "59cc3a6", "all loggers in a CA's list were mapped to one IP address"),
 ("P26", "1df9c96", "an unreachable CA or logger crashed its peer"),
 ("P19", "4f5fd48", "a precertificate accepted while the tree was built was in no tree"),
 ("P19", "5017482", "two precertificates with one key stopped the inclusion proofs of all others"),
 ("P19", "7f2b051", "precertificates of different CAs for one subject were taken for one"),
 ("P17", "31b3ceb", "inclusion proofs and STHs of several loggers arriving together overwrote each other or crashed the CA"),
 ("P17", "c886b40", "a CA embedded inclusion proofs that do not verify"),
 ("P28", "450ffe0", "after the storage was wiped gossipers signed a second, different statement for the same period"),
 ("P11", "da84b30", "a storage wipe between counting fragments and reading them crashed the gossiper"),
 ("P24", "1f21b78", "a logger in a CA's list was mapped to the IP address of another logger"),
 ("P24", "a905762", "a gossiper's monitor was mapped to the gossiper's IP address"),
 ("P26", "4b375cf", "a revocation vector announcing a huge length crashed monitors and clients"),
 ("P01", "222feda", "a revocation fragment that overtook its payload was lost, so that with slow messages a gossiper never got the threshold object"),
 ("P23", "11d7562", "generating a deployment into another directory wrote nothing"),
 ("P07", "a3b1cee", "a logger or CA that accepted a monitor's query but never answered was never accused"),
 ("P17", "87cba5f", "a logger that accepted a precertificate but never answered kept the CA from serving the other loggers and from issuing revocations"),
 ("P19", "d7b5654", "a CA that accepted a tree head but never answered kept the logger from sending the others their tree heads and proofs"),
 ("P17", "944506c", "a logger's tree head of another period, sent to a CA again by anyone, took the place of the current one, and the certificates got no proof of that logger"),
]
KNOWN = []
