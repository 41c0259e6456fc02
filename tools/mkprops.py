#!/usr/bin/env python3
"""Writes properties.jsonl. Kept as a script so that the anchors stay readable."""
import json

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

PROC = "UnmarshalAndProcessMessage"
prop("C01", "Members that processed the same handshakes share one epoch state",
     "All members of a group that have processed the same sequence of commits hold the same epoch state: application data sent by any member in that epoch (this library's or a conforming RFC 9420 peer's) is recovered byte for byte by every other member, and every valid commit of that epoch is accepted by all of them. This holds after any mix of adds, updates, removals, path-only commits, tree growth and shrinkage, for every supported cipher suite, and whether handshakes travel as public or private messages.",
     ["histories", "schedules", "inputs", "configurations"],
     "every sequence of valid proposals, commits and application messages by any members, every per-member delivery schedule that respects commit order, every supported cipher suite",
     "The suite has one two-member exchange and replays recorded vectors as one passive client; it never compares two live members after a history, and it ignores the epoch secrets that recorded commits produce.",
     ["group.go", "tree.go", "tree_math.go", "key_schedule.go", "secret_tree.go"],
     [("processing of commits", "group.go processCommit"), ("update path merging and decryption", "tree.go mergeUpdatePath, decryptPathSecrets"), ("proposal application", "tree.go apply/add/update/remove"), ("key schedule", "key_schedule.go extractJoinerSecret, extractEpochSecret")],
     [PROC + " results at every member", "CreateApplicationMessage output opened by the reference model", "CreateWelcome output (tree, transcript hash, confirmation tag) compared with the reference model"],
     [("epoch state", "tree, group context, transcript hashes, epoch and init secret, private path keys", "group.go Group")])

prop("C02", "Joining through a Welcome gives the state of the members already there",
     "A client that joins from a valid Welcome that names its key package ends in exactly the epoch state of the members who processed the corresponding commit, wherever in the tree it lands and whether or not the commit carried an update path. From then on it exchanges application data with all of them and processes every later valid commit, including commits encrypted to keys it learned only through the Welcome.",
     ["histories", "inputs", "schedules"],
     "every group history before the join, every tree shape and leaf position, one or many joiners per Welcome, with and without an update path, and every valid history after the join",
     "Recorded welcome vectors check the secrets at the moment of joining for a few fixed trees; nothing continues the joined member through later commits that need the private keys derived at join time, and no test joins into trees with blanks or unmerged leaves.",
     ["group.go", "tree.go", "key_schedule.go"],
     [("joining", "group.go GroupFromWelcome, groupFromSecrets"), ("private keys learned from the Welcome", "group.go processPathSecret"), ("tree verification", "tree.go verifyIntegrity")],
     ["GroupFromWelcome result", "messages and commits exchanged after the join"])

prop("C03", "Creating messages yields valid output and changes nothing that matters",
     "Every invitation and application message a member creates is valid for all current members (and the Welcome for every invited client), and creating it does not move the creator out of its current epoch. A created commit that is lost, discarded or beaten by a competing commit has no effect: the creator processes the winning commit like everybody else and stays in agreement, and it can process its own commit when that one wins.",
     ["histories", "schedules", "fault_sequences"],
     "every interleaving of message creation by several members with delivery, loss and competition of commits, at every tree shape",
     "The suite creates one invitation from a fresh two-member group and always applies it; it never abandons a created commit or lets two members race, so shared mutable state between the live tree and the tentative one is never observed.",
     ["group.go", "tree.go", "framing.go"],
     [("invitation creation on a tentative tree", "group.go CreateWelcome"), ("tree copying", "tree.go copy"), ("message protection", "group.go encryptPrivateMessage")],
     ["CreateWelcome and CreateApplicationMessage output checked by the reference model", "later behaviour of creators whose commits lost"])

prop("C04", "A failed operation leaves the group exactly as it was",
     "When processing a message or creating an invitation returns an error, for whatever reason, the group behaves from then on exactly as if the operation had not been attempted: all valid messages and commits are still accepted with the same results, and its own messages and invitations are the same as those of a group that never saw the failure. This includes failures after partial work, such as a commit whose last check fails or a random source that fails midway.",
     ["fault_sequences", "histories", "inputs"],
     "every kind of failing operation (malformed, tampered, stale, premature, invalid or unauthorised message, invalid key package, failing random source) inserted at every point of every valid history",
     "Tests stop at the first error; none continues to use a group after a failed operation, so partially applied changes are invisible to them.",
     ["group.go", "tree.go", "secret_tree.go"],
     [("new state computed aside and installed last", "group.go processCommit"), ("tentative tree", "tree.go copy, apply"), ("pending proposals", "group.go processProposal")],
     ["results of every later operation compared with the reference model, which ignores failed operations"])

prop("C05", "Messages altered in transit are rejected",
     "If any bit of a message, Welcome or key package is changed, removed, added or exchanged with another message's between its creator and its receiver, the receiver reports an error and never returns data, changes epoch, joins a group or invites a client on its account. The only exception is the part of a Welcome addressed to other clients, whose alteration must not affect the receiver at all.",
     ["inputs", "fault_sequences", "histories"],
     "every message kind, every position and kind of alteration (bit flips, truncation, extension, splicing of fields between genuine messages), at every point of a history",
     "The suite checks that valid recorded bytes decode and verify; it contains no altered messages.",
     ["framing.go", "mls.go", "key_package.go", "group.go", "ciphersuite.go"],
     [("signatures, membership tag, AEAD with associated data", "framing.go verifySignature, verifyMembershipTag, decryptSenderData, decryptContent"), ("confirmation tag", "framing.go verifyConfirmationTag"), ("strict decoding", "mls.go unmarshal, readVarint")],
     [PROC + ", UnmarshalWelcome + GroupFromWelcome, UnmarshalKeyPackage + CreateWelcome on altered bytes"])

prop("C06", "Messages are only accepted in the group and epoch they belong to",
     "A member accepts a message only if it was made for the member's own group in the member's own current epoch: messages of earlier or later epochs, of other groups (even with the same members and keys), of a fork created from a discarded commit, or made by or for a set of members that no longer includes the sender are rejected with an error. A member that has been removed never obtains data sent after its removal.",
     ["histories", "schedules", "fault_sequences"],
     "every pair of message and receiver state reachable in histories with several groups, discarded commits, forks, removals and re-additions, delivered arbitrarily late or early",
     "Tests deliver each message once, in its own epoch, to its own group.",
     ["group.go", "framing.go", "key_schedule.go"],
     [("group and epoch comparison", "group.go verifyPublicMessage, processPrivateMessage"), ("group context under signatures and tags", "framing.go framedContentTBS"), ("key schedule bound to the group context", "key_schedule.go")],
     [PROC + " on misdirected messages"])

prop("C07", "No one can speak for another member",
     "Data, proposals and commits are accepted as coming from a member only if signed with that member's current signature key for that exact content, group and epoch. An insider who knows all group secrets cannot make others accept content under another member's (or a blank, removed or non-existent) position, and an outsider or former member who lacks the group secrets cannot get anything accepted at all.",
     ["inputs", "histories", "fault_sequences"],
     "every forged sender position, signing key, content, wire format and membership history, for application data, proposals and commits",
     "Verification vectors contain only genuine messages; no test plays a dishonest group member, which needs an independent implementation holding the group secrets.",
     ["group.go", "framing.go", "ciphersuite.go"],
     [("signature verification against the sender's leaf", "group.go verifyPublicMessage, processPrivateMessage"), ("membership tag", "framing.go verifyMembershipTag"), ("signed content covers wire format and context", "framing.go framedContentTBS")],
     [PROC + " on forged messages built by a reference member with full knowledge of the epoch"])

prop("C08", "Invalid commits from dishonest members are rejected by every honest one",
     "A commit that violates the protocol is rejected with an error by every honest member even if its sender is a genuine member and all outer signatures and tags are right: wrong confirmation tag, missing or malformed update path, wrong or reused keys, invalid leaf, inconsistent parent hash, undecryptable or wrong path secrets, or a forbidden combination of proposals. After the rejection the honest members still agree and go on.",
     ["inputs", "histories", "fault_sequences"],
     "every class of protocol violation in every part of a commit, sent by any member at any point of any history and tree shape",
     "The recorded commits are all valid; tests never check that an invalid one is refused, and the tests discard the confirmation tag.",
     ["group.go", "tree.go", "proposal.go"],
     [("proposal list checks", "proposal.go verifyProposalList"), ("leaf and path checks", "group.go processCommit, tree.go leafNode.verify, mergeUpdatePath, decryptPathSecrets"), ("confirmation tag check", "framing.go verifyConfirmationTag")],
     [PROC + " on invalid commits built by a dishonest reference member", "agreement afterwards"])

prop("C09", "A client never joins a group from an invalid Welcome",
     "Joining fails with an error unless the Welcome is entirely consistent: group information signed by a member of the tree, matching confirmation tag, cipher suite and tree hash, a well-formed ratchet tree with valid leaves, unique keys, valid parent hashes and unmerged leaves, the client's own leaf present, and path secrets that match the tree. No Welcome built by a dishonest inviter makes a client join a state that differs from what the honest members can be in.",
     ["inputs", "histories"],
     "every class of inconsistency in every part of the group secrets, group information and tree, built by an inviter who controls all encryption, for every tree shape",
     "Recorded welcomes are valid; an invalid but correctly encrypted Welcome needs an adversarial inviter that the tests do not have.",
     ["group.go", "tree.go", "key_schedule.go"],
     [("group info verification", "group.go groupFromSecrets"), ("tree integrity", "tree.go verifyIntegrity, verifyParentHashes"), ("tree decoding", "tree.go ratchetTree.unmarshal")],
     ["GroupFromWelcome on adversarial Welcomes"])

prop("C10", "Only valid key packages get into a group",
     "Inviting a client from an invalid key package fails with an error, and a commit that adds one is rejected by every member: wrong cipher suite or version, bad signature on the package or its leaf, wrong leaf source, identical init and leaf keys, unsupported credential or extension, malformed public keys, or keys already used in the group or twice in the same commit. Valid key packages are always accepted.",
     ["inputs", "histories", "configurations"],
     "every class of key package defect, presented to the inviter, inside inline adds and inside referenced add proposals, against every membership (including keys used by current, former and simultaneously added members)",
     "Tests only use freshly generated valid key packages.",
     ["key_package.go", "tree.go", "group.go", "proposal.go"],
     [("key package verification", "key_package.go verify"), ("leaf verification", "tree.go leafNode.verify"), ("duplicate detection", "proposal.go verifyProposalList")],
     ["CreateWelcome on invalid key packages", PROC + " on commits that add them"])

prop("C11", "Referenced proposals take effect exactly as sent, or the commit waits",
     "A commit that references proposals is accepted exactly when the receiver has processed all of them in the current epoch, in whatever order, interleaving or multiplicity they arrived, and then applies each exactly once on behalf of its original sender. Proposals that are not referenced, belong to an earlier epoch or arrived after the commit have no effect, and a commit that came too early succeeds when retried after the missing proposals.",
     ["schedules", "histories", "fault_sequences"],
     "every order, duplication, loss and delay of proposals relative to each other and to the commit, every subset referenced, every mix of inline and referenced, public and private",
     "Recorded clients receive all proposals in order immediately before the commit that uses all of them.",
     ["group.go", "proposal.go"],
     [("pending proposals", "group.go processProposal, resolveProposals"), ("proposal references", "framing.go generateProposalRef")],
     [PROC + " results for proposals and commits", "epoch state after the commit"],
     [("pending proposals", "proposals received in this epoch", "group.go Group")])

prop("C12", "A member never encrypts two messages with the same key",
     "Within one epoch, every private message a member creates uses a message key that this member has not used before in that epoch, and receivers can read all of them whatever order they arrive in. This holds over any interleaving of application messages and invitations, across failed operations and received messages.",
     ["histories", "schedules", "fault_sequences"],
     "every sequence of creations (application data, invitations), receptions and failures within and across epochs",
     "Each test sends at most one message per sender and epoch.",
     ["group.go", "secret_tree.go", "framing.go"],
     [("generation counter of the sender ratchet", "group.go encryptPrivateMessage"), ("ratchet", "secret_tree.go ratchetSecret")],
     ["sender generation in every created message, as decrypted by the reference model"])

prop("C13", "Each private message is accepted at most once, in any order",
     "Within an epoch a member accepts every distinct valid private message once, in whatever order the messages arrive and whatever is lost or skipped in between, and rejects every repetition of one it has already accepted, with an error and without returning data. Accepting or rejecting one message never prevents another valid one from being accepted.",
     ["schedules", "fault_sequences", "histories"],
     "every permutation, duplication and loss of the private messages of an epoch from several senders and both ratchets, interleaved with handshakes and failures",
     "Tests deliver each message once and in order.",
     ["group.go", "secret_tree.go"],
     [("used generations", "group.go processPrivateMessage"), ("ratchet", "secret_tree.go ratchetSecret")],
     [PROC + " on repeated and reordered private messages"])

prop("C14", "Clocks only decide about lifetimes, and decide that correctly",
     "A client is invited only while its key package's validity period contains the inviter's current time, and an invited client can join while the validity periods in the tree contain its own current time and not after its own key package has expired. Apart from that no result depends on the clock: members with arbitrarily wrong, differing or jumping clocks process the same commits and messages with the same results.",
     ["fault_sequences", "histories", "configurations"],
     "every assignment of clock offsets and jumps (forward and backward) to members, invitees and inviters over every history",
     "Tests run at one real instant, with the lifetime check disabled for recorded data.",
     ["tree.go", "key_package.go", "group.go"],
     [("lifetime check", "tree.go lifetime.verify, leafNode.verify"), ("lifetime creation", "key_package.go GenerateKeyPairPackage")],
     ["CreateWelcome and GroupFromWelcome under simulated clocks", PROC + " under skewed clocks"])

prop("C15", "A crashed member can be rebuilt from its durable inputs",
     "A member that loses its memory at any point and is rebuilt from the stored key package, Welcome and the handshake messages it had received reaches the state it would have had without the crash, and then agrees with everybody on all later handshakes and data. Stored objects survive encoding and decoding: what is decoded and encoded again is byte-identical, refers to the same client and works like the original.",
     ["crash_points", "histories", "schedules"],
     "every crash point between any two deliveries, any number of crashes per member, stored bytes replayed with duplicates, failed deliveries included in the stored log",
     "No test re-creates a group from stored bytes or replays a log into a second instance.",
     ["group.go", "key_package.go", "framing.go"],
     [("deterministic processing of received bytes", "group.go GroupFromWelcome, UnmarshalAndProcessMessage"), ("encoding of key packages and welcomes", "key_package.go Bytes, UnmarshalKeyPackage; group.go Bytes, UnmarshalWelcome")],
     ["behaviour of the rebuilt member compared with the reference model"])

prop("C16", "No input makes the library panic",
     "Whatever bytes are received as message, Welcome or key package, and whatever a dishonest member, inviter or client puts inside correctly encrypted and signed content, every public operation returns normally with a result or an error. It never panics, at any point of any history.",
     ["inputs", "histories", "fault_sequences"],
     "every byte string and every adversarial but authenticated content (indices, lengths, node types, cipher suites, key encodings out of range), in every group state",
     "The suite feeds well-formed recorded data only; most crash sites sit behind encryption and signatures, where plain random input does not reach.",
     ["group.go", "tree.go", "mls.go", "ciphersuite.go", "framing.go", "key_package.go", "tree_math.go"],
     [("index checks", "tree.go getLeaf/get"), ("cipher suite table", "ciphersuite.go"), ("decoder checks", "mls.go")],
     ["panics out of any public operation"])

prop("C17", "Processing cost is bounded by the size of the input and the group",
     "The memory and computation any public operation spends is bounded by a small multiple of the size of its input and of the group, whatever the input claims about lengths, counts, generations or indices. In particular no operation fails to terminate.",
     ["inputs", "histories", "fault_sequences"],
     "every message, Welcome and key package, including authenticated ones from dishonest members, with extreme length prefixes, generations and indices",
     "Tests do not measure cost and contain no extreme values.",
     ["mls.go", "group.go", "tree.go", "secret_tree.go"],
     [("length checks before allocation", "mls.go readOpaqueVec"), ("ratchet advance limit", "group.go processPrivateMessage")],
     ["bytes allocated and CPU time per operation"])

prop("C18", "Groups in one process do not influence each other or alias caller buffers",
     "Several groups, members and clients living in one process, sharing key packages, Welcomes and message buffers, behave exactly as if each were alone in its own process. Overwriting a buffer after the call it was passed to, or a buffer that a call returned, changes no later result.",
     ["histories", "schedules", "configurations"],
     "every interleaving of operations on several groups that share decoded objects and byte buffers, with buffers overwritten after use",
     "Tests use fresh objects for each step and look at one group at a time.",
     ["group.go", "tree.go", "key_package.go", "mls.go"],
     [("copying decoders", "mls.go readOpaqueVec"), ("tree nodes not shared between groups", "tree.go add, copy")],
     ["all results under sharing and buffer overwriting, compared with the reference model"])

prop("C19", "Tree and key-schedule arithmetic matches RFC 9420",
     "Node index arithmetic, labelled derivations, hashes, signatures and HPKE calls give the values RFC 9420 prescribes for all arguments.",
     ["inputs"],
     "all arguments",
     "The suite compares with the official vectors, which is most of what can be said; the quantifier over all arguments remains.",
     ["tree_math.go", "ciphersuite.go", "key_schedule.go", "secret_tree.go"],
     [("pure functions", "tree_math.go, ciphersuite.go")],
     ["return values"])

prop("C20", "Comparison of secrets does not leak through timing",
     "The time taken to reject a message does not depend on how much of a tag or secret was right.",
     ["inputs"],
     "all pairs of expected and presented tags",
     "Tests do not measure time.",
     ["ciphersuite.go"],
     [("constant-time MAC comparison", "ciphersuite.go verifyMAC")],
     ["timing of rejections"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
