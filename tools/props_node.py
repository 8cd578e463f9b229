RT = "the tests of this crate are not in the stable set, need proofs that take seconds each, and follow one scenario of two transactions. "
RN = "Real circuit sources over a stand-in for plonky2 that evaluates circuits instead of proving them; a proof is its public inputs, the verifier key of its circuit, and a verdict on whether its witness satisfies the circuit. "
prop("N01", "Recursive proofs are bound to their own verifier",
  "A proof that claims another circuit's verifier key, comes from another circuit, or contains such a proof anywhere below it is accepted neither by any circuit that consumes it nor by any verify function; every proof made from genuine ones is. No chain of proofs that starts with a foreign one, however the foreign proof copies its public inputs, can reach a block that verifies.",
  ["inputs", "configurations"], "every consumer circuit and verify function against every child proof: genuine, of another circuit, with another key, or built from such a one to any depth of the block's tree of proofs",
  RT + "They only combine genuine proofs.",
  ["recproofs/src/circuits", "recproofs/src/subcircuits"],
  [("UnboundedSubCircuit", "recproofs/src/subcircuits/unbounded.rs"), ("BoundedSubCircuit", "recproofs/src/subcircuits/bounded.rs"), ("LeafCircuit, BranchCircuit", "recproofs/src/circuits/*.rs")],
  observe=["verdict of each circuit and verify function"],
  tech="explicit-state closure: states are proofs (circuit, key, public inputs, what is foreign below), transitions are the real circuits proving over them and the real verify functions; every reachable state is checked against the rule that only genuine ones are accepted",
  note=RN + "Foreign proofs copy the public inputs of genuine ones, with either key in them. 394 proofs and 54,000 transitions (1,700 and 146,000 thorough).")
prop("N04", "Events change objects by the rules",
  "The events that programs emit on one object in a block are accepted together only if they do not contradict each other, in whatever order and tree they are put together, and an object changes only as they allow: data as written by its owner, as ensured and as read; owners by a give and a take that name each other, and only to create or delete; credits by the sum of the deltas, never below zero, and taken only by the object's owner; the update height is set on change and cleared on deletion. Events that fit are always accepted, and values that no event names are unchanged.",
  ["inputs", "histories"], "all sets of up to three events of a domain with three owners, three values and all event types, in every order and shape of the tree, against all changes between objects of a domain",
  RT + "They follow three objects through one block.",
  ["recproofs/src/circuits/accumulate_delta.rs", "recproofs/src/circuits/accumulate_delta", "recproofs/src/circuits/match_delta.rs", "recproofs/src/circuits/match_delta"],
  [("accumulate_delta circuits", "recproofs/src/circuits/accumulate_delta{.rs,/core.rs}"), ("match_delta leaf circuit", "recproofs/src/circuits/match_delta{.rs,/core.rs}")],
  observe=["verdict of each circuit", "state hash, events and height that an accepted change claims"],
  tech="exhaustive enumeration of event histories and object changes; the real circuits' verdicts and outputs are compared with reference rules on each",
  note=RN + "3.2 M changes (21 M thorough). That credits may go below zero (wrap around the field), and that any program may take credits from any object, are listed findings.")
prop("N02", "A block's transactions prove exactly what their parts prove",
  "The events of a transaction are exactly those of its programs: each program's events are those whose root it proved and that it owns, each program of a transaction agrees on the call list, the list of programs that take part is the list the transaction names, and merging two sets of events neither drops, adds nor reorders any. A part that is absent counts as absent and nothing else. This holds for every program proof, event list, and shape of the trees, and the events and hashes agree with what the SDK computes.",
  ["inputs", "configurations"], "for each circuit from merge and event roots up to a block's transactions: the whole product of small domains of the statements of the proofs below it (each hash right or differing in one place, present or not), leaf and partial flags",
  RT + "They use one arrangement of two programs.",
  ["recproofs/src/circuits/merge.rs", "recproofs/src/circuits/build_event_root.rs", "recproofs/src/circuits/verify_program", "recproofs/src/circuits/verify_program.rs", "recproofs/src/circuits/verify_tx.rs", "recproofs/src/subcircuits", "recproofs/src/lib.rs"],
  [("merge circuits", "recproofs/src/circuits/merge.rs"), ("event root circuits", "recproofs/src/circuits/build_event_root.rs"), ("program circuits", "recproofs/src/circuits/verify_program.rs"), ("transaction circuits", "recproofs/src/circuits/verify_tx.rs"), ("MergeSubCircuit and others", "recproofs/src/subcircuits")],
  observe=["verdict of each circuit", "public inputs of the proof that each makes"],
  tech="exhaustive enumeration of the children's statements and the prover's choices; the real circuits' verdicts and public inputs are compared with a rule per circuit",
  note=RN + "Circuits consume statements of any value, as if any child could prove them: what the children really prove is decided by the case below. 156,000 assignments; every public input has to be among those chosen or compared.")
prop("N03", "State updates show every change and nothing else",
  "A state update that is accepted at the root changes the state from the old root to the new at exactly the addresses it summarises: no change of any leaf is hidden, none is shown at another address, unchanged leaves stay as they were, and the summary is that of the changes in order of address. Every change of the state can be shown.",
  ["inputs", "configurations"], "every pair of states of a tree of four addresses over three values, every claim of address per leaf; for the leaf and branch circuits the product of domains with edge values of addresses and hashes that differ in one place",
  RT + "They check a few fixed updates of one small tree.",
  ["recproofs/src/circuits/state_update.rs", "recproofs/src/subcircuits"],
  [("state_update circuits", "recproofs/src/circuits/state_update.rs"), ("summarized, unpruned, address subcircuits", "recproofs/src/subcircuits"), ("summarize", "recproofs/src/lib.rs")],
  observe=["verdict of each circuit", "roots, summary and address of the proof at the root"],
  tech="explicit-state enumeration of all transitions between states of a small tree (6,561 pairs times address claims) through the real circuits, and of the leaf and branch relation over edge domains",
  note=RN + "6.3 M cases. Addresses on the wrong side of a branch are not judged at the branch but at the root, where they have to be refused.")
prop("N05", "A block joins the transactions, the changes and the state of its predecessor",
  "A block is accepted exactly if its transactions' events are those its matches account for, the matches' changes are those of its state update, at the root address, the update starts from the predecessor's state, its height is the predecessor's plus one, and the first block starts from the base state; it states that base, the new state and that height. Putting matches together keeps their events and changes in order and their height equal.",
  ["inputs", "histories"], "for the block, base and match circuits: the whole product of small domains of the statements below (each hash right or differing in one place, heights up to the field's order)",
  RT + "They chain three blocks of the same scenario.",
  ["recproofs/src/circuits/verify_block", "recproofs/src/circuits/verify_block.rs", "recproofs/src/circuits/match_delta.rs", "recproofs/src/subcircuits"],
  [("verify_block circuit", "recproofs/src/circuits/verify_block{.rs,/core.rs}"), ("match_delta branch", "recproofs/src/circuits/match_delta.rs")],
  observe=["verdict of each circuit", "public inputs of the proof that each makes"],
  tech="exhaustive enumeration of the statements below and the prover's choices; the real circuits' verdicts and public inputs are compared with a rule per circuit",
  note=RN + "283,000 assignments. That a block without any event cannot be proven follows from the transactions' proof and is not judged.")
prop("N06", "The node's state tree proves every change it is told",
  "After any sequence of reads, writes, creations, deletions and finalizations the node's state holds exactly the objects that it was told, old and new, and its proof verifies, goes from the root of the last finalized state to the root of the new one, and summarises exactly the addresses that were touched since. Operations that contradict an earlier one of the same block are refused, all others are accepted. Deleted objects leave no trace after finalizing.",
  ["histories"], "all sequences of operations up to length 5 (6) on two addresses, shorter ones on three and four and at the edges of the address space, in trees of depth 0 to 63",
  "The tests create, update and delete one object in a fixed order.",
  ["node/src/block_proposer/state.rs", "node/src/block_proposer.rs"],
  [("State", "node/src/block_proposer/state.rs"), ("AuxStateData", "node/src/block_proposer/state.rs")],
  observe=["get_state", "roots, summary and address of the proof", "verdict of the verifier"],
  tech="exhaustive enumeration of operation sequences on the real state tree, each compared with a reference map and reference Merkle roots",
  note=RN + "277,000 sequences (1.9 M thorough).")
prop("N07", "The node's addresses and trees are those of the SDK and the circuits",
  "Parents, common ancestors, comparison and order of addresses are those of the 64-level binary tree, for any two of its nodes. Lists reduce to the left-full tree and lists by address to the compressed prefix tree, in order and without losing any item, and give the same root as the SDK's commitment for every cast list and every list of events.",
  ["inputs"], "all pairs of nodes of small subtrees at the root and at six places of the leaves' level and of seven paths to the root; all lists up to 70 (600) items; all sorted lists of up to 6 (7) of 8 addresses, and up to 5 (6) of 7 edge addresses",
  "The tests compare the nodes of one subtree three levels deep.",
  ["node/src/block_proposer.rs", "sdk/src/common/merkle.rs"],
  [("BranchAddress, reduce_tree, reduce_tree_by_address", "node/src/block_proposer.rs"), ("merkleize", "sdk/src/common/merkle.rs")],
  observe=["results of each function"],
  tech="exhaustive enumeration of bounded inputs against a reference tree",
  note="289,000 pairs. Addresses from the field's order on cannot be stated in the circuits and are not used with proofs.")
prop("N08", "The node makes a block of every set of transactions that follow the rules",
  "Transactions whose programs' events follow the rules for objects become a block, whatever the number of programs and events, the addresses they touch, how many programs touch the same address, and the order in which the programs' proofs arrive; a transaction completes with its last program and not before, and no program counts twice. Objects can be created, read, written and deleted block after block, and the block states the resulting state and the next height.",
  ["inputs", "schedules", "histories"], "casts of 1 to 8 programs in all orders (up to 4, thorough 6; selected orders above), all event lists of one to three programs over small address domains, two and three transactions and the interleaving of their programs, all lives of two objects over 3 (4) blocks",
  "The tests make a block of one read by one program.",
  ["node/src/block_proposer", "node/src/block_proposer.rs"],
  [("TransactionAccumulator", "node/src/block_proposer/transactions.rs"), ("Matches", "node/src/block_proposer/matches.rs"), ("Blocks", "node/src/block_proposer/block.rs")],
  observe=["whether a block is made", "completion of transactions", "block height"],
  tech="exhaustive enumeration of bounded transaction sets, arrival orders and object lives; each is run through the real accumulators and circuits up to the block",
  note=RN + "16,600 blocks and lives. A block without any event cannot be made, by construction, and is not judged. That programs which touch the same object have to arrive in the order of the cast, and at most three of them, is a listed finding.")
