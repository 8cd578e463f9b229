KA = "Guest programs built from /repo's SDK for the VM's target run in /repo's VM, next to the SDK's native half. "
prop("K01", "The state-tree root is the root of the address-keyed binary tree",
  "For every list of leaves ordered by address, the Merkle root the SDK computes is the root of the binary tree in which a leaf's place is given by the bits of its 64-bit address, skipping levels where only one side is occupied; leaves with one address are combined in order. Host and guest compute the same root, for any addresses, and always terminate.",
  ["inputs"], "all address-ordered leaf lists up to a length, over addresses including both ends of the 64-bit range",
  KT, ["sdk/src/common/merkle.rs"], [("merkleize", "sdk/src/common/merkle.rs")],
  observe=["merkleize natively and in the guest"],
  tech="exhaustive enumeration of leaf lists on the real code, natively and in the guest, against the tree's recursive definition",
  note="All lists up to length 4 (6 thorough) over 14 addresses; the guest half by running guest code in the real VM.")
prop("K02", "Event commitments are canonical and guests can replay only what is committed",
  "Events emitted in any order are listed canonically by their numeric address (then by type and value), with hints that map emission order to canonical order, and the commitment is the state-tree root of the canonical list, so it depends on the set of events rather than their order. In the guest, emission succeeds exactly for the hinted sequence with every listed event used exactly once and the commitment matching; any other behaviour, hint, tape or commitment stops the guest before it halts.",
  ["histories", "inputs"], "all histories of events up to a depth and every single tampering with behaviour, hints, tape and commitment",
  KT, ["sdk/src/native/eventtape.rs", "sdk/src/mozakvm/eventtape.rs", "sdk/src/core/env.rs", "sdk/src/common/types"],
  [("OrderedEvents", "sdk/src/native"), ("EventTape::emit and ensure_clean_shutdown", "sdk/src/core/env.rs and sdk/src/mozakvm"), ("CanonicalEvent", "sdk/src/common/types")],
  observe=["hints and commitment natively", "whether the guest halts", "guest log"],
  tech="exhaustive enumeration of event histories and single tamperings; model traces replayed in guests on the real VM",
  note=KA + "Histories up to 4 events (5 thorough) natively, 3 (4) in the guest.")
prop("K03", "Cross-program calls are recorded in order and replayed faithfully",
  "Natively, every call is recorded once, in the order the calls begin, with its caller, callee, argument and return value, whatever the nesting. In the guest, a program's sends must match the recorded calls one by one, its receives deliver the next call addressed to it, calls between other programs are passed over, and a program that leaves one of its calls unaccounted for, or whose cast list commitment is wrong, never halts successfully.",
  ["histories"], "all nestings and sequences of calls up to a count, and every single change of a participant's behaviour or of the tape",
  KT, ["sdk/src/native/calltape.rs", "sdk/src/mozakvm/calltape.rs", "sdk/src/core/env.rs"],
  [("CallTape::send", "sdk/src/native/calltape.rs"), ("CallTape::{send, receive}, ensure_clean_shutdown", "sdk/src/mozakvm")],
  observe=["native call tape", "guest log and whether it halts"],
  tech="exhaustive enumeration of call forests and single deviations; each executed by guests on the real VM against a replay model",
  note=KA + "All forests of up to 3 calls (4 thorough) among three programs; a receive whose message type differs from the sent one is undefined and skipped.")
prop("K04", "Events, inputs and calls belong to the program on top of the identity stack",
  "During native execution the current identity follows a stack: taking, dropping, calling and returning push and pop it. Every event, input byte and call is attributed to the program on top at that moment, in order, and nothing can be recorded for the null program; no program's tapes receive anything from another.",
  ["histories"], "all histories of identity changes, nested calls, events and inputs up to a depth",
  KT, ["sdk/src/native/identity.rs", "sdk/src/native/inputtape.rs", "sdk/src/native/eventtape.rs", "sdk/src/common/system.rs"],
  [("IdentityStack", "sdk/src/native/identity.rs"), ("event_emit and write", "sdk/src/common/system.rs")],
  observe=["the native system tape"],
  tech="exhaustive enumeration of operation histories on the real native SDK against a stack model",
  note="Every history of up to 6 (7 thorough) operations of 11 kinds; the tape is read through the guarded hook verif_system_tape.")
prop("K05", "Guests read their input tapes as ordinary streams",
  "A guest's private and public inputs behave as byte streams of known length: reads deliver the next bytes and report how many, short at the end and none beyond it; seeking to any position relative to start, end or current place moves there or is refused, and reading continues from there. The two tapes do not influence each other, and bytes not delivered leave the buffer alone.",
  ["histories", "inputs"], "all histories of reads and seeks up to a depth, on both tapes",
  KT, ["sdk/src/mozakvm/inputtape.rs"], [("Read and Seek for the input tapes", "sdk/src/mozakvm/inputtape.rs")],
  [("remaining bytes and read cursor", "position on the tape", "sdk/src/mozakvm/inputtape.rs")], ["results and buffers as logged by the guest"],
  tech="exhaustive enumeration of read/seek histories executed by a guest on the real VM, against a stream model",
  note=KA + "All histories of up to 3 (4 thorough) operations over 19 kinds and several tape sizes.")
prop("K06", "The guest allocator never hands out overlapping or misplaced memory",
  "Every block the guest allocator returns is aligned as requested, lies inside the address space and above the program's own memory, and overlaps no other block; data stored in a block stays until it is freed. A request that does not fit is refused rather than wrapping around the address space.",
  ["histories"], "all sequences of allocation requests up to a length over sizes and alignments including the largest",
  KT, ["sdk/src/core/alloc.rs"], [("BumpAllocator", "sdk/src/core/alloc.rs")],
  [("next free address", "start of unallocated memory", "sdk/src/core/alloc.rs")], ["pointers as logged by the guest"],
  tech="exhaustive enumeration of request sequences executed by a guest on the real VM, checked for disjointness and alignment",
  note=KA + "All sequences of 2 (3 thorough) requests over 63 size/alignment pairs, plus growing collections.")
prop("K07", "Identifiers, hashes and system tapes survive encoding and decoding",
  "Converting hashes and program identifiers to words, bytes, text or JSON and back gives the same value, malformed text and lengths are refused, and a system tape written to disk and read back gives every program the same tapes.",
  ["inputs"], "every value of every byte, every text length to a bound, and all small system tapes",
  KT, ["sdk/src/common/types", "sdk/src/native/systemtape.rs"],
  [("Poseidon2Hash, ProgramIdentifier", "sdk/src/common/types"), ("dump_proving_files", "sdk/src/native")],
  observe=["round trips", "tapes derived for each program"],
  tech="exhaustive enumeration of bounded values and tapes through the real encoders and decoders",
  note=KM + "serde-hex is a stand-in.")
prop("K08", "Host and guest hash alike, as specified",
  "For every input, the padded and unpadded hash, the hash of two nodes and the canonical form and hash of an event are those of the specified sponge with the specified padding, and the same on the host and in the guest; lengths the unpadded hash does not admit are refused on both sides.",
  ["inputs"], "all input lengths to a bound with several contents; all event types, address bytes and data lengths around the block size",
  KT, ["sdk/src/native/poseidon.rs", "sdk/src/mozakvm/poseidon.rs", "sdk/src/common/types"],
  [("poseidon2_hash_{with_pad, no_pad}", "sdk/src/native/poseidon.rs and sdk/src/mozakvm/poseidon.rs"), ("CanonicalEvent::canonical_hash", "sdk/src/common/types")],
  observe=["hashes natively and in the guest's log"],
  tech="exhaustive enumeration of lengths and contents, natively and in the guest, against an independent sponge",
  note=KA + "Every length up to 130 (600 thorough); the permutation is a stand-in shared by host and VM.")
prop("K09", "What executes natively replays in the VM for every participant",
  "A transaction executed natively leaves a system tape from which each participating program, run in the VM with its own tapes and commitments, receives the calls addressed to it, reads its inputs, emits its events and halts; with another identity or a wrong commitment it is refused or receives nothing.",
  ["histories", "configurations"], "all transactions in a bounded space of calls, events and inputs; every participant, with right and wrong identity and commitments",
  KT, ["sdk/src/native", "sdk/src/mozakvm", "sdk/src/common", "runner/src/ecall.rs"],
  [("SystemTape", "sdk/src/common/system.rs"), ("ensure_clean_shutdown", "sdk/src/common/system.rs"), ("ecall_read", "runner/src/ecall.rs")],
  observe=["guest log and whether it halts"],
  tech="exhaustive enumeration of transactions, each executed natively and replayed for every participant in the real VM",
  note=KA + "The tapes handed to the VM are laid out by the harness as cli/src/runner.rs does (the CLI does not build offline).")
prop("K10", "A guest that panics never halts successfully, and one that does not does",
  "Whatever a guest does before, a panic, failed assertion, out-of-bounds access or abort ends its run with an error from the VM and nothing after it executes; a guest that returns from main halts after its shutdown checks, with the first byte it output (or zero) as exit code. This holds with and without the standard library.",
  ["histories"], "all sequences of harmless and panicking operations up to a length",
  KT, ["sdk/src/core/env.rs", "sdk/src/core/ecall.rs", "runner/src/ecall.rs", "runner/src/vm.rs"],
  [("finalize, panic handler", "sdk/src/core/env.rs"), ("ecall_panic, ecall_halt", "runner/src/ecall.rs"), ("unimp", "runner/src/decode.rs")],
  observe=["whether the VM run halts or is refused", "guest log"],
  tech="exhaustive enumeration of operation sequences executed by guests on the real VM",
  note=KA + "Sequences of up to 3 (4 thorough) operations of 23 kinds.")
