prop("C01", "The CLI gives each program its own inputs, events and commitments",
  "From a system tape the CLI makes, for every program, tapes that hold that program's own private and public input, the whole call tape, its own events in canonical order, its own identifier, the commitment to exactly those events and the commitment to the cast list (each callee once, in order), laid out as a guest reads them. A program without an entry has empty inputs and no events; nothing of another program's input or events shows. Damaged tapes are refused.",
  ["inputs", "histories"], "all sequences of up to 3 (4) calls among 3 programs and the null program, casts of up to 33, all sequences of up to 3 (4) events beside those of another program, all combinations of 7 inputs for two programs; each seen by 5 programs, and cut off at every byte",
  "The CLI's tests cannot be built here, and they build one bundle of two programs.",
  ["cli/src/runner.rs"], [("raw_tapes_from_system_tape, deserialize_system_tape, length_prefixed_bytes", "cli/src/runner.rs")],
  observe=["RawTapes returned"],
  tech="exhaustive enumeration of bounded system tapes; every tape of the real function is compared with a reference layout that K09 replays in real guests",
  note="27,000 (tape, program) pairs quick, 281,000 thorough. The command line program itself (clap derive, clio) cannot be built offline and is not covered.")
prop("C02", "A program's identity is that of its code and memory, and its proofs state it",
  "The identifier the CLI computes for a program is the one stated by every proof of a run of that program, whatever its inputs, whether proven table by table or as a batch. Programs that differ in an instruction, its address, a byte of initial memory, whether that byte may be written, or the entry point have different identifiers; a proof that states another identifier than its own is refused.",
  ["inputs"], "a base program and all programs that differ from it in one bit of an instruction word (3, thorough all 25 bits above the opcode), place or order of words, bit, place or kind of memory byte, or entry point; code and memory sizes on both sides of powers of two; compared pairwise; two proof configurations",
  "No test compares the identifier that the CLI computes with one of a proof.",
  ["cli/src/runner.rs", "cli/src/trace_utils.rs", "circuits/src/stark/prover.rs", "circuits/src/program/generation.rs", "circuits/src/memoryinit/generation.rs"],
  [("get_self_prog_id", "cli/src/runner.rs"), ("get_program_id", "circuits/src/stark/prover.rs"), ("tables of program code and memory", "circuits/src/{program,memoryinit}/generation.rs")],
  observe=["ProgramIdentifier computed", "program_id in proofs", "verifier's verdict"],
  tech="exhaustive enumeration of a bounded neighbourhood of programs: each is identified by the CLI, run, proven and verified by the real code, and identifiers are compared pairwise",
  note="158 (410) identities, 24,000 (84,000) pairs. plonky2 and starky are the stand-ins of /verif/shims, which keep commitments' collision freedom. Words that are no instruction are not part of a program's code.")
