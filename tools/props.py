#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json. Run after editing: python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note=None, na=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None),
        _note=note, _na=na, _tech=tech))

RT = "80 stable tests are decode unit tests with sampled fields; "
prop("R01", "Every 32-bit word decodes to exactly its RV32IM instruction",
  "For every 32-bit word and every address, decoding gives the operation, registers and (sign-extended, absolute for pc-relative forms) immediate that the RISC-V RV32IM encoding defines, and anything else is reported as an illegal instruction. Decoding never crashes, and hints and fences have no architectural effect.",
  ["inputs"], "all 2^32 instruction words; program counters including those where a pc-relative target wraps around",
  RT + "they sample encodings of known instructions, so they cannot show that the remaining words are rejected or decoded right.",
  ["runner/src/decode.rs", "runner/src/instruction.rs"], [("decode_instruction", "runner/src/decode.rs"), ("TypeX bitfields", "runner/src/decode.rs")],
  observe=["decode_instruction(pc, word)"],
  tech="exhaustive enumeration of all 2^32 words on the real decoder against an independent reference decoder",
  note="All 2^32 words at one pc (quick and thorough) and all pc-relative words at 14 pcs; judged by what the decoded instruction does when executed, so the internal representation is free. Trusts the reference decoder (refvm.rs).")
prop("R02", "Each RV32IM instruction has its architectural effect",
  "Executing one instruction changes the destination register, program counter and memory exactly as the RV32IM specification says, for all operand values including division by zero, signed overflow, shifts by 32 or more, self-aliased registers and addresses at the end of the address space. Register zero always reads zero, and nothing else changes.",
  ["inputs"], "every instruction, register-alias pattern, immediate and operand value",
  RT + "no stable test executes an instruction; the proptests in vm.rs sample operands and cannot be built here.",
  ["runner/src/vm.rs", "runner/src/state.rs"], [("per-instruction functions", "runner/src/vm.rs"), ("execute_instruction", "runner/src/vm.rs")],
  [("registers", "32 words, x0 = 0", "runner/src/state.rs"), ("memory", "byte map", "runner/src/state.rs")], ["State after one step"],
  tech="exhaustive lockstep of the real interpreter and a reference machine over an operand grid",
  note="Explicit-state lockstep on the real interpreter; operands from a grid of boundary values (216 values squared per operation and alias pattern), all immediates, all loaded byte and half-word values. Values off the grid are not covered.")
prop("R03", "Running a program follows the RV32IM machine step by step",
  "For every program, the sequence of states the interpreter passes through is the one the RV32IM machine passes through: same program counters, registers, memory, halting point and error. The official RISC-V conformance programs all pass.",
  ["programs", "histories"], "all programs up to a length over an alphabet of instructions, and the bundled conformance suite",
  RT + "sequences of instructions are never explored.",
  ["runner/src/vm.rs", "runner/src/state.rs", "runner/src/elf.rs"], [("step loop", "runner/src/vm.rs"), ("State update", "runner/src/state.rs")],
  observe=["every state of the execution record"],
  tech="bounded exhaustive enumeration of programs; every step compared with a reference machine; model traces replayed on the implementation",
  note="All instruction sequences up to length 4 (5 in the thorough tier) over a fixed alphabet, all control-flow skeletons up to length 5, and 40+ conformance ELFs, in lockstep.")
prop("R04", "Read-only memory never changes and memory regions are kept apart",
  "A store to a read-only address stops execution with an error and leaves memory unchanged; a store elsewhere changes exactly the addressed bytes, and a load returns the last value stored or the initial value, else zero. This holds for every layout of code, read-only data, read-write data and the system regions, at every alignment, including accesses that straddle a region's edge.",
  ["histories", "configurations"], "all memory layouts and access histories up to a depth",
  RT + "no stable test touches memory.",
  ["runner/src/state.rs"], [("StateMemory::store / read-only set", "runner/src/state.rs"), ("load_u8", "runner/src/state.rs")],
  observe=["State::load_u8/load_u32/store_u8", "interpreter result"],
  tech="exhaustive enumeration of memory layouts and load/store histories on the real memory",
  note="Every layout and history within the bounds on the real state, against a byte-map model.")
prop("R05", "Instruction fetch sees the loaded code only",
  "The instruction executed at an address is the one in the executable segment of the loaded program, whatever the program writes to memory; fetching from an address without code is an error rather than a crash or a silently executed instruction. Misaligned jump targets behave the same way.",
  ["programs", "histories"], "all jump targets and self-modifying store patterns in a bounded space",
  RT + "no stable test runs code.",
  ["runner/src/vm.rs", "runner/src/code.rs", "runner/src/state.rs"], [("Code", "runner/src/code.rs"), ("current instruction", "runner/src/state.rs")],
  observe=["interpreter result and record"],
  tech="exhaustive enumeration of store-then-jump programs in lockstep with a reference machine",
  note="All store/jump combinations in the bounded space on the real interpreter.")
prop("R06", "Input tapes are read in order, exactly once, and independently",
  "Each read system call delivers the next bytes of its own tape to the given address, advances only that tape, and delivers nothing beyond the tape's end; commitment tapes behave the same way. Re-running with the same tapes gives the same result.",
  ["histories", "inputs"], "all histories of tape reads, sizes and addresses up to a depth",
  RT + "no stable test performs a system call.",
  ["runner/src/ecall.rs", "runner/src/state.rs"], [("ecall_read", "runner/src/ecall.rs"), ("read_bytes per tape", "runner/src/state.rs")],
  [("tape read index", "next byte to deliver", "runner/src/state.rs")], ["memory, registers and tape positions after each call"],
  tech="exhaustive exploration of system-call histories in lockstep with a tape model",
  note="All histories of tape calls up to a depth, all boundary sizes and addresses, on the real interpreter.")
prop("R07", "System calls and halting behave as specified for any arguments",
  "Halt stops execution with the exit code given and nothing runs afterwards; unknown system call numbers, panics and messages are reported as specified, and no choice of arguments crashes the machine. A system call leaves all registers and memory it does not document unchanged.",
  ["inputs", "histories"], "all system call numbers and boundary arguments, and histories of them",
  RT + "no stable test performs a system call.",
  ["runner/src/ecall.rs", "runner/src/vm.rs", "sdk/src/core/ecall.rs"], [("ecall dispatch", "runner/src/ecall.rs"), ("halt", "runner/src/ecall.rs")],
  observe=["interpreter result", "State after call"],
  tech="exhaustive enumeration of system-call numbers, arguments and histories in lockstep with a reference machine",
  note="Call numbers 0..=255 and boundary words x boundary arguments, plus histories; real interpreter.")
prop("R08", "The execution record is an exact account of the execution",
  "The record handed to the prover contains one row per executed instruction, in order, with its operands, results, memory accesses and read data as they occurred, ends with the halting row, and its last state is the final state. Replaying the rows one at a time reproduces every following state.",
  ["programs", "histories"], "all executions of the bounded program space of R02/R03/R06",
  RT + "no stable test produces a record.",
  ["runner/src/vm.rs", "runner/src/state.rs"], [("step: rows", "runner/src/vm.rs"), ("Aux", "runner/src/state.rs")],
  observe=["ExecutionRecord"],
  tech="exhaustive enumeration of executions; every recorded row compared with the reference machine's step",
  note="Every row of every execution in the bounded space compared with the reference.")
prop("R09", "Loading an ELF yields exactly the image its loadable segments describe",
  "For every well-formed ELF the initial memory, code, entry point and access rights are those its loadable segments and symbols describe, with zero-fill beyond the file contents; every malformed one is rejected with an error and never crashes the loader.",
  ["inputs", "configurations"], "all small ELF layouts and all single-field corruptions of them",
  RT + "the ELF tests are not in the stable set, and sample three files.",
  ["runner/src/elf.rs"], [("Program::mozak_load_program", "runner/src/elf.rs"), ("extract_elf_data", "runner/src/elf.rs")],
  observe=["Program fields"],
  tech="exhaustive enumeration of ELF images and header corruptions on the real loader against a reference loader",
  note="All segment layouts in the bounded space and all single-field mutations with boundary values; the elf crate's parser is a shim (same API), so faults inside the third-party parser are out of scope.")
prop("R10", "The hash precompile computes the specified hash of guest memory",
  "The hash system call writes, at the output address, the hash of exactly the addressed input bytes under the system's padding and permutation, leaves everything else unchanged, and records the sponge inputs and outputs that produced it. The result depends only on the input bytes, not on their address or the output's.",
  ["inputs", "configurations"], "all input lengths to a bound, boundary addresses including overlap of input and output and wrap-around",
  RT + "no stable test calls it.",
  ["runner/src/poseidon2.rs"], [("ecall_poseidon2", "runner/src/poseidon2.rs"), ("hash_n_to_m_with_pad", "runner/src/poseidon2.rs")],
  observe=["memory after the call", "aux poseidon2 entry"],
  tech="exhaustive enumeration of lengths, contents and address overlaps against a reference sponge",
  note="Reference sponge over a stand-in permutation with the real plonky2 interface (plonky2 itself is not available offline); permutation internals out of scope.")

KT = "no stable test covers the SDK (its tests are not in the stable set); unit tests sample a handful of histories. "
KM = "Real SDK sources compiled natively; guest-side modules are compiled with stand-ins for the ecalls. "
exec(open(os.path.join(V, "tools/props_more.py")).read())
exec(open(os.path.join(V, "tools/props_circuits.py")).read())
exec(open(os.path.join(V, "tools/props_node.py")).read())
exec(open(os.path.join(V, "tools/props_cli.py")).read())
exec(open(os.path.join(V, "tools/props_ex.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
m = dict(version=1, setup_cmd="./check.sh --build",
  hooks=dict(guard="cfg(mozak_verif)", enable="rustflags --cfg mozak_verif, set in harness/.cargo/config.toml", source_commits=["1e92004", "917b563", "6a841d3"]),
  checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
      technique=p["_tech"], level="model_checking", level_note=p["_note"]) for p in P if not p["_na"]],
  not_applicable=[dict(property=p["id"], reason=p["_na"]) for p in P if p["_na"]],
  notes="See DESIGN.md. check.sh rebuilds from /repo's working tree.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    S = lambda n: json.load(open(f"/root/.vp/{n}.schema.json"))
    jsonschema.validate(m, S("MANIFEST"))
    for l in open(os.path.join(V, "properties.jsonl")): jsonschema.validate(json.loads(l), S("PROPERTIES"))
    print("schemas ok", len(P), "properties")
except ImportError: pass
