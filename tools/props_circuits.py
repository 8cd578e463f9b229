CT = "the circuits' tests are not in the stable set, need proofs that take seconds each, and sample a few programs. "
CN = "Real circuit sources over stand-ins for plonky2 and starky; the proof system is idealised as the relation of row constraints, lookups and public values it enforces. "
prop("S01", "Every halting execution can be proved",
  "For every program and input on which the VM halts, trace generation succeeds and produces tables that satisfy every row constraint, balance every lookup, have a power-of-two length, and expose the execution's public values (entry point, commitments). The constraints stay within the degree each table declares.",
  ["programs", "inputs", "histories"], "all programs in bounded families: each instruction on an operand grid, memory and system-call histories, control flow, and every trace length up to a bound",
  CT, ["circuits/src/cpu", "circuits/src/memory", "circuits/src/register", "circuits/src/rangecheck", "circuits/src/generation", "circuits/src/stark", "circuits/src/ops", "circuits/src/storage_device", "circuits/src/poseidon2_sponge", "circuits/src/cross_table_lookup.rs"],
  [("generate_traces", "circuits/src/generation/mod.rs"), ("per-table generation and constraints", "circuits/src/*/{generation,stark}.rs"), ("all_starks, all_cross_table_lookups", "circuits/src/stark/mozak_stark.rs")],
  observe=["tables produced by generate_traces", "value of every constraint on every row", "balance of every lookup"],
  tech="exhaustive enumeration of bounded programs run by the real VM; the real trace generation's tables checked against every real constraint and lookup",
  note=CN + "About 17,000 programs (105,000 thorough). Runs the circuits are known not to support are listed findings.")
prop("S02", "A proof cannot misstate what an instruction does",
  "No assignment to an instruction's row in the processor's tables that satisfies the constraints and lookups claims an effect (destination value, next program counter, memory access, system call) other than the one the instruction has on its operands. The prover's freedom to fill in helper columns never changes an outcome.",
  ["inputs", "configurations"], "all rows reachable from honest ones by changing a few cells or grafting parts of other honest rows, with every chain of repairs up to a length, for every instruction on an operand set",
  CT + "Tests only check that honest proofs are accepted; soundness is about the prover's other choices.",
  ["circuits/src/cpu", "circuits/src/ops", "circuits/src/cross_table_lookup.rs", "circuits/src/program", "circuits/src/cpu_skeleton"],
  [("CPU constraints", "circuits/src/cpu/*.rs"), ("Add, BltTaken", "circuits/src/ops"), ("rangecheck_looking and other lookups", "circuits/src/cpu/columns.rs")],
  observe=["effects that an accepted row claims in lookups"],
  tech="bounded exhaustive search over dishonest witnesses (states: cell assignments; transitions: single-cell repairs of a violated constraint or lookup) of constraints extracted from the real code",
  note=CN + "Constraints are extracted as polynomials and checked against the real evaluation. Tampers of every cell with boundary values, grafts between rows, then repairs to depth 6 (8 thorough), capped per tamper; witnesses further away are not covered. Range checks, xor and shift tables are taken as their relations; multi-row tables are the subject of other properties.")
prop("S03", "Every other table does the one thing it is there for",
  "However a prover fills in a table that satisfies its constraints, the lookups it takes part in say only what they should: a load returns what the last store to the address (or the initial memory) left, a register read what was last written, nothing is initialised twice or stored to read-only memory; multi-byte accesses are made of exactly their bytes; xors, powers of two, ranges and executed instructions are right; a system call stores exactly the requested bytes where asked; a hash request reads exactly its bytes, and stores the canonical digest of them; execution starts at the entry point, advances one cycle at a time and ends by halting.",
  ["inputs", "configurations", "histories"], "all tables reachable from honest ones by changing cells, copying, moving, swapping, inserting or deleting rows, shifting columns, or by deviating in one cell and recomputing what follows, with every chain of repairs up to a length",
  CT + "Tests only check that honest proofs are accepted; soundness is about the prover's other choices.",
  ["circuits/src/memory", "circuits/src/memory_halfword", "circuits/src/memory_fullword", "circuits/src/memoryinit", "circuits/src/memory_zeroinit", "circuits/src/register", "circuits/src/rangecheck", "circuits/src/rangecheck_u8", "circuits/src/xor", "circuits/src/bitshift", "circuits/src/storage_device", "circuits/src/poseidon2", "circuits/src/poseidon2_sponge", "circuits/src/poseidon2_output_bytes", "circuits/src/program_multiplicities", "circuits/src/cpu_skeleton", "circuits/src/stark/mozak_stark.rs"],
  [("constraints of each table", "circuits/src/*/stark.rs"), ("lookups of each table", "circuits/src/*/columns.rs"), ("cross table lookups", "circuits/src/stark/mozak_stark.rs")],
  observe=["what an accepted table puts on and takes from each lookup"],
  tech="bounded exhaustive search over dishonest tables (states: cell assignments of a whole table; transitions: repairs of a violated constraint or lookup) of constraints extracted from the real code, each accepted table judged against the table's contract",
  note=CN + "27 tables, 7 M states (180 M thorough). Contracts assume what the tables on the other side of a lookup guarantee (each is judged in turn). Tables have at most 256 rows; witnesses further from honest ones than the tampers and repairs reach are not covered. That the initial registers are the prover's choice is a listed finding.")
prop("S05", "Constraints, expressions and columns mean what they say in every evaluator",
  "An expression put together with the operators of the expression library has the value of the polynomial it writes down, in the base field, the extension field and the circuit, with or without the cache, however parts are shared; a constant that does not fit is refused, never changed. Constraints are combined in the order given, each applying to the rows of its kind, alike in the prover's and the circuit's evaluation. Linear combinations of columns have the value written, on rows, on tables, in both fields and in the circuit.",
  ["inputs", "histories"], "all sequences of operations up to a length over literals, constants and plain numbers, including shared subexpressions and extreme constants",
  CT + "A wrong operator in one evaluator only shows with the expressions that use it, and only to a verifier that uses that evaluator.",
  ["expr", "circuits/src/expr.rs", "circuits/src/linear_combination.rs", "circuits/src/linear_combination_typed.rs", "circuits/src/columns_view.rs"],
  [("Expr, evaluators, Cached", "expr/src/lib.rs"), ("operators", "expr/src/ops.rs"), ("build_ext, build_packed", "circuits/src/expr.rs"), ("ColumnWithTypedInput", "circuits/src/linear_combination_typed.rs"), ("ColumnSparse, eval, eval_table, eval_circuit", "circuits/src/linear_combination.rs")],
  observe=["values of expressions, constraint accumulators and columns"],
  tech="exhaustive enumeration of operation sequences on the real expression and column types, evaluated by every real evaluator and compared with a reference",
  note=CN + "470,000 sequences (9.7 M thorough), at 2 to 4 points each.")
prop("S06", "The verifiers accept exactly the proofs of satisfying tables",
  "A proof made from tables by the prover is accepted by the verifier if, and only if, the tables satisfy every constraint and lookup and have the claimed public values; the single, batched and both recursive verifiers agree. A proof whose opened values, commitments, claimed entry point, program identity or public values are changed, moved, dropped, added or chosen after the challenges is rejected. Program identities differ whenever programs do. The recursive proof exposes exactly the claims of the proof it verifies.",
  ["inputs", "configurations"], "all single-cell changes of a proof's tables, all changes to the intermediate polynomials of the lookups and quotients, all forgeries of each claim and opening of a proof, and all small program variations",
  CT + "Tests only check that honest proofs are accepted, by one verifier each.",
  ["circuits/src/stark", "circuits/src/cross_table_lookup.rs", "circuits/src/public_sub_table.rs", "circuits/src/program", "circuits/src/generation"],
  [("prove, verify_proof", "circuits/src/stark/{prover,verifier,proof,poly}.rs"), ("batch_prove, batch_verify_proof", "circuits/src/stark/batch_{prover,verifier}.rs"), ("recursive verifiers", "circuits/src/stark/recursive_verifier.rs"), ("lookup and public sub table sums", "circuits/src/{cross_table_lookup,public_sub_table}.rs")],
  observe=["verdict of each verifier", "public inputs of the recursive proof", "program identity"],
  tech="exhaustive enumeration of single deviations of tables, committed polynomials, and proofs; the real provers, verifiers and recursive circuits run on each and are compared with the relation's verdict",
  note=CN + "FRI and the hash are idealised: a commitment binds, an opening is the committed polynomial's value, challenges are hashes of what was observed; the circuits are evaluated, not proved. Two programs (one using every table). 8,000 proofs.")
