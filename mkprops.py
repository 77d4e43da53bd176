#!/usr/bin/env python3
# Writes properties.jsonl (run by hand after editing the table below).
import json
P = []
def p(id, title, statement, over, text, why, files, mechanism):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=mechanism)))

p("P01", "Instruction decoding is exact for every RV32IM word",
  "For every 32-bit word that encodes a supported RV32I instruction (or an RV32M one), the decoder of the encrypted machine yields the destination, source registers, sign-extended immediate and the triple of update operations (register, memory, program counter) that the RISC-V encoding defines for that word; a register field that the format does not have is reported as x0. No valid word is mistaken for another instruction and none makes the decoder panic.",
  ["inputs"], "all 2^32 instruction words that are valid RV32I/RV32M encodings",
  "unit tests decode one bit pattern per mnemonic; 2^32 words cannot be sampled",
  ["fhevm/src/instructions/mod.rs", "fhevm/src/instructions/i_type.rs", "fhevm/src/instructions/b_type.rs", "fhevm/src/instructions/j_type.rs", "fhevm/src/instructions/s_type.rs", "fhevm/src/instructions/u_type.rs"],
  "Instruction::get_type/get_imm/get_registers/get_opid and the per-format immediate extractors")
p("P02", "Words outside the supported instruction set are rejected at load",
  "A program word that the encrypted machine cannot execute (an opcode, funct3 or funct7 combination that is not a supported instruction, or a multiply/divide word, which only the cleartext machine executes) is rejected with a panic when the program is loaded. It is never silently loaded as a different instruction. (Words with the SYSTEM opcode are accepted and do nothing but advance pc.)",
  ["inputs"], "all 32-bit words that are not supported encodings",
  "there are 2^32 words; tests contain no negative case",
  ["fhevm/src/instructions/mod.rs", "fhevm/src/interpreter.rs"],
  "Instruction::get_type, Instruction::get_opid, Interpreter::instructions_encrypt_sk")
p("P03", "Plaintext evaluators implement the RV32I semantics",
  "For all operand values, the plaintext evaluators of register-update, memory-update and program-counter-update operations return exactly what the RV32I specification prescribes for the corresponding instruction (32-bit wrap-around arithmetic, shift amounts modulo 32, signed and unsigned comparisons, link values, branch targets, merged store words).",
  ["inputs"], "all 32-bit values of rs1, rs2, imm, pc, loaded word and address",
  "the existing tests draw a few random operands; corner operands (sign boundaries, wrap-around) are not sampled",
  ["fhevm/src/instructions/mod.rs"], "RD_UPDATE::eval_plain, RAM_UPDATE::eval_plain, PC_UPDATE::eval_plain")
p("P04", "Multiply and divide operations implement the RV32M semantics",
  "For all operand values, the plaintext evaluators of the multiply, divide and remainder operations return the RV32M result, including the prescribed results for a zero divisor (quotient all ones, remainder equal to the dividend) and for signed overflow; they never panic.",
  ["inputs"], "all 2^64 operand pairs for each of the eight operations",
  "division by zero and the signed overflow pair are two points among 2^64",
  ["fhevm/src/instructions/mod.rs"], "RD_UPDATE::eval_plain, operations MUL..REMU")
p("P05", "The cleartext reference VM steps exactly as RV32IM prescribes",
  "From any state, one step of the cleartext test machine fetches the word at pc, and updates exactly the destination register, the addressed memory bytes and pc as the RISC-V specification prescribes for that word; register x0 reads as zero and is never changed, and everything else is left as it was.",
  ["inputs", "histories"], "all register files, memory contents, program counters and valid instruction words",
  "the cleartext machine has no tests at all",
  ["compiler/src/interpreter/testvm.rs"], "TestVM::run, decode_inst, load/store helpers")
p("P06", "Encrypted register-update operations compute the RV32I result",
  "For all plaintext operand values, each encrypted register-update operation other than the loads produces an encryption of the result that RV32I prescribes for it, and all operations write to the slot that their selector identifies.",
  ["inputs"], "all 32-bit rs1, rs2, imm, pc; all non-load register-update operations",
  "each homomorphic evaluation takes seconds, so tests sample one operand tuple per operation",
  ["fhevm/src/rd_update.rs", "fhevm/src/codegen/codegen_auipc.rs", "fhevm/src/codegen/codegen_jalr.rs", "fhevm/src/codegen/codegen_lui.rs"],
  "RD_UPDATE::eval_enc dispatch and the generated decision-diagram tables")
p("P07", "Encrypted program-counter update is exact for all operands",
  "For every program-counter operation and all plaintext values of rs1, rs2, pc and the 20-bit immediate, the encrypted next-pc circuit produces the next pc that RV32I prescribes: pc+4, the jump target, or the branch target exactly when the branch condition holds.",
  ["inputs"], "all operation selectors in use, all 32-bit rs1, rs2, pc and all 20-bit immediates",
  "the circuit has 120 input bits; tests draw random inputs, which almost never hit equality of rs1 and rs2 or borrow chains",
  ["fhevm/src/pc_update.rs", "fhevm/src/codegen/codegen_pc_update.rs"], "update_pc, its bit-offset helper and the generated circuit table")
p("P08", "Encrypted memory-address derivation is exact for all operands",
  "For all plaintext values of the base register and immediate, the encrypted address circuit yields the byte offset of base plus immediate relative to the start of guest RAM, in every bit that is used to address RAM.",
  ["inputs"], "all 32-bit base registers and all immediates",
  "64 input bits; tests draw random pairs",
  ["fhevm/src/ram_offset.rs", "fhevm/src/codegen/codegen_ram_offset.rs"], "ram_offset, its bit-offset helper and the generated circuit table")
p("P09", "Encrypted stores merge exactly the addressed bytes",
  "For all plaintext values of the stored register, the old memory word and a naturally aligned address, the encrypted store operations produce the old word with exactly the addressed byte, half-word or word replaced by the low part of the register; when no store is executed the word is unchanged.",
  ["inputs"], "all register values, old words and aligned byte offsets",
  "tests run one operand tuple per store and offset",
  ["fhevm/src/ram_update.rs"], "RAM_UPDATE::eval_enc")
p("P10", "Encrypted loads return the addressed bytes with the right extension",
  "For all memory words and naturally aligned addresses, the encrypted load operations return the addressed byte, half-word or word, sign- or zero-extended as RV32I prescribes.",
  ["inputs"], "all memory words and aligned byte offsets, five load operations",
  "tests run one operand tuple per load with offset zero",
  ["fhevm/src/rd_update.rs"], "RD_UPDATE::eval_enc for LB, LBU, LH, LHU, LW")
p("P11", "One encrypted cycle performs exactly one machine step",
  "For every instruction and every plaintext machine state, one encrypted cycle fetches the instruction at pc, reads the registers it names, reads memory at the derived address, writes the selected result to the destination register, writes the selected word back to the same memory address, and advances pc, all from the values held at the start of the cycle. The final encrypted state is the one the plaintext operations prescribe, with no other register or memory word changed.",
  ["inputs", "histories"], "all instructions and machine states; any number of successive cycles",
  "one cycle takes minutes of homomorphic evaluation, the only end-to-end test is not run reliably, and it follows a single straight-line program",
  ["fhevm/src/interpreter.rs", "fhevm/src/prepare.rs"], "Interpreter::cycle_internal and its phases, prepare_multiple_fheuint")
p("P12", "Register x0 is zero in every encrypted state",
  "After initialisation and after any sequence of encrypted cycles, the register file holds an encryption of zero in x0, whatever the executed instructions write to it.",
  ["inputs", "histories"], "all instruction sequences",
  "tests never target x0 as destination in a cycle",
  ["fhevm/src/interpreter.rs", "fhevm/src/memory.rs"], "Interpreter::update_registers, init_registers, Memory::zero")
p("P13", "Encrypted memory reads and writes address exactly one word",
  "For every capacity, content and in-range address, reading the encrypted memory returns the word stored at that address without changing any other word, and writing (or clearing) an address replaces that word and no other. Encrypting contents and decrypting them returns the contents.",
  ["inputs", "histories"], "all capacities (including those above one polynomial and not a multiple of it), contents, addresses and operation sequences",
  "tests use one capacity and a few addresses; a wrong index only shows for addresses in a later polynomial or chunk",
  ["fhevm/src/memory.rs"], "Memory and BitArray: encrypt_sk, decrypt, read_stateless, read_statefull, read_statefull_rev, write, zero")
p("P14", "Stateful memory access is opened and closed in strict alternation",
  "The encrypted RAM is always closed by exactly one write-back, at the same address, after each open by a stateful read and before any other use. No operation that requires the closed state runs while it is open, and the guards that enforce this stay in place.",
  ["histories"], "all sequences of public memory operations and all cycles",
  "tests call the operations in the right order only",
  ["fhevm/src/memory.rs", "fhevm/src/interpreter.rs"], "BitArray state flag, read_statefull/read_statefull_rev pairing in the cycle")
p("P15", "Results do not depend on the number of threads",
  "For every positive thread count, every multi-threaded operation (memory access, clearing, preparation, instruction evaluation, the cycle) yields the same plaintext result as the single-threaded run; every element is processed exactly once whether or not the count divides the number of elements or exceeds it.",
  ["schedules", "inputs"], "all thread counts and work sizes",
  "tests fix one thread count; a dropped or duplicated chunk shows only for particular counts and sizes",
  ["fhevm/src/memory.rs", "fhevm/src/prepare.rs", "fhevm/src/interpreter.rs"], "chunked thread scopes and scratch splitting")
p("P16", "Encrypted execution is blind: no secret key and no data-dependent control",
  "In non-debug operation, executing encrypted cycles never decrypts, never uses secret-key material and never branches, indexes or changes the schedule on values derived from ciphertext contents.",
  ["inputs", "histories"], "all call paths from the non-debug execution entry points",
  "absence of an information flow cannot be observed by running tests",
  ["fhevm/src/interpreter.rs", "fhevm/src/memory.rs", "fhevm/src/prepare.rs", "fhevm/src/rd_update.rs", "fhevm/src/ram_update.rs", "fhevm/src/pc_update.rs", "compiler/src/interpreter.rs"],
  "call graph from the non-debug cycle entry point to decryption primitives and secret-key parameters")
p("P17", "The program image is loaded byte for byte",
  "For every program file, each byte of each loadable segment appears at its virtual address in the instruction memory or in RAM, zero-initialised parts of segments are zero, and nothing else is non-zero; a segment that fits neither region is rejected rather than dropped or truncated.",
  ["inputs"], "all segment layouts and contents",
  "the loader has no tests; a layout with partly initialised data is not exercised",
  ["compiler/src/interpreter.rs"], "Phantom::from_elf, boot-ROM and RAM images")
p("P18", "Input and output tapes map to exactly the guest's buffers",
  "The bytes handed in as input are placed in order at the guest's input buffer and nowhere else, the output read back is exactly the bytes of the guest's output buffer in order, and an input of the wrong length is rejected; this holds for the cleartext and the encrypted machine alike.",
  ["inputs"], "all buffer positions, alignments and lengths, all contents",
  "tape handling has no tests; unaligned or odd-length buffers only show at particular layouts",
  ["compiler/src/interpreter.rs", "compiler/src/interpreter/testvm.rs"], "InputInfo/OutputInfo handling, encrypted_vm, output_tape, TestVM::read_input_tape/output_tape")
p("P19", "All components agree on the guest memory map",
  "The linker script, the loader, the cleartext machine, the encrypted machine, the debug mirror and the address circuit agree on where instruction memory and RAM start, how large RAM is, where execution starts and that the stack lies inside RAM, and guest programs are compiled for the base instruction set the machines execute.",
  ["configurations"], "all constants and all components that use them",
  "each component works with its own copy of the constants and no test runs two of them together",
  ["compiler/linker-script/default.x", "compiler/src/interpreter.rs", "compiler/src/interpreter/testvm.rs", "fhevm/src/debug.rs", "fhevm/src/codegen/codegen_ram_offset.rs", "runtime/src/lib.rs", "compiler/src/lib.rs"], "ORIGIN/LENGTH, RAM offsets and sizes")
p("P20", "Debug execution mirrors the machine and stops on the first deviation",
  "In debug operation the plaintext mirror starts from the same program and memory, performs the same step as the machine in every cycle, and every decrypted intermediate value is compared with the mirror's value so that any deviation stops the run; debug checking never alters the encrypted state.",
  ["inputs", "histories"], "all programs and cycles run in debug mode",
  "the mirror has no tests of its own; a missing comparison is invisible as long as nothing deviates",
  ["fhevm/src/debug.rs", "fhevm/src/interpreter.rs"], "InterpreterDebug methods and the comparisons in the debug path of the cycle")
p("P21", "The guest allocator hands out aligned, disjoint, in-bounds blocks",
  "For every sequence of allocation requests with power-of-two alignments, each block the guest's allocator returns is aligned as requested, lies above the program's static data and below the stack, and overlaps no block still in use; when the heap is exhausted it does not return a block outside that region.",
  ["inputs", "histories"], "all request sequences",
  "the guest runtime is not part of the tested workspace",
  ["runtime/src/alloc.rs", "runtime/src/lib.rs"], "bump allocator: alloc, cursor update and bounds test")
p("P22", "Evaluation keys are complete and belong to one secret key",
  "Key generation produces every key the evaluator asks for (all automorphism indices used by reading, writing and clearing, and the bootstrapping and key-switching keys), each under the same secret key, and prepared keys are taken from the generated ones without omission.",
  ["configurations"], "all Galois elements and key kinds used by any evaluator operation",
  "a missing or mismatched key only shows as noise in particular operations",
  ["fhevm/src/keys.rs", "fhevm/src/parameters.rs", "compiler/src/interpreter.rs"], "VMKeys::encrypt_sk, VMKeysPrepared::alloc/prepare")
p("P23", "Secret keys and encryption randomness come from fresh entropy",
  "Each run derives its secret keys, masks and noise from independent fresh entropy; no two of these streams share a seed and no seed is a constant of the program.",
  ["inputs", "histories"], "all runs and all randomness streams of the encrypted machine's set-up",
  "a constant seed produces perfectly correct results, so no functional test can see it",
  ["compiler/src/interpreter.rs"], "Phantom::encrypted_vm: Source::new arguments and their use")
p("P24", "Execution runs exactly the requested number of cycles",
  "A request to run n cycles executes exactly n machine steps on the cleartext and on the encrypted machine, in order, for every n including zero, and running m then n cycles equals running m+n cycles.",
  ["inputs", "histories"], "all cycle counts and splits into successive calls",
  "off-by-one or state reset at a call boundary is not covered: the execution drivers have no tests",
  ["compiler/src/interpreter.rs", "compiler/src/interpreter/testvm.rs", "fhevm/src/interpreter.rs"], "EncryptedVM::execute, TestVM::execute, cycle counter and pc preparation on the first cycle")
p("P25", "Generated circuit tables are well formed",
  "Every generated decision-diagram table refers only to existing inputs and to nodes of the previous level that hold a value, has levels of the declared width, ends in a value node, and reports each output bit's own table.",
  ["inputs"], "all nodes of all tables and all output bits",
  "a dangling reference reads a stale or uninitialised value that may coincide with the right one on sampled inputs",
  ["fhevm/src/codegen"], "OUTPUT_CIRCUITS tables, AnyBitCircuit::info, family accessors")
p("P26", "Encrypted program components hold the decoded fields of every instruction",
  "Loading a program stores, for every instruction position, the decoded register indices, immediate and the three operation selectors in seven encrypted memories, and a fetch at that position delivers each of them to its own consumer with all its significant bits.",
  ["inputs"], "all programs, positions and decoded field values",
  "the tests compare a few positions of one program; a truncated bit count shows only for fields that use the high bits",
  ["fhevm/src/interpreter.rs"], "instructions_encrypt_sk, read_and_prepare_instruction_components, bit counts handed to preparation")
p("P27", "Ciphertext noise stays within the decryption margin",
  "For every program and any number of cycles, the noise of every register, memory word and program counter stays below the decryption threshold with overwhelming probability.",
  ["inputs", "histories"], "all programs, cycle counts and random coins",
  "tests observe the noise of a few ciphertexts in one run",
  ["fhevm/src/parameters.rs", "fhevm/src/interpreter.rs"], "parameter choice and the refresh of registers, RAM words and pc in every cycle")
p("P28", "Parameters reach the claimed security level",
  "The lattice parameters in use give at least the security level that the documentation claims.",
  ["configurations"], "the fixed parameter set, against all known attacks",
  "security is not observable by running the code",
  ["fhevm/src/parameters.rs"], "CryptographicParameters constants")
p("P29", "Every value a cycle stores is refreshed within that cycle",
  "In every cycle, a value stored into a register, into RAM or into the program counter stems from a bootstrapping performed in that cycle: no ciphertext is carried from one storage place to another without being refreshed in between, so the noise of stored values does not grow along chains of loads, moves and stores.",
  ["inputs", "histories"], "all programs, states and chains of dependent instructions of any length",
  "a skipped refresh decrypts correctly for thousands of cycles; the tests run a few",
  ["fhevm/src/interpreter.rs"], "refresh steps (prepare_custom_multi_thread followed by identity_multi_thread) in update_registers and update_ram; update_pc")
p("P30", "Ciphertext, key and secret layouts of a machine fit together",
  "In every encrypted machine the ciphertexts, prepared words, evaluation keys and secret keys are allocated with layouts that can be combined: one ring degree and rank throughout, bootstrapping keys for exactly the dimension of the LWE secret (which its block size divides), key-switching steps whose ranks chain, gadget decompositions that cover the precision of the ciphertexts they are applied to and leave room below it, and every prepared key with the layout of the generated key it is prepared from.",
  ["configurations"], "all program and memory sizes and environment settings, every allocation",
  "a layout mismatch mostly costs precision silently and decrypts correctly in short runs",
  ["fhevm/src/parameters.rs", "fhevm/src/keys.rs", "fhevm/src/interpreter.rs", "compiler/src/interpreter.rs"], "CryptographicParameters layouts handed to alloc_from_infos")
p("P31", "A guest build returns the bytes of exactly that program, or stops",
  "Whatever was built before and however the compilation ends, building a guest returns only the file that this very compilation produced for the requested program: a compilation that fails or cannot be started stops the build instead of returning an older file, the program is compiled for the base instruction set with the repository's linker script and aborting panics, and builds with different destination names do not write to the same place.",
  ["inputs", "histories", "fault_sequences"], "all outcomes of the compiler, earlier builds and program names",
  "the tests build in a clean directory and the compilation succeeds",
  ["compiler/src/lib.rs"], "CompileOpts::build: command line, status test and the path read")
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
