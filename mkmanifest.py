#!/usr/bin/env python3
# Writes MANIFEST.json (run by hand after editing).
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
import check
TB = ("Trusted: rustc's MIR and the MIR exporter, the abstract interpreter and its models of std and of the poulpy primitives' "
      "plaintext semantics. ")
T = {
 "P01": ("abstract interpretation of MIR in a canonical Boolean-function domain, compared with an RV32IM reference", "All 2^32 words, every mnemonic; " + TB),
 "P02": ("abstract interpretation of MIR: the set of accepted words as one Boolean function", "All 2^32 words; " + TB),
 "P03": ("abstract interpretation of MIR in a canonical Boolean-function domain, compared with an RV32I reference", "All operand values; " + TB),
 "P04": ("abstract interpretation of MIR; products and quotients as canonical terms", "All operand values; wide products and quotients are compared as canonical uninterpreted terms. " + TB),
 "P05": ("abstract interpretation of MIR on a symbolic machine state, compared with an RV32IM reference", "All words, registers, pc, memory contents for two region sizes, in-range aligned accesses; " + TB),
 "P06": ("abstract interpretation of MIR over the plaintext meaning of ciphertexts, in a canonical Boolean-function domain, generated circuit tables included", "All operand values, every register operation; " + TB),
 "P07": ("abstract interpretation of MIR and of the generated circuit tables over the plaintext meaning of ciphertexts", "All operand values, every operation; " + TB),
 "P08": ("abstract interpretation of MIR and of the generated circuit tables over the plaintext meaning of ciphertexts", "All operand values; " + TB),
 "P09": ("abstract interpretation of MIR over the plaintext meaning of ciphertexts", "All words and aligned addresses, two hash-map orders; " + TB),
 "P10": ("abstract interpretation of MIR over the plaintext meaning of ciphertexts", "All words and aligned addresses; eight known findings (byte offset ignored). " + TB),
 "P11": ("abstract interpretation of MIR of the whole cycle over the plaintext meaning of ciphertexts; arithmetic as canonical linear terms", "Every instruction, all register, memory and pc values for the listed small region sizes; the code uses the sizes only through counts and logarithms. " + TB),
 "P12": ("abstract interpretation of MIR of the whole cycle; x0 invariant shown inductive", "Any register contents other than x0; " + TB),
 "P14": ("typestate analysis by abstract interpretation of MIR: every open/close sequence on the stateful memory", "All method pairs and the cycle; " + TB),
 "P15": ("abstract interpretation of MIR with thread counts as parameters and effect tracking of spawned closures", "The listed thread counts below, at, above and not dividing the element counts; interleavings are covered by disjointness of the mutable borrows (Rust ownership). " + TB),
 "P16": ("taint (secret-key use) and control-dependence analysis over MIR", "Whole cycle, non-debug; " + TB),
 "P30": ("abstract interpretation of MIR of parameter construction, key allocation and machine construction; relations between the layout values at every allocation site", "Every allocation of the machine for the listed sizes and environments; noise itself is not bounded (P27). " + TB),
 "P31": ("abstract interpretation of MIR of the build function: command line and paths as known strings, outcomes of starting, finishing and reading unknown", "All outcomes; listed program and destination names; cargo's command line and output layout are trusted. " + TB),
 "P29": ("freshness (lineage) dataflow by abstract interpretation of MIR of the whole cycle: bootstrapped results are unknowns of their own, everything else propagates its operands", "One cycle from any state, the first cycle, several thread counts; which poulpy operations bootstrap is trusted. " + TB),
 "P20": ("abstract interpretation of MIR of the debug cycle with mirror and machine states related symbolically", "Every instruction, mirror equal to machine at the start, plus single deviations; " + TB),
 "P26": ("abstract interpretation of MIR of program loading and of the fetch", "All field values at every instruction position of the listed program sizes; " + TB),
 "P17": ("abstract interpretation of MIR of the loader over symbolic file bytes and segment tables", "All file bytes; segment tables of the listed shapes (empty, overlapping, .bss, out of range, several); the ELF parser crate is trusted. " + TB),
 "P18": ("abstract interpretation of MIR of tape insertion and extraction over symbolic bytes, on both machines", "All byte values; listed buffer positions, lengths and alignments. " + TB),
 "P22": ("abstract interpretation of MIR of key generation and preparation with provenance tracking of every key object", "Every key index the evaluator asks for, collected from the evaluator's own code; " + TB),
 "P23": ("provenance (taint) dataflow over MIR: every seed and randomness stream traced to its source", "Both modes; the operating system's entropy device is trusted. " + TB),
 "P24": ("abstract interpretation of MIR of the execution loops with counted steps, plus loop structure", "Listed counts including zero, and composition; " + TB),
 "P19": ("constant propagation across components: the linker script parsed, compared with the constants abstract interpretation of MIR derives from loader, machines, circuit, mirror and start-up code", "All components; the linker is trusted to honour its script. " + TB),
 "P21": ("abstract interpretation of the guest runtime's MIR for riscv32i with an inductive invariant on the break", "All sizes, addresses and stack pointers, alignments 2^0..2^31, any earlier history through the invariant; " + TB),
 "P13": ("abstract interpretation of MIR over the plaintext meaning of ciphertexts, compared with an array model", "All contents, words and addresses for the listed ring degrees and capacities; the code uses the degree only through n and log n. " + TB),
 "P25": ("dataflow over the generated decision-diagram tables", "Every node of every table; " + TB),
}
NA = {
 "P27": "noise growth is a probabilistic bound on real-valued quantities produced by the poulpy arithmetic at run time; no sound static argument in reach bounds it",
 "P28": "lattice security estimates are a cryptanalytic judgement, not a fact of the source",
}
checks = []
for pid in sorted(check.TABLE):
    tech, note = T[pid]
    checks.append(dict(property=pid, quick_cmd="python3 sa/check.py %s" % pid, thorough_cmd="python3 sa/check.py %s --tier thorough" % pid,
                       technique="static analysis: " + tech, level=check.TABLE[pid][2], level_note=note))
na = []
for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in check.TABLE:
        na.append(dict(property=p, reason=NA.get(p, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3 sa/dump.py", checks=checks, not_applicable=na), open("MANIFEST.json", "w"), indent=1)
