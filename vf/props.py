"""What each check runs and what it assumes."""

KANI_TB = ["the mock intrinsic machine of harness/src/mock.rs stands for the evaluator's argument/return ABI",
           "Rust's core/alloc semantics as modelled by Kani"]
FMT = "alloc::fmt::format is stubbed: the wording of error messages is outside the contract"

VERUS = "contracts woven into the extracted functions, discharged by Verus/Z3; failures searched for an input on the compiled code"
WEAVE_TB = ["the extraction of vf/weave.py: comments, attributes and debug_assert! dropped, constants folded, the rewritings listed in the evidence"]

PROPS = {
    "P01": {
        "level": "proof",
        "note": 'Kani discharges the contract for all operand pairs over the compiled crate; multiplication and power primitives of core are replaced by oracles (exact or None). Dispatch from the prelude operators is trusted.',
        "functions": ["eval::stg::arith::{Add,Sub,Mul,Pow}::execute", "checked_int_pow", "num_arg", "machine_return_num"],
        "trusted": KANI_TB + ["core's checked_mul/checked_pow are exact or None (stubbed by contract)"],
        "assumptions": [FMT, "dispatch from source operators to these intrinsics is outside the contract"],
    },
    "P02": {
        "level": "proof",
        "note": 'As P01, division primitives of core replaced by oracles tied by a = b*q + r. Float quotients only for a zero divisor.',
        "functions": ["eval::stg::arith::{Div,Mod,Quot,Rem,PreciseDiv}::execute", "floor_div_i64", "floor_mod_i64", "is_zero"],
        "trusted": KANI_TB + ["core's checked_div/checked_rem are exact truncated division or None (stubbed by contract)"],
        "assumptions": [FMT, "quotients of two floats are outside the contract except for a zero divisor"],
    },
    "P03": {
        "level": "proof",
        "note": 'Kani discharges the contract for every operand, bit-precisely, loops fully unrolled with unwinding assertions.',
        "functions": ["eval::stg::arith::{BitAnd,BitOr,BitXor,BitNot,Shl,Shr,PopCount,Ctz,Clz}::execute", "require_i64"],
        "trusted": KANI_TB,
        "assumptions": [FMT],
    },
    "P04": {
        "level": "proof",
        "note": 'Kani discharges the contract for every pair in the stated domain, bit-precisely including floats.',
        "functions": ["eval::stg::arith::{Gt,Gte,Lt,Lte}::execute", "num_ord", "eval::stg::eq::Eq::execute", "num_eq"],
        "trusted": KANI_TB,
        "assumptions": [FMT, "a float against an integer of magnitude above 2^53 is outside the contract"],
    },
    "P05": {
        "level": "proof", "technique": VERUS,
        "kani": False,
        "slice": {"files": ["eval/memory/block", "eval/memory/bump", "eval/memory/header", "eval/memory/lob", "eval/memory/gc_debug"], "deps": ["bitmaps"]},
        "verus": [{"unit": "bump", "contracts": ["holes", "allocations", "marks", "largest", "large"], "alarm_without_input": True}],
        "search": (10**9, 4),
        "note": 'Verus verifies the woven bodies against loop invariants, unbounded. The bitmap crate, raw pointers (as addresses) and Option::filter are assumed by contract.',
        "functions": [],
        "trusted": ["bitmaps::Bitmap as a map from index to bool", "pointers modelled by their address; Block::byte_offset_of, as_ptr and fill by contract",
                    "Option::filter, usize::div_ceil by specification"] + WEAVE_TB,
        "assumptions": ["callers pass regions that lie inside the block (debug_assert in mark_region)", "the heap's choice of block (HeapState) is outside the contract"],
    },
    "P06": {
        "level": "proof", "technique": VERUS, "kani": False, "search": (20000, 3),
        "slice": {"files": ["core/demand"], "deps": ["serde"]},
        "verus": [{"unit": "demand", "contracts": ["alternatives", "in_sequence", "through_another", "skip"], "alarm_without_input": True}],
        "note": "Verus relates every operation to the set of evaluation counts a demand describes, for all demands and all numbers of uses. How the analysis walks an expression is outside the contract.",
        "functions": [], "trusted": WEAVE_TB,
        "assumptions": ["the traversal in core/analyse_demand.rs combines demands with these operations where it should"],
        "bounded": ["Demand's named starting points (evaluated, not proved)"],
    },
    "P07": {
        "level": "proof", "technique": VERUS, "kani": False, "native": True, "search": (10**9, 12),
        "verus": [{"unit": "gcscan", "contracts": ["graph"], "alarm_without_input": True},
                  {"unit": "gccollect", "contracts": ["graph"], "alarm_without_input": True}],
        "note": "Verus verifies every scan and pointer update against the set of pointers the type holds, and the collector's loops against the closure of the marks; heap, blocks and dynamic dispatch by contract.",
        "functions": [], "trusted": [
            "Heap's header and line operations by contract (line marks themselves: P05)",
            "a trait object's scan/scan_and_update is the one verified for its type",
            "the byte copy of evacuate copies bytes; a transmuted trait object is the object it was taken from"] + WEAVE_TB,
        "assumptions": ["every pointer in the heap leads to an object allocated in it", "frames sharing storage see all of it",
                        "the loops end (the marked set grows)", "the collector's debugging switches change nothing"],
    },
    "P08": {
        "level": "proof", "technique": VERUS, "kani": False, "native": True, "search": (10**9, 8),
        "verus": [{"unit": "frames", "contracts": ["frames", "arrays", "saturation"], "alarm_without_input": True}],
        "note": "Verus relates arrays to sequences, and frame chains to the slot each variable's index names, for all histories; memory is a map from (allocation, index) to values.",
        "functions": [], "trusted": [
            "memory: an allocation is fresh and as large as asked for; reads and writes go to the cell addressed; the copies of std::ptr copy",
            "slices as sequences (as_slice, from_raw_parts)", "size_of::<T>() * n does not wrap (checked_mul in RawArray::alloc)"] + WEAVE_TB,
        "assumptions": ["values are copied whole", "no collection runs during these operations (P07)"],
    },
    "P09": {
        "level": "proof", "technique": VERUS, "kani": False, "native": True, "search": (10**9, 8),
        "verus": [{"unit": "machine", "contracts": ["programs"], "alarm_without_input": True}],
        "note": "Verus verifies every transition of the production dispatch against the state it must lead to, for all states and programs; frames and arrays by their contracts of P08 (verified in the same run).",
        "functions": [], "trusted": [
            "Heap memory as in P08", "block lookup (bc_lookup_in_block) as an uninterpreted function of the machine and the key",
            "target_annotation, intrinsic_index, Smid's queries, branch-table entries by specification",
            "the loop of drive_to_whnf only takes steps and calls intrinsics"] + WEAVE_TB,
        "assumptions": ["programs come out of the predecoder well formed", "the byte-path dispatch (EU_PREDECODE=0) is outside the contract", "no collection runs during a step (P07)"],
    },
    "P10": {
        "level": "proof", "technique": VERUS, "kani": False, "native": True, "search": (10**9, 8),
        "verus": [{"unit": "operators", "contracts": ["grouping", "sections", "anaphora", "blocks", "definitions"], "alarm_without_input": True}],
        "note": "Verus verifies the gap filler and the shunting-yard against a grammar of grouped trees, for all operator runs.",
        "functions": [], "trusted": [
            "cat() and the section anaphora by specification", "source positions uninterpreted",
            "clones of expressions equal the original"] + WEAVE_TB,
        "assumptions": ["a run handed to the shunting-yard is not empty", "a postfix or infix call form always has its argument tuple",
                        "which definition of an operator applies (fixity distribution) and the walk over the whole expression are searched natively only"],
    },
}
