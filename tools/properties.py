"""The properties (properties.jsonl is generated from this)."""

def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=(), hook=None, na=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                     "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                     "observe_at": list(observe), "hook_needed": hook}}
    if na:
        d["na"] = na
    return d

HOOKS = None
NOTES = "One driver (check.py) for every property; see DESIGN.md. Undecided obligations are reported in the evidence and never alarm."

P = [
prop("P01", "Integer addition, subtraction, multiplication and powers are exact",
     "Adding, subtracting or multiplying two integers yields exactly the mathematical result as an integer, or is refused with an error; it never wraps, saturates, or loses digits through floating point. "
     "An answer (not an error) is always given when both operands and the result fit the signed 64-bit range (or, where an operand exceeds it, when operands and result fit the unsigned one), and raising an integer to a non-negative integer power is exact whenever the result fits the signed range.",
     ["inputs"], "every pair of integers of the signed and unsigned 64-bit ranges, in either representation",
     "2^128 operand pairs; the tests sample a few dozen, mostly small ones, and none that mix a signed with a large unsigned operand.",
     ["src/eval/stg/arith.rs"], [("Add/Sub/Mul/Pow::execute", "src/eval/stg/arith.rs"), ("checked arithmetic, widening to 128 bits", "src/eval/stg/arith.rs")],
     ["the number an arithmetic intrinsic returns to the machine"]),
prop("P02", "Division, modulus, quotient and remainder obey the floor and truncation laws",
     "For integers, division rounds toward negative infinity and modulus is its matching remainder with the divisor's sign, while quotient rounds toward zero and remainder is its matching remainder with the dividend's sign, all exactly (a = b*q + r). "
     "Division by zero is always an error, never a crash, an infinity or a number; results that fit are always answered.",
     ["inputs"], "every pair of integers of the signed and unsigned 64-bit ranges; for the zero-divisor clause every dividend, integer or float",
     "Rounding differs only for particular sign and remainder combinations and at the range ends (minimum over -1, large unsigned operands), over 2^128 pairs.",
     ["src/eval/stg/arith.rs"], [("Div/Mod/Quot/Rem/PreciseDiv::execute", "src/eval/stg/arith.rs"), ("floor_div_i64, floor_mod_i64", "src/eval/stg/arith.rs")],
     ["the number or error an arithmetic intrinsic returns to the machine"]),
prop("P03", "Bitwise operators are exact two's-complement 64-bit operators",
     "Bitwise and, or, xor, not, shifts, population count, and trailing/leading zero counts give the two's-complement 64-bit answer for every pair of integers of the signed 64-bit range (including integral floats, which count as those integers). "
     "Operands that are not such integers, and shift distances outside 0..63, are refused with an error, never crashed on or reinterpreted.",
     ["inputs"], "every number operand, integer or float, and every shift distance",
     "The boundary cases (fractional or huge floats, 2^63, shift by 63/64/negative, zero counts of 0) are a vanishing part of the input space; the tests use small positive integers.",
     ["src/eval/stg/arith.rs"], [("BitAnd..Clz::execute, require_i64", "src/eval/stg/arith.rs")],
     ["the number or error a bitwise intrinsic returns to the machine"]),
prop("P04", "Numeric comparison and equality agree with the exact order of the numbers",
     "Greater, greater-or-equal, less, less-or-equal and equality of two numbers answer exactly as the real numbers denoted compare, whatever mixture of representations (signed, unsigned, float) they are held in. "
     "Hence exactly one of <, =, > holds and the order is transitive; integers are never compared through lossy floats.",
     ["inputs"], "every pair of integers, every pair of finite floats, and every finite float against an integer of magnitude up to 2^53",
     "The failing pairs are adjacent integers beyond 2^53, or one operand at or above 2^63; sampling operands does not reach them.",
     ["src/eval/stg/arith.rs", "src/eval/stg/eq.rs"], [("num_ord", "src/eval/stg/arith.rs"), ("num_eq, Eq::execute", "src/eval/stg/eq.rs")],
     ["the boolean a comparison intrinsic returns to the machine"]),
prop("P05", "A heap block never hands out memory that is in use",
     "Within a bump block, the memory handed out for an allocation always lies inside the block, stays 16-byte aligned for aligned sizes, is disjoint from everything handed out since the block was made or recycled, and after recycling touches no line marked live. "
     "Marking an object marks every line any byte of it touches and no other line, and free space of two or more adjacent lines is always found again.",
     ["inputs", "histories"], "every line-mark pattern, every limit, every sequence of allocation sizes and marked regions",
     "There are 2^256 mark patterns; an overlap shows only for particular patterns and sizes, and then as silent corruption of a live object much later.",
     ["src/eval/memory/bump.rs", "src/eval/memory/heap.rs", "src/eval/memory/lob.rs"],
     [("LineMap::find_hole, BumpBlock::{bump,recycle,mark_region,find_largest_hole}", "src/eval/memory/bump.rs"), ("Heap::alloc_size_of", "src/eval/memory/heap.rs"),
      ("LargeObjectBlock::efficient_size_for", "src/eval/memory/lob.rs")],
     ["the address BumpBlock::bump returns", "the line map"]),
prop("P06", "Combining usage demands never claims more than is true",
     "The demands the optimiser keeps per binding over-approximate how often, and under-approximate how surely, it is evaluated: combining the demands of alternative branches, of uses in sequence, and of uses through another binding describes every evaluation count the parts allow, and claims strictness only when the parts imply it. "
     "So the update of a thunk is skipped only for a binding that is already evaluated or can be evaluated at most once, and a recursive binding is never taken for a non-recursive one.",
     ["inputs"], "every pair of demands and every number of uses they describe",
     "A wrong entry in one of these tables changes no result in most programs; it repeats work exponentially, forces what must stay lazy, or hides an infinite loop, only for particular usage patterns.",
     ["src/core/demand.rs", "src/core/analyse_demand.rs"], [("Cardinality::join, Strictness::join, Demand::{lub,plus,scale,skip_update}", "src/core/demand.rs")],
     ["the demand returned"]),
prop("P07", "Garbage collection preserves every reachable value",
     "A collection, whether it marks in place or evacuates objects, leaves everything the machine can still reach as it was: environment frames keep their bindings, parents and sharing, continuations keep their contents, and strings, sets, vectors and arrays keep their elements. "
     "Every root and every pointer inside a live object is followed and, when its target moved, rewritten to the one copy; two references to one object never become references to two. Objects in pinned blocks do not move.",
     ["inputs", "histories"], "every heap graph, every set of roots (values, frames, continuations, stashes, suspended stacks, constants), every choice of evacuated blocks, every history of collections",
     "A pointer that is not followed or not rewritten still reads correctly until its target's memory is reused one or more collections later; a test must have that kind of pointer as the only path, at that moment, with the right blocks evacuated.",
     ["src/eval/memory/collect.rs", "src/eval/bytecode/closure.rs", "src/eval/bytecode/cont.rs", "src/eval/bytecode/machine.rs", "src/eval/machine/env.rs", "src/eval/memory/string.rs"],
     [("GcScannable::{scan,scan_and_update} of every heap type and of the machine's roots", "src/eval/bytecode, src/eval/machine/env.rs, src/eval/memory/string.rs"),
      ("collect_mark_in_place, collect_with_evacuation, try_evacuate, CollectorHeapView", "src/eval/memory/collect.rs")],
     ["values read through the roots after a collection"]),
prop("P08", "Environment frames and heap arrays address the right slot",
     "A heap array holds exactly the items put in it, in order: pushing, growing, popping and prefixes lose or reorder nothing and touch no other array, and reading or writing past the length is refused. "
     "A variable's index names the frame's own variables in order and then those of the enclosing frames; looking it up or updating it reaches exactly that slot, through remapped frames too. "
     "A branch that receives a constructor's fields sees them in order in front of the variables of the case, and shares the constructor's own slots (so that a forced field is forced once) when at most four fields are all variables of its frame; a saturated function sees its arguments in order in front of its own environment.",
     ["inputs", "histories"], "every history of array operations, every chain of frames and remappings, every index, every list of constructor operands",
     "An off-by-one in a remapping, a lost item on growth at one capacity, or a copy where slots should be shared shows only for one shape of chain; programs still give right answers for most shapes, or give them more slowly or with repeated effects.",
     ["src/eval/memory/array.rs", "src/eval/machine/env.rs", "src/eval/bytecode/env_builder.rs", "src/eval/bytecode/machine.rs", "src/eval/memory/infotable.rs"],
     [("RawArray, Array", "src/eval/memory/array.rs"), ("EnvironmentFrame::{cell,get,update,physical_index,new_remapped}", "src/eval/machine/env.rs"),
      ("BcEnvBuilder for MutatorHeapView", "src/eval/bytecode/env_builder.rs"), ("bc_classify_args, env_from_data_args, env_from_data_args_copy, resolve_ref", "src/eval/bytecode/machine.rs")],
     ["values read through frames and arrays", "results of update"]),
prop("P09", "The machine evaluates as call by need demands: each thunk once, into its own slot",
     "Each step of the production (pre-decoded) dispatch does what call-by-need evaluation prescribes. A variable or callee that is a thunk has its slot black-holed while it is evaluated and that very slot overwritten with its value, so it is evaluated once and a value that needs itself is an error (the one exception is a literal lookup into a global, which is not remembered). "
     "Applying a function to exactly, fewer or more arguments than it takes enters it, makes a partial application holding them in order, or enters it and keeps the rest for the result; a case enters the branch of the constructor's tag, else the fallback with the value bound, else fails; let and letrec bind closures over the outer and the new frame; metadata is invisible except to the form that takes it apart; a seq goes on in its own frame at its own source location. "
     "An intrinsic that evaluates a value gets it back with the caller's stack and value as they were, even when the evaluation fails.",
     ["inputs", "histories"], "every machine state (any continuation stack, frames, constants), every predecoded instruction, every value returned to every continuation",
     "A slot updated in the wrong frame, an update placed below instead of above another continuation, or a lost argument is visible only for one combination of value, continuation and binding form; results often stay right while work is repeated exponentially.",
     ["src/eval/bytecode/machine.rs", "src/eval/bytecode/predecode.rs", "src/eval/bytecode/cont.rs"],
     [("handle_op_predecoded, step_predecoded", "src/eval/bytecode/machine.rs"), ("return_native, return_fun, return_data, return_meta, enter_local, enter_global, partially_apply", "src/eval/bytecode/machine.rs"),
      ("enter_whnf_subrun, exit_whnf_subrun, materialize_bif_args, BcBifContext", "src/eval/bytecode/machine.rs")],
     ["intrinsic calls and their operands, in order", "the final value or error", "the source annotation"]),
prop("P10", "Operator runs are grouped by precedence and fixity, losing nothing",
     "A run of operands and operators is read as its operators' precedences and fixities say: a higher precedence binds tighter, equal precedences group to the left or right as the earlier operator says, a prefix operator takes what follows it, a postfix operator what precedes it, a nullary operator stands alone. "
     "Every operand and operator of the run is used exactly once, in order; adjacent operands are catenated (the left is applied to the right's result as a pipeline), a missing operand becomes an anaphor, and the anaphora of a run become the parameters of one function in order (those of runs nested in it too, when it has any of its own; otherwise each nested run makes its own function). A call applies to its arguments in order, a dot looks up a name or applies a generalised lookup. "
     "Any run that can be so read is accepted, whatever its length; one bracketed list keeps the items its catenations separate. An operator has the fixity and precedence of its innermost definition in scope.",
     ["inputs"], "every run of operands and operators of every fixity and precedence, every nesting of definitions",
     "Grouping goes wrong only for a particular mixture of fixities, precedences and gaps (a prefix operator of low precedence after an infix one, equal precedences of different associativity), and then silently computes something else.",
     ["src/core/cook/shunt.rs", "src/core/cook/fill.rs", "src/core/cook/mod.rs", "src/core/cook/fixity.rs", "src/core/expr.rs"],
     [("shunt, Shunter::{seat_op,apply_one,form_apply,run,pop}", "src/core/cook/shunt.rs"), ("fill_gaps, filler", "src/core/cook/fill.rs"),
      ("Cooker::cook_soup, split_at_cat_operators", "src/core/cook/mod.rs"), ("Distributor::dist", "src/core/cook/fixity.rs"), ("Fixity::{arity,bind_sides}", "src/core/expr.rs")],
     ["the cooked expression", "cook errors"]),
]
