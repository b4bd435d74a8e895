"""What the checks do not prove: statements decided by the bounded check only, and what is assumed."""
BOUNDED = {}
TRUSTED = [
    'the parser pest generates computes the functions m_<rule> that vx writes from dbml.pest on every run (semantics of pest_generator 2.9: modes, ordered choice, greedy repetition, predicates, skipped blanks and comments; its optimizer keeps the meaning); the shape of its trees, their spans and texts are proved from that (grammar_lemmas); that pest yields those very trees is checked on generated documents in every run (extraction_run_beside_the_crate), which is a test; that the grammar accepts the right texts is only tested too (replay)',
    'model of the standard library in contracts/prelude.rs: String/str operations, char counts (at most isize::MAX), i64/u32/f64 parsing, Vec, Option, BTreeMap/BTreeSet as finite maps/sets, integer and float formatting',
    'derived Clone, PartialEq, Default, Debug are structural; f64 equality is treated as structural',
    'extraction by vx: iterator chains are lowered to loops, format! to concatenations, derived Display of errors to functions, closures named in a contract are lifted to functions; everything dropped is listed in extraction_drops; the lowered bodies are also compiled and run beside the crate on generated documents in every run, with the contracts of the std model asserted at every call (extraction_run_beside_the_crate): a test, not a proof',
    'machine integers are machine integers (overflow is an obligation); memory exhaustion and stack depth are not modelled',
    'the unchecked parser is a function of its text (it keeps no state): `parsed(text, result)` names what a call returned (C09)',
    'soundness of Verus and Z3',
]
