"""Texts of the evidence: assumptions, meaning of the assertions."""
ASSUMPTIONS = [
    'the LLVM IR of rustc (release, opt-level 2, no vectorisation, panic=abort) is what is executed; the symbolic executor (irsym) and z3 are trusted',
    'the memory allocator never fails; the standard library functions without IR are replaced by stubs (formatting gives the real text except for the digits of doubles, which stay tokens; files keep their content)',
    'reals domain: the operations are exact; a path dividing by zero is excluded (counted)',
    'floats domain: exact IEEE-754 meaning of comparisons and special values, arithmetic by a sound abstraction refined by bit-blasting for the counterexamples; sign and payload of NaN not modelled',
]
PROPERTY_ASSUMPTIONS = dict(
    C16=['the parser of minidom (a dependency) and the reading of the file are replaced by a symbolic document tree; f64::from_str by a stub '
         'giving a symbol for every number; the native replays write the document to a file and use the real ones'],
)
