"""Manifest texts of the checks that generate client programs."""
GEN = {
    "C05": ("generated worlds and queries, executed with a trace monitor against an independent matcher; forbidden queries watched for acceptance by rustc", "Holds on the generated declaration/query pairs."),
    "C15": ("generated declarations, ids observed at run time against the discriminant rule; forbidden declarations watched for acceptance by rustc", "Holds on the generated declarations."),
    "C16": ("differential execution of cfg-decorated and textually stripped programs under every truth assignment tried", "Traces, ids and compile verdicts agree on the generated programs and assignments."),
    "C18": ("acceptance monitor over a corpus of forbidden client programs with sound twins, generated auto-trait worlds, and an unsafe-token monitor on expansions of generated programs", "The universal claim is sampled: the corpus and the generated expansions."),
    "C19": ("differential monitoring of identical histories and programs in 16 configurations (8 feature sets, debug assertions on/off), with ASan and Miri on the wrapping ones", "Equal outcomes on the driven histories and programs; the 2^32 boundary through the guarded hook (quick) and with real cycles (thorough)."),
}
