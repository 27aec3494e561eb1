"""What each check is made of."""
ENGINE = ["rustc (nightly) front end: parsing, type checking, borrow checking, MIR construction", "driver/vdriver.rs (fact extraction)", "engine/*.py (abstract interpreter, linear arithmetic, models of core functions without MIR)"]
AI = "abstract interpretation of MIR: relational linear-arithmetic domain with array segments, trace partitioning, loop invariants by template inference (no bound on lengths, indices or iterations)"
ASSUME = ["element types of nonzero size for pointer distances; storage of at most isize::MAX bytes", "user code (closures, comparison operators) returns arbitrary values and does not itself violate memory safety", "core functions not inlined from MIR behave as documented (engine/models.py)"]
NOTE = "Sound for all inputs up to the stated assumptions (abstract interpretation of the compiler's MIR in both build profiles, all proof-parameter combinations); an obligation that cannot be discharged is reported as undecided and never as a violation; a violation is reported only with an exact state and a concrete witness."
def d(parts, technique="abstract interpretation of MIR (relational numeric domain, inferred loop invariants)", method=AI, trusted=ENGINE, assume=ASSUME, level="proof", note=NOTE):
    return {"parts": parts, "technique": technique, "method": method, "trusted": trusted, "assume": assume, "level": level, "note": note}
PROPS = {}
for p in "C02 C03 C04 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C21 C22 C23 C24 C28 C30 C31".split(): PROPS[p] = d(["dataflow"])
TL = ["rustc (nightly): type checking, variance computation, trait resolution", "driver/vdriver.rs (item facts)", "engine/typelevel.py, engine/witnesses.py"]
TLN = "Signature rules cover every exported item of the crate; the witnesses are programs that must be rejected (each with a compiling twin differing only in the offending part), so they cover the listed ways of misuse only."
RULES = "rules over the type-checked signatures, variances and impls of every exported item; compile-fail witnesses with compiling twins"
def both(parts): return d(["dataflow"] + parts, "abstract interpretation of MIR + signature rules + compile-fail witnesses", AI + "; " + RULES, ENGINE + TL[2:], ASSUME, note=NOTE + " " + TLN)
PROPS["C01"] = d(["brand", "witnesses"], "signature and variance rules over the type-checked program + compile-fail witnesses", RULES, TL, ["the bodies construct brands only through the constructors the dataflow checks analyse"], note=TLN)
PROPS["C03"] = both(["fields", "witnesses"]); PROPS["C02"] = both(["fields"]); PROPS["C17"] = both(["fields"]); PROPS["C05"] = both(["lifetimes", "witnesses"]); PROPS["C06"] = both(["fields", "growth", "witnesses"]); PROPS["C18"] = both(["traits"])
PROPS["C26"] = d(["dataflow"], "termination analysis of MIR: inferred loop invariants + lexicographic linear ranking functions", AI + "; for every loop reached (inlined through calls) a lexicographic linear ranking function over its loop-carried integers is found and proved against the invariants; a violation is reported only for a header state that is provably reached again unchanged, with user answers that can repeat", ENGINE + ["engine/term.py"], ASSUME + ["closures and comparison operators return"])
PROPS["C25"] = d(["dataflow"], "abstract interpretation of MIR with a domain of order facts between segments of array contents (invariants by greatest fixpoint over generated candidates)", AI + "; order facts (every element of one part of a content precedes every element of another / a part is sorted / a part is a shifted copy) are derived from the outcomes of comparisons and kept through moves of segments; loop invariants among them are the largest inductive subset of candidates generated from positions occurring in the loop; recursive calls are summarised by the property itself (induction on call depth)", ENGINE + ["engine/order.py"], ["element types of nonzero size for pointer distances; storage of at most isize::MAX bytes", "comparison operators and closures behave as one fixed total preorder (less_than as its strict part)"], note=NOTE.replace("with an exact state and a concrete witness", "for a concrete order of a slice of given length, with the order the steps of the function leave it in"))
PROPS["C29"] = dict(PROPS["C25"], technique="abstract interpretation of MIR with a domain of order facts along the edges of an implicit heap (invariants by greatest fixpoint over generated candidates)", method=AI + "; order facts are derived from the outcomes of comparisons; the invariants of the sift-down loops (all edges from a position on are in order, except at the sifted position, whose parent precedes its children) are the largest inductive subset of generated candidates")
PROPS["C19"] = d(["features"], "comparison of extracted items and MIR bodies across feature configurations + abstract interpretation of what differs", "item-by-item and body-by-body comparison of the compiler's facts in all four feature configurations; bodies that differ are analysed with all dataflow rules", ENGINE + ["engine/features.py"], ASSUME, note="The four combinations of the two features are compared completely; an operation whose (transitive) MIR is the same as in the full configuration needs no further argument, any other is decided by the same analysis as the other properties.")
PROPS["C20"] = d(["witnesses"], "auto-trait compile-fail and compile-pass witnesses", RULES, TL, ["none beyond the compiler's auto-trait rules"], note=TLN)
NA = {
 "C27": "The aliasing model is an operational semantics of tag stacks; deciding it needs execution under an instrumented interpreter, not a static argument.",
}
