"""Per-property wording of the manifest and the evidence files."""
PROVED = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C20", "C32"]
# properties of which one part is proved and another is only checked within bounds
MIXED = {"C19": "the parts about mixture, factorised and non-linear factors and templates", "C27": "the assembly of the graph from the absorbed factors",
              "C29": "the initial state of a new graph", "C30": "the initial state of a new graph"}
LEVEL = {p: "proof" for p in PROVED}
LEVEL.update({p: "other" for p in MIXED})
NOT_APPLICABLE = {}
TECH = {"other": "contract-based deductive verification of part of the statement (sidecar contracts on the real functions, obligations discharged by Z3/cvc5), bounded contract evaluation on the real code for the rest",
        "proof": "contract-based deductive verification: sidecar contracts on the real functions, verification conditions generated from /repo's AST on every run, discharged by Z3/cvc5",
        "exploration": "contracts evaluated on the real functions against an exact spec oracle (bounded stand-in for the deductive check)"}
NOTE = {"other": "the contracts of the dense classes are discharged deductively; the rest of the statement is bounded: evaluated on seeded small inputs of the real code, and not counted as proved",
        "proof": "every obligation generated from the current source must be discharged; a seeded run of the real code against the same contract supplies failing inputs",
        "exploration": "bounded: the contract is evaluated on randomly generated small inputs of the real code; nothing is proved"}
RULES = {"default": "random small factors, scopes, orders and operations from the harness/ generators (seeded); a case is non-trivial when its JSON differs from every other case of the same process"}
ASSUMPTIONS = {"all": ["machine arithmetic is compared with the mathematical value within the tolerances in harness/base.py"]}
