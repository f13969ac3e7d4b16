"""Properties of refextract that bounded exhaustive exploration cannot decide."""

UNCLAIMED = [
    {
        "id": "C90",
        "title": "Extraction time grows moderately with the length of the text",
        "statement": (
            "Extracting the references of a text takes a time that grows at most polynomially, with a small degree, with "
            "the length of the text: no reference line of realistic length blocks a worker."
        ),
        "quantifier": {"over": ["inputs"], "text": "texts of every length"},
        "why_tests_cant": "Tests run short texts; catastrophic backtracking needs particular long ones.",
        "anchors": {
            "files": ["refextract/references/regexs.py", "refextract/authors/regexs.py", "refextract/references/tag.py"],
            "mechanism": [{"name": "bounded repetitions in the regular expressions", "where": "references/regexs.py"}],
            "observe_at": ["refextract.extract_references_from_string"],
        },
        "reason": (
            "An asymptotic claim about unboundedly long inputs: a bounded exploration of short inputs says nothing about growth, "
            "and a wall-clock threshold would raise false alarms on slow machines. Each explored execution only has a generous CPU limit (60 s)."
        ),
    },
    {
        "id": "C91",
        "title": "Extraction quality on real documents does not regress",
        "statement": (
            "On the corpus of real-world papers the share of correctly extracted references does not decrease."
        ),
        "quantifier": {"over": ["inputs"], "text": "all published papers"},
        "why_tests_cant": "A statistical property of an open-ended corpus; tests hold a handful of papers.",
        "anchors": {
            "files": ["refextract/references/engine.py"],
            "mechanism": [{"name": "heuristics and regular expressions", "where": "references/*"}],
            "observe_at": ["refextract.extract_references_from_file"],
        },
        "reason": "Statistical, without a finite space of behaviours or an oracle to decide each one; the exactness of each recogniser is claimed separately.",
    },
]
