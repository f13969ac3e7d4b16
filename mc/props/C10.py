"""Reference lines broken over several text lines are put together again."""

import itertools
import os

from mc import impl
from mc.core import ListSpace, Violation

PROPERTY = "C10"
TITLE = "References broken over several lines are rebuilt exactly"
STATEMENT = (
    "A numbered or labelled list of references gives one reference line per marker, equal to the reference written on "
    "one line, wherever it was broken between words (also when a continuation line starts with a number that is not the next one), however "
    "continuation lines are indented, and with blank lines in between; a word hyphenated at the end of a line is joined without the hyphen. "
    "Without markers, references separated by blank lines, or starting at the margin with a capital while the others are indented, are told apart, and "
    "of a reference of more than 25 lines the first 25 are used."
)
QUANT = (["inputs"], "every way of breaking every list of references into lines")
WHY = "The tests contain a few wrapped documents; there are exponentially many ways to wrap one."
ANCHORS = {
    "files": ["refextract/references/text.py", "refextract/documents/text.py", "refextract/references/api.py"],
    "mechanism": [
        {"name": "markers must come in sequence", "where": "text.rebuild_reference_lines"},
        {"name": "joining", "where": "documents.text.join_lines"},
        {"name": "blank line and indentation separators", "where": "text.test_for_blank_lines_separating_reference_lines"},
    ],
    "observe_at": ["refextract.extract_references_from_string", "refextract.extract_references_from_file"],
}
TECHNIQUE = "exhaustive enumeration of line breakings on the real extractor against the unbroken list"
NOTE = "All 2^k breakings of the references within the bounds were run for every marker style."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "two references of 6 and 5 words, all 512 breakings x 9 marker styles x 4 indentations; blank lines at every subset of 8 positions; all hyphenations; unmarked lists of 4-5 references, all breakings; lengths 1..30 lines",
    "thorough": "three references, all 8192 breakings x 9 styles x 4 indentations",
}
ASSUMPTIONS = ["small knowledge bases", "a line starting with the number of the next reference starts it"]

STYLES = {
    "bracket": lambda n: "[%d]" % n,
    "spaced": lambda n: "[ %d ]" % n,
    "dot": lambda n: "%d." % n,
    "paren": lambda n: "(%d)" % n,
    "curly": lambda n: "{%d}" % n,
    "angle": lambda n: "<%d>" % n,
    "closing": lambda n: "%d)" % n,
    "closing2": lambda n: "%d]" % n,
    "label": lambda n: "[Abc%02d]" % n,
}
REFS = [
    "A. Author, zebra 10 (1990) 20",
    "B. Other, quokka 77 [12]",
    "C. Third, (5) walrus. 9 ocelot",
]
INDENTS = ["", "    ", "\t", " "]


def rebuilt(text, mode="string", **kwargs):
    if mode == "string":
        result = impl.refs(text, **kwargs)
    else:
        from refextract import extract_references_from_file

        with impl.scratch() as directory:
            path = impl.write(os.path.join(directory, "doc.txt"), text)
            result = extract_references_from_file(path, override_kbs_files=impl.SMALL)
    raw = []
    for ref in result:
        if ref["raw_ref"][0] not in raw:
            raw.append(ref["raw_ref"][0])
    return raw


def run(case):
    raw = rebuilt(case["text"], case.get("mode", "string"))
    if raw != case["refs"]:
        raise Violation("reference lines %r instead of %r" % (raw, case["refs"]))
    return "%d lines" % case["text"].count("\n")


def fits(style, line):
    """A label is any text in brackets: such words cannot start a line."""
    return not (style == "label" and "[" in line)


def breakings(words):
    for mask in range(1 << (len(words) - 1)):
        lines = [[words[0]]]
        for idx, word in enumerate(words[1:]):
            if mask >> idx & 1:
                lines.append([word])
            else:
                lines[-1].append(word)
        yield [" ".join(line) for line in lines]


def wrapped(refs, styles):
    def generate():
        for style in styles:
            full = [STYLES[style](n + 1) + " " + r for n, r in enumerate(refs)]
            if style == "label":
                full = [f.replace(" [12]", " 12") for f in full]
            ways = [list(breakings(f.split(" ") if style != "spaced" else [f[:5]] + f[6:].split(" "))) for f in full]
            for indent in INDENTS:
                for combo in itertools.product(*ways):
                    lines = []
                    for way in combo:
                        lines.append(way[0])
                        lines += [indent + line for line in way[1:]]
                    yield {"text": "\n".join(lines), "refs": full}

    return generate


def blanks():
    """blank lines anywhere between the lines of a marked list"""
    for style in STYLES:
        full = [STYLES[style](n + 1) + " " + r for n, r in enumerate(REFS[:2])]
        if style == "label":
            full = [f.replace(" [12]", " 12") for f in full]
        lines = []
        for f in full:
            cut = f.index(", ") + 1
            lines += [f[:cut], f[cut + 1 :]]
        for blank in ("", "   "):
            for mask in range(1 << (len(lines) + 1)):
                out = []
                for idx, line in enumerate(lines):
                    if mask >> idx & 1:
                        out.append(blank)
                    out.append(line)
                if mask >> len(lines) & 1:
                    out.append(blank)
                yield {"text": "\n".join(out), "refs": full}


def hyphens():
    words = ["hyphenation", "quantumchromodynamics"]
    for style in STYLES:
        for word in words:
            for pos in range(1, len(word)):
                for indent in INDENTS:
                    text = "%s A. Author, on %s-\n%s%s in physics\n%s B. Other" % (
                        STYLES[style](1), word[:pos], indent, word[pos:], STYLES[style](2))
                    yield {"text": text, "refs": ["%s A. Author, on %s in physics" % (STYLES[style](1), word), "%s B. Other" % STYLES[style](2)]}


STARTS = ["'t Hooft, G., Zebra 10 (1990) 20", "3rd Zebra Workshop, 1990", "\u00c9mile, A., Zebra", '"Zebra", A. Author', "1990 Zebra Report", "(Zebra), A. Author", "\u00d8stlund, S.", "Zebra"]
PLAIN = ["Author, A., Zebra Journal 10 (1990) 20", "Brother, B., Quokka 77 (1991) 4", "Cousin, C., in Walrus", "Dean, D., Ocelot 5 (1999) 6", "Earl, E., Badger"]


def unmarked(counts):
    """references separated by blank lines"""

    def generate():
        for count in counts:
            refs = PLAIN[:count]
            ways = [list(breakings(r.split(", "))) for r in refs]
            ways = [[[l.replace(" ", " ") for l in w] for w in way] for way in ways]
            for combo in itertools.product(*ways):
                if not any(len(w) > 1 for w in combo):
                    continue
                for blank in (" ", "    "):
                    lines = []
                    for way in combo:
                        lines += list(way) + [blank]
                    yield {"text": "\n".join(lines), "refs": [" ".join(w) for w in combo]}
                    for above, between, below in ((1, 1, 0), (1, 1, 1), (1, 1, 2), (0, 2, 0), (2, 2, 1), (0, 1, 0)):
                        lines = [blank] * above
                        for way in combo:
                            lines += list(way) + [blank] * between
                        lines = lines[: len(lines) - between] + [blank] * below
                        yield {"text": "\n".join(lines), "refs": [" ".join(w) for w in combo]}

    return generate


def indented():
    """a hanging indent, or a start in capitals at the margin"""
    for count in range(1, 6):
        refs = PLAIN[:count]
        ways = [list(breakings(r.split(" "))) for r in refs]
        for which in range(count):
            for way in ways[which]:
                for indent in ("  ", "\t"):
                    lines = []
                    for idx, r in enumerate(refs):
                        lines += [way[0]] + [indent + l for l in way[1:]] if idx == which else [r]
                    yield {"text": "\n".join(lines), "refs": refs}


def starts():
    """unmarked references at the margin that start with something else than a capital letter"""
    for one in STARTS:
        for before, after in itertools.product(range(3), repeat=2):
            refs = PLAIN[:before] + [one] + PLAIN[3 : 3 + after]
            yield {"text": "\n".join(refs), "refs": refs}
            yield {"text": "\n".join(r.replace(" ", "\n   ", 1) for r in refs), "refs": refs}
    for pair in itertools.permutations(STARTS, 2):
        yield {"text": "\n".join(pair), "refs": list(pair)}


def continued():
    """unindented continuation: lower case start, or after a comma, & or -"""
    for first, second, full in (
        ("Author, A., see the work", "of many, in Zebra", None),
        ("Author, A.,", "Zebra 10 (1990) 20", None),
        ("Author, A. &", "Brother, B., Zebra", None),
        ("Author, A., Quantum-", "Chromodynamics", "Author, A., QuantumChromodynamics"),
    ):
        for before, after in itertools.product(range(3), repeat=2):
            refs = PLAIN[1 : 1 + before] + [full or first + " " + second] + PLAIN[3 : 3 + after]
            lines = PLAIN[1 : 1 + before] + [first, second] + PLAIN[3 : 3 + after]
            yield {"text": "\n".join(lines), "refs": refs}


def lengths():
    for style in ("bracket", "dot", "label"):
        for count in range(1, 31):
            lines = [STYLES[style](1) + " zebra"] + ["word%s" % chr(97 + i) for i in range(count - 1)]
            yield {"text": "\n".join(lines + [STYLES[style](2) + " last"]), "refs": [" ".join(lines[:25]), STYLES[style](2) + " last"]}


def files():
    for style in STYLES:
        full = [STYLES[style](n + 1) + " " + r.replace(" [12]", " 12") for n, r in enumerate(REFS[:2])]
        for one in breakings(full[0].split(", ")):
            for two in breakings(full[1].split(", ")):
                lines = ["Text", "References"]
                for way, f in ((one, full[0]), (two, full[1])):
                    lines += [l + ("," if i + 1 < len(way) else "") for i, l in enumerate(way)]
                for end in ("\n", "\r\n"):
                    yield {"text": end.join(lines) + end, "refs": [", ".join(f.split(", ")) if len(w) > 1 else f.replace(", ", " ") for w, f in ((one, full[0]), (two, full[1]))], "mode": "file"}


def spaces(tier):
    deep = tier == "thorough"
    yield ListSpace("wrapped", wrapped(REFS if deep else REFS[:2], list(STYLES)), run, rule="all breakings of marked references between words", setup=impl.warm_small)
    yield ListSpace("blanks", lambda: blanks(), run, rule="blank lines between all subsets of lines")
    yield ListSpace("hyphens", lambda: hyphens(), run, rule="hyphenation at every position")
    yield ListSpace("blank-separated", unmarked((4, 5)), run, rule="unmarked references separated by blank lines")
    yield ListSpace("indented", lambda: indented(), run, rule="unmarked references with hanging indent")
    yield ListSpace("starts", lambda: starts(), run, rule="unmarked references starting with digits, quotes or accents")
    yield ListSpace("continued", lambda: continued(), run, rule="unmarked, unindented continuation lines")
    yield ListSpace("lengths", lambda: lengths(), run, rule="references of 1..30 lines")
    yield ListSpace("files", lambda: files(), run, rule="as plain-text file with both line endings")
