"""The marker of a reference line is reported and taken off."""

import itertools

from mc import corpus, impl
from mc.core import ListSpace, Violation

PROPERTY = "C11"
TITLE = "Line markers are reported as linemarker and do not change the reference"
STATEMENT = (
    "Each reference built from a line with a marker ([n], (n), {n}, n., n), n], a bracketed label such as [Abc98], or a bare n followed by a space) carries "
    "linemarker with the number or label without brackets, dots and spaces; the other fields are those of the line without marker. "
    "All references split from one line carry the marker of the line, and a line without marker has none."
)
QUANT = (["inputs"], "every marker style and number before every reference line")
WHY = "Tests use [n] before a few lines; a marker eaten in part, or text taken for a marker, depends on the combination."
ANCHORS = {
    "files": ["refextract/references/engine.py", "refextract/references/record.py", "refextract/references/regexs.py"],
    "mechanism": [
        {"name": "marker patterns", "where": "regexs.get_reference_line_numeration_marker_patterns"},
        {"name": "marker taken off", "where": "engine.remove_reference_line_marker"},
        {"name": "marker formatted", "where": "record.format_marker"},
    ],
    "observe_at": ["refextract.references.engine.parse_references", "refextract.extract_references_from_string"],
}
TECHNIQUE = "exhaustive enumeration of marker x line on the real extractor, differential against the line without marker"
NOTE = "Every marker of the table before every line; oracle: marker table and the extraction of the bare line."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "26 markers x 4 spacings x 36 lines, through the line parser and as one-line string; no marker before 36 lines",
    "thorough": "the same with 300 numbers",
}
ASSUMPTIONS = ["small knowledge bases", "lines which do not start with a marker or a digit themselves"]

LINES = [l for l in corpus.LINES if l.strip() and l[0] not in "[(<" and not l[0].isdigit()]


def markers(deep):
    numbers = [1, 2, 9, 10, 42, 100, 999, 1234] + (list(range(3, 300)) if deep else [])
    for n in numbers:
        for fmt in ("[%d]", "(%d)", "{%d}", "%d.", "%d)", "%d]", "[ %d ]", "( %d )"):
            yield fmt % n, str(n)
    for label in ("Abc98", "a", "W", "ABC", "AB+", "AB+98", "Abc98a", "abc", "A:1998", "A-B", "A1", "Ab9", "AB+9", "Ab9c", "A 1", "AB 98", "Ab123", "A1998b"):
        yield "[%s]" % label, label
        yield "[ %s ]" % label, label
    yield "[1.2]", "1.2"
    yield "[10.11]", "10.11"


def parse(line):
    from refextract.references.engine import parse_references

    return parse_references([line], override_kbs_files=impl.SMALL)[0]


def bare(refs):
    return [{k: v for k, v in ref.items() if k not in ("raw_ref", "linemarker")} for ref in refs]


def run(case):
    marker, value, space, line, mode = case["marker"], case["value"], case["space"], case["line"], case["mode"]
    text = case["lead"] + marker + space + line
    got = parse(text) if mode == "line" else impl.refs(text)
    expected = parse(line)
    if bare(got) != bare(expected):
        raise Violation("%r instead of %r" % (bare(got), bare(expected)))
    for ref in got:
        if ref.get("linemarker") != ([value] if value else None):
            raise Violation("linemarker %r instead of %r" % (ref.get("linemarker"), value))
    return value


def cases(deep):
    for (marker, value), line in itertools.product(markers(deep), LINES):
        for space in (" ", "", "  ", "\t"):
            if space == "" and marker.endswith(".") and line[0].isdigit():
                continue
            yield {"marker": marker, "value": value, "space": space, "line": line, "lead": "", "mode": "line"}
        yield {"marker": marker, "value": value, "space": " ", "line": line, "lead": "  ", "mode": "line"}
        if value in ("1", "Abc98", "W"):
            yield {"marker": marker, "value": value, "space": " ", "line": line, "lead": "", "mode": "string"}
    for n, line in itertools.product((1, 7, 12, 345), LINES):
        yield {"marker": "%d" % n, "value": str(n), "space": " ", "line": line, "lead": "", "mode": "line"}
        yield {"marker": "%d" % n, "value": str(n), "space": "   ", "line": line, "lead": " ", "mode": "line"}


def unmarked():
    for line in LINES:
        for mode in ("line", "string"):
            yield {"marker": "", "value": None, "space": "", "line": line, "lead": "", "mode": mode}
        yield {"marker": "", "value": None, "space": "", "line": line, "lead": "  ", "mode": "line"}
    for start in ("10.1000/ab", "1998a Physics", "[see] also", "[to be published] x", "(see) also", "2.5 GeV", "3-body decays"):
        if start[0] == "[" and " " not in start.split("]")[0]:
            continue
        yield {"marker": "", "value": None, "space": "", "line": start, "lead": "", "mode": "line"}


def spaces(tier):
    yield ListSpace("markers", lambda: cases(tier == "thorough"), run, rule="marker, spacing, line", setup=impl.warm_small)
    yield ListSpace("unmarked", lambda: unmarked(), run, rule="lines without marker")
