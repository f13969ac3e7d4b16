"""Reference lines are extracted independently of each other, in order."""

import itertools

from mc import corpus, forktree, impl
from mc.core import ListSpace, Space, Violation

PROPERTY = "C03"
TITLE = "Each reference line is extracted independently, in order, none lost"
STATEMENT = (
    "Extracting a list of reference lines gives the concatenation, in the order of the lines, "
    "of what extracting each line alone gives: no line (blank and duplicated ones included) is "
    "dropped, merged, reordered or influenced by the other lines, an ibid at the start of a line "
    "included. The returned statistics (report numbers, titles, authors, URLs, DOIs, misc) are "
    "the sums of those of the lines, and a numbered list given as one string yields the same "
    "references with the markers 1..n."
)
QUANT = (["inputs", "histories"], "every sequence of reference lines, whatever each line contains")
WHY = (
    "The tests parse single lines or a few fixed documents; interference between two lines "
    "(shared mutable state, ibid memory, counters) depends on the ordered combination."
)
ANCHORS = {
    "files": ["refextract/references/engine.py", "refextract/references/record.py",
              "refextract/references/tag.py", "refextract/references/api.py"],
    "mechanism": [
        {"name": "line by line loop without carried state", "where": "engine.parse_references_elements"},
        {"name": "ordered construction of the result", "where": "record.build_references"},
        {"name": "statistics accumulation", "where": "tag.sum_2_dictionaries, engine.build_stats"},
    ],
    "observe_at": ["refextract.references.engine.parse_references", "refextract.extract_references_from_string"],
}
TECHNIQUE = "exhaustive enumeration of line sequences on the real extractor, against the single-line model"
NOTE = (
    "All ordered pairs of 40 feature lines, triples of 16, all subsets in order; the oracle is the "
    "extraction of each line alone in a forked process which saw no other line."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all ordered pairs of 40 lines, all ordered triples of 16, all 40 rotations of the whole list; numbered strings: all ordered pairs of 34, triples of 10",
    "thorough": "triples of 40 lines, quadruples of 12; numbered strings: triples of 20",
}
ASSUMPTIONS = ["small knowledge bases; interference between lines through the KB search is identical for the shipped ones"]

LINES = corpus.LINES
TRIPLES = [0, 2, 3, 5, 6, 7, 9, 10, 11, 12, 16, 20, 23, 26, 28, 36]
FOUR = [0, 2, 3, 5, 9, 11, 12, 16, 20, 23, 26, 36]
# for the numbered string: lines which are neither blank nor numbered themselves
NUMBERED = [i for i, l in enumerate(LINES) if l.strip() and not l.startswith("[2]") and not l[0].isdigit()]
KEYS = ("reportnum", "title", "author", "url", "doi", "misc")

SINGLE = {}


def parse(lines):
    from refextract.references.engine import parse_references

    return parse_references(list(lines), override_kbs_files=impl.SMALL)


def setup():
    impl.warm_small()
    # each line in a process which never saw another one
    for line, res in zip(
        LINES, forktree.in_children([lambda line=line: parse([line]) for line in LINES])
    ):
        if "error" in res:
            raise Violation("%r: %s" % (line, res["error"]))
        refs, stats = res["ok"]
        SINGLE[line] = (refs, {k: stats[k] for k in KEYS})


def run(case):
    lines = [LINES[i] for i in case]
    refs, stats = parse(lines)
    expected = [ref for line in lines for ref in SINGLE[line][0]]
    if refs != expected:
        raise Violation("%r instead of %r" % (refs, expected))
    for key in KEYS:
        total = sum(SINGLE[line][1][key] for line in lines)
        if stats[key] != total:
            raise Violation("statistics: %d %s instead of %d" % (stats[key], key, total))
    return impl.canon([len(refs)] + [sorted(r) for r in refs])


def alone(case):
    """One line gives at least one reference, all carrying the line itself."""
    line = LINES[case]
    refs, stats = SINGLE[line]
    for ref in refs:
        if ref["raw_ref"] != [line]:
            raise Violation("raw_ref %r instead of %r" % (ref["raw_ref"], line))
    if not refs:
        raise Violation("no reference for %r" % line)
    again, stats2 = parse([line])
    if again != refs:
        raise Violation("second extraction: %r instead of %r" % (again, refs))
    counted = {
        "reportnum": sum(len(r.get("reportnumber", [])) for r in refs),
        "url": sum(len(r.get("url", [])) for r in refs),
        "doi": sum(len(r.get("doi", [])) for r in refs),
    }
    for key, count in counted.items():
        if key == "url" and any("hdl" in r for r in refs):
            continue
        if stats[key] != count:
            raise Violation("statistics: %d %s instead of %d: %r" % (stats[key], key, count, refs))
    return impl.canon(stats)


def numbered(case):
    lines = ["[%d] %s" % (n, LINES[i]) for n, i in enumerate(case, 1)]
    got = impl.refs("\n".join(lines))
    expected = []
    for line in lines:
        expected += parse([line])[0]
    if got != expected:
        raise Violation("%r instead of %r" % (got, expected))
    markers = [int(ref["linemarker"][0]) for ref in got]
    if sorted(set(markers)) != list(range(1, len(case) + 1)) or markers != sorted(markers):
        raise Violation("markers %r" % markers)
    return impl.canon([len(got)] + [sorted(r) for r in got])


def product(indexes, count):
    return lambda: (list(c) for c in itertools.product(indexes, repeat=count))


def spaces(tier):
    deep = tier == "thorough"
    every = range(len(LINES))
    yield ListSpace("alone", list(every), alone, rule="each line alone, twice", setup=setup)
    yield ListSpace("pairs", product(every, 2), run, rule="ordered pairs of lines")
    yield ListSpace("triples", product(every if deep else TRIPLES, 3), run, rule="ordered triples of lines")
    if deep:
        yield ListSpace("quadruples", product(FOUR, 4), run, rule="ordered quadruples of lines")
    whole = list(every)
    yield ListSpace(
        "rotations",
        [whole[i:] + whole[:i] for i in every] + [[], whole + whole, whole[::-1], whole * 8],
        run,
        rule="the whole list, rotated; no line at all; doubled; reversed",
    )
    yield ListSpace("numbered-pairs", product(NUMBERED, 2), numbered, rule="numbered pairs given as a string")
    yield ListSpace(
        "numbered-triples",
        product(NUMBERED[:20] if deep else NUMBERED[:20:2], 3),
        numbered,
        rule="numbered triples given as a string",
    )
