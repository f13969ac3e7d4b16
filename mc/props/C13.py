"""Nothing of a reference line is lost: elements and plain text are all kept."""

import itertools
import re

from mc import impl
from mc.core import ListSpace, Violation

PROPERTY = "C13"
TITLE = "No part of a reference line is lost or moved to another reference"
STATEMENT = (
    "Every word of a reference line that is not part of a recognised element is found in the misc (or title) fields of the "
    "references of the line, once and in the original order. Every journal reference, report number, eprint, DOI, "
    "URL, handle, quoted title, ISBN, publisher and collaboration recognised in a line of its own is recognised with the "
    "same value, in the same order, and without leaving fragments in misc, when it is mixed (separated by commas or "
    "semicolons) with other elements and words."
)
QUANT = (["inputs"], "every combination of elements, words and separators in one line")
WHY = "Tests check single realistic lines; text is lost (or attached to the wrong reference) only for particular neighbours and separators."
ANCHORS = {
    "files": ["refextract/references/engine.py", "refextract/references/tag.py", "refextract/references/record.py"],
    "mechanism": [
        {"name": "tags inserted at positions recorded in the washed line", "where": "tag.process_reference_line, tag.account_for_stripped_whitespace"},
        {"name": "text between tags kept as misc", "where": "engine.parse_tagged_reference_line"},
        {"name": "elements moved, merged or replaced after splitting", "where": "engine.look_for_books, remove_duplicated_*, split_citations_iter"},
    ],
    "observe_at": ["refextract.extract_references_from_string"],
}
TECHNIQUE = "exhaustive enumeration of element/word/separator combinations on the real extractor against a conservation model"
NOTE = "The model is the list of words and values written into the line; all combinations within the bounds are executed."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "words: 45 elements x 9 x 9 separators, all ordered pairs x 9 separators; elements: all ordered pairs and triples of 26 elements x 2 separators, with words between them and without; 17 short texts between pairs of elements; 42 elements inside of quotation marks in 9 texts x 5 lines",
    "thorough": "words between and around triples of 22 elements x 4 separators; quadruples of 9 elements x 2 separators",
}
ASSUMPTIONS = [
    "small knowledge bases",
    "authors are checked by C25; a repeated collaboration and one before a semicolon are not elements by design of the recogniser",
]

WORDS = ["zebra", "quokka", "walrus", "ocelot", "badger"]
# (text, [(field, value)])
J = "journal_reference"
TOKENS = [
    ("Phys. Rev. D 10 (1990) 20", [(J, "Phys.Rev. D10 (1990) 20")]),
    ("Phys. Rev. D10, 20", [(J, "Phys.Rev. D10 () 20")]),
    ("JHEP 03 (2003) 012", [(J, "JHEP 0303 (2003) 012")]),
    ("Nucl. Phys. B 123, 456 (1985)", [(J, "Nucl.Phys. B123 (1985) 456")]),
    ("ibid. B 11 (1991) 21", []),
    ("PoS LAT2005 (2006) 123", [(J, "PoS LAT2005 (2006) 123")]),
    ("Phys. Lett. B 12 (1991) 34, ibid. 13 (1992) 35", [(J, "Phys.Lett. B12 (1991) 34"), (J, "Phys.Lett. B13 (1992) 35")]),
    ("DAN 10 (1990) 20", [(J, "Dokl.Akad.Nauk Ser.Fiz. 10 (1990) 20")]),
    ("1990", []),
    ("(1990)", []),
    ("A. Author and B. Other", [("author", "A. Author and B. Other")]),
    ("J. Doe et al.", [("author", "J. Doe et al.")]),
    ("A. Editor (ed.)", []),
    ("(eds. A. Editor)", []),
    ("ATLAS Collaboration", [("collaboration", "ATLAS Collaboration")]),
    ("CMS Collaboration", [("collaboration", "CMS Collaboration")]),
    ("arXiv:1203.1234", [("reportnumber", "arXiv:1203.1234")]),
    ("arXiv:1503.12345 [hep-th]", [("reportnumber", "arXiv:1503.12345 [hep-th]")]),
    ("hep-th/9912345", [("reportnumber", "hep-th/9912345")]),
    ("CERN-PH-EP-2012-123", [("reportnumber", "CERN-PH-EP-2012-123")]),
    ("SLAC-PUB-12345", [("reportnumber", "SLAC-PUB-12345")]),
    ("(CERN-PH-EP-2012-123)", [("reportnumber", "CERN-PH-EP-2012-123")]),
    ("doi:10.1000/ab", [("doi", "doi:10.1000/ab")]),
    ("http://foo.org/bar", [("url", "http://foo.org/bar")]),
    ('<a href="http://foo.org/b">text</a>', [("url", "http://foo.org/b"), ("urldesc", "text")]),
    ("hdl:2128/1", [("hdl", "hdl:2128/1")]),
    ("http://hdl.handle.net/2128/1", [("hdl", "hdl:2128/1")]),
    ("http://arxiv.org/abs/1203.1234", [("reportnumber", "arXiv:1203.1234")]),
    ("http://dx.doi.org/10.1000/ab", [("doi", "doi:10.1000/ab")]),
    ('"A quoted title"', [("title", "A quoted title")]),
    ("\u201cother title\u201d", [("title", "other title")]),
    ('"Introduction to elementary particles"', [("title", "Introduction to elementary particles")]),
    ("ISBN 978-3-16-148410-0", [("isbn", "978-3-16-148410-0")]),
    ("Springer", [("publisher", "Springer")]),
    ("Cambridge University Press", [("publisher", "Cambridge Univ. Pr.")]),
    ("[2]", []),
    ("Phys. Rev.", []),
    ("\u00df", []),
    ("\u0130stanbul", []),
    ("caf\u00e9", []),
    ("Introduction to Quantum Field Theory, 1995", []),
    ("p. 12", []),
    ("(to appear)", []),
    ("JHEP 03, 2003", []),
    ("JCAP 4 1999", []),
]
THREE = [0, 2, 6, 10, 14, 16, 19, 22, 23, 25, 29, 33]
FOUR = [0, 2, 10, 16, 19, 22, 23, 25, 29, 33]
SEPS = [", ", " ", "; ", ". ", ",", " (", ": ", ";", " - "]
ALL = "|".join(WORDS)


def words_of(line, result):
    words = [w for w in WORDS if w in line]
    seen = []
    for number, ref in enumerate(result):
        for key, values in ref.items():
            if key == "raw_ref":
                continue
            for value in values:
                for word in re.findall(ALL, value):
                    seen.append((word, key, number))
    return words, seen


def check_words(line, result):
    words, seen = words_of(line, result)
    first = []
    for word, _, _ in seen:
        if word not in first:
            first.append(word)
    if set(first) != set(words):
        raise Violation("words %r instead of %r: %r" % (seen, words, result))
    misc = []
    for word, key, _ in seen:
        if key == "misc" and word not in misc:
            misc.append(word)
    if misc != [w for w in words if w in misc]:
        raise Violation("words out of order %r: %r" % (misc, result))


def check_elements(case, result):
    expected = {}
    for key, value in case["elements"]:
        expected.setdefault(key, []).append(value)
    for key, values in expected.items():
        got = [v for ref in result for v in ref.get(key, [])]
        rest = iter(got)
        for value in values:
            if value not in rest:
                raise Violation("%s %r instead of %r: %r" % (key, got, values, result))
        if len(got) != len(values) and key not in ("author", J):
            raise Violation("%s %r instead of %r: %r" % (key, got, values, result))
    if case["elements"]:
        left = re.findall(r"\w+", " ".join(v for ref in result for v in ref.get("misc", [])))
        if left != [w for w in WORDS if w in case["line"]]:
            raise Violation("remaining text %r: %r" % (left, result))


def run(case):
    result = impl.refs(case["line"])
    check_words(case["line"], result)
    check_elements(case, result)
    return impl.canon([sorted(r) for r in result])


def cases(count, indexes, seps, words, elements):
    """word sep element sep word sep element ... with all words, or without
    the ones in between"""

    def generate():
        for idxs in itertools.product(indexes, repeat=count):
            toks = [TOKENS[i] for i in idxs]
            for sep in itertools.product(seps, repeat=2 if count == 1 else 1):
                a, b = sep[0], sep[-1]
                line = "[1] " + (WORDS[0] + a if words else "")
                for number, (text, _) in enumerate(toks):
                    if number and not words:
                        line += a
                    line += text
                    if words:
                        line += b + WORDS[number + 1] + (a if number + 1 < count else "")
                case = {"line": line, "elements": []}
                if elements:
                    case["elements"] = [el for _, els in toks for el in els]
                yield case

    return generate


SHORT = ["q", "7", "\u00e9", "x y", "q7", "=", "+", "\u00a7 7", "*", "a/b", "#1", "50%", "q!", "k?", "@", "\u03bc", "e = mc^2"]


def short():
    """pieces of text of a few characters between, before and behind elements"""
    for i, j, text in itertools.product(FIXED[::2], FIXED[1::2], SHORT):
        if any(key == "collaboration" for key, _ in TOKENS[i][1] + TOKENS[j][1]):
            continue
        line = "[1] zebra, %s, %s, %s, quokka" % (TOKENS[i][0], text, TOKENS[j][0])
        yield {"line": line, "text": text}
    for i, text in itertools.product(FIXED, SHORT):
        yield {"line": "[1] %s, %s" % (TOKENS[i][0], text), "text": text}
        yield {"line": "[1] %s, %s" % (text, TOKENS[i][0]), "text": text}


def run_short(case):
    result = impl.refs(case["line"])
    if not any(case["text"] in value for ref in result for value in ref.get("misc", [])):
        raise Violation("%r is not in misc: %r" % (case["text"], result))
    return impl.canon([sorted(r) for r in result])


def quoted():
    """an element inside of quotation marks: part of the title or recognised"""
    marks = [('"', '"'), ("\u201c", "\u201d"), ("``", "''")]
    for (text, els), (left, right), before, after in itertools.product(TOKENS, marks, ["zebra on ", "zebra, ", ""], [" in quokka", ", quokka", ""]):
        if '"' in text or "\u201c" in text:
            continue
        for outer in ["%s", "%s, walrus", "ocelot, %s, walrus", "%s, Phys. Lett. B 19 (1999) 29", "%s, arXiv:1407.1234"]:
            line = "[1] " + outer % (left + before + text + after + right)
            yield {"line": line, "text": text, "inner": [list(e) for e in els if e[0] in ("reportnumber", "doi", "url", "hdl")]}


def run_quoted(case):
    result = impl.refs(case["line"])
    shown = [v for ref in result for k, vs in ref.items() if k != "raw_ref" for v in vs]
    words = [w for w in WORDS if w in case["line"]]
    for word in words:
        if sum(word in v for v in shown) < 1:
            raise Violation("%r is lost: %r" % (word, result))
    for key, value in case["inner"]:
        if not any(value in ref.get(key, []) for ref in result) and not any(case["text"] in v for v in shown):
            raise Violation("%s %r is lost: %r" % (key, value, result))
    if any("cds." in v for v in shown):
        raise Violation("a tag is left: %r" % (result,))
    return impl.canon([sorted(r) for r in result])


# elements whose recognition does not depend on their neighbours
FIXED = [
    i
    for i, (text, elements) in enumerate(TOKENS)
    if elements and elements[0][0] != "author" and text != "Phys. Rev. D10, 20"
]


def distinct(generate):
    """Leave out what is put together, or left alone, by design"""

    def filtered():
        for case in generate():
            names = [tuple(e) for e in case["elements"]]
            collaboration = any(key == "collaboration" for key, _ in names)
            if collaboration and (";" in case["line"] or len(set(names)) < len(names)):
                continue
            yield case

    return filtered


def spaces(tier):
    deep = tier == "thorough"
    every = range(len(TOKENS))
    yield ListSpace("one", cases(1, every, SEPS, True, False), run, rule="a word, an element, a word; with all separators", setup=impl.warm_small)
    yield ListSpace("two", cases(2, every, SEPS, True, False), run, rule="words between and around all pairs of elements")
    seps = [", ", "; "]
    yield ListSpace("elements1", distinct(cases(1, FIXED, seps, True, True)), run, rule="an element between words has the value it has alone")
    yield ListSpace("elements2", distinct(cases(2, FIXED, seps, True, True)), run, rule="pairs of elements between words")
    yield ListSpace("neighbours2", distinct(cases(2, FIXED, seps, False, True)), run, rule="pairs of adjacent elements")
    yield ListSpace("short", short, run_short, rule="text of a few characters beside elements")
    yield ListSpace("quoted", quoted, run_quoted, rule="an element inside of quotation marks")
    three = FIXED
    yield ListSpace("elements3", distinct(cases(3, three, seps, True, True)), run, rule="triples of elements between words")
    yield ListSpace("neighbours3", distinct(cases(3, three, seps, False, True)), run, rule="triples of adjacent elements")
    if deep:
        yield ListSpace("three", cases(3, [i for i in every if i % 2 == 0], SEPS[:4], True, False), run, rule="words between and around triples of elements")
        yield ListSpace("elements4", distinct(cases(4, FIXED[::3], seps, True, True)), run, rule="quadruples of elements between words")
