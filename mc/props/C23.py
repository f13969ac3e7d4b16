"""Linking references to records with a callback."""

import itertools

from mc import impl
from mc.core import Skip, Space, Violation
from mc.props import C20

PROPERTY = "C23"
TITLE = "The linker callback gives each reference its own record id and nothing else"
STATEMENT = (
    "The linker callback is called with every element found, in its final form (also ibids, books and the elements after a semicolon); a reference gets as record id what the callback returned for the first of its own elements, in line order, with a result. "
    "A callback that returns nothing or raises KeyError or IndexError for an element leaves it unlinked, other exceptions reach the caller of the extraction. "
    "Apart from the record ids, the references are the ones extracted without a callback."
)
QUANT = (["inputs"], "every combination of papers in a line, of elements that can be linked and of outcomes for those that can not")
WHY = "No test passes a linker callback at all."
ANCHORS = {
    "files": ["refextract/references/engine.py", "refextract/references/record.py", "refextract/references/api.py"],
    "mechanism": [
        {"name": "callback on every element, before and after splitting", "where": "engine.associate_recids, parse_reference_line"},
        {"name": "record id of a reference", "where": "engine.add_recid_elements, record.build_reference_fields"},
    ],
    "observe_at": ["refextract.extract_references_from_string", "refextract.extract_references_from_file"],
}
TECHNIQUE = "exhaustive enumeration of lines x callback outcomes on the real extractor against the first-linked-element model"
NOTE = "Every subset of elements is made linkable; the callback is the fault injector, its outcomes for the other elements are enumerated."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "lines of 1 and 2 papers of up to 4 elements, all subsets of linkable elements, 5 outcomes for the others; ibids, implied ibids and books; two lines; elements that change between calls; string and file",
    "thorough": "lines of 3 papers",
}
ASSUMPTIONS = ["small knowledge bases"]


class Unexpected(Exception):
    pass


OUTCOMES = ["none", "empty", "zero", "KeyError", "IndexError"]
IDS = ["J", "R", "E", "D", "U", "A", "I", "B", "Q", "P", "C"]


def key(element):
    """What identifies an element for the callback"""
    kind = element["type"]
    if kind == "JOURNAL":
        return "%(title)s %(volume)s %(page)s" % element
    for name, field in (("REPORTNUMBER", "report_num"), ("DOI", "doi_string"), ("URL", "url_string"), ("AUTH", "auth_txt"), ("BOOK", "title"), ("QUOTED", "title"), ("ISBN", "ISBN"), ("PUBLISHER", "publisher"), ("COLLABORATION", "collaboration")):
        if kind == name:
            return element[field]
    return None


def text_key(kind, number):
    """The key of the number-th paper's element of this kind"""
    return {
        "J": "Phys.Rev. D1%d 2%d",
        "E": "arXiv:1203.123%d",
        "R": "CERN-PH-EP-2012-12%d",
        "D": "10.1000/ab%d",
        "U": "http://foo.org/bar%d",
    }[kind] % ((number, number) if kind == "J" else (number,))


def callback(links, outcome, calls=None):
    def linker(element):
        if calls is not None:
            calls.append(key(element))
        found = links.get(key(element))
        if found is not None:
            return found
        if outcome == "KeyError":
            raise KeyError("no")
        if outcome == "IndexError":
            raise IndexError("no")
        if outcome == "error":
            raise Unexpected("no")
        return {"none": None, "empty": "", "zero": 0}[outcome]

    return linker


PAPERS = ["J", "E", "D", "JE", "EJ", "RJD", "JERU", "DE"]


def papers(count, separator, kinds_list):
    def scenario(ch):
        texts, links, want = [], {}, []
        for number in range(count):
            kinds = ch.pick("paper%d" % number, kinds_list)
            if separator == ", " and number and (kinds[0] not in previous or kinds[0] == "R"):
                raise Skip
            previous = kinds
            texts.append(", ".join(C20.element(k, number)[0] for k in kinds))
            first = None
            for index, kind in enumerate(kinds):
                if ch.pick("link%d.%d" % (number, index), [False, True]):
                    recid = 100 * (number + 1) + index
                    links[text_key(kind, number)] = recid
                    first = first or str(recid)
            want.append(first)
        return {"line": "[7] " + separator.join(texts), "links": links, "want": want, "outcome": ch.pick("outcome", OUTCOMES)}

    return scenario


# line, keys of the elements of each of its references
SPECIAL = [
    ("[1] Phys. Rev. D 10 (1990) 20, ibid. D 11 (1991) 21", [["Phys.Rev. D10 20"], ["Phys.Rev. D11 21"]]),
    ("[1] Phys. Rev. D 10 (1990) 20; 11 (1991) 21", [["Phys.Rev. D10 20"], ["Phys.Rev. D11 21"]]),
    ('[1] "Introduction to elementary particles", Springer', [["Introduction to elementary particles", "Springer"]]),
    ("[1] Griffiths, Introduction to elementary particles, 2008", [["Introduction to elementary particles"]]),
    ("[1] A. Smith, CERN-PH-EP-2012-120; Phys. Rev. D 10 (1990) 20", [["A. Smith", "CERN-PH-EP-2012-120"], ["A. Smith", "Phys.Rev. D10 20"]]),
    ("[1] A. Smith, arXiv:1203.1230, B. Jones, arXiv:1203.1231", [["A. Smith", "arXiv:1203.1230"], ["B. Jones", "arXiv:1203.1231"]]),
    ("[1] ATLAS Collaboration, hep-th/9912345", [["ATLAS Collaboration", "hep-th/9912345"]]),
    ("[1] ISBN 978-3-16-148410-0; doi:10.1000/ab", [["978-3-16-148410-0"], ["10.1000/ab"]]),
    ("[1] http://arxiv.org/abs/1203.1234, quokka", [["arXiv:1203.1234"]]),
    ("[1] JHEP 03 (2003) 012\n[2] Nucl. Phys. B 123, 456 (1985); quokka\n[3] wombat, doi:10.1000/ab", [["JHEP 0303 012"], ["Nucl.Phys. B123 456"], [], ["10.1000/ab"]]),
    ("[1] quokka wombat", [[]]),
]


def special(ch):
    line, refs = ch.pick("line", SPECIAL)
    names = []
    for ref in refs:
        names += [name for name in ref if name not in names]
    links = {name: 11 + i for i, name in enumerate(names) if ch.pick("link%d" % i, [False, True])}
    want = []
    for ref in refs:
        found = [str(links[name]) for name in ref if name in links]
        want.append(found[0] if found else None)
    return {"line": line, "links": links, "want": want, "outcome": ch.pick("outcome", OUTCOMES), "keys": names}


def without(ref):
    return {k: v for k, v in ref.items() if k != "recid"}


def run(case):
    calls = []
    linker = callback(case["links"], case["outcome"], calls)
    result = impl.refs(case["line"], linker_callback=linker)
    plain = impl.refs(case["line"])
    if [without(r) for r in result] != plain:
        raise Violation("the callback changes the references: %r instead of %r" % (result, plain))
    got = [r.get("recid") for r in result]
    if got != [w and [w] for w in case["want"]]:
        raise Violation("record ids %r instead of %r: %r" % (got, case["want"], result))
    for name in list(case["links"]) + case.get("keys", []):
        if name not in calls:
            raise Violation("callback not called with %r: %r" % (name, calls))
    return impl.canon(got)


def errors(ch):
    line, refs = ch.pick("line", SPECIAL)
    names = [n for r in refs for n in r]
    return {"line": line, "links": {n: 5 for n in names if ch.pick("link " + n, [False, True])}}


def run_error(case):
    """An unexpected error of the callback is not hidden"""
    raised = []

    def linker(element):
        if key(element) in case["links"]:
            return 5
        raised.append(element)
        raise Unexpected("no")

    try:
        result = impl.refs(case["line"], linker_callback=linker)
    except Unexpected:
        return "raised"
    if raised:
        raise Violation("error of the callback hidden: %r" % (result,))
    return "ok"


CHANGED = [
    "[1] quokka 1990 wombat",
    "[1] Phys. Rev. D 10 (1990) 20; 11 (1991) 21 wombat",
    "[1] A. Smith, quokka 1992; B. Jones, wombat (1993)",
    "[1] Griffiths, Introduction to elementary particles, 2008",
    "[1] J. Doe, zebra; ATLAS Collaboration, walrus 2001, arXiv:1203.1234",
    "[1] A. Smith, ocelot, Phys. Rev. D 10 (1990) 20; C. Brown, badger 1999, hep-th/9912345; 12 (1992) 22",
]


def changed(ch):
    return {"line": ch.pick("line", CHANGED), "outcome": ch.pick("outcome", OUTCOMES), "only": ch.pick("only", [None] + list(range(6)))}


def shape(element):
    return impl.canon({k: v for k, v in element.items() if k != "recid"})


def run_changed(case):
    """Only what the callback says of an element in its final form counts"""
    calls = []
    impl.refs(case["line"], linker_callback=lambda element: calls.append((element, shape(element))))
    final = {id(element): text for element, text in calls}
    early = sorted({text for element, text in calls} - set(final.values()))
    if case["only"] is not None:
        if case["only"] >= len(early):
            return "fewer"
        early = [early[case["only"]]]

    def linker(element):
        if shape(element) in early:
            return 7
        return callback({}, case["outcome"])(element)

    result = impl.refs(case["line"], linker_callback=linker)
    if any("recid" in r for r in result):
        raise Violation("a record id for an element the callback does not know in its final form: %r" % (result,))
    return "ok"


def in_file(ch):
    case = special(ch)
    last = case["line"].count("\n") + 1
    case["line"] = "Some text\n\nReferences\n" + case["line"] + "\n" + "[%d] Phys. Lett. B 18 (1998) 28\n[%d] Phys. Lett. B 19 (1999) 29\n" % (last + 1, last + 2)
    return case


def run_file(case):
    from refextract import extract_references_from_file

    with impl.scratch() as directory:
        path = impl.write(directory + "/paper.txt", case["line"])
        result = extract_references_from_file(path, override_kbs_files=impl.SMALL, linker_callback=callback(case["links"], case["outcome"]))
        plain = extract_references_from_file(path, override_kbs_files=impl.SMALL)
    if [without(r) for r in result] != plain:
        raise Violation("the callback changes the references: %r instead of %r" % (result, plain))
    got = [r.get("recid") for r in result]
    if got != [w and [w] for w in case["want"]] + [None, None]:
        raise Violation("record ids %r instead of %r: %r" % (got, case["want"], result))
    return impl.canon(got)


def spaces(tier):
    deep = tier == "thorough"
    yield Space("one paper", papers(1, "; ", PAPERS), run, rule="one paper", setup=impl.warm_small)
    yield Space("semicolon", papers(2, "; ", PAPERS), run, rule="two papers separated by a semicolon")
    yield Space("repeated", papers(2, ", ", PAPERS), run, rule="two papers, the second one starting with a repeated field")
    yield Space("special", special, run, rule="ibids, books, shared authors, several lines")
    yield Space("errors", errors, run_error, rule="unexpected errors of the callback")
    yield Space("changed", changed, run_changed, rule="elements that change after the callback was called")
    yield Space("file", in_file, run_file, rule="references of a file")
    if deep:
        yield Space("three", papers(3, "; ", PAPERS[:5]), run, rule="three papers")
