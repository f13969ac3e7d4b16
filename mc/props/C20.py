"""Several papers in one reference line."""

import itertools

from mc import impl
from mc.core import ListSpace, Skip, Space, Violation

PROPERTY = "C20"
TITLE = "A line citing several papers gives one reference per paper, with its authors"
STATEMENT = (
    "A line with several papers separated by semicolons gives one reference per paper, in order, with exactly the elements (authors, collaborations, journal reference, eprint, report numbers, DOI, URL, ISBN, text) written for that paper. "
    "Text with semicolons between two papers belongs to the second one, collaborations named one after the other to the same one. Without semicolons, a journal reference, eprint, DOI, URL or ISBN of a kind that the current paper already has starts the next paper (a further report number does not). "
    "A paper without authors takes over the authors of the paper before it in the line; authors written between two papers, the first of which has authors, belong to the second one; the line marker and the raw text are those of the line in each of the references."
)
QUANT = (["inputs"], "every sequence of papers, their elements and separators within the bounds")
WHY = "Tests have about ten lines with two papers; which reference an element or author ends up in depends on the whole sequence before it."
ANCHORS = {
    "files": ["refextract/references/engine.py", "refextract/references/record.py"],
    "mechanism": [
        {"name": "splitting at semicolons and repeated fields", "where": "engine.split_citations_iter, split_needed"},
        {"name": "authors taken over or moved to the next paper", "where": "engine.postpone_last_auth"},
        {"name": "line marker and raw text of each part", "where": "record.build_references"},
    ],
    "observe_at": ["refextract.extract_references_from_string"],
}
TECHNIQUE = "exhaustive enumeration of sequences of papers on the real extractor against the written sequence"
NOTE = "The oracle is the list of papers the line was made of; all sequences within the bounds are executed."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "semicolons: all pairs of 60 papers (30 element sequences with and without authors) with a semicolon with and without a blank, all triples of 16; repeated fields: all sequences of 2 and 3 papers starting with a field which the one before has, with all author placements, with and without authors at the end; three papers with up to 3 pieces of text in front; two papers with one or two collaborations each; 4 to 9 papers of 12 makes x 4 author placements",
    "thorough": "triples of 60 papers, repeated fields in sequences of 4 papers",
}
ASSUMPTIONS = ["small knowledge bases"]

FIELDS = ["author", "journal_reference", "reportnumber", "doi", "url", "isbn", "collaboration", "misc"]
ISBNS = ["ISBN 978-3-16-148410-0", "ISBN 0-387-97245-5", "ISBN 978-0-521-67053-1", "ISBN 0-201-50397-2", "ISBN 978-3-16-148411-7", "ISBN 0-521-67053-5", "ISBN 978-0-387-97245-9", "ISBN 0-19-850684-6", "ISBN 0-471-88702-1"]
COLLABORATIONS = ["ATLAS Collaboration", "CMS Collaboration", "ATLAS Collaboration", "CMS Collaboration"] * 3
AUTHORS = ["A. Smith", "B. Jones and C. Black", "D. White et al.", "E. Green", "F. Brown", "G. Gray and H. Ford", "I. Hill", "J. Lake et al.", "K. Wood"]


WORDS = ["quokka", "wombat", "zebra", "ocelot", "dingo", "numbat", "lemur", "tapir", "okapi"]


def element(kind, number):
    """Text and (field, value) of an element of the number-th paper"""
    n = number
    return {
        "J": ("Phys. Rev. D 1%d (199%d) 2%d" % (n, n, n), ("journal_reference", "Phys.Rev. D1%d (199%d) 2%d" % (n, n, n))),
        "E": ("arXiv:1203.123%d" % n, ("reportnumber", "arXiv:1203.123%d" % n)),
        "R": ("CERN-PH-EP-2012-12%d" % n, ("reportnumber", "CERN-PH-EP-2012-12%d" % n)),
        "D": ("doi:10.1000/ab%d" % n, ("doi", "doi:10.1000/ab%d" % n)),
        "U": ("http://foo.org/bar%d" % n, ("url", "http://foo.org/bar%d" % n)),
        "I": (ISBNS[n], ("isbn", ISBNS[n][5:])),
        "C": (COLLABORATIONS[n], ("collaboration", COLLABORATIONS[n])),
        "T": (WORDS[n], ("misc", WORDS[n])),
    }[kind]


def paper(kinds, author, number):
    texts, fields = [], []
    if author:
        texts.append(AUTHORS[number])
        fields.append(("author", AUTHORS[number]))
    for kind in kinds:
        text, field = element(kind, number)
        texts.append(text)
        fields.append(field)
    return texts, fields


# orders of elements within a paper
PAPERS = ["J", "E", "R", "D", "U", "JE", "JR", "JD", "EJ", "RJ", "JED", "JERD", "JEU", "TJ", "TJE", "TE", "TRE", "DJ", "JT", "ET", "RE", "JRE", "ED", "UJ", "I", "JI", "TI", "CJ", "CE", "IE"]


def semicolons(count, papers, sep=", "):
    def scenario(ch):
        texts, want, author = [], [], []
        semicolon = ch.pick("semicolon", ["; ", ";"])
        for number in range(count):
            kinds = ch.pick("paper%d" % number, papers)
            mine = ch.pick("author%d" % number, [True, False])
            if semicolon == ";" and number and mine:
                raise Skip  # authors start after a blank
            if "T" in kinds[1:] and sep != ", ":
                raise Skip
            parts, fields = paper(kinds, mine, number)
            texts.append(sep.join(parts))
            if mine:
                author = [f for f in fields if f[0] == "author"]
            else:
                fields = author + fields
            want.append(fields)
            if semicolon == ";" and number < count - 1 and kinds[-1] in "DU":
                raise Skip  # a semicolon can be part of a DOI or URL
        return {"line": "[7] " + semicolon.join(texts), "want": want}

    return scenario


def repeated(count, firsts, rests):
    """Papers that start with a field which the previous one has"""

    def scenario(ch):
        texts, want, author, previous = [], [], [], ""
        for number in range(count):
            first = ch.pick("first%d" % number, firsts)
            kinds = first + ch.pick("rest%d" % number, rests)
            if len(set(kinds)) < len(kinds) or (number and first not in previous):
                raise Skip
            mine = ch.pick("author%d" % number, [True, False])
            if mine and number and not author:
                raise Skip  # authors after a paper without any are shared
            parts, fields = paper(kinds, mine, number)
            texts += parts
            if mine:
                author = [f for f in fields if f[0] == "author"]
            else:
                fields = author + fields
            want.append(fields)
            previous = kinds
        end = ch.pick("authors at the end", [[], ["F. Brown"], ["F. Brown", "quokka"], ["F. Brown et al"]]) if author else []
        if end:  # the last paper has authors already
            texts.append(", ".join(end) + ".")
            want[-1] = want[-1] + [("misc", text) for text in end]
        return {"line": "[7] " + ", ".join(texts), "want": want}

    return scenario


def pieces(ch):
    """Text with semicolons between the papers belongs to the second one"""
    texts, want, author = [], [], []
    for number in range(3):
        words = ch.pick("text%d" % number, [[], ["zebra"], ["quokka", "wombat"], ["quokka", "wombat dingo", "ocelot"]] if number else [[], ["zebra"]])
        mine = not words and ch.pick("author%d" % number, [True, False])
        parts, fields = paper(ch.pick("paper%d" % number, ["J", "E", "RE", "DJ", "U", "CJ"]), mine, number)
        text = ", ".join(parts)
        if words:
            text = "; ".join(words) + ch.pick("after%d" % number, ["; ", ", "] if number else [", "]) + text
        texts.append(text)
        if mine:
            author = [f for f in fields if f[0] == "author"]
        else:
            fields = author + fields
        want.append([f for f in fields if f[0] != "misc"] + [("words", " ".join(words))])
    return {"line": "[7] " + "; ".join(texts), "want": want, "words": True}


def many(ch):
    """Up to nine papers of the same make"""
    texts, want, author = [], [], []
    count = ch.pick("papers", [4, 5, 6, 7, 8, 9])
    kinds = ch.pick("elements", ["J", "E", "D", "U", "I", "JE", "RJ", "JD", "TJ", "TE", "CJ", "DJ"])
    sep = ch.pick("separator", ["; ", ", "])
    authors = ch.pick("authors", ["none", "first", "all", "every second"])
    for number in range(count):
        mine = {"none": False, "first": number == 0, "all": True, "every second": number % 2 == 0}[authors]
        if sep == ", " and (kinds[0] in "TC" or kinds == "RJ"):
            raise Skip
        parts, fields = paper(kinds, mine, number)
        texts.append(", ".join(parts))
        if mine:
            author = [f for f in fields if f[0] == "author"]
        else:
            fields = author + fields
        want.append(fields)
    return {"line": "[7] " + sep.join(texts), "want": want}


def collaborations(ch):
    """Collaborations next to each other sign the same paper"""
    texts, want = [], []
    for number in range(2):
        names = ch.pick("collaborations%d" % number, [["ATLAS"], ["CMS"], ["ATLAS", "CMS"], ["CMS", "ATLAS"]])
        names = [n + " Collaboration" for n in names]
        parts, fields = paper(ch.pick("paper%d" % number, ["J", "JE", "TJ", "E", "D", "EJ"]), False, number)
        texts.append(ch.pick("and%d" % number, [", ", " and "]).join(names) + ", " + ", ".join(parts))
        want.append(fields + [("collaboration", n) for n in names])
    return {"line": "[7] " + "; ".join(texts), "want": want}


def run(case):
    result = impl.refs(case["line"])
    got = [sorted((f, v) for f in FIELDS for v in ref.get(f, [])) for ref in result]
    want = [sorted(tuple(f) for f in fields) for fields in case["want"]]
    if case.get("words"):
        got = [sorted([(f, v) for f, v in fields if f != "misc"] + [("words", " ".join(w.strip(";,. ") for f, v in fields if f == "misc" for w in v.split() if w.strip(";,. ")))]) for fields in got]
    if got != want:
        raise Violation("%r instead of %r" % (got, want))
    for ref in result:
        if ref.get("linemarker") != ["7"] or ref["raw_ref"] != [case["line"]]:
            raise Violation("line marker or raw text differ: %r" % (ref,))
    return impl.canon([sorted(r) for r in result])


def spaces(tier):
    deep = tier == "thorough"
    yield Space("semicolon2", semicolons(2, PAPERS), run, rule="two papers separated by a semicolon", setup=impl.warm_small)
    yield Space("semicolon3", semicolons(3, PAPERS if deep else PAPERS[:12:2] + ["TJE", "RE"]), run, rule="three papers separated by semicolons")
    yield Space("repeated2", repeated(2, "JEDUI", ["", "J", "E", "D", "R", "JE", "ED", "RE"]), run, rule="a repeated field starts a paper")
    yield Space("repeated3", repeated(3, "JEDUI", ["", "J", "E", "D", "R"]), run, rule="repeated fields start papers")
    yield Space("pieces", pieces, run, rule="text with semicolons between the papers")
    yield Space("many", many, run, rule="4 to 9 papers")
    yield Space("collaborations", collaborations, run, rule="several collaborations of a paper")
    if deep:
        yield Space("repeated4", repeated(4, "JEDU", ["", "J", "E", "R"]), run, rule="repeated fields start papers")
