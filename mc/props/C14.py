"""DOIs are extracted exactly, in order."""

from mc import impl
from mc.core import Skip, Space, Violation

PROPERTY = "C14"
TITLE = "DOIs are extracted exactly, in order, one per reference"
STATEMENT = (
    "A DOI written in any usual notation (doi:, DOI, (doi), bare 10.NNNN/..., dx.doi.org or doi.org URL, with %2F for the slash) "
    "comes out as one doi value 'doi:10....' with exactly its characters, whatever precedes or follows it, and nothing of its notation is "
    "left in other fields. Several DOIs of a line come out all of them, in order, each in a reference of its own."
)
QUANT = (["inputs"], "every notation, identifier, context and number of DOIs")
WHY = "Tests contain a dozen DOIs; truncation or loss depends on the characters of the identifier and of its neighbours."
ANCHORS = {
    "files": ["refextract/references/regexs.py", "refextract/references/tag.py", "refextract/references/engine.py"],
    "mechanism": [
        {"name": "DOI regular expression", "where": "regexs.re_doi"},
        {"name": "tagging", "where": "tag.identify_and_tag_DOI"},
        {"name": "one reference per DOI", "where": "engine.split_citations"},
    ],
    "observe_at": ["refextract.extract_references_from_string"],
}
TECHNIQUE = "exhaustive enumeration of DOI notations and contexts on the real extractor against the written identifier"
NOTE = "All combinations of the listed notations, identifiers and contexts were run."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "one DOI: 12 notations x 16 identifiers x 10 left x 9 right contexts; two "
    "DOIs: 8 x 6 x 8 x 6 notations and identifiers x 6 separators; three DOIs: 3 notations x "
    "orders of 4 identifiers",
    "thorough": "two DOIs with all notations and 10 identifiers each; three DOIs with 8 notations",
}
ASSUMPTIONS = ["small knowledge bases (the notation of DOIs does not depend on them)"]

PREFIXES = [
    "doi:",
    "",
    "DOI:",
    "doi: ",
    "DOI ",
    "Doi:  ",
    "(doi)",
    "(DOI): ",
    "http://dx.doi.org/",
    "https://doi.org/",
    "http://doi.org/",
    "https://dx.doi.org/",
]
# written form -> extracted form
BODIES = [
    ("10.1103/PhysRevD.10.20", None),
    ("10.1016/0370-2693(88)91234-5", None),
    ("10.1000/ab", None),
    ("10.123/xyz_1", None),
    ("10.1234567/9-8", None),
    ("10.1000.10/456", None),
    ("10.1000.10.ab/4:5", None),
    ("10.1007/978-3-540-12345-6_7", None),
    ("10.1103%2fPhysRevLett.1.2", "10.1103/PhysRevLett.1.2"),
    ("10.1103%2FPhysRevLett.1.2", "10.1103/PhysRevLett.1.2"),
    ("10.1002/(SICI)1521-3951(199911)216:1<135::AID-PSSB135>3.0.CO;2-A", None),
    ("10.1088/1126-6708/2003/01/005", None),
    ("10.1140/epjc/s10052-004-1234-5", None),
    ("10.1000/UPPER.Case", None),
    ("10.5281/zenodo.1234567", None),
    ("10.1000/a..b", None),
]
LEFT = [
    "",
    "A. Author, ",
    "A. Author, Phys. Rev. D 10 (1990) 20, ",
    "some text ",
    '"A title", ',
    "arXiv:1203.1234, ",
    "http://foo.org/bar ",
    "(1999) ",
    "CERN-PH-EP-2012-123, ",
    "text,",
]
RIGHT = [
    "",
    ".",
    ", and more text",
    " [hep-th]",
    ", arXiv:1203.1234",
    " Phys. Lett. B 12 (1991) 34",
    ", http://foo.org/bar",
    ". B. Other",
    ", \"title\"",
]


def norm(body):
    written, value = body
    return "doi:" + (value or written)


def glued(line):
    """URLs broken after a full stop are repaired: what follows ". " after a URL
    is taken for its continuation, so this is not a way to end one."""
    return "http" in line and ". " in line[line.index("http") :]


def one(ch):
    prefix = ch.pick("notation", PREFIXES)
    body = ch.pick("doi", BODIES)
    left = ch.pick("left", LEFT)
    right = ch.pick("right", RIGHT)
    line = "[1] " + left + prefix + body[0] + right
    if glued(line):
        raise Skip
    return {"line": line, "dois": [norm(body)]}


def several(count, prefixes, bodies, seps):
    def scenario(ch):
        text, dois = "", []
        for idx in range(count):
            prefix = ch.pick("notation%d" % idx, prefixes)
            body = ch.pick("doi%d" % idx, bodies)
            if idx:
                sep = ch.pick("sep", seps) if idx == 1 else ", "
                if "http" in text and sep[0] not in ",;":
                    raise Skip  # see glued
                text += sep
            text += prefix + body[0]
            dois.append(norm(body))
        if glued(text):
            raise Skip
        return {"line": "[1] A. Author, " + text, "dois": dois}

    return scenario


def many(ch):
    count = ch.pick("count", [4, 5, 6, 8, 12])
    prefix = ch.pick("notation", PREFIXES)
    sep = ch.pick("sep", [", ", "; "])
    same = ch.pick("same", [False, True])
    values = ["10.1000/ab%d" % (0 if same else number) for number in range(count)]
    return {"line": "[1] A. Author, " + sep.join(prefix + value for value in values), "dois": ["doi:" + value for value in values]}


def run(case):
    result = impl.refs(case["line"])
    got = [doi for ref in result for doi in ref.get("doi", [])]
    if got != case["dois"]:
        raise Violation("DOIs %r instead of %r: %r" % (got, case["dois"], result))
    for ref in result:
        if len(ref.get("doi", [])) > 1:
            raise Violation("several DOIs in one reference: %r" % result)
        for key, values in ref.items():
            if key in ("doi", "raw_ref"):
                continue
            for value in values:
                low = value.lower()
                if "doi" in low or "10.1" in low or "%2f" in low:
                    raise Violation("DOI notation left in %s: %r" % (key, result))
    return impl.canon([sorted(r) for r in result])


def spaces(tier):
    deep = tier == "thorough"
    yield Space(
        "one",
        one,
        run,
        rule="every notation, identifier and context; the identifier must come out "
        "exactly, its notation must not be left elsewhere",
        setup=impl.warm_small,
    )
    seps = [", ", " ", "; ", " and ", ", text, ", ". "]
    yield Space(
        "two",
        several(2, PREFIXES if deep else PREFIXES[:2] + PREFIXES[5:10:2] + PREFIXES[10:], BODIES[:10] if deep else BODIES[:2] + BODIES[8:12], seps),
        run,
        rule="ordered pairs of DOIs come out in order, in separate references",
    )
    yield Space("many", many, run, rule="4 to 12 DOIs in a line")
    yield Space(
        "three",
        several(3, PREFIXES[:9:2] + PREFIXES[9:] if deep else PREFIXES[:9:4], BODIES[:3] + BODIES[8:9], [", "]),
        run,
        rule="ordered triples of DOIs",
    )
