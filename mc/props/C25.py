"""Author groups."""

from mc import impl
from mc.core import Skip, Space, Violation

PROPERTY = "C25"
TITLE = "Author groups are recognised as a whole in all usual notations"
STATEMENT = (
    "Authors at the beginning of a reference, written as initials and surname (with or without dots and spaces, hyphens, accents, apostrophes, surname prefixes), as surname and initials, or as surnames with 'et al.', any number of them joined by commas, 'and' or '&', "
    "are reported together, complete and unchanged, as the one author field of the reference, 'et al.' in its standard form, whatever element follows; that element is extracted as without the authors. "
    "A group marked as editors, before or after the names, is reported as '(names (eds.))'."
)
QUANT = (["inputs"], "every combination of author notations, separators, 'et al.' and editor notations, and following elements")
WHY = "The tests contain some 20 author groups; a change of one of the hundred parts of the regular expression shows in combinations of them only."
ANCHORS = {
    "files": ["refextract/authors/regexs.py", "refextract/references/tag.py", "refextract/references/engine.py"],
    "mechanism": [
        {"name": "author group expression", "where": "authors.regexs.make_auth_regex_str"},
        {"name": "tagging of the groups, standard et al. and editors", "where": "tag.identify_and_tag_authors"},
    ],
    "observe_at": ["refextract.extract_references_from_string"],
}
TECHNIQUE = "exhaustive enumeration of author groups x contexts on the real extractor, the notation being the model"
NOTE = "Names are combined from 12 kinds of initials and 30 surnames; the group is followed by each of 13 elements."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "single: 12 x 30 x 13; two: 8 names each x 5 separators x 10 'et al.' x 13; three: 3 names each; 2-20 authors; surnames with et al.; 20 editor notations",
    "thorough": "three: 5 names each; four: 3 names each",
}
ASSUMPTIONS = [
    "not claimed, by construction of the expression: surnames beginning with a word it excludes (Phys, Paper, Energy, ...), 't Hooft, groups separated by semicolons, 'Li ET AL.' (read as Li, E. T.)",
    "small knowledge bases",
]

INITIALS = ["A.", "A.B.", "A. B.", "A.-B.", "A. -B.", "A.B.C.", "A. B. C.", "A.B.C.D.E.", "\u00c9.", "\u0141. \u0160.", "A", "A B"]
SURNAMES = ["Smith", "Li", "Smith-Jones", "O'Neill", "O\u2019Neill", "van Smith", "de Smith", "Van Smith", "De Smith", "von Smith", "M\u00fcller", "\u0141ukasz", "McDonald", "D'Angelo", "\u0160irca", "SMITH", "Fran\u00e7ois", "Al-Khalili", "di Stefano", "la Rosa", "da Silva", "Edwards", "Anders", "Allen", "Etal", "Eddington", "Abcdefghijklmnopqrst", "\u00d6zg\u00fcr", "El Sayed", "G\u00f3mez", "Zel'dovich", "Gal\u2019tsov", "Vasil'ev", "Smith Jr.", "Mel'nikov'", "Smith-O'Neill"]
AFTER = [
    (", Phys. Rev. D 10 (1990) 20", {"journal_title": ["Phys.Rev."]}),
    (" Phys. Rev. D 10 (1990) 20", {"journal_title": ["Phys.Rev."]}),
    (", arXiv:1203.1234", {"reportnumber": ["arXiv:1203.1234"]}),
    (", hep-th/9711200", {"reportnumber": ["hep-th/9711200"]}),
    (", CERN-PH-EP-2012-123", {"reportnumber": ["CERN-PH-EP-2012-123"]}),
    (", doi:10.1000/ab", {"doi": ["doi:10.1000/ab"]}),
    (', "Quokka wombat"', {"title": ["Quokka wombat"]}),
    (", http://foo.org/bar", {"url": ["http://foo.org/bar"]}),
    (", quokka wombat", {"misc": ["quokka wombat"]}),
    (": Phys. Rev. D 10 (1990) 20", {"journal_title": ["Phys.Rev."], "misc": [":"]}),
    (" (1990)", {"year": ["1990"]}),
    (", 1990", {"year": ["1990"]}),
    (".", {}),
]


def initial_name(ch, i, initials=INITIALS, surnames=SURNAMES):
    return ch.pick("initials%d" % i, initials) + " " + ch.pick("surname%d" % i, surnames)


def single(ch):
    name = initial_name(ch, 0)
    after, want = ch.pick("after", AFTER)
    return {"authors": name, "after": after, "want": want}


NAMES = ["A. Smith", "B. C. van Jones", "D.-E. M\u00fcller-Brown", "F.G. O'Neill", "H I Li"]
REVERSED = ["Smith, A.", "Jones B. C.", "van Brown, D.-E.", "Ruiz-Altaba, M.", "Gal'tsov D.V."]
SEPARATORS = [", ", " and ", ", and ", " & ", " , "]
ETAL = ["", " et al.", ", et al.", " et al", " et. al.", " ET AL.", " et.al.", ", et al.,", " et al.,", " et, al."]


def group(size, names, last=SEPARATORS):
    def scenario(ch):
        text = ch.pick("name0", names)
        for i in range(1, size):
            sep = ch.pick("sep%d" % i, SEPARATORS[:1] if i < size - 1 else last)
            text += sep + ch.pick("name%d" % i, names)
        etal = ch.pick("etal", ETAL)
        if etal == " ET AL." and text.endswith("Li"):
            raise Skip
        after, want = ch.pick("after", AFTER)
        expected = text.replace(" ,", ",")
        if etal:
            expected += (", " if etal[0] == "," else " ") + "et al."
            if etal.endswith(",") or etal.endswith("."):
                after = after.lstrip(",.")
        return {"authors": text + etal, "expected": expected, "after": after, "want": want}

    return scenario


def surnames(ch):
    text = ch.pick("surname", ["Smith", "McDonald", "Smith-Jones", "D'Angelo", "Brown, A.", "Fran\u00e7ois"])
    text += ch.pick("second", ["", " and Jones", " & Jones", " and Brown-Jones"])
    etal = ch.pick("etal", ETAL[1:])
    after, want = ch.pick("after", AFTER)
    expected = text + (", " if etal[0] == "," else " ") + "et al."
    if etal.endswith(",") or etal.endswith("."):
        after = after.lstrip(",.")
    return {"authors": text + etal, "expected": expected, "after": after, "want": want}


BEFORE = ["eds. ", "ed. ", "Eds. ", "Ed. ", "edited by ", "Edited by ", "ed. by ", "Eds. by: ", "(eds.) ", "(ed.) ", "(Eds) ", "editors ", "Editor ", "Editors. ", "ED. ", "(EDs.) ", "Ed ", "ed by "]
BEHIND = [" (eds.)", ", eds.", " (Eds.)", ", editors", " (Editors)", ", Eds.,", " (eds)", ", Editors.", " eds.", " (editors.),"]


def editors(ch):
    names = ch.pick("name0", NAMES[:3])
    if ch.pick("two", [False, True]):
        names += ch.pick("sep", SEPARATORS[:4]) + ch.pick("name1", NAMES[1:4])
    etal = ch.pick("etal", ["", " et al.", " et al"])
    before = ch.pick("before", [""] + BEFORE)
    behind = ch.pick("behind", BEHIND) if not before else ""
    after, want = ch.pick("after", AFTER)
    if etal == " et al." and not behind:
        after = after.lstrip(",.")
    return {"authors": before + names + etal + behind, "expected": "(%s (eds.))" % (names + (" et al." if etal else "")), "after": after, "want": want}


def run(case):
    line = "[1] " + case["authors"] + case["after"]
    result = impl.refs(line)
    expected = case.get("expected", case["authors"])
    if len(result) != 1:
        raise Violation("%d references: %r" % (len(result), result))
    ref = result[0]
    if ref.get("author") != [expected]:
        raise Violation("author %r instead of %r: %r" % (ref.get("author"), expected, ref))
    for k, v in case["want"].items():
        if ref.get(k) != v:
            raise Violation("%s %r instead of %r: %r" % (k, ref.get(k), v, ref))
    if "misc" not in case["want"] and ref.get("misc"):
        raise Violation("misc %r: %r" % (ref["misc"], ref))
    return "ok"


def many(ch):
    count = ch.pick("count", range(2, 21))
    shape = ch.pick("shape", ["%s. Smith", "%s. M. van Jones", "%s.-A. O'Neill", "Smith, %s.", "Brown %s. B."])
    names = [shape % chr(65 + i) for i in range(count)]
    text = ", ".join(names[:-1]) + ch.pick("sep", SEPARATORS) + names[-1]
    etal = ch.pick("etal", ["", " et al.", ", et al"])
    after, want = ch.pick("after", AFTER)
    expected = text.replace(" ,", ",")
    if etal:
        expected += etal if etal.endswith(".") else etal + "."
        if etal.endswith("."):
            after = after.lstrip(",.")
    return {"authors": text + etal, "expected": expected, "after": after, "want": want}


def spaces(tier):
    yield Space("single", single, run, rule="one author in every notation", setup=impl.warm_small)
    yield Space("two", group(2, NAMES + REVERSED), run, rule="two authors")
    yield Space("surnames", surnames, run, rule="surnames and et al.")
    yield Space("editors", editors, run, rule="editors")
    yield Space("many", many, run, rule="2 to 20 authors")
    yield Space("three", group(3, NAMES if tier == "thorough" else NAMES[:3], SEPARATORS[:3]), run, rule="three authors")
    if tier == "thorough":
        yield Space("four", group(4, NAMES[:3]), run, rule="four authors")
