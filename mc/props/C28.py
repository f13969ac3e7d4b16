"""Knowledge bases given by the caller."""

import itertools
import os
import re

from mc import impl
from mc.core import ListSpace, Violation

PROPERTY = "C28"
TITLE = "Own knowledge bases mean the same as file, list or mapping, in any order"
STATEMENT = (
    "A knowledge base passed with override_kbs_files has the same effect as a file in the documented format (with or without "
    "comment lines, blanks around the terms, CRLF line ends, a final newline), as a list, as a tuple or (where it consists of pairs) as "
    "a mapping, whatever the order of its entries. It replaces the shipped knowledge base of its kind and of no other, and "
    "kinds not passed, or passed empty, are the shipped ones. The arguments are not modified."
)
QUANT = (["inputs"], "every kind, representation, order of entries and set of kinds overridden")
WHY = "Tests override one kind at a time in one representation; a loader that depends on order or representation shows only with others."
ANCHORS = {
    "files": ["refextract/references/kbs.py", "refextract/references/config.py"],
    "mechanism": [
        {"name": "loaders by kind and representation", "where": "kbs.load_kb_by_type, kbs.load_kb, kbs.file_resolving"},
        {"name": "cache keyed by the inputs", "where": "kbs.get_kbs"},
        {"name": "longest titles first", "where": "kbs.build_journals_kb"},
    ],
    "observe_at": ["refextract.extract_references_from_string", "refextract.extract_journal_reference"],
}
TECHNIQUE = "exhaustive enumeration of representations, entry orders and sets of overridden kinds on the real extractor; all must agree"
NOTE = "The oracle is the expected value written beside each probe line, and for subsets whether its own kind is overridden."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "8 kinds x 12 file layouts, list, tuple, mapping; all orders of 4 entries per kind; all 256 sets of overridden kinds x 16 probes; 4 empty values per kind; 13 numbering schemes alone and in ordered pairs",
    "thorough": "all orders of 5 entries; all sets x 3 representations",
}
ASSUMPTIONS = ["sequences of calls with different knowledge bases are decided by C01", "entries of one kind that overlap in the same text (equal length, different titles) are not used"]

J = "journal_title"
# kind: entries, probes (text, field, value with these entries)
KINDS = {
    "journals": (
        [("ZEBRA RES", "Zebra Res."), ("ZEBRA RES LETT", "Zebra Res.Lett."), ("J ZOO", "J.Zoo;B"), ("ACTA OCELOT", "Acta Oc."), ("ZEBRA RES LETT SUPPL", "Zebra Suppl."), ("ANN ZEBRA", "Zebra Res.")],
        [("Ann. Zebra 10 (1990) 20", J, "Zebra Res."), ("Zebra Res. 10 (1990) 20", J, "Zebra Res."), ("Zebra Res. Lett. 10 (1990) 20", J, "Zebra Res.Lett."), ("Zebra Res. Lett. Suppl. 10 (1990) 20", J, "Zebra Suppl."),
         ("J. Zoo 10 (1990) 20", J, "J.Zoo"), ("Acta Ocelot 10 (1990) 20", J, "Acta Oc.")],
    ),
    "journals_re": (
        [r"ZX\d---Zeitschr.X", "QUOKKAJ---Quokka J.", "WALRUS---Walrus Rep.", "BADG---Badger Bull.", "EMUS---Emu Stud."],
        [("ZX7 10 (1990) 20", J, "Zeitschr.X"), ("QUOKKAJ 10 (1990) 20", J, "Quokka J."), ("WALRUS 10 (1990) 20", J, "Walrus Rep."), ("BADG 10 (1990) 20", J, "Badger Bull.")],
    ),
    "report-numbers": (
        ["*****ZOO*****", "<s9999>", "< 99 999>", "ZOO TN---ZOO-TN", "ZOO PUB---ZOO-PUB"],
        [("ZOO-TN-1234", "reportnumber", "ZOO-TN-1234"), ("ZOO-PUB-12-345", "reportnumber", "ZOO-PUB-12-345"), ("ZOO PUB 1234", "reportnumber", "ZOO-PUB-1234")],
    ),
    "authors": (
        ["Mu\u0308ller---M\u00fcller", "Go\u0308tz---G\u00f6tz", "Zi\u0308zz---Z\u00efzz", "La\u0308rs---L\u00e4rs", "No\u0308rd---N\u00f6rd", "\u0192---F"],
        [("A. Go\u0308tz, zebra", "author", "A. G\u00f6tz"), ("A. Mu\u0308ller, zebra", "author", "A. M\u00fcller"), ("A. \u0192arrow, zebra", "author", "A. Farrow")],
    ),
    "books": (
        [("Zoo, A.", "On the zebra", "1977"), ("Zoo, B.", "On the ocelot", "1988;"), ("Zoo, C.", "On the emu", "1999"), ("Zoo, D.", "On the zebra and the emu", "2001"), ("Zoo, E.", "Yaks", "2002")],
        [('"On the zebra"', "year", "1977"), ('"On the ocelot"', "year", "1988"), ('"On the emu"', "year", "1999"), ('"On the zebra and the emu"', "year", "2001")],
    ),
    "publishers": (
        [("ZEBRA PRESS", "Zebra Pr."), ("OCELOT AND SONS", "Ocelot"), ("EMU BOOKS", "Emu"), ("YAK", "Yak Publ."), ("QUOLL", "Quoll"), ("EMU AND EMU", "Emu")],
        [("walrus, Emu and Emu", "publisher", "Emu"), ("walrus, Zebra Press", "publisher", "Zebra Pr."), ("walrus, Ocelot and Sons", "publisher", "Ocelot"), ("walrus, EMU BOOKS", "publisher", "Emu"), ("walrus, Yak", "publisher", "Yak Publ.")],
    ),
    "special_journals": (
        ["Phys.Rev.", "JCAP", "Zebra", "Ocelot", "Emu"],
        [("Phys. Rev. 3 (1990) 20", "journal_volume", "9003"), ("JHEP 3 (1990) 20", "journal_volume", "3")],
    ),
    "collaborations": (
        [("ZEBRA Collaboration", "ZEBRA"), ("OCELOT-2 Collaboration", "OCELOT-2"), ("EMU", "EMU"), ("YAKS Collaboration", "YAKS"), ("Quoll Gang", "QUOLL"), ("Zebra Team", "ZEBRA")],
        [("Zebra Team, walrus", "collaboration", "Zebra Team"), ("ZEBRA Collaboration, walrus", "collaboration", "ZEBRA Collaboration"), ("OCELOT-2 Collaboration, walrus", "collaboration", "OCELOT-2 Collaboration"),
         ("Quoll Gang, walrus", "collaboration", "Quoll Gang")],
    ),
}
PAIRS = ["journals", "publishers", "collaborations"]


def as_lines(kind, entries):
    if kind == "books":
        return ["|".join(e).rstrip(";") + ";" for e in entries]
    return [e if isinstance(e, str) else "%s---%s" % e for e in entries]


def layouts(kind, lines):
    """contents of a file"""
    yield "plain", "\n".join(lines) + "\n"
    yield "no final newline", "\n".join(lines)
    yield "CRLF", "\r\n".join(lines) + "\r\n"
    if kind != "books":
        yield "comments", "# a comment --- x\n" + "\n#another\n".join(lines) + "\n# end"
    if kind in ("report-numbers", "special_journals"):
        yield "blank lines", "\n" + "\n\n".join(lines) + "\n\n"
    spaced = [l.replace("---", "   ---   ") for l in lines]
    if spaced != lines:
        yield "blanks around", "\n".join(spaced) + "\n"
        yield "blanks around, CRLF", "\r\n".join(spaced) + "\r\n"
        yield "blanks before", "\n".join(l.replace("---", "  ---") for l in lines) + "\n"
    if kind not in ("books", "report-numbers"):
        yield "blanks at the ends", "\n".join(" " + l + "  " for l in lines) + "\n"


def representations(kind, entries):
    lines = as_lines(kind, entries)
    for name, content in layouts(kind, lines):
        yield "file, " + name, ("file", content)
    yield "list", ("list", entries)
    yield "tuple", ("tuple", entries)
    if kind in PAIRS:
        yield "mapping", ("dict", entries)
        yield "list of lists", ("lists", entries)


def materialise(form, content, directory, name):
    if form == "file":
        return impl.write(os.path.join(directory, name + ".kb"), content.encode("utf-8"))
    entries = [tuple(e) if isinstance(e, list) else e for e in content]
    if form == "dict":
        return dict(entries)
    if form == "tuple":
        return tuple(entries)
    if form == "lists":
        return [list(e) for e in entries]
    return entries


def probe(text, field, kbs):
    got = []
    for ref in impl.refs("[1] " + text, kbs=kbs):
        got += ref.get(field, [])
    return got


def run(case):
    kind = case["kind"]
    form, content = case["kb"]
    with impl.scratch() as directory:
        kb = materialise(form, content, directory, "own")
        before = repr(kb)
        kbs = impl.small_kbs(**{kind: kb})
        for text, field, value in KINDS[kind][1]:
            got = probe(text, field, kbs)
            if got != [value]:
                raise Violation("%s: %s %r instead of %r" % (text, field, got, value))
        if repr(kb) != before:
            raise Violation("the argument was changed from %s to %r" % (before, kb))
    return "ok"


def forms():
    for kind, (entries, _) in KINDS.items():
        for name, kb in representations(kind, entries):
            yield {"kind": kind, "layout": name, "kb": kb}


def orders(size):
    def generate():
        for kind, (entries, _) in KINDS.items():
            if kind == "report-numbers":
                head, rest = entries[:1], entries[1:]
            else:
                head, rest = entries[size:], entries[:size]
            for order in itertools.permutations(rest):
                listed = list(head) + list(order)
                for form in ["list", "file"] + (["dict"] if kind in PAIRS else []):
                    content = "\n".join(as_lines(kind, listed)) + "\n" if form == "file" else listed
                    yield {"kind": kind, "kb": (form, content)}

    return generate


# kind: probe of an own entry, probe of a shipped one (text, field, value)
PROBES = {
    "journals": (("Zebra Res. 10 (1990) 20", J, "Zebra Res."), ("Phys. Rev. Lett. 10 (1990) 20", J, "Phys. Rev. Lett.")),
    "journals_re": (("QUOKKAJ 10 (1990) 20", J, "Quokka J."), ("DAN 10 (1990) 20", J, "Dokl.Akad.Nauk Ser.Fiz.")),
    "report-numbers": (("ZOO-TN-1234", "reportnumber", "ZOO-TN-1234"), ("CERN-PH-EP-2010-123", "reportnumber", "CERN-PH-EP-2010-123")),
    "authors": (("A. Go\u0308tz, zebra", "author", "A. G\u00f6tz"), ("A. Du \u0308hrssen, zebra", "author", "A. D\u00fchrssen")),
    "books": (('"On the ocelot"', "year", "1988"), ('"In search of the ultimate building blocks"', "year", "1992")),
    "publishers": (("zebra, Ocelot and Sons", "publisher", "Ocelot"), ("zebra, North Holland", "publisher", "North-Holland")),
    "special_journals": (("Phys. Rev. 3 (1990) 20", "journal_volume", "9003"), ("JHEP 3 (1990) 20", "journal_volume", "9003")),
    "collaborations": (("YAKS Collaboration, zebra", "collaboration", "YAKS Collaboration"), ("ALEPH Collaboration, zebra", "collaboration", "ALEPH Collaboration")),
}
EXTRA = {"journals": [("JHEP", "JHEP"), ("PHYS REV", "Phys.Rev.")], "special_journals": ["Phys. Rev."]}


MONTHS = ["%02d" % m for m in range(1, 13)]
# numbering scheme: numbers of it, others
SCHEMES = [
    ("s9999", ["1234", "0001"], ["123"]),
    ("saa99", ["AB-12", "ZZ-99"], ["A-12", "1A-12"]),
    ("sv9", ["V-1"], ["W-1", "V-X"]),
    ("syyyysmms99", ["2012-%s-12" % m for m in MONTHS] + ["1965-01-01"], ["3012-01-12", "212-01-12"]),
    ("syymm999", ["98%s123" % m for m in MONTHS], ["9813123", "9800123"]),
    ("syys99", ["98-12", "01-02"], ["9-12", "9A-12"]),
    ('s"QQ"99', ["QQ-12"], ["QA-12"]),
    ("s99 [XYZ ]", ["12", "12-X", "12-Z"], ["1-X"]),
    ("sw+", ["ABC_1", "ABC"], []),
    ("s99?9?", ["1", "12", "123"], ["X"]),
    ("s9?9?9s9?9", ["1-2", "12-3", "123-45"], ["1-X"]),
    ("s(?:TH|EX)s99", ["TH-12", "EX-34"], ["TX-12"]),
    ("s[EP]9?9", ["E-1", "P-12"], ["Q-1"]),
]


def schemes():
    for size in (1, 2):
        for chosen in itertools.permutations(SCHEMES, size):
            if size == 2 and any("]" in c[0] and " [" in c[0] for c in chosen):
                continue  # (overlaps with numbers of other schemes)
            for scheme, numbers, others in chosen:
                for number in numbers:
                    yield {"schemes": [c[0] for c in chosen], "number": number, "wanted": "ZOO-TN-" + number}
                for number in others if size == 1 else []:
                    yield {"schemes": [c[0] for c in chosen], "number": number, "wanted": None}


def run_scheme(case):
    kb = ["*****ZOO*****"] + ["<%s>" % s for s in case["schemes"]] + ["ZOO TN---ZOO-TN"]
    got = probe("quokka, ZOO-TN-" + re.sub("([A-Z]+)-(?=[0-9])", r"\1", case["number"]) + ", wombat", "reportnumber", impl.small_kbs(**{"report-numbers": kb}))
    if got != ([case["wanted"]] if case["wanted"] else []):
        raise Violation("%r instead of %r" % (got, case["wanted"]))
    return "found" if got else "none"


def subsets(form):
    def generate():
        for bits in itertools.product([False, True], repeat=len(KINDS)):
            yield {"own": [k for k, b in zip(KINDS, bits) if b], "form": form}

    return generate


def empties():
    for value in (None, [], {}, ""):
        for size in (1, 2):
            for kinds in itertools.combinations(KINDS, size):
                yield {"own": [], "form": "list", "empty": {k: value for k in kinds}}


def run_subset(case):
    with impl.scratch() as directory:
        kbs = dict(case.get("empty") or {})
        for kind in case["own"]:
            entries = KINDS[kind][0] + EXTRA.get(kind, [])
            content = "\n".join(as_lines(kind, entries)) + "\n" if case["form"] == "file" else entries
            kbs[kind] = materialise(case["form"] if case["form"] != "dict" or kind in PAIRS else "list", content, directory, kind)
        for kind, probes in PROBES.items():
            for own, (text, field, value) in zip((True, False), probes):
                if text.startswith("JHEP") and "journals" not in case["own"]:
                    continue  # the shipped list of journals has no title JHEP
                found = value in probe(text, field, kbs or None)
                if found != (own == (kind in case["own"])):
                    raise Violation("%s %s (%s %s)" % (text, "recognised" if found else "not recognised", "own" if own else "shipped", kind))
    return "ok"


def spaces(tier):
    deep = tier == "thorough"
    yield ListSpace("forms", lambda: forms(), run, rule="representations of a knowledge base", setup=impl.warm_small)
    yield ListSpace("orders", orders(5 if deep else 4), run, rule="orders of the entries")
    yield ListSpace("schemes", schemes, run_scheme, rule="numbering schemes of report numbers, alone and in pairs")
    yield ListSpace("subsets", subsets("list"), run_subset, rule="sets of overridden kinds", setup=impl.warm_default)
    yield ListSpace("empty", lambda: empties(), run_subset, rule="kinds passed empty")
    if deep:
        yield ListSpace("subsets of files", subsets("file"), run_subset, rule="sets of overridden kinds")
        yield ListSpace("subsets of mappings", subsets("dict"), run_subset, rule="sets of overridden kinds")
