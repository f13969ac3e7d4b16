"""References to a journal named before: ibid, and numeration alone."""

import re

from mc import impl
from mc.core import Skip, Space, Violation

PROPERTY = "C21"
TITLE = "ibid and bare numeration stand for the journal named last in the line"
STATEMENT = (
    "In a reference line, 'ibid.' followed by a volume, year and page gives a journal reference to the journal cited last before it in the line, in the series written after 'ibid.' or, without one, the series cited last. "
    "The same holds for a volume, year and page alone that end the line after a journal reference and a semicolon, but not after a citation of something else. "
    "Without a journal before it in the same line (also when the previous line has one) 'ibid.' gives no journal reference, and it never changes the references before and after it."
)
QUANT = (["inputs"], "every sequence of journal references, ibids, bare numerations and other elements within the bounds")
WHY = "The journal and series an ibid stands for depend on all that was recognised before it in the line; tests have fewer than ten lines with an ibid."
ANCHORS = {
    "files": ["refextract/references/engine.py", "refextract/references/tag.py"],
    "mechanism": [
        {"name": "ibid replaced by the previous match", "where": "tag.identify_ibids, add_tagged_journal, add_tagged_journal_in_place_of_IBID"},
        {"name": "numeration alone", "where": "engine.look_for_implied_ibids"},
    ],
    "observe_at": ["refextract.extract_references_from_string"],
}
TECHNIQUE = "exhaustive enumeration of sequences of (ibid) journal references on the real extractor against a two-variable state machine (journal, series)"
NOTE = "Model: journal and series cited last in the line, updated by each element; all sequences within the bounds are executed."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "one journal reference (6 titles) and one (ibid) reference in 10 spellings x 4 series x 5 numerations x 7 separators; text after the last reference in 6 spellings; sequences of 3 and 4 references of 8 kinds; numeration alone after 8 citations of something else; JINST pages; two lines",
    "thorough": "sequences of 4 references of 13 kinds and 5 of 8 kinds",
}
ASSUMPTIONS = ["small knowledge bases"]

# title written, title, series
TITLES = [
    ("Phys. Rev. D", "Phys.Rev.", "D"),
    ("Phys. Lett. B", "Phys.Lett.", "B"),
    ("Nucl. Phys. B", "Nucl.Phys.", "B"),
    ("Phys. Rev.", "Phys.Rev.", ""),
    ("Eur. Phys. J. C", "Eur.Phys.J.", "C"),
    ("Phys. Rev. Lett.", "Phys.Rev.Lett.", ""),
]
IBIDS = ["ibid.", "ibid", "Ibid.", "IBID", "ibidem", "ibid.,", "Ibidem,", "ibid:", "in ibid.", "-ibid-"]
FORMATS = ["%(v)s (%(y)s) %(p)s", "%(v)s, %(p)s (%(y)s)", "%(v)s (%(y)s) %(p)s-%(e)s", "%(v)s:%(p)s,%(y)s", "%(v)s (%(y)s) L%(p)s"]
SEPS = ["; ", ", ", " and ", " ", "; B. Jones, ", " [arXiv:1203.1234], ", " [arXiv:1203.1234]; "]


def numbers(index, series, fmt):
    values = {"v": "1%d" % index, "y": "199%d" % index, "p": "2%d" % index, "e": "3%d" % index}
    page = "L" + values["p"] if "L" in fmt else values["p"] + ("-" + values["e"] if "%(e)s" in fmt else "")
    return fmt % values, series + "%(v)s (%(y)s) " % values + page


def entry(state, index, kind, fmt=FORMATS[0]):
    """Text, expected journal reference and next state"""
    name, series = kind
    if name in ("ibid", "bare") or name in IBIDS:
        own = series
        series = own or state[1]
        text, num = numbers(index, series, fmt)
        text = (own + " " if own else "") + text
        if name != "bare":
            text = (name if name in IBIDS else "ibid.") + " " + text
        if not state[0]:
            return text, None, state
        return text, state[0] + " " + num, (state[0], series)
    if name == "mention":
        # the title of a journal without a reference to it
        return "in Nucl. Phys. B", None, state
    title = TITLES[name]
    text, num = numbers(index, title[2], fmt)
    return title[0] + " " + text, title[1] + " " + num, (title[1], title[2])


def single(ch):
    state = ("", "")
    first = ch.pick("title", range(len(TITLES)))
    text1, want1, state = entry(state, 0, (first, ""), ch.pick("format0", FORMATS))
    sep = ch.pick("separator", SEPS)
    kind = ch.pick("ibid", IBIDS + ["bare"])
    if kind == "bare" and (";" not in sep or "Jones" in sep):
        raise Skip
    text2, want2, state = entry(state, 1, (kind, ch.pick("series", ["", "A", "B", "D"])), ch.pick("format1", FORMATS))
    return {"line": "[7] " + text1 + sep + text2, "want": [want1, want2]}


def tail(ch):
    """Text after the last (ibid) reference"""
    text1, want1, state = entry(("", ""), 0, (ch.pick("title", [0, 3]), ""))
    sep = ch.pick("separator", ["; ", ", "])
    kind = ch.pick("ibid", ["ibid.", "Ibidem,", "bare"])
    if kind == "bare" and sep != "; ":
        raise Skip
    text2, want2, state = entry(state, 1, (kind, ch.pick("series", ["", "B"])), ch.pick("format", FORMATS))
    words = ch.pick("tail", [" quokka wombat", ", quokka wombat.", "; quokka, wombat", " (quokka wombat)", ", wombat", ". Zebra, wombat quokka"])
    return {"line": "[7] " + text1 + sep + text2 + words, "want": [want1, want2], "words": re.findall("[A-Za-z]+", words)}


def sequence(count, kinds, seps):
    def scenario(ch):
        state, line, want, kind = ("", ""), "[7] ", [], None
        for index in range(count):
            before = kind
            kind = ch.pick("kind%d" % index, kinds)
            sep = ch.pick("separator%d" % index, seps) if index else ""
            if kind[0] == "bare" and (sep != "; " or not state[0] or index < count - 1 or before[0] == "mention"):
                raise Skip
            text, ref, state = entry(state, index, kind)
            line += sep + text
            if ref:
                want.append(ref)
        return {"line": line, "want": want}

    return scenario


OTHERS = ["hep-th/9711200", "CERN-PH-EP-2012-123", "doi:10.1000/ab", "http://foo.org/bar", "B. Jones, arXiv:1203.1234", "ATLAS Collaboration, hep-th/9711200", '"A title", hep-th/9711200', "hdl:2128/1"]


def apart(ch):
    """Numeration alone after something else than a reference to a journal"""
    text1, want1, state = entry(("", ""), 0, (ch.pick("title", range(len(TITLES))), ""))
    first = ch.pick("ibid", [False, True])
    want = [want1]
    if first:
        text2, want2, state = entry(state, 1, ("ibid", ""))
        text1 += "; " + text2
        want.append(want2)
    other = ch.pick("other", OTHERS)
    more = ch.pick("more", ["", "hep-ph/9812345; "])
    text3, _, _ = entry(state, 2, ("bare", ch.pick("series", ["", "B"])), ch.pick("format", FORMATS))
    return {"line": "[7] " + text1 + "; " + other + "; " + more + text3, "want": want}


def jinst(ch):
    count = ch.pick("count", [2, 3])
    line, want = "[7] JINST ", []
    for index in range(count):
        kind = ch.pick("kind%d" % index, ["bare", "ibid. "]) if index else ""
        if kind == "bare" and index < count - 1:
            raise Skip
        volume, year = ch.pick("number%d" % index, [("3", "2008"), ("12", "2017")])
        page = ch.pick("page%d" % index, ["P08001", "S01002", "T11003", "12"])
        line += ("; " if index else "") + ("" if kind == "bare" else kind) + "%s (%s) %s" % (volume, year, page)
        want.append("JINST %s (%s) %s" % (volume, year, page))
    return {"line": line, "want": want}


def lines(ch):
    """Nothing is taken over from the line before"""
    texts, want = [], []
    for number in range(2):
        state, parts = ("", ""), []
        for index in range(2):
            kind = ch.pick("kind%d.%d" % (number, index), [(0, ""), (1, ""), ("ibid", ""), ("ibid", "B"), None])
            if kind is None:
                continue
            text, ref, state = entry(state, index + 2 * number, kind)
            parts.append(text)
            if ref:
                want.append(ref)
        if not parts:
            raise Skip
        texts.append("[%d] " % (number + 1) + ", ".join(parts))
    return {"line": "\n".join(texts), "want": want}


def run(case):
    result = impl.refs(case["line"])
    got = [v for ref in result for v in ref.get("journal_reference", [])]
    if got != case["want"]:
        raise Violation("%r instead of %r: %r" % (got, case["want"], result))
    if "words" in case and re.findall("[A-Za-z]+", " ".join(result[-1].get("misc", []))) != case["words"]:
        raise Violation("the text after the last reference is not kept: %r" % (result,))
    for ref in result:
        if "journal_reference" in ref:
            reference = "%s %s (%s) %s" % tuple(ref["journal_" + k][0] for k in ("title", "volume", "year", "page"))
            if ref["journal_reference"] != [reference]:
                raise Violation("inconsistent reference %r" % (ref,))
    return impl.canon([sorted(r) for r in result])


KINDS = [(0, ""), (1, ""), (3, ""), ("ibid", ""), ("ibid", "A"), ("ibid", "D"), ("bare", ""), ("bare", "C")]
MORE = KINDS + [(4, ""), (5, ""), ("Ibid.", "B"), ("ibidem", ""), ("bare", "D"), ("mention", "")]


def spaces(tier):
    deep = tier == "thorough"
    yield Space("single", single, run, rule="spellings, series, numerations and separators of one ibid", setup=impl.warm_small)
    yield Space("tail", tail, run, rule="text after the last reference")
    yield Space("sequence3", sequence(3, MORE, ["; ", ", "]), run, rule="sequences of three")
    yield Space("sequence4", sequence(4, MORE if deep else KINDS, ["; ", ", "] if deep else ["; "]), run, rule="sequences of four")
    yield Space("apart", apart, run, rule="numeration alone after something else than a journal reference")
    yield Space("jinst", jinst, run, rule="JINST pages")
    yield Space("lines", lines, run, rule="two lines")
    if deep:
        yield Space("sequence5", sequence(5, KINDS, ["; "]), run, rule="sequences of five")
