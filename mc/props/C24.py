"""The batch functions of refextract.extract."""

import copy
import contextlib
from unittest import mock

from mc import impl
from mc.core import Space, Violation

PROPERTY = "C24"
TITLE = "Batches: one result per item, in order; a failing item harms no other"
STATEMENT = (
    "extract_references_from_list returns exactly one reference per raw reference, in their order: the first one extraction of that string alone gives, or, if it gives none or fails, the raw reference itself under raw_ref. "
    "extract_journal_info returns exactly one entry per publication info, in their order: the journal reference of its pubinfo_freetext alone, or {} if it has none; if an extraction fails the result is None. "
    "extract_references_from_text returns all references of the text, or None if the extraction fails. None of them raises, changes its arguments, or depends on the other items; the journal knowledge base is the one given."
)
QUANT = (["inputs", "faults"], "every batch, of good, empty, unrecognised and invalid items, and every set of items whose extraction fails")
WHY = "The tests use batches in which all items are good or all fail; alignment is broken by mixtures."
ANCHORS = {
    "files": ["refextract/extract.py"],
    "mechanism": [
        {"name": "per-item try and fallback", "where": "extract.extract_references_from_list"},
        {"name": "placeholder for infos without text", "where": "extract.extract_journal_info"},
    ],
    "observe_at": ["refextract.extract.extract_references_from_list", "refextract.extract.extract_journal_info", "refextract.extract.extract_references_from_text"],
}
TECHNIQUE = "exhaustive enumeration of batches x failing items on the real functions against the item-alone model"
NOTE = "Faults are real ones (items that are no text) and injected ones (the extraction of chosen items raises)."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all batches of <= 2 of 14 items and <= 2 of 12 infos (3 of 6 and 5 of them) with all of the extraction; all of <= 6 items x {no, one, two references, 4 exceptions}; 2 journal knowledge bases",
    "thorough": "one item more",
}
ASSUMPTIONS = ["the injected faults replace refextract.extract.extract_references_from_string / extract_journal_reference, as the tests do"]

KBS = [
    {"PHYS REV D": "Phys.Rev.;D", "J FOO BAR": "J.Foo.Bar", "JHEP": "JHEP"},
    {"PHYS REV": "Other.Rev.", "FOO": "Foo"},
]
ITEMS = [
    "[1] A. Smith, J. Foo Bar 12 (1999) 34, doi:10.1000/ab",
    "[2] B. Jones, Phys. Rev. D 10 (1990) 20; JHEP 01 (2003) 5",
    "",
    "   ",
    "quokka wombat",
    None,
    5,
    "[7]",
    "\n",
    "[3] a b\n[4] J. Foo Bar 13 (2000) 35",
    "ibid. 14 (2001) 36",
    "C. Brown, CERN-PH-EP-2012-123, ATLAS Collaboration",
    "J. Foo Bar 12 (1999) 34",
    b"J. Foo Bar 12 (1999) 34",
]
INFOS = [
    {"pubinfo_freetext": "J. Foo Bar 12 (1999) 34"},
    {"pubinfo_freetext": "Phys. Rev. D 10 (1990) 20"},
    {"pubinfo_freetext": "Published in JHEP 01 (2003) 5; J. Foo Bar 15 (2002) 37"},
    {},
    {"pubinfo_freetext": ""},
    {"pubinfo_freetext": None},
    {"pubinfo_freetext": "  "},
    {"pubinfo_freetext": "quokka"},
    {"pubinfo_freetext": 5},
    {"journal_title": "J. Foo Bar", "journal_volume": "12"},
    {"pubinfo_freetext": "CERN-PH-EP-2012-123"},
    {"pubinfo_freetext": "ibid. 14 (2001) 36", "page_start": "36"},
]
FORMAT = "{title},{volume},{page}"
MEMO = {}


def alone(kind, index, kb):
    """What the public API gives for one item: (result, error)"""
    if (kind, index, kb) not in MEMO:
        from refextract import extract_journal_reference, extract_references_from_string

        kbs = {"journals": dict(KBS[kb])}
        try:
            if kind == "item":
                result = extract_references_from_string(ITEMS[index], override_kbs_files=kbs, reference_format=FORMAT)
            else:
                result = extract_journal_reference(INFOS[index]["pubinfo_freetext"], override_kbs_files=kbs)
            MEMO[kind, index, kb] = result, False
        except Exception:
            MEMO[kind, index, kb] = None, True
    return MEMO[kind, index, kb]


def batch(alphabet, size, few=None):
    """All batches up to the size, one longer for the first few items"""

    def scenario(ch):
        length = ch.pick("length", range(size + 1 + bool(few)))
        if length > size:
            return {"items": [ch.pick("item%d" % i, few) for i in range(length)], "kb": 0}
        return {"items": [ch.pick("item%d" % i, range(len(alphabet))) for i in range(length)], "kb": ch.pick("kb", [0, 1])}

    return scenario


def unchanged(before, after):
    if before != after:
        raise Violation("argument changed from %r to %r" % (before, after))


def run_list(case):
    from refextract.extract import extract_references_from_list

    items = [ITEMS[i] for i in case["items"]]
    arguments = (list(items), dict(KBS[case["kb"]]))
    result = extract_references_from_list(*arguments)
    want = []
    for index, item in zip(case["items"], items):
        found, error = alone("item", index, case["kb"])
        want.append(found[0] if found and not error else {"raw_ref": [item]})
    if result != {"extracted_references": want}:
        raise Violation("%r instead of %r" % (result, want))
    unchanged((items, KBS[case["kb"]]), arguments)
    return impl.canon([sorted(r) for r in want])


def run_text(case):
    from refextract.extract import extract_references_from_text

    lines = [i for i in case["items"] if isinstance(ITEMS[i], str)]
    if len(lines) < len(case["items"]):
        text = None if len(case["items"]) > 1 else ITEMS[case["items"][0]]
    else:
        text = "\n".join(ITEMS[i] for i in lines)
    knowledge = dict(KBS[case["kb"]])
    result = extract_references_from_text(text, knowledge)
    if not isinstance(text, str):
        if result is not None:
            raise Violation("%r for %r" % (result, text))
        return "none"
    from refextract import extract_references_from_string

    want = extract_references_from_string(text, override_kbs_files={"journals": dict(KBS[case["kb"]])}, reference_format=FORMAT)
    if result != {"extracted_references": want}:
        raise Violation("%r instead of %r" % (result, want))
    for reference in want:
        if "journal_title" in reference:
            parts = [reference[k][0] for k in ("journal_title", "journal_volume", "journal_page")]
            if reference["journal_reference"] != [",".join(parts)]:
                raise Violation("journal_reference of %r" % reference)
    unchanged(KBS[case["kb"]], knowledge)
    return str(len(want))


def run_infos(case):
    from refextract.extract import extract_journal_info

    infos = [INFOS[i] for i in case["items"]]
    arguments = (copy.deepcopy(infos), dict(KBS[case["kb"]]))
    result = extract_journal_info(*arguments)
    want = []
    for index, info in zip(case["items"], infos):
        found = {}
        if info.get("pubinfo_freetext"):
            found, error = alone("info", index, case["kb"])
            if error:
                want = None
                break
        want.append(found or {})
    if want is not None:
        want = {"extracted_publication_infos": want}
    if result != want:
        raise Violation("%r instead of %r" % (result, want))
    unchanged((infos, KBS[case["kb"]]), arguments)
    return impl.canon([bool(w) for w in want["extracted_publication_infos"]] if want else None)


BEHAVIOURS = ["none", "one", "two", "KeyError", "RuntimeError", "UnicodeDecodeError", "TimeoutError"]
ERRORS = {
    "KeyError": lambda: KeyError(3),
    "RuntimeError": lambda: RuntimeError("\u00e9 %s {x}"),
    "UnicodeDecodeError": lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad"),
    "TimeoutError": lambda: TimeoutError(),
}


def stub_scenario(size, behaviours):
    def scenario(ch):
        length = ch.pick("length", range(size + 1))
        return [ch.pick("item%d" % i, behaviours) for i in range(length)]

    return scenario


def behave(case, journal):
    calls = []

    def stub(text, **kwargs):
        index = int(text.split()[1])
        calls.append((index, kwargs))
        behaviour = case[index]
        if behaviour in ERRORS:
            raise ERRORS[behaviour]()
        if journal:
            return {"none": None, "one": {"title": "T%d" % index}, "two": {}}[behaviour]
        return [{"raw_ref": ["r%d.%d" % (index, n)]} for n in range({"none": 0, "one": 1, "two": 2}[behaviour])]

    return stub, calls


@contextlib.contextmanager
def stubbed(name, stub):
    """The stub in the place of the extraction function, under whatever module
    the service functions take it from"""
    import refextract.extract
    import refextract.references.api

    with contextlib.ExitStack() as stack:
        for module in (refextract, refextract.extract, refextract.references.api):
            if hasattr(module, name):
                stack.enter_context(mock.patch.object(module, name, stub))
        yield


def run_stub(case):
    from refextract.extract import extract_references_from_list

    stub, calls = behave(case, False)
    items = ["item %d" % i for i in range(len(case))]
    with stubbed("extract_references_from_string", stub):
        result = extract_references_from_list(list(items), dict(KBS[0]))
    if case and not calls:
        return "not interposed"
    want = [{"raw_ref": ["r%d.0" % i if b in ("one", "two") else "item %d" % i]} for i, b in enumerate(case)]
    if result != {"extracted_references": want}:
        raise Violation("%r instead of %r" % (result, want))
    for _, kwargs in calls:
        if kwargs.get("override_kbs_files") != {"journals": KBS[0]}:
            raise Violation("knowledge bases %r" % kwargs)
    return "ok"


def run_stub_infos(case):
    from refextract.extract import extract_journal_info

    stub, calls = behave(case, True)
    infos = [{"pubinfo_freetext": "item %d" % i} if b != "empty" else {} for i, b in enumerate(case)]
    with stubbed("extract_journal_reference", stub):
        result = extract_journal_info(infos, dict(KBS[0]))
    if any(infos) and not calls:
        return "not interposed"
    want = {"extracted_publication_infos": [{"title": "T%d" % i} if b == "one" else {} for i, b in enumerate(case)]}
    if any(b in ERRORS for b in case):
        want = None
    if result != want:
        raise Violation("%r instead of %r" % (result, want))
    return "ok" if want else "none"


def setup():
    impl.warm_default()
    for kb in (0, 1):
        for index in range(len(ITEMS)):
            alone("item", index, kb)
        for index in range(len(INFOS)):
            if INFOS[index].get("pubinfo_freetext"):
                alone("info", index, kb)


def spaces(tier):
    size = 3 if tier == "thorough" else 2
    yield Space("stubbed list", stub_scenario(6, BEHAVIOURS[:5] if tier == "thorough" else BEHAVIOURS[:4]), run_stub, rule="<= 6 items, each with no, one or two references or an exception")
    yield Space("stubbed list, exceptions", stub_scenario(4, BEHAVIOURS), run_stub, rule="all exceptions")
    yield Space("stubbed infos", stub_scenario(4, ["empty"] + BEHAVIOURS), run_stub_infos, rule="<= 4 infos")
    yield Space("list", batch(ITEMS, size, [0, 1, 2, 4, 5, 9]), run_list, rule="batches of raw references", setup=setup)
    yield Space("infos", batch(INFOS, size, [0, 2, 3, 7, 8]), run_infos, rule="batches of publication infos", setup=setup)
    yield Space("text", batch(ITEMS, size), run_text, rule="texts of lines", setup=setup)
