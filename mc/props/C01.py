"""History independence: an extraction is a function of its arguments."""

import copy
import os
import shutil
import tempfile

from mc import forktree, impl
from mc.core import SelfDriven, Violation

PROPERTY = "C01"
TITLE = "An extraction depends only on its arguments, not on earlier calls"
STATEMENT = (
    "What extract_references_from_string / _file and extract_journal_reference return (or raise) for given "
    "arguments and knowledge bases is the same whatever calls were made before in the process: with other, "
    "failing or partly overridden knowledge bases, with lists or dictionaries modified in place between the "
    "calls, after exceptions, or on other documents. No call modifies its arguments."
)
QUANT = (["histories"], "every sequence of extraction calls in one process")
WHY = "Tests call with one configuration each and pass because the first call fills the caches; a stale cache needs a particular ordered history of two or three calls."
ANCHORS = {
    "files": ["refextract/references/kbs.py", "refextract/references/engine.py", "refextract/references/tag.py", "refextract/authors/regexs.py"],
    "state": [
        {"name": "_kb_cache", "meaning": "knowledge bases by their sources", "where": "references/kbs.py"},
        {"name": "compiled author regular expressions", "meaning": "built at first use", "where": "authors/regexs.py"},
    ],
    "mechanism": [
        {"name": "cache keyed by the sources of the KBs, private copies", "where": "kbs.get_kbs"},
        {"name": "no module state written by the tagging", "where": "tag.tag_reference_line, engine.parse_references"},
    ],
    "observe_at": ["refextract.extract_references_from_string", "refextract.extract_journal_reference"],
}
TECHNIQUE = "exhaustive exploration of call histories of the real library (process state forked at every node) against the fresh-process result"
NOTE = "Every history within the bounds is executed; each call is compared with the same call in a process without history."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all histories of length <= 2 over 24 operations, and of length <= 3 "
    "over 6 of them, from the state of a fresh process",
    "thorough": "all histories of length <= 3 over 24 operations, and of length "
    "<= 5 over 6 of them",
}
ASSUMPTIONS = [
    "knowledge base files given by path are not modified while a process uses them",
    "the state of a process is what fork copies: no state outside the process",
]

TEXT = "\n".join(
    [
        "[1] A. Author and B. Other, J. Foo Bar 12 (1999) 34, CERN-PH-EP-2012-123",
        "[2] ibid. 13 (2000) 35; C. Third et al., Phys. Rev. D 10 (1990) 20",
        "[3] ATLAS Collaboration, JHEP 01 (2003) 5, Foo Collaboration, Quux Lab 77-123",
        "[4] Peskin, Introduction to Quantum Field Theory, Foo Press 1995",
        '[5] D. Du\u0308rr, "Foo Theory", DAN 5 (2000) 10, BAZ 7 (2001) 8',
        "[6] E. Fifth, Foo Press, hep-th/9711200, Springer, SLAC-PUB-1234",
    ]
)
IBIDS = "\n".join(
    [
        "[1] ibid. B 100 (1990) 1",
        "[2] ibid. 34 (1987) 2; 35 (1988) 3",
        "[3] and references therein, 12 (1999) 34",
    ]
)

A = [("J FOO BAR", "J.Foo.Bar."), ("JHEP", "JHEP")]
B = [("J FOO BAR", "Other.Title."), ("PHYS REV D", "Phys.Other.;D")]
MUTABLE = [["J FOO BAR", "Version.One."]]
MUTABLE_DICT = {"J FOO BAR": "Version.One."}
OTHERS = {
    "journals": [("J FOO BAR", "J.Foo.Bar."), ("BAZ", "JHEP")],
    "journals_re": ["BAZ---Baz.Re.", "DAN---Dan.Again."],
    "report-numbers": ["*****Q*****", "< 99 999>", "QUUX LAB---QUUX"],
    "books": [("Peskin", "Introduction to Quantum Field Theory", "1995;")],
    "publishers": [("Foo Press", "Foo Pr.")],
    "collaborations": [("Foo Collaboration", "Foo")],
    "authors": ["Du\u0308rr---Duerr"],
    "special_journals": ["J.Foo.Bar."],
}

FILES = {}


def _files():
    FILES["dir"] = tempfile.mkdtemp(prefix="mcverif_c01_")
    FILES["good"] = impl.write(
        os.path.join(FILES["dir"], "good.kb"),
        "# comment\nJ FOO BAR---From.File.\nJHEP---JHEP\n",
    )
    FILES["bad"] = impl.write(
        os.path.join(FILES["dir"], "bad.kb"), "J FOO BAR---Bad.File.\nno separator\n"
    )
    FILES["missing"] = os.path.join(FILES["dir"], "missing.kb")
    FILES["text"] = impl.write(
        os.path.join(FILES["dir"], "doc.txt"),
        "Some body text\n\nReferences\n\n" + TEXT + "\n",
    )


def api_string(text, kbs, **kwargs):
    from refextract import extract_references_from_string as function

    return function(text, override_kbs_files=kbs, **kwargs)


def mutate(value):
    MUTABLE[0][1] = value
    return {"journals": MUTABLE}


def mutate_dict(value):
    MUTABLE_DICT["J FOO BAR"] = value
    return {"journals": MUTABLE_DICT}


def _list_api(kb):
    from refextract.extract import extract_references_from_list

    return extract_references_from_list(TEXT.split("\n"), kb)


def _journal_info(kb):
    from refextract.extract import extract_journal_info

    return extract_journal_info(
        [{"pubinfo_freetext": "J. Foo Bar 12 (1999) 34"}, {"pubinfo_freetext": "JHEP 01 (2003) 5"}], kb
    )


def _file_api(kb):
    from refextract import extract_references_from_file

    return extract_references_from_file(FILES["text"], override_kbs_files=kb)


# name -> (arguments builder, call).  The arguments are compared with a copy
# taken before the call.
OPS = {
    "default": (lambda: None, lambda kb: api_string(TEXT, kb)),
    "listA": (lambda: {"journals": list(A)}, lambda kb: api_string(TEXT, kb)),
    "listB": (lambda: {"journals": list(B)}, lambda kb: api_string(TEXT, kb)),
    "mutable-v1": (lambda: mutate("Version.One."), lambda kb: api_string(TEXT, kb)),
    "mutable-v2": (lambda: mutate("Version.Two."), lambda kb: api_string(TEXT, kb)),
    "bad-file": (
        lambda: {"journals": FILES["bad"]},
        lambda kb: api_string(TEXT, kb),
    ),
    "others": (lambda: copy.deepcopy(OTHERS), lambda kb: api_string(TEXT, kb)),
    "ibids-default": (lambda: None, lambda kb: api_string(IBIDS, kb)),
    # -- the operations below are only combined up to the smaller depth in quick
    "ibids-A": (lambda: {"journals": list(A)}, lambda kb: api_string(IBIDS, kb)),
    "dict-v1": (lambda: mutate_dict("Version.One."), lambda kb: api_string(TEXT, kb)),
    "dict-v2": (lambda: mutate_dict("Version.Two."), lambda kb: api_string(TEXT, kb)),
    "good-file": (
        lambda: {"journals": FILES["good"]},
        lambda kb: api_string(TEXT, kb),
    ),
    "none-values": (
        lambda: {"journals": None, "books": [], "publishers": {}},
        lambda kb: api_string(TEXT, kb),
    ),
    "missing-reports": (
        lambda: {"journals": list(B), "report-numbers": FILES["missing"]},
        lambda kb: api_string(TEXT, kb),
    ),
    "bad-journals-re": (
        lambda: {"journals_re": ["no separator"], "books": OTHERS["books"]},
        lambda kb: api_string(TEXT, kb),
    ),
    "bad-books": (
        lambda: {"journals": list(A), "books": [("too short",)]},
        lambda kb: api_string(TEXT, kb),
    ),
    "journals-re-only": (
        lambda: {"journals_re": ["BAZ---Baz.Only."]},
        lambda kb: api_string(TEXT, kb),
    ),
    "reports-only": (
        lambda: {"report-numbers": OTHERS["report-numbers"]},
        lambda kb: api_string(TEXT, kb),
    ),
    "special-only": (
        lambda: {"special_journals": ["Phys.Rev."]},
        lambda kb: api_string(TEXT, kb, reference_format="{title}|{volume}|{page}"),
    ),
    "collab-pub-authors": (
        lambda: {k: OTHERS[k] for k in ("collaborations", "publishers", "authors")},
        lambda kb: api_string(TEXT, kb),
    ),
    "fulltext": (
        lambda: {"journals": list(A)},
        lambda kb: api_string(
            "Body\n\nReferences\n" + TEXT, kb, is_only_references=False
        ),
    ),
    "file": (lambda: {"journals": list(A)}, _file_api),
    "list-api": (lambda: list(A), _list_api),
    "journal-info": (lambda: list(B), _journal_info),
}
CORE = ["default", "listA", "mutable-v1", "mutable-v2", "bad-file", "others"]

EXPECTED = {}


def observe(name):
    build, call = OPS[name]
    args = build()
    before = copy.deepcopy(args)
    try:
        result = impl.canon(call(args))
    except Exception as exc:
        result = "raised " + type(exc).__name__
    if args != before:
        raise Violation(
            "%s: the arguments were modified: %r became %r" % (name, before, args)
        )
    return result


def setup():
    if FILES:
        return
    _files()
    try:  # only a matter of speed
        from refextract.authors.regexs import get_author_regexps

        get_author_regexps()
    except Exception:
        pass
    import refextract  # noqa

    results = forktree.in_children(
        [lambda name=name: observe(name) for name in OPS]
    )
    for name, res in zip(OPS, results):
        EXPECTED[name] = res["ok"] if "ok" in res else "error " + res["error"]
    import atexit

    owner = os.getpid()
    atexit.register(
        lambda: os.getpid() == owner and shutil.rmtree(FILES["dir"], True)
    )


def perform(name):
    result = observe(name)
    if result != EXPECTED[name]:
        raise Violation(
            "%s gave %s, but in a fresh process %s" % (name, result, EXPECTED[name])
        )
    return result


def explore_part(part, report):
    names, depth, first = part
    res = forktree.in_child(
        lambda: forktree.explore(first, names, depth, perform)
    )
    # the history leading to this part is replayed first
    if "error" in res:
        res = {"ok": [1, [[list(first), res["error"]]], []]}
    nodes, violations, outcomes = res["ok"]
    message = violations[0][1] if violations else None
    history = violations[0][0] if violations else first
    for idx in range(max(nodes, 1)):
        # one report per executed operation history
        outcome = outcomes[idx] if idx < len(outcomes) else "repeated"
        last = idx == max(nodes, 1) - 1
        report(
            history,
            ["history=" + ",".join(history)],
            {"history": history},
            outcome,
            message if last else None,
            1,
            1,
        )


def replay(violation):
    setup()
    history = violation["payload"]["history"]

    def run():
        for name in history:
            perform(name)
        return "ok"

    res = forktree.in_child(run)
    return res.get("ok"), res.get("error")


def spaces(tier):
    full = 2 if tier == "quick" else 3
    core = 3 if tier == "quick" else 5
    names = list(OPS)
    parts = [(CORE, core, [name]) for name in CORE]
    parts += [(names, full, [name]) for name in names]
    yield SelfDriven(
        "histories",
        parts,
        explore_part,
        replay,
        rule="each node of the tree of call histories is one execution of the real "
        "call in the state its history left behind; its result and the arguments "
        "afterwards are compared with those of a fresh process",
        setup=setup,
    )
