"""Concurrent extractions do not influence each other."""

import os

from mc import forktree, impl, sched
from mc.core import REPO, SelfDriven

PROPERTY = "C02"
TITLE = "Concurrent extractions give what they give when run alone"
STATEMENT = (
    "Extractions running at the same time in several threads of a process, with the same or with different "
    "(also invalid) knowledge bases, each return or raise exactly what the same call does when it runs alone, and none "
    "of them blocks the others forever. Calls made afterwards are not affected either."
)
QUANT = (["schedules", "histories"], "every interleaving of the threads calling the library")
WHY = "No test uses threads; the races need a switch of threads inside of the few lines maintaining the cache."
ANCHORS = {
    "files": ["refextract/references/kbs.py", "refextract/app.py", "refextract/references/engine.py"],
    "state": [{"name": "_kb_cache", "meaning": "shared by all threads", "where": "references/kbs.py"}],
    "mechanism": [{"name": "lock around look-up and load", "where": "kbs.get_kbs"}, {"name": "copies handed out", "where": "kbs.get_kbs"}],
    "observe_at": ["refextract.extract_references_from_string", "refextract.extract_journal_reference"],
}
TECHNIQUE = "stateless model checking of the real code under a controlled scheduler (preemption-bounded, line granularity)"
NOTE = "All schedules within the preemption bounds are executed on the real library; deadlocks are detected; the oracle is each call alone."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "2 threads, 1-2 calls each; all schedules with at most 1 preemption, "
    "before the first execution by a thread of any line of the package (3 "
    "scenarios), and at most 2 preemptions before the first 2-3 executions of any "
    "line of the functions that the knowledge base module offers (3 scenarios)",
    "thorough": "1 preemption before every execution of every line of the package; "
    "2 before every (for calls made twice: the first two) executions of every line "
    "of the knowledge base module (5 scenarios), and 3 before its first executions",
}
ASSUMPTIONS = [
    "preemption happens between source lines of the package: a line executes "
    "atomically, as do the libraries it calls",
    "2 threads",
]

ROOT = os.path.realpath(os.path.join(REPO, "refextract")) + os.sep

KB_A = impl.small_kbs(
    journals=[("J FOO BAR", "Title.A."), ("PHYS REV D", "Phys.Rev.;D")],
    books=[("Peskin", "Foo Theory", "1995;")],
)
KB_B = impl.small_kbs(
    journals=[("J FOO BAR", "Title.B."), ("JHEP", "JHEP")],
    journals_re=["DAN---Dan.B."],
    special_journals=["Title.B."],
    publishers=[("Foo Press", "Foo Pr.")],
)
KB_BAD = impl.small_kbs(journals=[("J FOO BAR", "Bad."), ("only one",)])
KB_START = impl.small_kbs(journals=[("J FOO BAR", "Title.Start.")])
LINE = "[1] J. Foo Bar 12 (1999) 34"
LINES = "[1] A. Author, J. Foo Bar 12 (1999) 34, ibid. 13 (2000) 35\n[2] DAN 5 (2000) 10"
IBID = "[1] ibid. 7 (2001) 8; B. Other, doi:10.1000/xyz, http://foo.org/bar"


def string(text, kbs, **kwargs):
    def call():
        try:
            return impl.canon(impl.refs(text, kbs, **kwargs))
        except Exception as exc:
            return "raised " + type(exc).__name__

    return call


def journal(text, kbs):
    def call():
        try:
            return impl.canon(impl.journal(text, kbs))
        except Exception as exc:
            return "raised " + type(exc).__name__

    return call


def both(first, second):
    return lambda: [first(), second()]


SCENARIOS = {
    "different-kbs": (string(LINE, KB_A), string(LINE, KB_B)),
    "same-kb": (string(LINES, KB_A), string(IBID, KB_A)),
    "failing-kb": (string(LINE, KB_A), string(LINE, KB_BAD)),
    "journal-api": (journal("J. Foo Bar 12 (1999) 34", KB_B), string(LINE, KB_A)),
    "two-calls": (
        both(string(LINE, KB_A), string(LINE, KB_B)),
        string(LINE, KB_A),
    ),
    "cold-authors": (
        string("[1] A. Author and B. Other, J. Foo Bar 12 (1999) 34", KB_A),
        string("[1] A. Author and B. Other, J. Foo Bar 12 (1999) 34", KB_A),
    ),
    # ordered like two-calls, with a failing load in between
    "fail-between": (
        both(string(LINE, KB_BAD), string(LINE, KB_A)),
        string(LINE, KB_B),
    ),
}
FOLLOW_UP = [string(LINE, KB_A), string(LINE, KB_B)]


def scope(files):
    """files: None for the whole package, or a list of files of it; preceded by
    "entry:", only the functions of the file called from elsewhere."""
    entry = bool(files) and files[0].startswith("entry:")
    names = None if files is None else [f.replace("entry:", "") for f in files]
    cache = {}

    def inside(code):
        name = code.co_filename
        hit = cache.get(name)
        if hit is None:
            path = os.path.realpath(name)
            rel = path[len(ROOT) :] if path.startswith(ROOT) else None
            hit = rel is not None and (names is None or rel in names)
            cache[name] = hit
        return hit

    def in_scope(frame):
        if not inside(frame.f_code):
            return False
        return not entry or not inside(frame.f_back.f_code)

    return in_scope


def alone(body):
    result = body()
    return result


def execute(scenario, first, preempt_at, files, occurrences=None, last=False):
    """One schedule, in a forked copy of the prepared process."""

    def run():
        with sched.patched_locks():
            runner = sched.Scheduler(
                SCENARIOS[scenario], first, preempt_at, scope(files), occurrences, last
            )
            results = runner.run()
        follow = [f() for f in FOLLOW_UP] if not runner.failure else []
        return [results, follow, runner.points, runner.failure, runner.taken]

    return forktree.in_child(run)


EXPECTED = {}
READY = []


def prepare(cold):
    with sched.patched_locks():
        import refextract  # noqa

        if not cold:
            impl.refs("[1] A. Author, J. Foo Bar 1 (1999) 3", KB_START)


def setup():
    if READY:
        return
    with sched.patched_locks():
        import refextract  # noqa
    names = list(SCENARIOS)
    jobs = [
        (lambda body=body: body()) for name in names for body in SCENARIOS[name]
    ] + FOLLOW_UP
    # each body alone, in a fresh process
    res = forktree.in_children(jobs)
    values = [r.get("ok", r.get("error")) for r in res]
    for idx, name in enumerate(names):
        EXPECTED[name] = values[2 * idx : 2 * idx + 2]
    EXPECTED["follow"] = values[2 * len(names) :]
    READY.append(True)


def judge(scenario, res):
    if "error" in res:
        return res["error"]
    results, follow, points, failure, taken = res["ok"]
    if failure:
        return failure
    for idx, (got, want) in enumerate(zip(results, EXPECTED[scenario])):
        if got != want:
            return "thread %d got %s, alone it gets %s" % (idx, got, want)
    if follow != EXPECTED["follow"]:
        return "a later call got %s instead of %s" % (follow, EXPECTED["follow"])
    return None


def explore_part(part, report):
    scenario, first, files, bound, share, shares, warm, occurrences = part
    prepare(cold=not warm)
    payload = {
        "scenario": scenario,
        "first": first,
        "files": files,
        "warm": warm,
        "occurrences": occurrences,
    }

    def one(preempt):
        res = execute(
            scenario, first, preempt, files, occurrences, len(preempt) == bound
        )
        message = judge(scenario, res)
        points = res["ok"][2] if "ok" in res else 0
        ok = report(
            list(preempt),
            ["scenario=" + scenario, "first=%d" % first, "preempt=%s" % list(preempt)],
            dict(payload, preempt=list(preempt)),
            res.get("ok", [None])[0],
            message,
            max(1, points - (preempt[-1] if preempt else 0)),
            points,
        )
        return points, ok

    total, ok = one([])
    if not ok:
        return
    level = [[]]
    # level-wise: every schedule with k preemptions extends one with k-1
    lengths = {(): total}
    for depth in range(bound):
        nxt = []
        for base in level:
            start = base[-1] + 1 if base else 0
            for idx in range(start, lengths[tuple(base)]):
                if not base and idx % shares != share:
                    continue
                preempt = base + [idx]
                points, ok = one(preempt)
                if not ok:
                    return
                lengths[tuple(preempt)] = points
                nxt.append(preempt)
        level = nxt


def replay(violation):
    setup()
    payload = violation["payload"]
    prepare(cold=not payload["warm"])
    res = execute(
        payload["scenario"],
        payload["first"],
        payload["preempt"],
        payload["files"],
        payload["occurrences"],
    )
    again = execute(
        payload["scenario"],
        payload["first"],
        payload["preempt"],
        payload["files"],
        payload["occurrences"],
    )
    if res != again:
        return "diverged", "the schedule does not replay deterministically"
    return res.get("ok"), judge(payload["scenario"], res)


ENTRY = ["entry:references/kbs.py"]
KBS_FILES = ["references/kbs.py"]


def spaces(tier):
    parts = []
    deep = tier == "thorough"
    shares = 8

    def add(scenario, files, bound, occurrences, warm=True, shares=shares):
        for first in (0, 1):
            for share in range(shares):
                parts.append(
                    (scenario, first, files, bound, share, shares, warm, occurrences)
                )

    for scenario in ("different-kbs", "same-kb", "failing-kb"):
        add(scenario, None, 1, None if deep else 1)
    add("different-kbs", ENTRY, 2, None if deep else 3)
    add("fail-between", ENTRY, 2, None if deep else 2)
    add("two-calls", ENTRY, 2, None if deep else 2)
    if deep:
        add("journal-api", None, 1, None)
        add("different-kbs", KBS_FILES, 2, None)
        add("failing-kb", KBS_FILES, 2, None)
        add("journal-api", KBS_FILES, 2, None)
        add("different-kbs", KBS_FILES, 3, 1)
    add("cold-authors", ["authors/regexs.py"], 1, 1, warm=False, shares=1)
    yield SelfDriven(
        "interleavings",
        parts,
        explore_part,
        replay,
        rule="each execution of two real threads under one schedule; every thread's "
        "result is compared with that of the same calls alone in a fresh process, "
        "and so are two later calls",
        setup=setup,
    )
