"""The same in every process."""

import itertools
import json
import os
import subprocess
import sys

from mc import impl
from mc.core import REPO, VERIF, ListSpace, Violation

PROPERTY = "C04"
TITLE = "Results are the same in every process and environment"
STATEMENT = (
    "What an extraction gives is the same in every process: it does not depend on the hash seed of Python, the locale and default "
    "encoding, the current directory, the temporary directory, the time zone, the name of the home or of the user, or on optimised "
    "mode (-O). This covers strings, full texts, plain-text files and knowledge base files with non-ASCII characters (UTF-8), PDFs with "
    "several URLs per reference, and the service functions."
)
QUANT = (["environments"], "every combination of hash seed, locale, current directory, temporary directory and optimisation level within the bounds")
WHY = "All tests run in one process with one hash seed and one locale; a dependence on the iteration order of a set or on the default encoding shows elsewhere only."
ANCHORS = {
    "files": ["refextract/references/record.py", "refextract/references/pdf.py", "refextract/references/engine.py", "refextract/references/kbs.py"],
    "mechanism": [
        {"name": "URLs collected in a set, added sorted", "where": "pdf._match_urls_with_reference, record.update_reference_with_urls"},
        {"name": "encoding of documents and knowledge bases", "where": "engine.get_plaintext_document_body, kbs.file_resolving"},
    ],
    "observe_at": ["refextract.extract_references_from_string", "refextract.extract_references_from_file", "refextract.extract"],
}
TECHNIQUE = "exhaustive enumeration of process environments, each executed in a fresh interpreter, against the result of the reference environment"
NOTE = "Every listed environment was run with the whole list of extractions; outcomes must be identical."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "hash seeds 0-5 and 3 locales (UTF-8, ASCII, C coerced) in all combinations with the small knowledge bases (string, full text, file, knowledge base file, PDF); 8 environments with the shipped ones and the service functions",
    "thorough": "hash seeds 0-63 x 3 locales x 2 directories x 2 optimisation levels; 64 environments with the shipped knowledge bases",
}
ASSUMPTIONS = ["documents are UTF-8"]

LOCALES = {
    "utf8": {"LC_ALL": "C.UTF-8"},
    "ascii": {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
    "coerced": {"LC_ALL": "C"},
}
DRIVER = os.path.join(VERIF, "mc", "driver04.py")
EXPECT = {}


def execute(case):
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": str(case["seed"])}
    env.update(LOCALES[case["locale"]])
    with impl.scratch() as directory:
        cwd = "/"
        if case["where"] == "scratch":
            cwd = os.path.join(directory, "caf\u00e9 dir") if case["locale"] != "ascii" else os.path.join(directory, "a dir")
            os.mkdir(cwd)
            env.update({"TMPDIR": cwd, "HOME": cwd, "TZ": "Asia/Tokyo", "USER": "somebody"})
        else:
            env.update({"HOME": "/nonexistent", "TZ": "UTC", "TMPDIR": directory})
        command = [sys.executable] + ["-O"] * case["optimise"] + [DRIVER, VERIF, REPO, case["parts"]]
        done = subprocess.run(command, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if done.returncode:
        raise Violation("the process ended with %d: %s" % (done.returncode, done.stderr.decode("utf-8", "replace")[-300:]))
    return json.loads(done.stdout)


def reference(parts):
    return {"seed": 0, "locale": "utf8", "where": "root", "optimise": 0, "parts": parts}


def prepare():
    for parts in ("small", "default", "service"):
        if parts not in EXPECT:
            try:
                EXPECT[parts] = execute(reference(parts))
            except Violation as exc:
                EXPECT[parts] = {"failed": str(exc)}


def run(case):
    got, want = execute(case), EXPECT[case["parts"]]
    for name in sorted(set(got) | set(want)):
        if got.get(name) != want.get(name):
            raise Violation("%s differs from the reference environment: %s" % (name, difference(got.get(name), want.get(name))))
        if isinstance(got[name], str):
            raise Violation("%s %s" % (name, got[name]))
    return "%d results" % len(got)


def difference(got, want):
    for unwrap in ("extracted_references", "extracted_publication_infos"):
        if isinstance(got, dict) and isinstance(want, dict) and unwrap in got and unwrap in want:
            got, want = got[unwrap], want[unwrap]
    if isinstance(got, list) and isinstance(want, list):
        for a, b in itertools.zip_longest(got, want):
            if a != b:
                return "%r instead of %r" % (a, b)
    return "%r instead of %r" % (got, want)


def environments(seeds, wheres, levels, parts):
    for seed, locale, where, level in itertools.product(seeds, LOCALES, wheres, levels):
        yield {"seed": seed, "locale": locale, "where": where, "optimise": level, "parts": parts}


def quick_small():
    yield from environments(range(6), ("root",), (0,), "small")
    yield from environments((6,), ("scratch",), (0, 1), "small")


def quick_large():
    for seed, locale, where, level in [(1, "ascii", "root", 0), (2, "utf8", "scratch", 0), (3, "coerced", "root", 1), (4, "ascii", "scratch", 1)]:
        for parts in ("default", "service"):
            yield {"seed": seed, "locale": locale, "where": where, "optimise": level, "parts": parts}


def spaces(tier):
    deep = tier == "thorough"
    yield ListSpace(
        "small",
        (lambda: environments(range(64), ("root", "scratch"), (0, 1), "small")) if deep else quick_small,
        run,
        rule="environments, small knowledge bases",
        setup=prepare,
    )
    yield ListSpace(
        "shipped",
        (lambda: itertools.chain(*(environments(range(5), ("root", "scratch"), (0, 1), p) for p in ("default", "service")))) if deep else quick_large,
        run,
        rule="environments, shipped knowledge bases",
        setup=prepare,
    )
