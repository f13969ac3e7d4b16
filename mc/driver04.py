"""Runs a fixed list of extractions and prints what they gave (see props/C04)."""

import json
import os
import sys
import tempfile
import shutil
import logging
import warnings

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

VERIF, REPO, parts = sys.argv[1], sys.argv[2], sys.argv[3].split(",")
sys.path[:0] = [REPO, VERIF]

from mc import corpus, impl, pdfs  # noqa: E402

pdfs.use_stub()

import refextract  # noqa: E402
from refextract.extract import (  # noqa: E402
    extract_journal_info,
    extract_references_from_list,
    extract_references_from_text,
)

# libmagic takes a text with an HTML link for HTML
LINES = [line for line in corpus.LINES if line.strip() and "<a" not in line]
FULL = "\n".join(
    ["Caf\u00e9 \u2013 a paper", "R\u00e9f\u00e9rences"] + ["[%d] %s" % (n, line) for n, line in enumerate(LINES, 1)]
)
JOURNALS = [["REVUE DE CAF\u00c9", "Rev.Caf\u00e9"], ["PHYS REV D", "Phys.Rev.;D"], ["PHYS REV", "Phys.Rev."]]
URLS = ["http://%s.org/%d" % (host, n) for n, host in enumerate(["zeta", "alpha", "mu", "omega", "kappa", "beta"])]
directory = tempfile.mkdtemp(prefix="mcverif_")
out = {}


def call(name, func, *args, **kwargs):
    try:
        out[name] = func(*args, **kwargs)
    except Exception as exc:
        out[name] = "raised %s" % type(exc).__name__


try:
    if "default" in parts:
        call("default", refextract.extract_references_from_string, "\n".join("[%d] %s" % x for x in enumerate(LINES, 1)))
        call("journals", extract_journal_info, [{"pubinfo_freetext": line} for line in LINES], None)
    if "small" in parts:
        call("fulltext", refextract.extract_references_from_string, FULL, is_only_references=False, override_kbs_files=impl.SMALL)
        path = impl.write(os.path.join(directory, "doc.txt"), FULL + "\n")
        call("file", refextract.extract_references_from_file, path, override_kbs_files=impl.SMALL)
        kb = impl.write(os.path.join(directory, "j.kb"), "".join("%s---%s\n" % (a, b) for a, b in JOURNALS))
        call("kbfile", refextract.extract_references_from_string, "Revue de Caf\u00e9 1 (1990) 2\nPhys. Rev. D 2 (1991) 3",
             override_kbs_files=impl.small_kbs(journals=kb))
        raw = "References\n" + "".join("[%d] \u00c4. Author, see %s and Caf\u00e9 \u2013 x\n" % (n, URLS[n]) for n in range(1, 5))
        names = {"cite.Author:20%02dab" % n: (50, 700 - 100 * n) for n in range(1, 5)}
        urls = [(url, 60 + 50 * n, 690 - 100 * k) for k in range(1, 5) for n, url in enumerate(URLS)]
        path = pdfs.make(directory, raw, content=pdfs.build([(600, names, urls)]))
        call("pdf", refextract.extract_references_from_file, path, override_kbs_files=impl.SMALL)
    if "service" in parts:
        call("text", extract_references_from_text, FULL, dict(JOURNALS))
        call("list", extract_references_from_list, LINES, dict(JOURNALS))
finally:
    shutil.rmtree(directory, ignore_errors=True)
sys.stdout.write(json.dumps(out, ensure_ascii=True, sort_keys=True))
