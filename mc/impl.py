"""Access to the implementation under test, and the small knowledge bases most
spaces use (loading and searching the shipped ones is 15 times slower)."""

import os
import shutil
import tempfile
import contextlib

JOURNALS = [
    ("PHYS REV", "Phys.Rev."),
    ("PHYSICAL REVIEW", "Phys.Rev."),
    ("PHYS REV D", "Phys.Rev.;D"),
    ("PHYS REV LETT", "Phys.Rev.Lett."),
    ("NUCL PHYS", "Nucl.Phys."),
    ("NUCL PHYS B", "Nucl.Phys.;B"),
    ("NUCL PHYS B PROC SUPPL", "Nucl.Phys.Proc.Suppl."),
    ("PHYS LETT", "Phys.Lett."),
    ("PHYS LETT B", "Phys.Lett.;B"),
    ("JHEP", "JHEP"),
    ("J HIGH ENERGY PHYS", "JHEP"),
    ("JCAP", "JCAP"),
    ("JINST", "JINST"),
    ("EUR PHYS J C", "Eur.Phys.J.;C"),
    ("ASTROPHYS J", "Astrophys.J."),
]
JOURNALS_RE = ["DAN---Dokl.Akad.Nauk Ser.Fiz."]
BOOKS = [
    ("Griffiths, David", "Introduction to elementary particles", "2008"),
    ("Peskin, M. and Schroeder, D.", "Introduction to Quantum Field Theory", "1995;"),
    ("Jackson, J.D.", "Classical Electrodynamics", "1998"),
]
PUBLISHERS = [
    ("World Scientific", "World Scientific"),
    ("CAMBRIDGE UNIVERSITY PRESS", "Cambridge Univ. Pr."),
    ("Springer", "Springer"),
]
COLLABORATIONS = [
    ("ATLAS Collaboration", "ATLAS"),
    ("CMS Collaboration", "CMS"),
    ("Super-Kamiokande Collaboration", "Super-Kamiokande"),
]
REPORTS = [
    "*****CERN*****",
    "< 9999 999>",
    "< 99 999>",
    "< yyyy 999>",
    "CERN PH EP---CERN-PH-EP",
    "CERN LHCC---CERN-LHCC",
    "CERN TH---CERN-TH",
    "*****FERMILAB*****",
    "< 99 999 [ACT ]>",
    "< 99 999>",
    "FERMILAB PUB---FERMILAB-Pub",
    "FERMILAB CONF---FERMILAB-Conf",
    "*****SLAC*****",
    "<s9999>",
    "<s99999>",
    "SLAC PUB---SLAC-PUB",
]
AUTHORS = ["Du\u0308rr---D\u00fcrr"]
SPECIAL = ["JHEP", "JCAP"]


def small_kbs(**changes):
    kbs = {
        "journals": JOURNALS,
        "journals_re": JOURNALS_RE,
        "books": BOOKS,
        "publishers": PUBLISHERS,
        "collaborations": COLLABORATIONS,
        "report-numbers": REPORTS,
        "authors": AUTHORS,
        "special_journals": SPECIAL,
    }
    kbs.update(changes)
    return kbs


SMALL = small_kbs()


def refs(text, kbs=SMALL, **kwargs):
    from refextract import extract_references_from_string

    return extract_references_from_string(text, override_kbs_files=kbs, **kwargs)


def journal(line, kbs=SMALL):
    from refextract import extract_journal_reference

    return extract_journal_reference(line, override_kbs_files=kbs)


def warm_small():
    """Load everything once before forking."""
    refs("[1] A. Author and B. Other, Phys. Rev. D 10 (1990) 20")


def warm_default():
    refs("[1] A. Author and B. Other, Phys. Rev. D 10 (1990) 20", kbs=None)


@contextlib.contextmanager
def scratch():
    directory = tempfile.mkdtemp(prefix="mcverif_")
    try:
        yield directory
    finally:
        shutil.rmtree(directory, ignore_errors=True)


def write(path, data):
    with open(path, "wb") as fh:
        fh.write(data if isinstance(data, bytes) else data.encode("utf-8"))
    return path


def canon(refs_list):
    """Comparable form (None stays None)"""
    import json

    return json.dumps(refs_list, sort_keys=True, default=repr, ensure_ascii=False)
