"""Downloads: the whole document or an error, and nothing left behind."""

import gzip
import itertools
import os
import tempfile

from mc import httpd, impl, pdfs
from mc.core import ListSpace, Violation

pdfs.use_stub()

PROPERTY = "C05"
TITLE = "Extraction from a URL uses the whole document or fails, leaving no file"
STATEMENT = (
    "extract_references_from_url returns what extract_references_from_file returns for the served document, whatever the URL, chunk size, transfer coding, "
    "compression, redirections and file name, with the given request headers sent and the other options honoured. An HTTP error status raises FullTextNotAvailableError, a document that is no text or PDF "
    "UnknownDocumentTypeError, and a refused, reset or incomplete transfer (at whatever byte) an exception, never the references of a part of the document; "
    "extract_references_from_file_url turns every failure into None. Whatever the outcome, no temporary file is left."
)
QUANT = (["fault_sequences", "inputs"], "every HTTP answer and every point at which a transfer can break")
WHY = "Tests use one good URL, a 404 and a wrong type; faults in the middle of a transfer and the clean-up after them are not tested."
ANCHORS = {
    "files": ["refextract/references/api.py", "refextract/extract.py", "refextract/references/errors.py"],
    "mechanism": [
        {"name": "download to a temporary file", "where": "api.extract_references_from_url"},
        {"name": "removal in finally", "where": "api.extract_references_from_url"},
        {"name": "failures turned into None", "where": "extract.extract_references_from_file_url"},
    ],
    "observe_at": ["refextract.extract_references_from_url", "refextract.extract.extract_references_from_file_url"],
}
TECHNIQUE = "exhaustive fault injection at every byte of the transfer by a scripted loopback HTTP server, on the real code"
NOTE = "Every status code, cut point, transfer coding and chunk size within the bounds is served by the scripted server."
LEVEL = "fault_enumeration"
RULE = "a case is one scripted HTTP exchange (status, headers, coding, cut point, reset) with one set of arguments; distinct by its outcome"
BOUNDS = {
    "quick": "all status codes 200, 400-417, 421-431, 451, 500-511; a text (3 codings), a gzip and a PDF document (2 codings) cut at each byte, with FIN and RST; 9 chunk sizes x 4 pieces x 3 codings; 12 URLs; 0-3 redirects; 12 argument sets",
    "thorough": "additionally cut at every byte for each of 139 chunk sizes",
}
ASSUMPTIONS = ["loopback HTTP; the TLS layer and DNS are those of requests"]

TEXT = "Some text\nReferences\n[1] A. Author, Phys. Rev. D 10 (1990) 20\n[2] zebra, JHEP 03 (2003) 012\n[3] quokka, doi:10.1000/ab\n"
DATA = TEXT.encode()
GZ = gzip.compress(DATA, mtime=0)


def attempt(url, service=False, **kwargs):
    """(result, name of exception, files left)"""
    from refextract import extract_references_from_url
    from refextract.extract import extract_references_from_file_url

    saved = tempfile.tempdir
    with impl.scratch() as directory:
        tempfile.tempdir = directory
        try:
            try:
                if service:
                    result = extract_references_from_file_url(url, impl.JOURNALS)
                else:
                    result = extract_references_from_url(url, **dict({"override_kbs_files": impl.SMALL}, **kwargs))
                name = None
            except Exception as exc:
                result, name = None, type(exc).__name__
        finally:
            tempfile.tempdir = saved
        left = os.listdir(directory)
    return result, name, left


def from_file(data, **kwargs):
    from refextract import extract_references_from_file

    with impl.scratch() as directory:
        path = impl.write(os.path.join(directory, "doc.pdf"), data)
        return extract_references_from_file(path, **dict({"override_kbs_files": impl.SMALL}, **kwargs))


def check(case, expected):
    """expected: 'refs', an exception name, or 'error' (any)"""
    url = case.get("url") or httpd.url(case["spec"], case.get("name", "doc.pdf"))
    if url.startswith(":"):
        url = url.replace(":closed", "http://127.0.0.1:%d" % httpd.closed_port())
    kwargs = dict(case.get("kwargs", {}))
    if case.get("linker"):
        kwargs["linker_callback"] = lambda citation: {"url": "http://link"} if case["linker"] == "link" else 1 / 0
    if case.get("kbs"):
        kwargs["override_kbs_files"] = dict(impl.SMALL, journals=case["kbs"])
    result, name, left = attempt(url, **kwargs)
    if left:
        raise Violation("temporary files left: %r" % left)
    if expected == "refs":
        for key in ("headers", "chunk_size"):
            kwargs.pop(key, None)
        if name:
            raise Violation("raised %s" % name)
        want = from_file(bytes.fromhex(case.get("data") or case["spec"]["body"]), **kwargs)
        if result != want or not want:
            raise Violation("%r instead of %r" % (result, want))
    elif expected == "error":
        if name is None:
            raise Violation("returned %r" % result)
    elif name != expected:
        raise Violation("%s instead of %s (%r)" % (name, expected, result))
    if case.get("service"):
        served, name, left = attempt(url, service=True)
        if left or name:
            raise Violation("service: raised %s, left %r" % (name, left))
        if expected == "refs":
            if not isinstance(served, dict) or [r["raw_ref"] for r in served["extracted_references"]] != [r["raw_ref"] for r in want]:
                raise Violation("service: %r" % served)
        elif served is not None:
            raise Violation("service: %r" % served)
    return "%s %s" % (expected, name)


def run_ok(case):
    return check(case, "refs")


def run_status(case):
    return check(case, "FullTextNotAvailableError")


def run_type(case):
    return check(case, "UnknownDocumentTypeError")


def run_error(case):
    return check(case, "error")


def good():
    body = DATA.hex()
    for size in (1, 2, 7, 64, 140, 141, 1024, 4096, 10**6):
        for piece in (0, 1, 13, 100):
            for coding in ({}, {"chunked": 1}, {"chunked": 50}):
                yield {"spec": dict(coding, body=body, piece=piece), "kwargs": {"chunk_size": size}}
    for name in ("doc.pdf", "", "a.txt", "doc.pdf?x=1&y=/z", "x" * 240 + ".pdf", "\u00e9" * 200 + ".pdf", "\u6f22" * 300, "d%20oc.pdf", "doc/", "\u00e9.pdf", "a;b", "doc.pdf#frag", "?q=a/b"):
        yield {"spec": {"body": body}, "name": name, "service": True}
    for hops in range(4):
        yield {"spec": {"body": body, "redirect": hops}, "service": True}
    yield {"spec": {"body": body, "length": None}, "service": True}
    for level in (0, 1, 9):
        packed = gzip.compress(DATA, level, mtime=0)
        for coding in ({}, {"chunked": 20}):
            for size in (1, 10, 1024):
                yield {"spec": dict(coding, body=packed.hex(), headers={"Content-Encoding": "gzip"}), "data": body, "kwargs": {"chunk_size": size}}
    for kind in ("application/pdf", "text/html", "application/octet-stream", ""):
        yield {"spec": {"body": body, "headers": {"Content-Type": kind}}, "service": True}
    long = (TEXT + "".join("[%d] word %s\n" % (n, "y" * 200) for n in range(4, 60))).encode()
    for size in (1, 1000, 1024, 5000):
        yield {"spec": {"body": long.hex()[:6000] + "0a", "piece": 777}, "kwargs": {"chunk_size": size}}
    for status in (200, 201, 203, 206):
        yield {"spec": {"body": body, "status": status}}


def arguments():
    body = DATA.hex()
    for fmt in ("{title},{volume},{page}", "{year}", "{title} {volume} ({year}) {page}"):
        yield {"spec": {"body": body}, "kwargs": {"reference_format": fmt}}
        yield {"spec": {"body": body}, "kwargs": {"reference_format": fmt, "recid": 5}}
    yield {"spec": {"body": body}, "linker": "link"}
    yield {"spec": {"body": body}, "kbs": [["PHYS REV D", "Other.Title."]]}
    for headers in ({"X-Token": "abc"}, {"User-Agent": "me"}, {"X-Token": "abc", "Accept": "application/pdf"}):
        yield {"spec": {"body": body, "require": headers}, "kwargs": {"headers": headers}}
        yield {"spec": {"body": body, "require": headers, "redirect": 1}, "kwargs": {"headers": headers, "chunk_size": 10}}


def statuses():
    for status in list(range(400, 418)) + list(range(421, 432)) + [451] + list(range(500, 512)):
        for body in (b"", b"<html>error</html>", DATA):
            yield {"spec": {"status": status, "body": body.hex()}, "service": True}
    for status in (403, 404, 500):
        yield {"spec": {"status": status, "body": DATA.hex(), "redirect": 1}, "service": True}
        yield {"spec": {"status": status, "body": DATA.hex(), "chunked": 7}, "name": "y" * 300, "service": True}


def types():
    for body in (b"", b"<html><body>References [1] A</body></html>", b"\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR", bytes(range(256)), b"\x00" * 10):
        for coding in ({}, {"chunked": 3}):
            yield {"spec": dict(coding, body=body.hex()), "service": True}


def cuts(data, codings, headers):
    def generate():
        for coding in codings:
            spec = dict(coding, body=data.hex(), headers=headers)
            wire = len(data)
            if "chunked" in coding:
                size = coding["chunked"]
                wire = sum(len("%x" % len(data[i : i + size])) + 4 + len(data[i : i + size]) for i in range(0, len(data), size)) + 1
            for cut in range(wire):
                for reset in (False, True):
                    yield {"spec": dict(spec, cut=cut, reset=reset), "service": cut % 10 == 0}

    return generate


def broken():
    yield {"spec": {"close": True}, "service": True}
    yield {"spec": {"close": True, "reset": True}, "service": True}
    yield {"spec": {"redirect": 50, "body": DATA.hex()}, "service": True}
    for garbage in (b"nonsense\r\n\r\n", b"HTTP/1.1 abc\r\n\r\n", b"", b"HTTP/1.1", b"\x00" * 50):
        yield {"spec": {"garbage": garbage.hex() or "0a"}, "service": True}
    for bad in (DATA, GZ[:20], b"", b"\x1f\x8b"):
        if bad:
            yield {"spec": {"body": bad.hex(), "headers": {"Content-Encoding": "gzip"}}, "service": True}
    yield {"url": ":closed/doc.pdf", "service": True}
    yield {"spec": {"body": DATA.hex()}, "linker": "raise"}
    yield {"spec": {"body": DATA.hex()}, "kbs": [["only one"]]}
    yield {"spec": {"body": DATA.hex()}, "kbs": "/nonexistent/file.kb"}
    for url in ("", "nonsense", "http://", "ftp://127.0.0.1/x", "file:///etc/hostname", "http://[::1", "http:///x", "http://127.0.0.1:99999/x"):
        yield {"url": url or "?", "service": True}


def spaces(tier):
    def setup():
        os.environ["NO_PROXY"] = os.environ["no_proxy"] = "*"
        httpd.start()
        impl.warm_small()

    yield ListSpace("good", lambda: good(), run_ok, rule="complete transfers", setup=setup)
    yield ListSpace("arguments", lambda: arguments(), run_ok, rule="arguments", setup=setup)
    yield ListSpace("status", lambda: statuses(), run_status, rule="HTTP error status", setup=setup)
    yield ListSpace("types", lambda: types(), run_type, rule="other documents", setup=setup)
    yield ListSpace("cuts", cuts(DATA, [{}, {"chunked": 16}, {"chunked": 1000}], {}), run_error, rule="transfer broken at every byte", setup=setup)
    yield ListSpace("broken", lambda: broken(), run_error, rule="no or invalid answers, invalid URLs", setup=setup)
    yield ListSpace("cuts-gzip", cuts(GZ, [{}, {"chunked": 10}], {"Content-Encoding": "gzip"}), run_error, rule="compressed transfer broken at every byte", setup=setup)
    yield ListSpace("cuts-pdf", cuts(pdfs.MINIMAL, [{}, {"chunked": 64}], {}), run_error, rule="PDF transfer broken at every byte", setup=setup)
    if tier == "thorough":
        sizes = [{"chunked": n} for n in range(1, 140)]
        yield ListSpace("cuts-sizes", cuts(DATA, sizes, {}), run_error, rule="broken at every byte for every chunk size", setup=setup)
