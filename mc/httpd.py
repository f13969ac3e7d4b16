"""A loopback HTTP server whose path says how to answer: /<hex of JSON>/name

status, headers, body (hex), plus faults: length (declared Content-Length),
cut (close after that many body bytes), reset (RST instead of FIN), chunked,
pieces (sizes), redirect (number of hops), close (before any answer), garbage.
The handler never waits for anything but the client.
"""

import json
import socket
import socketserver
import struct
import threading


class Handler(socketserver.StreamRequestHandler):
    def handle(self):
        self.request.settimeout(20)
        request = self.rfile.readline().decode("latin-1")
        headers = {}
        while True:
            line = self.rfile.readline().decode("latin-1").strip()
            if not line:
                break
            key, _, value = line.partition(":")
            headers[key.lower()] = value.strip()
        path = request.split(" ")[1]
        spec = json.loads(bytes.fromhex(path.split("/")[1].split("?")[0]))
        want = spec.get("require")
        if want and any(headers.get(k.lower()) != v for k, v in want.items()):
            self.send(b"HTTP/1.1 403 Forbidden\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
            return
        if spec.get("close"):
            return self.reset() if spec.get("reset") else None
        if spec.get("garbage"):
            self.send(bytes.fromhex(spec["garbage"]))
            return
        if spec.get("redirect"):
            rest = dict(spec, redirect=spec["redirect"] - 1)
            location = "/%s/%s" % (json.dumps(rest).encode().hex(), path.split("/", 2)[2])
            self.send(("HTTP/1.1 302 Found\r\nLocation: %s\r\nContent-Length: 0\r\nConnection: close\r\n\r\n" % location).encode())
            return
        body = bytes.fromhex(spec.get("body", ""))
        head = "HTTP/1.1 %d Answer\r\nConnection: close\r\n" % spec.get("status", 200)
        for key, value in spec.get("headers", {}).items():
            head += "%s: %s\r\n" % (key, value)
        if spec.get("chunked"):
            head += "Transfer-Encoding: chunked\r\n"
            size = spec["chunked"]
            parts = [body[i : i + size] for i in range(0, len(body), size)]
            wire = b"".join(b"%x\r\n%s\r\n" % (len(p), p) for p in parts) + b"0\r\n\r\n"
        else:
            length = spec.get("length", len(body))
            if length is not None:
                head += "Content-Length: %d\r\n" % length
            wire = body
        if "cut" in spec:
            wire = wire[: spec["cut"]]
        self.send(head.encode() + b"\r\n")
        step = spec.get("piece", 0) or len(wire) or 1
        for i in range(0, len(wire), step):
            self.send(wire[i : i + step])
        if spec.get("reset"):
            self.reset()

    def send(self, data):
        try:
            self.request.sendall(data)
        except OSError:
            pass

    def reset(self):
        self.request.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.request.close()


class Server(socketserver.ThreadingTCPServer):
    daemon_threads = True
    allow_reuse_address = True
    request_queue_size = 128

    def handle_error(self, request, client_address):
        pass

    def shutdown_request(self, request):
        try:
            super().shutdown_request(request)
        except OSError:
            pass


_server = None


def start():
    global _server
    if _server is None:
        _server = Server(("127.0.0.1", 0), Handler)
        threading.Thread(target=_server.serve_forever, daemon=True).start()
    return port()


def port():
    return _server.server_address[1]


def url(spec, name="doc.pdf"):
    return "http://127.0.0.1:%d/%s/%s" % (port(), json.dumps(spec).encode().hex(), name)


def closed_port():
    sock = socket.socket()
    sock.bind(("127.0.0.1", 0))
    number = sock.getsockname()[1]
    sock.close()
    return number
