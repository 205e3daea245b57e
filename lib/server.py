"""A local HTTP server of a directory, in its own process, that logs the requests and injects faults.

Control requests (not logged): GET /__take returns and clears the log, POST /__faults sets
{path: [fault, ...]} (a fault is used by one GET of that path, the last one stays when "sticky"),
POST /__options sets {"etag": bool, "ranges": bool, "head": "ok" | "fail" | "nolength", "down": bool}.
"down" answers nothing: the connections are closed at once.
"""

import hashlib
import http.client
import json
import os
import socket
import struct
import subprocess
import sys
import threading
import time
from http.server import BaseHTTPRequestHandler
from http.server import ThreadingHTTPServer


class State:
    def __init__(self, root):
        self.root = root
        self.lock = threading.Lock()
        self.log = []
        self.faults = {}
        self.options = {"etag": True, "ranges": True, "head": "ok", "down": False}


class Handler(BaseHTTPRequestHandler):
    state = None

    def log_message(self, *args):
        pass

    def abort(self):
        # RST instead of an orderly end
        self.close_connection = True
        try:
            self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError:
            pass
        self.connection.close()

    def body(self, data, status=200, length=True, headers=(), only=None):
        self.send_response(status)
        if length:
            self.send_header("Content-Length", str(len(data)))
        for k, v in headers:
            self.send_header(k, v)
        self.end_headers()
        if self.command != "HEAD":
            self.wfile.write(data if only is None else data[:only])
            self.wfile.flush()

    def do_POST(self):
        s = self.state
        d = json.loads(self.rfile.read(int(self.headers["Content-Length"])))
        with s.lock:
            if self.path == "/__faults":
                s.faults = d
            elif self.path == "/__options":
                s.options.update(d)
        self.body(b"{}")

    def do_HEAD(self):
        self.serve()

    def do_GET(self):
        s = self.state
        if self.path == "/__take":
            with s.lock:
                r, s.log = s.log, []
            self.body(json.dumps(r).encode())
            return
        self.serve()

    def serve(self):
        try:
            self.answer()
        except (BrokenPipeError, ConnectionResetError, ValueError, OSError):
            pass

    def answer(self):
        s = self.state
        fault = None
        with s.lock:
            o = dict(s.options)
            if self.command == "GET" and not o["down"]:
                q = s.faults.get(self.path)
                if q:
                    fault = q[0] if q[0].get("sticky") else q.pop(0)
            s.log.append([self.command, self.path, fault["kind"] if fault else "down" if o["down"] else None, self.headers.get("Range")])
        if o["down"] or (self.command == "HEAD" and o["head"] == "close"):
            return self.abort()
        if self.command == "HEAD" and o["head"] == "silent":
            time.sleep(600)
            return self.abort()
        if self.command == "HEAD" and o["head"] == "fail":
            return self.body(b"", 405)

        path = os.path.join(s.root, self.path.lstrip("/"))
        try:
            with open(path, "rb") as f:
                data = f.read()
        except OSError:
            return self.body(b"not found", 404)

        headers = []
        if o["etag"]:
            headers.append(("ETag", '"' + hashlib.md5(data).hexdigest() + '"'))
        if o["ranges"]:
            headers.append(("Accept-Ranges", "bytes"))
        length = not (self.command == "HEAD" and o["head"] == "nolength")

        status = 200
        r = self.headers.get("Range")
        if r and o["ranges"] and r.startswith("bytes=") and r.endswith("-"):
            start = int(r[6:-1])
            if start >= len(data):
                return self.body(b"", 416)
            headers.append(("Content-Range", f"bytes {start}-{len(data) - 1}/{len(data)}"))
            data = data[start:]
            status = 206

        if fault is None:
            return self.body(data, status, length=length, headers=headers)

        kind = fault["kind"]
        n = int(len(data) * fault.get("part", 0.5))
        if kind == "status":
            return self.body(b"failed", fault["code"])
        if kind == "close":
            return self.abort()
        if kind == "silent":  # no answer at all
            time.sleep(fault.get("seconds", 600))
            return self.abort()
        if kind == "truncate":  # less than announced
            self.body(data, status, headers=headers, only=n)
            return self.abort() if fault.get("reset") else None
        if kind == "short":  # less, without saying how much it is
            return self.body(data[:n], status, length=False)
        if kind == "cut":  # less, and announced as such
            return self.body(data[:n], status)
        if kind == "empty":
            return self.body(b"")
        if kind == "html":
            return self.body(b"<html><body>The service is being maintained</body></html>\n")
        if kind == "garbage":
            x = bytearray(data)
            for i in range(n, min(len(x), n + 64)):
                x[i] ^= 0x5A
            return self.body(bytes(x), status, headers=headers)
        if kind == "content":  # something else altogether
            return self.body(bytes.fromhex(fault["data"]))
        if kind == "stall":
            self.body(data, status, headers=headers, only=n)
            time.sleep(fault.get("seconds", 3))
            return self.abort()
        raise RuntimeError(kind)


def main(root):
    state = State(root)

    class H(Handler):
        pass

    H.state = state
    ThreadingHTTPServer.daemon_threads = True
    ThreadingHTTPServer.request_queue_size = 128
    server = ThreadingHTTPServer(("127.0.0.1", 0), H)
    print(server.server_address[1], flush=True)
    # ends with the check, whose end closes the pipe
    threading.Thread(target=lambda: (sys.stdin.read(), os._exit(0)), daemon=True).start()
    server.serve_forever(poll_interval=0.05)


class Server:
    """The other side, in the check."""

    def __init__(self, root):
        os.makedirs(root, exist_ok=True)
        self.root = root
        self.process = subprocess.Popen(
            [sys.executable, os.path.abspath(__file__), root], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True
        )
        self.port = int(self.process.stdout.readline())
        self.url = f"http://127.0.0.1:{self.port}/"

    def control(self, method, path, obj=None):
        for attempt in range(5):
            try:
                c = http.client.HTTPConnection("127.0.0.1", self.port, timeout=30)
                c.request(method, path, body=None if obj is None else json.dumps(obj))
                r = json.loads(c.getresponse().read())
                c.close()
                return r
            except OSError:
                if attempt == 4:
                    raise
                time.sleep(0.2)

    def take(self):
        """The requests since the last time: [method, path, fault, range]"""
        return self.control("GET", "/__take")

    def faults(self, faults):
        self.control("POST", "/__faults", faults)

    def options(self, **options):
        self.control("POST", "/__options", options)

    def stop(self):
        self.process.kill()


if __name__ == "__main__":
    main(sys.argv[1])
