"""A stand-in for the tracking backend, on the loopback network, that keeps what it is told."""
import json
import threading
import time
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import parse_qs, urlsplit

SPACES = {}


class Space:
    """one scenario's backend"""

    def __init__(self):
        self.lock = threading.Lock()
        self.log = []          # everything, in the order it happened (the harness adds its own events)
        self.bulk = 0
        self.refuse = {}       # index of a bulk request -> status, or 0: drop the connection
        self.hold = {}         # index -> seconds
        self.templates, self.keys, self.runs = {}, {}, {}
        self.n = 0

    def add(self, **e):
        with self.lock:
            self.log.append(e)


class H(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def log_message(self, *a):
        pass

    def reply(self, code, obj):
        b = json.dumps(obj).encode()
        self.send_response(code)
        self.send_header("Content-Type", "application/json")
        self.send_header("Content-Length", str(len(b)))
        self.end_headers()
        self.wfile.write(b)

    def go(self):
        u = urlsplit(self.path)
        q = {k: v[0] for k, v in parse_qs(u.query).items()}
        parts = [p for p in u.path.split("/") if p]
        sp = SPACES.get(parts[0])
        n = int(self.headers.get("Content-Length") or 0)
        raw = self.rfile.read(n) if n else b""
        body = json.loads(raw) if raw else None
        if sp is None:
            return self.reply(404, {})
        what = parts[3] if len(parts) > 3 else ""
        if self.command == "GET" and what in ("phone_home", "projects"):
            return self.reply(200, {})
        if self.command == "GET" and what == "dag_templates":
            with sp.lock:
                t = sp.keys.get((q["dag_hash"], q["code_hash"], q["dag_name"]))
            return self.reply(200, None if t is None else {"id": t})
        if self.command == "POST" and what == "dag_templates":
            with sp.lock:
                sp.n += 1
                sp.keys[(body["dag_hash"], body["code_hash"], body["name"])] = sp.n
                sp.templates[sp.n] = body
                return self.reply(200, {"id": sp.n})
        if self.command == "POST" and what == "dag_runs":
            with sp.lock:
                sp.n += 1
                sp.runs[sp.n] = dict(tmpl=int(q["dag_template_id"]), body=body, ends=[])
                return self.reply(200, {"id": sp.n})
        if self.command == "PUT" and what == "dag_runs":
            with sp.lock:
                sp.runs[int(parts[4])]["ends"].append(body["run_status"])
            return self.reply(200, {})
        if self.command == "PUT" and what == "dag_runs_bulk":
            with sp.lock:
                i = sp.bulk
                sp.bulk += 1
            if sp.hold.get(i):
                time.sleep(sp.hold[i])
            code = sp.refuse.get(i, 200)
            sp.add(ev="recv", run=q["dag_run_id"], body=body, ok=code == 200)
            if code == 0:
                self.close_connection = True
                return None
            return self.reply(code, {})
        return self.reply(404, {})

    do_GET = do_POST = do_PUT = go


_server = None


def server():
    global _server
    if _server is None:
        _server = ThreadingHTTPServer(("127.0.0.1", 0), H)
        _server.daemon_threads = True
        threading.Thread(target=_server.serve_forever, kwargs=dict(poll_interval=.02), daemon=True).start()
    return f"http://127.0.0.1:{_server.server_port}"


def space():
    name = f"s{len(SPACES)}"
    SPACES[name] = Space()
    return SPACES[name], f"{server()}/{name}"
