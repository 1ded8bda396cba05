"""Simulated network: HTTP exchanges between nodes, clients and stub servers."""
import base64
import errno
import io
import sys
from urllib.parse import unquote_to_bytes, urlsplit

from . import core
from .core import DEAD


class NetError(Exception):
    """the client of an exchange sees a network failure."""

    def __init__(self, kind, msg=""):
        super().__init__(f"{kind} {msg}")
        self.kind = kind    # refused, timeout, reset


class Pipe:
    """body stream from server to client."""

    def __init__(self):
        self.buf = bytearray()
        self.eof = False
        self.broken = False
        self.waiters = []
        self.reader_gone = False
        self.total = 0

    def put(self, data):
        self.buf += data
        self.total += len(data)
        core.SIM.wake_all(self.waiters)

    def finish(self, broken=False):
        self.eof = True
        self.broken = self.broken or broken
        core.SIM.wake_all(self.waiters)


class Exchange:
    __slots__ = ("status", "headers", "pipe", "ready", "waiters", "server_task",
                 "dst", "src", "error", "done", "path")

    def __init__(self, src, dst):
        self.src = src
        self.dst = dst
        self.status = None
        self.headers = None
        self.pipe = Pipe()
        self.ready = False
        self.waiters = []
        self.server_task = None
        self.error = None
        self.done = False


class ClientGone(Exception):
    """server side: the client closed the connection."""


class Host:
    """anything that has an address and may serve requests."""
    skew = 0.0
    dir = "\0"
    alive = True
    threads = 50
    app_errors = None

    def __init__(self, name):
        self.name = name
        self.tasks = []
        self.app = None
        self.busy = 0
        self.busy_waiters = []
        self.exchanges = []

    def disk_fault(self, kind, rel):
        pass

    def accepting(self):
        return self.alive and self.app is not None


class Network:
    """latencies, partitions and faults of all links."""

    def __init__(self, sim, cfg):
        self.sim = sim
        self.cfg = cfg
        self.hosts = {}
        self.blocked = set()     # frozenset({a, b}) partitions
        self.latency = cfg.get("latency", [0.0005, 0.02])
        self.rates = dict(cfg.get("faults", {}))   # kind -> probability
        self.garbled = []       # (node, path, time) of downloads with a wrong byte
        self.links = cfg.get("links")    # restrict faults to these (src,dst) prefixes
        self.enabled = True

    def add(self, netloc, host):
        self.hosts[netloc] = host

    def faulty(self, kind, src, dst):
        rate = self.rates.get(kind, 0.0)
        if not rate or not self.enabled:
            return False
        if self.links is not None and f"{src.name}>{dst.name}" not in self.links:
            return False
        if self.sim.net_rng.random() < rate:
            self.sim.count(f"fault:net-{kind}")
            self.sim.note("net-fault", kind, src.name, dst.name)
            return True
        return False

    def partitioned(self, a, b):
        return frozenset((a.name, b.name)) in self.blocked

    def delay(self):
        lo, hi = self.latency
        rng = self.sim.net_rng
        d = lo + (hi - lo) * rng.random()
        if self.enabled and self.rates.get("slow") and rng.random() < self.rates["slow"]:
            self.sim.count("fault:net-slow")
            d += rng.random() * self.cfg.get("slow_max", 8.0)
        return d

    def _wait_timeout(self, timeout, what):
        sim = self.sim
        if timeout is None:
            # the kernel gives up at some time
            timeout = 130.0
        sim.sleep(timeout)
        raise NetError("timeout", what)

    # -- one exchange ----------------------------------------------------

    def open(self, src, method, url, headers, body=b"", connect_timeout=None, read_timeout=None):
        """perform a request up to the response headers.

        Runs in the calling task.  Returns an Exchange or raises NetError.
        """
        sim = self.sim
        u = urlsplit(url)
        dst = self.hosts.get(u.netloc)
        sim.point("net.send")
        if dst is None:
            raise NetError("refused", f"unknown host {u.netloc}")
        if self.partitioned(src, dst):
            sim.count("fault:net-partitioned")
            if sim.net_rng.random() < 0.5:
                self._wait_timeout(connect_timeout, "connect")
            raise NetError("refused", "no route to host")
        if self.faulty("refuse", src, dst):
            raise NetError("refused", "injected")
        if self.faulty("connect_timeout", src, dst):
            self._wait_timeout(connect_timeout, "connect")
        sim.sleep(self.delay())
        if not dst.accepting():
            raise NetError("refused", "connection refused")
        if self.faulty("lose_request", src, dst):
            if sim.net_rng.random() < 0.5:
                raise NetError("reset", "injected before processing")
            self._wait_timeout(read_timeout, "read")
        ex = Exchange(src, dst)
        dst.exchanges.append(ex)
        environ = make_environ(method, u, headers, body, src)
        ex.path = environ["PATH_INFO"]
        lose_response = self.faulty("lose_response", src, dst)
        sim.count("net:requests")
        ex.server_task = sim.spawn(
            lambda: self.serve(ex, dst, environ), f"{dst.name}:req", dst)
        ex.server_task.op = sim.cur.op
        end = None if read_timeout is None else sim.now + read_timeout
        while not ex.ready:
            left = None if end is None else end - sim.now
            if left is not None and left <= 0:
                ex.pipe.reader_gone = True
                raise NetError("timeout", "read")
            sim.block(ex.waiters, left)
        if ex.error is not None:
            raise NetError(ex.error)
        d = self.delay()
        if end is not None and sim.now + d > end:
            ex.pipe.reader_gone = True
            sim.sleep(max(0.0, end - sim.now))
            raise NetError("timeout", "read")
        sim.sleep(d)
        if lose_response or self.partitioned(src, dst):
            ex.pipe.reader_gone = True
            if self.partitioned(src, dst) and sim.net_rng.random() < 0.5:
                self._wait_timeout(read_timeout, "read")
            raise NetError("reset", "response lost")
        return ex

    def serve(self, ex, host, environ):
        """server side of an exchange, runs as task of the serving host."""
        sim = self.sim
        while host.busy >= host.threads:
            sim.block(host.busy_waiters)
        host.busy += 1
        app_iter = None
        pipe = ex.pipe
        written = [0]
        clen = [None]

        def start_response(status, headers, exc_info=None):
            if ex.ready and exc_info:
                raise exc_info[1].with_traceback(exc_info[2])
            ex.status = int(status.split()[0])
            ex.headers = [(str(k), str(v)) for k, v in headers]
            return None

        def headers_sent():
            if not ex.ready:
                ex.ready = True
                for k, v in ex.headers:
                    if k.lower() == "content-length":
                        clen[0] = int(v)
                sim.wake_all(ex.waiters)

        try:
            try:
                app_iter = host.app(environ, start_response)
                if app_iter.__class__.__name__ == "FileWrapper" or hasattr(app_iter, "__len__") and len(app_iter) == 1:
                    pass
                for chunk in app_iter:
                    if not chunk:
                        continue
                    if pipe.reader_gone:
                        raise ClientGone()
                    headers_sent()
                    written[0] += len(chunk)
                    pipe.put(chunk)
                    sim.point("net.chunk")
                if ex.status is None:
                    raise RuntimeError("start_response was not called")
                headers_sent()
                short = clen[0] is not None and written[0] < clen[0] and environ["REQUEST_METHOD"] != "HEAD"
                pipe.finish(broken=short)
            except ClientGone:
                sim.count("net:client-gone")
                pipe.finish(broken=True)
            except Exception as e:
                # waitress: 500 if nothing was sent yet, else close
                sim.note("app-exc", type(e).__name__)
                if host.app_errors is not None:
                    import traceback
                    host.app_errors.append((environ["REQUEST_METHOD"], environ["PATH_INFO"], type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:]))
                if not ex.ready:
                    ex.status = 500
                    ex.headers = [("Content-Type", "text/plain")]
                    body = b"Internal Server Error"
                    headers_sent()
                    pipe.put(body)
                    pipe.finish()
                else:
                    pipe.finish(broken=True)
        finally:
            try:
                if hasattr(app_iter, "close"):
                    app_iter.close()
            except Exception as e:
                sim.note("close-exc", type(e).__name__)
            ex.done = True
            if ex in host.exchanges:
                host.exchanges.remove(ex)
            host.busy -= 1
            sim.wake_one(host.busy_waiters)

    def host_down(self, host):
        """all connections of a crashed host break."""
        for ex in list(host.exchanges):
            if not ex.ready:
                ex.error = "reset"
                ex.ready = True
                self.sim.wake_all(ex.waiters)
            ex.pipe.finish(broken=True)
        host.exchanges.clear()
        host.busy = 0
        host.busy_waiters = []

    def body(self, ex, read_timeout=None):
        return BodyReader(self, ex, read_timeout)


class BodyReader(io.RawIOBase):
    """client side file-like object for the response body."""

    def __init__(self, net, ex, read_timeout):
        self.net = net
        self.ex = ex
        self.read_timeout = read_timeout
        self.cut = None        # break the connection after that many bytes
        self.clean_eof = False
        self.fin = False       # broken by an orderly close of the connection
        self.flip = None       # position of a wrong byte
        self.got = 0
        self.flags = 0
        self.at_eof = False
        self.replaced = False  # another reader reads this pipe now
        self.length = None
        for k, v in ex.headers or ():
            if k.lower() == "content-length" and v.isdigit():
                self.length = int(v)

    def readable(self):
        return True

    def isclosed(self):
        # http.client closes the response as soon as everything is read
        return self.at_eof or self.closed

    def read(self, amt=None):
        if amt is None or amt < 0:
            out = []
            while True:
                b = self.read(65536)
                if not b:
                    return b"".join(out)
                out.append(b)
        if amt == 0:
            return b""
        sim = core.SIM
        pipe = self.ex.pipe
        sim.point("net.recv")
        # like a buffered file: block until amt bytes or EOF
        out = bytearray()
        end = None if self.read_timeout is None else sim.now + self.read_timeout
        while len(out) < amt:
            if self.length is not None and self.got >= self.length:
                self.at_eof = True
                break
            if self.cut is not None and self.got >= self.cut:
                pipe.reader_gone = True
                if self.clean_eof or self.fin:
                    self.at_eof = True
                    break
                raise ConnectionResetError(errno.ECONNRESET, "injected reset")
            if pipe.buf:
                n = min(amt - len(out), len(pipe.buf))
                if self.cut is not None:
                    n = min(n, self.cut - self.got)
                out += pipe.buf[:n]
                del pipe.buf[:n]
                if self.flip is not None and self.got <= self.flip < self.got + n:
                    out[self.flip - self.got - n] ^= 0x5a
                    self.net.garbled.append((self.ex.src.name, self.ex.path, sim.now))
                self.got += n
                continue
            if pipe.eof:
                if pipe.broken:
                    raise ConnectionResetError(errno.ECONNRESET, "connection broken")
                self.at_eof = True
                break
            left = None if end is None else end - sim.now
            if left is not None and left <= 0:
                pipe.reader_gone = True
                raise TimeoutError("timed out")
            sim.block(pipe.waiters, left)
        return bytes(out)

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)

    def close(self):
        if not self.closed:
            if not self.replaced and (not self.ex.pipe.eof or self.ex.pipe.buf):
                self.ex.pipe.reader_gone = True
            super().close()


class ChunkedReader(BodyReader):
    """like http.client.HTTPResponse for Transfer-Encoding: chunked."""

    def __init__(self, net, ex, read_timeout):
        super().__init__(net, ex, read_timeout)
        self.fp = self
        self.left = None    # of the current chunk, -1: only CRLF is left
        self.ended = False

    def readline(self, limit=-1):
        sim = core.SIM
        pipe = self.ex.pipe
        if self.ended:
            self.fp = None
            self.at_eof = True
            return b"\r\n"
        sim.point("net.recv")
        end = None if self.read_timeout is None else sim.now + self.read_timeout
        while not pipe.buf:
            if pipe.eof:
                if pipe.broken:
                    if sim.net_rng.random() < 0.5:
                        return b""      # ended prematurely
                    raise ConnectionResetError(errno.ECONNRESET, "connection broken")
                if self.cut is not None and self.got >= self.cut:
                    return b""
                self.ended = True
                return b"0\r\n"
            left = None if end is None else end - sim.now
            if left is not None and left <= 0:
                pipe.reader_gone = True
                raise TimeoutError("timed out")
            sim.block(pipe.waiters, left)
        self.left = len(pipe.buf)
        return b"%x\r\n" % self.left

    def _safe_read(self, n):
        if self.left == 0:
            self.left = None
            return b"\r\n"
        data = super().read(n)
        self.left -= len(data)
        return data


def make_environ(method, u, headers, body, src):
    hdrs = {}
    for k, v in (headers.items() if hasattr(headers, "items") else headers):
        if isinstance(k, bytes):
            k = k.decode("latin-1")
        if isinstance(v, bytes):
            v = v.decode("latin-1")
        hdrs[k] = v
    environ = {
        "REQUEST_METHOD": method,
        "SCRIPT_NAME": "",
        "PATH_INFO": unquote_to_bytes(u.path or "/").decode("latin-1"),
        "QUERY_STRING": u.query,
        "SERVER_NAME": u.hostname,
        "SERVER_PORT": str(u.port or (443 if u.scheme == "https" else 80)),
        "SERVER_PROTOCOL": "HTTP/1.1",
        "REMOTE_ADDR": "10.0.0.%d" % (1 + sum(src.name.encode()) % 250),
        "REMOTE_HOST": src.name,
        "wsgi.version": (1, 0),
        "wsgi.url_scheme": u.scheme,
        "wsgi.input": io.BytesIO(body),
        "wsgi.errors": sys.stderr,
        "wsgi.multithread": True,
        "wsgi.multiprocess": False,
        "wsgi.run_once": False,
        "wsgi.input_terminated": True,
        "sim.src": src,
    }
    host_seen = False
    for k, v in hdrs.items():
        key = k.upper().replace("-", "_")
        if key == "CONTENT_TYPE":
            environ["CONTENT_TYPE"] = v
        elif key == "CONTENT_LENGTH":
            continue
        elif key == "TRANSFER_ENCODING":
            continue
        else:
            if key == "HOST":
                host_seen = True
            environ["HTTP_" + key] = v
    if not host_seen:
        environ["HTTP_HOST"] = u.netloc
    if body or method in ("POST", "PUT", "PATCH", "PUSH"):
        environ["CONTENT_LENGTH"] = str(len(body))
    return environ


class Response:
    """what a simulated client gets."""

    def __init__(self, status, headers, body):
        self.status = status
        self.headers = {k.lower(): v for k, v in headers}
        self.body = body

    @property
    def json(self):
        import json
        return json.loads(self.body)


def basic_auth(user, password):
    return "Basic " + base64.b64encode(f"{user}:{password}".encode()).decode()


def request(net, src, method, url, headers=None, body=b"", timeout=60.0):
    """a complete exchange; NetError if the outcome is unknown or failed."""
    ex = net.open(src, method, url, headers or {}, body,
                  connect_timeout=timeout, read_timeout=timeout)
    r = BodyReader(net, ex, timeout)
    cut_body(net, src, ex, r)
    try:
        data = r.read()
        if r.fin and method != "HEAD":
            raise NetError("reset", "body ended too early")
    except (OSError, TimeoutError) as e:
        raise NetError("reset", f"body: {e}") from None
    finally:
        r.close()
    return Response(ex.status, ex.headers, data)


def cut_body(net, src, ex, reader):
    """decide on a body fault for this exchange."""
    if net.faulty("truncate", src, ex.dst):
        reader.cut = _cut_at(net, ex)
        if net.sim.net_rng.random() < 0.5 and reader.length is not None:
            reader.fin = True
        return True
    if net.faulty("clean_truncate", src, ex.dst):
        # only possible without a content-length
        hdrs = {k.lower(): v for k, v in ex.headers}
        if ex.dst.name.startswith("up"):
            ex.headers = [(k, v) for k, v in ex.headers if k.lower() != "content-length"]
            reader.cut = _cut_at(net, ex)
            reader.clean_eof = True
            return True
        del hdrs
    if "/+f/" in ex.path and getattr(src, "role", None) == "replica" and ex.status == 200 \
            and net.faulty("garble", src, ex.dst):
        reader.flip = _cut_at(net, ex)
        return True
    if net.faulty("corrupt", src, ex.dst):
        if ex.dst.name.startswith("up"):
            reader_corrupt(net, ex, reader)
    return False


def _cut_at(net, ex):
    size = None
    for k, v in ex.headers:
        if k.lower() == "content-length":
            size = int(v)
    size = size or ex.pipe.total or 200
    return net.sim.net_rng.randrange(max(1, size))


def reader_corrupt(net, ex, reader):
    pipe = ex.pipe
    if pipe.buf:
        i = net.sim.net_rng.randrange(len(pipe.buf))
        pipe.buf[i] ^= 0x5a


# ---------------------------------------------------------------------------
# adapters for the HTTP client libraries used by devpi


def install_adapters():
    import requests
    import requests.adapters
    import urllib3
    from urllib3.response import HTTPResponse

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        sim = core.SIM
        if sim is None:
            raise RuntimeError("no network outside of the simulation")
        net = sim.net
        src = sim.cur.node or net.harness
        if isinstance(timeout, tuple):
            ct, rt = timeout
        else:
            ct = rt = timeout
        body = request.body
        if body is None:
            body = b""
        elif isinstance(body, str):
            body = body.encode("utf-8")
        elif hasattr(body, "read"):
            body = body.read()
        elif not isinstance(body, (bytes, bytearray)):
            body = b"".join(body)
        try:
            ex = net.open(src, request.method, request.url, request.headers,
                          bytes(body), connect_timeout=ct, read_timeout=rt)
        except NetError as e:
            if e.kind == "timeout":
                if "connect" in str(e):
                    raise requests.exceptions.ConnectTimeout(str(e), request=request) from None
                raise requests.exceptions.ReadTimeout(str(e), request=request) from None
            raise requests.exceptions.ConnectionError(str(e), request=request) from None
        reader = BodyReader(net, ex, rt)
        cut_body(net, src, ex, reader)
        if reader.length is None and not reader.clean_eof and request.method != "HEAD" and (
                ex.status not in (204, 304) and not getattr(ex.dst, "close_delimited", False)):
            cut = reader.cut
            reader.replaced = True
            reader = ChunkedReader(net, ex, rt)
            reader.cut = cut
            ex.headers.append(("Transfer-Encoding", "chunked"))
        raw = HTTPResponse(
            body=reader, headers=urllib3.HTTPHeaderDict(ex.headers), status=ex.status,
            reason=None, preload_content=False, decode_content=False,
            request_method=request.method, request_url=request.url)
        resp = self.build_response(request, raw)
        if not stream:
            resp.content  # noqa: B018
        return resp

    requests.adapters.HTTPAdapter.send = send

    import httpx
    import httpx._client
    import asyncio

    class SimAsyncTransport(httpx.AsyncBaseTransport):
        def __init__(self, *args, **kw):
            pass

        async def handle_async_request(self, request):
            sim = core.SIM
            net = sim.net
            node = sim.cur.node
            loop = asyncio.get_running_loop()
            fut = loop.create_future()
            timeouts = request.extensions.get("timeout", {})
            body = await request.aread()
            src = node or net.harness

            def set_result(value, exc):
                if fut.cancelled() or fut.done():
                    return
                if exc is not None:
                    fut.set_exception(exc)
                else:
                    fut.set_result(value)

            def run():
                value = exc = None
                try:
                    ex = net.open(
                        src, request.method, str(request.url),
                        [(k.decode("latin-1"), v.decode("latin-1")) for k, v in request.headers.raw],
                        body, connect_timeout=timeouts.get("connect"),
                        read_timeout=timeouts.get("read"))
                    reader = BodyReader(net, ex, timeouts.get("read"))
                    cut_body(net, src, ex, reader)
                    try:
                        data = reader.read()
                        if reader.fin and request.method != "HEAD" and len(data) < reader.length:
                            raise OSError("peer closed connection without sending complete message body")
                    except TimeoutError:
                        raise NetError("timeout", "read") from None
                    except OSError as e:
                        raise NetError("protocol", str(e)) from None
                    value = (ex.status, ex.headers, data)
                except NetError as e:
                    if e.kind == "timeout":
                        if "connect" in str(e):
                            exc = httpx.ConnectTimeout(str(e))
                        else:
                            exc = httpx.ReadTimeout(str(e))
                    elif e.kind == "refused":
                        exc = httpx.ConnectError(str(e))
                    elif e.kind == "protocol":
                        exc = httpx.RemoteProtocolError(str(e))
                    else:
                        exc = httpx.ReadError(str(e))
                try:
                    loop.call_soon_threadsafe(set_result, value, exc)
                except RuntimeError:
                    pass   # the loop was closed meanwhile

            sim.spawn(run, f"{src.name}:aio", node)
            (status, headers, data) = await fut
            headers = [(k, v) for k, v in headers if k.lower() != "content-encoding"]
            return httpx.Response(status, headers=headers, content=data, request=request)

        async def aclose(self):
            pass

    httpx._client.AsyncHTTPTransport = SimAsyncTransport
    import ssl
    ssl.create_default_context = lambda *a, **k: ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    # proxies from the environment would need real transports
    import os
    for k in list(os.environ):
        if k.lower().endswith("_proxy"):
            del os.environ[k]


def pipe_alive(host):
    return host.alive and host.state != DEAD
