
import json, pytest, re, socket, threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
pytestmark = [pytest.mark.notransaction]


def test_lost_answer(mapp, testapp):
    received = []

    class Handler(BaseHTTPRequestHandler):
        def do_POST(self):
            body = self.rfile.read(int(self.headers["Content-Length"]))
            received.append(re.search(rb'filename="([^"]*)"', body).group(1))
            if len(received) == 1:
                # the connection breaks before the answer
                self.connection.shutdown(socket.SHUT_RDWR)
                self.close_connection = True
                return
            self.send_response(200)
            self.send_header("Content-Length", "0")
            self.end_headers()

        def log_message(self, *args):
            pass

    server = ThreadingHTTPServer(("127.0.0.1", 0), Handler)
    thread = threading.Thread(target=server.serve_forever, daemon=True)
    thread.start()
    try:
        api = mapp.create_and_use()
        mapp.upload_file_pypi("pkg1-2.6.tgz", b"123", "pkg1", "2.6")
        mapp.upload_file_pypi("pkg1-2.6.zip", b"456", "pkg1", "2.6")
        req = dict(name="pkg1", version="2.6", username="user", password="password",
                   posturl="http://127.0.0.1:%s/" % server.server_address[1])
        r = testapp.request(api.index, method="POST", body=json.dumps(req).encode(), expect_errors=True)
    finally:
        server.shutdown()
        server.server_close()
    assert sorted(received) == [b"pkg1-2.6.tgz", b"pkg1-2.6.zip"]
    assert r.status_code == 502
