
from devpi_server.replica import FileReplicationSharedData
from devpi_server.replica import FileReplicationThread
import pytest


@pytest.mark.notransaction
def test_file_uploaded_again_is_replicated(makexom, monkeypatch):
    xom = makexom(["--primary-url", "http://localhost"])
    keyfs = xom.keyfs
    shared = FileReplicationSharedData(xom)
    thread = FileReplicationThread(xom, shared)
    imported = []

    def importer(serial, key, val, back_serial, session):
        imported.append((serial, val is not None))

    monkeypatch.setattr(thread, "importer", importer)
    relpath = "hello/dev/+f/123/abc/x-1.0.zip"
    val = {"hash_spec": "sha256=abc", "last_modified": "x"}
    for serial, v in [(3, val), (4, None), (5, val)]:
        thread.handler(False, serial, relpath, "STAGEFILE", v, serial - 1)
    assert imported == [(3, True), (4, False), (5, True)]
    # older ones are skipped
    thread.handler(False, 7, relpath, "STAGEFILE", None, 5)
    thread.handler(False, 5, relpath, "STAGEFILE", val, 4)
    assert imported[-1] == (7, False)
