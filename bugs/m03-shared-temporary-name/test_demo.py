
import hashlib
import pytest


@pytest.mark.notransaction
def test_concurrent_downloads(pypistage, testapp):
    from devpi_server.views import iter_cache_remote_file
    import threading
    content = b"0123456789" * 5000
    digest = hashlib.sha256(content).hexdigest()
    pypistage.mock_simple("pkg", text=f'<a href="pkg-1.0.zip#sha256={digest}"</a>')
    with pypistage.keyfs.read_transaction():
        (link,) = pypistage.get_releaselinks("pkg")
        relpath = link.entry.relpath
        url = link.entry.url
    pypistage.mock_extfile(f"pkg/pkg-1.0.zip", content)
    pypistage.xom.httpget.mockresponse(url, content=content, headers={
        "content-length": len(content), "content-type": "application/zip", "last-modified": "today"})
    a_read = threading.Event()
    b_done = threading.Event()
    errors = []

    def run(first):
        try:
            with pypistage.keyfs.read_transaction():
                entry = pypistage.xom.filestore.get_file_entry(relpath)
                it = iter_cache_remote_file(pypistage, entry, url)
                got = b""
                next(it)
                for chunk in it:
                    got += chunk
                    if first and not a_read.is_set():
                        a_read.set()
                        b_done.wait(5)
                assert got == content
        except BaseException as e:  # noqa: BLE001
            errors.append(e)

    ta = threading.Thread(target=run, args=(True,))
    tb = threading.Thread(target=run, args=(False,))
    ta.start()
    assert a_read.wait(10)
    tb.start()
    tb.join(10)
    b_done.set()
    ta.join(10)
    with pypistage.keyfs.read_transaction():
        entry = pypistage.xom.filestore.get_file_entry(relpath)
        assert entry.file_get_content() == content
    assert errors == []
