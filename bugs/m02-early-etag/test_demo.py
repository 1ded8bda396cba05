
import pytest


@pytest.mark.notransaction
def test_failed_store_is_made_up(pypistage, monkeypatch):
    import asyncio

    page = {"etag": '"1"', "text": '<a href="pkg-1.0.zip"</a>'}
    orig = pypistage.async_httpget

    async def httpget(url, allow_redirects, timeout=None, extra_headers=None):
        (response, text) = await orig(url, allow_redirects, timeout=timeout, extra_headers=extra_headers)
        if "/pkg/" in str(url):
            if (extra_headers or {}).get("If-None-Match") == page["etag"]:
                response.status_code = 304
            response.headers["ETag"] = page["etag"]
        return (response, text)

    pypistage.async_httpget = httpget

    def mock():
        pypistage.xom.httpget.mock_simple("pkg", text=page["text"], pypiserial=None)

    pypistage.mock_simple("pkg", text=page["text"], pypiserial=None)
    mock()
    with pypistage.keyfs.read_transaction():
        assert len(pypistage.get_releaselinks("pkg")) == 1
    page.update(etag='"2"', text='<a href="pkg-1.0.zip"</a><a href="pkg-2.0.zip"</a>')
    mock()
    # time passes
    (ts, etag) = pypistage.cache_retrieve_times._project2time["pkg"]
    pypistage.cache_retrieve_times._project2time["pkg"] = (ts - 100000, etag)
    with monkeypatch.context() as m:
        def fail(*args, **kw):
            raise OSError("no space left on device")
        m.setattr(pypistage, "_save_cache_links", fail)
        with pytest.raises(OSError):
            with pypistage.keyfs.read_transaction():
                pypistage.get_releaselinks("pkg")
    mock()
    with pypistage.keyfs.read_transaction():
        assert len(pypistage.get_releaselinks("pkg")) == 2
