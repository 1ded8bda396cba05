
import pytest
import threading


@pytest.mark.notransaction
def test_stale_links_while_waiting_for_other_request(pypistage):
    import asyncio
    pypistage.timeout = 0.2
    orig = pypistage.async_httpget
    started = threading.Event()

    async def slow(*args, **kw):
        started.set()
        await asyncio.sleep(3)
        return await orig(*args, **kw)

    pypistage.mock_simple("pkg", text='<a href="pkg-1.0.zip"</a>')
    with pypistage.keyfs.read_transaction():
        assert len(pypistage.get_releaselinks("pkg")) == 1
    pypistage.cache_retrieve_times.expire("pkg")
    pypistage.async_httpget = slow
    result = []

    def first():
        with pypistage.keyfs.read_transaction():
            result.append(len(pypistage.get_releaselinks("pkg")))

    t = threading.Thread(target=first)
    t.start()
    assert started.wait(10)
    with pypistage.keyfs.read_transaction():
        assert len(pypistage.get_releaselinks("pkg")) == 1
    t.join()
    assert result == [1]
