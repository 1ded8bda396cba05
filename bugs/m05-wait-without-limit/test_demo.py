
import pytest
import threading
import time


@pytest.mark.notransaction
def test_waiting_is_limited(pypistage):
    import asyncio
    pypistage.timeout = 0.2
    orig = pypistage.async_httpget
    started = threading.Event()

    async def slow(*args, **kw):
        started.set()
        await asyncio.sleep(6)
        return await orig(*args, **kw)

    pypistage.mock_simple("pkg", text='<a href="pkg-1.0.zip"</a>')
    with pypistage.keyfs.read_transaction():
        assert len(pypistage.get_releaselinks("pkg")) == 1
    pypistage.cache_retrieve_times.expire("pkg")
    pypistage.async_httpget = slow

    def first():
        with pypistage.keyfs.read_transaction():
            pypistage.get_releaselinks("pkg")

    t = threading.Thread(target=first)
    t.start()
    assert started.wait(10)
    t.join()
    t0 = time.time()
    with pypistage.keyfs.read_transaction():
        assert len(pypistage.get_releaselinks("pkg")) == 1
    assert time.time() - t0 < 3
