
from devpi_server.views import tween_keyfs_transaction
from types import SimpleNamespace
import pytest
import threading


@pytest.mark.notransaction
def test_serial_of_answer(makexom):
    xom = makexom()
    keyfs = xom.keyfs

    def commit():
        with keyfs.write_transaction():
            xom.model.create_user("hello", "pw")

    seen = []

    def handler(request):
        seen.append((keyfs.tx.at_serial, xom.model.get_user("hello")))
        t = threading.Thread(target=commit)
        t.start()
        t.join()
        return SimpleNamespace(headers={})

    tween = tween_keyfs_transaction(handler, {"xom": xom})
    response = tween(SimpleNamespace(method="GET"))
    assert seen[0][1] is None
    assert response.headers["X-DEVPI-SERIAL"] == str(seen[0][0])
