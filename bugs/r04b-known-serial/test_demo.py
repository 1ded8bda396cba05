
from types import SimpleNamespace
import devpi_server.replica as replica
import io
import pytest


@pytest.mark.notransaction
def test_answer_only_after_serial_arrived(makexom, blank_request, reqmock):
    import threading
    xom = makexom(["--primary-url", "http://localhost"])
    keyfs = xom.keyfs
    with keyfs.read_transaction() as tx:
        current = tx.at_serial
    serial = current + 1
    reqmock.mock(
        "http://localhost/blankpath",
        code=200, headers={"X-DEVPI-SERIAL": str(serial)})
    # a changelog response announced the serial, but its content is slow
    xom.replica_thread.update_primary_serial(serial, update_sync=False)
    request = blank_request(method="PUT")
    request.registry = dict(xom=xom)
    result = []

    def work():
        response = replica.proxy_view_to_primary(None, request)
        result.append(keyfs.get_current_serial())
        list(response.app_iter)

    t = threading.Thread(target=work)
    t.start()
    t.join(2)
    assert not result
    with keyfs.get_connection(write=True) as conn, conn.write_transaction() as fswriter:
        fswriter.record_set(keyfs.USER(user="x"), {}, -1)
    t.join(10)
    assert result == [serial]
