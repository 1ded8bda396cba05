
import threading


def test_no_outdated_value(tmp_path):
    from devpi_server import keyfs_sqlite_fs
    from devpi_server.keyfs import KeyFS
    keyfs = KeyFS(tmp_path, keyfs_sqlite_fs.Storage)
    key = keyfs.add_key("NAME1", "hello", int)
    other = keyfs.add_key("NAME2", "other", int)
    with keyfs.write_transaction():
        key.set(1)
    for i in range(3):
        with keyfs.write_transaction():
            other.set(i + 1)
    # nothing is in memory, like after a restart
    keyfs = KeyFS(tmp_path, keyfs_sqlite_fs.Storage)
    key = keyfs.add_key("NAME1", "hello", int)
    keyfs.add_key("NAME2", "other", int)
    started = threading.Event()
    committed = threading.Event()
    seen = []

    def reader():
        with keyfs.read_transaction():
            started.set()
            committed.wait(20)
            seen.append(key.get())

    t = threading.Thread(target=reader)
    t.start()
    assert started.wait(20)
    with keyfs.write_transaction():
        keyfs.NAME2.set(99)
    with keyfs.write_transaction():
        key.set(2)
    committed.set()
    t.join()
    assert seen == [1]
    with keyfs.read_transaction():
        assert key.get() == 2
