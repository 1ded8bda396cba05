
import pytest


@pytest.mark.notransaction
def test_failed_commit_leaves_no_trace(makexom, monkeypatch):
    xom = makexom()
    keyfs = xom.keyfs
    with keyfs.write_transaction():
        xom.model.create_user("aaa", "pw")
        xom.model.create_user("bbb", "pw")

    def fail(self):
        raise OSError("no space left on device")

    with monkeypatch.context() as m:
        m.setattr(keyfs._storage.Connection, "commit", fail)
        with pytest.raises(OSError):
            with keyfs.write_transaction():
                xom.model.get_user("aaa").modify(title="failed")
    with keyfs.write_transaction():
        xom.model.get_user("bbb").modify(title="ok")
    with keyfs.read_transaction() as tx:
        assert xom.model.get_user("bbb").get().get("title") == "ok"
        assert "title" not in xom.model.get_user("aaa").get()
        changes = tx.conn.get_changes(tx.at_serial)
        assert "bbb/.config" in changes
        assert "aaa/.config" not in changes
