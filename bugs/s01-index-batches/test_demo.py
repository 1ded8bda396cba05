
import pytest


@pytest.mark.notransaction
def test_failed_commit_leaves_nothing(makexom, monkeypatch):
    xom = makexom()
    keyfs = xom.keyfs
    with keyfs.write_transaction():
        for i in range(20):
            xom.model.create_user("user%d" % i, "pw")
    serial = keyfs.get_current_serial()
    cls = keyfs._storage.Connection

    def fail(self, *args, **kw):
        raise OSError("disk full")

    with monkeypatch.context() as m:
        m.setattr(cls, "write_changelog_entry", fail)
        with pytest.raises(OSError):
            with keyfs.write_transaction():
                for i in range(20):
                    xom.model.get_user("user%d" % i).modify(title="hello")
    assert keyfs.get_current_serial() == serial
    # nothing cached
    keyfs._storage._changelog_cache.clear()
    keyfs._storage._relpath_cache.clear()
    with keyfs.read_transaction():
        for i in range(20):
            assert xom.model.get_user("user%d" % i).get().get("title") is None
