
import pytest
from test_devpi_server.test_replica import make_replica_xom, replay  # noqa: F401
from test_devpi_server.test_replica import *  # noqa: F401,F403
for _n in [n for n in globals() if n.lower().startswith("test")]:
    del globals()[_n]
pytestmark = [pytest.mark.notransaction]


def test_failed_commit(make_replica_xom, mapp, testapp, xom):
    import os
    mapp.create_and_use()
    mapp.upload_file_pypi("hello-1.0.zip", b"content", "hello", "1.0")
    (path,) = mapp.get_release_paths("hello")
    other = path.lstrip("/")
    # something is in the way of the file when it is put into place
    from devpi_common.metadata import splitbasename  # noqa: F401
    from devpi_server.filestore import relpath_prefix
    prefix = relpath_prefix(b"other content")
    base = other.split("+f/")[0]
    final = os.path.join(str(xom.config.server_path), "+files", base, "+f", prefix, "hello-1.1.zip")
    os.makedirs(os.path.join(final, "sub"))
    before = xom.keyfs.get_current_serial()
    try:
        mapp.upload_file_pypi("hello-1.1.zip", b"other content", "hello", "1.1", code=500)
    except Exception:
        pass
    assert xom.keyfs.get_current_serial() == before
    os.rmdir(os.path.join(final, "sub"))
    os.rmdir(final)
    mapp.create_user("zed", "secret")
    serial = xom.keyfs.get_current_serial()
    assert serial == before + 1
    with xom.keyfs.get_connection() as conn:
        raw = conn.get_raw_changelog_entry(serial)
    from devpi_server.readonly import ReadonlyView  # noqa: F401
    from devpi_server.fileutil import loads
    changes, renames = loads(raw)
    assert "zed/.config" in changes
