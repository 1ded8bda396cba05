
import pytest
from test_devpi_server.test_replica import make_replica_xom, replay  # noqa: F401
from test_devpi_server.test_replica import *  # noqa: F401,F403
for _n in [n for n in globals() if n.lower().startswith("test")]:
    del globals()[_n]
pytestmark = [pytest.mark.notransaction]


def test_outdated_export(make_replica_xom, mapp, patch_reqsessionmock, tmpdir, xom):
    base = tmpdir.join("existing").ensure_dir()
    mapp.create_and_use()
    content = mapp.makepkg("hello-1.0.zip", b"content1", "hello", "1.0")
    mapp.upload_file_pypi("hello-1.0.zip", content, "hello", "1.0")
    (path,) = mapp.get_release_paths("hello")
    exported = base.join(mapp.api.stagename, "hello", "1.0", "hello-1.0.zip")
    exported.dirpath().ensure_dir()
    exported.write_binary(b"older content")
    replica_xom = make_replica_xom(options=[
        "--replica-file-search-path", base.strpath])
    (thread,) = replica_xom.replica_thread.file_replication_threads
    mock = patch_reqsessionmock(thread.session)
    mock.mockresponse("http://localhost" + path, 200, data=content)
    replay(xom, replica_xom, events=False)
    replica_xom.replica_thread.wait()
    with replica_xom.keyfs.read_transaction():
        entry = replica_xom.filestore.get_file_entry(path[1:])
        assert entry.file_get_content() == content
