
import pytest
pytestmark = [pytest.mark.notransaction]


def test_recreated_index_is_empty(mapp, testapp):
    api = mapp.create_and_use()
    mapp.upload_file_pypi("pkg5-2.6.tar.gz", b"123", "pkg5", "2.6")
    mapp.delete_index(api.stagename)
    mapp.create_index(api.stagename)
    mapp.use(api.stagename)
    mapp.set_versiondata(dict(name="pkg5", version="1.0"))
    r = testapp.get(api.simpleindex + "pkg5/")
    assert "2.6" not in r.text
