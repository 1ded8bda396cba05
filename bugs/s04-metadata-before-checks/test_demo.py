
import pytest
pytestmark = [pytest.mark.notransaction]


def test_rejected_upload_leaves_no_trace(mapp, testapp):
    api = mapp.create_and_use()
    mapp.upload_file_pypi("pkg5-2.6.tar.gz", b"123", "pkg5", "2.7", code=400)
    assert mapp.getreleaseslist("pkg5", code=404) is None
    mapp.upload_file_pypi("other-2.6.tar.gz", b"123", "pkg5", "2.6", code=400)
    assert mapp.getreleaseslist("pkg5", code=404) is None
    r = testapp.get_json(api.index)
    assert r.json["result"]["projects"] == []
