
import pytest
pytestmark = [pytest.mark.notransaction]


def test_push_keeps_toxresult_with_its_file(mapp, testapp, tox_result_data):
    mapp.create_and_login_user("demo")
    mapp.create_index("src")
    mapp.use("demo/src")
    mapp.upload_file_pypi("pkg5-2.6.tar.gz", b"123", "pkg5", "2.6")
    mapp.upload_file_pypi("pkg5-2.6.zip", b"456", "pkg5", "2.6")
    verdata = mapp.getjson("/demo/src/pkg5/2.6")["result"]
    link = [x["href"] for x in verdata["+links"] if x["href"].endswith(".zip")][0]
    mapp.upload_toxresult(link, b'{"a": 1}')
    mapp.create_index("dst")
    testapp.xget
    r = testapp.push("/demo/src", __import__("json").dumps(
        dict(name="pkg5", version="2.6", targetindex="demo/dst")))
    assert r.status_code == 200
    verdata = mapp.getjson("/demo/dst/pkg5/2.6")["result"]
    tox = [x for x in verdata["+links"] if x["rel"] == "toxresult"]
    assert len(tox) == 1
    assert tox[0]["for_href"].endswith("pkg5-2.6.zip")
