
import json, pytest
pytestmark = [pytest.mark.notransaction]


def test_results_of_replaced_file(mapp, testapp):
    api = mapp.create_and_use()
    mapp.upload_file_pypi("pkg5-2.6.tar.gz", b"123", "pkg5", "2.6")
    def links():
        return mapp.getjson(api.index + "/pkg5/2.6")["result"].get("+links", [])
    [link] = links()
    r = testapp.post(link["href"], json.dumps({"testenvs": {}}))
    assert r.status_code == 200
    assert [x["rel"] for x in links()] == ["releasefile", "toxresult"]
    mapp.upload_file_pypi("pkg5-2.6.tar.gz", b"1234", "pkg5", "2.6")
    assert [x["rel"] for x in links()] == ["releasefile"]
