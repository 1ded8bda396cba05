
import io, json, zipfile, pytest
pytestmark = [pytest.mark.notransaction]


def archive(text):
    f = io.BytesIO()
    with zipfile.ZipFile(f, "w") as z:
        z.writestr("index.html", "<html><body>%s</body></html>" % text)
    return f.getvalue()


def test_docs_on_nonvolatile(mapp, testapp):
    api = mapp.create_and_use()
    mapp.create_index("prod", indexconfig=dict(volatile=False))
    target = api.user + "/prod"
    first = archive("first")
    req = dict(name="pkg1", version="1.0", targetindex=target)
    mapp.use(api.stagename)
    mapp.set_versiondata({"name": "pkg1", "version": "1.0"})
    mapp.upload_doc("pkg1.zip", first, "pkg1", "1.0", code=200)
    assert testapp.push(api.index, json.dumps(req)).status_code == 200
    mapp.upload_doc("pkg1.zip", archive("second"), "pkg1", "1.0", code=200)
    r = testapp.push(api.index, json.dumps(req), expect_errors=True)
    assert r.status_code == 409
    [link] = mapp.getjson("/%s/pkg1/1.0" % target)["result"]["+links"]
    assert testapp.xget(200, link["href"]).body == first
