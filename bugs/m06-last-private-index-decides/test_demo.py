
import pytest
pytestmark = [pytest.mark.notransaction]


def test_private_project_blocks_mirror(mapp, pypistage, testapp):
    pypistage.mock_simple("pkg5", text='<a href="pkg5-9.0.zip"</a>')
    mapp.create_and_login_user("demo")
    mapp.create_index("prod", indexconfig=dict(bases=["root/pypi"], mirror_whitelist=[]))
    mapp.create_index("dev", indexconfig=dict(bases=["demo/prod"], mirror_whitelist=[]))
    mapp.use("demo/dev")
    mapp.upload_file_pypi("pkg5-1.0.zip", b"123", "pkg5", "1.0", set_whitelist=False)
    r = testapp.xget(200, "/demo/dev/+simple/pkg5/")
    assert "pkg5-1.0.zip" in r.text
    assert "pkg5-9.0.zip" not in r.text
