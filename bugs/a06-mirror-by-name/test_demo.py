
import pytest
pytestmark = [pytest.mark.notransaction]


def test_configured_order_of_mirrors(mapp):
    mapp.login_root()
    for name in ("root/alpha", "root/beta"):
        mapp.create_index(name, indexconfig=dict(type="mirror", mirror_url="http://localhost:1/%s" % name))
    api = mapp.create_and_use(indexconfig=dict(bases=["root/beta", "root/alpha"]))
    xom = mapp.xom
    with xom.keyfs.read_transaction():
        names = [s.name for s in xom.model.getstage(api.stagename).sro()]
    assert names == [api.stagename, "root/beta", "root/alpha"]
