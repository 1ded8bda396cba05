
import pytest


@pytest.mark.notransaction
def test_yanked_is_stored(pypistage):
    pypistage.mock_simple("pkg", text='<a href="pkg-1.0.zip#md5=098f6bcd4621d373cade4e832627b4f6"</a>', pypiserial=1)
    with pypistage.keyfs.read_transaction():
        (link,) = pypistage.get_releaselinks("pkg")
        assert link.yanked is None
    pypistage.mock_simple("pkg", text='<a href="pkg-1.0.zip#md5=098f6bcd4621d373cade4e832627b4f6" data-yanked="bad"</a>', pypiserial=2)
    with pypistage.keyfs.read_transaction():
        (link,) = pypistage.get_releaselinks("pkg")
        assert link.yanked == "bad"
    # upstream doesn't answer any more, what was seen before is served
    pypistage.mock_simple("pkg", status_code=-1)
    with pypistage.keyfs.read_transaction():
        (link,) = pypistage.get_releaselinks("pkg")
        assert link.yanked == "bad"
