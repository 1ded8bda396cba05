
import pytest
import threading


@pytest.mark.notransaction
def test_old_password_invalid_after_change(makexom):
    xom = makexom()
    keyfs = xom.keyfs
    with keyfs.write_transaction():
        xom.model.create_user("hello", "old")
    results = []

    def validate(password):
        def work():
            with keyfs.read_transaction():
                results.append(xom.model.get_user("hello").validate(password))
        t = threading.Thread(target=work)
        t.start()
        t.join()
        return results[-1]

    assert validate("old")
    with keyfs.write_transaction():
        xom.model.get_user("hello").modify(password="new")
        # not committed yet
        assert validate("old")
    assert not validate("old")
    assert validate("new")
