
from devpi_server.importexport import Exporter
import json
import py
import pytest
import threading


@pytest.mark.notransaction
def test_export_is_one_state(makexom, tmp_path):
    xom = makexom(["--export", str(tmp_path)]) if False else makexom()
    xom.config.args.hard_links = False
    xom.config.args.include_mirrored_files = False
    keyfs = xom.keyfs
    with keyfs.write_transaction():
        for name in ("aaa", "bbb", "ccc"):
            xom.model.create_user(name, "pw").create_stage("dev")
    seen = []

    def commit():
        with keyfs.write_transaction():
            for name in ("aaa", "bbb", "ccc"):
                xom.model.get_user(name).modify(title="changed")

    class TW:
        def line(self, msg, **kw):
            if msg.startswith("dumped user 'aaa'") and not seen:
                seen.append(msg)
                t = threading.Thread(target=commit)
                t.start()
                t.join()

    path = py.path.local(str(tmp_path)).join("export")
    path.ensure(dir=1)
    with keyfs.read_transaction():
        Exporter(TW(), xom).dump_all(path)
    data = json.loads(path.join("dataindex.json").read())
    titles = set(data["users"][x].get("title") for x in ("aaa", "bbb", "ccc"))
    assert seen
    assert len(titles) == 1
