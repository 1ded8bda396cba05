"""Process setup: seams first, then devpi, then everything it imports lazily."""
import gc
import logging
import os
import sys
import warnings

REPO = os.environ.get("DST_REPO", "/repo")


class CaptureHandler(logging.Handler):
    """collects warnings of the current run (no locking, no formatting cost)."""

    def __init__(self):
        super().__init__(logging.WARNING)
        self.records = []

    def createLock(self):
        self.lock = None

    def handle(self, record):
        from . import core
        if core.SIM is None:
            return False
        if len(self.records) < 3000:
            try:
                msg = record.getMessage()
                if record.exc_info and record.exc_info[1] is not None:
                    import traceback
                    msg += "\n" + "".join(traceback.format_exception(*record.exc_info))[-3000:]
            except Exception as e:  # noqa: BLE001
                msg = f"unformattable {record.msg!r}: {e!r}"
            node = core.SIM.cur.node
            self.records.append(
                (round(core.SIM.now, 4), core.SIM.cur.name, record.levelname, msg))
        return True


capture = CaptureHandler()


def boot(web=True):
    os.environ.pop("PYTHONWARNINGS", None)
    os.environ.setdefault("HOME", "/root")
    for sub in ("common", "server", "client", "web"):
        p = os.path.join(REPO, sub)
        if p not in sys.path:
            sys.path.insert(0, p)
    from . import patches
    patches.install()
    warnings.simplefilter("ignore")
    logging.raiseExceptions = False
    import requests  # noqa: F401
    import httpx  # noqa: F401
    from . import net, node
    net.install_adapters()
    import devpi_server.main  # noqa: F401
    import devpi_server.replica  # noqa: F401
    import devpi_server.mirror  # noqa: F401
    import devpi_server.views  # noqa: F401
    import devpi_server.view_auth  # noqa: F401
    import devpi_server.importexport  # noqa: F401
    import devpi_server.init  # noqa: F401
    if web:
        import devpi_web.main  # noqa: F401
        import devpi_web.views  # noqa: F401
        import devpi_web.whoosh_index  # noqa: F401
        import devpi_web.doczip  # noqa: F401
    node.install_server()
    root = logging.getLogger()
    root.handlers[:] = [capture]
    root.setLevel(logging.WARNING)
    logging.captureWarnings(False)
    import encodings.idna  # noqa: F401
    gc.collect()
    gc.freeze()
