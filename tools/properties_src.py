prop("S01", "Acknowledged changes survive every crash; unfinished ones leave nothing",
     "Every change whose success was answered to a client is still there, complete and unaltered, after the server "
     "process dies at any instant and is started again. A change which was under way at that instant is afterwards "
     "either completely there or completely absent, including its files, and the server starts without manual repair.",
     "crash_points schedules fault_sequences",
     "all crash points between and inside file and database operations, including crashes during start-up "
     "recovery, times all interleavings of concurrent requests",
     "The tests crash at a handful of hand-picked points of single transactions; the property is about every point "
     "of the file-rename/commit/cleanup sequence under concurrent requests and repeated crashes.",
     SRV + "keyfs.py " + SRV + "keyfs_sqlite.py " + SRV + "keyfs_sqlite_fs.py " + SRV + "filestore_fs.py " + SRV + "fileutil.py",
     [("commit writes files under temporary names, records the renames in the changelog entry, renames, then commits",
       SRV + "keyfs_sqlite_fs.py"),
      ("start-up recovery finishes or checks the renames of the newest changelog entry", SRV + "keyfs_sqlite_fs.py"),
      ("changelog and key index are written in one database transaction", SRV + "keyfs_sqlite.py")],
     observe=["HTTP API after restart", "changelog and key tables", "files below +files"],
     note=("crash at sampled storage points, reference model after restart",
           "Sampled crash points and schedules, not all; a crash is process death, OS buffers survive."))

prop("S02", "Concurrent requests behave as if executed one at a time",
     "Any set of concurrent requests changes the server as if the successful ones had been executed one after the "
     "other, in the order of the serials they were given, each seeing all earlier ones. The order respects real "
     "time: a request started after another was answered comes after it, and one request is one step.",
     "schedules histories",
     "all interleavings of any number of concurrent reading and changing requests on the same data",
     "Tests run requests one after the other in one thread; lost updates, checks against outdated data and split "
     "transactions need particular interleavings.",
     SRV + "keyfs.py " + SRV + "views.py " + SRV + "model.py " + SRV + "keyfs_sqlite.py",
     [("one writer at a time holds the write lock of the database for its whole transaction", SRV + "keyfs_sqlite.py"),
      ("requests which change data restart their transaction for writing", SRV + "keyfs.py")],
     observe=["answers of all requests", "changelog"],
     note=("strict serializability against a reference model in commit order",
           "Schedules are sampled by random and PCT style priorities at synchronisation, I/O and network points."))

prop("S03", "Reads see one committed state; history is gap-free and never rewritten",
     "The answer of a reading request is computed from exactly one committed state: the one named by the serial it "
     "reports, never older than what was already known to the client's side at its start and never a mix. Serials "
     "are gap-free, a committed history entry never changes, and the current value of everything equals the newest "
     "history entry for it.",
     "schedules histories crash_points",
     "all interleavings of reads with commits, all cache sizes, all crash points",
     "Caches and snapshots only go wrong when a read overlaps commits in particular ways; tests have no overlap.",
     SRV + "keyfs.py " + SRV + "keyfs_sqlite.py " + SRV + "views.py " + SRV + "model.py",
     [("transactions read at a fixed serial, looking up older values in the changelog", SRV + "keyfs.py"),
      ("changelog and relpath caches keyed by serial", SRV + "keyfs_sqlite.py")],
     observe=["X-DEVPI-SERIAL header and bodies", "changelog and key tables"],
     note=("every answer compared with the reference model at its serial; changelog audited",
           "Sampled schedules; the reference model covers users, indexes, projects, versions, files, docs and tox results."))

prop("S04", "Rejected and failed requests leave no trace",
     "A request answered with an error, whether refused for its content or permissions or failed because of a disk "
     "or database error, has changed nothing: no metadata, no files, no serial whose content differs. Later requests "
     "work as if it had never been sent.",
     "fault_sequences inputs schedules",
     "all placements of I/O errors and full-disk windows inside requests, all invalid or conflicting requests",
     "Tests check status codes of rejected requests but not the complete state after them, and never fail the disk "
     "in the middle of a request.",
     SRV + "views.py " + SRV + "keyfs.py " + SRV + "filestore.py " + SRV + "filestore_fs.py " + SRV + "keyfs_sqlite_fs.py",
     [("transaction rollback drops pending values and temporary files", SRV + "keyfs.py"),
      ("error responses doom the transaction", SRV + "views.py")],
     observe=["complete API dump after the request", "changelog", "+files"],
     note=("disk errors and rejected requests against a reference model",
           "Disk errors are injected at the level of open, write, close, rename, remove, mkdir and SQL execution."))

prop("S05", "Every listed file resolves to exactly the uploaded bytes",
     "Every release file, documentation archive and test result which is listed anywhere is downloadable and consists "
     "of exactly the bytes which were uploaded, matching the listed checksum. Once a file is deleted or replaced its "
     "link stops working, and nothing stays on disk after an undisturbed run.",
     "schedules crash_points fault_sequences histories",
     "all interleavings of uploads, replacements, deletions, re-uploads, pushes and downloads with crashes and disk errors",
     "File content and metadata live in two stores which are only kept in step by ordering; tests exercise "
     "the orders one at a time.",
     SRV + "filestore.py " + SRV + "filestore_fs.py " + SRV + "keyfs_sqlite_fs.py " + SRV + "model.py " + SRV + "views.py",
     [("content is stored under a path derived from its checksum", SRV + "filestore.py"),
      ("file removals take place after the commit", SRV + "keyfs_sqlite.py"),
      ("recovery of renames after a crash", SRV + "keyfs_sqlite_fs.py")],
     observe=["file downloads", "+files", "hash_spec of links"],
     note=("file store and metadata compared after crashes and disk errors",
           "Sampled; content left behind by a crash or I/O error itself is tolerated, lost or wrong content never is."))

prop("S06", "Every committed change is announced to plugins, in order, whatever fails",
     "For every committed change the notification hooks (project or version changed, file uploaded or removed, index "
     "created), on which the search index, documentation unpacking and triggers rest, are called completely at least "
     "once, with the data of that change, in the order of the commits and only with the uploaded file present, on the "
     "primary and on every replica: also when the process dies at any moment, when a plugin fails or is slow. No hook "
     "is called for a change which is not committed.",
     "crash_points schedules fault_sequences histories",
     "all crash points around the announcement and its bookkeeping, all failing or slow subscribers, all commit "
     "histories, all orders of metadata and file arrival on replicas",
     "Tests call hooks once on a healthy server; whether one is lost depends on where the process dies between the "
     "commit, the calls and the stored position.",
     SRV + "keyfs.py " + SRV + "model.py " + SRV + "fileutil.py " + SRV + "replica.py",
     [("the position in the changelog is written after the hooks of a serial were called", SRV + "keyfs.py"),
      ("a failing subscriber does not stop the others", SRV + "keyfs.py"),
      ("events of files which did not arrive yet wait", SRV + "keyfs.py"),
      ("events are derived from the change and the previous value", SRV + "model.py")],
     observe=["hook calls recorded by a plugin", "changelog", ".event_serial"],
     note=("recorded hook calls compared with the events derived from the changelog",
           "Sampled crash points; disk errors are not combined with it, as a subscriber which cannot read the "
           "database is by contract logged and skipped."))

prop("A01", "Only permitted, currently valid credentials can change anything",
     "A request is carried out exactly when its credentials are valid at that moment (current password, or an "
     "unexpired token of an existing user) and the permissions of the addressed index or user, as committed at that "
     "moment, allow it. This holds when passwords, permissions, users and the clock change concurrently.",
     "schedules inputs histories fault_sequences",
     "all interleavings of permission, password and user changes with requests using them, all clock jumps",
     "Tests check permissions against a quiet server; check-then-act races and token ages across clock jumps are "
     "out of their reach.",
     SRV + "auth.py " + SRV + "view_auth.py " + SRV + "views.py " + SRV + "auth_devpi.py " + SRV + "auth_basic.py " + SRV + "model.py",
     [("signed tokens with a maximum age", SRV + "auth.py"),
      ("ACLs evaluated inside the request's transaction", SRV + "view_auth.py")],
     observe=["status of requests and committed changes"],
     note=("clock jumps and concurrent credential changes against a reference model",
           "Built-in authentication only; external authentication plugins are not simulated."))

prop("A02", "Releases on non-volatile indexes are immutable",
     "While an index is non-volatile no release file or documentation on it is replaced, altered or (without force) "
     "deleted by any upload, push or deletion, and neither is the index or its user; a repeated upload of identical "
     "content succeeds and changes nothing in the file. Of several concurrent conflicting uploads exactly one wins.",
     "schedules histories inputs",
     "all interleavings of uploads, pushes, deletions and changes of the volatile setting",
     "Tests do one conflicting upload after another; the race between check and write and the many routes to a "
     "replacement are not enumerated.",
     SRV + "model.py " + SRV + "views.py",
     [("volatile check when linked files are created", SRV + "model.py"),
      ("volatile checks of deletions", SRV + "views.py")],
     observe=["answers", "file content"],
     note=("concurrent uploads, pushes and deletions against a reference model", "Sampled schedules."))

prop("A03", "Deletions are complete and re-creation starts empty",
     "After deleting a file, version, project, index or user nothing of it is listed, downloadable or inherited any "
     "more, everything else is unaffected, and creating something with the same name starts empty. A deletion is one "
     "atomic step for concurrent readers and across crashes.",
     "schedules crash_points histories",
     "all histories of creations, uploads and deletions in any order and interleaving, all crash points",
     "A deletion touches many keys and files; tests look at a few of them after deleting once.",
     SRV + "model.py " + SRV + "views.py " + SRV + "filestore.py " + SRV + "keyfs.py",
     [("deletion cascades over projects, versions, links and files", SRV + "model.py")],
     observe=["all listing pages", "+files", "changelog"],
     note=("deletion and re-creation histories against a reference model", "Sampled histories."))

prop("A05", "A push between indexes copies exactly the release, or nothing",
     "A successful push makes the target index list exactly the chosen release files, documentation and test results "
     "with identical bytes and metadata of the source, in one step. A failed push leaves the target unchanged and "
     "the source is never changed.",
     "schedules fault_sequences histories",
     "all interleavings with changes of source and target, all I/O faults while copying",
     "Tests push from a quiet index on a healthy disk.",
     SRV + "views.py " + SRV + "model.py " + SRV + "mirror.py",
     [("push copies links within one transaction", SRV + "views.py")],
     observe=["answers", "source and target listings", "file bytes"],
     note=("pushes racing with changes and faults against a reference model", "Sampled schedules and faults."))

prop("A06", "Inheritance and whitelist decide exactly what an index shows",
     "An index lists, for every project, the union of its own files and those of its direct and indirect bases, with "
     "the nearest index winning for equal file names and versions; mirror bases contribute a project only when "
     "no private index in the chain has it or the whitelists allow it. Changes of bases or contents take effect for "
     "every later request.",
     "histories schedules inputs configurations",
     "all base graphs including cycles and missing indexes, all histories and interleavings of changes",
     "Tests cover a few fixed hierarchies without concurrent changes.",
     SRV + "model.py " + SRV + "views.py " + SRV + "mirror.py",
     [("stage resolution order", SRV + "model.py"), ("mirror whitelist evaluation", SRV + "model.py")],
     observe=["simple pages, project and version listings"],
     note=("changing base graphs against a reference model", "Sampled graphs and histories."))

prop("A07", "A push to an external index sends exactly the release and tells the truth about it",
     "A push of a release to an external index sends the files, documentation and metadata of that release, byte for "
     "byte and once each, with the given credentials and to nobody else, and changes nothing locally. The answer "
     "reports for every file what the external index said about it, and the push as a whole is a success exactly if "
     "every part of it was accepted, whichever of its requests fail, are refused or get lost.",
     "histories schedules fault_sequences inputs",
     "all releases, all histories, all answers of the external index and all failures of the connections to it",
     "Tests mock the external index with one answer for everything and never lose a connection in between.",
     SRV + "views.py " + SRV + "model.py",
     [("push to an external index", SRV + "views.py")],
     observe=["requests arriving at the external index", "answer of the push request"],
     note=("a simulated external index which refuses, fails, is slow or loses connections", "Sampled histories and answers."))

prop("R01", "A replica holds an exact prefix of the primary's history",
     "At every moment, whatever happens to the network, the processes and the disks, the history of a replica is "
     "entry for entry a prefix of the history of its primary: no entry is skipped, applied twice, torn, reordered or "
     "made up, the current values on the replica are those of its last entry, and it resumes from there after a "
     "crash at any point.",
     "schedules fault_sequences crash_points histories",
     "all schedules of commits and fetches, all connection breaks inside a streamed changelog, all crash points of "
     "both sides, with and without streaming",
     "Tests feed a replica a few serials over a mocked transport; broken streams and crashes at arbitrary offsets "
     "together with a moving primary are out of reach.",
     SRV + "replica.py " + SRV + "keyfs.py " + SRV + "keyfs_sqlite.py",
     [("serials are fetched, streamed and imported one after the other", SRV + "replica.py"),
      ("imported changes are committed under their original serial", SRV + "keyfs.py")],
     observe=["changelog and key tables of primary and replica"],
     note=("broken streams, partitions and crashes; changelogs compared",
           "One primary with one or two replicas; sampled schedules and faults."))

prop("R02", "Replicas catch up with data and files in bounded time",
     "Once faults stop, every replica reaches the primary's serial in bounded time without manual action, has the "
     "content of exactly those files the primary has (missed downloads are made up, deleted files are gone), "
     "answers every read like the primary, and a replica set up or restarted at any time gets there too.",
     "schedules fault_sequences crash_points histories",
     "all histories of uploads, deletions and re-uploads during outages of the network, of either process, or of the "
     "replica's disk",
     "Convergence is about what happens after arbitrary faults; tests check single retries.",
     SRV + "replica.py " + SRV + "keyfs.py " + SRV + "filestore.py " + SRV + "views.py " + SRV + "mythread.py",
     [("fetch loop with retries", SRV + "replica.py"),
      ("queues of file downloads with retries and start-up scan", SRV + "replica.py"),
      ("thread pool supervising the workers", SRV + "mythread.py")],
     observe=["serials", "+files of the replica", "every listing and download via the replica"],
     note=("progress within a bounded simulated time after the last fault; complete state compared",
           "Bound: 900 simulated seconds after the last fault. Sampled faults."))

prop("R03", "A replica never serves wrong or incomplete content",
     "Whatever a replica answers is what the primary had: a listing or download via a replica equals that of the "
     "primary at the serial the replica names, file bytes always match their checksum and are complete, and content "
     "which could not be obtained completely is neither kept nor presented as success.",
     "schedules fault_sequences inputs",
     "all interleavings of downloads via the replica with replication, deletions and broken or corrupted transfers",
     "Needs a transfer to break at any byte while the same file is served, replicated and deleted concurrently.",
     SRV + "replica.py " + SRV + "views.py " + SRV + "filestore.py " + SRV + "keyfs.py",
     [("checksum verification of transferred files", SRV + "filestore.py"),
      ("on-demand fetch of missing files from the primary", SRV + "replica.py")],
     observe=["answers via the replica", "+files of the replica"],
     note=("answers via replicas compared with the model at their serial under broken transfers",
           "Sampled; an error answer while the primary is unreachable is legitimate."))

prop("R04", "A client sees its own writes through the replica it used",
     "When a change sent via a replica was answered as successful, every later request via the same replica, by "
     "any client, sees it, also across crashes of the replica's worker threads and concurrent changes by others; "
     "the change was carried out on the primary exactly once, and its answer is the primary's.",
     "schedules fault_sequences histories",
     "all schedules of proxied changes, serial propagation and reads, all delays and breaks between the nodes",
     "The waiting for the replicated serial races with the import of serials; tests mock one side.",
     SRV + "replica.py " + SRV + "keyfs.py " + SRV + "views.py",
     [("changes are proxied to the primary and answered after the serial arrived", SRV + "replica.py"),
      ("waiting for a serial with a condition variable", SRV + "keyfs.py")],
     observe=["X-DEVPI-SERIAL and bodies of later reads via the replica"],
     note=("read-your-writes checked on every recorded history",
           "Sampled; after a restart of the replica process only the acknowledged serial bound is checked."))

prop("M01", "A mirror keeps serving what it has while upstream is down",
     "Whatever the upstream server of a mirror index does (errors, refused or hanging connections, truncated or old "
     "answers, vanished projects), every project page and file which was served before stays available from the mirror "
     "and everything derived from it, also after restarts and crashes of the server, until it is deleted locally.",
     "fault_sequences schedules crash_points histories",
     "all sequences of upstream failures and recoveries, all placements of requests, expiries, restarts and crashes in them",
     "Tests mock single upstream answers; the property is about arbitrary outages overlapping with cache expiry, "
     "concurrent requests, background updates and restarts.",
     SRV + "mirror.py " + SRV + "views.py " + SRV + "filestore.py " + SRV + "keyfs_sqlite_fs.py",
     [("cached links are returned when upstream fails", SRV + "mirror.py"),
      ("known projects are listed when the upstream list fails", SRV + "mirror.py"),
      ("downloaded files are stored and served locally", SRV + "views.py")],
     observe=["simple pages", "project list", "file downloads with upstream gone"],
     note=("scripted upstream with fault windows; every answer judged, upstream taken away at the end",
           "One mirror index with one upstream; sampled outages and schedules."))

prop("M02", "A mirror follows upstream within its cache expiry and recovers by itself",
     "While upstream works, a project page, version list or project list of a mirror is never older than the configured cache "
     "expiry (plus the time of the request), and after any outage the mirror is up to date again within that time, "
     "without manual action: no request, lock or cache entry of the outage holds it back.",
     "fault_sequences schedules histories",
     "all schedules of concurrent requests, timeouts, late answers and background updates, all clock jumps",
     "Freshness depends on the order of timeouts, late answers, locks and clock values, which tests never vary.",
     SRV + "mirror.py " + SRV + "main.py " + SRV + "views.py",
     [("expiry times per project and for the list", SRV + "mirror.py"),
      ("late answers are processed in the background", SRV + "mirror.py"),
      ("locks per project and for the list", SRV + "mirror.py")],
     observe=["simple pages", "project list"],
     note=("age of every served page bounded in simulated time",
           "Slack 30 s plus request duration; pages during and up to 140 s after a fault window only need to be "
           "available; clock skew runs only check recovery."))

prop("M03", "A mirror never keeps or serves corrupt files as good",
     "A file download from a mirror which succeeds delivers exactly the bytes upstream published under the checksum "
     "of the link; a truncated, corrupt or failed download is never stored, never blocks a later download, and "
     "concurrent downloads of one file do not disturb each other. What was stored stays byte for byte the same.",
     "fault_sequences schedules crash_points",
     "all break points and corruptions of transfers, all interleavings of downloads of the same file, crashes and disk errors",
     "Tests break one transfer at one point without concurrency.",
     SRV + "views.py " + SRV + "filestore.py " + SRV + "filestore_fs.py " + SRV + "keyfs_sqlite_fs.py",
     [("content length and checksum verified while streaming", SRV + "views.py"),
      ("temporary names per process and thread", SRV + "filestore_fs.py")],
     observe=["file downloads", "+files"],
     note=("downloads through a broken upstream; bytes and stored files compared with the published content",
           "While a corrupt download is being checked its bytes may already have been passed on to that one client; "
           "the transfer then has to end as incomplete or the upstream has no checksum."))

prop("M04", "A mirror page is one upstream page and never goes back",
     "The links of a project on a mirror index are always those of exactly one state upstream really had, with their "
     "checksums, python requirements and yanked marks; a later answer never shows an older upstream state than an "
     "earlier one.",
     "schedules histories fault_sequences",
     "all interleavings of concurrent fetches, late answers, conditional requests and cache invalidations",
     "Needs two overlapping fetches with particular timing.",
     SRV + "mirror.py " + SRV + "model.py",
     [("serials of upstream pages are compared", SRV + "mirror.py"),
      ("links are stored as one value", SRV + "mirror.py")],
     observe=["simple pages and X-PYPI-LAST-SERIAL"],
     note=("every page matched with the history of the scripted upstream",
           "For upstreams without serials going back is tolerated once requests overlapped after a timeout."))

prop("M05", "A slow or dead upstream never blocks the server",
     "However slowly or badly upstream answers, every request is answered in bounded time (request timeout plus "
     "bounded waiting for concurrent ones), with the data at hand or a gateway error, never with an internal error; "
     "no request waits for a lock held by another request waiting for it, and private indexes stay writable.",
     "schedules fault_sequences",
     "all schedules of concurrent reads and writes during hanging, slow, flaky and refusing upstreams",
     "Deadlocks and lock convoys need several threads and a hanging upstream at the same time.",
     SRV + "mirror.py " + SRV + "main.py " + SRV + "keyfs.py " + SRV + "keyfs_sqlite.py",
     [("timeouts of upstream requests", SRV + "mirror.py"),
      ("list lock, project locks and the write lock of the database", SRV + "mirror.py")],
     observe=["duration and status of every request"],
     note=("simulated duration of every answer bounded, hangs detected by the scheduler",
           "Bound: 300 simulated seconds, which exceeds every legitimate sum of timeouts in the generated runs."))

prop("M06", "A private project blocks the mirror unless it is whitelisted",
     "If any private index in the resolution order has a project, no page, version list or file link of a derived index shows "
     "the mirror's files for that project, unless mirror_whitelist (as combined by mirror_whitelist_inheritance) allows it; "
     "this holds from the moment the project is registered until it is deleted, however requests, uploads and "
     "configuration changes interleave.",
     "schedules histories configurations",
     "all histories of uploads, deletions, whitelist and inheritance changes on all index orders, interleaved with reads",
     "Dependency confusion attacks exploit exactly the windows and combinations which fixed examples do not show.",
     SRV + "model.py " + SRV + "mirror.py " + SRV + "views.py",
     [("whitelist evaluation along the resolution order", SRV + "model.py")],
     observe=["simple pages and versions of derived indexes"],
     note=("every page judged against the whitelist rules at its serial",
           "Orders of two private indexes and one mirror; where the rules are ambiguous (intersection with an index "
           "further down) both readings are accepted."))

prop("M07", "Mirrors work the same through a replica",
     "Project pages, lists and files of a mirror index served by a replica obey the same guarantees: pages of one "
     "upstream state which do not go back, intact files, bounded waiting, stale answers while the primary or upstream "
     "is unreachable, and recovery by itself.",
     "schedules fault_sequences crash_points histories",
     "all interleavings of replica requests with replication, upstream faults and crashes of either node",
     "Three parties (replica, primary, upstream) with caches each; tests mock two of them.",
     SRV + "mirror.py " + SRV + "replica.py " + SRV + "views.py " + SRV + "keyfs.py",
     [("a replica asks its primary and waits for the serial", SRV + "mirror.py"),
      ("files are fetched from the primary or directly from upstream", SRV + "replica.py")],
     observe=["simple pages, lists and files via the replica"],
     note=("primary, replica and scripted upstream with faults; freshness bounds doubled",
           "One replica; sampled."))

prop("X01", "Export and import carry over everything, or fail loudly",
     "An export which reports success contains one consistent state of the server (also when made while the server keeps "
     "committing), and importing it into an empty server reproduces it: users with working passwords, indexes with bases "
     "and permissions, projects, versions with all metadata, release files with identical bytes, documentation and test "
     "results. An export or import which meets an unreadable, corrupt or unwritable file, or dies midway, does not report "
     "success and does not damage the server it reads from; repeating it afterwards works.",
     "histories crash_points schedules fault_sequences",
     "all histories of a server, all crash points and disk faults of both commands, all interleavings with a running server",
     "Tests export hand-made fixtures on a quiet server with a working disk; gaps show up only with states reached by "
     "longer histories, concurrent commits and faults at the right moment.",
     SRV + "importexport.py " + SRV + "model.py " + SRV + "filestore.py " + SRV + "keyfs.py",
     [("dump of one transaction's state", SRV + "importexport.py"),
      ("files verified against their hashes when imported", SRV + "importexport.py"),
      ("index order resolved from bases", SRV + "importexport.py")],
     observe=["result of devpi-export and devpi-import", "API and changelog of the new server compared with the old one"],
     note=("real export and import commands on sampled histories with disk faults and crashes, both ends compared by content",
           "Upload logs of documentation are not exported by design and ignored; no plugins."))

prop("X02", "devpi-fsck finds exactly the files which are missing or damaged",
     "On a stopped server, after any history of uploads, deletions, crashes and restarts, devpi-fsck reports success exactly "
     "when every release file referenced by the current state is present with its recorded content (with --no-checksum: "
     "present); it names the missing and corrupt files (a long list of missing ones is abbreviated) and changes nothing.",
     "histories crash_points inputs",
     "all histories with crashes, all ways of damaging any subset of files",
     "Which files a healthy server must have depends on the whole history including crash recovery.",
     SRV + "fsck.py " + SRV + "filestore.py " + SRV + "keyfs_sqlite_fs.py",
     [("walks all current file entries", SRV + "fsck.py"),
      ("compares checksums", SRV + "filestore.py")],
     observe=["exit code and output of devpi-fsck"],
     note=("real fsck run on sampled histories with crashes; files damaged in seven ways",
           "Damage limited to file content; a corrupted database is out of scope."))

WEB = "web/devpi_web/"

prop("W01", "Searches find what there is",
     "With devpi-web, after the last change the search (HTML and XML-RPC) finds within a bounded time exactly the projects of "
     "the current state, with their latest version, metadata and the pages of their current documentation; nothing of removed "
     "or replaced projects, versions, indexes or documentation is found. This holds for all orders of changes and indexing, "
     "also when indexes are deleted and created again and the server crashes or restarts at any point. While the search index "
     "lags, searches, pages and documentation of a consistent store never fail with a server error.",
     "histories schedules crash_points",
     "all histories of uploads, deletions and re-creations, all interleavings of requests, event processing, initial queueing "
     "and index commits, all crash points",
     "Tests index synchronously and on a quiet server; stale entries and lost updates come from races between the event "
     "queue, the indexer thread and requests which open the index, and from restarts.",
     WEB + "whoosh_index.py " + WEB + "main.py " + WEB + "views.py " + WEB + "indexing.py",
     [("queue of changed projects, initial queue", WEB + "whoosh_index.py"),
      ("hooks which queue changes", WEB + "main.py"),
      ("hits are matched with the current state", WEB + "views.py")],
     observe=["hits of /+search and of the XML-RPC search", "status of all pages"],
     note=("real devpi-web with whoosh on sampled histories; all searches compared with the reference model in the end",
           "An index update which fails through a disk error may be lost until the next start; mirrors are not indexed here."))

prop("W02", "Documentation pages are those of the current documentation",
     "Every documentation page served for a version (or latest, stable) is the page of that name in the documentation archive "
     "which was current at some point during the request; pages of replaced or removed archives are gone, none are mixed, "
     "missing or truncated, also after crashes or concurrent requests and uploads. Nothing else can be read through these "
     "URLs, and unpacking an uploaded archive never writes outside of its own directory.",
     "histories schedules crash_points inputs",
     "all interleavings of uploads, removals and requests, all crash points while unpacking, all page and member names",
     "The unpacked files are a cache next to the store which has to be replaced atomically under concurrency and crashes; "
     "tests only unpack once.",
     WEB + "doczip.py " + WEB + "views.py common/devpi_common/archive.py",
     [("unpacking under a lock file with the hash of the archive", WEB + "doczip.py"),
      ("serving of the unpacked files", WEB + "views.py"),
      ("member names checked", "common/devpi_common/archive.py")],
     observe=["content of documentation pages", "files on disk"],
     note=("page contents of sampled schedules compared with the reference model, crash points while unpacking",
           "A page may be reported missing while its archive is just being replaced; latest may then fall back to an older version."))
