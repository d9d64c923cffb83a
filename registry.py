"""What runs for each property. build: words for check.py; scale: workload size."""
PROPS = {}
REAL = {"TRAKX_BIN": ""}


def prop(pid, technique, rule, steps, **kw):
    PROPS[pid] = dict(technique=technique, rule=rule, steps=steps, **kw)


MODEL = "runtime monitoring against a replay model"
SAN = "Go race detector"

prop("S01", MODEL + " of the announce history",
     "Random announce histories over UDP, HTTP and direct saves from many addresses on hashes and ids that differ in one byte; "
     "every answer and the database are compared with a replay model after each step. A case is one history, distinct by its operations.",
     [dict(build="", mon="S01", scale=20, net=True), dict(build="fast", mon="S01", scale=8)])
prop("S02", "linearizability checking of recorded concurrent histories (porcupine), conservation monitor, race detector, injected yields",
     "Short concurrent histories of save, drop, counts and list on fresh or just emptied torrents, checked for linearizability; "
     "longer ones where every client owns its peers, checked for conservation; the same over UDP and HTTP. "
     "A case is one history, distinct by the observed order of calls, returns and answers.",
     [dict(build="race yield", mon="S02", scale=4), dict(build="race yield fast", mon="S02", scale=2), dict(build="", mon="S02", scale=4)])
prop("S03", MODEL + " with virtual time",
     "Random histories of announces, stops and sweeps in virtual time (testing/synctest), last-announce ages spread around the expiry limit; after every sweep the database, "
     "totals and address totals are compared with the model, and periodic sweeps are observed at the configured interval. A case is one history, distinct by its operations and times.",
     [dict(build="", mon="S03", scale=6), dict(build="fast", mon="S03", scale=3)])
prop("S04", "interval monitor over recorded announce and sweep times, race detector, injected yields, lock-up watchdog",
     "Clients renew and stop their own peers while sweeps, saves and queries run, torrents being emptied all the time; each listing is judged by the recorded times of the calls. "
     "A case is one round, distinct by its schedule of operations.",
     [dict(build="race yield", mon="S04", scale=5), dict(build="", mon="S04", scale=5), dict(build="race yield fast", mon="S04", scale=2)])
prop("S05", MODEL + " of peer lists",
     "Swarms of 0 to some hundred IPv4 and IPv6 peers and wanted numbers around every limit (0, 1, size, limit, default, beyond), directly, over UDP and over HTTP; "
     "each list is decoded and compared with the model as a set and by its exact length. A case is one question, distinct by swarm and wanted number.",
     [dict(build="", mon="S05", scale=24), dict(build="fast", mon="S05", scale=8)])
prop("S06", "trace monitor for values from other torrents or requests, race detector, injected yields, poisoned pools",
     "Concurrent announces on torrents whose peers carry an address and port derived from torrent, peer and version; everything in any answer must decode to a peer of that torrent alive during the request. "
     "A case is one round, distinct by its traffic.",
     [dict(build="race yield", mon="S06", scale=24), dict(build="", mon="S06", scale=80)])
prop("S07", "race detector on the real binary under load, crash, deadlock and answer monitors, injected yields",
     "Real trackers built with the race detector and injected yields in every build variant under UDP and HTTP clients making every kind of request, "
     "with sweeps, backups and publication many times a second, save signals, exit signals during load and while starting. A case is one tracker, distinct by build and configuration or by signal times.",
     [dict(build="", mon="S07", scale=2, bins={"TRAKX_BIN": "race yield", "TRAKX_BIN_FAST": "race yield fast", "TRAKX_BIN_HEROKU": "race yield heroku"}),
      dict(build="", mon="S07early", scale=2, bins={"TRAKX_BIN": "race yield", "TRAKX_BIN_HEROKU": ""})])
prop("S08", MODEL + " at large sizes",
     "Torrents of more than 65,535 peers and addresses shared by more than 32,767 peers are filled and emptied in random order, counts, totals and address totals compared on the way and after a backup. "
     "A case is one comparison, distinct by the sizes.",
     [dict(build="", mon="S08", scale=8), dict(build="fast", mon="S08", scale=4)])
prop("U01", MODEL + " of issued connection ids",
     "Random sequences of connects, announces and scrapes from many addresses and ports with right, old, foreign and guessed ids, judged against a table of issued ids; also concurrently; the ids of several starts of the real binary. "
     "A case is one sequence, distinct by its requests.",
     [dict(build="", mon="U01", scale=60, net=True, bins=REAL), dict(build="race yield", mon="U01", scale=8)])
prop("U02", MODEL + " of the connection table with virtual time, race detector",
     "Random histories of connects, checks, sweeps, writes and loads of the connection table in virtual time compared with a model; damaged files; restarts over the network; concurrent use under the race detector. "
     "A case is one history, file or race round.",
     [dict(build="vexport", mon="U02", scale=2), dict(build="race yield vexport", mon="U02", scale=3)])
prop("U03", "answer monitor over generated hostile datagrams",
     "Datagrams of every length and action, mutated requests and noise with heartbeats as fences, so that every answer to each is seen; the tracker must answer afterwards. "
     "A case is one datagram, distinct by its bytes.",
     [dict(build="", mon="U03", scale=30), dict(build="race yield", mon="U03", scale=6)])
prop("U04", MODEL + " of scrapes",
     "Scrapes of 0 to 74 hashes, known, unknown and repeated, compared with a model, with announce answers and with HTTP scrapes. A case is one scrape, distinct by hashes and counts.",
     [dict(build="", mon="U04", scale=60)])
prop("U05", "differential monitor against an independent codec",
     "Random and extreme field values encoded and decoded by the tracker's protocol package and an independent codec. A case is one message, distinct by its bytes.",
     [dict(build="", mon="U05", scale=20)])
prop("A01", MODEL + " of announce answers",
     "Announces over UDP and HTTP from IPv4 and IPv6 addresses with all options against a model of the swarm; counts, interval, families, forms, ids and acknowledged stops are judged. A case is one announce.",
     [dict(build="", mon="A01", scale=30, net=True), dict(build="fast", mon="A01", scale=10)])
prop("R01", "state-unchanged monitor over generated bad requests",
     "Announces and scrapes with one or more defects over HTTP and UDP, every observable number and list compared before and after, exactly one failure answer, and a valid request afterwards. A case is one request.",
     [dict(build="", mon="R01", scale=50)])
prop("H01", "differential monitor of long-running and fresh trackers",
     "Requests cut off or varied in sequences on one tracker compared with the answers of a tracker that saw nothing before, also base64 forms. A case is one request in its sequence.",
     [dict(build="", mon="H01", scale=6), dict(build="race yield", mon="H01", scale=1)])
prop("H02", "crash, answer and time-out monitor over hostile HTTP input",
     "Random, mutated, huge, cut up and abandoned HTTP input, clients that are silent or never read; one answer at most, closing, and service afterwards. A case is one connection.",
     [dict(build="", mon="H02", scale=4)])
prop("H03", MODEL + " of decoded parameters",
     "Hashes and ids in random mixtures of raw and escaped characters, parameters in any order among unknown, empty and repeated ones up to the documented limits; what reached the swarm is compared. A case is one request.",
     [dict(build="", mon="H03", scale=10)])
prop("H04", "strict decoder and " + MODEL + " of HTTP answers",
     "Every kind of HTTP answer is decoded by a strict bencoding decoder and compared with the model and with UDP scrapes. A case is one answer.",
     [dict(build="", mon="H04", scale=24)])
prop("H05", MODEL + " of forwarded addresses",
     "Announces to the app-engine build with forwarding headers of every shape, header texts inside the request target, and none, one at a time and by many clients at once; the recorded address is compared. The same on the regular build. A case is one request.",
     [dict(build="heroku", mon="H05", scale=25), dict(build="", mon="H05", scale=10), dict(build="heroku race yield", mon="H05", scale=2)])
prop("H06", "answer monitor over paths and modes",
     "All files, mutations of their paths, traversal attempts and unknown paths in enabled, information and disabled mode of the real binary, compared with the files of the source tree. A case is one path in one mode.",
     [dict(build="", mon="H06", scale=40, bins=REAL)])
prop("B01", "round-trip monitor against a model",
     "Random databases saved and loaded in this process, another process and the real binary, everything compared with the model, repeatedly. A case is one database.",
     [dict(build="", mon="B01", scale=6, bins=REAL), dict(build="fast", mon="B01", scale=2, bins={"TRAKX_BIN": "fast"})])
prop("B02", "interval consistency checking of backups taken under traffic, race detector, injected yields",
     "Backups taken while clients announce and stop their own peers and sweeps run; every peer in them must be a state that could have been seen during the save by the recorded times. A case is one backup.",
     [dict(build="race yield", mon="B02", scale=2), dict(build="", mon="B02", scale=3)])
prop("B03", "fault injection (strace: errors, short writes, kills at every system call of a save) with a load monitor",
     "A save is killed or made to fail at each of its system calls and by file size limits; the file must then load and hold the old or the new database completely. A case is one injected fault.",
     [dict(build="", mon="B03", scale=8)], level="fault_enumeration")
prop("B04", "crash, memory and well-formedness monitor over damaged backups",
     "Truncations, bit flips, splices, hostile lengths and noise loaded in a child with limited memory; real trackers are started on damaged, missing and unreadable files. A case is one file.",
     [dict(build="", mon="B04", scale=2, bins=REAL)])
prop("B05", "history monitor across signals and restarts of the real binary",
     "Clients record acknowledged announces and stops; the tracker is interrupted, terminated or told to save, idle, under traffic, during a save of a large database or while the database cannot be written; what was written is judged by the recorded times and connection ids are used after a restart. A case is one run.",
     [dict(build="", mon="B05", scale=4, bins=REAL)])
prop("B06", "protocol monitor in a stand-in Postgres server",
     "A stand-in server records statements, serves rows, fails statements at every place and counts connections; the rows and the loaded databases are compared with the model. A case is one save, load or fault.",
     [dict(build="", mon="B06", scale=3, bins=REAL)])
prop("M01", "conservation monitor of published figures, race detector",
     "After concurrent histories with role and address changes, stops, sweeps and restarts the published figures are compared with what the database lists. A case is one quiet moment.",
     [dict(build="", mon="M01", scale=3, net=True, bins=REAL), dict(build="race yield", mon="M01", scale=2), dict(build="fast", mon="M01", scale=1)])
prop("M02", "conservation monitor over publication windows, race detector",
     "Concurrent requests of all kinds while figures are published every millisecond; the windows are summed up and compared with the requests sent; statistics answers are decoded. A case is one round.",
     [dict(build="", mon="M02", scale=54), dict(build="race yield", mon="M02", scale=2)])
prop("E01", "strict decoder against a model of writes",
     "Random programs of dictionary writes, nesting, unsupported values and resets; the encoding is decoded strictly and compared with the writes in order. A case is one dictionary, distinct by its encoding.",
     [dict(build="", mon="E01", scale=200)])
prop("E02", "ownership monitor of pooled objects, race detector, injected yields",
     "Monitors take objects out of the pools, mark them, wait and look again, while others and the whole tracker use the same pools; limits from 0 up, re-initialisation, counted constructors. A case is one round.",
     [dict(build="race yield", mon="E02", scale=10, races="mixed"), dict(build="", mon="E02", scale=30), dict(build="race yield", mon="E02re", scale=2), dict(build="", mon="E02re", scale=4)])
prop("C01", "differential monitor of the effective configuration",
     "Random configuration files in either, both or neither place with random overrides of every setting; the configuration a fresh process ends up with is compared with an independent reading; unusable ones, and existing ones of any content, are given to the real binary. A case is one process.",
     [dict(build="", mon="C01", scale=8, bins=REAL)])
prop("C02", "socket table monitor of the real binary",
     "Real trackers with every combination of transports, modes, addresses and ports; their open sockets are compared with the configuration and reached or not over several addresses; listeners are made to fail. A case is one configuration.",
     [dict(build="", mon="C02", scale=5, bins={"TRAKX_BIN": "", "TRAKX_BIN_HEROKU": "heroku"})])
prop("C03", "differential monitor of answers under different settings, processor time and log line monitors",
     "Real trackers with every log level and random thread numbers, sizes, publication, cleaning and backup intervals (also none) and profiling are asked the same some hundred requests of all kinds, are left idle, save, fail to save and end; "
     "answers are compared between the settings, processor time and log lines with the settings. A case is one tracker, distinct by its settings.",
     [dict(build="", mon="C03", scale=3, bins=REAL)])
prop("D01", MODEL + " of the service commands, signal sentinels",
     "Random histories of service commands, deaths and records of every content, unresponsive occupants, stubborn and slow processes with the real binary; exit codes, status, processes and signals are compared with a model. A case is one history, record or situation.",
     [dict(build="", mon="D01", scale=1, thorough=12, bins=REAL)])

prop("B07", "timing monitor of periodic saves under virtual time, " + MODEL + " of the files written, kills of the real binary",
     "Databases with every kind of frequency run for days of virtual time with a provider that notes, fails and delays its saves; others save themselves to files, at times to a place that has gone, "
     "and after every tick the file is loaded and compared with the model; real trackers are killed after backing themselves up. A case is one database.",
     [dict(build="", mon="B07", scale=6, bins=REAL)])
prop("N01", "resource monitor (file descriptors, goroutines, heap, figures) over repeated rounds of traffic",
     "The same amount of traffic of every kind, each time from new addresses about new torrents, is repeated in this process and on real trackers; "
     "after each round everything must have expired and descriptors and goroutines be back, and the heap must not keep growing. A case is one round.",
     [dict(build="", mon="N01", scale=1, bins=REAL)])
prop("L01", "progress monitor with held workers and stalled saves (silent clients, stand-in Postgres server, strace delays)",
     "All workers but one, then all, are held by clients that send or read nothing while others ask; real trackers get more clients than they may open files or can open none for a while; saves are stalled in the database server or in delayed system calls while the database is used in every way. "
     "A case is one situation.",
     [dict(build="", mon="L01", scale=3, bins=REAL)])
prop("S09", "coverage monitor over repeated peer lists",
     "Swarms of 2 to some hundred peers, some of whom have left, are listed until everyone was handed out, in each form; a member that is still missing after 400 lists per peer is one that never is. A case is one swarm, wanted number and form.",
     [dict(build="", mon="S09", scale=20), dict(build="fast", mon="S09", scale=10)])

# What must have been observed for a verdict (far below what is usually seen).
LEAST = {
    "S01": dict(operations=20000, torrent_comparisons=20000),
    "S02": dict(linearizable_histories=3000, conservation_operations=30000, network_operations=5000),
    "S03": dict(sweeps=2000, expired_peers=2000, peers_at_the_boundary=1000, periodically_expired=500),
    "S04": dict(racing_announces=5000, racing_sweeps=300),
    "S05": dict(answers=40000, lists=8000),
    "S06": dict(answers_judged=10000, listed_peers_judged=100000),
    "S07": dict(trackers_loaded=8, udp_answers=10000, http_answers=5000, save_signals=20, early_signals=20),
    "S08": dict(checkpoints=100, peers_restored=400000),
    "C03": dict(answers_compared=5000, idle_trackers=20, settings=20, log_lines=100),
    "U01": dict(honoured=2000, refused=5000, concurrent_connects=10000, ids_of_fresh_starts=200),
    "U02": dict(comparisons=2000, connects_during_sweeps=5000, sweeps_during_connects=100, expired=400, kept_at_the_boundary=200, damaged_files=100, restarts=300),
    "U03": {"concurrent_datagrams": 10000, "datagrams: unknown action": 8000, "datagrams: short announce": 2000},
    "U04": dict(scraped_hashes=500000, cross_checks=1500),
    "U05": dict(encodings=90000, decodings=100000),
    "A01": dict(announces=9000),
    "R01": dict(rejected_http_announces=7000, rejected_scrapes=700, rejected_udp_announces=700),
    "H01": dict(requests_compared=600, base64_requests_compared=300),
    "H02": dict(connections=1500, status_200=300, status_400=600, status_404=100, clients_served_after_slow_ones=2),
    "H03": dict(announces=2000),
    "H04": dict(announce_answers_decoded=2000, announce_answers_with_keys_judged=2000, failure_answers_decoded=700, scrape_answers_decoded=5000),
    "H05": dict(announces=8000, bad_headers=500, hostile_headers=4000, concurrent_forwarded=10000),
    "H06": dict(paths_tried=4000, files_compared=20, info_mode_announces=10),
    "B01": dict(restored_databases=100, restored_peers=20000, restored_in_a_new_process=1000),
    "B02": dict(backups_judged=40, states_that_changed_during_a_save=300, backups_of_large_torrents=10, large_torrents_changed_during_a_save=10),
    "B03": dict(system_calls_of_a_save=4, killed_during_the_save=4, failed_saves_reported=10, interrupted_first_saves=4),
    "B04": dict(files_loaded=1000, refused=500, accepted=100, truncated=500),
    "B05": dict(exits=12, peers_judged=200, ids_honoured_after_restart=30, save_signals=4, failing_saves=4, tables_written_though_the_database_was_not=6, saves_after_a_failed_one=4, signals_during_a_save=24, saves_after_service_ended=2),
    "B06": dict(saves=60, failed_statements=30, damaged_rows=40, restored_databases=6),
    "M01": dict(operations=20000, figures_compared=150, restart_figures_compared=30, restored_peers_that_left=15),
    "M02": dict(early_sums_compared=4, publication_windows=500, requests=50000, sums_compared=300),
    "E01": dict(writes=1000000, unsupported_values=10000, resets=10000),
    "E02": dict(objects_taken=100000, created_counts_compared=200),
    "C01": dict(existing_files_kept=30, settings_compared=4000, settings_overridden=200, refusals=8, files_generated=60),
    "C02": dict(socket_tables_compared=25, listeners_failed=8, udp_reached_or_not=40, http_reached_or_not=30),
    "B07": dict(periodic_backups_timed=100000, files_compared_after_a_tick=500, periodic_backups_written=300, killed_after_a_periodic_backup=4),
    "N01": dict(rounds=7, process_rounds=8, udp_requests=50000, http_requests=8000, silent_clients=30),
    "L01": dict(times_without_files=3, http_answers_after_a_time_without_files=10, floods_that_used_up_all_files=3, http_answers_after_a_flood=40, slow_clients=60, http_answers_beside_slow_clients=150, udp_answers_beside_slow_clients=300, stalled_saves=10, operations_beside_a_stalled_save=4000),
    "S09": dict(lists=4000, members_handed_out=8000),
    "D01": dict(commands=100, status_compared=50, records_tried=20, stubborn_processes=1),
}
for _p, _l in LEAST.items():
    PROPS[_p]["least"] = _l
