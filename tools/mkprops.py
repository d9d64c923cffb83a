#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run once by hand when the list changes)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, where=b) for a, b in state]
    d["anchors"]["observe_at"] = observe or []
    d["anchors"]["hook_needed"] = hook
    P.append(d)

MAP = "tracker/storage/map/"
p("S01", "The swarm view equals the announce history",
  "At any quiet moment the seeder and leecher counts and the peers reported for a torrent are exactly what replaying the accepted announces for it yields: a peer (identified by its 20-byte peer id) is a member iff its latest announce was not 'stopped' and it has not expired, it counts as a seeder iff that latest announce reported completion (event 'completed' or zero bytes left), and it is listed with the address and port of that latest announce. This holds for every sequence of announces over any mix of HTTP and UDP, IPv4 and IPv6, and in every build variant. Torrents never influence each other, whatever their 20-byte hashes are.",
  ["histories", "inputs", "configurations"], "every finite sequence of announce/stop/complete/scrape requests over both transports, any 20-byte hashes and peer ids, any addresses, default and fast builds",
  "Tests send a handful of fixed announces for one or two peers; role changes, address changes, re-joins, stops of unknown peers and cross-transport sequences are never replayed against a model.",
  [MAP+"peer.go", MAP+"hash.go", "tracker/http/announce.go", "tracker/udp/announce.go"],
  [("membership update and count transitions", MAP+"peer.go Save/Drop"), ("completion rule", "tracker/http/announce.go, tracker/udp/announce.go")],
  [("per-torrent peer map and complete/incomplete counters", MAP+"memory.go")],
  ["UDP and HTTP announce/scrape replies", "storage.Database interface"])

p("S02", "Concurrent announces are never lost or double counted",
  "When any number of clients announce, stop and query the same torrents at the same time, the answers for each torrent are those of some one-at-a-time ordering of those operations that respects real time, where an announce is its change followed by the look-ups its answer is made from. No announce is lost and no peer is counted twice: once traffic stops, each torrent's seeder and leecher counts equal the number of its listed peers in each role, and those peers are exactly the ones whose last operation was an announce.",
  ["schedules", "histories"], "every interleaving of concurrent save/drop/count/list operations on shared torrents and peers, including first announces of a new torrent",
  "No test runs two operations concurrently; lost updates need an interleaving inside one announce.",
  [MAP+"peer.go", MAP+"memory.go", MAP+"hash.go"],
  [("two-level locking: torrent map lock, per-torrent lock", MAP+"memory.go, peer.go")],
  [("torrent map", MAP+"memory.go"), ("per-torrent peers and counters", MAP+"memory.go")],
  ["storage.Database interface"])

p("S03", "Expiry removes exactly the stale peers",
  "A sweep removes exactly those peers whose latest announce is longer ago than the configured expiry, updating counts, peer lists, published totals and address totals to match, and leaves every other peer untouched; a new announce renews the peer's lifetime. A torrent left without peers is forgotten entirely, and announcing to it again starts afresh. Sweeps happen on their own at the configured interval.",
  ["histories", "configurations"], "every history of announces, stops, elapsed times and sweeps, every expiry and sweep interval",
  "TestTrim calls the sweep and checks nothing; no test lets time pass.",
  [MAP+"memory.go", MAP+"peer.go", "tracker/utils/runon.go"],
  [("sweep", MAP+"memory.go trim/Trim"), ("timestamp refresh", MAP+"peer.go Save"), ("periodic runner", "tracker/utils/runon.go")],
  None, ["storage.Database interface under virtual time"])

p("S04", "A sweep racing with announces loses nothing",
  "While expiry sweeps run, a peer whose announce completes is never removed by a sweep before it has again been silent for the expiry time, even if its torrent was empty or being forgotten at that moment. Sweeping, announcing, stopping, saving and querying concurrently always terminate, and afterwards counts, listings and published totals agree with the announces that were acknowledged.",
  ["schedules", "histories"], "every interleaving of sweeps with announces, stops and queries, in particular on torrents that are empty or about to become empty",
  "The loss needs an announce to land between the sweep's emptiness test and its removal; no test overlaps the two.",
  [MAP+"memory.go", MAP+"peer.go"],
  [("removal of empty torrents", MAP+"memory.go trim"), ("lookup/creation of a torrent", MAP+"peer.go Save")],
  None, ["storage.Database interface"])

p("S05", "Peer lists are exact, bounded and duplicate-free",
  "A peer list contains only current members of that torrent, each at most once, with its current address and port encoded in network byte order. A non-compact list has exactly min(wanted, swarm size) entries; a compact list has, for each address family, exactly min(wanted, members of that family) entries, IPv4 ones of 6 bytes and IPv6 ones of 18. 'Wanted' is the client's number, the configured default when none is given (over UDP also when it is below one), and never more than the configured limit, default or not; a torrent without members, or over HTTP a wanted number of zero, yields empty lists.",
  ["inputs", "histories", "configurations"], "every swarm size and family mix around the limits, every wanted number, every default/limit setting",
  "Tests use at most two peers and one numwant; limits, mixed families at the cap and empty torrents are never reached.",
  [MAP+"hash.go", "tracker/http/announce.go", "tracker/udp/announce.go", "pools/pools.go"],
  [("list building", MAP+"hash.go PeerList/PeerListBytes"), ("wanted clamping", "tracker/http/announce.go, tracker/udp/announce.go")],
  [("pooled list buffers", "pools/pools.go")], ["HTTP and UDP announce replies", "storage.Database interface"])

p("S06", "Answers never contain another torrent's or request's data",
  "Under any concurrent traffic, every address and port in an answer belongs, at some moment of that request, to a peer of the torrent asked about, and an address/port pair is never a mixture of two announces. No answer ever carries bytes left over from an earlier answer, an earlier request, a removed peer or a different torrent.",
  ["schedules", "histories", "inputs"], "every interleaving of announces, stops, sweeps and listings over many torrents sharing recycled buffers and records",
  "Buffer and record recycling only shows with several torrents active at once and reuse after removal; tests use one request at a time.",
  [MAP+"hash.go", MAP+"peer.go", "pools/pool.go", "pools/pools.go", "tracker/http/announce.go", "tracker/udp/announce.go"],
  [("object pools", "pools/pool.go"), ("record recycling on drop/expiry", MAP+"peer.go")],
  [("pooled peers, dictionaries, list buffers", "pools/pools.go")], ["HTTP and UDP answers"])

p("S07", "The tracker is free of data races and crashes under load",
  "Under any mix of concurrent UDP and HTTP announces, stops, scrapes, heartbeats, statistics requests, file requests and invalid requests, together with sweeps, backups, metric publication and save or stop signals, the tracker performs no unsynchronised conflicting memory accesses. It does not crash, deadlock or stop answering.",
  ["schedules"], "every interleaving of all request kinds with the background jobs",
  "The suite is not run with the race detector and never issues two requests at once.",
  ["tracker/tracker.go", "tracker/http/worker.go", "tracker/http/fakeresp.go", "tracker/udp/udptracker.go", "tracker/udp/conndb.go", MAP+"peer.go", MAP+"memory.go", MAP+"encode_binary.go", "tracker/stats/publish.go", "tracker/signalhandler.go"],
  [("locks of the peer and connection databases", MAP+"memory.go, tracker/udp/conndb.go"), ("atomics of the statistics", "tracker/stats/stats.go")],
  None, ["race detector reports and liveness of the real binary"])

p("S08", "Counts stay exact for swarms of any size",
  "Seeder and leecher counts, the published totals and the number of distinct addresses stay exact however many peers a torrent has and however many peers share one address, including beyond 65,535 peers per torrent and 32,767 peers per address, and after they leave again. Backups preserve these counts.",
  ["inputs", "histories"], "every swarm size and every number of peers behind one address",
  "Tests never count a swarm; sizes near integer-width limits are not reached.",
  [MAP+"memory.go", MAP+"peer.go", MAP+"hash.go", MAP+"encode_binary.go", "tracker/stats/stats.go", "tracker/stats/stats_slow.go"],
  [("counter widths", MAP+"memory.go, tracker/stats/stats.go")], None, ["storage.Database interface", "published metrics"])

p("U01", "UDP requests need the connection id issued to their address",
  "With validation enabled, a UDP announce or scrape is honoured only if it carries the connection id most recently issued to exactly that source address and port and still remembered; otherwise the answer is an error carrying the request's transaction id, no swarm state changes, and the answer is no larger than the smallest useful request of its kind (98 bytes for an announce, 36 for a scrape). Each connect request is answered with a fresh id, different also from those of earlier starts of the tracker, and makes that id valid at once for that address and port only. With validation disabled, any id is accepted.",
  ["histories", "inputs", "schedules"], "every sequence of connects, announces and scrapes from any set of addresses and ports with right, wrong, stale, swapped and replayed ids",
  "One test sends one wrong id (and is itself failing); swaps between ports, addresses and families and state effects are not examined.",
  ["tracker/udp/udptracker.go", "tracker/udp/conndb.go", "tracker/udp/connect.go"],
  [("id check before dispatch", "tracker/udp/udptracker.go process"), ("id table keyed by address and port", "tracker/udp/conndb.go")],
  [("connection map", "tracker/udp/conndb.go")], ["UDP replies", "scrape counts"])

p("U02", "Connection ids expire on time and survive restarts",
  "A remembered connection id is forgotten by a sweep iff more than the configured expiry has passed since it was issued, and a newer connect from the same address restarts that time. Writing the connection table and loading it, in this process or the next, yields exactly the same ids for the same addresses, IPv4 and IPv6, with their remaining lifetime; a file that is missing or cannot be decoded yields an empty table and a running tracker, never a crash. Concurrent connects, checks, sweeps and writes do not lose or mix up ids.",
  ["histories", "inputs", "schedules", "fault_sequences"], "every history of connects, elapsed times, sweeps, writes and loads; every truncation or corruption of the file",
  "Tests store one or two ids, sleep once, and never damage the file, restart the tracker, or overlap operations.",
  ["tracker/udp/conndb.go", "tracker/udp/udptracker.go"],
  [("trim", "tracker/udp/conndb.go"), ("file encode/decode", "tracker/udp/conndb.go"), ("fallback on load failure", "tracker/udp/udptracker.go Init")],
  [("connection map", "tracker/udp/conndb.go")], ["UDP behaviour before and after restart"])

p("U03", "Every UDP datagram is handled safely and answered correctly",
  "No datagram, of any length and content, crashes the tracker or stops it from answering later ones. A datagram shorter than 16 bytes gets no answer; any other gets at most one answer, sent to its source, and every answer other than the heartbeat's carries the request's transaction id and the action it answers (or the error action): a connect, a validated announce of at least 98 bytes, and a validated scrape always get exactly one. An action that is not connect, announce, scrape, error or heartbeat is answered with an error, as is an undersized announce and one with port 0.",
  ["inputs"], "every byte string of length 0 to 65507 from any source, in any order",
  "Tests send six well-formed packets; truncated, oversized, unaligned and random datagrams are never sent.",
  ["tracker/udp/udptracker.go", "tracker/udp/announce.go", "tracker/udp/scrape.go", "tracker/udp/connect.go", "tracker/udp/error.go", "tracker/udp/protocol/"],
  [("length and action guards", "tracker/udp/udptracker.go Serve/process")], None, ["UDP replies"])

p("U04", "A UDP scrape reports the right counts in request order",
  "A validated UDP scrape for any 0 to 74 hashes, known or unknown, repeated or not, is answered by exactly one datagram of 8 + 12 bytes per hash: the scrape action, the request's transaction id, then for each hash in request order the current seeder count, a download figure that is left unspecified and the leecher count, with zero counts for unknown torrents. The counts agree with what announces and HTTP scrapes report for the same torrents.",
  ["inputs", "histories"], "every list of hashes up to the datagram limit over every reachable swarm state",
  "There is no scrape test at all.",
  ["tracker/udp/scrape.go", "tracker/udp/protocol/scrape.go"],
  [("response encoding", "tracker/udp/protocol/scrape.go Marshall")], None, ["UDP scrape replies"])

p("U05", "UDP protocol messages round-trip in network byte order",
  "Encoding any protocol message gives exactly the fixed-layout big-endian bytes of the BitTorrent UDP tracker protocol, and decoding the bytes of any connect, announce, scrape request or response, or error gives back the same fields. Decoding never panics on messages at or above their minimum size and does not modify its input.",
  ["inputs"], "every field value of every message, every peer list, error string and hash list",
  "The tests use the package's own encoder on both sides with a few constants, so a symmetric mistake is invisible.",
  ["tracker/udp/protocol/announce.go", "tracker/udp/protocol/connect.go", "tracker/udp/protocol/scrape.go", "tracker/udp/protocol/error.go"],
  [("Marshall/Unmarshall", "tracker/udp/protocol/")], None, ["encoded bytes"])

p("A01", "Announce answers describe the swarm including the announcer",
  "An accepted non-stop announce is answered with the torrent's seeder and leecher counts after the announcer has been included, an interval of at least the configured base and at most base plus fuzz, spread over that range, and peers of that torrent: over UDP those of the address family of the client only, over HTTP in the compact or dictionary form the client asked for, with peer ids unless it declined them. The announcer is recorded under the source address of its own connection, IPv4 in its 4-byte form. A stop removes the peer and is acknowledged without any peers.",
  ["inputs", "histories", "configurations"], "every announce field combination, both transports and families, every base/fuzz setting",
  "Tests check one announce with fuzz zero or one second and a single peer.",
  ["tracker/http/announce.go", "tracker/udp/announce.go", "tracker/udp/udptracker.go", "tracker/http/worker.go"],
  [("answer assembly", "tracker/http/announce.go, tracker/udp/announce.go"), ("address normalisation", "tracker/udp/udptracker.go process")],
  None, ["HTTP and UDP announce answers"])

p("R01", "Rejected requests change nothing and say why",
  "An HTTP announce whose hash or peer id is not exactly 20 bytes or, unless it is a stop, whose port is not an integer in 1..65535 or whose wanted number is present but not a non-negative integer (of at most 63 bits) is answered with a failure and leaves every torrent, count and statistic of peers unchanged; likewise an HTTP scrape with no hash or a hash that is not 20 bytes, and a UDP announce with port 0, a bad size or a bad connection id. A rejected request gets exactly one failure answer and is counted as a client error; later valid requests are served normally.",
  ["inputs", "histories"], "every malformed combination of parameters, interleaved with valid traffic",
  "Only three UDP rejections are tested, and none checks that the state is untouched; HTTP rejections are not tested.",
  ["tracker/http/announce.go", "tracker/http/scrape.go", "tracker/http/error.go", "tracker/udp/announce.go", "tracker/udp/udptracker.go", "tracker/udp/error.go"],
  [("validation before the state change", "tracker/http/announce.go, tracker/udp/announce.go")], None, ["failure answers and subsequent scrapes"])

p("H01", "An HTTP answer depends only on its own request",
  "The answer to an HTTP request, and the change it makes, is determined by the bytes of that request, the client's address and the swarm state, never by bytes of requests handled earlier: a request that is cut off, shorter than or otherwise different from earlier ones is treated exactly as it would be by a freshly started tracker. Requests encoded entirely in base64 are treated as their decoded form.",
  ["inputs", "histories"], "every sequence of requests, complete or cut anywhere, on one worker or many",
  "Tests parse single buffers holding exactly one request; the reused worker buffer is never exercised.",
  ["tracker/http/worker.go", "tracker/http/parser.go"],
  [("worker read buffer", "tracker/http/worker.go work"), ("in-place parsing", "tracker/http/parser.go")],
  [("per-worker request buffer", "tracker/http/worker.go")], ["HTTP answers and resulting scrapes"])

p("H02", "No HTTP input can crash or wedge the tracker",
  "Any bytes sent on an HTTP connection, of any length, however cut up or left incomplete, are answered with at most one response followed by the connection being closed, and the tracker keeps serving: a client that sends nothing or never reads is disconnected after the configured timeouts and the worker serves the next client. Unknown paths get 404, other methods and malformed requests 400.",
  ["inputs", "fault_sequences"], "every byte string, every cut, every stalled or vanished client, any number of them",
  "The fuzz test runs its single seed on the parser alone; workers, timeouts and disconnects are untested.",
  ["tracker/http/worker.go", "tracker/http/parser.go", "tracker/http/wrappers.go"],
  [("bounds checks in the parser", "tracker/http/parser.go"), ("deadlines per connection", "tracker/http/worker.go")], None, ["HTTP connections"])

p("H03", "HTTP parameters are decoded faithfully",
  "Any 20-byte hash and peer id reach the swarm unchanged whatever mixture of raw characters and upper- or lower-case percent escapes the client uses, and parameters are recognised in any order, among unknown parameters, empty ones and value-less flags, up to the documented 45 parameters and 40 scrape hashes. A truncated percent escape is rejected; a later duplicate of a parameter wins over an earlier one.",
  ["inputs"], "every 20-byte value, every escape style, every parameter order and padding within the size limits",
  "Six fixed escape strings and three fixed query strings are tested, never through to the stored hash.",
  ["tracker/http/parser.go", "tracker/http/worker.go"],
  [("query split and in-place unescape", "tracker/http/parser.go"), ("parameter dispatch", "tracker/http/worker.go")], None, ["HTTP announce/scrape answers cross-checked over UDP or the database"])

p("H04", "HTTP answers are well-formed bencoding with the right contents",
  "Every HTTP announce, scrape and failure answer is a status line, an empty line and exactly one complete bencoded dictionary, with its keys sorted and each there once, peers in a list as dictionaries, and nothing after it (an acknowledged stop has an empty body). A scrape answer has, under 'files', exactly the requested hashes each with the current seeder and leecher counts, zero for unknown torrents; these agree with UDP scrapes.",
  ["inputs", "histories"], "every request and swarm state, every hash and peer id byte value",
  "The announce test compares fixed strings; scrapes over HTTP are untested.",
  ["tracker/http/announce.go", "tracker/http/scrape.go", "tracker/http/error.go", "bencoding/dictionary.go"],
  [("dictionary assembly", "tracker/http/announce.go, scrape.go")], None, ["HTTP answers through an independent bencode decoder"])

p("H05", "Behind an app-engine proxy the forwarded address is used, unspoofably",
  "In the app-engine build an announce is recorded under the last address of the X-Forwarded-For header of that very request, with or without spaces around the commas, and under the connection's address when there is no such header (an IPv4-mapped address as the IPv4 address, an address with a zone without it); nothing in the request target can take the place of the header. A header whose last element is not an IP address or whose end is missing is answered with a failure and changes nothing, and no header content crashes the tracker. In the regular build the header is ignored.",
  ["inputs", "configurations", "histories"], "every header value and request target, both build variants, any earlier requests",
  "The eight fixed header values never meet a worker, an announce, or a hostile query.",
  ["tracker/http/forwarded_appeng.go", "tracker/http/forwarded.go", "tracker/http/worker.go"],
  [("header search and last-element selection", "tracker/http/forwarded_appeng.go")], None, ["peer addresses in announce answers"])

p("H06", "The web server serves only its public files, at their exact paths",
  "Over HTTP the tracker serves exactly its embedded web files at their full names and the index at '/', with html content identical up to removed tabs and newlines, and never its configuration file or anything else from the disk whatever the path. In information mode the same files are served, announces are answered with a valid dictionary carrying a long interval, and no announce or scrape has any effect; in disabled mode nothing listens on the HTTP port.",
  ["inputs", "configurations"], "every request path and query, every HTTP mode",
  "The embedded cache is compared to the files but never requested over a connection; information mode is untested.",
  ["config/embed.go", "tracker/http/worker.go", "tracker/tracker.go"],
  [("embedded cache without the configuration", "config/embed.go"), ("path dispatch", "tracker/http/worker.go"), ("information server", "tracker/tracker.go")], None, ["HTTP answers of the real binary"])

p("B01", "A file backup restores the database exactly",
  "Saving the peer database and loading it again, in a new process as well, restores every torrent with every peer's id, address (IPv4, IPv6), port, completion state and last-announce time, hence the same counts, lists, totals and remaining lifetimes. The tracker starts from a backup holding peers just as it starts from none, and loading then saving again loses nothing.",
  ["histories", "inputs"], "every database content, any number of save/load generations, before and after restarts of the tracker",
  "One in-memory round trip of one peer is tested; no file is written, no tracker is restarted.",
  [MAP+"backup_file.go", MAP+"encode_binary.go", MAP+"expvar.go", "tracker/tracker.go", "tracker/storage/database.go"],
  [("binary encoding", MAP+"encode_binary.go"), ("load at startup", MAP+"memory.go Init, tracker/tracker.go")], None, ["database contents and tracker answers after restart"])

p("B02", "A backup taken under traffic is consistent",
  "A backup taken while announces, stops and sweeps go on always loads without error, and each torrent in it is a state that torrent really had during the save: every peer not touched while the save ran is in it with its exact data, and it holds no peer, address or count that never existed. Taking a backup never loses or alters live data and never blocks traffic for good.",
  ["schedules", "histories"], "every interleaving of a save with announces, stops and sweeps",
  "Backups are only encoded with nothing else running.",
  [MAP+"encode_binary.go", MAP+"backup_file.go", MAP+"encode_gob.go"],
  [("per-torrent count and records under the torrent's lock", MAP+"encode_binary.go")], None, ["backups loaded into a fresh database"])

p("B03", "An interrupted save never costs the last good backup",
  "If the process is killed, or writing fails, at any point of a save, the backup file afterwards loads without error and holds either the complete previous backup or the complete new one. A failed write is reported as an error, and the next save succeeds and is complete.",
  ["crash_points", "fault_sequences"], "a kill or a write error at every file-system step of a save",
  "No test interrupts a save or makes it fail.",
  [MAP+"backup_file.go"], [("writing the file", MAP+"backup_file.go writeFile")], None, ["the backup file after kills and injected errors at each system call"])

p("B04", "Damaged backups are refused, never a crash",
  "Loading a truncated, corrupted or arbitrary file either fails with an error or loads a well-formed database whose counts match its peers; it never crashes and never allocates memory out of proportion to the file. The tracker refuses to start on a backup it cannot read, rather than starting empty and later overwriting it, and starts empty when there is no file.",
  ["inputs", "fault_sequences"], "every truncation point, bit flip and arbitrary content of a backup file",
  "Only intact encodings are decoded in tests.",
  [MAP+"encode_binary.go", MAP+"backup_file.go", "tracker/tracker.go"],
  [("decoder checks", MAP+"encode_binary.go decodeBinary"), ("load error propagation", MAP+"memory.go Init")], None, ["load result, process exit, file contents"])

p("B05", "A clean stop and a save signal persist what was acknowledged",
  "After an interrupt or terminate signal the tracker stops serving, then writes the peer database and the connection table, and exits with success; after the save signal it writes them and keeps serving. Every announce acknowledged before the signal was sent, and no peer stopped before it, is in the written database, and connection ids issued before it are honoured after a restart. Signals that come while a save is in progress count as well. A save that fails costs nothing else: the connection table is written all the same, the tracker keeps serving and obeys later signals, and a stop still ends it.",
  ["schedules", "crash_points", "histories"], "signals at any moment of any traffic, repeated, followed by restarts",
  "The tracker tests end by signal but check nothing after it.",
  ["tracker/signalhandler.go", "tracker/tracker.go", MAP+"backup_file.go", "tracker/udp/udptracker.go"],
  [("signal handler", "tracker/signalhandler.go")], None, ["exit status, files and answers of the restarted binary"])

p("B06", "The Postgres backup stores and restores the database",
  "With the Postgres backup, saving inserts exactly one row holding a complete encoding of the current database, even an empty one, and repeated saves do not exhaust connections; loading takes the newest row and restores it exactly, an empty table gives an empty database, and a failed statement or a damaged row is an error, never a crash.",
  ["histories", "fault_sequences"], "every database content, number of saves and server outcome",
  "The Postgres backup has no tests.",
  [MAP+"backup_pg.go"], [("insert/select of one encoded row", MAP+"backup_pg.go")], None, ["statements and rows seen by a wire-protocol stand-in server"])

p("M01", "Published totals equal the real database",
  "Whenever traffic is quiet, the published numbers of seeders, leechers, peers, torrents, distinct peer addresses and UDP connections equal what the database and connection table actually hold, after any history of concurrent announces, role and address changes, stops, sweeps and restarts; they never drift or go negative.",
  ["histories", "schedules"], "every history and interleaving of operations that change peers, including address changes and restarts from a backup",
  "No test reads a metric.",
  ["tracker/stats/stats.go", "tracker/stats/stats_slow.go", "tracker/stats/publish.go", MAP+"peer.go", MAP+"expvar.go"],
  [("incremental totals", MAP+"peer.go"), ("initial totals", MAP+"expvar.go")], [("seeds, leeches, address map", "tracker/stats/stats.go")], ["/stats answers and statistics counters versus listings"])

p("M02", "Request statistics neither lose nor invent requests",
  "Summed over all publication windows, the published numbers of hits, connects, announces and scrapes equal the numbers of such requests the tracker received (for announces and scrapes, those it got as far as serving), and the client error count is the number of failure answers it gave, however requests and publications interleave. The statistics answer is one valid JSON document also when requested by many clients at once.",
  ["schedules", "histories"], "every interleaving of requests and publications",
  "No test publishes statistics.",
  ["tracker/stats/publish.go", "tracker/stats/stats.go", "tracker/http/worker.go", "tracker/http/fakeresp.go"],
  [("read-and-reset per window", "tracker/stats/publish.go")], None, ["published variables per window"])

p("E01", "Dictionaries encode to complete, decodable bencoding",
  "Whatever keys and values of the supported types are written to a dictionary, in any order and nesting, including empty and binary strings, negative and extreme integers, lists and nested dictionaries, the result is one complete bencoded dictionary that decodes to exactly those keys and values in the order written. Writing an unsupported value is an error and leaves the dictionary as it was; resetting makes it empty.",
  ["inputs", "histories"], "every sequence of writes of every supported type and value",
  "A dozen fixed examples are compared to fixed strings.",
  ["bencoding/dictionary.go", "bencoding/encoding.go"], [("typed writers", "bencoding/dictionary.go")], None, ["encoded bytes through an independent decoder"])

p("E02", "Pooled objects have one holder at a time and come back clean",
  "An object taken from a pool is held by nobody else until it is put back, under any concurrent use; a dictionary taken from its pool is empty, a list buffer has room for the configured limit, and the pool's created count equals the number of objects it made. This holds for every limit and after re-initialisation.",
  ["schedules", "inputs"], "every interleaving of gets and puts, every limit",
  "One test gets and puts one object.",
  ["pools/pool.go", "pools/pools.go"], [("reset on put, creation count", "pools/pool.go")], None, ["objects handed out"])

p("C01", "Configuration sources are found, merged and kept as documented",
  "Settings come from the first configuration file found, in the working directory and then the user's configuration directory, with environment variables overriding single settings, including the port override for app engines and environment-named backup paths. A missing configuration file is generated from the default, an existing one is never modified, and every default takes the value the documented default file states; an unusable configuration makes the tracker refuse to start.",
  ["configurations", "inputs"], "every subset of sources, every setting and value",
  "Tests generate the file once; loading, precedence and overrides are untested.",
  ["config/load.go", "config/config.go", "config/embed.go", "config/paths.go", "config/init.go"],
  [("load order and overrides", "config/load.go, config/config.go"), ("generation if missing", "config/embed.go")], None, ["loaded configuration in fresh processes"])

p("C02", "The tracker listens exactly where and how it is configured",
  "Each enabled transport listens on the configured address, IPv4, IPv6 or all, and port, and nothing else is opened; a disabled transport does not listen, and with both enabled they share one database. A listener that cannot be opened makes the tracker exit with an error instead of running deaf.",
  ["configurations"], "every combination of modes, addresses and ports, including occupied ports",
  "Tests run one configuration on one port.",
  ["tracker/tracker.go", "tracker/http/httptracker.go", "tracker/udp/udptracker.go"],
  [("listen calls", "tracker/http/httptracker.go Serve, tracker/udp/udptracker.go Serve")], None, ["sockets of the real binary"])

p("C03", "Operational settings change only what they are for",
  "Whatever the log level, the numbers of worker threads, the preallocated connection table, the profiling port, and the publication, cleaning and backup intervals, the tracker answers the same requests in the same way, honest and refused ones, obeys the save and stop signals and saves the same. An interval that is zero or less switches the periodic job off and costs nothing: an idle tracker uses next to no processor time. Only messages of the configured level or a more severe one are logged (an unknown level counts as warn), and a save that fails is logged as an error.",
  ["configurations", "inputs", "histories"], "every combination of operational settings with any traffic",
  "Tests run with one configuration.",
  ["tracker/tracker.go", "tracker/udp/udptracker.go", "tracker/udp/error.go", "config/config.go", MAP+"memory.go"],
  [("switches of periodic jobs", MAP+"memory.go Init"), ("debug-only error path", "tracker/udp/error.go"), ("log level", "config/config.go SetLogLevel")], None, ["answers, files, exit status, log lines and processor time of the real binary"])

p("D01", "The service commands control exactly one tracker",
  "'start' launches a tracker, records its process id and refuses when one is already recorded, alive or answering; 'stop' asks it to stop and reports success only once that process is gone, clearing the record, and reports failure within bounded time if it does not go away or cannot be identified, keeping the record of one that is still there; 'reset' clears the record. 'status' reports truthfully, in bounded time, whether the record is valid, the process alive and the tracker answering, even when something unresponsive occupies the port; whatever the record file contains, no other process is signalled by mistake for an unreadable record.",
  ["histories", "fault_sequences", "inputs"], "every sequence of commands, crashes of the tracker and contents of the record file, with ports free, occupied or silent",
  "Only reading, writing and clearing the record of one id is tested.",
  ["controller/controller.go", "controller/pidfile.go", "cli_entry.go"],
  [("liveness tests before start and after stop", "controller/controller.go"), ("record file", "controller/pidfile.go")], None, ["commands of the real binary against real processes"])

p("B07", "Backups happen on their own at the configured frequency",
  "With a positive backup frequency a complete backup of the database as it is at that moment is written, without any signal, within one such interval of the start and from then on at intervals of exactly that length, so a tracker that is killed loses no more than the changes of one interval. This goes on for as long as the tracker runs, also after backups that failed, took long or found the database unchanged, and never two of them at once. With a frequency of zero none is written before a signal or the end asks for it.",
  ["histories", "fault_sequences", "configurations"], "every frequency, every history of changes between backups, every sequence of failing or slow backups, hours of running",
  "Tests switch periodic backups off; nothing lets time pass or fails a backup.",
  [MAP+"memory.go", "tracker/utils/runon.go", MAP+"backup_file.go"],
  [("periodic backup", MAP+"memory.go Init"), ("periodic runner", "tracker/utils/runon.go")], None, ["times of saves under virtual time, backup files, restarts after a kill"])

p("N01", "Nothing is kept of what is over",
  "However much traffic of whatever kind (valid, invalid, cut off, silent, aborted) a tracker has served, once its clients are gone it holds no more open connections, file descriptors and goroutines than after serving the same amount before, and its memory does not grow from one such round to the next. Once peers, torrents and connection ids have stopped or expired nothing counts them any more. This holds in information mode too.",
  ["histories", "schedules", "inputs"], "every amount, mixture and repetition of traffic from any number of addresses about any number of torrents",
  "No test repeats traffic or looks at what is left after it.",
  ["tracker/http/worker.go", "tracker/udp/udptracker.go", "tracker/udp/conndb.go", MAP+"memory.go", MAP+"peer.go", "tracker/stats/stats.go", "pools/pool.go"],
  [("closing of connections", "tracker/http/worker.go"), ("forgetting of peers, torrents, addresses and ids", MAP+"memory.go, tracker/udp/conndb.go, tracker/stats/stats.go")], None, ["file descriptors, goroutines, heap and published figures after rounds of traffic"])

p("L01", "Nobody waits for the slow",
  "HTTP clients that send nothing or read nothing hold up at most the workers that serve them: while one configured worker is free every other request is answered without waiting for their time-outs, and UDP requests are answered however many HTTP clients are slow. A backup in progress, however slow the disk or the database server is, does not hold up announces, stops, scrapes and look-ups on torrents old or new. When the slow are gone, all workers serve again, even if there were more of them than the tracker may open files, or it could open none for a while.",
  ["schedules", "fault_sequences", "configurations"], "every number of workers and slow clients, every stage at which a save can stall",
  "Tests have one client at a time and no slow one, and no save is ever slow.",
  ["tracker/http/worker.go", "tracker/udp/udptracker.go", MAP+"backup_file.go", MAP+"backup_pg.go", MAP+"encode_binary.go"],
  [("one worker per client", "tracker/http/worker.go"), ("encoding before writing", MAP+"backup_file.go, backup_pg.go")], None, ["answers while workers or saves are held"])

p("S09", "Every member of a swarm gets handed out",
  "When a torrent has more peers than wanted, the lists given out are not the same few every time: over repeated announces, in either form, every member of the swarm is listed to someone, whatever its role, age, id and address.",
  ["histories", "inputs"], "every swarm, wanted number and order of joining and leaving",
  "Tests list swarms of one or two peers.",
  [MAP+"hash.go"], [("choice of the listed peers", MAP+"hash.go PeerList/PeerListBytes")], None, ["union of many lists"])

with open("/verif/properties.jsonl", "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
for d in P:
    if len(d["title"])>80: print("LONG", d["id"])
