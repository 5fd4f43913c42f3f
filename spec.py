"""What is run for each property: harness entries, bounds and what they assume."""

COMMON_ASSUMPTIONS = [
    "rustc's LLVM IR (opt-level 1, overflow checks on) has the semantics of the shipped build; single-threaded sequential consistency between scheduling points",
    "HashMap iteration order and hashing are replaced by a constant hasher (every map operation still runs hashbrown's real code)",
]
ACTORS = "actix runs for real on a deterministic single-threaded executor with a virtual clock; timers fire exactly on time"
POW = "the two judgements of mcaptcha_pow_sha256 (score of a result, validity of a proof) are arbitrary functions of their arguments"
THREADS = "threads interleave at channel, thread and lock operations only; crossbeam channels are modelled as linearizable queues"
SERVER = "the Redis server and its connection are models: every command is recorded, and answered as the harness decides; the redis crate's command encoding and reply decoding are real"
DISTINCT = "randomly drawn strings are pairwise distinct"

LIFE = ["challenge alive", "challenge gone", "token alive", "token gone"]

def R(entry, what, covers=(), **kw):
    return dict(entry=entry, what=what, covers=list(covers), **kw)

PROPS = {
    "C01": dict(
        bounds="up to 3 (thorough: 4) submissions in sequence of 2 outstanding challenges or an unknown string, any key, score and proof validity; 2 (thorough: 3) concurrent submissions of one challenge on 2 workers, every placement of up to 3 out-of-order task choices; a queue without room; 300 challenges outstanding at once, of any difficulty, and 300 more before they are replayed; sites and strings of 300 characters that differ at one place",
        outside="more submissions, more challenges, more than 3 out-of-order task choices",
        assumptions=[ACTORS, POW, THREADS, DISTINCT],
        runs=[R(103, "submissions in sequence", ["accepted", "refused", "replayed"], thorough=dict(entry=104, parts=8, time=600)),
              R(122, "submissions a full queue refuses", ["full", "replayed"]), R(1920, "300 challenges at once", ["many"]), R(320, "alike keys and strings", ["alike"]),
              R(112, "submissions at once", ["raced"]), R(113, "three at once", ["raced"], quick=False, parts=8, time=800)]),
    "C02": dict(
        bounds="3 concurrent presentations of one token, up to 3 out-of-order task choices; 2 tokens of 2 sites and an outstanding challenge; up to 3 (thorough: 4) presentations of either token or any string of 31 to 33 characters, under either site key or any key of 3 to 5 characters; keys and tokens of 300 characters that differ at one place",
        outside="more presentations; strings of other lengths",
        assumptions=[ACTORS, POW, THREADS, DISTINCT],
        runs=[R(203, "tokens", ["confirmed", "forged", "refused"], parts=4, thorough=dict(entry=204, parts=16, time=800)), R(253, "presentations at once", ["raced"]), R(1920, "300 tokens at once", ["many"]), R(320, "alike keys and strings", ["alike"])]),
    "C03": dict(
        bounds="any 2-level ladder, duration (16 bits), nonce, score, validity; up to 1 visitor before and 1 after the challenge was issued; the key of the right site, another site or any other of 2 to 6 characters; the issued string or any other of 31 to 33 characters; submission and token presentation at any time (16-bit seconds); a ladder of 24 levels, any level and count, any score; keys and strings of 300 characters that differ at one place",
        outside="longer histories",
        assumptions=[ACTORS, POW, THREADS, DISTINCT],
        runs=[R(300, "one submission of any work", ["accepted", "refused", "unknown", "wrong site"]), R(301, "late submissions", ["in time", "late"]), R(310, "24 levels", ["accepted", "refused"]), R(320, "alike keys and strings", ["alike"])]),
    "C04": dict(
        bounds="up to 2 entries (thorough: 3), challenges or tokens, with any data and lifetime (below 2^40 s), stored, one consumed and all retrieved at any moments to the nanosecond; 3 entries with 16-bit seconds; 2 challenges or tokens and one of the other kind with any strings of 0 to 3 characters, or of 300 that differ at one place; deletion of one of 4 entries; 400 challenges and 400 tokens of any one lifetime (16 bits), retrieved at any moment",
        outside="more entries; two entries of one kind under one string",
        assumptions=[ACTORS, "entries of one kind have distinct strings", "the moment exactly at the end of a lifetime is left open"],
        runs=[R(403, "3 entries, seconds", LIFE, parts=4), R(411, "1 entry", LIFE), R(412, "2 entries", LIFE),
              R(420, "deletion on request", ["deletion"]), R(430, "entries of any names", ["names"]), R(431, "long alike names", ["names"]), R(440, "800 entries", ["many"]), R(413, "3 entries", LIFE, quick=False, parts=16, time=800)]),
    "C05": dict(
        bounds="0 to 4 levels (thorough: to 5), each with any 32-bit threshold and difficulty, in any order; 20 levels, one of which is any level, added at one of 5 places; level builder: any 3 calls",
        outside="more levels than that",
        runs=[R(500, "no levels", ["empty"]), R(501, "1 level", ["built", "zero"]), R(502, "2 levels", ["built", "zero", "duplicate", "decreasing"]),
              R(503, "3 levels", ["built", "zero", "duplicate", "decreasing"]),
              R(504, "4 levels", ["built", "zero", "duplicate", "decreasing"]), R(505, "5 levels", ["built", "zero", "duplicate", "decreasing"], quick=False, parts=8, time=600),
              R(520, "20 levels", ["built", "duplicate", "decreasing"]), R(510, "level builder", ["built", "no threshold", "no difficulty"])]),
    "C06": dict(
        bounds="one step from every state (any 32-bit visitor count, any level in force, any ladder of 1 to 3 levels; thorough: to 5); histories of 4 (thorough: 6) operations from the start; a ladder of 24 levels: from any level, any counts, two visitors and a release; a crowd of 176 that leaves in part and of which 24 return",
        runs=[R(600 + n, f"one visitor, {n} levels", ["bottom"], quick=n < 4) for n in range(1, 6)]
            + [R(610 + n, f"one release, {n} levels", ["released"], quick=n < 4) for n in range(1, 6)]
            + [R(620 + n, f"defense moves, {n} levels", ["moved"], quick=n < 4) for n in range(1, 6)]
            + [R(634, "history of 4", ["history"], thorough=dict(entry=636)), R(640, "24 levels", ["stepped"]), R(641, "a crowd over 24 levels", ["history"])]),
    "C07": dict(
        bounds="up to 3 (thorough: 4) visitors of one site; any duration below 2^40 s, any gaps up to 2^40 s to the nanosecond; up to 5 (thorough: 7) visitors with 16-bit durations and gaps in seconds; 700 visitors in two groups",
        assumptions=[ACTORS, "the moment exactly d seconds after an arrival is left open"],
        runs=[R(701, "1 visitor", ["observed"]), R(702, "2 visitors", ["observed"]), R(703, "3 visitors", ["observed"]), R(720, "700 visitors", ["many"]), R(715, "5 visitors", ["observed"], parts=4, thorough=dict(entry=717, parts=8, time=800)),
              R(704, "4 visitors", ["observed"], quick=False, parts=8, time=800)]),
    "C08": dict(
        bounds="up to 3 (thorough: 4) operations (add, rename, remove, visit) over 3 names and 2 configurations; the same with time passing in between; 3 names of any 0 to 4 characters, or of 300 that differ at one place; 1200 sites of any difficulties",
        outside="longer histories",
        assumptions=[ACTORS],
        runs=[R(803, "registry", ["compared", "removed", "renamed", "visited"], parts=2, thorough=dict(entry=804, parts=8, time=800)), R(812, "registry over time", ["compared"], thorough=dict(entry=813, parts=8, time=800)),
              R(820, "requests sent at once", []), R(830, "any names", ["compared", "three names"], parts=2), R(831, "long alike names", ["compared", "three names"]), R(840, "1200 sites", ["many"])]),
    "C09": dict(
        bounds="2 sites; one clean-up with any one operation (add, rename, remove, visit) at any point inside it, and up to 1 (thorough: 2) out-of-order task choices; schedules of 3 (thorough: 4) operations over several clean-up periods with symbolic period and durations; one of 3 sites stopped by somebody at any point of a clean-up, up to 1 (thorough: 2) out-of-order task choices; names of up to 4 characters, or of 300 that differ at one place; 1200 sites",
        outside="more than one concurrent operation per clean-up",
        assumptions=[ACTORS],
        runs=[R(900, "clean-up with a concurrent operation", ["cleaned", "in the middle", "visited in time"]), R(901, "the same, tasks reordered", ["cleaned", "in the middle", "visited in time"], parts=4),
              R(912, "periodic clean-ups", ["observed", "removed"]), R(930, "any names", ["cleaned"]), R(931, "long alike names", ["cleaned"]), R(951, "a site stopped during a clean-up", ["in the middle", "removed"], thorough=dict(entry=952)), R(940, "1200 sites", ["many"]), R(913, "periodic clean-ups", ["observed", "removed"], parts=4), R(914, "periodic clean-ups", ["observed", "removed"], quick=False, parts=8, time=800),
              R(902, "two reorderings", ["cleaned"], quick=False, parts=16, time=800)]),
    "C10": dict(
        bounds="one site with any 2-level ladder, 16-bit duration, up to 2 visitors at any times, exported through JSON and imported at any time into the same master, a fresh one, or one where the site was removed or replaced; up to 2 later visitors; two sites of any names of 0 to 4 characters, or of 300 that differ at one place; one of 3 sites stopped; 1 to 256 imports in a row over an earlier one with any visitors; an import at any point of a clean-up of 3 sites, up to 1 (thorough: 2) out-of-order task choices; 1200 sites; a site of 24 levels at any level and count",
        outside="more visitors; the Redis master, whose export and import are not implemented (todo!())",
        assumptions=[ACTORS],
        runs=[R(1001, "restore", ["fresh", "same", "removed", "other", "released"]), R(1011, "restore, 2 later visitors", ["fresh", "same", "removed", "other", "released"]),
              R(1002, "restore 2 visitors", ["fresh", "same", "removed", "other", "released"], parts=4), R(1012, "restore 2 visitors, 2 later", ["released"], quick=False, parts=8, time=800), R(1020, "restored twice", ["released"]), R(1080, "restored up to 257 times", ["often", "released"], parts=2), R(1030, "any names", ["restored"]), R(1031, "long alike names", ["restored"]),
              R(1040, "a stopped site", ["stopped"]), R(1051, "import during a clean-up", ["in the middle", "restored"], thorough=dict(entry=1052)), R(1060, "1200 sites", ["many"]), R(1070, "24 levels", ["restored"])]),
    "C11": dict(
        bounds="manager alone with 1 to 3 workers played by the harness: up to 5 (thorough: 6) submissions and completions in any order, 4 addresses, limit 1 to 3; two addresses of any 0 to 4 characters, or of 300 that differ at one place; 300 (C12: 100) addresses, 1, 2, 6 or 20 workers; three times as many jobs of one; 3 (thorough: 4) submissions and completions in any order after a backlog of up to 66 jobs of one or two addresses; submissions of alike addresses through the whole system; whole queue with real workers: 2 submitting threads of 1 to 2 jobs, 1 or 2 workers, schedules with up to 2 (thorough: 3) departures from round robin",
        outside="more jobs, addresses, departures; jobs that panic",
        assumptions=[THREADS],
        runs=[R(1115, "1 worker", ["accepted", "refused", "waiting", "done"]), R(1125, "2 workers", ["accepted", "refused", "waiting", "done"], parts=2), R(1134, "3 workers", ["accepted", "waiting", "done"]),
              R(1116, "1 worker, 6 steps", ["done"], quick=False, parts=8, time=800), R(1126, "2 workers, 6 steps", ["done"], quick=False, parts=8, time=800), R(1135, "3 workers, 5 steps", ["done"], quick=False, parts=8, time=800),
              R(1190, "any addresses", ["addresses"]), R(1192, "the whole system", ["served"]), R(1183, "a backlog", ["backlog", "waiting", "refused"], parts=2, thorough=dict(entry=1184, parts=8, time=800)), R(1191, "300 addresses", ["many"]),
              R(1142, "threads: 1 worker", ["interleaved"], thorough=dict(entry=1143, parts=4)), R(1152, "threads: 2 workers", ["interleaved"], thorough=dict(entry=1153, parts=4)),
              R(1162, "threads: 1 worker, 2 jobs each", ["interleaved"], thorough=dict(entry=1163, parts=8, time=800)), R(1172, "threads: 2 workers, 2 jobs each", ["interleaved"], thorough=dict(entry=1173, parts=8, time=800))]),
    "C12": dict(
        bounds="1 to 3 workers played by the harness: up to 5 (thorough: 6) submissions and completions in any order, 4 addresses, limit 1 to 3; two addresses of any 0 to 4 characters, or of 300 that differ at one place; 300 (C12: 100) addresses, 1, 2, 6 or 20 workers; three times as many jobs of one; 3 (thorough: 4) submissions and completions in any order after a backlog of up to 66 jobs of one or two addresses; submissions of alike addresses through the whole system",
        assumptions=[THREADS],
        runs=[R(1290, "any addresses", ["addresses"]), R(1292, "the whole system", ["served"]), R(1283, "a backlog", ["backlog", "waiting", "refused"], parts=2, thorough=dict(entry=1284, parts=8, time=800)), R(1291, "100 addresses", ["many"]), R(1215, "1 worker", ["done"]), R(1225, "2 workers", ["done"], parts=2), R(1234, "3 workers", ["done"]),
              R(1216, "1 worker, 6 steps", ["done"], quick=False, parts=8, time=800), R(1226, "2 workers, 6 steps", ["done"], quick=False, parts=8, time=800), R(1235, "3 workers, 5 steps", ["done"], quick=False, parts=8, time=800)]),
    "C13": dict(
        bounds="1 to 3 workers played by the harness: up to 5 (thorough: 6) submissions and completions in any order, 4 addresses, limit 1 to 3; two addresses of any 0 to 4 characters, or of 300 that differ at one place; 300 (C12: 100) addresses, 1, 2, 6 or 20 workers; three times as many jobs of one; 3 (thorough: 4) submissions and completions in any order after a backlog of up to 66 jobs of one or two addresses; submissions of alike addresses through the whole system",
        assumptions=[THREADS],
        runs=[R(1390, "any addresses", ["addresses"]), R(1392, "the whole system", ["served"]), R(1383, "a backlog", ["backlog", "waiting", "refused"], parts=2, thorough=dict(entry=1384, parts=8, time=800)), R(1391, "300 addresses", ["many"]), R(1315, "1 worker", ["refused", "done"]), R(1325, "2 workers", ["refused", "done"], parts=2), R(1334, "3 workers", ["done"]),
              R(1316, "1 worker, 6 steps", ["done"], quick=False, parts=8, time=800), R(1326, "2 workers, 6 steps", ["done"], quick=False, parts=8, time=800), R(1335, "3 workers, 5 steps", ["done"], quick=False, parts=8, time=800)]),
    "C14": dict(
        bounds="1 or 2 workers, 2 or 3 jobs, the queue dropped at any moment, schedules with up to 2 (thorough: 3) departures from round robin; the whole system dropped during 2 verifications at any suspension point, up to 2 (thorough: 3) departures; up to 8 workers and 40 jobs, the queue dropped before any is done, in between, or with jobs that outlast the drop",
        outside="jobs that panic or never end",
        assumptions=[THREADS, ACTORS, POW],
        runs=[R(1402, "1 worker, 2 jobs", ["ended", "cancelled"], parts=2, thorough=dict(entry=1403, parts=8, time=800)), R(1412, "2 workers, 2 jobs", ["ended", "cancelled"], parts=4, thorough=dict(entry=1413, parts=8, time=800)),
              R(1421, "1 worker, 3 jobs", ["ended", "cancelled"], parts=2, thorough=dict(entry=1422, parts=8, time=800)), R(1431, "2 workers, 3 jobs", ["ended", "cancelled"], parts=2, thorough=dict(entry=1432, parts=8, time=800)),
              R(1450, "40 jobs, 8 workers", ["dropped", "ended"]),
              R(1442, "system dropped", ["ended", "cancelled"], thorough=dict(entry=1443, parts=4))]),
    "C15": dict(
        bounds="one or two requests of any kind dropped after any number of steps, then further requests; a requester that never looks at its verdict; 3 (thorough: 4) jobs of any verdict; a Redis request of any kind dropped at any point with any latency and failure",
        assumptions=[THREADS, ACTORS, POW, SERVER],
        runs=[R(1500, "abandoned requests", ["abandoned", "completed"]), R(1505, "unread verdict", ["slow"]), R(1513, "bad work", ["bad work"], parts=2), R(1520, "abandoned Redis requests", ["abandoned", "completed"])]),
    "C16": dict(
        bounds="every operation; names and strings of 0 to 2 printable, control or 2-byte characters, two names of one length alike or not, names of 300 characters that differ at one place; commands that succeed, fail, or get one of 12 unexpected replies; a ladder of 24 levels; each number over its full range (64-bit durations, non-zero 32-bit difficulties and thresholds), one at a time; ladders of 1 and 2 levels; replies with numbers of up to 19 (durations) and 9 digits, in either field order, as simple or bulk string; any existence reply, any count below 2^63",
        outside="the bytes on the wire (the redis crate's protocol encoder), longer names",
        assumptions=[SERVER, ACTORS],
        runs=[R(1600, "challenge: any difficulty", ["sent"]), R(1601, "challenge: any duration", ["sent"]), R(1602, "challenge: any text", ["sent"]), R(1610, "site: any threshold", ["sent"]),
              R(1611, "site: any difficulty", ["sent"]), R(1612, "site: any duration", ["sent"]), R(1620, "requests of names", ["sent", "present", "absent", "error"]), R(1630, "tokens", ["there", "not there", "error"]),
              R(1650, "commands that fail", ["served", "failed"]), R(1660, "site of 24 levels", ["sent"]),
              R(1640, "replies: any duration", ["reported"]), R(1641, "replies: any difficulty", ["reported"])]),
    "C17": dict(
        bounds="histories of 2 (thorough: 3) requests of any kind, each command succeeding, failing with a connection or server error, or answered with one of 7 unexpected replies (single requests: 12); 2 (thorough: 3) requests in flight of which one fails; the whole system on replies with any one-digit difficulties; 3 to 70 consecutive failures of one kind (of one kind of request, or of all in turn), then a working server",
        assumptions=[SERVER, ACTORS],
        runs=[R(1720, "an outage", ["back"]), R(1702, "faults", ["served", "failed"], parts=2, thorough=dict(entry=1703, parts=16, time=800)), R(1650, "single requests", ["served", "failed"]), R(1730, "the system on any replies", ["accepted", "refused", "judged"]), R(1712, "faults with requests in flight", ["failed", "in flight"], thorough=dict(entry=1713))]),
    "C18": dict(
        bounds="two (site, token) pairs of any printable content with lengths 0 to 1 and 3 operations, 0 to 2 (thorough: 3) and 2 operations (store, validate, delete, wait), durations 1 or 10 s, waits of half seconds; sites and tokens of 300 characters that differ at one place, or of up to 1300 that are divided elsewhere; one token presented through 2 (thorough: 3) caches of one server at once; 40 tokens of one site, or one of 40 sites, presented twice at any second",
        outside="longer strings and histories",
        assumptions=[SERVER, ACTORS, "the server implements SET with expiry, DEL and the like as documented"],
        runs=[R(1860, "40 tokens", ["confirmed", "refused"]), R(1842, "presented to several caches at once", ["at once"], thorough=dict(entry=1843)), R(1813, "3 operations", ["confirmed", "refused", "deleted", "waited"], parts=2), R(1852, "long alike strings", ["confirmed", "refused", "deleted", "waited"]), R(1822, "2 operations, longer strings", ["confirmed", "refused", "deleted", "waited"]),
              R(1832, "2 operations, strings to 3", ["confirmed", "refused", "deleted", "waited"], parts=2), R(1823, "3 operations, longer strings", ["confirmed"], quick=False, parts=4), R(1833, "3 operations, strings to 3", ["confirmed"], quick=False, parts=8, time=800)]),
    "C19": dict(
        bounds="3 (thorough: 4) requests for 2 sites (one with any 2-level ladder and 16-bit duration) or an unknown one; one request against stand-ins for master and cache giving any answer (any duration, difficulty, salt, name of 0 to 4 characters, error or no answer)",
        assumptions=[ACTORS, DISTINCT],
        runs=[R(1920, "600 requests", ["many"]), R(320, "alike keys", ["alike"]), R(1903, "requests", ["issued", "unknown"], thorough=dict(entry=1904, parts=4)), R(1910, "any answers of master and cache", ["issued", "nothing", "error"])]),
    "C20": dict(
        bounds="all values of the 32 draws a string is made of (draws of the top 1/32 of the range, which a sampler of 62 characters skips, at one position at a time)",
        outside="the statistical quality of the generator itself; repeated skips",
        assumptions=["the process's generator (rand::rng) returns arbitrary 32-bit or 64-bit values"],
        runs=[R(2000, "form", ["every draw used"]), R(2001, "form with a skipped draw", ["every draw used", "draws skipped"]),
              R(2010, "independence", ["differ", "independent"]), R(2011, "range", ["any character of a challenge", "any character of a token"])]),
    "C21": dict(
        bounds="up to 3 (thorough: 4) builder calls in any order, any values; 1- and 2-level defenses; a 24-level defense of which one level is any",
        runs=[R(2120, "24 levels", ["built"]), R(2103, "builder", ["built", "zero", "no duration", "no defense"], thorough=dict(entry=2104))]),
    "C22": dict(
        bounds="lists of up to 2 (thorough: 3) modules with 6 names, in either reply format, one of them as simple or bulk strings in 6 arrangements of fields (other values equal to the name looked for, or to the name of a field); a module of any 13-, 14- or 15-character name; 7 replies that are no module list; up to 2 unknown commands; failure of any one probe or of the connection; single and cluster configuration; 40 modules, the one looked for absent or at one of 14 places",
        assumptions=[SERVER],
        runs=[R(2240, "40 modules", ["usable", "not loaded"]), R(2202, "module lists", ["usable", "not loaded"], thorough=dict(entry=2203)), R(2212, "module lists, RESP3", ["usable", "not loaded"], thorough=dict(entry=2213)),
              R(2223, "any name of 13", ["not loaded"]), R(2224, "any name of 14", ["usable", "not loaded"]), R(2225, "any name of 15", ["not loaded"]),
              R(2230, "no module list", ["not loaded"]), R(2231, "unknown commands and failures", ["usable", "missing", "error", "not loaded"])]),
    "C23": dict(
        bounds="2 (thorough: 3) requests of any kind to one actor, sent at any distance in steps or time, replies immediate or after a second, any one requester going away at any point; 14 requests, of one kind or of all in turn, at 3 distances, one of which may go away",
        assumptions=[SERVER, ACTORS],
        runs=[R(2320, "14 requests", ["cancelled", "served"]), R(2302, "requests at once", ["cancelled", "served"], parts=2, thorough=dict(entry=2303, parts=16, time=800))]),
}

NOT_APPLICABLE = {}
