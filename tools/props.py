SCHED = ("Exhaustive within the stated preemption bound on the real code at statement granularity (an overlay copy of the package, "
         "with the scheduler owning every lock, clock and go statement); a second build explores again under Go's happens-before "
         "race monitor. Trusts the models of sync primitives and Go's sequential consistency for race-free code.")
REAL = "Runs the unmodified code; exhaustive within the stated alphabets and depth. Trusts the reference model written from the documentation."

prop("C01", "Routing decides every request as the route table says",
 "For every route table and request, the route that serves is the one of the request's host (port ignored) or the default host that matches the canonical path exactly, host first, or else the nearest registered ancestor path, host before default; among routes of that path the request's method selects (the last registration wins). A path nothing matches answers 404, a matched path without the method 405, a content type the route does not allow 406 (parameters after ';' ignored, '*' allows all), and an ancestor match whose route does not allow fallback 404; in these cases no handler runs. The handler that runs sees the canonical path (single slashes, dot segments resolved inside the root, trailing slash kept).",
 ["inputs", "configurations", "histories"], "every sequence of route registrations up to 4 (5 thorough) over hosts x nested paths x fallback x methods x content rules, times every request of an alphabet of hosts, raw paths (up to 120 segments or 300 bytes; host names with slashes), methods and content types",
 "the existing router test asks a handful of fixed requests of one table; the decision is a function of the whole table and the request, with eight-way host/default/exact/ancestor cases, and only enumeration of table-request pairs settles it",
 ["router/router.go", "router/route.go", "router/utils.go"], [("route lookup and fallback", "router/route.go getRoute, matchRoute"), ("content rule", "router/route.go contentAllowed"), ("path canonicalisation", "router/utils.go cleanPath, StripHostPort")],
 "model_checking", "explicit enumeration of route tables and requests against a reference model, on the real router", REAL)

prop("C02", "Middleware runs completely, in order, exactly once, for its path only",
 "Whatever the order in which routes and middleware are registered, a request that resolves to a path passes every middleware registered for exactly that host and path, in registration order (the first registered is outermost), each once, and then the selected handler once. A middleware that does not call its successor stops the request: nothing behind it runs. Requests that no route serves run no middleware, and answering a request never changes the chain of later ones.",
 ["histories", "inputs"], "all registration histories up to length 4 over 20 operations, 5 over 9, 7 over 4 (thorough 5 and 9), every request answered twice",
 "the existing middleware test has one route with two middlewares registered in one order; the property is over registration histories, including middleware before its route, several methods on one path and trailing-slash spellings",
 ["router/middleware.go", "router/router.go", "router/route.go"], [("middleware list per host and path", "router/middleware.go UseMiddleware"), ("chain execution", "router/router.go ServeHTTP")],
 "model_checking", "bounded exhaustive exploration of registration histories with a reference chain, on the real router", REAL)

prop("C03", "The router stays correct while routes are registered concurrently",
 "Requests may be served while routes and middleware are being registered from other goroutines: every request is answered as the route table stood at some instant during the request, every registration that has returned is seen by all later requests, and no registration is lost. No interleaving deadlocks, crashes or contains a data race.",
 ["schedules", "histories"], "every schedule with at most 2 (3 thorough) preemptions of 8 closed histories of 2-4 threads mixing route registration, middleware registration and requests",
 "the existing tests are single-threaded; losing a registration, serving a half-registered path or crashing on a concurrent map access depends on the interleaving",
 ["router/router.go", "router/route.go", "router/middleware.go"], [("read/write lock around the route table", "router/router.go AddRoute, router/route.go getRoute, router/middleware.go UseMiddleware")],
 "model_checking", "stateless model checking of the implementation under a controlled scheduler (preemption-bounded), linearizability and happens-before race monitor", SCHED)

prop("C04", "The firewall refuses exactly the clients its rules say",
 "A firewall rule names a path and client addresses ('*' is everyone) and covers that path and everything below it; a rule for '/' covers every path, or only '/' itself when subpath blocking is on. A blacklist answers 403 to exactly the clients that a covering rule names, a whitelist to exactly the clients that none names, alike for served and for proxied sites. The client is the address of the connection, not a header, and a refused request never reaches the handler while any other reaches it exactly once.",
 ["inputs", "configurations"], "all rule sets over 4 nested, 4 sibling and 4 slash-terminated paths (thorough 6) with up to 5 client lists each, blacklist/whitelist x subpath x HTTP/proxy, 17 request paths x 4 clients x 2 methods",
 "no existing test touches the firewall; the verdict is a function of rule set, mode, path nesting and client, and its default case was inverted for years",
 ["guard/firewall.go"], [("ancestor walk and default verdict", "guard/firewall.go BlockHTTP, BlockProxy")],
 "model_checking", "explicit enumeration of firewalls and requests against a reference verdict, on the real middleware", REAL)

prop("C05", "Every route of every configured site is behind that site's guards",
 "In a server loaded from configuration, no content of a site (static file, download, download index or proxied response, on any configured path, host name and method) reaches a client that this site's firewall refuses (403) or that is over this site's rate limit (429), and every client both allow is served. All routes of a site share one limit per client, while different virtual hosts have firewalls, rules and limits of their own that never affect each other.",
 ["configurations", "inputs", "histories"], "3 site kinds x 8 firewalls x 3 limits alone, as only virtual host, and in all ordered pairs of virtual hosts; 3 clients x 6 paths x 2 methods x all host names, twice in sequence",
 "the existing tests never load a configuration; whether each loop over vhosts, methods and proxy hosts attaches the right guard depends on the combination of sites",
 ["tuna/routes.go", "guard/firewall.go", "guard/limiter.go"], [("guards attached per route", "tuna/routes.go addRoutesFromConfig")],
 "model_checking", "explicit enumeration of configurations and request histories against a reference access model, on the real server object", REAL)

prop("C06", "Protected pages are shown only to valid credentials",
 "A handler behind basic authentication, and the metrics page of a configured server in every spelling of its path, on any host, is reached only by a request whose Authorization header is well-formed Basic with a known user name and exactly that user's password (everything after the first colon), or that the custom verification function accepts; with no users configured it is never reached. Every other request is answered 401 with a Basic challenge and shows nothing of the page, and valid credentials are always admitted. Concurrent requests are judged independently and without data races.",
 ["inputs", "configurations", "schedules"], "all user tables over 4 names x 4 passwords (metrics page 3 x 3), about 260 Authorization headers each, all spellings of the page path; all schedules with 2 preemptions of three simultaneous clients",
 "no existing test touches authentication; empty credentials, unknown users, colons in passwords and malformed headers form a space of inputs, and lazily set defaults raced between requests",
 ["guard/basicauth.go", "tuna/routes.go", "tuna/metrics.go"], [("credential comparison", "guard/basicauth.go authenticate, simpleBasicAuthFunc"), ("metrics route protection", "tuna/routes.go addRoutesFromConfig")],
 "model_checking", "explicit enumeration of user tables and headers against a reference verdict; stateless model checking of concurrent requests", REAL)

prop("C07", "Rate limiting is an exact token bucket per client",
 "Each client may send a burst of the configured size and then requests at the configured rate, with unused allowance accumulating up to the burst; every request within that allowance is served and every other is answered 429 without reaching the handler. A client is the remote address without port, or address and User-Agent together unless filtering on address alone is configured, and clients never share or influence each other's allowance. Only a client that was idle for more than 15 minutes, or was followed by 1000 requests of others, may be treated as new.",
 ["histories", "configurations"], "request/pause histories of depth 3-7 (thorough 4-8) over 5-13 operations with up to 13 clients and 9 other kinds of requests of one client, floods of other clients, pauses from 250 ms to 16 min, rates 0-120 per minute, bursts 0-3",
 "no existing test sends a request through the limiter; the allowance is a function of the whole history of requests and times",
 ["guard/limiter.go", "cache/get.go", "cache/set.go"], [("one bucket per client key", "guard/limiter.go LimitHTTP"), ("client retention", "cache/get.go Get")],
 "model_checking", "bounded exhaustive exploration of timed histories under a fake clock against an exact token-bucket model, on unmodified code", REAL)

prop("C08", "Concurrent requests cannot exceed or lose a client's rate limit",
 "When requests of the same or of different clients are handled concurrently, each client gets exactly the allowance it would get if its requests came one after another: never more than the burst, and never a refusal within it. This includes the very first requests of a client and clients that return after a pause, and no interleaving deadlocks, crashes or contains a data race.",
 ["schedules", "histories"], "every schedule with at most 1-3 (thorough one more) preemptions of 9 closed histories of 2-3 threads, 1-2 requests each, over limiter and cache",
 "the existing tests are single-threaded; handing two simultaneous first requests two separate buckets needs a particular interleaving",
 ["guard/limiter.go", "cache/get.go", "cache/set.go"], [("lookup-or-create of a client's bucket", "guard/limiter.go LimitHTTP")],
 "model_checking", "stateless model checking of the implementation under a controlled scheduler (preemption-bounded) with happens-before race monitor", SCHED)

prop("C09", "The cache returns the latest, unexpired value and nothing else",
 "A lookup returns the value last set for exactly that key, or a miss; a lookup with a maximum age never returns an entry whose age (time since it was last set or successfully looked up) exceeds it, and the reported age of a found entry is that age. An entry that is within the maximum age and has not been followed by 1000 newer operations is always found, at every fill level of the cache and across every wrap-around.",
 ["histories", "inputs"], "all operation histories up to depth 5 (6 thorough) over 12 operations and a virtual clock, exact and advancing with each reading; all 2-operation histories at 55 ring positions around start, wrap and second wrap, followed by 9 amounts of later traffic",
 "the existing test prints what it gets and compares nothing; position in the ring, in-place updates and clock produce a history space where old code returned stale, expired or foreign values",
 ["cache/get.go", "cache/find.go", "cache/set.go"], [("newest-to-oldest ring scan", "cache/get.go Get, cache/find.go Find"), ("append and in-place update", "cache/set.go Set, appendKey")],
 "model_checking", "bounded exhaustive exploration of timed operation histories under a virtual clock against a map model, on the real cache", "The real code with only time.Now replaced by a virtual clock; exhaustive within the stated alphabets and depth. Trusts the reference map model.")

prop("C10", "The cache is linearizable under concurrent use",
 "Set, lookup and find from any number of goroutines behave as if executed one after another in an order consistent with real time: a completed set is seen by every later lookup, no entry is lost, no lookup sees a value of another key or a value that was never set. This holds from the first use of any part of the cache and across wrap-around, and no interleaving deadlocks, crashes or contains a data race.",
 ["schedules", "histories"], "every schedule with at most 1-3 (thorough one more) preemptions of 9 closed histories of 2-3 threads on shared and separate shards, empty, at the wrap and full",
 "the existing tests use the cache from one goroutine; creating a shard twice or releasing a lock that was never taken needs two first uses to overlap",
 ["cache/set.go", "cache/get.go", "cache/find.go", "cache/shard.go"], [("shard creation", "cache/shard.go initShard"), ("per-shard lock", "cache/set.go, cache/get.go, cache/find.go")],
 "model_checking", "stateless model checking of the implementation under a controlled scheduler (preemption-bounded), linearizability and happens-before race monitor", SCHED)


prop("C11", "Metrics count every answered request exactly once and never break the server",
 "After a server with stored metrics S has answered a set of requests, sequentially or concurrently and also while it is still starting, the metrics it shows and stores are S plus exactly one count per request: in the total, and under the path and status it was answered with. The metrics page lists exactly these numbers, shows request paths as text whatever they contain, and asking for it neither hangs, crashes nor disturbs other requests or the counts.",
 ["histories", "inputs", "schedules"], "all histories of depth 3 (thorough 4) over the requests of several sites from several stored states; about 1100 hostile paths shown on the page; every schedule with at most 2 (3) preemptions of closed histories of concurrent requests, page views, flushes and start",
 "the existing test adds to one counter; counts lost between loading, counting and flushing, and a page that hung when read during a request, depend on the interleaving, and injected markup on the path",
 ["tuna/metrics.go", "tuna/log.go", "tuna/server.go"], [("counting a request", "tuna/log.go LogNetwork, tuna/metrics.go concat"), ("metrics page", "tuna/metrics.go handleMetrics, display"), ("loading stored metrics", "tuna/metrics.go LoadMetrics, tuna/server.go NewInstanceFromConfig")],
 "model_checking", "bounded exhaustive exploration of request histories against a reference count; stateless model checking of concurrent requests, page views, flushes and start with race monitor", SCHED)

prop("C12", "Stored metrics and templates survive restarts, crashes and failing saves",
 "Whatever system call of a server's life the process is killed at, the machine stops at or the call fails at, the metrics file afterwards holds the complete counts of an earlier save (the last completed one, once saved), never a torn, empty or mixed state, and the next start succeeds, shows those counts, continues counting from them and answers with complete pages. Counts are saved at a normal stop and at least daily, a server without metrics never touches the file, and a metrics file that cannot be read is never overwritten.",
 ["crash_points", "fault_sequences", "histories"], "every file-system call of whole server lives (start, requests, daily saves, stop) x kill before/after, every write torn at every byte, machine stop with unsynced data lost, and every call failing with several errors; single cuts and pairs of cuts over restarts",
 "the existing tests never stop a server; what is on disk after a crash depends on the exact call it happened at, and only enumeration of all of them covers the torn and unsynced states",
 ["tuna/metrics.go", "tuna/templates.go", "tuna/utils.go", "tuna/serve.go"], [("saving", "tuna/metrics.go flushMetrics, tuna/utils.go writeFile"), ("loading", "tuna/metrics.go LoadMetrics"), ("daily save and save at stop", "tuna/metrics.go MetricsDaemon, tuna/serve.go Serve"), ("templates", "tuna/templates.go generateTemplates, html/template.go")],
 "fault_enumeration", "exhaustive enumeration of crash points, torn writes and failing calls over whole lives of the real server, with restart and a reference count as oracle",
 "Runs the real code; the file-system calls of package os are numbered at build time and cut one by one. Trusts the crash model (ordered directory changes; unsynced data kept not at all or half).")

prop("C13", "A proxied request reaches exactly the configured host, unchanged",
 "A request to a proxying site is forwarded to the target configured for its host name (port ignored) and to nowhere else, whatever the form of its target and headers: one request, with the client's method, path, query, headers and body bytes, plus what the configuration adds. Requests for host names without a rule are never forwarded, no part of one client's request ever appears in another's, also when they are concurrent, and a request that the client does not complete never reaches the upstream as a complete one.",
 ["inputs", "configurations", "histories", "schedules"], "products of 20 methods, 60 target forms, host headers, header sets and bodies as raw bytes over real HTTP/1.1 and HTTP/2 connections to 2 sites; all pairs of 45 requests on one connection; requests cut at every byte; every schedule with 2 preemptions of concurrent requests",
 "the existing tests never proxy; absolute, asterisk and slash-less targets, fragments and escaped paths sent requests to foreign hosts or past the firewall, which only systematic enumeration of raw request forms finds",
 ["tuna/handleproxy.go", "tuna/routes.go", "tuna/utils.go"], [("building the upstream request", "tuna/handleproxy.go handleProxy"), ("proxy routes", "tuna/routes.go addRoutesFromConfig"), ("header copy", "tuna/utils.go copyHeader, cloneHeader")],
 "model_checking", "explicit enumeration of raw request forms and sequences against a reference translation, observed at the upstream; stateless model checking of concurrent requests", REAL)

prop("C14", "A proxied answer reaches the client exactly, or visibly fails",
 "The client of a proxying site gets the upstream's status, headers (plus the configured ones) and body byte for byte, or, when the upstream cannot be reached, is silent beyond the time limit or answers garbage, a 502 page; an answer that the upstream does not complete is never passed on as complete. Every request is answered within a bounded time, uses at most one exchange with the upstream unless a reused connection failed before answering, releases its upstream connection, and leaves later requests unaffected.",
 ["fault_sequences", "inputs", "histories"], "some 60 upstream answers x methods x pacing; every framed answer cut at every byte by close, reset or silence, on fresh and on reused connections, followed by another request; all pairs of answers; header delays around the time limit; HTTP/1.1 and HTTP/2 clients",
 "the existing tests never proxy; passing a truncated answer on as complete or leaking a connection needs the upstream to fail at a particular byte",
 ["tuna/handleproxy.go", "tuna/handleerror.go"], [("upstream exchange and copy", "tuna/handleproxy.go handleProxy"), ("time limits", "tuna/handleproxy.go proxy transport")],
 "fault_enumeration", "exhaustive enumeration of upstream answers and of every cut of them under a fake clock, on the real proxy between in-memory connections", REAL)

prop("C15", "File sites deliver the files below their directory and nothing else",
 "A request to a file or download site is answered with the exact bytes, length and media type of the regular file that its canonical decoded path names below that site's directory (the index file for a path ending in a slash), and with 404 if there is none. No spelling of a path (dot segments, encodings, repeated or back slashes, absolute targets, NUL) reaches a file outside the directory, not even in directories whose names extend it, and directories are never listed by a file site. HEAD requests carry no body, and range requests deliver exactly the bytes asked for.",
 ["inputs", "configurations"], "all paths of one and two segments from 64 spellings and of three segments (thorough four) from 25, in 8 target forms, x 5 sites x 3 methods; all single and double ranges with bounds up to 8, conditional headers around the modification time",
 "the existing tests never serve a file; containment is a property of every spelling of every path, relative to the way directory and path are joined",
 ["tuna/handleserve.go", "tuna/handledownload.go", "tuna/utils.go", "router/utils.go"], [("path to file", "tuna/handleserve.go handleServe, tuna/handledownload.go handleDownload"), ("canonical path", "router/utils.go cleanPath"), ("media types", "tuna/utils.go getMIMEType")],
 "model_checking", "explicit enumeration of request paths and headers over a generated tree full of secrets, against a reference resolution, on the real server object", REAL)

prop("C16", "The download page lists exactly the downloadable files, and every link works",
 "The list of a download site has exactly the regular files at any depth below its directory whose extension is configured, each once, with its name as text, its current size and its time, whatever characters the names contain and whatever else is in the directory. Following a link delivers exactly that file as an attachment, a file the server may not read answers 403, and directories, special files and anything that is not there answer 404. The list reflects every change to the directory at the next request.",
 ["inputs", "configurations", "histories"], "trees of one and two entries over 49 hostile names in 4 directories plus 7 other kinds of entries (links, dangling links, FIFOs, unreadable ones), triples over a smaller alphabet, 6 extension lists, 3 sites; all histories of 4 (5 thorough) changes",
 "the existing tests never list downloads; links that do not resolve, markup in names and unreadable entries depend on what is in the directory",
 ["tuna/handledownload.go"], [("collecting files", "tuna/handledownload.go handleDownload"), ("links and names", "tuna/handledownload.go handleDownload")],
 "model_checking", "explicit enumeration of directory trees and of histories of changes against a model of the tree, every link followed, on the real server object", REAL)

prop("C17", "Every response carries the security headers its site is configured to send",
 "Every response the server itself makes (files, lists, the metrics page, error pages) carries the strict security headers, each once, unless the site that answers configures another value, which then replaces it; configured headers are sent with exactly their value on every content and proxied response of their site and never on another site's. Proxied responses otherwise keep exactly the upstream's headers. With TLS enabled every response carries the configured Strict-Transport-Security policy, without TLS the server adds none.",
 ["configurations", "inputs"], "7 transport-security settings x 9 sets of configured headers x 3 kinds of sites, alone and in all ordered pairs of virtual hosts, 15 kinds of requests each asked twice in both orders",
 "the existing tests never look at a header; a header set on one path of one kind of answer and forgotten on another, or leaking between sites, only shows in the product of configurations and answers",
 ["tuna/utils.go", "tuna/handleserve.go", "tuna/handledownload.go", "tuna/handleproxy.go", "tuna/handleerror.go", "tuna/metrics.go"], [("header policy", "tuna/utils.go setHeaders"), ("choice of the site's headers", "tuna/handleserve.go handleServe, tuna/handledownload.go handleDownload, tuna/handleproxy.go handleProxy")],
 "model_checking", "explicit enumeration of header policies, site combinations and kinds of answers against a reference policy, on the real server object", REAL)

prop("C18", "Failed requests get the right status and their site's error page",
 "Every request that is refused or fails (unknown path or host, wrong method, unacceptable content, blocked or limited client, missing credentials, unreadable file, dead or invalid upstream) is answered with the status of that failure. Its body is the page the answering site configures for exactly that status, byte for byte as the file is at that moment and with its media type, or else the complete default page naming the status; pages that are missing or unreadable fall back to the default. The default page shows nothing of the request or of the failure.",
 ["configurations", "inputs", "histories"], "10 kinds of error pages (also missing, unreadable, directory, empty, 1 MB) for every status, alone and in pairs, on 3 kinds of sites and all ordered pairs of virtual hosts x 18 failing requests, each twice; histories of 3 (5 thorough) changes to a page",
 "no existing test looks at an error page; custom pages used to be sent as status 200, which no single request to the default page shows",
 ["tuna/handleerror.go", "router/router.go"], [("error answers", "tuna/handleerror.go HandleError"), ("routing failures", "router/router.go ServeHTTP")],
 "model_checking", "explicit enumeration of error-page configurations, failures and page histories against a reference answer, on the real server object", REAL)

prop("C19", "Concurrent and earlier requests never change the answer to a request",
 "Apart from rate limits and metrics, the answer to a request (status, headers, body, what is forwarded upstream) is a function of the request, the configuration and the files and upstreams at that time: never of requests served at the same time nor of those served before, for any host or client. Virtual hosts keep their content, headers, error pages and upstreams to themselves, and requests for a host name no site has get none of them. No interleaving crashes, blocks or contains a data race.",
 ["schedules", "histories", "inputs"], "every schedule with 1 preemption (5 pairs with 2; thorough one more) of all pairs and 6 triples of 22 requests to files, download, proxy and unknown hosts, preempted at every statement, lock and body write; every history of 3 (4 thorough) of these requests",
 "the existing tests serve one request at a time from one site; state shared between handlers (a hoisted variable, a reused buffer, a mutated configuration map) only shows when two requests overlap or follow each other",
 ["tuna/handleserve.go", "tuna/handledownload.go", "tuna/handleproxy.go", "tuna/handleerror.go", "tuna/utils.go", "router/router.go"], [("per-request choice of the site's configuration", "tuna/handleserve.go handleServe, tuna/handledownload.go handleDownload, tuna/handleproxy.go handleProxy, tuna/handleerror.go HandleError")],
 "model_checking", "stateless model checking of the implementation under a controlled scheduler (preemption-bounded) with a happens-before race monitor, and explicit enumeration of request histories, against the answer a request gets alone", SCHED)

prop("C21", "A server configured for TLS never serves without it, and never weakly",
 "With TLS enabled, the server either serves with exactly the configured certificate and key or, when any of them is missing, unreadable, damaged or mismatched, ends with an error without answering a single request; it never falls back to plain HTTP, and requests without TLS on its port are never answered with content. It accepts only TLS 1.2 and 1.3 with forward-secret authenticated encryption, whatever else the client offers, and every such handshake that uses a NIST curve is served, over HTTP/1.1 and HTTP/2 alike.",
 ["configurations", "inputs", "fault_sequences"], "8 x 8 states of certificate and key files for RSA and ECDSA keys; 4 TLS versions x every cipher suite Go knows x 5 curve choices x 6 protocol lists; 420 plain requests and every prefix of a plain HTTP/2 preface",
 "the existing tests never start the server with TLS; falling back to plain text was the actual behaviour for missing files, and a weakened handshake is invisible to clients that offer a strong one",
 ["tuna/tls.go", "tuna/serve.go", "tuna/config.go"], [("refusal to start", "tuna/serve.go Serve, tuna/tls.go httpCheckTLS"), ("handshake policy", "tuna/tls.go httpCreateTLSConfig")],
 "model_checking", "explicit enumeration of certificate-file states and of handshakes against a reference policy, on the real server binary", REAL)

prop("C20", "Stopping the server loses no request it has begun to answer",
 "On SIGTERM or SIGINT the server stops accepting connections, completes every request it is serving (also one whose body is still arriving, whose upstream has not answered yet, or whose client reads slowly) with exactly the answer it would have had, up to a 30 second grace period, and then ends by itself without a crash. Idle connections do not delay the end. The metrics of the requests answered before the signal are stored when it arrives, without waiting for the others, and in the end those of every request that was answered.",
 ["crash_points", "schedules", "histories"], "every sequence of up to 2 (3 thorough) connections over 8 phases (3 more over HTTP/2) when the signal arrives, plain and TLS, SIGTERM and SIGINT, answers completed in the order of the sequence; single connections also after 12 s (25 s thorough) and after 5 s with header limits of 2 s",
 "no existing test starts or stops a server; whether a request survives depends on the phase every open connection is in at the moment of the signal",
 ["tuna/serve.go", "tuna/metrics.go"], [("signal handler", "tuna/serve.go Serve"), ("flush of the metrics", "tuna/metrics.go flushMetrics")],
 "model_checking", "explicit enumeration of connection phases at the signal and of completion orders, on the real server binary", REAL)

prop("C22", "The server runs exactly the configuration it is given, or refuses to start",
 "A configuration that is incomplete, contradictory or not readable by the configuration language (no port, log or file directory, virtual hosting without usable host files, file or download sites without directory and index, proxies without rules, TLS without certificates, unsupported log levels) makes the server end with an error status and a message before it answers any request; in particular no site ever falls back to serving the file system. Every other configuration starts and serves the sites as written, the same from JSON and HCL, with the documented defaults (port 80, 100 requests a minute in bursts of 50, timeouts of 30 s) for what it leaves out; virtual hosts that share a server are each served exactly as they would be alone, whatever the others and the main configuration set.",
 ["configurations", "fault_sequences"], "3 kinds of sites alone and as virtual host x every single change of 44 and every pair with at most one refused (thorough: every pair), in JSON and HCL; main and virtual host files cut at every byte; 60 rate-limit settings; 6 command lines; sites of 4 kinds with one or two of 18 settings next to four others that leave them out, 30 requests to each",
 "the existing tests never load a configuration; validation is a set of conditions over combinations of sections, and one missing condition publishes the file system",
 ["tuna/config.go", "tuna/server.go", "main.go"], [("validation and defaults", "tuna/config.go Validate, NewConfig, NewVhostConfig"), ("loading", "tuna/server.go NewInstanceFromConfig, tuna/config.go LoadConfigFromFile")],
 "model_checking", "explicit enumeration of configurations and file truncations against a reference verdict, on the real server binary", REAL)

prop("C23", "The log tells truthfully, one line per request, and cannot be forged",
 "From log level 1 on, every request the server answers leaves exactly one line, naming its status, method, host, path, client and agent, whatever kind of site answers and however it fails; at level 0 requests leave none, and error and debug messages appear only from their levels on. No part of a request can begin a line of the log, put a control character into it, end a line early, or pass for another part of it (the method, client address or agent), and credentials and cookies never reach the log. Lines of concurrent requests are whole, none is lost, and no interleaving contains a data race.",
 ["inputs", "schedules"], "4 log levels x 5 methods x 9 hosts x 37 hostile targets x 10 user agents (reduced product in the quick tier), and 2100 HTTP/2 requests with spaces in their parts, sent through the real HTTP server; every schedule with 2 preemptions (thorough 3) of 10 sets of 2-3 concurrent requests",
 "the existing tests never read a log; request paths could forge whole lines, which only hostile encodings show, and mixed-up lines need an interleaving",
 ["tuna/log.go", "debug/log.go", "debug/logger.go", "debug/init.go"], [("request line", "tuna/log.go LogNetwork"), ("levels", "debug/log.go Log")],
 "model_checking", "explicit enumeration of requests and log levels with a reference parser of the log, and stateless model checking of concurrent logging under a controlled scheduler with a race monitor", SCHED)

prop("C24", "A stalled client is cut off in time, and never holds up the others",
 "A connection that stops sending at any point (in a TLS handshake, the request line, the headers, the body, or between requests), sends so slowly that the configured limits pass, or does not read its answer is ended once the configured header, read or write limit is over (over HTTP/2, where a connection without a complete request is an idle one, after 30 seconds at most), without its incomplete request ever being answered as if it were complete; an upstream that does not answer is given up with 502 after the header limit. Meanwhile every other client is answered, however many connections stall; and a client or upstream that is slow within the limits gets its complete answer.",
 ["crash_points", "schedules"], "a connection stalled and paused at every byte of a request line, headers, body, chunked body, second request and TLS handshake, dripping, or not reading; up to 400 stalled at once; limits of 2/13/5 s and 0/3/5 s; every byte of a request over HTTP/2, without window, not reading, with pings",
 "the existing tests never start a server; whether a stall is bounded depends on the byte it happens at and on which of the timeouts then applies",
 ["tuna/serve.go", "tuna/server.go", "tuna/config.go"], [("limits of the server", "tuna/serve.go Serve"), ("limits towards upstreams", "tuna/server.go NewInstance")],
 "fault_enumeration", "explicit enumeration of stall points over every byte of a conversation, on the real server binary", REAL)

prop("C25", "No request breaks the server",
 "Whatever a client sends (any method, target form, protocol version, host, header fields, body, broken off at any byte), to whatever kind of site, no handler crashes and every complete request gets exactly one complete, well-formed answer whose status is a client's or a success, or 501 or 505 for what is not supported, or 502 when the upstream of the site cannot be reached; the next request on that connection, if it stays open, and those of other clients are answered as usual. A request of any size that the server accepts is answered without excessive work.",
 ["inputs", "crash_points"], "7 kinds of sites x 12 methods x 64 targets x 39 hosts and 7 versions (reduced product in the quick tier); 55 header fields alone and in pairs on 10 targets; the same over HTTP/2 with 60 authorities; targets, hosts and 16 header fields of 30 kB and 900 kB made by repeating 22, 12 and 18 units; 100 requests per site broken off after every byte",
 "the existing tests send a handful of ordinary requests to the router; a crash or a desynchronised connection needs an unusual combination of target form, host, method and configuration",
 ["router/router.go", "router/utils.go", "tuna/handleserve.go", "tuna/handleproxy.go", "tuna/handledownload.go", "tuna/handleerror.go", "guard/"], [("path and host normalisation", "router/utils.go cleanPath, StripHostPort"), ("request rewriting", "tuna/handleproxy.go"), ("index of a path", "tuna/handleserve.go")],
 "model_checking", "explicit enumeration of request forms over every kind of site, and of the bytes at which a client can break off, through the real HTTP server with the real handlers", REAL)

prop("C26", "Pages are made from the site's own templates, whole or not at all",
 "The error pages and lists of a server are made from the templates error.html and download.html of its file directory as they were when it started: the template's text with the message or the list in its place. A template that is not there is created with a complete default; one that is there is never altered, and edits count from the next start. A template that cannot be read or parsed makes the start end with an error before anything is answered; when one fails while a page is composed, an error is still answered with its status and the bare message, and a list with 500, never with part of a page.",
 ["configurations", "histories"], "24 states of each of the 2 templates, all pairs x 4 kinds of sites; every usable state edited into every other while the server runs; all histories of 2 (thorough: also 3) starts",
 "no existing test renders a page; a template fails only for certain contents, halfway through the page",
 ["tuna/templates.go", "html/", "tuna/handleerror.go", "tuna/handledownload.go"], [("creating and loading", "tuna/templates.go generateTemplates, html TemplateHandler.Init"), ("composing pages", "tuna/handleerror.go HandleError, tuna/handledownload.go")],
 "model_checking", "explicit enumeration of template states, edits and restart histories against a reference page, on the real server binary", REAL)

prop("C27", "Requests for https:// upstreams reach only upstreams that prove who they are",
 "A proxy rule with an https:// target is contacted over TLS 1.2 or newer only, and nothing of a request (path, headers, body) is sent before the upstream has proven, by a currently valid server certificate of an authority the machine trusts, to be the host or address that the rule names. An upstream that cannot prove it, or does not speak TLS, is answered 502, shows the client nothing and is not retried in another way; one that proves it is served. This holds for every request anew, whatever upstreams were contacted before, and for main sites, virtual hosts and any TLS settings of the server itself.",
 ["inputs", "histories", "configurations"], "37 kinds of upstreams (chains, names, validity, purposes, keys, versions, no TLS) x 6 rule targets x 5 kinds of sites x 6 requests; all histories of 3 (thorough: 4) requests over 9 kinds of upstreams that take each other's place",
 "no existing test proxies anything; a missing name or chain check is invisible as long as upstreams are honest",
 ["tuna/server.go", "tuna/handleproxy.go"], [("transport to the upstreams", "tuna/server.go NewInstanceFromConfig, NewInstance"), ("composing the upstream request", "tuna/handleproxy.go handleProxy")],
 "model_checking", "explicit enumeration of upstream kinds and of histories of contacts through the real HTTP server, proxy handler and TLS stack, with a monitor on every byte an upstream receives", REAL)
