#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "The first registered matching route serves the request",
 "For every sequence of route registrations and every request, the handler that runs is the one of the earliest registered route whose pattern matches the request and whose verb accepts the method (a GET route also accepts HEAD; a route registered for any method accepts every method, including non-standard ones); if there is none, the mux's current not-found handler runs, exactly once. Compiling the routes explicitly, never, repeatedly or between registrations and requests makes no observable difference.",
 ["inputs", "histories"], "all route lists (any prefixes, any registration order, any verbs), all paths and methods, all interleavings of registration, explicit compilation, not-found replacement and requests",
 "Tests use a dozen fixed route tables with short prefixes; the compiled matcher's behaviour depends on how prefixes nest, split and interleave with registration order, which is combinatorial.",
 ["web/router.go", "web/mux.go", "web/bytecode_compiler.go", "web/bytecode_runner.go"],
 [("order-preserving sorted insertion", "web/router.go handle"), ("prefix trie and bytecode", "web/bytecode_compiler.go compile"), ("matcher loop", "web/bytecode_runner.go route")],
 [("routes", "registered routes", "router.routes"), ("machine", "compiled matcher, dropped on every registration", "router.machine")],
 ["Mux.ServeHTTP / ServeHTTPC: which handler ran"])

prop("C02", "String patterns match and bind as documented",
 "A string pattern matches a path exactly when the path is its literals with every ':name' replaced by a non-empty run of characters that ends at the first '/' or at the first occurrence of the character that follows the name in the pattern, the whole path being consumed unless the pattern ends in '/*'. On a match every name is bound to its run (the last one wins for a repeated name) and a trailing '/*' binds '*' to the rest of the path including its leading '/'. Nothing else is bound.",
 ["inputs"], "all pattern strings (every break character, adjacent names, colons that are not names, inner stars) and all paths",
 "Six pattern strings and about thirty paths are tested; the parser and the matcher have many corner cases (break characters, empty runs, literal tails) that no table covers.",
 ["web/string_pattern.go", "web/pattern.go"],
 [("pattern parser", "web/string_pattern.go parseStringPattern"), ("matcher", "web/string_pattern.go match")], (),
 ["handler selection and URLParams seen by the handler", "Pattern.Match / Pattern.Run"])

prop("C03", "Regexp patterns are left-anchored and bind their groups",
 "A regular expression route matches exactly the paths some prefix of which, starting at the first character, the expression matches, whether or not it was written with an anchor. On a match each capturing group is bound under its name, or under '$i' if unnamed, to the text the leftmost-first match gives it. No optimisation based on the expression's literal beginning changes which requests it serves.",
 ["inputs"], "all Perl-style expressions (alternations, flags, repetitions, groups, anchors in any position) and all paths that are valid UTF-8",
 "Five simple concatenations are tested; alternation, flags, optional beginnings and nested groups, where anchoring and prefix extraction can go wrong, are not.",
 ["web/regexp_pattern.go", "web/pattern.go"],
 [("anchoring and prefix extraction", "web/regexp_pattern.go sketchOnRegex"), ("matching and binding", "web/regexp_pattern.go match")], (),
 ["handler selection and URLParams seen by the handler", "Pattern.Prefix"])

prop("C04", "A handler sees only its own route's parameter bindings",
 "The URL parameters a handler receives are those its mux was entered with, overridden by exactly the bindings of the route selected for this request. A route that was examined but not selected (its pattern or its verb did not accept the request) leaves no trace in the context, and the not-found handler sees only the parameters the mux was entered with.",
 ["inputs", "histories"], "all route tables mixing string and regexp patterns and verbs, all requests, with and without inherited parameters",
 "No test looks at the parameters after a near miss: the tests route with one plausible pattern at a time.",
 ["web/bytecode_runner.go", "web/regexp_pattern.go", "web/string_pattern.go", "web/router.go"],
 [("test first, bind only on selection", "web/bytecode_runner.go matchRoute"), ("side-effect-free Match", "web/regexp_pattern.go, web/string_pattern.go")], (),
 ["URLParams seen by the handler"])

prop("C05", "An unroutable request learns which methods would have been routed",
 "When no route accepts a request, the not-found handler finds in the environment the sorted, duplicate-free list of exactly those standard methods for which an otherwise identical request would have been routed, and finds no such list when there are none. A request that is routed does not get one. Whatever the environment already held is preserved.",
 ["inputs", "histories"], "all route tables, methods and paths; environment absent or already populated",
 "One table of nine routes and five paths is tested.",
 ["web/router.go", "web/bytecode_runner.go"],
 [("method set accumulated over matching routes", "web/bytecode_runner.go matchRoute"), ("list construction", "web/router.go getMatch")], (),
 ["Env[ValidMethodsKey] in the not-found handler"])

prop("C06", "Custom patterns are consulted in order, once, and run only if chosen",
 "While routing one request, user-supplied patterns whose declared prefix begins the path are asked whether they match in registration order, each at most once and none after the selected route; patterns whose declared prefix does not begin the path are not asked. Exactly the selected route's pattern is run, once, after it matched and before its handler, and no pattern is run when no route is selected.",
 ["inputs", "histories"], "all registration orders, prefixes, verbs and match outcomes of user-defined patterns, and all requests",
 "One prefix table with a monotone match predicate is tested and only the winner is observed, not who was asked or run.",
 ["web/bytecode_runner.go", "web/bytecode_compiler.go", "web/router.go"],
 [("matcher loop", "web/bytecode_runner.go route"), ("order-preserving insertion", "web/router.go handle")], (),
 ["calls received by user-defined Pattern values"])

prop("C07", "Routes may be added while requests are being served",
 "When routes are added concurrently with requests, every request is routed according to some prefix of the sequence of completed and in-progress registrations: a request that starts after a registration returned takes that route into account, routes once visible never disappear, and no request sees a partially added route, runs a wrong handler or crashes.",
 ["schedules"], "all interleavings of registrations, explicit compilations and requests",
 "The tests register everything first and then send requests from one goroutine.",
 ["web/router.go", "web/atomic.go", "web/bytecode_runner.go"],
 [("copy on write under a lock", "web/router.go handle"), ("compile under the same lock, published atomically", "web/router.go compile, web/atomic.go")],
 [("machine", "published compiled matcher", "router.machine")],
 ["handler chosen by concurrent Mux.ServeHTTP calls"])

prop("C08", "Middleware runs in exactly the order the stack was edited into",
 "After any sequence of appends, insertions and removals, every request passes through each middleware of the resulting list once per occurrence, outermost first, then through routing, and unwinds in reverse; an insertion goes immediately before the first occurrence of the named middleware and a removal takes out only the first occurrence. An insertion or removal naming an unknown middleware returns an error and changes nothing.",
 ["histories"], "all sequences of Use, Insert and Abandon over any set of middlewares, with repetitions, interleaved with requests",
 "A few fixed edit sequences without duplicates are tested; slice aliasing and first-occurrence rules show only in longer or repeated edits.",
 ["web/middleware.go", "web/mux.go", "web/func_equal.go"],
 [("stack edits", "web/middleware.go Use, Insert, Abandon"), ("stack construction", "web/middleware.go newStack"), ("function identity", "web/func_equal.go")],
 [("stack", "middleware layers, outermost first", "mStack.stack")],
 ["order of middleware entry and exit per request", "error results"])

prop("C09", "A middleware edit governs every request that starts after it",
 "Every request that starts after a middleware edit returned runs through the edited stack and never through one built before the edit, even if requests that started earlier are still running and finish later. A request keeps the stack it started with until it ends.",
 ["histories"], "all orders of edits, request starts and request ends (an edit is made while other requests are in progress, or from inside one, not at the very instant another starts or ends), including nested requests and requests that end by panicking",
 "Cached stacks are reused only under particular request overlap; the two tests aimed at it are excluded by their build tag.",
 ["web/middleware.go", "web/cpool.go"],
 [("pool replaced on edit", "web/middleware.go invalidate"), ("stale stacks are not returned", "web/middleware.go release")],
 [("pool", "cache of prebuilt stacks", "mStack.pool")],
 ["middlewares traversed by each request"])

prop("C10", "Request contexts are isolated, and flow inward",
 "Each request starts with exactly the context its caller passed (empty for a plain HTTP call) and nothing of any earlier or concurrent request: no environment entry or URL parameter is ever visible to another request, even after panics. Changes a middleware makes to the context are visible to everything inside it, up to and including the handler.",
 ["histories", "schedules"], "all sequences and overlaps of requests through one mux, including nested and recursive dispatch, and all edits of the context by middleware",
 "One request with two middlewares is tested; leaks need reuse of a cached stack by a later or overlapping request.",
 ["web/middleware.go", "web/mux.go", "web/handler.go"],
 [("context reset on entry and release", "web/middleware.go ServeHTTP, ServeHTTPC, release"), ("one stack per active request", "web/middleware.go alloc")],
 [("C", "per-request context held in a reusable stack", "cStack.C")],
 ["context seen by middleware and handlers"])

prop("C11", "Explicit routing decides once, early, and is honoured",
 "With the routing middleware installed, the match computed at that point (the pattern and handler that routing would have chosen then, or the not-found handler with no pattern) is visible in the environment to everything inside it, its parameter bindings are visible too, and its handler is the one that finally runs, without routing again, whatever inner layers do to the path or method. A match placed in the environment by anybody is honoured instead of routing; an absent, removed or foreign value leads to ordinary routing.",
 ["inputs", "histories"], "all positions of the routing middleware among others, all matches set, replaced or removed by middleware, and all requests",
 "Two fixed cases are tested.",
 ["web/mux.go", "web/match.go", "web/router.go"],
 [("routing middleware", "web/mux.go Router, routerMiddleware"), ("match lookup before routing", "web/router.go route, web/match.go GetMatch")], (),
 ["Env[MatchKey] and the handler that ran"])

prop("C12", "Sub-routers see the unmatched suffix and leave no trace",
 "Inside the sub-router middleware the request path is the unmatched tail bound by the outer route ('*', or '_' if there is no '*'), and an outer match is hidden so that the inner mux routes by itself without looping, to any nesting depth. When it returns, normally or by panic, the request path and the outer match are what they were before; without a bound tail it changes nothing.",
 ["inputs", "histories"], "all nestings of muxes with and without explicit routing and the sub-router middleware, all paths, handlers that return or panic",
 "One level of nesting with one path is tested; the restore and panic paths are not observed.",
 ["web/middleware/subrouter.go", "web/match.go", "web/mux.go"],
 [("path and match swapped and restored by a deferred function", "web/middleware/subrouter.go")], (),
 ["r.URL.Path and Env[MatchKey] before, inside and after"])

prop("C13", "Every accepted handler and pattern form is served and reported faithfully",
 "A handler given in any of the accepted forms is called exactly once per request routed to it; the forms that take a context receive the current one, and a value that implements both interfaces is called with the context. The pattern and handler reported by a match are the very values that were registered, whichever form they had.",
 ["inputs"], "all accepted handler, pattern and middleware forms in all registration positions, including as not-found handler and through explicit routing",
 "Types are tested in isolation, and raw accessors only for expressions that happen to be anchored.",
 ["web/handler.go", "web/match.go", "web/pattern.go"],
 [("adapters", "web/handler.go parseHandler"), ("raw accessors", "web/match.go RawPattern, RawHandler")], (),
 ["handler invocations", "Match.RawPattern / RawHandler"])

prop("C14", "The response writer proxy is transparent and keeps true accounts",
 "Whatever sequence of header, body, flush, copy, push and hijack calls a handler makes through the writer proxy, the client receives exactly what it would have received without it and no call panics that would not have panicked without it. At every moment the reported status is the final status sent to the client (0 if none has been), the reported byte count is the number of body bytes the underlying writer accepted, and a tee has received exactly the body bytes accepted since it was set. A writer that can flush (and one that can flush and be pushed to) still can through the proxy, and a standard HTTP/1 writer can still be hijacked and copied to; after a hijack nothing is promised about the accounts.",
 ["inputs", "histories", "fault_sequences"], "all sequences of operations on the proxy, on writers with every relevant combination of optional interfaces, with short writes and write errors of the underlying writer",
 "web/mutil has no tests at all.",
 ["web/mutil/writer_proxy_go1_8.go"],
 [("first header wins", "web/mutil WriteHeader"), ("accounting", "web/mutil Write, ReadFrom"), ("interface selection", "web/mutil WrapWriter")],
 [("code, wroteHeader, bytes", "accounts", "basicWriter")],
 ["calls received by the underlying writer", "Status, BytesWritten, tee contents"])

prop("C15", "A panicking handler costs one response, not the process",
 "With the recovery middleware installed, a panic with any non-nil value anywhere inside it never propagates outward; if the final header was not sent yet the client receives a complete 500 response, and if it was, the status and the body bytes already sent stay as they are. Requests that do not panic, and all later requests, are unaffected, and the panic is logged once, with the ID the request had when it entered the middleware.",
 ["inputs", "histories", "fault_sequences"], "all points of a handler or inner middleware at which a panic can occur, all non-nil panic values, all orders of the surrounding middlewares",
 "The middleware has no tests.",
 ["web/middleware/recoverer.go", "web/middleware/logger.go"],
 [("deferred recover", "web/middleware/recoverer.go Recoverer")], (),
 ["client response", "log output"])

prop("C16", "OPTIONS requests are answered from the route table, and only those",
 "With automatic OPTIONS handling installed, an OPTIONS request that would otherwise have been answered 404 although other methods are routed at its path is answered 200 with an Allow header listing exactly those methods plus OPTIONS, and the 404 body is suppressed. Every other request, including OPTIONS requests with a handler of their own, OPTIONS requests for unknown paths and all other methods, is answered with exactly the status, headers and body it would get without it (handlers of OPTIONS requests are promised the basic response writer only).",
 ["inputs", "histories"], "all route tables, methods and paths, and all ways handlers write headers and bodies",
 "Five fixed requests are tested; unusual write orders and custom not-found handlers are not.",
 ["web/middleware/options.go", "web/router.go"],
 [("write interception state machine", "web/middleware/options.go autoOptionsProxy")], (),
 ["client response"])

prop("C17", "Every request gets its own request ID",
 "No two requests of a process ever carry the same request ID, however many run at once and through however many muxes; the ID has the form host/random-number with the same prefix throughout the process, is visible to everything inside the middleware and constant for the request, and adding it preserves the rest of the environment.",
 ["schedules", "histories"], "all interleavings of requests through any number of instances of the middleware",
 "The middleware has no tests.",
 ["web/middleware/request_id.go"],
 [("atomic counter and per-process prefix", "web/middleware/request_id.go RequestID")],
 [("reqid", "process-wide counter", "package variable")],
 ["GetReqID in handlers"])

prop("C18", "The request log has one start and one end line with the true status",
 "With the logging middleware installed, every request produces exactly one start line with its method and URL before the handler runs and, if the handler returns, exactly one end line after it with the final status of the response as it left the middleware, which is what the client received unless an outer layer changes it (200 if nothing was sent explicitly); both carry the request's ID if it had one on entry. The response itself is what it would be without the middleware, except that a handler that sends nothing yields an explicit 200.",
 ["inputs", "histories"], "all handler behaviours, all methods and URLs, with and without request IDs, overlapping requests",
 "The middleware has no tests.",
 ["web/middleware/logger.go", "web/mutil/writer_proxy_go1_8.go"],
 [("wrapped writer and log lines", "web/middleware/logger.go Logger")], (),
 ["log output", "client response"])

prop("C19", "Request-preparation middleware does its one thing and nothing else",
 "The environment initialiser guarantees a non-nil environment inside it and keeps an existing one; the query middleware stores the parsed query under its key; the real-IP middleware replaces the remote address by the first entry of X-Forwarded-For, else by X-Real-IP, and otherwise leaves it alone; the no-cache middleware removes the conditional request headers and sets the four no-cache response headers. Each calls the next handler exactly once and preserves everything else in the request, response and context.",
 ["inputs"], "all combinations of header presence, environments and compositions of these middlewares in any order",
 "Only the query and no-cache middlewares have a single positive test each.",
 ["web/middleware/envinit.go", "web/middleware/urlquery.go", "web/middleware/realip.go", "web/middleware/nocache.go"],
 [("the middlewares", "web/middleware")], (),
 ["request, response headers and context seen by the next handler"])

prop("C20", "Draining ends exactly when the last managed connection is gone",
 "A drain closes every connection that is idle when it starts and every managed connection that becomes idle later, and returns if and only if every connection ever accepted has been closed or disowned; a forced drain closes all managed connections, idle or not, and returns. This holds under every interleaving with accepts, reads, closes, disowns and other drains, and none of it deadlocks or crashes.",
 ["schedules", "histories"], "all histories of connection operations in all three modes, all interleavings with one or more drains, any distribution of connections over internal partitions",
 "Tests drain one connection sequentially; the stress test runs one happy-path workload with an unsynchronised schedule.",
 ["graceful/listener/conn.go", "graceful/listener/shard.go", "graceful/listener/listener.go"],
 [("per-shard sets and drain flag", "graceful/listener/shard.go"), ("outstanding-connection count", "graceful/listener/shard.go wg")],
 [("idle, all, drain", "connection sets and drain flag", "shard"), ("busy, closed, disowned", "connection state", "conn")],
 ["Drain / DrainAll returning", "Close calls on the underlying connections"])

prop("C21", "Only idle connections are closed; the mode decides what is idle",
 "Closing idle connections or draining never closes a connection that is in use, and closing idle connections closes every idle one and affects nothing else. A connection is idle from accept until use and from being marked idle until used again; use begins with an explicit mark in every mode and also with a completed read in the automatic and deadline modes, and setting a read deadline marks a connection idle in deadline mode only.",
 ["schedules", "histories"], "all histories of reads, deadline changes and marks in the three modes, interleaved in any way with closing idle connections and draining",
 "Each mode is tested with one operation followed by one close.",
 ["graceful/listener/conn.go", "graceful/listener/shard.go", "graceful/listener/listener.go"],
 [("busy flag under the connection lock, rechecked at close", "graceful/listener/conn.go closeIfIdle, markIdle, markInUse, Read")],
 [("busy", "in use", "conn.busy")],
 ["Close calls on the underlying connections"])

prop("C22", "No request is read from a connection that shutdown closed",
 "Once a managed connection has been closed, by its user or by a shutdown, no read on it reports success, even a read that was already in progress and obtained data; as long as it is open, reads return exactly what the underlying connection returned, and so do all reads on a disowned connection.",
 ["schedules"], "all interleavings of reads, data arrival, closes, idle closes, drains and disowns",
 "The race needs data to arrive between the close decision and the read's completion; no test arranges that.",
 ["graceful/listener/conn.go"],
 [("closed flag rechecked after the underlying read", "graceful/listener/conn.go Read")],
 [("closed", "closed by user or shutdown", "conn.closed")],
 ["results of Read"])

prop("C23", "A managed connection is closed exactly once, and none is accepted after a drain",
 "For a managed connection the underlying connection is closed at most once however many parties close it: the first close returns the underlying result and every later one an error. A connection that arrives once a drain has begun is closed and never handed out, and the accept reports an error; before that every connection is handed out open.",
 ["schedules", "histories"], "all orders and interleavings of user closes, idle closes, drains, forced drains and accepts",
 "Double closes and accepts during a drain are not tested.",
 ["graceful/listener/conn.go", "graceful/listener/shard.go", "graceful/listener/listener.go"],
 [("closed flag under the connection lock", "graceful/listener/conn.go Close"), ("drain flag checked when tracking", "graceful/listener/shard.go track")], (),
 ["Close calls on the underlying connections", "results of Accept and Close"])

prop("C24", "Disowned connections are left alone",
 "A connection that was disowned is never closed by any idle close, drain or forced drain and never delays one, and every operation on it reaches the underlying connection directly. Disowning succeeds once; disowning again, disowning a connection that is already closed, or passing a connection this package does not manage to any of its functions returns an error without any other effect.",
 ["schedules", "histories"], "all positions of a disown among the other operations, including races with drains and closes",
 "Tests disown an open idle connection only; disowning a closed one, which a hijack during a forced shutdown does, is not tested.",
 ["graceful/listener/conn.go", "graceful/listener/shard.go", "graceful/listener/listener.go"],
 [("disowned flag and removal from the sets", "graceful/listener/conn.go disown")],
 [("disowned", "no longer managed", "conn.disowned")],
 ["Close calls on the underlying connections", "Drain returning", "results of Disown"])

prop("C25", "Shutdown hooks run once, in order, around the shutdown",
 "However many shutdowns are requested, by calls or signals, at once or in sequence, each pre-shutdown hook runs exactly once, in registration order, before any listener or connection is closed, and each post-shutdown hook runs exactly once, in registration order, after every managed connection of some completed shutdown is gone and before waiting returns. Hooks that take a signal receive one that asked for the shutdown, the same for all pre-shutdown hooks, or none when a manual call did. Hooks may themselves use the package. (A hook registered when a shutdown already needs it may or may not run.)",
 ["schedules", "histories"], "all combinations and interleavings of graceful and forced shutdown calls and signals, with any hooks and connections",
 "Package graceful has no tests that compile on supported Go versions.",
 ["graceful/signal.go"],
 [("once-guards and ordered phases", "graceful/signal.go shutdown")],
 [("prehooks, posthooks", "registered hooks", "package variables")],
 ["hook invocations", "Wait returning"])

prop("C26", "A graceful shutdown finishes the requests in flight and nothing more",
 "After a graceful shutdown starts no new connection is served, idle connections are closed promptly, and every request that had begun to arrive before is handled and its response delivered in full, after which its connection is closed (a request pipelined behind one not yet answered does not count). Waiting and the shutdown call itself return only when all of that has happened, and they do return.",
 ["schedules", "histories"], "all mixes of new, partially read, active, kept-alive and finished connections on any number of listeners at the moment of shutdown, and all completion orders",
 "Package graceful has no tests that compile on supported Go versions.",
 ["graceful/signal.go", "graceful/serve13.go", "graceful/graceful.go", "graceful/listener/conn.go"],
 [("listeners closed and drained", "graceful/signal.go closeListeners"), ("keep-alives disabled", "graceful/serve13.go gracefulServer"), ("idle marking from connection states", "graceful/serve13.go connState")], (),
 ["client connections", "Serve, Shutdown and Wait returning"])

prop("C27", "A forced shutdown does not wait for anybody",
 "A forced shutdown, requested directly, by a second signal within the double-kick window, or by the timeout expiring after a signal, closes every managed connection, in use or not, even while a graceful shutdown is still waiting, and then waiting returns. Two signals further apart than the window, a window or timeout of zero, or a timeout that has not expired yet never force anything; negative settings are ignored.",
 ["schedules", "histories", "configurations"], "all sequences of signals, calls and settings, with requests in flight",
 "Package graceful has no tests that compile on supported Go versions.",
 ["graceful/signal.go", "graceful/listener/listener.go"],
 [("separate once-guards for graceful and forced close", "graceful/signal.go shutdown"), ("double-kick and timeout", "graceful/signal.go sigLoop")],
 [("doubleKick, timeout", "settings", "package variables")],
 ["client connections", "Wait returning"])

prop("C28", "Serving ends quietly on shutdown and loudly otherwise",
 "A serve call that ends because of a shutdown returns no error, whichever way accepting stopped, including a connection that was being accepted at that moment; a serve call that ends for any other reason returns that error. A listener handed to the package once a shutdown has begun does not keep serving.",
 ["schedules", "fault_sequences"], "all accept errors, before and during shutdown, all interleavings of accept, serve start and shutdown",
 "Package graceful has no tests that compile on supported Go versions.",
 ["graceful/graceful.go", "graceful/serve13.go", "graceful/listener/listener.go", "serve.go"],
 [("error filter", "graceful/graceful.go peacefulError"), ("listener registration", "graceful/graceful.go appendListener")],
 [("closing", "a shutdown has begun", "package variable")],
 ["result of Serve"])

prop("C29", "Hijacked connections belong to their new owner",
 "A connection hijacked from the server is not closed by any graceful or forced shutdown, does not delay one, and stays usable by the handler that took it. Connection-state callbacks configured by the user are still called for every transition the HTTP server reports, and the user's server value is not modified.",
 ["schedules", "histories"], "all moments of a hijack relative to graceful and forced shutdowns, with other connections in any state",
 "Package graceful has no tests that compile on supported Go versions.",
 ["graceful/serve13.go", "graceful/listener/conn.go"],
 [("disown on the hijacked state", "graceful/serve13.go connState"), ("chained callback", "graceful/serve13.go connState.Wrap")], (),
 ["client connections", "ConnState callbacks"])

prop("C30", "The default address is taken from the environment by fixed precedence",
 "The default bind string is the explicit environment override if set and non-empty, else the first Einhorn socket if the process runs directly under the Einhorn master named in its environment and was given at least one socket, else the first systemd socket if sockets were passed to this very process, else the port variable, else nothing, in which case the configured default applies. Malformed or foreign process IDs and counts are treated as absent.",
 ["configurations"], "all combinations of presence, absence, malformation and foreignness of the environment hints",
 "Package bind has no tests.",
 ["bind/bind.go", "bind/einhorn.go", "bind/systemd.go"],
 [("sniffing", "bind/bind.go Sniff"), ("detection at start", "bind/einhorn.go einhornInit, bind/systemd.go systemdInit")],
 [("einhornNumFds, systemdNumFds", "sockets passed in", "package variables")],
 ["Sniff", "the bind flag's default"])

prop("C31", "A bind string opens the socket it names",
 "A bind string containing a colon opens that TCP address, one beginning with '/' or '.' that UNIX socket, 'fd@N' listens on inherited descriptor N and 'einhorn@N' on the Nth socket the Einhorn master passed, in this order of precedence. Anything else, an unparsable number, an index out of range, or Einhorn syntax outside Einhorn, is a fatal error and opens nothing.",
 ["configurations", "inputs"], "all forms of bind strings, under and outside Einhorn, with any descriptor numbering",
 "Package bind has no tests.",
 ["bind/bind.go", "bind/einhorn.go"],
 [("classification", "bind/bind.go listenTo"), ("Einhorn descriptors", "bind/einhorn.go einhornBind")], (),
 ["address of the returned listener, connectability"])

prop("C32", "Einhorn is told once that the worker is ready, and sockets do not leak",
 "Declaring readiness sends the Einhorn master exactly one acknowledgement carrying this process's ID on its control socket, however often and from however many goroutines it is declared, and does nothing outside Einhorn. The sockets passed in by Einhorn or systemd, and only those, are marked so that child processes do not inherit them.",
 ["configurations", "schedules"], "all environments, any number of concurrent declarations, any number of passed sockets",
 "Package bind has no tests.",
 ["bind/bind.go", "bind/einhorn.go", "bind/systemd.go"],
 [("once-guard", "bind/bind.go Ready"), ("acknowledgement", "bind/einhorn.go einhornAck"), ("close-on-exec", "bind/einhorn.go einhornInit, bind/systemd.go systemdInit")], (),
 ["messages on the control socket", "descriptor flags"])

prop("C33", "The top-level package is the default mux behind the default stack",
 "Every top-level routing and middleware function acts on the default mux exactly as the method of the same name acts on any mux. The default mux starts with request IDs, logging, panic recovery and automatic OPTIONS, in that order, and serving it mounts it on the process-wide HTTP mux so that other handlers registered there keep working, announces readiness, reacts to the standard signals and returns only after a completed shutdown.",
 ["histories", "configurations"], "all sequences of top-level calls compared with the same calls on a fresh mux; all shutdown histories of the top-level serve function",
 "The root package has no tests.",
 ["default.go", "serve.go", "goji.go"],
 [("forwarding functions", "default.go"), ("serve sequence", "serve.go ServeListener")], (),
 ["handler chosen, middleware order, log and response", "process behaviour on signals"])

prop("C34", "TLS settings configured by the user are honoured",
 "When serving TLS from certificate files, every TLS setting of the user's configuration governs the handshakes as it would with the standard library's server, apart from the certificate, which comes from the files; where the user configured nothing, versions below TLS 1.0 are refused and HTTP/1.1 is offered. The user's configuration is not modified.",
 ["configurations"], "all combinations of TLS settings",
 "Package graceful has no tests that compile on supported Go versions.",
 ["graceful/server.go", "graceful/clone18.go"],
 [("configuration copy", "graceful/clone18.go cloneTLSConfig, graceful/server.go ListenAndServeTLS")], (),
 ["TLS handshakes"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
