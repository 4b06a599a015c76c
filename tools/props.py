#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl.  Run: python3 tools/props.py"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe or [], hook_needed=hook)))

p("C01", "Wildcard segments match exactly the described language",
  "A route segment containing `*` or `?` matches a request path segment exactly when the whole segment is obtained from it by replacing every `?` with one character and every `*` with any (possibly empty) run of characters, letters being compared without regard to case when the router is case-insensitive. Deciding this always terminates and never panics, whatever the client sends.",
  ["inputs"], "all wildcard segments and all request segments (ASCII), both case modes",
  "Tests sample a dozen pattern/segment pairs; the backtracking is wrong only for particular alignments of stars and repeated characters.",
  ["router/path/pattern.go", "router/path/matcher.go"],
  [("glob backtracking with one checkpoint", "router/path/pattern.go regexSegmentMatch")],
  observe=["Matcher.Match on a one-segment route"])
p("C02", "A request reaches a handler iff a registered pattern matches it",
  "For every set of registered patterns, a request is dispatched only to a handler whose pattern matches its path (literals equal; `{v}` and `*` one segment; `{v:re}` one segment accepted by the expression; wildcard segments as described; `**` one or more segments at the end of a pattern and zero or more elsewhere), and whenever at least one registered pattern matches, some handler is chosen. No set of patterns and path makes the lookup panic or loop.",
  ["inputs", "configurations"], "all sets of patterns (registration order included) and all request paths of at most 19 segments",
  "Tests check a few hand-picked route tables; the trie search backtracks over shared prefixes and greedy segments, so failures need specific combinations of routes and paths.",
  ["router/path/matcher.go", "router/path/pattern.go", "router/router.go"],
  [("trie of pattern segments", "router/path/matcher.go AddPattern"), ("backtracking search", "router/path/matcher.go Match")],
  state=[("trieRoot", "the trie of registered patterns", "router/path/matcher.go Matcher")],
  observe=["Matcher.Match", "Router.ServeHTTP"])
p("C03", "The most specific pattern wins, in any registration order",
  "When several registered patterns match a request, the chosen one is the most specific: comparing the patterns segment by segment, literal beats constrained variable beats variable beats wildcard segment beats `*` beats `**`. The choice does not depend on the order in which the patterns were registered.",
  ["inputs", "configurations"], "all sets of patterns, all registration orders, all request paths",
  "Tests register each table in one order and look at one path.",
  ["router/path/matcher.go", "router/path/encode.go", "router/path/pattern.go"],
  [("priority encoding of a pattern", "router/path/encode.go computePriority"), ("children sorted by priority", "router/path/matcher.go AddPattern")],
  observe=["Matcher.Match"])
p("C04", "Path variables hold exactly the segments they bind",
  "Inside the chosen handler, asking for a path variable of the matched pattern yields exactly the request path segment standing at that variable's position, also when greedy segments precede it or the search had to backtrack over other routes. Asking for a name the pattern does not declare yields the empty string.",
  ["inputs", "configurations"], "all matching (route table, path) pairs and all variable names",
  "Tests read variables on paths that match at the first attempt.",
  ["router/path/matching_context.go", "router/path/matcher.go"],
  [("n-th captured segment lookup", "router/path/matching_context.go PathVar"), ("per-segment match types", "router/path/matcher.go Match")],
  observe=["MatchingContext.PathVar"])
p("C05", "Request paths are normalised once and over-long ones never dispatch",
  "Routing sees a request path as its non-empty `/`-separated segments with each `..` removing the segment before it (never climbing above the root), whatever the number of slashes and however long the segments are. A path of more than 19 segments is never dispatched to any handler, not even to the one registered for `/`.",
  ["inputs"], "all request paths, any length",
  "Tests check short, well-formed paths; the segment indices are narrow integers and the over-long case is signalled in-band.",
  ["router/path/matching_context.go", "router/path/matcher.go", "router/router.go"],
  [("segment scanner", "router/path/matching_context.go ParseURLPath"), ("segment count limit", "router/path/matcher.go Match")],
  observe=["ParseURLPath", "Router.ServeHTTP"])
p("C06", "Bad or duplicate routes are refused at registration",
  "Registering a pattern that does not start with `/`, has an empty segment in the middle, a segment that starts with `{` and does not end with `}` or the reverse, an empty `{}`, two consecutive `**`, or an invalid constraint is refused, and so is registering, for the same method, a second pattern of the same shape (equal literals, wildcards and constraints, variables in the same places whatever their names). Every other pattern is accepted and, registered alone, reachable.",
  ["inputs", "configurations"], "all pattern texts and all pairs of patterns",
  "Tests try individual malformed patterns and identical duplicates.",
  ["router/path/pattern.go", "router/path/matcher.go", "router/router.go"],
  [("segment validation", "router/path/pattern.go validatePathSegment"), ("duplicate detection on the trie", "router/path/matcher.go AddPattern")],
  observe=["ParsePattern", "Matcher.AddPattern", "Router.Handle panics"])
p("C07", "Case mode applies to every kind of segment",
  "On a case-insensitive router changing the letter case of a request path never changes which route is chosen, and captured variables keep the case the client sent. On a case-sensitive router a literal route is reached only by exactly its own spelling.",
  ["inputs"], "all routes of literal, wildcard, constrained and variable segments, all ASCII request paths, both modes",
  "Tests flip the case of one literal.",
  ["router/path/pattern.go", "router/path/matcher.go", "router/router.go"],
  [("case folding per segment kind", "router/path/pattern.go matchUrlPathSegment")],
  observe=["Matcher.Match", "MatchingContext.PathVar"])
p("C08", "Methods are isolated and every outcome is answered once",
  "A request is handled only by a route registered for its own method (method names compared without case); when no route matches, the client gets an empty 404 and no handler runs. When the handler fails the client gets a 500 without the handler's response and the error is reported exactly once; otherwise the handler's response is written exactly once.",
  ["inputs", "configurations", "fault_sequences"], "all methods, paths, route tables and handler outcomes",
  "Tests combine one table with four requests.",
  ["router/router.go"],
  [("per-method matcher map", "router/router.go Handle"), ("dispatch", "router/router.go ServeHTTP")],
  observe=["http.ResponseWriter calls made by Router.ServeHTTP", "error log callback"])
p("C09", "A path prefix is joined to its routes with exactly one slash",
  "A handler registered with path q on a sub-router created with prefix p (nested to any depth) is reached exactly at the concatenation of the prefixes and q with single slashes at the joins, whatever leading or trailing slashes p and q carry. The same prefix is used in the redirect addresses handed to login providers. (An empty prefix returns the same router, as documented.)",
  ["inputs", "configurations"], "all prefixes and paths, nesting depth up to the bound",
  "Tests use one spelling of one prefix.",
  ["gofre.go"], [("prefix join", "gofre.go resolvePath"), ("sub-router creation", "gofre.go RouteUsingPathPrefix")],
  observe=["MuxHandler.ServeHTTP"])
p("C10", "Middlewares run in registration order and never leak between routers",
  "For each handler, the common middlewares present when it was registered run first in registration order, then its own middlewares in order, then the handler, each seeing what the inner one returned; nil middlewares are skipped. Adding common middlewares to a clone, a sub-router or the parent afterwards never changes the chain of any other router or of handlers already registered.",
  ["histories", "configurations"], "all sequences of clone, sub-route, add-middleware and register operations up to the bound",
  "Tests exercise one fixed configuration; aliasing of the middleware list only shows with particular capacities and operation orders.",
  ["gofre.go"], [("chain construction", "gofre.go wrapMiddleware, HandleRequest"), ("copy of the middleware list", "gofre.go Clone, RouteUsingPathPrefix")],
  observe=["order of middleware invocations during MuxHandler.ServeHTTP"])
p("C11", "A permission grants exactly its own scope and accesses",
  "A permission implies another (wildcard-free) one exactly when it carries every access bit asked for and its scope covers the other's level by level, where `*` covers any value, a final `*` also covers all deeper levels, and any other level covers only an equal one. In particular a scope without a trailing `*` never covers a deeper or shallower scope.",
  ["inputs"], "all pairs of permissions",
  "Tests list about twenty pairs; over-granting shows only for particular repeated level names.",
  ["auth/auth.go"], [("scope comparison", "auth/auth.go Permission.Implies")], observe=["Permission.Implies"])
p("C12", "Denials override grants, and rights aggregate over groups",
  "A role grants a permission exactly when one of its allowed permissions implies it and none of its denied permissions covers any of the requested accesses on that scope. A group or user has a permission exactly when one of its roles grants it, and has a role exactly when one of its roles bears that exact name.",
  ["inputs"], "all roles, groups and users up to the bound and all requested permissions",
  "Tests use single-bit requests and one role.",
  ["auth/auth.go"], [("deny-before-allow", "auth/auth.go Role.HasPermission"), ("aggregation", "auth/auth.go Group.HasPermission, User.HasPermission")],
  observe=["Role.HasPermission", "User.HasPermission", "User.HasRole"])
p("C13", "Permissions survive a round trip through text",
  "Parsing the text form of any permission with at most three scope levels gives the same permission back. Text without a decimal 32-bit access after the last colon, or with more than three scope levels, is rejected and never panics.",
  ["inputs"], "all strings and all permissions",
  "Tests sample seven strings.",
  ["auth/auth.go"], [("text form", "auth/auth.go Permission.String"), ("parser", "auth/auth.go ParsePermission, NewPermission")],
  observe=["ParsePermission", "Permission.String"])
p("C14", "Authorization middleware lets through only entitled principals",
  "A protected handler runs only if the request carries a security principal that has all (or, in the any-mode, at least one) of the required permissions; otherwise the request fails as unauthorized and the handler does not run. A failing permission supplier also stops the request with its own error.",
  ["inputs", "configurations"], "all principals, required permission lists and supplier outcomes",
  "Tests use fixed one- or two-permission lists.",
  ["middleware/authz.go", "auth/auth.go"], [("all/any evaluation", "middleware/authz.go Authorize")],
  observe=["handler invocations and returned error"])
p("C15", "The supplied principal is the one later stages see",
  "With a principal supplier installed, the handler runs with exactly the supplied principal available from its context, with the surrounding context untouched when none is supplied, and does not run when the supplier fails (its error is returned). Other context values and the handler's result pass through unchanged.",
  ["inputs"], "all supplier outcomes, contexts and handler results",
  "Tests cover three fixed outcomes.",
  ["middleware/auth.go", "auth/auth.go"], [("context propagation", "middleware/auth.go SecurityPrincipalSupplier")],
  observe=["context seen by the handler"])
p("C16", "A CSRF nonce admits at most one state-changing request",
  "A request whose method is not GET, HEAD, TRACE or OPTIONS reaches the handler only when it presents, in the configured header or form parameter, a nonce that was issued, has not expired and has not been used before; otherwise it fails with access denied and the handler does not run. This holds for any sequence of requests and when requests run concurrently, and every admitted request carries a fresh nonce that a later request can use.",
  ["inputs", "histories", "schedules"], "all request sequences up to the bound, nonces, elapsed times, and interleavings of two concurrent requests",
  "Tests send single requests with a pre-filled cache; single use and expiry need sequences, and double spending needs an interleaving.",
  ["middleware/csrf.go", "cache/cache.go"], [("check, remove, reissue", "middleware/csrf.go CSRFPreventionWithCustomParamAndHeaderName")],
  state=[("nonce cache", "nonces issued and not yet used", "cache/cache.go InMemory")],
  observe=["handler invocations", "returned error", "nonce in the handler's context"])
p("C17", "The in-memory cache contains exactly the live keys",
  "After any sequence of additions, removals and passages of time a key is reported present exactly when it was added, not removed since its last addition, and the expiry given with its last addition has not passed. Concurrent use from several goroutines neither corrupts the cache nor races.",
  ["histories", "schedules"], "all operation sequences up to the bound, all durations, interleavings of two goroutines",
  "The package has no tests.",
  ["cache/cache.go"], [("expiry map", "cache/cache.go InMemory")], observe=["InMemory.Contains"])
p("C18", "Cross-origin responses are released only to permitted origins",
  "Unless any origin is allowed, a cross-origin request succeeds only if its Origin is, byte for byte, in the allowed list and its method (for a preflight: the announced method and every announced header, ignoring case) is in the allowed lists; otherwise it fails with access denied and carries no response. Same-origin requests, and those without Origin, are not restricted. The allow-origin header of a successful response is `*` when any origin is allowed and otherwise the request's own Origin, with `Vary: Origin`; credentials, exposed headers and preflight headers appear exactly as configured, also when the handler set the same header, under any spelling.",
  ["inputs", "configurations"], "all configurations, origins, methods and announced headers",
  "Tests enumerate about forty configurations with well-formed origins.",
  ["middleware/cors.go"], [("request classification", "middleware/cors.go getRequestType"), ("origin check", "middleware/cors.go isOriginAllowed"), ("headers", "middleware/cors.go addStandardCorsHeaders")],
  observe=["returned error", "response headers"])
p("C19", "Security headers appear exactly as configured",
  "Every successful response leaves with exactly the security headers that were enabled, with the configured values, and strict-transport-security only on secure requests; disabled headers are never added, a value the handler set under any spelling of an enabled name gives way, and handler errors pass through unchanged. This also holds for the first requests of a server when they arrive concurrently.",
  ["configurations", "inputs", "schedules"], "all configurations, secure and plain requests, two concurrent requests",
  "Tests check one configuration per header, sequentially.",
  ["middleware/security.go"], [("header emission", "middleware/security.go SecurityHeaders"), ("lazily cached values", "middleware/security.go getHeaderValue, getAntiClickJackingHeaderValue")],
  observe=["response headers"])
p("C20", "Errors become responses with the right status",
  "With the error middleware installed no error escapes: bad-request errors give 400, not-found errors 404, unauthorized 401, wrong-credentials and access-denied 403, anything else 500, and the supplier is called once with that status and the original error. Successful responses pass through untouched.",
  ["inputs"], "all error values and handler results",
  "Tests list the sentinel errors one by one.",
  ["middleware/errors.go", "errors/errors.go"], [("error classification", "middleware/errors.go Error2HttpStatusCode")],
  observe=["returned response and error"])
p("C21", "A panicking handler becomes an error, never a crash",
  "With the recovery middleware installed, whatever value the handler panics with, and at whatever depth, the caller gets a non-nil error and the panic does not propagate. Without a panic the response and error are returned unchanged.",
  ["inputs", "fault_sequences"], "all panic values, including nil and runtime errors",
  "Tests panic with one string and one error.",
  ["middleware/panic.go"], [("deferred recover", "middleware/panic.go PanicRecover")], observe=["returned response and error"])
p("C22", "Compression follows the client's Accept-Encoding and is lossless",
  "A response wrapped for compression is encoded with gzip only if the client's Accept-Encoding lists gzip (or compress), otherwise with deflate only if it lists deflate, otherwise sent as is, and Content-Encoding names exactly the encoding used (deflate being the raw format the existing tests expect). Bodiless (204, 304) and already encoded responses are sent as they are. In every case decoding the body yields exactly the bytes the wrapped response produces, with its status, headers and cookies, and a connection that fails while it is sent is reported.",
  ["inputs"], "all Accept-Encoding values and bodies up to the bound",
  "Tests send five header values.",
  ["response/compress.go", "middleware/compress.go"], [("negotiation", "response/compress.go getCompressionAlgorithmFromHeaderValue"), ("writer wrapping", "response/compress.go HttpCompressResponse.Write")],
  observe=["http.ResponseWriter calls"])
p("C23", "A response is written with its own status, headers, cookies and body",
  "Writing a text, HTML, JSON, raw, stream or template response sends its status code (200 when unset), its headers and cookies, its content type unless a header overrides it, `nosniff` unless a header overrides it, all before the body, and then exactly its body. A status outside 100..999 is refused before anything is sent, and a connection that fails while the body is written is reported.",
  ["inputs"], "all status codes, header values, cookies and bodies up to the bound",
  "Tests compare a handful of fixed responses, and cookie order makes four of them flaky.",
  ["response/headers.go", "response/text.go", "response/json.go", "response/raw.go", "response/streaming.go", "response/template.go", "response/response.go"],
  [("header emission", "response/headers.go HttpHeadersResponse.Write"), ("body emission", "response/*.go Write")],
  observe=["http.ResponseWriter calls in order"])
p("C24", "Redirects carry the target, the status and what middlewares added",
  "Writing a redirect response sends the chosen 3xx status and a Location equal to the given absolute (ASCII) target. Headers and cookies set on the redirect, for instance by security or cross-origin middlewares, reach the client like on any other response.",
  ["inputs"], "all absolute targets up to the bound, header and cookie contents",
  "Tests check one URL and never set a header.",
  ["response/redirect.go"], [("redirect", "response/redirect.go HttpRedirectResponse.Write")], observe=["http.ResponseWriter calls"])
p("C25", "A server-sent event is framed so the client reads back the same event",
  "Feeding the text form of any event (fields free of line breaks and NUL) to a standard event-stream parser yields exactly one event with the same name, data lines, id and retry, or nothing for an empty event. Consecutive events never merge.",
  ["inputs"], "all events with fields up to the bound, and sequences of two",
  "Tests print three events.",
  ["response/sse.go"], [("framing", "response/sse.go ServerSentEvent.String")], observe=["ServerSentEvent.String"])
p("C26", "An event stream delivers every event in order until it ends",
  "On an HTTP/2 request the client receives the headers of an uncached event stream and then every produced event, in order, each flushed, until the producer closes or the request is cancelled, after which the write returns; the producer gets the client's last event id. A request that is not HTTP/2 is refused with status 500 and the producer is never started.",
  ["inputs", "schedules", "fault_sequences"], "all event sequences up to the bound, protocol versions, points of cancellation and failing writes",
  "Tests stream three fixed events; headers are inspected after the fact rather than at the time the status goes out.",
  ["response/sse.go"], [("stream loop", "response/sse.go HttpSSEResponse.Write")], observe=["http.ResponseWriter calls in order"])
p("C27", "No header or cookie crosses from one response to another",
  "Whatever sequence of responses is created, decorated and written, including writing the same response again, each write sends only headers and cookies that were set on that response. This holds although the underlying containers are recycled.",
  ["histories"], "all sequences of create, set, write operations up to the bound, all recycling choices",
  "Tests write each response once and never two in a row.",
  ["response/response.go", "response/headers.go"], [("pool recycling", "response/response.go Release, NewHttpHeaders"), ("release after write", "response/headers.go Write")],
  state=[("header and cookie pools", "containers waiting for reuse", "response/response.go")],
  observe=["http.ResponseWriter headers"])
p("C28", "The login flow exchanges codes only for states it issued",
  "Starting a login redirects to the selected provider (the only one, or the one named in the request; otherwise bad request) with a freshly remembered state and this site's callback address. The callback contacts the provider only if it names a known provider, reports no error and, when a state cache is configured, presents an issued, unexpired state; otherwise it fails and the protected handler does not run, and when it succeeds the handler sees the access token and, if requested, the user.",
  ["inputs", "histories", "fault_sequences"], "all request parameters, provider lists, cache contents and provider failures",
  "Tests drive one provider through the happy path and a few errors.",
  ["gofre.go", "auth/oauth/oauth2.go", "cache/cache.go"], [("login endpoints", "gofre.go HandleOAUTH2WithCustomPaths"), ("provider lookup", "auth/oauth/oauth2.go GetProviderByName")],
  observe=["provider calls", "handler context", "returned error"])
p("C29", "Provider answers never crash the login or fake a success",
  "Whatever JSON a login provider answers, fetching the access token or the user profile returns either an error or a value whose token (user id) was present as non-empty text in a 2xx answer, and never panics. Fields of other types than expected are ignored or reported as an error.",
  ["inputs", "fault_sequences"], "all response statuses and JSON objects over the relevant keys and value types, transport failures",
  "The package has no tests.",
  ["auth/oauth/github.go", "auth/oauth/google.go"], [("response decoding", "auth/oauth FetchAccessToken, FetchAuthenticatedUser")],
  observe=["returned token, user and error"])
p("C30", "Requests to login providers carry every parameter intact",
  "The authorization URL built for GitHub or Google, when parsed back, contains exactly the configured client id, callback address, state and options, and the configured scopes followed by the profile scopes when user details are requested. Building it never modifies the shared configuration, also when several logins start at once. The request that exchanges the code carries the client's credentials and the code unchanged in a body declared with its format, and the profile request carries the token it is given.",
  ["inputs", "configurations"], "all configurations and states up to the bound",
  "The package has no tests.",
  ["auth/oauth/github.go", "auth/oauth/google.go"], [("query construction", "auth/oauth InitiateUrl"), ("token and profile requests", "auth/oauth FetchAccessToken, FetchAuthenticatedUser")], observe=["InitiateUrl", "requests sent through oauth.HttpClient"])
p("C31", "JSON error responses carry the error text unharmed",
  "The message placed in a JSON error response equals the error's text with at most its first letter upper-cased; no byte is lost or altered, whatever the language of the message. A nil or empty error gives an empty message.",
  ["inputs"], "all error texts up to the bound",
  "Tests use two ASCII messages.",
  ["response/json.go"], [("capitalisation", "response/json.go errorToString")], observe=["HttpJsonResponse.Payload"])
p("C32", "Dumping requests does not change them",
  "With the dumper installed the handler sees the same request and context, and its response or error is returned unchanged; exactly one record is logged for a successful request, none for a failed one. The record names the request's method, URI and the response status.",
  ["inputs"], "all methods, URIs, headers and handler outcomes up to the bound",
  "One test with one request.",
  ["middleware/dump.go"], [("dump", "middleware/dump.go RequestDumper")], observe=["handler argument, returned values, logged text"])
p("C33", "Standard handlers behave the same behind the framework",
  "An http.Handler or http.HandlerFunc registered through the adaptors receives the original request and its status, headers and body reach the client unmodified. Headers and cookies that middlewares put on the response are sent as well, before the handler writes. Likewise a response that takes over the connection gets it whatever the middlewares add to it.",
  ["inputs"], "all requests and handler behaviours up to the bound",
  "Tests check one handler.",
  ["response/adaptor.go", "handler/handler.go", "response/hijack.go", "response/compress.go"], [("adaptor", "response/adaptor.go HttpHandlerAdaptorResponse.Write")], observe=["http.ResponseWriter calls"])
p("C34", "Concurrent requests do not interfere",
  "Two requests served at the same time by one router get the same handlers, path variables and responses as when served one after the other, and serving them touches no shared memory without synchronisation. This includes recycled path and header containers.",
  ["schedules", "inputs"], "interleavings of two requests over small route tables",
  "Tests are sequential; only a benchmark is parallel and checks nothing.",
  ["router/router.go", "response/response.go", "gofre.go"], [("segment pool", "router/router.go ServeHTTP"), ("header pool", "response/response.go")],
  observe=["handlers invoked, variables read, response writer calls, data races"])
p("C35", "Static files are served only from below the assets directory",
  "A request is answered from the assets directory only if its path lies below the configured context path and assets path, and the file opened is the one named by the remainder of the path, never anything outside the assets directory whatever `..` or repeated slashes it contains. No other handler is affected by enabling assets.",
  ["inputs", "configurations"], "all request paths up to the bound, both default and custom context and assets paths",
  "Tests check two fixed files.",
  ["gofre.go"], [("assets route", "gofre.go NewMuxHandler")], observe=["file system opens"])

p("C36", "Debug endpoints exist only where enabled and serve what they name",
  "A router answers no debug endpoint before EnableDebugEndpoints is called on it. Afterwards a GET for the debug path of a profile, below the router's path prefix and in any case mode, is answered by exactly the profile it names (or the index, the command line, the symbols, the variables); any other method or path is answered 404, also the same path outside the prefix. The common middlewares the router had when the endpoints were enabled run before them, in order, and can refuse them.",
  ["inputs", "configurations"], "all endpoints, methods and single-letter variations of their paths, below several prefixes, in both case modes",
  "Tests ask each endpoint once on a router without prefix and middlewares, and look only for a status that is not 404.",
  ["gofre.go"], [("registration", "gofre.go EnableDebugEndpoints")], observe=["http.ResponseWriter calls, middleware calls"])

p("C37", "Login states and CSRF nonces cannot be predicted",
  "The state of a login and the nonce of a form are made of at least eight bytes taken from the cryptographic random source, and every byte taken counts: other random bytes give another token, whatever any other source of numbers does. Two tokens are made of random bytes of their own, and what is remembered for checking is exactly what is given out.",
  ["inputs", "random bytes"], "all random bytes within a class that every usual alphabet keeps apart, for both kinds of token",
  "Tests check the length and the alphabet of a token; a counter would pass.",
  ["gofre.go", "middleware/csrf.go"], [("state", "gofre.go generateUniqueId"), ("nonce", "middleware/csrf.go generateNonce")], observe=["state passed to the provider, nonce in the context, keys added to the cache"])
p("C38", "The configuration is completed, kept, and shared by all routers",
  "A configuration field that is given is used as it is, an empty one gets its documented default, and every router derived from a handler (sub-routers, clones) reports the same configuration and templates. Changing the configuration that Config returns, its resources included, changes nothing. Each error that a handler returns or the writing of a response ends with reaches the configured log function exactly once with its cause, while the client gets a 500 without a body (or what had been written); nothing else is logged as an error.",
  ["configurations", "inputs", "histories"], "all fields given or empty, with arbitrary texts up to the bound; sequences of failing and succeeding requests",
  "Tests compare two whole configurations.",
  ["gofre.go", "router/router.go"], [("defaults", "gofre.go setDefaults"), ("errors", "router/router.go ServeHTTP")], observe=["Config, ExecutableTemplate, calls of the log function, http.ResponseWriter calls"])
p("C39", "Templates are found by name and show values literally",
  "With resources configured and no template given, the templates are those the pattern matches, each found by its file name and by no other; a pattern that matches nothing or a template that cannot be parsed makes the configuration fail. A value is shown literally, whatever markup it contains, unless the template passes it through `safe` or the application says it is markup. A name that does not exist is reported and shows nothing.",
  ["inputs", "configurations"], "all values up to the bound in templates that show, mark as safe or include",
  "Tests replace the template loader by a stub.",
  ["gofre.go", "response/template.go"], [("loading", "gofre.go defaultTemplateFunc"), ("rendering", "response/template.go Write")], observe=["http.ResponseWriter calls, errors logged, error of NewMuxHandler"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
