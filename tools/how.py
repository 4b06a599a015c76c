# what each check runs and what it compares with (for DESIGN.md)
HOW = {
'C01': ('path.Matcher / a router with one wildcard route, symbolic pattern texts and request segments', 'an own dynamic-programming matcher for `*` and `?` over code points, evaluated without branching as one formula'),
'C02': ('registration and lookup through a MuxHandler for sets of patterns, symbolic segments', '`kit.Matches`: alignments of pattern and path enumerated, their conditions joined; hit iff some pattern matches'),
'C03': ('the same tables registered in several orders', 'the chosen route equals across orders; and no matching pattern is strictly more specific (`kit.MoreSpecific`)'),
'C04': ('the handler asks for every declared and some undeclared variables', 'some alignment of pattern and path gives exactly those values at those positions'),
'C05': ('ServeHTTP with symbolic paths against recording routes', 'an own normaliser (split, drop empty, `..` removes one); over-long paths answered 404 with no handler'),
'C06': ('Matcher registration with symbolic pattern texts, pairs and triples in all orders', 'an own grammar of patterns; duplicate iff the same shape up to variable names; a refused registration leaves the routes as they were'),
'C07': ('two requests whose letters differ in symbolic case; literals; both constructors of the mode', 'same route, variables as sent; on case-sensitive routers the reference matcher'),
'C08': ('MuxHandler with every Handle* method, symbolic method texts, handlers that succeed, fail, answer nothing', 'own method only; exactly one status line; 404 empty, 500 without the handler\'s content'),
'C09': ('RouteUsingPathPrefix nested with symbolic slashes; the login flow below prefixes', 'the joined path has single slashes; reached there and nowhere else'),
'C10': ('histories of adding, cloning, sub-routing and registering', 'a reference model keeps for each handler the list of middlewares it must meet, in order'),
'C11': ('auth.Permission.Implies over symbolic scopes and access words', 'level-by-level covering written as one formula'),
'C12': ('Role, Group, User permission checks', 'formulas for granted and denied over the same lists'),
'C13': ('ParsePermission and String', 'round trip; an own acceptor for texts'),
'C14': ('AuthorizeAll / AuthorizeAny around a handler, stub and real principals', 'runs iff principal present and all/any grant; otherwise the unauthorized error'),
'C15': ('SecurityPrincipalSupplier nested', 'the innermost principal is seen inside, the outer one outside; errors pass'),
'C16': ('CSRFPrevention with the in-memory nonce cache, histories and concurrent requests', 'a model of issued, spent and expired nonces; at most one admission each; happens-before'),
'C17': ('the in-memory cache under virtual time', 'a model of live keys with symbolic expiries, as one formula'),
'C18': ('the Cors middleware with symbolic Origin, method and announced headers', 'membership formulas over the lists; same-origin by scheme, host and effective port'),
'C19': ('the SecurityHeaders middleware for every switch combination', 'a table of the headers for a configuration'),
'C20': ('ErrJsonResponse / Error2HttpStatusCode around failing handlers', 'status table over errors.Is; the supplier is called once with the original error'),
'C21': ('the recovery middleware around handlers that panic at any depth', 'non-nil error mentioning the value, nothing escapes; unchanged otherwise'),
'C22': ('CompressResponse around every response type', 'acceptable encodings from the header by an own reader; decoded body equals the plain one'),
'C23': ('every constructor of package response written to a recording writer', 'status, headers, cookies and body as given, headers complete before the body'),
'C24': ('redirect responses with middlewares around', 'Location byte for byte, status, decorations'),
'C25': ('the text form of events', 'the event-stream parser of the HTML specification'),
'C26': ('HttpSSEResponse with producer goroutines, cancellation and the compression middleware', 'the client\'s byte log parses to a prefix of what was produced, all of it at the end; the write returns; nothing is left running'),
'C27': ('sequences of created, decorated and written responses', 'a model of what was set on each'),
'C28': ('the OAUTH2 handlers with stub providers', 'a model of the states each browser was given; the provider is asked only for an issued, live, unspent one'),
'C29': ('the provider clients on symbolic answers', 'a JSON reader of the harness says what is present as text'),
'C30': ('authorization URLs and token requests', 'net/url parses them back; parameter for parameter equality'),
'C31': ('JSON error responses', 'the message, decoded, equals the text with the first letter in upper case'),
'C32': ('the request dumper around handlers', 'request and response unchanged; one record naming what the request has'),
'C33': ('standard handlers behind the adaptors', 'the same handler run directly on a recording writer, plus decorations'),
'C34': ('two requests served at the same time by one router', 'each equals its result when served alone; no race; nothing kept'),
'C35': ('asset and template serving over a table of files', 'an own resolution of the path; opens recorded and compared'),
'C36': ('EnableDebugEndpoints below prefixes with middlewares', 'a table of the endpoints and the profile each names'),
'C37': ('generation of states and nonces from symbolic random bytes', 'distinct random bytes give distinct tokens (injectivity), other sources do not matter'),
'C38': ('NewMuxHandler with every combination of fields; derived routers; failing requests', 'field or default; same configuration everywhere; error log receives each failure once'),
'C39': ('template loading and template responses', 'the page is the template text around a text that a browser shows as the value (`means`)'),
}
