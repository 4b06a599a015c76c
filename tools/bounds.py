#!/usr/bin/env python3
# writes harness/cNN/bounds.json: the stated bounds, what lies outside, and the assumptions.  (q/t = quick/thorough)
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = {}
def b(i, bounds, outside, *assumptions, note=None):
    B[i] = {'bounds': bounds, 'outside': outside, 'assumptions': list(assumptions)}
    if note: B[i]['note'] = note
pool = 'sync.Pool may hand out any earlier object or a new one; time is virtual and advances only when asked'
b('C01', 'wildcard texts of up to 4/5 characters over {a,b|B,*,?}, ASCII segments of up to 4/6 arbitrary bytes; ten wildcard texts against segments of up to 2/4 arbitrary bytes (whole or broken characters); both case modes; letters of other alphabets and letters whose cases differ in byte length from lists, up to 2/3 pattern elements',
  'longer wildcard texts and segments; case folding of non-ASCII letters not listed')
b('C02', 'one pattern of up to 3/4 segments and two of up to 2-3/3 from a menu of all segment kinds against paths of up to 4/5 one-letter segments; three patterns from a list of 10/12; 14 fixed tables of up to four patterns with paths of up to 5/7 segments; 18 constraint expressions with any ASCII segment of up to 2/3 bytes; paths of 16..19 segments with 2/3 arbitrary ones',
  'larger route tables; constraint syntax beyond the listed forms (classes, repetition, alternation, escapes and anchors are covered); non-ASCII constrained segments',
  'regexp is modelled by running its compiled program over symbolic bytes; the reference is an independent matcher')
b('C03', 'two patterns of up to 2-3 segments of any kind; 12 sets of four mutually overlapping patterns in 4/24 orders; the 14 tables of C02 in two orders and both case modes; three patterns of a list of 11/14 in 3/6 orders; paths of up to 3-6 segments over small alphabets',
  'pairs whose order of specificity the documentation leaves open (`**` counted once or for all the segments it takes): only order independence is required there')
b('C04', 'one pattern of up to 4/5 segments; nine tables with paths of up to 4/6 segments, doubled and final slashes included; variables of arbitrary bytes of length 1-2; nineteen variables',
  'segments longer than three bytes (values are copied by position, not by content)')
b('C05', 'paths of up to 4/6 arbitrary bytes; up to 8/11 characters over {/,.,a}; up to 5/7 whole steps out of five; 15..22/39 segments; runs of up to 45 slashes; segments around 65535 bytes',
  'paths of more than 40 segments; percent-decoding, which net/http does before the library sees the path')
b('C06', 'patterns of up to 5/6 characters over the characters that matter; up to 3/4 whole segments from a menu of well- and ill-formed ones; pairs and triples of patterns from menus, in every order; up to 40 segments and 20 greedy segments',
  'malformed regular expressions beyond the listed ones (regexp/syntax decides)')
b('C07', 'literals of up to three/four segments of one or two letters with arbitrary case; a literal against any segment of up to 3/4 bytes; listed letters whose cases differ in length; grouped and flagged constraints; both ways to configure the mode',
  'case folding of letters not listed')
b('C08', 'two/three routes under any of nine methods, a request with any of them or a method of three or four letters over a small alphabet; any status 200..599, bodies of up to two bytes; handlers that fail, return nothing, write and then fail',
  'methods longer than seven characters')
b('C09', 'up to 2/3 nested prefixes and a path, each with 0..2 slashes at either side and doubled ones inside; siblings; the callback address of the login flow below up to 1/2 prefixes',
  'prefixes with more than two segments')
b('C10', 'histories of three/four operations (add one or two middlewares, clone, sub-router, register) on any router made so far, after 0 or 3 (thorough also 1, 5) single additions; chains in which any middleware stops or fails',
  'longer histories', 'middlewares are functions that call or do not call the next handler once')
b('C11', 'scopes of up to 4/6 arbitrary bytes on both sides, all pairs of 32-bit access words', 'longer scopes')
b('C12', 'roles with up to two allowed and two denied permissions, users with two groups of up to two roles; arbitrary access words; scopes from a list', 'more than two groups, roles or permissions')
b('C13', 'scopes of up to 3/5 arbitrary bytes with any 32-bit access; arbitrary texts of up to 2/3 bytes, up to 5/7 characters over the characters that matter, digit tails up to and beyond 32 bits', 'longer scopes')
b('C14', 'up to 3/4 required permissions, any outcome for each, two requests through one middleware with equal or different lists, by one or two principals whose rights may change, a supplier that fails; the users of package auth with arbitrary 9-bit access words', 'longer lists of permissions')
b('C15', 'up to 2/3 suppliers around each other and around a handler, several requests; suppliers that fail, give nothing or give a principal', 'deeper nesting')
b('C16', 'histories of three/four requests with any method, nonces issued, spent, expired, foreign or guessed, in a header, form, query or several places; two/three concurrent requests with up to 2/3 preemptions; any method of up to seven/nine characters; stores that fail',
  'more preemptions; nonces guessed by chance', 'the random source is not predictable: an issued nonce differs from a guess', pool)
b('C17', 'histories of three/four additions, removals and passages of time with symbolic keys of up to two letters and symbolic 50-bit durations; reads in between; two/three goroutines with up to 2/3 preemptions, data races included',
  'the very instant of expiry', 'time is virtual and monotone')
b('C18', 'origins: listed ones, listed ones with one arbitrary byte replaced, inserted or removed, 16 others, short texts over the characters that matter; announced methods of three letters, up to 2/3 announced headers; four lists of origins; same-origin requests over hosts, schemes and ports',
  'origins with arbitrary text of more than 4 characters; url.Parse is executed, not modelled')
b('C19', 'every combination of the configuration switches, symbolic address of the allowed frame, requests with and without TLS, sequences of requests, two/three concurrent first requests with up to 2/3 preemptions', 'other schemes than http and https')
b('C20', 'sequences of two requests with every error of the library, bare and with another inside, foreign errors with symbolic texts of up to two bytes, 43 errors of the standard library or with the methods such errors have; nesting of the error middlewares with others', 'other types of error of other packages')
b('C21', 'any panic value (error, text, number, nil, runtime error, http.ErrAbortHandler) at depth 0..2/4, with and without partial results; sequences of requests through a router', 'panics of goroutines the handler starts, which no middleware can catch',
  'panic(nil) is a *runtime.PanicNilError as the module\'s Go version decides; both settings are explored')
b('C22', 'Accept-Encoding of up to 2/3 elements with case variants, quality values, wildcards and symbolic unknown names; every response of the package with bodies of up to three bytes in pieces, flushes in between, a status without a body; two responses through one middleware',
  'compression of longer bodies: the deflate/LZW coders are replaced by a model that records what they are given (decoded natively on replay)', 'compress/* is trusted to be lossless')
b('C23', 'all 28 constructors with symbolic bodies of up to 2/4 bytes, six header and three cookie settings given before or after; every status from -300 to 2000; every split of a stream of up to four bytes with errors; two/three cookies with symbolic names, paths and domains',
  'longer bodies; JSON payloads beyond the listed shapes')
b('C24', 'absolute targets of up to 3/5 symbolic parts; every status 300..399 and others; headers and cookies from middlewares and from the application', 'targets longer than six parts')
b('C25', 'one event with symbolic name, id and data of up to one/two arbitrary bytes per field in several lines and a symbolic retry; two/three events after one another; the reader is the HTML specification\'s event stream parser', 'longer fields')
b('C26', 'up to three/four events, channels buffered or not, producers eager, slow or stubborn, cancellation at any moment, up to 2/3 preemptions; HTTP/1.0 to HTTP/3; with the compression middleware between', 'more events or preemptions',
  'goroutines switch at synchronisation operations and at memory shared between them')
b('C27', 'sequences of four/five steps creating, decorating and writing responses of 4/8 types; three/four requests through a router; two concurrent writes', 'longer sequences', 'header and cookie containers given to a response are owned by it from then on', pool)
b('C28', 'one login and one callback with every source of the state (issued, used, expired, of the other flow, guessed) and code; histories of three/four starts, callbacks and passages of time by two browsers over two providers; cookies and nonces of the framework', 'longer histories',
  'a state guessed at random differs from every issued one (excluded by an assumption)', 'the provider is a stub transport that records what it is asked')
b('C29', 'token and profile answers with every member absent, empty, symbolic text, number, null, object, list, boolean, escape or huge number; any status that a client does not follow; raw answers of up to 3/5 characters over the JSON characters, or a valid one with any byte replaced; broken bodies and transports', 'redirecting answers (net/http follows them)', 'encoding/json is a model that replay compares with the real one')
b('C30', 'each parameter in turn of up to 2/3 characters over the characters that escaping concerns, including text that is an escape of its own; lists of up to two scopes; two concurrent logins; tokens of up to 3/5 printable characters', 'longer values (escaping is bytewise)')
b('C31', 'messages of up to 3/4 arbitrary bytes; a listed first character followed by up to 3/7 arbitrary bytes; what a client decodes from texts of up to 2/4 difficult characters', 'longer messages (escaping is bytewise)')
b('C32', 'requests that are symbolic in one part at a time (method, address, header, path, query, cookies, form, multipart, body, host); responses of every type behind the dumper', 'several symbolic parts at once')
b('C33', 'standard handlers of up to 2/3 steps out of eight (status, body, headers, cookies, flush, panic) on four kinds of writer, with up to two headers and cookies from middlewares; three/four requests through one adapted handler; hijacking behind six sets of middlewares', 'handlers with more steps')
b('C34', 'two concurrent requests over 3 sites of routes after a request that fills the pools, one/two preemptions; sequences of three/four requests with panics and failures; a handler that serves another request; contexts kept after the request', 'three or more concurrent requests', pool, 'goroutines switch at synchronisation operations and at memory shared between them')
b('C35', 'six context paths, five mappings; paths of up to three/four segments of up to two symbolic characters over {x,d,.}, walks of up to four/five whole components, the application\'s own routes', 'symbolic links in the assets directory; other operating systems\' separators',
  'the file system is a table of files standing in for the real one (http.Dir, http.FileServer and path cleaning are executed); what it opens is recorded, nothing real is touched')
b('C36', 'twelve endpoints below four prefixes in both case modes; any of seven methods; one arbitrary character at three places (thorough: any place); one more segment or slash; before and after enabling; middlewares added before and after, on the router, its parent or its clone, that may refuse',
  'what the profiles contain', 'the profilers of the runtime are replaced by stubs that write one byte (the real ones run on replay)')
b('C37', 'random bytes below 10 all together (32 bytes, two independent draws) and below 16 one at a time; four ways to issue a token; two/three tokens in a row',
  'random bytes of other values (a letter may stand for several of them)', 'the cryptographic source delivers arbitrary bytes; every other source of numbers starts over and is known')
b('C38', 'every combination of empty and given fields, texts of one/two characters over letters, dots, stars and slashes; five derived routers; sequences of two/three requests that fail in any way', 'templates that are loaded from files (C39)')
b('C39', 'values of one arbitrary byte and of two/three characters over those that matter in HTML and UTF-8; markup and numbers of the application; ten names over four patterns; six patterns that fail or match; two/three pages after one another with failing ones and clients that are gone in between', 'values in attributes, scripts and addresses, which html/template decides; template actions beyond showing, functions and inclusion',
  'html/template is modelled for text contexts, its escaper is executed; a table of files stands in for the file system')
LARGE = {'C01': 'two texts of up to 3/4 letters asked of one route in turn; literals of 20..1025 characters around wildcards with three symbolic letters, twenty stars in one segment',
 'C02': 'tables of up to 26/42 patterns that differ at one segment, routes registered between requests, routes of up to 18 segments',
 'C03': 'up to 28 patterns next to each other in three orders, routes registered between requests, 13 expressions of constraints beside other kinds of segment',
 'C04': 'two/three requests in turn to one of four tables',
 'C05': 'three requests in turn with short, long and over-long paths',
 'C06': 'two further registrations after a request, of eleven patterns that repeat the first in other words or are ill-formed; a duplicate among up to 50 patterns',
 'C07': 'literals of up to 300 letters in up to 19 segments with one arbitrary letter; 14 names as sites have them at seven places, asked for three times in different spellings',
 'C08': 'up to 60 routes of a node under up to nine methods each',
 'C09': 'prefixes nested 5..16 deep with up to twelve routers side by side, 17 names of other alphabets and signs',
 'C10': 'up to 17 middlewares per router in nests of up to nine, up to 20 of a route',
 'C11': 'three/four questions in turn about scopes that differ in case or depth, with arbitrary accesses; scopes of up to 40 levels of up to 300 letters, three of them symbolic',
 'C12': 'a user whose groups and roles change between two/three questions; users with dozens of groups, roles and permissions',
 'C13': 'levels of up to 4097 letters',
 'C14': 'lists of dozens of permissions',
 'C15': 'dozens of suppliers around each other',
 'C16': 'dozens of nonces issued before any is used, spent in other orders',
 'C17': '300, 1100 and 10500/30000 keys alive at once',
 'C18': '46 origins that are often trusted, or that the code mentions; lists of up to 70 origins, methods and headers, as many announced; two/three different requests through one middleware',
 'C20': 'sequences of 60 errors through up to twelve middlewares, texts of up to 4097 bytes',
 'C21': '28 kinds of panic, up to 200 calls deep, texts of up to 4096 bytes, ten in a row',
 'C22': 'bodies of 64..70000 bytes with symbolic bytes at the ends, the middle and around the usual ends of buffers',
 'C23': 'bodies of 64..70000 bytes through every constructor, whole and in pieces',
 'C24': 'any method and protocol of the request; targets of up to 32769 bytes, up to 40 headers and cookies',
 'C25': 'events of long and many lines (twelve of them symbolic)',
 'C26': 'dozens of events in a row, on buffered channels and not',
 'C27': 'a dozen responses alive at once with up to 40 headers and cookies each',
 'C28': 'up to 70 logins outstanding at once, called back in three orders before and after expiry',
 'C29': 'tokens and names of up to 4096 bytes among up to 200 other members',
 'C30': 'values of up to 4096 bytes, up to 60 scopes',
 'C31': 'messages of 64..70000 bytes; 43 errors of the standard library with any status',
 'C32': 'bodies and headers of up to 70000 bytes, dozens of headers and cookies',
 'C33': 'bodies of up to 70000 bytes, dozens of headers',
 'C34': 'dozens of requests one after another over the pooled objects',
 'C35': 'files of up to 70000 bytes with names of up to 200 characters in up to 15 directories',
 'C37': '80 tokens in a row, eight pairs of them compared',
 'C38': 'up to 150 failing requests in a row, the same error or another, at once or seconds apart',
 'C39': 'up to 40 templates and values of up to 4097 bytes'}
KNOWN = {'C13': 'accesses with any byte at their start and end',
 'C17': 'two keys of up to three/four characters over letters, spaces, slashes and other signs, and every string the code mentions',
 'C34': 'two requests at once, then four more, through one chain of CORS or authorisation and the dumper',
 'C10': 'prefixes of slashes, wildcards and variables, with and without slashes around them; the two handlers of a login with up to two middlewares each, on three kinds of router',
 'C04': 'variable names that differ in case, length or one sign, five variables next to each other',
 'C06': 'groups of two to four letters of any alphabet that differ in case alone; constraints the code mentions, equal or not',
 'C08': 'targets with queries, fragments and strange hosts; every value the code mentions as method, path and header; 48 errors of handler and response',
 'C12': 'roles with up to one permission allowed and denied each at two places; every string the code mentions as name and scope',
 'C14': 'the 43 known errors and the library\'s own from the supplier',
 'C15': 'the 43 known errors and the library\'s own from the suppliers and handlers; principals of eleven kinds, with and without an identity',
 'C16': 'variants of an issued nonce (case, space, padding, a prefix, twice) and every string the code mentions; 48 errors of store and handler; nonces of an earlier request in the context',
 'C18': 'methods and headers browsers know, and every string the code mentions; 48 errors of the handler; a handler that sets a granted header under another spelling, every map order',
 'C19': 'headers set by the handler before and after the middleware\'s own; 48 errors of the handler; a handler that sets a configured header under another spelling, every map order',
 'C22': 'codings of other names and every string the code mentions; 48 errors of the handler; connections that fail at the first to fourth write',
 'C23': 'readers of seven kinds, partly read; every string the code mentions as body, header and cookie; payloads of every kind of value, headers of any value (empty ones too), cookies with every attribute, template names with endings, bodies of up to 4 MB; content types known, mentioned by the code or symbolic as headers; headers and cookies with every status; seven errors of a raw writer and a template',
 'C24': 'every string the code mentions in target and headers; paths and queries of the request',
 'C30': 'values providers document and every string the code mentions',
 'C32': 'header, cookie and parameter names the code mentions or sites have; every status 100..999 with and without headers and cookies',
 'C33': 'requests of every kind of body through the adaptors to standard handlers; empty and removed cookies and empty headers from middlewares, with what the client sent of the same name; eight values a handler aborts with, before and after it has written',
 'C35': 'directories and files of names that mean something elsewhere; files whose names differ in case alone, with both case modes',
 'C37': 'provider names, addresses and sites',
 'C20': 'suppliers that give nothing; responses and errors with the middleware around others; an error together with a response of any status 100..999',
 'C28': 'variants of an issued state (case, space, padding, a prefix, twice) and every string the code mentions; names close to that of a provider (another case, an ending, a part, a symbolic head or tail) and every string the code mentions; callbacks that report an error: the codes of RFC 6749, of OpenID and of providers and every string the code mentions',
 'C29': 'members of every other name the code mentions in the place of a missing one; lives of the token from -1e300 to 1e308',
 'C31': '48 errors through the error middleware',
 'C38': 'five changes of the resources of a returned configuration; texts whose spaces, case and dots are kept; clients that have left before the handler, within it and within the response',
 'C39': 'files in directories, of names that mean something elsewhere'}
for i, t in KNOWN.items():
    B[i]['bounds'] += '; known values: ' + t
SIZES = '; where a harness ranges over sizes, the sizes the code compares with (and those beside them) are among them'
OPEN = 'a request header, cookie, query or form parameter, address, method, protocol or connection that the property does not mention is an open input: as usual or absent, or with a text the code under test compares it with, or another one'
for i, m in B.items():
    if i in LARGE:
        m['bounds'] += '; sizes: ' + LARGE[i] + (SIZES if 'sym.Size' in open(root + '/harness/%s/%s.go' % (i.lower(), i.lower())).read() else '')
    m['bounds'] += '; q/t = quick/thorough'
    m['assumptions'].append(OPEN)
if __name__ == '__main__':
    for i, m in B.items():
        d = root + '/harness/' + i.lower()
        if os.path.isdir(d):
            json.dump(m, open(d + '/bounds.json', 'w'), indent=1)
