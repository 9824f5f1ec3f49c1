import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=st,quantifier={"over":over,"text":q},why_tests_cant=why,anchors=a))
T="src/router/route_trie.rs"
p("C01","A request path reaches exactly the most specific registered route",
 "For every set of accepted registrations, looking up a request path yields the handlers of a registered path whose segments match it one for one: a static segment matches only the identical whole segment, ':name' matches any one segment, and a trailing '*' matches the one or more segments that remain (or none of them, when it follows a static segment nothing is registered at). If several registered paths match, the one that is static at the first segment where they differ wins over '*', with fall-back to '*' whenever the static branch leads to nothing. If no registered path matches, the lookup finds no route; empty segments (doubled, leading or trailing '/') never make a difference.",
 ["inputs","histories"],"all registration sequences the router accepts x all request paths (any UTF-8, any number of segments)",
 "Tests look up a handful of paths in fixed small tries; the lookup works on a compressed character trie whose shape depends on every registered path, and only a proof over all tries covers shared prefixes, splits and back-tracking.",
 [T,"src/router.rs"],[("compressed trie search","RouteTrie::search_route, Node::get_next_node"),("trie shape","Node::process_insertion, Node::get_insertion_action")],
 [("head / child_nodes","registered paths as a character trie","RouteTrie, Node")],["Router::search_route","HTTP response of App"])
p("C02","Registering one path never changes what other paths resolve to",
 "Adding a route or a middleware at one path leaves the routes, methods and middlewares that are registered at every other path exactly as they were, and adds exactly the given route or middleware at its own path. Hence, for paths that do not conflict, the order of the registrations does not change which handler any request reaches.",
 ["inputs","histories"],"all sequences of registrations on any router x all other paths",
 "Tests register a few paths in one order; node splitting moves existing values and children around, and only a frame condition over the whole trie shows nothing else changed for every trie and key.",
 [T],[("node splitting","Node::process_insertion (SplitNode, SplitKey, CreateNewNode)"),("insertion","RouteTrie::insert_route, insert_middleware, insert_default_route, insert_default_middleware")],
 [("Node.value","route and middlewares of the path that ends in the node",T)],["Router::search_route"])
p("C03","Ambiguous or malformed registrations are rejected, all others accepted",
 "Registering panics exactly when it must: when the same method is already registered for the same path, when a ':name' segment meets a different segment at the same position (in either order), when '*' is used inside a longer segment or before the last segment, or when a router is mounted at a path which already has a route, a middleware or paths below it (an empty router that is mounted counts as its mount path), or a router with paths of its own is mounted at '*'. Every other registration is accepted and takes effect.",
 ["inputs","histories"],"all router states reachable by registrations x all paths, methods and sub routers",
 "Three should_panic tests sample single conflicts; whether a conflict is missed, or reported for unrelated paths that merely share characters, depends on the trie shape.",
 [T,"src/router/resource.rs"],[("ambiguity detection","Node::get_insertion_action"),("validation loops and duplicate checks","RouteTrie::insert_route, insert_middleware, insert_sub_route, insert_default_route"),("duplicate methods","Resource::add_route")],None,["Router::get/post/put/patch/delete, use_service_to, use_router, scope"])
p("C04","Exactly the middlewares of the path's registered ancestors run, outermost first",
 "The middlewares selected for a request are exactly those registered on the root and on each prefix, by whole segments, of the matched registered path (the matched path included), ordered from the root to the matched path and, on one path, in registration order. No middleware of a sibling, of a path that only shares leading characters, or of a branch that was tried and abandoned is selected.",
 ["inputs","histories"],"all accepted registration sequences x all request paths",
 "Tests count middlewares on a few fixed paths; leakage from abandoned branches or from shared key prefixes needs particular trie shapes.",
 [T],[("accumulation during search","Node::get_next_node (append / truncate), RouteTrie::search_route")],None,["order of side effects of middlewares"])
p("C05","The middleware chain runs every middleware once, in order, then the endpoint",
 "Running the chain for an endpoint hands the context to the first middleware together with a continuation for exactly the remaining middlewares; calling the continuation does the same with the next one and, when none are left, calls the endpoint handler with the context it was given. Whatever the called middleware or handler returns is returned unchanged, and a middleware which does not call the continuation prevents everything after it from running.",
 ["inputs","programs"],"all lists of middlewares (any length, any behaviour), all handlers and contexts",
 "Only chains of length zero or one are exercised by the tests; the claim is an induction over the length of the list.",
 ["src/app.rs","src/middleware.rs"],[("chain step","EndpointExecutor::next, EndpointExecutor::new"),("use in requests","AppServer::resolve_endpoint")],
 [("middleware","middlewares which are still to run","EndpointExecutor.middleware")],["EndpointExecutor::next"])
p("C06","Path parameters bind exactly the text of their segment",
 "For the matched path, the parameters seen by the handler contain, for every ':name' segment, the name mapped to the complete text of the request segment at that position, and nothing else: no binding from branches that were tried and abandoned, none from static or wildcard segments. If one name occurs several times in the path, the first segment with that name is the one bound.",
 ["inputs","histories"],"all accepted registrations x all request paths",
 "Tests never read back bound parameters through the router for more than trivial tries; multi-byte text, repeated names and back-tracking are not reached.",
 [T,"src/context.rs"],[("binding","Node::get_next_node (params.insert)"),("hand-over","AppServer::resolve_endpoint, Context::new, Context::param")],None,["Context::param","RouteValueResult::get_params"])
p("C07","A matched path answers only its registered methods; everything else is 404",
 "If the matched path has a handler for the request's method, exactly that handler is run; if the path matches but has no handler for the method, or no path matches, the response is status 404 with body '404 Not Found' and no middleware or handler runs. A handler registered through get, post, put, patch or delete answers exactly that method.",
 ["inputs","histories"],"all sets of (path, method, handler) registrations x all requests",
 "Tests check method presence on fixed routers and never that the right handler answers or that nothing runs on a 404.",
 ["src/app.rs","src/router/resource.rs","src/router/route.rs","src/router.rs"],[("method table","Resource::add_route, Resource::get_route"),("dispatch","AppServer::resolve_endpoint, page_not_found"),("method registration","Router::get, post, put, patch, delete, insert_route")],None,["HTTP status and body"])
p("C08","The client receives exactly the response the handler chain produced",
 "When the chain succeeds with a response, the HTTP response has exactly that response's status and body and exactly its headers (as far as their values are valid in HTTP), the last value winning for a header that was set repeatedly; when it succeeds without a response, the client gets 200 with an empty body. When the chain fails, the client gets 500 with the text of the error as body; a request is never answered with anything else.",
 ["inputs"],"all responses (status, headers, body) and errors a chain can return",
 "One test checks a 200 response; header transfer, repeated headers, errors and missing responses are not covered.",
 ["src/app.rs","src/error/obsidian_error.rs"],[("conversion","AppServer::resolve_endpoint, page_not_found, internal_server_error"),("error text","ObsidianError Display")],None,["HTTP response"])
p("C09","Response setters change only what they name and lose no header",
 "Setting the status, the body or headers of a response (directly or through the builder obtained from a context) changes exactly that part and leaves the others as they were: a header setter appends the given headers, in the given order, after all headers set before; finishing the builder stores exactly the built response in the same context and leaves request data and parameters untouched. html and json set body and content type together, and a json body that fails to serialize yields status 500. A header name given as a string has to be a valid one.",
 ["inputs","programs"],"all sequences of setter calls on all responses",
 "Tests check single setters with 'contains'; that nothing else changes, and that order is kept, is a frame property over all call sequences.",
 ["src/router/response.rs","src/context.rs"],[("setters","Response::set_status, set_body, set_header, set_headers, set_header_str, set_headers_str, set_content_type, html, json, with_*"),("builder","ResponseBuilder::with_*, ResponseBuilder::ok, Context::build*")],None,["Response accessors","HTTP response"])
p("C10","Plain values become responses with their documented status and content",
 "A string becomes a 200 text/plain response with that body, the unit value an empty 200, a status code an empty response with that status, a (status, value) pair a response with that status and the value as body, without a content type, and a present optional string behaves like the string while an absent one is 404 'Not Found'. A response value is passed through unchanged.",
 ["inputs"],"all values of the types that implement the responder conversion",
 "Tests check the status of two constants.",
 ["src/router/responder.rs","src/router/response_body.rs","src/router/response.rs"],[("conversions","Responder::respond_to impls, Responder::with_status / with_header / with_headers"),("bodies","ResponseBody::into_body impls")],None,["Responder::respond_to"])
p("C11","Static file routes never leave their directory and serve exact bytes",
 "A request to a static route is answered only from the configured directory, which is relative to the working directory (a leading '/' is ignored): the file opened is the directory path followed by the request segments after the virtual path, and no request path, in particular none with '..' segments, makes it read a file outside that directory. An existing file is sent with status 200 and exactly its bytes, text or binary; a missing one, or a path that would leave the directory, is a 404.",
 ["inputs","configurations"],"all request paths x all virtual paths and directories x all file contents",
 "No test serves a static file.",
 ["src/router.rs","src/router/response.rs"],[("path mapping and containment","Router::static_virtual_file_handler, static_dir_file_handler, is_outside_dir"),("reading","Response::file")],None,["bytes and status of the response"])
p("C12","Query and form parsing groups every value under its name in order",
 "Parsing a query string or a form body hands to the target type, for every name with at least one non-empty value, all its non-empty decoded values in order of appearance, and nothing else; names whose values are all empty count as absent. The result depends only on the bytes of the query or body, not on how the body was split into chunks.",
 ["inputs"],"all byte strings as query or body x all ways to chunk the body x all target types",
 "Tests parse two-field bodies delivered in one chunk.",
 ["src/context.rs"],[("grouping","Context::parse_queries"),("whole body","Context::form, Context::query_params, Context::take_body")],None,["Context::form, Context::query_params"])
p("C13","The form deserializer is total and yields every value exactly once in order",
 "Deserializing a map of names to value lists never panics: it yields the target value or an error. A sequence target receives every value of its name exactly once and in order whatever its element type, a scalar target receives the first value parsed by the standard parser of its type (a char: its first character) or an error, an optional target is none exactly for an empty first value, every name is visited once, and an empty value list is an error.",
 ["inputs"],"all maps of names to lists of strings x all target types",
 "Tests deserialize five fixed bodies; panics and skipped values need other element types or empty lists.",
 ["src/router/req_deserializer.rs"],[("sequence cursor","FromSeq::next_element_seed"),("map cursor","FromMap::next_key_seed, next_value_seed"),("scalars","FormValueDeserializer::deserialize_*"),("entry point","from_cow_map")],None,["from_cow_map"])
p("C14","JSON parsing sees the whole body, once",
 "Parsing the request body as JSON gives the same result as the JSON parser on the concatenation of all chunks of the body, an error for malformed input, and never a panic or a value built from a part of the body. The body is consumed: afterwards the request holds an empty body and all other request data is untouched.",
 ["inputs"],"all bodies x all ways to split them into chunks",
 "Tests send one small chunk.",
 ["src/context.rs"],[("whole body","Context::json, Context::take_body")],None,["Context::json"])
p("C15","Mounting a router equals registering its paths under the mount path",
 "After mounting a router at a path, directly or through a scope, a request for the mount path followed by a sub path resolves to the same handlers, parameters and inner middlewares as the sub path does in the mounted router, preceded by the middlewares of the mount path's ancestors. Everything registered before at other paths, mounted under whatever order, is unaffected.",
 ["inputs","histories"],"all pairs of routers, all mount paths, nested mounts, all request paths",
 "One test mounts a single-route router; the grafting on split nodes is never exercised.",
 [T,"src/router.rs","src/app.rs"],[("grafting","RouteTrie::insert_sub_route, Router::use_router, App::use_router, App::scope")],None,["Router::search_route"])
p("C16","Every handler invocation sees the configured application state",
 "If an application state is set, the context given to the first middleware or the handler of every request contains a clone of it under its type; if none is set, nothing is added. Apart from that the context carries the request exactly as received and the bound parameters, with no response set.",
 ["inputs","histories"],"all application states, requests and sequences of requests",
 "The state is never tested.",
 ["src/app.rs","src/context.rs"],[("injection","AppServer::resolve_endpoint (context.add), App::set_app_state, App::listen"),("storage","Context::add, Context::get, Context::new")],None,["Context::get in a handler"])
p("C17","Context accessors return the request data and never disturb each other",
 "Reading a parameter gives the bound text parsed by the target type's standard parser, an error if the text does not parse, and an error, not a panic, if no such parameter exists. Method, uri and headers are those of the request; data added under a type is what is read back under it until replaced; taking the body returns the current body and leaves an empty one, and none of these operations changes any of the other parts of the context.",
 ["inputs","programs"],"all requests, parameter maps, target types and sequences of accessor calls",
 "Tests call each accessor once on fixed values.",
 ["src/context.rs"],[("accessors","Context::param, add, get, get_mut, take_body, headers, method, uri, response, response_mut, take_response")],None,["Context accessors"])
p("C18","Looking up any path terminates without panicking and leaves the router as is",
 "For every router built by accepted registrations and every string used as request path, including empty, slash-only, multi-byte and very long ones, the lookup terminates and returns a result or nothing without panicking. Lookups do not change the router: repeating one gives the same answer.",
 ["inputs","histories"],"all accepted registration sequences x all strings",
 "Tests look up ASCII paths; slicing at character boundaries and removing from an empty segment list panic only for particular combinations.",
 [T],[("index and slice arithmetic","Node::get_next_node, RouteTrie::search_route")],None,["Router::search_route"])
p("C19","The logger middleware is transparent",
 "With the logger in the chain, the rest of the chain receives exactly the context it would receive without it and the result of the chain, success or error, is returned exactly as it came back. This holds also for handlers that set no response and for every request.",
 ["inputs"],"all contexts and all results of the rest of the chain",
 "No test runs a request through the logger.",
 ["src/middleware/logger.rs"],[("logging around the continuation","Logger::handle")],None,["result with and without the logger"])
p("C20","Concurrent requests do not influence each other",
 "The answer to a request depends only on the router, the configured state and the request itself: every answer the server gives is one that the request would be given alone, whatever other requests are handled before it or at the same time, and at whatever points their handlers wait, as far as handlers and middlewares share no state of their own.",
 ["inputs","schedules"],"all requests x all interleavings with other requests on the runtime",
 "Tests run requests one at a time on one thread.",
 ["src/app.rs","src/router/route_trie.rs","src/context.rs"],[("immutable sharing of the router","App::listen, AppServer"),("one request from lookup to answer","AppServer::resolve_endpoint, Router::search_route, Context::new")],None,["HTTP responses"])
p("C21","The server keeps answering after a handler panics or a client disconnects",
 "A panic in a handler or a connection that is dropped half way affects only that connection; all other and later requests are answered normally.",
 ["fault_sequences","schedules"],"all points at which a handler panics or a client disconnects",
 "Tests never start the server.",
 ["src/app.rs"],[("task per connection in hyper / tokio","App::listen")],None,["HTTP responses"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import jsonschema
for x in P:
    jsonschema.validate(x,S); assert len(x['title'])<=80
    print(x['id'],len(x['title']), x['statement'].count('. ')+1)
