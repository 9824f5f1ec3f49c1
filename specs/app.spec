//@for C05
//@item struct EndpointExecutor
//@item struct App
//@item struct AppServer
//@path StatusCode::OK = crate::vshim::sc(200)
//@path StatusCode::NOT_FOUND = crate::vshim::sc(404)
//@path StatusCode::INTERNAL_SERVER_ERROR = crate::vshim::sc(500)
//@path Body::from = crate::vshim::body_from
//@path Response::builder = crate::vshim::builder_new
//@path header::HeaderValue::from_static = crate::vshim::header_value
//@method to_string = &crate::vshim::to_text
//@method handle = crate::vshim::mw_handle
//@method call = crate::vshim::handler_call

//@fn EndpointExecutor::new
//@for C05 C20
//@ret r
//@spec
    ensures
        r.route_endpoint == route_endpoint,
        r.middleware@ == middleware@,
//@extract next_body from EndpointExecutor::next
//@for C05 C20
//@sig
pub async fn next_body<'a>(this: EndpointExecutor<'a>, context: Context) -> (r: ContextResult)
//@spec
    ensures
        this.middleware@.len() == 0 ==> crate::vshim::called(*this.route_endpoint, context, r),
        this.middleware@.len() > 0 ==> crate::vshim::handled(
            this.middleware@[0],
            context,
            *this.route_endpoint,
            this.middleware@.skip(1),
            r,
        ),

//@ghost
use crate::vshim::*;
#[allow(unused_imports)]
use crate::router::{router_ok, handler_for, lemma_split_slash, Route, hs};
//#if C01 C02 C03 C04 C06 C15
#[allow(unused_imports)]
use crate::router::{adds, mounts, What};
//#endif
#[allow(unused_imports)]
use crate::router::told;
#[allow(unused_imports)]
use crate::router::{resolved, know};

pub open spec fn is_404(r: Response<Body>) -> bool {
    &&& resp(r).status == status(404)
    &&& body_bytes(resp(r).body) == utf8("404 Not Found"@)
    &&& resp(r).headers == no_http_headers()
}

/// the continuation of `mws` and the endpoint gives `r` for the context
pub open spec fn chain_gives(endpoint: Arc<dyn Handler>, mws: Seq<Arc<dyn Middleware>>, ctx: Context, r: ContextResult) -> bool {
    if mws.len() == 0 {
        called(endpoint, ctx, r)
    } else {
        handled(mws[0], ctx, endpoint, mws.skip(1), r)
    }
}

/// the answer to the outcome of the chain
pub open spec fn answer_of(c: ContextResult, r: Response<Body>) -> bool {
    match c {
        Ok(ctx) => match ctx.response {
            Some(p) => {
                &&& resp(r).status == p.status
                &&& resp(r).body == p.body
                &&& resp(r).headers == sent_headers(crate::router::hs(p))
            },
            None => {
                &&& resp(r).status == status(200)
                &&& body_bytes(resp(r).body) == utf8(""@)
                &&& resp(r).headers == no_http_headers()
            },
        },
        Err(e) => {
            &&& resp(r).status == status(500)
            &&& body_bytes(resp(r).body) == utf8(e.text_spec())
            &&& resp(r).headers == no_http_headers()
        },
    }
}

/// the context the chain of a request starts with
pub open spec fn start_ctx<T>(c: Context, rq: Request<Body>, rv: RouteValueResult, state: Option<T>) -> bool {
    &&& c.response is None
    &&& smap(c.params_data) == smap(rv.params)
    &&& match state {
        Some(s) => {
            &&& req(c.request) == (Req { ext: ext_with(req(rq).ext, s), ..req(rq) })
            &&& ext_get::<T>(req(c.request).ext) == Some(s)
        },
        None => c.request == rq,
    }
}

/// the answer to a request for which `route_value` was found
pub open spec fn answered<T>(rq: Request<Body>, route_value: Option<RouteValueResult>, app_state: Option<T>, r: Response<Body>) -> bool {
    match route_value {
        None => {
            &&& true
//#ifnot C08 C16
            &&& is_404(r)
//#endif
        },
        Some(rv) => {
            let routes = rmap(rv.route_value.route.route_map);
            let m = crate::vshim::req(rq).method;
            if routes.contains_key(m) {
                exists|ctx: Context, c: ContextResult| {
                    &&& #[trigger] chain_gives(routes[m].handler, rv.route_value.middlewares@, ctx, c)
//#if C16 C20
                    &&& start_ctx(ctx, rq, rv, app_state)
//#endif
//#if C08 C20
                    &&& answer_of(c, r)
//#endif
                }
            } else {
                &&& true
//#ifnot C08 C16
                &&& is_404(r)
//#endif
            }
        },
    }
}

//#if C01 C04 C06 C07 C16 C20
/// a clone of the state
pub open spec fn same_state<T: Clone>(a: Option<T>, b: Option<T>) -> bool {
    match a {
        Some(x) => b is Some && cloned::<T>(x, b->0),
        None => b is None,
    }
}
//#endif

//#if C20
/// `r` is an answer the request gets on its own: what the router, the request and the configured state allow.
/// Nothing else occurs in it, so no other request does.
pub open spec fn alone<T: Clone>(router: Router, app_state: Option<T>, rq: Request<Body>, r: Response<Body>) -> bool {
    exists|rv: Option<RouteValueResult>, st: Option<T>| {
        &&& #[trigger] resolved(know(router.routes.head), segs(path_of(crate::vshim::req(rq).uri)), rv)
        &&& same_state(app_state, st)
        &&& #[trigger] answered(rq, rv, st, r)
    }
}

/// the lookup leaves no choice: what one lookup finds is as good as what any other finds
pub proof fn lemma_alone<T: Clone>(router: Router, rq: Request<Body>, a: Option<RouteValueResult>, b: Option<RouteValueResult>, st: Option<T>, r: Response<Body>)
    requires
        resolved(know(router.routes.head), segs(path_of(crate::vshim::req(rq).uri)), a),
        resolved(know(router.routes.head), segs(path_of(crate::vshim::req(rq).uri)), b),
        answered(rq, a, st, r),
    ensures
        answered(rq, b, st, r),
{
    if a is Some && rmap((a->0).route_value.route.route_map).contains_key(crate::vshim::req(rq).method) {
        let m = crate::vshim::req(rq).method;
        let h = rmap((a->0).route_value.route.route_map)[m].handler;
        let (ctx, c) = choose|ctx: Context, c: ContextResult| {
            &&& #[trigger] chain_gives(h, (a->0).route_value.middlewares@, ctx, c)
            &&& start_ctx(ctx, rq, a->0, st)
            &&& answer_of(c, r)
        };
        assert(chain_gives(rmap((b->0).route_value.route.route_map)[m].handler, (b->0).route_value.middlewares@, ctx, c));
        assert(start_ctx(ctx, rq, b->0, st));
    }
}
//#endif

//@fn App::new
//@for C01 C02 C03 C04 C06 C07 C15 C16
//@ret r
//@spec
    ensures
        router_ok(r.router),
        r.app_state is None,
//#if C01 C02 C03 C04 C06 C15
        crate::router::holds(r.router.routes.head, Seq::empty()),
//#endif
//@fn Default for App<T>::default
//@for C04
//@ret r
//@spec
    ensures
        router_ok(r.router),
        r.app_state is None,
//#if C04
        exists|m: Logger, e: Router| {
            &&& crate::router::holds(e.routes.head, Seq::empty())
            &&& #[trigger] adds(e, r.router, Seq::empty(), What::Around(mw_of(m)))
        },
//#endif
//@fn App::get
//@for C01 C02 C07
//@spec
    requires
        router_ok(old(self).router),
    ensures
        router_ok(final(self).router),
        final(self).app_state == old(self).app_state,
//#if C01 C03 C04 C06 C15
        exists|r: Route| r.handler == handler_of(handler) && #[trigger] adds(old(self).router, final(self).router, path@, What::Handler(r)),
//#endif
//#if C02
        exists|r: Route| handler_for(r, method("GET"@), handler) && #[trigger] adds(old(self).router, final(self).router, path@, What::Handler(r)),
//#endif
//#if C07
        exists|r: Route| handler_for(r, method("GET"@), handler) && #[trigger] told(old(self).router.routes, final(self).router.routes, path@, r),
//#endif
//@fn App::post
//@for C01 C02 C07
//@spec
    requires
        router_ok(old(self).router),
    ensures
        router_ok(final(self).router),
        final(self).app_state == old(self).app_state,
//#if C01 C03 C04 C06 C15
        exists|r: Route| r.handler == handler_of(handler) && #[trigger] adds(old(self).router, final(self).router, path@, What::Handler(r)),
//#endif
//#if C02
        exists|r: Route| handler_for(r, method("POST"@), handler) && #[trigger] adds(old(self).router, final(self).router, path@, What::Handler(r)),
//#endif
//#if C07
        exists|r: Route| handler_for(r, method("POST"@), handler) && #[trigger] told(old(self).router.routes, final(self).router.routes, path@, r),
//#endif
//@fn App::put
//@for C01 C02 C07
//@spec
    requires
        router_ok(old(self).router),
    ensures
        router_ok(final(self).router),
        final(self).app_state == old(self).app_state,
//#if C01 C03 C04 C06 C15
        exists|r: Route| r.handler == handler_of(handler) && #[trigger] adds(old(self).router, final(self).router, path@, What::Handler(r)),
//#endif
//#if C02
        exists|r: Route| handler_for(r, method("PUT"@), handler) && #[trigger] adds(old(self).router, final(self).router, path@, What::Handler(r)),
//#endif
//#if C07
        exists|r: Route| handler_for(r, method("PUT"@), handler) && #[trigger] told(old(self).router.routes, final(self).router.routes, path@, r),
//#endif
//@fn App::patch
//@for C01 C02 C07
//@spec
    requires
        router_ok(old(self).router),
    ensures
        router_ok(final(self).router),
        final(self).app_state == old(self).app_state,
//#if C01 C03 C04 C06 C15
        exists|r: Route| r.handler == handler_of(handler) && #[trigger] adds(old(self).router, final(self).router, path@, What::Handler(r)),
//#endif
//#if C02
        exists|r: Route| handler_for(r, method("PATCH"@), handler) && #[trigger] adds(old(self).router, final(self).router, path@, What::Handler(r)),
//#endif
//#if C07
        exists|r: Route| handler_for(r, method("PATCH"@), handler) && #[trigger] told(old(self).router.routes, final(self).router.routes, path@, r),
//#endif
//@fn App::delete
//@for C01 C02 C07
//@spec
    requires
        router_ok(old(self).router),
    ensures
        router_ok(final(self).router),
        final(self).app_state == old(self).app_state,
//#if C01 C03 C04 C06 C15
        exists|r: Route| r.handler == handler_of(handler) && #[trigger] adds(old(self).router, final(self).router, path@, What::Handler(r)),
//#endif
//#if C02
        exists|r: Route| handler_for(r, method("DELETE"@), handler) && #[trigger] adds(old(self).router, final(self).router, path@, What::Handler(r)),
//#endif
//#if C07
        exists|r: Route| handler_for(r, method("DELETE"@), handler) && #[trigger] told(old(self).router.routes, final(self).router.routes, path@, r),
//#endif
//@fn App::use_service_to
//@for C02 C04
//@spec
    requires
        router_ok(old(self).router),
    ensures
        router_ok(final(self).router),
        final(self).app_state == old(self).app_state,
//#if C01 C02 C03 C04 C06 C15
        adds(old(self).router, final(self).router, path@, What::Around(mw_of(middleware))),
//#endif
//@fn App::use_service
//@for C02 C04
//@spec
    requires
        router_ok(old(self).router),
    ensures
        router_ok(final(self).router),
        final(self).app_state == old(self).app_state,
//#if C01 C02 C03 C04 C06 C15
        adds(old(self).router, final(self).router, Seq::empty(), What::Around(mw_of(middleware))),
//#endif
//@fn App::use_router
//@for C02 C15
//@spec
    requires
        router_ok(old(self).router),
        router_ok(router),
    ensures
        router_ok(final(self).router),
        final(self).app_state == old(self).app_state,
//#if C01 C02 C03 C04 C06 C15
        mounts(old(self).router, final(self).router, path@, router),
//#endif
//@fn App::scope
//@for C15
//@format
//@fcall scoped_routes = crate::vshim::run_scope
//@fmethod as_ref = &crate::vshim::string_ref
//@spec
    requires
        router_ok(old(self).router),
    ensures
        router_ok(final(self).router),
        final(self).app_state == old(self).app_state,
//#if C01 C02 C03 C04 C06 C15
        exists|inner: Router| scoped(scoped_routes, inner) && #[trigger] mounts(old(self).router, final(self).router, name@, inner),
//#endif
//@after "scoped_routes("
        let ghost __inner = new_router;
//@finish
        proof {
            reveal_strlit("/");
            assert("/"@ =~= seq!['/']);
            assert("/"@ + name@ =~= seq!['/'] + name@);
            lemma_split_slash(name@);
//#if C01 C02 C03 C04 C06 C15
            assert(mounts(old(self).router, self.router, name@, __inner));
//#endif
        }
//@fn App::set_app_state
//@for C16
//@spec
    ensures
        final(self).router == old(self).router,
        final(self).app_state == Some(app_state),
//@fn page_not_found
//@for C07 C20
//@ret r
//@fpath Response::new = crate::vshim::http_response
//@spec
    ensures
        is_404(r),
//@fn internal_server_error
//@for C08 C20
//@fmethod unwrap = crate::vshim::unwrap_sure
//@fmethod to_string = &crate::vshim::any_text
//@fmethod status/1 = crate::vshim::builder_status
//@fmethod body/1 = crate::vshim::builder_body
//@ret r
//@spec
    ensures
        resp(r).status == status(500),
        body_bytes(resp(r).body) == utf8(err_text(err)),
        resp(r).headers == no_http_headers(),
//@extract resolve_body from AppServer::resolve_endpoint
//@for C01 C04 C06 C07 C08 C15 C16 C20
//@fmethod unwrap_or_else = crate::vshim::unwrap_or_else
//@fmethod next = crate::app::next_body
//@fmethod iter = &crate::vshim::slice_iter
//@fmethod insert/2 = crate::vshim::hdr_insert
//@fmethod status/1 = crate::vshim::builder_status
//@fmethod body/1 = crate::vshim::builder_body
//@sig
pub async fn resolve_body<T>(req: Request<Body>, route_value: Option<RouteValueResult>, app_state: Option<T>) -> (r: Result<Response<Body>, hyper::Error>)
    where T: Send + Sync + 'static,
//@spec
    ensures
        r is Ok,
        answered(req, route_value, app_state, r->Ok_0),
//@start
//#if C08 C20
        proof {
            crate::vshim::axiom_err_text();
        }
//#endif
//@loop 0
            invariant
                __it0@ == __hs.skip(__k),
                0 <= __k <= __hs.len(),
//#if C08 C20
                hmv(*response_headers) == sent_headers(__hs.take(__k)),
//#endif
            ensures
                __hs.take(__k) == __hs,
            decreases __it0@.len(),
//@loopinit 0
        let ghost __hs = __it0@;
        let ghost mut __k: int = 0;
        proof {
            assert(__hs.skip(0) =~= __hs);
            assert(__hs.take(0) =~= Seq::empty());
        }
//@loopstart 0
            proof {
                assert(__hs.skip(__k).drop_first() =~= __hs.skip(__k + 1));
                assert(__hs.skip(__k)[0] == __hs[__k]);
                assert(__hs.take(__k + 1).drop_last() =~= __hs.take(__k));
                __k = __k + 1;
            }
//@before "let route_result"
                let ghost __ctx = context;
//@after "let route_result"
                proof {
                    assert(chain_gives(route.handler, middlewares@, __ctx, route_result));
//#if C16 C20
                    assert(start_ctx(__ctx, req, route_value, app_state));
//#endif
                }
//@fn App::use_static_to
//@for C11
//@spec
    requires
        router_ok(old(self).router),
    ensures
        router_ok(final(self).router),
        final(self).app_state == old(self).app_state,
//#if C11
        exists|r: Route| #[trigger] told(old(self).router.routes, final(self).router.routes, virtual_path@ + "/*"@, r) && crate::router::static_route(r, Some(virtual_path@), dir_path@),
//#endif
//@fn App::use_static
//@for C11
//@spec
    requires
        router_ok(old(self).router),
    ensures
        router_ok(final(self).router),
        final(self).app_state == old(self).app_state,
//#if C11
        exists|r: Route| #[trigger] told(old(self).router.routes, final(self).router.routes, dir_path@ + "/*"@, r) && crate::router::static_route(r, None, dir_path@),
//#endif
//@extract listen_answer from App::listen closure 1
//@for C01 C04 C06 C07 C16 C20
//@tailawait
//@fpath AppServer::resolve_endpoint = crate::app::resolve_body
//@fmethod path = crate::vshim::uri_path
//@sig
pub async fn listen_answer<T>(req: Request<Body>, server_clone: AppServer, app_state: Option<T>) -> (r: Result<Response<Body>, hyper::Error>)
    where T: Clone + Send + Sync + 'static,
//@spec
    requires
        router_ok(server_clone.router),
    ensures
        r is Ok,
//#if C01 C04 C06 C07 C16
        exists|rv: Option<RouteValueResult>, st: Option<T>| {
            &&& #[trigger] resolved(know(server_clone.router.routes.head), segs(path_of(crate::vshim::req(req).uri)), rv)
            &&& same_state(app_state, st)
            &&& #[trigger] answered(req, rv, st, r->Ok_0)
        },
//#endif
//#if C20
        alone(server_clone.router, app_state, req, r->Ok_0),
//#endif
