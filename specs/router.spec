//@for C11
//@path StatusCode::NOT_FOUND = crate::vshim::sc(404)
//@path Method::GET = crate::vshim::method_get()
//@path Method::POST = crate::vshim::method_post()
//@path Method::PUT = crate::vshim::method_put()
//@path Method::PATCH = crate::vshim::method_patch()
//@path Method::DELETE = crate::vshim::method_delete()
//@method split = crate::vshim::str_split
//@method to_string = &crate::vshim::to_text
//@method path = crate::vshim::uri_path
//@method join = &crate::vshim::join_texts
//@method iter = &crate::vshim::slice_iter
//@item struct Router
//@ghost
pub use self::response::{hs, hdr_str, file_body};
use crate::vshim::*;
pub use self::route_trie::*;
use std::sync::Arc;

/// a router on which only its public functions have worked
pub open spec fn router_ok(r: Router) -> bool {
    root_ok(r.routes.head)
}

//#if C01 C02 C03 C04 C06 C15
/// the router holds one registration more
pub open spec fn adds(old: Router, new: Router, path: Seq<char>, what: What) -> bool {
    forall|log: Log| #[trigger] holds(old.routes.head, log) ==> holds(new.routes.head, log.push(Reg { path: segs(path), what }))
}

/// the router holds the registrations of `src` below the path as well
pub open spec fn mounts(old: Router, new: Router, path: Seq<char>, src: Router) -> bool {
    forall|log: Log, slog: Log| #[trigger] holds(old.routes.head, log) && #[trigger] holds(src.routes.head, slog) ==> holds(new.routes.head, with_mounted(log, segs(path), slog))
}

/// the answer is the one the registrations ask for
pub open spec fn answers(r: Router, path: Seq<char>, v: Option<RouteValueResult>) -> bool {
    &&& resolved(know(r.routes.head), segs(path), v)
//#if C01 C02 C15
    &&& most_specific(know(r.routes.head), segs(path), found(know(r.routes.head), segs(path)))
//#endif
//#if C04
    &&& v is Some ==> (v->0).route_value.middlewares@ == chain(know(r.routes.head), found(know(r.routes.head), segs(path))->0)
//#endif
//#if C06
    &&& v is Some ==> bound(found(know(r.routes.head), segs(path))->0, segs(path), smap((v->0).params))
//#endif
}
//#endif

#[verifier::external_body]
pub fn trie_clone(t: &RouteTrie) -> (r: RouteTrie)
    ensures
        r == *t,
{
    t.clone()
}

//#if C11
/// stands for the closure `static_virtual_file_handler` returns: each call runs the body extracted
/// as `virtual_file_body` with what `virtual_parts` computed
#[verifier::external_body]
pub struct VirtualHandler {}

/// stands for `static_dir_file_handler`: each call runs the body extracted as `dir_file_body`
#[verifier::external_body]
pub struct DirHandler {}

#[verifier::external]
#[async_trait::async_trait]
impl Handler for VirtualHandler {
    async fn call(&self, ctx: Context) -> ContextResult {
        unimplemented!()
    }
}

#[verifier::external]
#[async_trait::async_trait]
impl Handler for DirHandler {
    async fn call(&self, ctx: Context) -> ContextResult {
        unimplemented!()
    }
}

pub uninterp spec fn virtual_args(h: VirtualHandler) -> (Seq<char>, Seq<char>);

#[verifier::external_body]
pub fn virtual_file_handler(virtual_path: &str, dir_path: &str) -> (r: VirtualHandler)
    ensures
        virtual_args(r) == (virtual_path@, dir_path@),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn dir_file_handler() -> (r: DirHandler)
{
    unimplemented!()
}

/// the route serves files
pub open spec fn static_route(r: Route, virtual_path: Option<Seq<char>>, dir: Seq<char>) -> bool {
    &&& r.method == method("GET"@)
    &&& match virtual_path {
        Some(v) => exists|h: VirtualHandler| virtual_args(h) == (v, dir) && r.handler == #[trigger] handler_of(h),
        None => exists|h: DirHandler| r.handler == #[trigger] handler_of(h),
    }
}
//#endif

/// the registration of a handler with this method
pub open spec fn handler_for<H>(r: Route, m: Method, h: H) -> bool {
    r.method == m && r.handler == handler_of(h)
}

pub proof fn lemma_split_slash(s: Seq<char>)
    ensures
        segs(seq!['/'] + s) == segs(s),
{
    let t = seq!['/'] + s;
    assert(t.drop_first() =~= s);
    let e = seq![Seq::<char>::empty()];
    assert(split(t, '/') == e + split(s, '/'));
    Seq::filter_distributes_over_add(e, split(s, '/'), not_empty());
    assert(e.filter(not_empty()) =~= Seq::<Seq<char>>::empty()) by {
        reveal_with_fuel(Seq::filter, 2);
        assert(e.drop_last() =~= Seq::<Seq<char>>::empty());
    }
    assert(segs(t) =~= segs(s));
}

/// the segments lead out of the directory
pub open spec fn leaves(s: Seq<Seq<char>>) -> bool {
    s.contains(".."@)
}

/// the response of a static route which serves this file
pub open spec fn serves_file(file: Seq<char>, r: Response) -> bool {
    exists|c: Result<Seq<u8>, Seq<char>>| {
        &&& #[trigger] file_read(file, c)
        &&& hs(r).len() == 0
        &&& c is Ok ==> r.status == status(200) && body_bytes(r.body) == c->Ok_0
        &&& c is Err ==> r.status == status(404)
    }
}

/// what a static route answers for the segments of the directory and those below it
pub open spec fn static_answer(ctx: Context, dir: Seq<Seq<char>>, rel: Seq<Seq<char>>, r: ContextResult) -> bool {
    &&& r is Ok
    &&& (r->Ok_0).response is Some
    &&& r->Ok_0 == (Context { response: (r->Ok_0).response, ..ctx })
    &&& if leaves(rel) {
        (r->Ok_0).response->0.status == status(404)
    } else {
        serves_file(join(dir + rel, "/"@), (r->Ok_0).response->0)
    }
}

pub proof fn lemma_no_segs()
    ensures
        segs(Seq::empty()) == Seq::<Seq<char>>::empty(),
{
    let e = seq![Seq::<char>::empty()];
    assert(split(Seq::<char>::empty(), '/') == e);
    reveal_with_fuel(Seq::filter, 2);
    assert(e.drop_last() =~= Seq::<Seq<char>>::empty());
    assert(e.filter(not_empty()) =~= Seq::<Seq<char>>::empty());
}

//@fn Router::new
//@for C01 C02 C03 C04 C06 C07 C11 C15
//@ret r
//@spec
        ensures
            router_ok(r),
//#if C01 C02 C03 C04 C06 C15
            holds(r.routes.head, Seq::empty()),
//#endif
//@fn Clone for Router::clone
//@for C01 C02 C03 C04 C06 C15
//@ret r
//@fmethod clone = &trie_clone
//@spec
        ensures
            r == *self,
//@fn Default for Router::default
//@for C01 C02 C03 C04 C06 C15
//@ret r
//@spec
        ensures
            router_ok(r),
//#if C01 C02 C03 C04 C06 C15
            holds(r.routes.head, Seq::empty()),
//#endif
//@fn Router::insert_route
//@for C01 C02 C07 C11
//@spec
        requires
            router_ok(*old(self)),
        ensures
            router_ok(*final(self)),
//#if C01 C03 C04 C06 C15
            exists|r: Route| r.handler == handler_of(handler) && #[trigger] adds(*old(self), *final(self), path@, What::Handler(r)),
//#endif
//#if C02
            exists|r: Route| handler_for(r, method, handler) && #[trigger] adds(*old(self), *final(self), path@, What::Handler(r)),
//#endif
//#if C07 C11
            exists|r: Route| handler_for(r, method, handler) && #[trigger] told(old(self).routes, final(self).routes, path@, r),
//#endif
//@after "let route"
        let ghost __route = route;
//@finish
        proof {
//#if C01 C02 C03 C04 C06 C15
            assert(adds(*old(self), *self, path@, What::Handler(__route)));
//#endif
//#if C07 C11
            assert(told(old(self).routes, self.routes, path@, __route));
//#endif
        }
//@fn Router::get
//@for C01 C02 C07 C11
//@spec
        requires
            router_ok(*old(self)),
        ensures
            router_ok(*final(self)),
//#if C01 C03 C04 C06 C15
            exists|r: Route| r.handler == handler_of(handler) && #[trigger] adds(*old(self), *final(self), path@, What::Handler(r)),
//#endif
//#if C02
            exists|r: Route| handler_for(r, method("GET"@), handler) && #[trigger] adds(*old(self), *final(self), path@, What::Handler(r)),
//#endif
//#if C07 C11
            exists|r: Route| handler_for(r, method("GET"@), handler) && #[trigger] told(old(self).routes, final(self).routes, path@, r),
//#endif
//@fn Router::post
//@for C01 C02 C07 
//@spec
        requires
            router_ok(*old(self)),
        ensures
            router_ok(*final(self)),
//#if C01 C03 C04 C06 C15
            exists|r: Route| r.handler == handler_of(handler) && #[trigger] adds(*old(self), *final(self), path@, What::Handler(r)),
//#endif
//#if C02
            exists|r: Route| handler_for(r, method("POST"@), handler) && #[trigger] adds(*old(self), *final(self), path@, What::Handler(r)),
//#endif
//#if C07 C11
            exists|r: Route| handler_for(r, method("POST"@), handler) && #[trigger] told(old(self).routes, final(self).routes, path@, r),
//#endif
//@fn Router::put
//@for C01 C02 C07 
//@spec
        requires
            router_ok(*old(self)),
        ensures
            router_ok(*final(self)),
//#if C01 C03 C04 C06 C15
            exists|r: Route| r.handler == handler_of(handler) && #[trigger] adds(*old(self), *final(self), path@, What::Handler(r)),
//#endif
//#if C02
            exists|r: Route| handler_for(r, method("PUT"@), handler) && #[trigger] adds(*old(self), *final(self), path@, What::Handler(r)),
//#endif
//#if C07 C11
            exists|r: Route| handler_for(r, method("PUT"@), handler) && #[trigger] told(old(self).routes, final(self).routes, path@, r),
//#endif
//@fn Router::patch
//@for C01 C02 C07 
//@spec
        requires
            router_ok(*old(self)),
        ensures
            router_ok(*final(self)),
//#if C01 C03 C04 C06 C15
            exists|r: Route| r.handler == handler_of(handler) && #[trigger] adds(*old(self), *final(self), path@, What::Handler(r)),
//#endif
//#if C02
            exists|r: Route| handler_for(r, method("PATCH"@), handler) && #[trigger] adds(*old(self), *final(self), path@, What::Handler(r)),
//#endif
//#if C07 C11
            exists|r: Route| handler_for(r, method("PATCH"@), handler) && #[trigger] told(old(self).routes, final(self).routes, path@, r),
//#endif
//@fn Router::delete
//@for C01 C02 C07 
//@spec
        requires
            router_ok(*old(self)),
        ensures
            router_ok(*final(self)),
//#if C01 C03 C04 C06 C15
            exists|r: Route| r.handler == handler_of(handler) && #[trigger] adds(*old(self), *final(self), path@, What::Handler(r)),
//#endif
//#if C02
            exists|r: Route| handler_for(r, method("DELETE"@), handler) && #[trigger] adds(*old(self), *final(self), path@, What::Handler(r)),
//#endif
//#if C07 C11
            exists|r: Route| handler_for(r, method("DELETE"@), handler) && #[trigger] told(old(self).routes, final(self).routes, path@, r),
//#endif
//@fn Router::use_service_to
//@for C02 C04
//@spec
        requires
            router_ok(*old(self)),
        ensures
            router_ok(*final(self)),
//#if C01 C02 C03 C04 C06 C15
            adds(*old(self), *final(self), path@, What::Around(mw_of(middleware))),
//#endif
//@fn Router::use_service
//@for C02 C04
//@spec
        requires
            router_ok(*old(self)),
        ensures
            router_ok(*final(self)),
//#if C01 C02 C03 C04 C06 C15
            adds(*old(self), *final(self), Seq::empty(), What::Around(mw_of(middleware))),
//#endif
//@finish
        proof {
            lemma_no_segs();
        }
//@fn Router::use_router
//@for C02 C15
//@spec
        requires
            router_ok(*old(self)),
            router_ok(other),
        ensures
            router_ok(*final(self)),
//#if C01 C02 C03 C04 C06 C15
            mounts(*old(self), *final(self), path@, other),
//#endif
//@fn Router::search_route
//@for C01 C04 C06 C07 C15 C16 C18 C20
//@ret r
//@spec
        requires
            router_ok(*self),
        ensures
//#if C01 C02 C03 C04 C06 C15
            answers(*self, path@, r),
//#endif
//#if C07 C16 C20
            resolved(know(self.routes.head), segs(path@), r),
//#endif
            true,
//@fn Router::use_static_to
//@for C11
//@fpath Self::static_virtual_file_handler = virtual_file_handler
//@format
//@fpath String::from = crate::vshim::string_from
//@fmethod push_str = &mut crate::vshim::string_push
//@spec
        requires
            router_ok(*old(self)),
        ensures
            router_ok(*final(self)),
//#if C11
            exists|r: Route| #[trigger] told(old(self).routes, final(self).routes, virtual_path@ + "/*"@, r) && static_route(r, Some(virtual_path@), dir_path@),
//#endif
//@fn Router::use_static
//@for C11
//@format
//@fpath String::from = crate::vshim::string_from
//@fmethod push_str = &mut crate::vshim::string_push
//@fpath Self::static_dir_file_handler = dir_file_handler()
//@spec
        requires
            router_ok(*old(self)),
        ensures
            router_ok(*final(self)),
//#if C11
            exists|r: Route| #[trigger] told(old(self).routes, final(self).routes, dir_path@ + "/*"@, r) && static_route(r, None, dir_path@),
//#endif
//@fn Router::is_outside_dir
//@for C11
//@ret r
//@spec
        ensures
            r == leaves(texts(relative_path@)),
//@closure 0 |$0: &String| -> (b: bool)
            ensures
                b == (($0)@ == ".."@),
//@end
        proof {
            lemma_texts_contains(relative_path@, ".."@);
        }
//@extract dir_file_body from Router::static_dir_file_handler
//@fmethod file = response::file_body
//@subst Self:: => Router::
//@sig
pub async fn dir_file_body(ctx: Context) -> (r: ContextResult)
//@spec
    ensures
        static_answer(ctx, Seq::empty(), segs(path_of(req(ctx.request).uri)), r),
//@closure 0 |$0: &&str| -> (b: bool)
            ensures
                b == (($0)@.len() > 0),
//@closure 1 |$0: &str| -> (t: String)
            ensures
                t@ == ($0)@,
//@after "let relative_path"
        proof {
            let p = path_of(req(ctx.request).uri);
            assert(split(p, '/').filter(not_empty()) == segs(p));
            assert(texts(relative_path@) =~= segs(p));
            assert(Seq::<Seq<char>>::empty() + segs(p) =~= segs(p));
        }
//@extract virtual_parts from Router::static_virtual_file_handler
//@tail (dir_path, virtual_path_len)
//@sig
pub fn virtual_parts(virtual_path: &str, dir_path: &str) -> (r: (Vec<String>, usize))
//@spec
    ensures
        texts(r.0@) == segs(dir_path@),
        r.1 == segs(virtual_path@).len(),
//@closure 0 |$0: &&str| -> (b: bool)
            ensures
                b == (($0)@.len() > 0),
//@closure 1 |$0: &str| -> (t: String)
            ensures
                t@ == ($0)@,
//@closure 2 |$0: &&str| -> (b: bool)
            ensures
                b == (($0)@.len() > 0),
//@start
        let ghost __d = dir_path@;
//@end
        proof {
            assert(split(__d, '/').filter(not_empty()) == segs(__d));
            assert(split(virtual_path@, '/').filter(not_empty()) == segs(virtual_path@));
            assert(texts(dir_path@) =~= segs(__d));
        }
//@extract virtual_file_body from Router::static_virtual_file_handler closure 3
//@fmethod file = response::file_body
//@fmethod clone = &clone_texts
//@subst Self:: => Router::
//@subst Box::pin(async move { => ({
//@sig
pub async fn virtual_file_body(ctx: Context, dir_path: Vec<String>, virtual_path_len: usize) -> (r: ContextResult)
//@spec
    ensures
        static_answer(
            ctx,
            texts(dir_path@),
            segs(path_of(req(ctx.request).uri)).skip(
                if virtual_path_len <= segs(path_of(req(ctx.request).uri)).len() {
                    virtual_path_len as int
                } else {
                    segs(path_of(req(ctx.request).uri)).len() as int
                },
            ),
            r,
        ),
//@start
        let ghost __d = texts(dir_path@);
//@closure 0 |$0: &&str| -> (b: bool)
            ensures
                b == (($0)@.len() > 0),
//@closure 1 |$0: &str| -> (t: String)
            ensures
                t@ == ($0)@,
//@after "let mut relative_path"
        let ghost __rel = texts(relative_path@);
        proof {
            let p = path_of(req(ctx.request).uri);
            assert(split(p, '/').filter(not_empty()) == segs(p));
            assert(__rel =~= segs(p).skip(if virtual_path_len <= segs(p).len() { virtual_path_len as int } else { segs(p).len() as int }));
        }
//@after "dir_path.append("
            proof {
                assert(texts(dir_path@) =~= __d + __rel);
            }
