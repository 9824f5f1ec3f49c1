//@for C17
//@path StatusCode::OK = crate::vshim::sc(200)
//@path body::to_bytes = crate::vshim::to_bytes
//@path serde_json::from_slice = crate::vshim::json_from_slice
//@path Body::empty = crate::vshim::body_empty
//@item struct Context
//@item struct ResponseBuilder
//@ghost
use crate::vshim::*;
use crate::router::hs;
use crate::router::hdr_str;

/// the same context with another response
pub open spec fn with_response(c: Context, r: Option<Response>) -> Context {
    Context { response: r, ..c }
}

/// only the request differs
pub open spec fn same_but_request(a: Context, b: Context) -> bool {
    a.params_data == b.params_data && a.response == b.response
}

//@fn Context::new
//@for C06 C16 C17 C20
//@ret r
//@spec
        ensures
            r.request == request,
            r.params_data == params_data,
            r.response is None,
//@fn Context::headers
//@ret r
//@spec
        ensures
            *r == req(self.request).headers,
//@fn Context::headers_mut
//@ret r
//@spec
        ensures
            *r == req(old(self).request).headers,
            same_but_request(*final(self), *old(self)),
            req(final(self).request) == (Req { headers: *final(r), ..req(old(self).request) }),
//@fn Context::method
//@ret r
//@spec
        ensures
            *r == req(self.request).method,
//@fn Context::uri
//@ret r
//@spec
        ensures
            *r == req(self.request).uri,
//@fn Context::extensions
//@ret r
//@spec
        ensures
            *r == req(self.request).ext,
//@fn Context::extensions_mut
//@ret r
//@spec
        ensures
            *r == req(old(self).request).ext,
            same_but_request(*final(self), *old(self)),
            req(final(self).request) == (Req { ext: *final(r), ..req(old(self).request) }),
//@fn Context::add
//@for C16 C17 C20
//@fmethod insert = crate::vshim::ext_insert
//@spec
        ensures
            same_but_request(*final(self), *old(self)),
            req(final(self).request) == (Req { ext: ext_with(req(old(self).request).ext, ctx_data), ..req(old(self).request) }),
            ext_get::<T>(req(final(self).request).ext) == Some(ctx_data),
//@start
        proof { axiom_ext::<T>(req(self.request).ext, ctx_data); }
//@fn Context::get
//@for C16 C17
//@fmethod get = crate::vshim::ext_read
//@ret r
//@spec
        ensures
            r is Some <==> ext_get::<T>(req(self.request).ext) is Some,
            r is Some ==> Some(*r->0) == ext_get::<T>(req(self.request).ext),
//@fn Context::get_mut
//@fmethod get_mut = crate::vshim::ext_read_mut
//@ret r
//@spec
        ensures
            same_but_request(*final(self), *old(self)),
            r is Some <==> ext_get::<T>(req(old(self).request).ext) is Some,
            r is None ==> req(final(self).request) == req(old(self).request),
            r is Some ==> {
                &&& Some(*r->0) == ext_get::<T>(req(old(self).request).ext)
                &&& req(final(self).request) == (Req { ext: ext_with(req(old(self).request).ext, *final(r->0)), ..req(old(self).request) })
            },
//@fn Context::param
//@for C06 C17
//@fmethod get = &crate::vshim::smap_get
//@fmethod parse = crate::vshim::parse_text
//@ret r
//@spec
        ensures
            !smap(self.params_data).contains_key(key@) ==> r is Err,
            smap(self.params_data).contains_key(key@) ==> match parse_of::<T>(smap(self.params_data)[key@]) {
                Ok(v) => r == Ok::<T, ObsidianError>(v),
                Err(_) => r is Err,
            },
//@fn Context::take_body
//@for C12 C14 C17
//@ret r
//@spec
        ensures
            r == req(old(self).request).body,
            same_but_request(*final(self), *old(self)),
            req(final(self).request) == (Req { body: req(final(self).request).body, ..req(old(self).request) }),
            body_bytes(req(final(self).request).body) == Seq::<u8>::empty(),
//@fn Context::take_response
//@for C08 C17 C20
//@ret r
//@spec
        ensures
            r == self.response,
//@fn Context::response
//@ret r
//@spec
        ensures
            *r == self.response,
//@fn Context::response_mut
//@ret r
//@spec
        ensures
            *r == old(self).response,
            *final(self) == with_response(*old(self), *final(r)),
//@fn Context::build
//@for C09
//@ret r
//@spec
        ensures
            r.ctx == self,
            res.responds(r.response),
//@fn Context::build_json
//@for C09
//@ret r
//@spec
        ensures
            r.ctx == self,
            hs(r.response) == seq![(header_name("content-type"@), "application/json")],
            json_of(body) is Ok ==> body_bytes(r.response.body) == utf8(json_of(body)->Ok_0) && r.response.status == status(200),
            json_of(body) is Err ==> r.response.status == status(500),
//@fn ResponseBuilder::new
//@for C09
//@ret r
//@spec
        ensures
            r.ctx == ctx,
            r.response == response,
//@fn ResponseBuilder::with_status
//@for C09
//@ret r
//@spec
        ensures
            r.ctx == self.ctx,
            r.response == (Response { status: status, ..self.response }),
//@fn ResponseBuilder::with_header
//@for C09
//@ret r
//@spec
        ensures
            r.ctx == self.ctx,
            hs(r.response) == hs(self.response).push((key, value)),
            r.response == (Response { headers: r.response.headers, ..self.response }),
//@fn ResponseBuilder::with_header_str
//@for C09
//@ret r
//@spec
        ensures
            r.ctx == self.ctx,
            hs(r.response) == hs(self.response).push(hdr_str(key, value)),
            r.response == (Response { headers: r.response.headers, ..self.response }),
//@fn ResponseBuilder::with_headers
//@for C09
//@ret r
//@spec
        ensures
            r.ctx == self.ctx,
            hs(r.response) == hs(self.response) + headers@,
            r.response == (Response { headers: r.response.headers, ..self.response }),
//@fn ResponseBuilder::with_headers_str
//@for C09
//@ret r
//@spec
        ensures
            r.ctx == self.ctx,
            hs(r.response) == hs(self.response) + headers@.map_values(|h: (&'static str, &'static str)| hdr_str(h.0, h.1)),
            r.response == (Response { headers: r.response.headers, ..self.response }),
//@fn ResponseBuilder::ok
//@for C09
//@ret r
//@spec
        ensures
            r == Ok::<Context, ObsidianError>(with_response(self.ctx, Some(self.response))),
//@extract json_body from Context::json
//@for C14
//@sig
pub async fn json_body<T: DeserializeOwned>(this: &mut Context) -> (r: Result<T, ObsidianError>)
//@spec
    ensures
        same_but_request(*final(this), *old(this)),
        req(final(this).request) == (Req { body: req(final(this).request).body, ..req(old(this).request) }),
        body_bytes(req(final(this).request).body) == Seq::<u8>::empty(),
        body_breaks(req(old(this).request).body) ==> r is Err,
        !body_breaks(req(old(this).request).body) ==> match json_parse::<T>(body_bytes(req(old(this).request).body)) {
            Ok(v) => r == Ok::<T, ObsidianError>(v),
            Err(e) => r is Err,
        },
//@extract form_body from Context::form
//@for C12
//@subst Self:: => Context::
//@sig
pub async fn form_body<T: DeserializeOwned>(this: &mut Context) -> (r: Result<T, ObsidianError>)
//@spec
    ensures
        same_but_request(*final(this), *old(this)),
        req(final(this).request) == (Req { body: req(final(this).request).body, ..req(old(this).request) }),
        body_bytes(req(final(this).request).body) == Seq::<u8>::empty(),
        body_breaks(req(old(this).request).body) ==> r is Err,
        !body_breaks(req(old(this).request).body) ==> parsed_form(body_bytes(req(old(this).request).body), r),
//@fn Context::query_params
//@for C12
//@fmethod query = crate::vshim::uri_query
//@fmethod as_bytes = crate::vshim::utf8_bytes
//@ret r
//@spec
        ensures
            *final(self) == *old(self),
            parsed_form(utf8(query_of(req(old(self).request).uri)), r),
//@fn Context::parse_queries
//@for C12
//@path form_urlencoded::parse = crate::vshim::form_parse
//@path std::borrow::Cow::from = crate::vshim::cow_from
//@path HashMap::default = crate::vshim::hmap_new
//@path HashMap::<Cow<str>,Cow<[String]>>::default = crate::vshim::hmap_new
//@fmethod iter = &crate::vshim::hmap_iter
//@chain entry.or_insert_with = crate::vshim::entry_or_insert_with
//@ret r
//@spec
        ensures
            parsed_form(query@, r),
//@loop 0
            invariant
                0 <= __k <= form_pairs(query@).len(),
                __it0@ == form_pairs(query@).skip(__k),
                fmap(parsed_form_map) =~= grouped(form_pairs(query@).take(__k)),
                fmap(cow_form_map) =~= Map::<Seq<char>, Seq<Seq<char>>>::empty(),
            ensures
                __k == form_pairs(query@).len(),
            decreases __it0@.len(),
//@loopbefore 0
        let ghost mut __k: int = 0;
        proof {
            assert(form_pairs(query@).skip(0) =~= form_pairs(query@));
            assert(form_pairs(query@).take(0) =~= Seq::empty());
        }
//@loopstart 0
            proof {
                let p = form_pairs(query@);
                assert(p.skip(__k).drop_first() =~= p.skip(__k + 1));
                assert(p.take(__k + 1).drop_last() =~= p.take(__k));
                assert(p.take(__k + 1).last() == p[__k]);
                assert(p.skip(__k)[0] == p[__k]);
                __k = __k + 1;
                lemma_texts();
                assert(Seq::empty().push(p[__k - 1].1) =~= seq![p[__k - 1].1]);
            }
//@loop 1
            invariant
                0 <= __j <= __es.len(),
                __it1@ == __es.skip(__j),
                entries_of(__es, grouped(form_pairs(query@))),
                forall|n: Seq<char>| #[trigger] fmap(cow_form_map).contains_key(n) <==> exists|i: int| 0 <= i < __j && (#[trigger] __es[i]).0 == n,
                forall|i: int| 0 <= i < __j ==> fmap(cow_form_map)[(#[trigger] __es[i]).0] == __es[i].1,
            ensures
                __j == __es.len(),
            decreases __it1@.len(),
//@loopbefore 1
        let ghost mut __j: int = 0;
        proof {
            let p = form_pairs(query@);
            assert(p.take(p.len() as int) =~= p);
        }
//@loopinit 1
        let ghost __es = __it1@;
        proof { assert(__es.skip(0) =~= __es); }
//@loopstart 1
            proof {
                assert(__es.skip(__j).drop_first() =~= __es.skip(__j + 1));
                assert(__es.skip(__j)[0] == __es[__j]);
                __j = __j + 1;
            }
//@closure 0 || -> (r: Cow<[String]>)
                    ensures
                        r.vals() == texts(val@),
//@end
        proof {
            assert(fmap(cow_form_map) =~= grouped(form_pairs(query@)));
            axiom_fmap_with(cow_form_map);
        }
//@ghost
/// `r` is what the value lists of the form deserialize to
pub open spec fn parsed_form<T>(bytes: Seq<u8>, r: Result<T, ObsidianError>) -> bool {
    exists|d: Result<T, crate::router::FormError>| {
        &&& #[trigger] form_decodes::<T>(grouped(form_pairs(bytes)), d)
        &&& d is Ok ==> r == Ok::<T, ObsidianError>(d->Ok_0)
        &&& d is Err ==> r is Err
    }
}
//@extract build_file_body from Context::build_file
//@for C09 C11
//@fmethod file = crate::router::file_body
//@sig
pub async fn build_file_body(this: Context, file_path: &str) -> (r: ResponseBuilder)
//@spec
    ensures
        r.ctx == this,
        hs(r.response) == Seq::<(HeaderName, &'static str)>::empty(),
        exists|c: Result<Seq<u8>, Seq<char>>| {
            &&& #[trigger] file_read(file_path@, c)
            &&& c is Ok ==> body_bytes(r.response.body) == c->Ok_0 && r.response.status == status(200)
            &&& c is Err ==> body_bytes(r.response.body) == utf8(c->Err_0) && r.response.status == status(404)
        },
