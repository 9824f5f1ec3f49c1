//@for C09
//@path Body::from = crate::vshim::body_from
//@path Body::empty = crate::vshim::body_empty
//@path serde_json::to_string = crate::vshim::json_to_string
//@path StatusCode::OK = crate::vshim::sc(200)
//@path StatusCode::CREATED = crate::vshim::sc(201)
//@path StatusCode::NOT_FOUND = crate::vshim::sc(404)
//@path StatusCode::INTERNAL_SERVER_ERROR = crate::vshim::sc(500)
//@path header::CONTENT_TYPE = crate::vshim::hdr_content_type()
//@path header::HeaderName::from_bytes = crate::vshim::header_from_bytes
//@path fs::read = crate::vshim::fs_read
//@method to_string = &crate::vshim::to_text
//@method as_bytes = crate::vshim::str_bytes
//@method unwrap = crate::vshim::unwrap_may_panic
//@method extend_from_slice = crate::vshim::vec_extend
//@method iter = &crate::vshim::slice_iter
//@method map = crate::vshim::slice_map
//@method collect = crate::vshim::map_collect
//@item struct Response
//@ghost
use crate::vshim::*;

pub open spec fn hs(r: Response) -> Seq<(header::HeaderName, &'static str)> {
    match r.headers {
        Some(v) => v@,
        None => Seq::empty(),
    }
}

/// the header a name and a value given as strings stand for
pub open spec fn hdr_str(k: &'static str, v: &'static str) -> (header::HeaderName, &'static str) {
    (header_name(k@), v)
}

//@fn Response::new
//@for C09 C10
//@ret r
//@spec
        ensures
            body_bytes(r.body) == body.body_spec(),
            r.status == status(200),
            hs(r) == Seq::<(header::HeaderName, &'static str)>::empty(),
//@fn Response::status
//@for C09 C20
//@ret r
//@spec
        ensures
            r == self.status,
//@fn Response::status_mut
//@ret r
//@spec
        ensures
            *r == old(self).status,
            *final(self) == (Response { status: *final(r), ..*old(self) }),
//@fn Response::body
//@for C09 C20
//@ret r
//@spec
        ensures
            r == self.body,
//@fn Response::headers
//@for C09 C20
//@ret r
//@spec
        ensures
            *r == self.headers,
//@fn Response::headers_mut
//@ret r
//@spec
        ensures
            *r == old(self).headers,
            *final(self) == (Response { headers: *final(r), ..*old(self) }),
//@fn Response::with_status
//@for C09 C10
//@ret r
//@spec
        ensures
            r == (Response { status: status, ..self }),
//@fn Response::set_status
//@for C09 C10
//@ret r
//@spec
        ensures
            r == (Response { status: status, ..self }),
//@fn Response::set_body
//@ret r
//@spec
        ensures
            body_bytes(r.body) == body.body_spec(),
            r == (Response { body: r.body, ..self }),
//@fn Response::set_header
//@for C09 C10
//@ret r
//@spec
        ensures
            hs(r) == hs(self).push((key, value)),
            r == (Response { headers: r.headers, ..self }),
//@fn Response::with_header
//@ret r
//@spec
        ensures
            hs(r) == hs(self).push((key, value)),
            r == (Response { headers: r.headers, ..self }),
//@fn Response::set_header_str
//@ret r
//@spec
        ensures
            hs(r) == hs(self).push(hdr_str(key, value)),
            r == (Response { headers: r.headers, ..self }),
//@fn Response::with_header_str
//@ret r
//@spec
        ensures
            hs(r) == hs(self).push(hdr_str(key, value)),
            r == (Response { headers: r.headers, ..self }),
//@fn Response::set_content_type
//@for C09 C10
//@ret r
//@spec
        ensures
            hs(r) == hs(self).push((header_name("content-type"@), content_type)),
            r == (Response { headers: r.headers, ..self }),
//@fn Response::set_headers
//@ret r
//@spec
        ensures
            hs(r) == hs(self) + headers@,
            r == (Response { headers: r.headers, ..self }),
//@fn Response::with_headers
//@ret r
//@spec
        ensures
            hs(r) == hs(self) + headers@,
            r == (Response { headers: r.headers, ..self }),
//@fn Response::set_headers_str
//@ret r
//@spec
        ensures
            hs(r) == hs(self) + headers@.map_values(|h: (&'static str, &'static str)| hdr_str(h.0, h.1)),
            r == (Response { headers: r.headers, ..self }),
//@closure 0 |$0: &(&'static str, &'static str)| -> (r: (header::HeaderName, &'static str))
            ensures
                r == hdr_str(($0).0, ($0).1),
//@fn Response::with_headers_str
//@ret r
//@spec
        ensures
            hs(r) == hs(self) + headers@.map_values(|h: (&'static str, &'static str)| hdr_str(h.0, h.1)),
            r == (Response { headers: r.headers, ..self }),
//@fn Response::html
//@ret r
//@spec
        ensures
            body_bytes(r.body) == body.body_spec(),
            hs(r) == hs(self).push((header_name("content-type"@), "text/html")),
            r.status == self.status,
//@fn Response::json
//@ret r
//@spec
        ensures
            hs(r) == hs(self).push((header_name("content-type"@), "application/json")),
            json_of(body) is Ok ==> body_bytes(r.body) == utf8(json_of(body)->Ok_0) && r.status == self.status,
            json_of(body) is Err ==> r.status == status(500),
//@fn Response::ok
//@for C09 C10
//@ret r
//@spec
        ensures
            body_bytes(r.body) == Seq::<u8>::empty(),
            r.status == status(200),
            hs(r) == Seq::<(header::HeaderName, &'static str)>::empty(),
//@fn Response::created
//@for C09 C10
//@ret r
//@spec
        ensures
            body_bytes(r.body) == Seq::<u8>::empty(),
            r.status == status(201),
            hs(r) == Seq::<(header::HeaderName, &'static str)>::empty(),
//@fn Response::internal_server_error
//@for C09 C10
//@ret r
//@spec
        ensures
            body_bytes(r.body) == Seq::<u8>::empty(),
            r.status == status(500),
            hs(r) == Seq::<(header::HeaderName, &'static str)>::empty(),
//@extract file_body from Response::file
//@for C09 C11
//@sig
pub async fn file_body(this: Response, file_path: &str) -> (r: Response)
//@spec
    ensures
        hs(r) == hs(this),
        exists|c: Result<Seq<u8>, Seq<char>>| {
            &&& #[trigger] file_read(file_path@, c)
            &&& c is Ok ==> body_bytes(r.body) == c->Ok_0 && r.status == this.status
            &&& c is Err ==> body_bytes(r.body) == utf8(c->Err_0) && r.status == status(404)
        },
