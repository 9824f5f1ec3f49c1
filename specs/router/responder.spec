//@for C10
//@path serde_json::to_string = crate::vshim::json_to_string
//@path StatusCode::OK = crate::vshim::sc(200)
//@path StatusCode::NOT_FOUND = crate::vshim::sc(404)
//@path StatusCode::INTERNAL_SERVER_ERROR = crate::vshim::sc(500)
//@method to_string = &crate::vshim::to_text
//@item trait Responder
//@ghost
use crate::vshim::*;
use super::response::{hs, hdr_str};

/// a response with exactly this status, body and headers
pub open spec fn is_response(r: Response, st: StatusCode, body: Seq<u8>, headers: Seq<(header::HeaderName, &'static str)>) -> bool {
    &&& r.status == st
    &&& body_bytes(r.body) == body
    &&& hs(r) == headers
}

pub open spec fn no_headers() -> Seq<(header::HeaderName, &'static str)> {
    Seq::empty()
}

pub open spec fn text_plain() -> (header::HeaderName, &'static str) {
    (header_name("content-type"@), "text/plain; charset=utf-8")
}

//@implghost trait Responder
    /// the response is one this value stands for
    spec fn responds(self, r: Response) -> bool where Self: Sized;
//@fn Responder::respond_to
//@ret r
//@spec
        ensures
            self.responds(r),
//@fn Responder::with_status
//@ret r
//@spec
        ensures
            is_response(r, status, self.body_spec(), no_headers()),
//@fn Responder::with_header
//@ret r
//@spec
        ensures
            is_response(r, status(200), self.body_spec(), no_headers().push((key, value))),
//@fn Responder::with_headers
//@ret r
//@spec
        ensures
            is_response(r, status(200), self.body_spec(), headers@),
//@end
        proof { assert(no_headers() + headers@ =~= headers@); }
//@fn Responder::with_headers_str
//@ret r
//@spec
        ensures
            is_response(r, status(200), self.body_spec(), headers@.map_values(|h: (&'static str, &'static str)| hdr_str(h.0, h.1))),
//@end
        proof {
            let m = headers@.map_values(|h: (&'static str, &'static str)| hdr_str(h.0, h.1));
            assert(no_headers() + m =~= m);
        }
//@implghost Responder for Response
    open spec fn responds(self, r: Response) -> bool {
        r == self
    }
//@fn Responder for Response::respond_to
//@implghost Responder for String
    open spec fn responds(self, r: Response) -> bool {
        is_response(r, status(200), utf8(self@), seq![text_plain()])
    }
//@fn Responder for String::respond_to
//@implghost Responder for &'staticstr
    open spec fn responds(self, r: Response) -> bool {
        is_response(r, status(200), utf8(self@), seq![text_plain()])
    }
//@fn Responder for &'staticstr::respond_to
//@implghost Responder for ()
    open spec fn responds(self, r: Response) -> bool {
        is_response(r, status(200), Seq::empty(), no_headers())
    }
//@fn Responder for ()::respond_to
//@implghost Responder for (StatusCode,T)
    open spec fn responds(self, r: Response) -> bool {
        is_response(r, self.0, self.1.body_spec(), no_headers())
    }
//@fn Responder for (StatusCode,T)::respond_to
//@implghost Responder for Vec<u8>
    open spec fn responds(self, r: Response) -> bool {
        match json_of(self) {
            Ok(t) => is_response(r, status(200), utf8(t), no_headers()),
            Err(e) => is_response(r, status(500), utf8(e), no_headers()),
        }
    }
//@fn Responder for Vec<u8>::respond_to
//@implghost Responder for StatusCode
    open spec fn responds(self, r: Response) -> bool {
        is_response(r, self, Seq::empty(), no_headers())
    }
//@fn Responder for StatusCode::respond_to
//@implghost Responder for Option<String>
    open spec fn responds(self, r: Response) -> bool {
        match self {
            Some(s) => is_response(r, status(200), utf8(s@), seq![text_plain()]),
            None => is_response(r, status(404), utf8("Not Found"@), no_headers()),
        }
    }
//@fn Responder for Option<String>::respond_to
//@implghost Responder for Option<&'staticstr>
    open spec fn responds(self, r: Response) -> bool {
        match self {
            Some(s) => is_response(r, status(200), utf8(s@), seq![text_plain()]),
            None => is_response(r, status(404), utf8("Not Found"@), no_headers()),
        }
    }
//@fn Responder for Option<&'staticstr>::respond_to
