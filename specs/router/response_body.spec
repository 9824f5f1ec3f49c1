//@for C09 C10
//@path Body::from = crate::vshim::body_from
//@path Body::empty = crate::vshim::body_empty
//@path serde_json::to_string = crate::vshim::json_to_string
//@method to_string = &crate::vshim::to_text
//@item trait ResponseBody
//@implghost trait ResponseBody
    /// the bytes the value stands for as a body
    spec fn body_spec(self) -> Seq<u8> where Self: Sized;
//@ghost
use crate::vshim::*;

//@fn ResponseBody::into_body
//@ret r
//@spec
        ensures
            body_bytes(r) == self.body_spec(),
//@implghost ResponseBody for ()
    open spec fn body_spec(self) -> Seq<u8> {
        Seq::empty()
    }
//@fn ResponseBody for ()::into_body
//@implghost ResponseBody for &'staticstr
    open spec fn body_spec(self) -> Seq<u8> {
        utf8(self@)
    }
//@fn ResponseBody for &'staticstr::into_body
//@implghost ResponseBody for String
    open spec fn body_spec(self) -> Seq<u8> {
        utf8(self@)
    }
//@fn ResponseBody for String::into_body
//@implghost ResponseBody for Vec<u8>
    open spec fn body_spec(self) -> Seq<u8> {
        match json_of(self) {
            Ok(t) => utf8(t),
            Err(e) => utf8(e),
        }
    }
//@fn ResponseBody for Vec<u8>::into_body
