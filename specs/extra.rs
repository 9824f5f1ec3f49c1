//! Contracts of library functions which the unchanged source does not use. Woven in only when the verifier
//! cannot read a changed source without them.
use vstd::prelude::*;
use crate::vshim::*;

verus! {
/// a pattern of the functions of `str`
pub enum PatV {
    Char(char),
    Text(Seq<char>),
}

pub trait Pat {
    spec fn pat(&self) -> PatV;
}

impl Pat for char {
    open spec fn pat(&self) -> PatV {
        PatV::Char(*self)
    }
}

impl<'a> Pat for &'a str {
    open spec fn pat(&self) -> PatV {
        PatV::Text(self@)
    }
}

impl<'a> Pat for &'a String {
    open spec fn pat(&self) -> PatV {
        PatV::Text((**self)@)
    }
}

impl<'a, 'b> Pat for &'b &'a str {
    open spec fn pat(&self) -> PatV {
        PatV::Text((**self)@)
    }
}

pub open spec fn plen(p: PatV) -> nat {
    match p {
        PatV::Char(c) => 1,
        PatV::Text(t) => t.len(),
    }
}

pub open spec fn starts(s: Seq<char>, p: PatV) -> bool {
    match p {
        PatV::Char(c) => s.len() > 0 && s[0] == c,
        PatV::Text(t) => t.len() <= s.len() && s.take(t.len() as int) == t,
    }
}

pub open spec fn ends(s: Seq<char>, p: PatV) -> bool {
    match p {
        PatV::Char(c) => s.len() > 0 && s.last() == c,
        PatV::Text(t) => t.len() <= s.len() && s.skip(s.len() - t.len()) == t,
    }
}

pub open spec fn without_start(s: Seq<char>, p: PatV) -> Seq<char>
    decreases s.len(),
{
    if plen(p) > 0 && plen(p) <= s.len() && starts(s, p) {
        without_start(s.skip(plen(p) as int), p)
    } else {
        s
    }
}

pub open spec fn without_end(s: Seq<char>, p: PatV) -> Seq<char>
    decreases s.len(),
{
    if plen(p) > 0 && plen(p) <= s.len() && ends(s, p) {
        without_end(s.take(s.len() - plen(p)), p)
    } else {
        s
    }
}

pub open spec fn holds_pat(s: Seq<char>, p: PatV) -> bool {
    exists|i: int| 0 <= i <= s.len() && starts(#[trigger] s.skip(i), p)
}

#[verifier::external_body]
pub fn starts_with<A: Text + ?Sized, P: Pat>(s: &A, p: P) -> (b: bool)
    ensures
        b == starts(s.text_spec(), p.pat()),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn ends_with<A: Text + ?Sized, P: Pat>(s: &A, p: P) -> (b: bool)
    ensures
        b == ends(s.text_spec(), p.pat()),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn contains<A: Text + ?Sized, P: Pat>(s: &A, p: P) -> (b: bool)
    ensures
        b == holds_pat(s.text_spec(), p.pat()),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn strip_prefix<'a, A: Text + ?Sized, P: Pat>(s: &'a A, p: P) -> (r: Option<&'a str>)
    ensures
        r is Some <==> starts(s.text_spec(), p.pat()),
        r is Some ==> (r->0)@ == s.text_spec().skip(plen(p.pat()) as int),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn strip_suffix<'a, A: Text + ?Sized, P: Pat>(s: &'a A, p: P) -> (r: Option<&'a str>)
    ensures
        r is Some <==> ends(s.text_spec(), p.pat()),
        r is Some ==> (r->0)@ == s.text_spec().take(s.text_spec().len() - plen(p.pat())),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn trim_start_matches<'a, A: Text + ?Sized, P: Pat>(s: &'a A, p: P) -> (r: &'a str)
    ensures
        r@ == without_start(s.text_spec(), p.pat()),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn trim_end_matches<'a, A: Text + ?Sized, P: Pat>(s: &'a A, p: P) -> (r: &'a str)
    ensures
        r@ == without_end(s.text_spec(), p.pat()),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn trim_matches<'a, A: Text + ?Sized, P: Pat>(s: &'a A, p: P) -> (r: &'a str)
    ensures
        r@ == without_end(without_start(s.text_spec(), p.pat()), p.pat()),
{
    unimplemented!()
}

/// without the white space around it
pub uninterp spec fn trimmed(s: Seq<char>, start: bool, end: bool) -> Seq<char>;

#[verifier::external_body]
pub fn trim<'a, A: Text + ?Sized>(s: &'a A) -> (r: &'a str)
    ensures
        r@ == trimmed(s.text_spec(), true, true),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn trim_start<'a, A: Text + ?Sized>(s: &'a A) -> (r: &'a str)
    ensures
        r@ == trimmed(s.text_spec(), true, false),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn trim_end<'a, A: Text + ?Sized>(s: &'a A) -> (r: &'a str)
    ensures
        r@ == trimmed(s.text_spec(), false, true),
{
    unimplemented!()
}

pub uninterp spec fn cased(s: Seq<char>, kind: int) -> Seq<char>;

#[verifier::external_body]
pub fn to_lowercase<A: Text + ?Sized>(s: &A) -> (r: String)
    ensures
        r@ == cased(s.text_spec(), 0),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn to_uppercase<A: Text + ?Sized>(s: &A) -> (r: String)
    ensures
        r@ == cased(s.text_spec(), 1),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn to_ascii_lowercase<A: Text + ?Sized>(s: &A) -> (r: String)
    ensures
        r@ == cased(s.text_spec(), 2),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn to_ascii_uppercase<A: Text + ?Sized>(s: &A) -> (r: String)
    ensures
        r@ == cased(s.text_spec(), 3),
{
    unimplemented!()
}

impl Text for char {
    open spec fn text_spec(&self) -> Seq<char> {
        seq![*self]
    }
}

pub uninterp spec fn same_but_case(a: Seq<char>, b: Seq<char>) -> bool;

#[verifier::external_body]
pub fn eq_ignore_ascii_case<A: Text + ?Sized, B: Text + ?Sized>(a: &A, b: &B) -> (r: bool)
    ensures
        r == same_but_case(a.text_spec(), b.text_spec()),
        a.text_spec() == b.text_spec() ==> r,
{
    unimplemented!()
}

pub uninterp spec fn replaced(s: Seq<char>, p: PatV, t: Seq<char>, n: Option<int>) -> Seq<char>;

#[verifier::external_body]
pub fn replace<A: Text + ?Sized, P: Pat>(s: &A, p: P, t: &str) -> (r: String)
    ensures
        r@ == replaced(s.text_spec(), p.pat(), t@, None),
        !holds_pat(s.text_spec(), p.pat()) ==> r@ == s.text_spec(),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn replacen<A: Text + ?Sized, P: Pat>(s: &A, p: P, t: &str, n: usize) -> (r: String)
    ensures
        r@ == replaced(s.text_spec(), p.pat(), t@, Some(n as int)),
        !holds_pat(s.text_spec(), p.pat()) ==> r@ == s.text_spec(),
{
    unimplemented!()
}

pub uninterp spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>;

#[verifier::external_body]
pub fn lines<'a, A: Text + ?Sized>(s: &'a A) -> (r: StrIter<'a>)
    ensures
        r@ == lines_of(s.text_spec()),
{
    unimplemented!()
}

// ---------------------------------------------------------------- http
#[verifier::external_body]
pub fn method_const(n: &str) -> (r: http::Method)
    ensures
        r == method(n@),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn header_const(n: &str) -> (r: http::header::HeaderName)
    ensures
        r == header_name(n@),
{
    unimplemented!()
}

pub uninterp spec fn code_of(s: http::StatusCode) -> int;

pub assume_specification[ http::StatusCode::as_u16 ](s: &http::StatusCode) -> (r: u16)
    ensures
        r == code_of(*s),
;

pub assume_specification[ http::StatusCode::is_success ](s: &http::StatusCode) -> (r: bool)
    ensures
        r == (200 <= code_of(*s) < 300),
;

pub assume_specification[ http::StatusCode::is_client_error ](s: &http::StatusCode) -> (r: bool)
    ensures
        r == (400 <= code_of(*s) < 500),
;

pub assume_specification[ http::StatusCode::is_server_error ](s: &http::StatusCode) -> (r: bool)
    ensures
        r == (500 <= code_of(*s) < 600),
;

pub assume_specification[ <http::StatusCode as std::cmp::PartialEq>::eq ](a: &http::StatusCode, b: &http::StatusCode) -> (r: bool)
    ensures
        r == (*a == *b),
;

pub assume_specification[ <http::Method as std::cmp::PartialEq>::eq ](a: &http::Method, b: &http::Method) -> (r: bool)
    ensures
        r == (*a == *b),
;

pub assume_specification<'a>[ <http::Method as std::cmp::PartialEq<&'a http::Method>>::eq ](a: &http::Method, b: &&'a http::Method) -> (r: bool)
    ensures
        r == (*a == **b),
;

pub assume_specification<'a>[ <&'a http::Method as std::cmp::PartialEq<http::Method>>::eq ](a: &&'a http::Method, b: &http::Method) -> (r: bool)
    ensures
        r == (**a == *b),
;

pub uninterp spec fn method_name(m: http::Method) -> Seq<char>;

pub assume_specification[ http::Method::as_str ](m: &http::Method) -> (r: &str)
    ensures
        r@ == method_name(*m),
;

pub assume_specification[ <http::header::HeaderName as std::cmp::PartialEq>::eq ](a: &http::header::HeaderName, b: &http::header::HeaderName) -> (r: bool)
    ensures
        r == (*a == *b),
;

pub assume_specification[ hyper::body::Bytes::len ](b: &hyper::body::Bytes) -> (r: usize)
    ensures
        r == bytes_of(*b).len(),
;

pub assume_specification[ hyper::body::Bytes::is_empty ](b: &hyper::body::Bytes) -> (r: bool)
    ensures
        r == (bytes_of(*b).len() == 0),
;


// ---------------------------------------------------------------- further functions of the standard library
pub assume_specification<T>[ std::mem::drop::<T> ](t: T)
;

pub assume_specification<T: ?Sized>[ std::mem::needs_drop::<T> ]() -> (r: bool)
;

pub assume_specification<T, U>[ Option::<T>::and ](o: Option<T>, p: Option<U>) -> (r: Option<U>)
    ensures
        r == (if o is Some { p } else { None }),
;

pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures
        r == (if o is Some { o } else { p }),
;

pub assume_specification<T>[ Option::<T>::xor ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures
        r == (if o is Some && p is None { o } else if o is None && p is Some { p } else { None }),
;

pub assume_specification<T, U>[ Option::<T>::zip ](o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>)
    ensures
        r == (if o is Some && p is Some { Some((o->0, p->0)) } else { None }),
;

pub assume_specification<T>[ Option::<Option<T>>::flatten ](o: Option<Option<T>>) -> (r: Option<T>)
    ensures
        r == (if o is Some { o->0 } else { None }),
;

pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures
        r == (if o is Some { Some(*o->0) } else { None }),
;

pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, t: T) -> (r: Option<T>)
    ensures
        r == *old(o),
        *final(o) == Some(t),
;

pub assume_specification<T, P: FnOnce(&T) -> bool>[ Option::<T>::filter::<P> ](o: Option<T>, p: P) -> (r: Option<T>)
    requires
        o is Some ==> p.requires((&o->0,)),
    ensures
        o is None ==> r is None,
        r is Some ==> r == o && p.ensures((&o->0,), true),
        o is Some && r is None ==> p.ensures((&o->0,), false),
;

pub assume_specification<T, P: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](o: Option<T>, p: P) -> (r: bool)
    requires
        o is Some ==> p.requires((o->0,)),
    ensures
        o is None ==> !r,
        o is Some ==> p.ensures((o->0,), r),
;

pub assume_specification<T, F: FnOnce() -> Option<T>>[ Option::<T>::or_else::<F> ](o: Option<T>, f: F) -> (r: Option<T>)
    requires
        o is None ==> f.requires(()),
    ensures
        o is Some ==> r == o,
        o is None ==> f.ensures((), r),
;

pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[ Option::<T>::map_or_else::<U, D, F> ](o: Option<T>, d: D, f: F) -> (r: U)
    requires
        o is None ==> d.requires(()),
        o is Some ==> f.requires((o->0,)),
    ensures
        o is None ==> d.ensures((), r),
        o is Some ==> f.ensures((o->0,), r),
;

pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](o: Result<T, E>, t: T) -> (r: T)
    ensures
        r == (if o is Ok { o->Ok_0 } else { t }),
;

pub assume_specification<T, E, F: FnOnce(E) -> T>[ Result::<T, E>::unwrap_or_else::<F> ](o: Result<T, E>, f: F) -> (r: T)
    requires
        o is Err ==> f.requires((o->Err_0,)),
    ensures
        o is Ok ==> r == o->Ok_0,
        o is Err ==> f.ensures((o->Err_0,), r),
;

pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[ Result::<T, E>::and_then::<U, F> ](o: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires
        o is Ok ==> f.requires((o->Ok_0,)),
    ensures
        o is Err ==> r is Err && r->Err_0 == o->Err_0,
        o is Ok ==> f.ensures((o->Ok_0,), r),
;

pub assume_specification<T, E, O, F: FnOnce(E) -> Result<T, O>>[ Result::<T, E>::or_else::<O, F> ](o: Result<T, E>, f: F) -> (r: Result<T, O>)
    requires
        o is Err ==> f.requires((o->Err_0,)),
    ensures
        o is Ok ==> r is Ok && r->Ok_0 == o->Ok_0,
        o is Err ==> f.ensures((o->Err_0,), r),
;

pub assume_specification<T>[ <[T]>::split_last ](s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures
        s@.len() == 0 <==> r is None,
        r is Some ==> *(r->0).0 == s@.last() && (r->0).1@ == s@.drop_last(),
;

pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], a: usize, b: usize)
    requires
        a < old(s)@.len(),
        b < old(s)@.len(),
    ensures
        final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]),
;

pub assume_specification[ char::is_alphabetic ](c: char) -> (r: bool)
;

pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool)
    ensures
        r == ('0' <= *c && *c <= '9'),
;

pub assume_specification[ char::is_ascii_alphanumeric ](c: &char) -> (r: bool)
    ensures
        r == (('0' <= *c && *c <= '9') || ('a' <= *c && *c <= 'z') || ('A' <= *c && *c <= 'Z')),
;

pub assume_specification[ char::is_numeric ](c: char) -> (r: bool)
;
pub assume_specification[ char::is_alphanumeric ](c: char) -> (r: bool)
;
pub assume_specification[ char::is_control ](c: char) -> (r: bool)
;
pub assume_specification[ usize::is_power_of_two ](c: usize) -> (r: bool)
;

#[verifier::external_body]
pub fn arc_ptr_eq<T: ?Sized>(a: &std::sync::Arc<T>, b: &std::sync::Arc<T>) -> (r: bool)
    ensures
        r ==> *a == *b,
{
    unimplemented!()
}

#[verifier::external_body]
pub fn vec_dedup<T>(v: &mut Vec<T>)
    ensures
        final(v)@.len() <= old(v)@.len(),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, f: F)
    ensures
        final(v)@.len() <= old(v)@.len(),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn min_usize(a: usize, b: usize) -> (r: usize)
    ensures
        r == if a <= b { a } else { b },
{
    unimplemented!()
}

#[verifier::external_body]
pub fn max_usize(a: usize, b: usize) -> (r: usize)
    ensures
        r == if a <= b { b } else { a },
{
    unimplemented!()
}

// ---------------------------------------------------------------- further functions of http
pub assume_specification[ http::StatusCode::is_redirection ](s: &http::StatusCode) -> (r: bool)
    ensures
        r == (300 <= code_of(*s) < 400),
;

pub assume_specification[ http::StatusCode::is_informational ](s: &http::StatusCode) -> (r: bool)
    ensures
        r == (100 <= code_of(*s) < 200),
;

pub assume_specification<T: Send + Sync + 'static>[ http::Extensions::insert::<T> ](e: &mut http::Extensions, t: T) -> (r: Option<T>)
    ensures
        r == ext_get::<T>(*old(e)),
        *final(e) == ext_with(*old(e), t),
;

pub assume_specification[ http::Extensions::clear ](e: &mut http::Extensions)
;

pub assume_specification[ http::Extensions::len ](e: &http::Extensions) -> (r: usize)
;

pub assume_specification[ http::Extensions::is_empty ](e: &http::Extensions) -> (r: bool)
;

pub assume_specification<T>[ http::HeaderMap::<T>::len ](m: &http::HeaderMap<T>) -> (r: usize)
;

pub assume_specification<T>[ http::HeaderMap::<T>::is_empty ](m: &http::HeaderMap<T>) -> (r: bool)
;

pub assume_specification<T>[ http::HeaderMap::<T>::clear ](m: &mut http::HeaderMap<T>)
;

pub assume_specification<T, K: http::header::AsHeaderName>[ http::HeaderMap::<T>::get::<K> ](m: &http::HeaderMap<T>, k: K) -> (r: Option<&T>)
;

pub assume_specification<T, K: http::header::AsHeaderName>[ http::HeaderMap::<T>::contains_key::<K> ](m: &http::HeaderMap<T>, k: K) -> (r: bool)
;

pub assume_specification<T, K: http::header::AsHeaderName>[ http::HeaderMap::<T>::remove::<K> ](m: &mut http::HeaderMap<T>, k: K) -> (r: Option<T>)
;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExToStrError(http::header::ToStrError);

pub assume_specification[ http::HeaderValue::to_str ](v: &http::HeaderValue) -> (r: Result<&str, http::header::ToStrError>)
;

pub assume_specification[ http::HeaderValue::as_bytes ](v: &http::HeaderValue) -> (r: &[u8])
;

pub assume_specification[ http::HeaderValue::is_empty ](v: &http::HeaderValue) -> (r: bool)
;

pub assume_specification[ http::HeaderValue::len ](v: &http::HeaderValue) -> (r: usize)
;

pub assume_specification<T>[ http::Request::<T>::version ](v: &http::Request<T>) -> (r: http::Version)
;

pub assume_specification[ http::Uri::host ](v: &http::Uri) -> (r: Option<&str>)
;

// ---------------------------------------------------------------- bytes and texts
#[verifier::external_body]
pub fn json_from_str<T: serde::de::DeserializeOwned>(s: &str) -> (r: Result<T, serde_json::Error>)
    ensures
        r == json_parse::<T>(vstd::utf8::encode_utf8(s@)),
{
    unimplemented!()
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);

#[verifier::external_body]
pub fn from_utf8(b: &[u8]) -> (r: Result<&str, std::str::Utf8Error>)
    ensures
        r is Ok ==> vstd::utf8::encode_utf8((r->Ok_0)@) == b@,
        (exists|t: Seq<char>| vstd::utf8::encode_utf8(t) == b@) ==> r is Ok,
{
    unimplemented!()
}

pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;

#[verifier::external_body]
pub fn from_utf8_lossy(b: &[u8]) -> (r: String)
    ensures
        r@ == lossy(b@),
        forall|t: Seq<char>| #[trigger] vstd::utf8::encode_utf8(t) == b@ ==> r@ == t,
{
    unimplemented!()
}

// ---------------------------------------------------------------- options and vectors
#[verifier::external_body]
pub fn opt_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> (r: &mut T)
    requires
        f.requires(()),
    ensures
        (*old(o)) is Some ==> *r == (*old(o))->0,
        (*old(o)) is None ==> f.ensures((), *r),
        *final(o) == Some(*final(r)),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn vec_reverse<T>(v: &mut Vec<T>)
    ensures
        final(v)@ == old(v)@.reverse(),
{
    unimplemented!()
}

/// what a vector is extended with
pub trait Items<T> {
    spec fn items(&self) -> Seq<T>;
}

impl<T> Items<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> {
        self@
    }
}

#[verifier::external_body]
pub fn extend<T, I: Items<T>>(v: &mut Vec<T>, w: I)
    ensures
        final(v)@ == old(v)@ + w.items(),
{
    unimplemented!()
}

// ---------------------------------------------------------------- iterators
pub open spec fn first<T>(s: Seq<T>, n: int) -> Seq<T> {
    if n <= s.len() {
        s.take(n)
    } else {
        s
    }
}

pub open spec fn without<T>(s: Seq<T>, n: int) -> Seq<T> {
    if n <= s.len() {
        s.skip(n)
    } else {
        Seq::empty()
    }
}

impl<'a> CharIter<'a> {
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: CharIter<'a>)
        ensures
            r@ == first(self@, n as int),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: CharIter<'a>)
        ensures
            r@ == without(self@, n as int),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn rev(self) -> (r: CharIter<'a>)
        ensures
            r@ == self@.reverse(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures
            r == self@.len(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn last(self) -> (r: Option<char>)
        ensures
            r == (if self@.len() > 0 { Some(self@.last()) } else { None }),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<char>)
        ensures
            r == (if n < old(self)@.len() { Some(old(self)@[n as int]) } else { None }),
            final(self)@ == without(old(self)@, n + 1),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn zip<'b>(self, o: CharIter<'b>) -> (r: CharZip<'a, 'b>)
        ensures
            r@ == (self@, o@),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn any<F: Fn(char) -> bool>(&mut self, f: F) -> (r: bool)
        requires
            forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((#[trigger] old(self)@[i],)),
        ensures
            r ==> exists|i: int| 0 <= i < old(self)@.len() && f.ensures((#[trigger] old(self)@[i],), true),
            !r ==> forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[i],), false),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn all<F: Fn(char) -> bool>(&mut self, f: F) -> (r: bool)
        requires
            forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((#[trigger] old(self)@[i],)),
        ensures
            !r ==> exists|i: int| 0 <= i < old(self)@.len() && f.ensures((#[trigger] old(self)@[i],), false),
            r ==> forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[i],), true),
    {
        unimplemented!()
    }
}

/// `a.zip(b)` for characters
#[verifier::external_body]
pub struct CharZip<'a, 'b>(std::iter::Zip<std::str::Chars<'a>, std::str::Chars<'b>>);

impl<'a, 'b> View for CharZip<'a, 'b> {
    type V = (Seq<char>, Seq<char>);
    uninterp spec fn view(&self) -> (Seq<char>, Seq<char>);
}

impl<'a, 'b> CharZip<'a, 'b> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(char, char)>)
        ensures
            old(self)@.0.len() == 0 || old(self)@.1.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.0.len() > 0 && old(self)@.1.len() > 0 ==> {
                &&& r == Some((old(self)@.0[0], old(self)@.1[0]))
                &&& final(self)@ == (old(self)@.0.drop_first(), old(self)@.1.drop_first())
            },
    {
        unimplemented!()
    }
}

impl<'a> StrIter<'a> {
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: StrIter<'a>)
        ensures
            r@ == first(self@, n as int),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn rev(self) -> (r: StrIter<'a>)
        ensures
            r@ == self@.reverse(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn last(self) -> (r: Option<&'a str>)
        ensures
            r is Some <==> self@.len() > 0,
            r is Some ==> (r->0)@ == self@.last(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<&'a str>)
        ensures
            r is Some <==> n < old(self)@.len(),
            r is Some ==> (r->0)@ == old(self)@[n as int],
            final(self)@ == without(old(self)@, n + 1),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn any<F: Fn(&'a str) -> bool>(&mut self, f: F) -> (r: bool)
        requires
            forall|s: &'a str| f.requires((s,)),
        ensures
            forall|p: spec_fn(Seq<char>) -> bool| #![trigger old(self)@.filter(p)] (forall|s: &'a str, b: bool| f.ensures((s,), b) ==> b == p(s@)) ==> r == (exists|i: int| 0 <= i < old(self)@.len() && p(#[trigger] old(self)@[i])),
    {
        unimplemented!()
    }
}

impl<'a, T> SliceIter<'a, T> {
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: SliceIter<'a, T>)
        ensures
            r@ == first(self@, n as int),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: SliceIter<'a, T>)
        ensures
            r@ == without(self@, n as int),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn rev(self) -> (r: SliceIter<'a, T>)
        ensures
            r@ == self@.reverse(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures
            r == self@.len(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn last(self) -> (r: Option<&'a T>)
        ensures
            r is Some <==> self@.len() > 0,
            r is Some ==> *r->0 == self@.last(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn all<F: Fn(&'a T) -> bool>(self, f: F) -> (r: bool)
        requires
            forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures
            !r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((&#[trigger] self@[i],), false),
            r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((&#[trigger] self@[i],), true),
    {
        unimplemented!()
    }

    /// `it.filter(f)`; which elements are kept is said for every one of them
    #[verifier::external_body]
    pub fn filter<F: Fn(&&'a T) -> bool>(self, f: F) -> (r: SliceIter<'a, T>)
        requires
            forall|i: int| 0 <= i < self@.len() ==> f.requires((&&#[trigger] self@[i],)),
        ensures
            forall|p: spec_fn(T) -> bool| (forall|t: &'a T, b: bool| f.ensures((&t,), b) ==> b == p(*t)) ==> r@ == #[trigger] self@.filter(p),
            (forall|i: int| 0 <= i < self@.len() ==> !f.ensures((&&#[trigger] self@[i],), false)) ==> r@ == self@,
    {
        unimplemented!()
    }
}

impl<'a> FormIter<'a> {
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: FormIter<'a>)
        ensures
            r@ == first(self@, n as int),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: FormIter<'a>)
        ensures
            r@ == without(self@, n as int),
    {
        unimplemented!()
    }
}
} // verus!

verus! {
/// `&x[a..]` and `&x[..b]`
pub trait Cut {
    type Out: ?Sized;

    spec fn can_cut(&self, i: usize) -> bool;

    spec fn is_from(&self, i: usize, r: &Self::Out) -> bool;

    spec fn is_to(&self, i: usize, r: &Self::Out) -> bool;

    fn cut_from(&self, i: usize) -> (r: &Self::Out)
        requires
            self.can_cut(i),
        ensures
            self.is_from(i, r),
    ;

    fn cut_to(&self, i: usize) -> (r: &Self::Out)
        requires
            self.can_cut(i),
        ensures
            self.is_to(i, r),
    ;
}

pub open spec fn boundary(s: Seq<char>, i: usize) -> bool {
    exists|k: int| 0 <= k <= s.len() && i == #[trigger] blen(s.take(k))
}

pub open spec fn text_from(s: Seq<char>, i: usize, r: Seq<char>) -> bool {
    forall|k: int| 0 <= k <= s.len() && i == #[trigger] blen(s.take(k)) ==> r == s.skip(k)
}

pub open spec fn text_to(s: Seq<char>, i: usize, r: Seq<char>) -> bool {
    forall|k: int| 0 <= k <= s.len() && i == #[trigger] blen(s.take(k)) ==> r == s.take(k)
}

impl Cut for str {
    type Out = str;

    open spec fn can_cut(&self, i: usize) -> bool {
        boundary(self@, i)
    }

    open spec fn is_from(&self, i: usize, r: &str) -> bool {
        text_from(self@, i, r@)
    }

    open spec fn is_to(&self, i: usize, r: &str) -> bool {
        text_to(self@, i, r@)
    }

    #[verifier::external_body]
    fn cut_from(&self, i: usize) -> (r: &str) {
        &self[i..]
    }

    #[verifier::external_body]
    fn cut_to(&self, i: usize) -> (r: &str) {
        &self[..i]
    }
}

impl Cut for String {
    type Out = str;

    open spec fn can_cut(&self, i: usize) -> bool {
        boundary(self@, i)
    }

    open spec fn is_from(&self, i: usize, r: &str) -> bool {
        text_from(self@, i, r@)
    }

    open spec fn is_to(&self, i: usize, r: &str) -> bool {
        text_to(self@, i, r@)
    }

    #[verifier::external_body]
    fn cut_from(&self, i: usize) -> (r: &str) {
        &self[i..]
    }

    #[verifier::external_body]
    fn cut_to(&self, i: usize) -> (r: &str) {
        &self[..i]
    }
}

impl<T> Cut for [T] {
    type Out = [T];

    open spec fn can_cut(&self, i: usize) -> bool {
        i <= self@.len()
    }

    open spec fn is_from(&self, i: usize, r: &[T]) -> bool {
        r@ == self@.skip(i as int)
    }

    open spec fn is_to(&self, i: usize, r: &[T]) -> bool {
        r@ == self@.take(i as int)
    }

    #[verifier::external_body]
    fn cut_from(&self, i: usize) -> (r: &[T]) {
        &self[i..]
    }

    #[verifier::external_body]
    fn cut_to(&self, i: usize) -> (r: &[T]) {
        &self[..i]
    }
}

impl<T> Cut for Vec<T> {
    type Out = [T];

    open spec fn can_cut(&self, i: usize) -> bool {
        i <= self@.len()
    }

    open spec fn is_from(&self, i: usize, r: &[T]) -> bool {
        r@ == self@.skip(i as int)
    }

    open spec fn is_to(&self, i: usize, r: &[T]) -> bool {
        r@ == self@.take(i as int)
    }

    #[verifier::external_body]
    fn cut_from(&self, i: usize) -> (r: &[T]) {
        &self[i..]
    }

    #[verifier::external_body]
    fn cut_to(&self, i: usize) -> (r: &[T]) {
        &self[..i]
    }
}
} // verus!
