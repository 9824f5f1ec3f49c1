//! Trusted interface: contracts assumed for std, hyper and http, used by the woven sources.
//! Nothing in this file is proved unless it is a `proof fn` with a body.
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use vstd::utf8::*;

verus! {

// ---------------------------------------------------------------- panics
/// stands for a panic: never returns
#[verifier::external_body]
pub fn diverge() -> !
    ensures false,
{
    panic!()
}

/// a text that only serves messages
#[verifier::external_body]
pub fn fmt_opaque() -> (r: String) {
    String::new()
}

// ---------------------------------------------------------------- strings
/// number of bytes of the UTF-8 encoding
pub open spec fn blen(s: Seq<char>) -> nat {
    encode_utf8(s).len()
}

pub assume_specification[ std::string::String::len ](s: &std::string::String) -> (r: usize)
    ensures
        r == blen(s@),
;

/// comparisons of the string types compare the characters
pub assume_specification<'a>[ <&'a str as std::cmp::PartialEq<String>>::eq ](a: &&'a str, b: &String) -> (r: bool)
    ensures
        r == (a@ == b@),
;

/// a string fits into memory
pub axiom fn axiom_str_len(s: &str)
    ensures
        blen(s@) <= usize::MAX,
;

/// a string is its characters
pub axiom fn axiom_string_inj(a: String, b: String)
    requires
        a@ == b@,
    ensures
        a == b,
;

/// `&s[a..]`
#[verifier::external_body]
pub fn str_from(s: &str, a: usize) -> (r: &str)
    requires
        exists|k: int| 0 <= k <= s@.len() && a == #[trigger] blen(s@.take(k)),
    ensures
        forall|k: int| 0 <= k <= s@.len() && a == #[trigger] blen(s@.take(k)) ==> r@ == s@.skip(k),
{
    &s[a..]
}

/// `&s[..b]`
#[verifier::external_body]
pub fn str_to(s: &str, b: usize) -> (r: &str)
    requires
        exists|k: int| 0 <= k <= s@.len() && b == #[trigger] blen(s@.take(k)),
    ensures
        forall|k: int| 0 <= k <= s@.len() && b == #[trigger] blen(s@.take(k)) ==> r@ == s@.take(k),
{
    &s[..b]
}

/// `s.split_at(a)`
#[verifier::external_body]
pub fn str_split_at(s: &str, a: usize) -> (r: (&str, &str))
    requires
        exists|k: int| 0 <= k <= s@.len() && a == #[trigger] blen(s@.take(k)),
    ensures
        forall|k: int| 0 <= k <= s@.len() && a == #[trigger] blen(s@.take(k)) ==> r.0@ == s@.take(k) && r.1@ == s@.skip(k),
{
    s.split_at(a)
}

/// `s.truncate(a)` of a String
#[verifier::external_body]
pub fn string_truncate(s: &mut String, a: usize)
    requires
        a >= blen(old(s)@) || exists|k: int| 0 <= k <= old(s)@.len() && a == #[trigger] blen(old(s)@.take(k)),
    ensures
        a >= blen(old(s)@) ==> final(s)@ == old(s)@,
        forall|k: int| 0 <= k <= old(s)@.len() && a == #[trigger] blen(old(s)@.take(k)) ==> final(s)@ == old(s)@.take(k),
{
    s.truncate(a)
}

/// `s.contains(c)`
#[verifier::external_body]
pub fn str_contains_char(s: &str, c: char) -> (r: bool)
    ensures
        r == s@.contains(c),
{
    s.contains(c)
}

pub assume_specification<T: std::default::Default>[ std::mem::take::<T> ](dest: &mut T) -> (r: T)
    ensures
        r == *old(dest),
        T::default.ensures((), *final(dest)),
;

pub proof fn lemma_blen_empty()
    ensures
        blen(Seq::<char>::empty()) == 0,
{
    reveal_with_fuel(encode_utf8, 2);
}

pub proof fn lemma_blen_concat(a: Seq<char>, b: Seq<char>)
    ensures
        blen(a + b) == blen(a) + blen(b),
{
    encode_utf8_concat(a, b);
}

/// every character takes at least one byte
pub proof fn lemma_blen_ge(s: Seq<char>)
    ensures
        blen(s) >= s.len(),
    decreases s.len(),
{
    if s.len() == 0 {
        lemma_blen_empty();
    } else {
        let p = s.drop_last();
        lemma_blen_ge(p);
        lemma_blen_concat(p, seq![s.last()]);
        assert(s =~= p + seq![s.last()]);
        lemma_blen_one(s.last());
    }
}

pub proof fn lemma_blen_one(c: char)
    ensures
        1 <= blen(seq![c]) <= 4,
        blen(seq![c]) == c.len_utf8(),
{
    reveal_with_fuel(encode_utf8, 3);
    assert(seq![c].drop_first() =~= Seq::<char>::empty());
    encode_utf8_push(Seq::empty(), c);
    assert(Seq::<char>::empty().push(c) =~= seq![c]);
}

pub proof fn lemma_blen_take_step(s: Seq<char>, i: int)
    requires
        0 <= i < s.len(),
    ensures
        blen(s.take(i + 1)) == blen(s.take(i)) + s[i].len_utf8(),
{
    assert(s.take(i + 1) =~= s.take(i) + seq![s[i]]);
    lemma_blen_concat(s.take(i), seq![s[i]]);
    lemma_blen_one(s[i]);
}

pub proof fn lemma_blen_take_mono(s: Seq<char>, i: int, j: int)
    requires
        0 <= i <= j <= s.len(),
    ensures
        blen(s.take(j)) >= blen(s.take(i)) + (j - i),
    decreases j - i,
{
    if i < j {
        lemma_blen_take_mono(s, i, j - 1);
        lemma_blen_take_step(s, j - 1);
        lemma_blen_one(s[j - 1]);
    }
}

/// the byte position of a character position determines it
pub proof fn lemma_blen_take_inj(s: Seq<char>, i: int, j: int)
    requires
        0 <= i <= s.len(),
        0 <= j <= s.len(),
        blen(s.take(i)) == blen(s.take(j)),
    ensures
        i == j,
{
    if i < j {
        lemma_blen_take_mono(s, i, j);
    } else if j < i {
        lemma_blen_take_mono(s, j, i);
    }
}

} // verus!

verus! {
// ---------------------------------------------------------------- types of other crates
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExMethod(hyper::Method);

#[verifier::external_trait_specification]
pub trait ExMiddleware: Send + Sync + 'static {
    type ExternalTraitSpecificationFor: crate::middleware::Middleware;
}

#[verifier::external_trait_specification]
pub trait ExHandler: Send + Sync + 'static {
    type ExternalTraitSpecificationFor: crate::router::Handler;
}
} // verus!

verus! {
// ---------------------------------------------------------------- iterators
/// `str::chars`
#[verifier::external_body]
pub struct CharIter<'a>(std::str::Chars<'a>);

impl<'a> View for CharIter<'a> {
    type V = Seq<char>;
    uninterp spec fn view(&self) -> Seq<char>;
}

#[verifier::external_body]
pub fn chars<'a>(s: &'a str) -> (r: CharIter<'a>)
    ensures
        r@ == s@,
{
    CharIter(s.chars())
}

impl<'a> CharIter<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    {
        self.0.next()
    }
}

/// `slice::iter`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SliceIter<'a, T>(std::slice::Iter<'a, T>);

impl<'a, T> View for SliceIter<'a, T> {
    type V = Seq<T>;
    uninterp spec fn view(&self) -> Seq<T>;
}

#[verifier::external_body]
pub fn slice_iter<'a, T>(s: &'a [T]) -> (r: SliceIter<'a, T>)
    ensures
        r@ == s@,
{
    SliceIter(s.iter())
}

impl<'a, T> SliceIter<'a, T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && *r->0 == old(self)@[0] && final(self)@ == old(self)@.drop_first(),
    {
        self.0.next()
    }

    #[verifier::external_body]
    pub fn enumerate(self) -> (r: SliceEnum<'a, T>)
        ensures
            r@ == self@,
            r.pos() == 0,
    {
        SliceEnum(self.0.enumerate())
    }

    #[verifier::external_body]
    pub fn any<F: Fn(&'a T) -> bool>(self, f: F) -> (r: bool)
        requires
            forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures
            r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((&#[trigger] self@[i],), true),
            !r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((&#[trigger] self@[i],), false),
    {
        let mut it = self.0;
        it.any(f)
    }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SliceEnum<'a, T>(std::iter::Enumerate<std::slice::Iter<'a, T>>);

impl<'a, T> View for SliceEnum<'a, T> {
    type V = Seq<T>;
    uninterp spec fn view(&self) -> Seq<T>;
}

impl<'a, T> SliceEnum<'a, T> {
    pub uninterp spec fn pos(&self) -> int;

    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, &'a T)>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@ && final(self).pos() == old(self).pos(),
            old(self)@.len() > 0 ==> {
                &&& r is Some
                &&& (r->0).0 == old(self).pos()
                &&& *(r->0).1 == old(self)@[0]
                &&& final(self)@ == old(self)@.drop_first()
                &&& final(self).pos() == old(self).pos() + 1
            },
    {
        self.0.next()
    }
}
} // verus!

verus! {
// ---------------------------------------------------------------- hyper and http
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExBody(hyper::Body);

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ExRequest<T>(http::Request<T>);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExStatusCode(http::StatusCode);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExHeaderName(http::header::HeaderName);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExJsonError(serde_json::Error);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);

#[verifier::external_trait_specification]
pub trait ExToString {
    type ExternalTraitSpecificationFor: std::string::ToString;
}
} // verus!

verus! {
// ---------------------------------------------------------------- handlers and middlewares (C05)
/// `r` is a possible result of the handler for this context
pub uninterp spec fn called(h: std::sync::Arc<dyn crate::router::Handler>, ctx: crate::context::Context, r: crate::router::ContextResult) -> bool;

/// `r` is a possible result of the middleware for this context and this continuation
pub uninterp spec fn handled(m: std::sync::Arc<dyn crate::middleware::Middleware>, ctx: crate::context::Context, endpoint: std::sync::Arc<dyn crate::router::Handler>, rest: Seq<std::sync::Arc<dyn crate::middleware::Middleware>>, r: crate::router::ContextResult) -> bool;

#[verifier::external_body]
pub async fn handler_call(h: &std::sync::Arc<dyn crate::router::Handler>, ctx: crate::context::Context) -> (r: crate::router::ContextResult)
    ensures
        called(*h, ctx, r),
{
    h.call(ctx).await
}

#[verifier::external_body]
pub async fn mw_handle<'a>(m: &'a std::sync::Arc<dyn crate::middleware::Middleware>, ctx: crate::context::Context, ep: crate::app::EndpointExecutor<'a>) -> (r: crate::router::ContextResult)
    ensures
        handled(*m, ctx, *ep.route_endpoint, ep.middleware@, r),
{
    m.handle(ctx, ep).await
}
} // verus!

verus! {
// ---------------------------------------------------------------- bodies and texts
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> {
    encode_utf8(s)
}

/// all bytes the body yields
pub uninterp spec fn body_bytes(b: hyper::Body) -> Seq<u8>;

/// what `hyper::Body` is made from
pub trait BodySource: Sized {
    spec fn source_bytes(self) -> Seq<u8>;
}

impl BodySource for &'static str {
    open spec fn source_bytes(self) -> Seq<u8> {
        utf8(self@)
    }
}

impl BodySource for String {
    open spec fn source_bytes(self) -> Seq<u8> {
        utf8(self@)
    }
}

impl BodySource for Vec<u8> {
    open spec fn source_bytes(self) -> Seq<u8> {
        self@
    }
}

/// `Body::from`
#[verifier::external_body]
pub fn body_from<T: BodySource>(t: T) -> (r: hyper::Body)
    where hyper::Body: std::convert::From<T>
    ensures
        body_bytes(r) == t.source_bytes(),
{
    hyper::Body::from(t)
}

/// `Body::default()`: the empty body
pub assume_specification[ <hyper::Body as std::default::Default>::default ]() -> (r: hyper::Body)
    ensures
        body_bytes(r) == Seq::<u8>::empty(),
;

/// `Body::empty`
#[verifier::external_body]
pub fn body_empty() -> (r: hyper::Body)
    ensures
        body_bytes(r) == Seq::<u8>::empty(),
{
    hyper::Body::empty()
}

/// the text a value is shown as
pub trait Text {
    spec fn text_spec(&self) -> Seq<char>;
}

impl Text for str {
    open spec fn text_spec(&self) -> Seq<char> {
        self@
    }
}

impl<'a, T: Text + ?Sized> Text for &'a T {
    open spec fn text_spec(&self) -> Seq<char> {
        (**self).text_spec()
    }
}

impl Text for String {
    open spec fn text_spec(&self) -> Seq<char> {
        self@
    }
}

/// `a == b` for texts
#[verifier::external_body]
pub fn text_eq<A: Text + std::string::ToString + ?Sized, B: Text + std::string::ToString + ?Sized>(a: &A, b: &B) -> (r: bool)
    ensures
        r == (a.text_spec() == b.text_spec()),
{
    a.to_string() == b.to_string()
}

impl Text for serde_json::Error {
    uninterp spec fn text_spec(&self) -> Seq<char>;
}

impl Text for std::io::Error {
    uninterp spec fn text_spec(&self) -> Seq<char>;
}

/// `t.to_string()`
#[verifier::external_body]
pub fn to_text<T: Text + std::string::ToString + ?Sized>(t: &T) -> (r: String)
    ensures
        r@ == t.text_spec(),
{
    t.to_string()
}

// ---------------------------------------------------------------- serde_json
#[verifier::external_trait_specification]
pub trait ExSerialize {
    type ExternalTraitSpecificationFor: serde::ser::Serialize;
}

/// what `serde_json` makes of a value: its text or the text of the error
pub uninterp spec fn json_of<T>(t: T) -> Result<Seq<char>, Seq<char>>;

#[verifier::external_body]
pub fn json_to_string<T: serde::ser::Serialize>(t: &T) -> (r: Result<String, serde_json::Error>)
    ensures
        r is Ok <==> json_of(*t) is Ok,
        r is Ok ==> (r->Ok_0)@ == json_of(*t)->Ok_0,
        r is Err ==> (r->Err_0).text_spec() == json_of(*t)->Err_0,
{
    serde_json::to_string(t)
}

// ---------------------------------------------------------------- http
pub uninterp spec fn status(n: int) -> http::StatusCode;

/// the constants of `StatusCode`
#[verifier::external_body]
pub fn sc(n: u16) -> (r: http::StatusCode)
    ensures
        r == status(n as int),
{
    http::StatusCode::from_u16(n).unwrap()
}

pub uninterp spec fn header_name(s: Seq<char>) -> http::header::HeaderName;

/// `header::CONTENT_TYPE`
#[verifier::external_body]
pub fn hdr_content_type() -> (r: http::header::HeaderName)
    ensures
        r == header_name("content-type"@),
{
    http::header::CONTENT_TYPE
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExInvalidHeaderName(http::header::InvalidHeaderName);

/// `HeaderName::from_bytes`
#[verifier::external_body]
pub fn header_from_bytes(b: StrBytes) -> (r: Result<http::header::HeaderName, http::header::InvalidHeaderName>)
    ensures
        r is Ok ==> r->Ok_0 == header_name(b@),
{
    http::header::HeaderName::from_bytes(b.0)
}

/// the bytes of a text
#[verifier::external_body]
pub struct StrBytes<'a>(&'a [u8]);

impl<'a> View for StrBytes<'a> {
    type V = Seq<char>;
    uninterp spec fn view(&self) -> Seq<char>;
}

/// `s.as_bytes()`
#[verifier::external_body]
pub fn str_bytes<'a>(s: &'a str) -> (r: StrBytes<'a>)
    ensures
        r@ == s@,
{
    StrBytes(s.as_bytes())
}

/// `r.unwrap()` where the panic is allowed
#[verifier::external_body]
pub fn unwrap_may_panic<T, E: std::fmt::Debug>(r: Result<T, E>) -> (t: T)
    ensures
        r is Ok,
        r->Ok_0 == t,
{
    r.unwrap()
}

/// `v.extend_from_slice(&w)` for elements whose clone is the element
/// `v.extend(w)` for a vector `w`
#[verifier::external_body]
pub fn vec_extend_vec<T>(v: &mut Vec<T>, w: Vec<T>)
    ensures
        final(v)@ == old(v)@ + w@,
{
    v.extend(w)
}

#[verifier::external_body]
pub fn vec_extend<T: Clone>(v: &mut Vec<T>, w: &[T])
    ensures
        final(v)@ == old(v)@ + w@,
{
    v.extend_from_slice(w)
}

/// `it.map(f)`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(F)]
pub struct SliceMap<'a, T, F>(std::slice::Iter<'a, T>, F);

impl<'a, T, F> SliceMap<'a, T, F> {
    pub uninterp spec fn items(&self) -> Seq<T>;
    pub uninterp spec fn fun(&self) -> F;
}

#[verifier::external_body]
pub fn slice_map<'a, T, B, F: Fn(&'a T) -> B>(it: SliceIter<'a, T>, f: F) -> (r: SliceMap<'a, T, F>)
    ensures
        r.items() == it@,
        r.fun() == f,
{
    SliceMap(it.0, f)
}

/// `it.map(f).collect()`
#[verifier::external_body]
pub fn map_collect<'a, T, B, F: Fn(&'a T) -> B>(m: SliceMap<'a, T, F>) -> (r: Vec<B>)
    requires
        forall|i: int| 0 <= i < m.items().len() ==> m.fun().requires((&#[trigger] m.items()[i],)),
    ensures
        r@.len() == m.items().len(),
        forall|i: int| 0 <= i < r@.len() ==> m.fun().ensures((&m.items()[i],), #[trigger] r@[i]),
{
    m.0.map(m.1).collect()
}

// ---------------------------------------------------------------- files
/// a read of the file may give this: its bytes or the text of the error
pub uninterp spec fn file_read(path: Seq<char>, r: Result<Seq<u8>, Seq<char>>) -> bool;

#[verifier::external_body]
pub async fn fs_read(path: String) -> (r: Result<Vec<u8>, std::io::Error>)
    ensures
        r is Ok ==> file_read(path@, Ok((r->Ok_0)@)),
        r is Err ==> file_read(path@, Err((r->Err_0).text_spec())),
{
    async_std::fs::read(path).await
}
} // verus!

verus! {
// ---------------------------------------------------------------- requests
/// the parts of a request
pub struct Req<T> {
    pub method: http::Method,
    pub uri: http::Uri,
    pub version: http::Version,
    pub headers: http::HeaderMap<http::HeaderValue>,
    pub ext: http::Extensions,
    pub body: T,
}

pub uninterp spec fn req<T>(r: http::Request<T>) -> Req<T>;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUri(http::Uri);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExVersion(http::Version);

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ExHeaderMap<T>(http::HeaderMap<T>);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExHeaderValue(http::HeaderValue);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExExtensions(http::Extensions);

pub assume_specification[ <http::Method as std::clone::Clone>::clone ](m: &http::Method) -> (r: http::Method)
    ensures
        r == *m,
;

pub assume_specification<T>[ http::Request::<T>::method ](r: &http::Request<T>) -> (m: &http::Method)
    ensures
        *m == req(*r).method,
;

pub assume_specification<T>[ http::Request::<T>::uri ](r: &http::Request<T>) -> (m: &http::Uri)
    ensures
        *m == req(*r).uri,
;

pub assume_specification<T>[ http::Request::<T>::headers ](r: &http::Request<T>) -> (m: &http::HeaderMap<http::HeaderValue>)
    ensures
        *m == req(*r).headers,
;

pub assume_specification<T>[ http::Request::<T>::extensions ](r: &http::Request<T>) -> (m: &http::Extensions)
    ensures
        *m == req(*r).ext,
;

pub assume_specification<T>[ http::Request::<T>::headers_mut ](r: &mut http::Request<T>) -> (m: &mut http::HeaderMap<http::HeaderValue>)
    ensures
        *m == req(*old(r)).headers,
        req(*final(r)) == (Req { headers: *final(m), ..req(*old(r)) }),
;

pub assume_specification<T>[ http::Request::<T>::extensions_mut ](r: &mut http::Request<T>) -> (m: &mut http::Extensions)
    ensures
        *m == req(*old(r)).ext,
        req(*final(r)) == (Req { ext: *final(m), ..req(*old(r)) }),
;

pub assume_specification<T>[ http::Request::<T>::body_mut ](r: &mut http::Request<T>) -> (m: &mut T)
    ensures
        *m == req(*old(r)).body,
        req(*final(r)) == (Req { body: *final(m), ..req(*old(r)) }),
;

/// what the extensions hold under a type
pub uninterp spec fn ext_get<T>(e: http::Extensions) -> Option<T>;

/// the extensions with `t` under its type, and everything else as in `e`
pub uninterp spec fn ext_with<T>(e: http::Extensions, t: T) -> http::Extensions;

pub axiom fn axiom_ext<T>(e: http::Extensions, t: T)
    ensures
        ext_get::<T>(ext_with::<T>(e, t)) == Some(t),
;

#[verifier::external_body]
pub fn ext_insert<T: Send + Sync + 'static>(e: &mut http::Extensions, t: T)
    ensures
        *final(e) == ext_with(*old(e), t),
{
    e.insert(t);
}

#[verifier::external_body]
pub fn ext_read<T: Send + Sync + 'static>(e: &http::Extensions) -> (r: Option<&T>)
    ensures
        r is Some <==> ext_get::<T>(*e) is Some,
        r is Some ==> Some(*r->0) == ext_get::<T>(*e),
{
    e.get::<T>()
}

#[verifier::external_body]
pub fn ext_read_mut<T: Send + Sync + 'static>(e: &mut http::Extensions) -> (r: Option<&mut T>)
    ensures
        r is Some <==> ext_get::<T>(*old(e)) is Some,
        r is None ==> *final(e) == *old(e),
        r is Some ==> Some(*r->0) == ext_get::<T>(*old(e)) && *final(e) == ext_with(*old(e), *final(r->0)),
{
    e.get_mut::<T>()
}

// ---------------------------------------------------------------- maps with texts as keys
pub uninterp spec fn smap(m: std::collections::HashMap<String, String>) -> Map<Seq<char>, Seq<char>>;

#[verifier::external_body]
pub fn smap_get<'a>(m: &'a std::collections::HashMap<String, String>, k: &str) -> (r: Option<&'a String>)
    ensures
        r is Some <==> smap(*m).contains_key(k@),
        r is Some ==> (r->0)@ == smap(*m)[k@],
{
    m.get(k)
}

#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: std::str::FromStr;
    type Err;
}

/// the standard parser of a type
pub uninterp spec fn parse_of<T: std::str::FromStr>(s: Seq<char>) -> Result<T, T::Err>;

#[verifier::external_body]
pub fn parse_text<T: std::str::FromStr>(s: &str) -> (r: Result<T, T::Err>)
    ensures
        r == parse_of::<T>(s@),
{
    s.parse()
}
} // verus!

verus! {
pub assume_specification<T>[ std::mem::replace::<T> ](dest: &mut T, src: T) -> (r: T)
    ensures
        r == *old(dest),
        *final(dest) == src,
;
} // verus!

verus! {
// ---------------------------------------------------------------- whole bodies
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExBytes(hyper::body::Bytes);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExHyperError(hyper::Error);

pub uninterp spec fn bytes_of(b: hyper::body::Bytes) -> Seq<u8>;

/// reading the body fails (the connection broke)
pub uninterp spec fn body_breaks(b: hyper::Body) -> bool;

/// `body::to_bytes`
#[verifier::external_body]
pub async fn to_bytes(b: hyper::Body) -> (r: Result<hyper::body::Bytes, hyper::Error>)
    ensures
        r is Err <==> body_breaks(b),
        r is Ok ==> bytes_of(r->Ok_0) == body_bytes(b),
{
    hyper::body::to_bytes(b).await
}

pub assume_specification[ <hyper::body::Bytes as std::ops::Deref>::deref ](b: &hyper::body::Bytes) -> (r: &[u8])
    ensures
        r@ == bytes_of(*b),
;

#[verifier::external_trait_specification]
pub trait ExDeserialize<'de>: Sized {
    type ExternalTraitSpecificationFor: serde::Deserialize<'de>;
}

#[verifier::external_trait_specification]
pub trait ExDeserializeOwned: for<'de> serde::Deserialize<'de> {
    type ExternalTraitSpecificationFor: serde::de::DeserializeOwned;
}

/// the JSON parser of `serde_json`
pub uninterp spec fn json_parse<T>(b: Seq<u8>) -> Result<T, serde_json::Error>;

#[verifier::external_body]
pub fn json_from_slice<T: serde::de::DeserializeOwned>(b: &[u8]) -> (r: Result<T, serde_json::Error>)
    ensures
        r == json_parse::<T>(b@),
{
    serde_json::from_slice(b)
}
} // verus!

verus! {
// ---------------------------------------------------------------- forms
/// the decoded name / value pairs of a query or form body, in order (`form_urlencoded`)
pub uninterp spec fn form_pairs(b: Seq<u8>) -> Seq<(Seq<char>, Seq<char>)>;

/// `r` is a possible outcome of deserializing the lists of values, taken in some order
pub open spec fn form_decodes<T>(m: Map<Seq<char>, Seq<Seq<char>>>, r: Result<T, crate::router::FormError>) -> bool {
    exists|e: Seq<(Seq<char>, Seq<Seq<char>>)>| entries_of(e, m) && #[trigger] target_of::<T>(e, r)
}

/// what comes to a name, in order: the values which are not empty
pub open spec fn values_of(p: Seq<(Seq<char>, Seq<char>)>, name: Seq<char>) -> Seq<Seq<char>>
    decreases p.len(),
{
    if p.len() == 0 {
        Seq::empty()
    } else {
        let v = values_of(p.drop_last(), name);
        if p.last().0 == name && p.last().1.len() > 0 {
            v.push(p.last().1)
        } else {
            v
        }
    }
}

pub open spec fn grouped(p: Seq<(Seq<char>, Seq<char>)>) -> Map<Seq<char>, Seq<Seq<char>>>
    decreases p.len(),
{
    if p.len() == 0 {
        Map::empty()
    } else {
        let g = grouped(p.drop_last());
        let (n, v) = p.last();
        if v.len() == 0 {
            g
        } else if g.contains_key(n) {
            g.insert(n, g[n].push(v))
        } else {
            g.insert(n, seq![v])
        }
    }
}

/// every name with a value that is not empty has exactly these values, in order; no other name occurs
pub proof fn lemma_grouped(p: Seq<(Seq<char>, Seq<char>)>, n: Seq<char>)
    ensures
        grouped(p).contains_key(n) <==> values_of(p, n).len() > 0,
        grouped(p).contains_key(n) ==> grouped(p)[n] == values_of(p, n),
    decreases p.len(),
{
    if p.len() > 0 {
        lemma_grouped(p.drop_last(), n);
        lemma_grouped(p.drop_last(), p.last().0);
        assert(seq![p.last().1] =~= Seq::<Seq<char>>::empty().push(p.last().1));
    }
}

#[verifier::external_body]
pub struct FormIter<'a>(url::form_urlencoded::Parse<'a>);

impl<'a> View for FormIter<'a> {
    type V = Seq<(Seq<char>, Seq<char>)>;
    uninterp spec fn view(&self) -> Seq<(Seq<char>, Seq<char>)>;
}

/// `form_urlencoded::parse`
#[verifier::external_body]
pub fn form_parse<'a>(b: &'a [u8]) -> (r: FormIter<'a>)
    ensures
        r@ == form_pairs(b@),
{
    FormIter(url::form_urlencoded::parse(b))
}

impl<'a> FormIter<'a> {
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: FormIter<'a>)
        ensures
            r@ == self@,
    {
        self
    }

    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(String, String)>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> {
                &&& r is Some
                &&& (r->0).0@ == old(self)@[0].0
                &&& (r->0).1@ == old(self)@[0].1
                &&& final(self)@ == old(self)@.drop_first()
            },
    {
        self.0.next().map(|(a, b)| (a.into_owned(), b.into_owned()))
    }
}
} // verus!

verus! {
/// a list of form values
pub trait FormVals {
    spec fn vals(&self) -> Seq<Seq<char>>;
}

pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> {
    s.map_values(|x: String| x@)
}

pub proof fn lemma_texts()
    ensures
        texts(Seq::empty()) == Seq::<Seq<char>>::empty(),
        forall|v: Seq<String>, x: String| #[trigger] texts(v.push(x)) == texts(v).push(x@),
{
    assert(texts(Seq::empty()) =~= Seq::<Seq<char>>::empty());
    assert forall|v: Seq<String>, x: String| #[trigger] texts(v.push(x)) == texts(v).push(x@) by {
        assert(texts(v.push(x)) =~= texts(v).push(x@));
    }
}

pub proof fn lemma_texts_contains(v: Seq<String>, t: Seq<char>)
    ensures
        texts(v).contains(t) <==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == t,
{
    if texts(v).contains(t) {
        let i = choose|i: int| 0 <= i < v.len() && texts(v)[i] == t;
        assert(v[i]@ == t);
    }
    assert forall|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == t implies texts(v).contains(t) by {
        assert(texts(v)[i] == t);
    }
}

impl FormVals for Vec<String> {
    open spec fn vals(&self) -> Seq<Seq<char>> {
        texts(self@)
    }
}

impl<'a> FormVals for std::borrow::Cow<'a, [String]> {
    uninterp spec fn vals(&self) -> Seq<Seq<char>>;
}

/// the name of a form value
pub trait FormName {
    spec fn name(&self) -> Seq<char>;
}

impl FormName for String {
    open spec fn name(&self) -> Seq<char> {
        self@
    }
}

impl<'a> FormName for std::borrow::Cow<'a, str> {
    uninterp spec fn name(&self) -> Seq<char>;
}

/// a map of names to lists of values
pub uninterp spec fn fmap<K, V>(m: std::collections::HashMap<K, V>) -> Map<Seq<char>, Seq<Seq<char>>>;

#[verifier::external_body]
pub fn hmap_new<K, V>() -> (r: std::collections::HashMap<K, V>)
    ensures
        fmap(r) == Map::<Seq<char>, Seq<Seq<char>>>::empty(),
{
    std::collections::HashMap::default()
}

/// `m.entry(k).or_insert_with(f)`
#[verifier::external_body]
pub fn entry_or_insert_with<K: FormName + std::cmp::Eq + std::hash::Hash, V: FormVals, F: FnOnce() -> V>(m: &mut std::collections::HashMap<K, V>, k: K, f: F) -> (r: &mut V)
    requires
        f.requires(()),
    ensures
        fmap(*old(m)).contains_key(k.name()) ==> (*r).vals() == fmap(*old(m))[k.name()],
        !fmap(*old(m)).contains_key(k.name()) ==> f.ensures((), *r),
        fmap(*final(m)) == fmap(*old(m)).insert(k.name(), (*final(r)).vals()),
{
    m.entry(k).or_insert_with(f)
}

/// the entries of a map, each once
pub open spec fn entries_of(s: Seq<(Seq<char>, Seq<Seq<char>>)>, m: Map<Seq<char>, Seq<Seq<char>>>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|n: Seq<char>| #[trigger] m.contains_key(n) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == n
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HmapIter<'a, K, V>(std::collections::hash_map::Iter<'a, K, V>);

impl<'a, K, V> View for HmapIter<'a, K, V> {
    type V = Seq<(Seq<char>, Seq<Seq<char>>)>;
    uninterp spec fn view(&self) -> Seq<(Seq<char>, Seq<Seq<char>>)>;
}

#[verifier::external_body]
pub fn hmap_iter<'a, K, V>(m: &'a std::collections::HashMap<K, V>) -> (r: HmapIter<'a, K, V>)
    ensures
        entries_of(r@, fmap(*m)),
{
    HmapIter(m.iter())
}

impl<'a, K: FormName, V: FormVals> HmapIter<'a, K, V> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> {
                &&& r is Some
                &&& (r->0).0.name() == old(self)@[0].0
                &&& (r->0).1.vals() == old(self)@[0].1
                &&& final(self)@ == old(self)@.drop_first()
            },
    {
        self.0.next()
    }
}

/// what `Cow::from` borrows from
pub trait CowSource<'a> {
    type Out: ?Sized + ToOwned;
    spec fn borrowed(&self, r: std::borrow::Cow<'a, Self::Out>) -> bool;
}

impl<'a> CowSource<'a> for &'a String {
    type Out = str;
    open spec fn borrowed(&self, r: std::borrow::Cow<'a, str>) -> bool {
        r.name() == (**self)@
    }
}

impl<'a> CowSource<'a> for &'a Vec<String> {
    type Out = [String];
    open spec fn borrowed(&self, r: std::borrow::Cow<'a, [String]>) -> bool {
        r.vals() == texts((**self)@)
    }
}

/// `Cow::from`
#[verifier::external_body]
pub fn cow_from<'a, T: CowSource<'a>>(t: T) -> (r: std::borrow::Cow<'a, T::Out>)
    where std::borrow::Cow<'a, T::Out>: std::convert::From<T>
    ensures
        t.borrowed(r),
{
    std::borrow::Cow::from(t)
}

/// the query of the uri, empty if there is none
pub uninterp spec fn query_of(u: http::Uri) -> Seq<char>;

/// `uri.query()`
#[verifier::external_body]
pub fn uri_query(u: &http::Uri) -> (r: Option<&str>)
    ensures
        r is Some ==> (r->0)@ == query_of(*u),
        r is None ==> query_of(*u) == ""@,
{
    u.query()
}

/// `s.as_bytes()`
#[verifier::external_body]
pub fn utf8_bytes(s: &str) -> (r: &[u8])
    ensures
        r@ == utf8(s@),
{
    s.as_bytes()
}
} // verus!

verus! {
// ---------------------------------------------------------------- routes
/// `m.insert(k, v)`
#[verifier::external_body]
pub fn smap_insert(m: &mut std::collections::HashMap<String, String>, k: String, v: String) -> (r: Option<String>)
    ensures
        smap(*final(m)) == smap(*old(m)).insert(k@, v@),
{
    m.insert(k, v)
}

/// `HashMap::default()`
#[verifier::external_body]
pub fn smap_new() -> (r: std::collections::HashMap<String, String>)
    ensures
        smap(r) == Map::<Seq<char>, Seq<char>>::empty(),
{
    std::collections::HashMap::default()
}

/// `v.clone()`
#[verifier::external_body]
pub fn mws_clone(v: &Vec<std::sync::Arc<dyn crate::middleware::Middleware>>) -> (r: Vec<std::sync::Arc<dyn crate::middleware::Middleware>>)
    ensures
        r@ == v@,
{
    v.clone()
}

/// `r.clone()`
#[verifier::external_body]
pub fn resource_clone(v: &crate::router::Resource) -> (r: crate::router::Resource)
    ensures
        rmap(r.route_map) == rmap(v.route_map),
{
    v.clone()
}

pub open spec fn opt<K, V>(m: Map<K, V>, k: K) -> Option<V> {
    if m.contains_key(k) {
        Some(m[k])
    } else {
        None
    }
}

pub uninterp spec fn rmap(m: std::collections::HashMap<http::Method, crate::router::Route>) -> Map<http::Method, crate::router::Route>;

#[verifier::external_body]
pub fn rmap_insert(m: &mut std::collections::HashMap<http::Method, crate::router::Route>, k: http::Method, v: crate::router::Route) -> (r: Option<crate::router::Route>)
    ensures
        r == opt(rmap(*old(m)), k),
        rmap(*final(m)) == rmap(*old(m)).insert(k, v),
{
    m.insert(k, v)
}

#[verifier::external_body]
pub fn rmap_get<'a>(m: &'a std::collections::HashMap<http::Method, crate::router::Route>, k: &http::Method) -> (r: Option<&'a crate::router::Route>)
    ensures
        r is Some <==> rmap(*m).contains_key(*k),
        r is Some ==> *r->0 == rmap(*m)[*k],
{
    m.get(k)
}

/// the handler as a trait object
pub uninterp spec fn handler_of<H>(h: H) -> std::sync::Arc<dyn crate::router::Handler>;

#[verifier::external_body]
pub fn arc_handler<H: crate::router::Handler>(h: H) -> (r: std::sync::Arc<dyn crate::router::Handler>)
    ensures
        r == handler_of(h),
{
    std::sync::Arc::new(h)
}

/// the middleware as a trait object
pub uninterp spec fn mw_of<M>(m: M) -> std::sync::Arc<dyn crate::middleware::Middleware>;

#[verifier::external_body]
pub fn arc_mw<M: crate::middleware::Middleware>(m: M) -> (r: std::sync::Arc<dyn crate::middleware::Middleware>)
    ensures
        r == mw_of(m),
{
    std::sync::Arc::new(m)
}

#[verifier::external_body]
pub fn smap_clone(m: &std::collections::HashMap<String, String>) -> (r: std::collections::HashMap<String, String>)
    ensures
        smap(r) == smap(*m),
{
    m.clone()
}

// ---------------------------------------------------------------- http responses
pub struct Resp<T> {
    pub status: http::StatusCode,
    pub headers: Map<http::header::HeaderName, Seq<Seq<char>>>,
    pub body: T,
}

pub uninterp spec fn resp<T>(r: http::Response<T>) -> Resp<T>;

pub open spec fn no_http_headers() -> Map<http::header::HeaderName, Seq<Seq<char>>> {
    Map::empty()
}

/// the headers of the answer: one value for each name, the last one
pub open spec fn sent_headers(h: Seq<(http::header::HeaderName, &'static str)>) -> Map<http::header::HeaderName, Seq<Seq<char>>>
    decreases h.len(),
{
    if h.len() == 0 {
        Map::empty()
    } else {
        sent_headers(h.drop_last()).insert(h.last().0, seq![h.last().1@])
    }
}

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ExResponse<T>(http::Response<T>);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExBuilder(http::response::Builder);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExHttpError(http::Error);

/// `Response::new`
#[verifier::external_body]
pub fn http_response<T>(body: T) -> (r: http::Response<T>)
    ensures
        resp(r) == (Resp { status: status(200), headers: no_http_headers(), body: body }),
{
    http::Response::new(body)
}

pub assume_specification<T>[ http::Response::<T>::status_mut ](r: &mut http::Response<T>) -> (m: &mut http::StatusCode)
    ensures
        *m == resp(*old(r)).status,
        resp(*final(r)) == (Resp { status: *final(m), ..resp(*old(r)) }),
;

/// the status and the headers given to the builder (always valid here: the builder gets values, not texts)
pub uninterp spec fn bst(b: http::response::Builder) -> http::StatusCode;

pub uninterp spec fn bhs(b: http::response::Builder) -> Map<http::header::HeaderName, Seq<Seq<char>>>;

/// `Response::builder`
#[verifier::external_body]
pub fn builder_new() -> (r: http::response::Builder)
    ensures
        bst(r) == status(200),
        bhs(r) == no_http_headers(),
{
    http::Response::builder()
}

pub assume_specification[ http::response::Builder::headers_mut ](b: &mut http::response::Builder) -> (r: Option<&mut http::HeaderMap<http::HeaderValue>>)
    ensures
        r is Some,
        hmv(*r->0) == bhs(*old(b)),
        bhs(*final(b)) == hmv(*final(r->0)),
        bst(*final(b)) == bst(*old(b)),
;

pub uninterp spec fn hmv(h: http::HeaderMap<http::HeaderValue>) -> Map<http::header::HeaderName, Seq<Seq<char>>>;

pub uninterp spec fn hval(v: http::HeaderValue) -> Seq<char>;

/// `HeaderValue::from_static`
#[verifier::external_body]
pub fn header_value(s: &'static str) -> (r: http::HeaderValue)
    ensures
        hval(r) == s@,
{
    http::HeaderValue::from_static(s)
}
} // verus!

verus! {
/// `builder.status(s)`
#[verifier::external_body]
pub fn builder_status(b: http::response::Builder, s: http::StatusCode) -> (r: http::response::Builder)
    ensures
        bst(r) == s,
        bhs(r) == bhs(b),
{
    b.status(s)
}

/// `builder.body(b)`: cannot fail, the builder was only given values of the right types
#[verifier::external_body]
pub fn builder_body<T>(b: http::response::Builder, body: T) -> (r: Result<http::Response<T>, http::Error>)
    ensures
        r is Ok,
        resp(r->Ok_0) == (Resp { status: bst(b), headers: bhs(b), body: body }),
{
    b.body(body)
}

/// `headers.insert(k, v)`
#[verifier::external_body]
pub fn hdr_insert(h: &mut http::HeaderMap<http::HeaderValue>, k: &http::header::HeaderName, v: http::HeaderValue)
    ensures
        hmv(*final(h)) == hmv(*old(h)).insert(*k, seq![hval(v)]),
{
    h.insert(k, v);
}

/// `r.unwrap()` where it must not panic
#[verifier::external_body]
pub fn unwrap_sure<T, E: std::fmt::Debug>(r: Result<T, E>) -> (t: T)
    requires
        r is Ok,
    ensures
        r->Ok_0 == t,
{
    r.unwrap()
}

#[verifier::external_trait_specification]
pub trait ExError: std::fmt::Debug + std::fmt::Display {
    type ExternalTraitSpecificationFor: std::error::Error;
}

/// the text an error displays
pub uninterp spec fn err_text<T>(t: T) -> Seq<char>;

/// the text of an `ObsidianError` is the one its `fmt` writes
#[verifier::external_body]
pub proof fn axiom_err_text()
    ensures
        forall|e: crate::error::ObsidianError| #[trigger] err_text(e) == error_text(e),
        forall|e: crate::router::FormError| #[trigger] err_text(e) == form_error_text(e),
{
}

#[verifier::external_body]
pub fn any_text<T: std::error::Error>(t: &T) -> (r: String)
    ensures
        r@ == err_text(*t),
{
    t.to_string()
}

/// the text an error of the deserializer displays (what its `fmt` writes: `form_error_body`)
pub open spec fn form_error_text(e: crate::router::FormError) -> Seq<char> {
    match e {
        crate::router::FormError::Message(m) => m@,
        crate::router::FormError::NoneError => "Input should not be None"@,
    }
}

/// the text an error displays (what its `fmt` writes: `error_body`)
pub open spec fn error_text(e: crate::error::ObsidianError) -> Seq<char> {
    match e {
        crate::error::ObsidianError::ParamError(m) => m@,
        crate::error::ObsidianError::GeneralError(m) => m@,
        crate::error::ObsidianError::JsonError(j) => j.text_spec(),
        crate::error::ObsidianError::FormError(f) => form_error_text(f),
        crate::error::ObsidianError::NoneError => "Input should not be None"@,
    }
}

impl Text for crate::error::ObsidianError {
    open spec fn text_spec(&self) -> Seq<char> {
        error_text(*self)
    }
}

impl Text for crate::router::FormError {
    open spec fn text_spec(&self) -> Seq<char> {
        form_error_text(*self)
    }
}

/// what was written to the formatter so far
pub uninterp spec fn written(f: std::fmt::Formatter<'_>) -> Seq<char>;

/// `f.write_str(t)`
#[verifier::external_body]
pub fn write_text<'a>(f: &mut std::fmt::Formatter<'a>, t: &str) -> (r: Result<(), std::fmt::Error>)
    ensures
        r is Ok ==> written(*final(f)) == written(*old(f)) + t@,
{
    f.write_str(t)
}

/// `h.clone()`
#[verifier::external_body]
pub fn handler_clone(h: &std::sync::Arc<dyn crate::router::Handler>) -> (r: std::sync::Arc<dyn crate::router::Handler>)
    ensures
        r == *h,
{
    h.clone()
}
} // verus!

verus! {
/// `r.unwrap_or_else(f)`
#[verifier::external_body]
pub fn unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> (t: T)
    requires
        r is Err ==> f.requires((r->Err_0,)),
    ensures
        r is Ok ==> t == r->Ok_0,
        r is Err ==> f.ensures((r->Err_0,), t),
{
    r.unwrap_or_else(f)
}
} // verus!

verus! {
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExInstant(std::time::Instant);

#[verifier::external_body]
pub fn now() -> std::time::Instant {
    std::time::Instant::now()
}

#[verifier::external_body]
pub fn elapsed(t: &std::time::Instant) -> std::time::Duration {
    t.elapsed()
}
} // verus!

verus! {
/// `o.map_or(d, f)`
#[verifier::external_body]
pub fn map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> (t: U)
    requires
        o is Some ==> f.requires((o->0,)),
    ensures
        o is Some ==> f.ensures((o->0,), t),
        o is None ==> t == d,
{
    o.map_or(d, f)
}
} // verus!

verus! {
// ---------------------------------------------------------------- split texts
/// `s.split(c)`: the texts between the occurrences of `c`
pub open spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 {
        seq![Seq::empty()]
    } else {
        let r = split(s.drop_first(), c);
        if s[0] == c {
            seq![Seq::<char>::empty()] + r
        } else {
            seq![seq![s[0]] + r[0]] + r.skip(1)
        }
    }
}

pub open spec fn not_empty() -> spec_fn(Seq<char>) -> bool {
    |s: Seq<char>| s.len() > 0
}

/// the segments of a path
pub open spec fn segs(s: Seq<char>) -> Seq<Seq<char>> {
    split(s, '/').filter(not_empty())
}

pub open spec fn strs(s: Seq<&str>) -> Seq<Seq<char>> {
    s.map_values(|x: &str| x@)
}

/// texts one after the other, with `sep` between
pub open spec fn join(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 {
        Seq::empty()
    } else if s.len() == 1 {
        s[0]
    } else {
        join(s.drop_last(), sep) + sep + s.last()
    }
}

/// an iterator over texts
#[verifier::external_body]
pub struct StrIter<'a>(std::iter::Peekable<std::vec::IntoIter<&'a str>>);

impl<'a> View for StrIter<'a> {
    type V = Seq<Seq<char>>;
    uninterp spec fn view(&self) -> Seq<Seq<char>>;
}

/// `s.split(c)`
#[verifier::external_body]
pub fn str_split<'a>(s: &'a str, c: char) -> (r: StrIter<'a>)
    ensures
        r@ == split(s@, c),
{
    StrIter(s.split(c).collect::<Vec<&'a str>>().into_iter().peekable())
}

/// what texts are collected into
pub trait FromStrs<'a>: std::iter::FromIterator<&'a str> {
    spec fn got(&self) -> Seq<Seq<char>>;
}

impl<'a> FromStrs<'a> for Vec<&'a str> {
    open spec fn got(&self) -> Seq<Seq<char>> {
        strs(self@)
    }
}

impl<'a> StrIter<'a> {
    /// `it.filter(f)` for a function of the text
    #[verifier::external_body]
    pub fn filter<F: Fn(&&'a str) -> bool>(self, f: F) -> (r: StrIter<'a>)
        requires
            forall|s: &'a str| f.requires((&s,)),
        ensures
            forall|p: spec_fn(Seq<char>) -> bool| (forall|s: &'a str, b: bool| f.ensures((&s,), b) ==> b == p(s@)) ==> r@ == #[trigger] self@.filter(p),
    {
        let mut f = f;
        StrIter(self.0.filter(|x| f(x)).collect::<Vec<&'a str>>().into_iter().peekable())
    }

    #[verifier::external_body]
    pub fn peekable(self) -> (r: StrIter<'a>)
        ensures
            r@ == self@,
    {
        self
    }

    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: StrIter<'a>)
        ensures
            r@ == self@.skip(if n <= self@.len() { n as int } else { self@.len() as int }),
    {
        StrIter(self.0.skip(n).collect::<Vec<&'a str>>().into_iter().peekable())
    }

    #[verifier::external_body]
    pub fn clone(&self) -> (r: StrIter<'a>)
        ensures
            r@ == self@,
    {
        StrIter(self.0.clone())
    }

    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures
            r == self@.len(),
    {
        self.0.count()
    }

    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && (r->0)@ == old(self)@[0] && final(self)@ == old(self)@.drop_first(),
    {
        self.0.next()
    }

    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&&'a str>)
        ensures
            final(self)@ == old(self)@,
            r is None <==> old(self)@.len() == 0,
            r is Some ==> (r->0)@ == old(self)@[0],
    {
        self.0.peek()
    }

    #[verifier::external_body]
    pub fn enumerate(self) -> (r: StrEnum<'a>)
        ensures
            r@ == self@,
            r.pos() == 0,
    {
        StrEnum(self.0.enumerate())
    }

    #[verifier::external_body]
    pub fn map<B, F: Fn(&'a str) -> B>(self, f: F) -> (r: StrMap<'a, F>)
        ensures
            r.items() == self@,
            r.fun() == f,
    {
        StrMap(self, f)
    }

    #[verifier::external_body]
    pub fn collect<C: FromStrs<'a>>(self) -> (r: C)
        ensures
            r.got() == self@,
    {
        self.0.collect()
    }
}

#[verifier::external_body]
pub struct StrEnum<'a>(std::iter::Enumerate<std::iter::Peekable<std::vec::IntoIter<&'a str>>>);

impl<'a> View for StrEnum<'a> {
    type V = Seq<Seq<char>>;
    uninterp spec fn view(&self) -> Seq<Seq<char>>;
}

impl<'a> StrEnum<'a> {
    pub uninterp spec fn pos(&self) -> int;

    /// `it.for_each(f)`
    #[verifier::external_body]
    pub fn for_each<F: Fn((usize, &'a str))>(self, f: F)
        requires
            forall|i: usize, s: &'a str| self.pos() <= i < self.pos() + self@.len() && s@ == self@[i - self.pos()] ==> #[trigger] f.requires(((i, s),)),
        ensures
            forall|i: int| 0 <= i < self@.len() ==> exists|j: usize, s: &'a str| j == self.pos() + i && s@ == #[trigger] self@[i] && #[trigger] f.ensures(((j, s),), ()),
    {
        self.0.for_each(f)
    }

    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, &'a str)>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@ && final(self).pos() == old(self).pos(),
            old(self)@.len() > 0 ==> {
                &&& r is Some
                &&& (r->0).0 == old(self).pos()
                &&& (r->0).1@ == old(self)@[0]
                &&& final(self)@ == old(self)@.drop_first()
                &&& final(self).pos() == old(self).pos() + 1
            },
    {
        self.0.next()
    }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(F)]
pub struct StrMap<'a, F>(StrIter<'a>, F);

impl<'a, F> StrMap<'a, F> {
    pub uninterp spec fn items(&self) -> Seq<Seq<char>>;

    pub uninterp spec fn fun(&self) -> F;

    #[verifier::external_body]
    pub fn collect<C: FromParts>(self) -> (r: C)
        where F: Fn(&'a str) -> C::Part
        requires
            forall|s: &'a str| self.fun().requires((s,)),
        ensures
            r.parts().len() == self.items().len(),
            forall|i: int| 0 <= i < r.parts().len() ==> exists|s: &'a str| s@ == self.items()[i] && #[trigger] self.fun().ensures((s,), #[trigger] r.parts()[i]),
    {
        (self.0.0).map(self.1).collect()
    }
}

pub trait FromParts: std::iter::FromIterator<Self::Part> {
    type Part;
    spec fn parts(&self) -> Seq<Self::Part>;
}

impl<B> FromParts for Vec<B> {
    type Part = B;
    open spec fn parts(&self) -> Seq<B> {
        self@
    }
}

/// `v.join(sep)`
#[verifier::external_body]
pub fn join_texts(v: &Vec<String>, sep: &str) -> (r: String)
    ensures
        r@ == join(texts(v@), sep@),
{
    v.join(sep)
}

/// `v.clone()`
#[verifier::external_body]
pub fn clone_texts(v: &Vec<String>) -> (r: Vec<String>)
    ensures
        r@ == v@,
{
    v.clone()
}

pub uninterp spec fn path_of(u: http::Uri) -> Seq<char>;

/// `uri.path()`
#[verifier::external_body]
pub fn uri_path(u: &http::Uri) -> (r: &str)
    ensures
        r@ == path_of(*u),
{
    u.path()
}
} // verus!

verus! {
// ---------------------------------------------------------------- building texts
#[verifier::external_body]
pub fn string_from(s: &str) -> (r: String)
    ensures
        r@ == s@,
{
    String::from(s)
}

#[verifier::external_body]
pub fn string_cat(a: String, b: String) -> (r: String)
    ensures
        r@ == a@ + b@,
{
    a + &b
}

/// `s.push_str(t)`
#[verifier::external_body]
pub fn string_push(s: &mut String, t: &str)
    ensures
        final(s)@ == old(s)@ + t@,
{
    s.push_str(t)
}

/// `s.as_ref()` for a text
#[verifier::external_body]
pub fn string_ref(s: &String) -> (r: &str)
    ensures
        r@ == s@,
{
    s.as_str()
}

/// the methods a registration names
pub uninterp spec fn method(name: Seq<char>) -> http::Method;

#[verifier::external_body]
pub fn method_get() -> (r: http::Method)
    ensures
        r == method("GET"@),
{
    http::Method::GET
}

#[verifier::external_body]
pub fn method_post() -> (r: http::Method)
    ensures
        r == method("POST"@),
{
    http::Method::POST
}

#[verifier::external_body]
pub fn method_put() -> (r: http::Method)
    ensures
        r == method("PUT"@),
{
    http::Method::PUT
}

#[verifier::external_body]
pub fn method_patch() -> (r: http::Method)
    ensures
        r == method("PATCH"@),
{
    http::Method::PATCH
}

#[verifier::external_body]
pub fn method_delete() -> (r: http::Method)
    ensures
        r == method("DELETE"@),
{
    http::Method::DELETE
}

/// what a scope's function made of a router: it has only the public functions of the router, all of
/// which keep the trie in order
pub uninterp spec fn scoped<F>(f: F, r: crate::router::Router) -> bool;

#[verifier::external_body]
pub fn run_scope<F: Fn(&mut crate::router::Router)>(f: &F, r: &mut crate::router::Router)
    requires
        crate::router::router_ok(*old(r)),
    ensures
        crate::router::router_ok(*final(r)),
        scoped(*f, *final(r)),
{
    f(r)
}
} // verus!

verus! {
// ---------------------------------------------------------------- deserializing forms (C13)
#[verifier::external_trait_specification]
pub trait ExVisitor<'de>: Sized {
    type ExternalTraitSpecificationFor: serde::de::Visitor<'de>;
    type Value;
}

#[verifier::external_trait_specification]
pub trait ExDeserializeSeed<'de>: Sized {
    type ExternalTraitSpecificationFor: serde::de::DeserializeSeed<'de>;
    type Value;
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseBoolError(std::str::ParseBoolError);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseFloatError(std::num::ParseFloatError);

/// what a target type is told
pub enum Event {
    Text(Seq<char>),
    Char(char),
    Absent,
    Present(Seq<Seq<char>>),
    Unit,
    Newtype(Seq<Seq<char>>),
    Sequence(Seq<Seq<char>>),
    Names(Seq<(Seq<char>, Seq<Seq<char>>)>),
}

/// `r` is a possible outcome of the visitor when it is told this. A visitor that gets a deserializer
/// (present value, newtype, sequence, names) works on it through the functions under contract only.
pub uninterp spec fn told_event<V, T>(v: V, e: Event, r: Result<T, crate::router::FormError>) -> bool;

/// the same for a value of a primitive type
pub uninterp spec fn told_value<V, P, T>(v: V, p: P, r: Result<T, crate::router::FormError>) -> bool;

/// `r` is a possible outcome of the seed on the values that are left; `after` are left behind
pub uninterp spec fn seeded<S, T>(s: S, before: Seq<Seq<char>>, after: Seq<Seq<char>>, r: Result<T, crate::router::FormError>) -> bool;

/// `r` is a possible outcome of the seed on a name
pub uninterp spec fn seeded_name<S, T>(s: S, name: Seq<char>, r: Result<T, crate::router::FormError>) -> bool;

/// the end of a sequence of values, with at least one of them
pub open spec fn rest_of(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> bool {
    0 < b.len() <= a.len() && b == a.skip(a.len() - b.len())
}

#[verifier::external_body]
pub fn visit_text<'de, V: serde::de::Visitor<'de>>(v: V, t: &str) -> (r: Result<V::Value, crate::router::FormError>)
    ensures
        told_event(v, Event::Text(t@), r),
{
    v.visit_str(t)
}

#[verifier::external_body]
pub fn visit_string<'de, V: serde::de::Visitor<'de>>(v: V, t: String) -> (r: Result<V::Value, crate::router::FormError>)
    ensures
        told_event(v, Event::Text(t@), r),
{
    v.visit_string(t)
}

#[verifier::external_body]
pub fn visit_char<'de, V: serde::de::Visitor<'de>>(v: V, c: char) -> (r: Result<V::Value, crate::router::FormError>)
    ensures
        told_event(v, Event::Char(c), r),
{
    v.visit_char(c)
}

#[verifier::external_body]
pub fn visit_none<'de, V: serde::de::Visitor<'de>>(v: V) -> (r: Result<V::Value, crate::router::FormError>)
    ensures
        told_event(v, Event::Absent, r),
{
    v.visit_none()
}

#[verifier::external_body]
pub fn visit_unit<'de, V: serde::de::Visitor<'de>>(v: V) -> (r: Result<V::Value, crate::router::FormError>)
    ensures
        told_event(v, Event::Unit, r),
{
    v.visit_unit()
}

/// a value of a primitive type as a deserializer: tells its visitor the value, whatever it is asked for
#[verifier::external_body]
#[verifier::accept_recursive_types(P)]
pub struct Prim<P>(P);

impl<P> Prim<P> {
    pub uninterp spec fn val(&self) -> P;
}

#[verifier::external_body]
pub fn prim<P>(p: P) -> (r: Prim<P>)
    ensures
        r.val() == p,
{
    Prim(p)
}

#[verifier::external_body]
pub fn prim_visit<'de, P, V: serde::de::Visitor<'de>>(p: Prim<P>, v: V) -> (r: Result<V::Value, crate::router::FormError>)
    ensures
        told_value(v, p.val(), r),
{
    unimplemented!()
}

/// a name as a deserializer
#[verifier::external_body]
pub struct NamePrim {}

impl NamePrim {
    pub uninterp spec fn val(&self) -> Seq<char>;
}

/// `name.clone().into_deserializer()`
#[verifier::external_body]
pub fn cow_clone<'a>(t: &std::borrow::Cow<'a, str>) -> (r: std::borrow::Cow<'a, str>)
    ensures
        r.name() == t.name(),
{
    t.clone()
}

#[verifier::external_body]
pub fn name_prim<'a>(t: std::borrow::Cow<'a, str>) -> (r: NamePrim)
    ensures
        r.val() == t.name(),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn name_visit<'de, V: serde::de::Visitor<'de>>(p: NamePrim, v: V) -> (r: Result<V::Value, crate::router::FormError>)
    ensures
        told_event(v, Event::Text(p.val()), r),
{
    unimplemented!()
}

/// `&**name`
#[verifier::external_body]
pub fn visit_name<'a, 'de, V: serde::de::Visitor<'de>>(v: V, t: &std::borrow::Cow<'a, str>) -> (r: Result<V::Value, crate::router::FormError>)
    ensures
        told_event(v, Event::Text(t.name()), r),
{
    v.visit_str(t)
}

#[verifier::external_body]
pub fn string_empty() -> (r: String)
    ensures
        r@ == Seq::<char>::empty(),
{
    String::default()
}

/// `a.starts_with(b)` for slices of texts
#[verifier::external_body]
pub fn starts_with_texts(a: &[String], b: &[String]) -> (r: bool)
    ensures
        r == (b@.len() <= a@.len() && texts(a@).take(b@.len() as int) == texts(b@)),
{
    a.starts_with(b)
}

/// `&s[a..]` of a slice
#[verifier::external_body]
pub fn slice_from<'a, T>(s: &&'a [T], a: usize) -> (r: &'a [T])
    requires
        a <= s@.len(),
    ensures
        r@ == s@.skip(a as int),
{
    &s[a..]
}

#[verifier::external_body]
pub fn slice_to<'a, T>(s: &&'a [T], b: usize) -> (r: &'a [T])
    requires
        b <= s@.len(),
    ensures
        r@ == s@.take(b as int),
{
    &s[..b]
}

pub fn some_of<T>(t: T) -> (r: Option<T>)
    ensures
        r == Some(t),
{
    Some(t)
}

/// `r.map(Some)` and the like
#[verifier::external_body]
pub fn res_map<T, U, E, F: FnOnce(T) -> U>(x: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires
        x is Ok ==> f.requires((x->Ok_0,)),
    ensures
        x is Ok ==> r is Ok && f.ensures((x->Ok_0,), r->Ok_0),
        x is Err ==> r is Err && r->Err_0 == x->Err_0,
{
    x.map(f)
}

/// what is left of the entries of a form
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct ExPeekable<I: std::iter::Iterator>(std::iter::Peekable<I>);

pub type FormEntries<'de> = std::iter::Peekable<std::collections::hash_map::Iter<'de, std::borrow::Cow<'de, str>, std::borrow::Cow<'de, [String]>>>;

pub uninterp spec fn left<'de>(it: FormEntries<'de>) -> Seq<(Seq<char>, Seq<Seq<char>>)>;

#[verifier::external_body]
pub fn entries_peek<'a, 'de>(it: &'a mut FormEntries<'de>) -> (r: Option<&'a (&'de std::borrow::Cow<'de, str>, &'de std::borrow::Cow<'de, [String]>)>)
    ensures
        left(*final(it)) == left(*old(it)),
        left(*old(it)).len() == 0 <==> r is None,
        r is Some ==> (*r->0).0.name() == left(*old(it))[0].0 && (*r->0).1.vals() == left(*old(it))[0].1,
{
    it.peek()
}

#[verifier::external_body]
pub fn entries_next<'de>(it: &mut FormEntries<'de>) -> (r: Option<(&'de std::borrow::Cow<'de, str>, &'de std::borrow::Cow<'de, [String]>)>)
    ensures
        left(*old(it)).len() == 0 ==> r is None && left(*final(it)) == left(*old(it)),
        left(*old(it)).len() > 0 ==> {
            &&& r is Some
            &&& (r->0).0.name() == left(*old(it))[0].0
            &&& (r->0).1.vals() == left(*old(it))[0].1
            &&& left(*final(it)) == left(*old(it)).drop_first()
        },
{
    it.next()
}

/// `val.is_empty()` of a borrowed list
#[verifier::external_body]
pub fn cow_is_empty<'a>(c: &std::borrow::Cow<'a, [String]>) -> (r: bool)
    ensures
        r == (c.vals().len() == 0),
{
    c.is_empty()
}

/// `&*val`
#[verifier::external_body]
pub fn cow_slice<'a, 'de>(c: &'de std::borrow::Cow<'a, [String]>) -> (r: &'de [String])
    ensures
        texts(r@) == c.vals(),
{
    c
}

/// `r` is a possible outcome of deserializing the target from these entries
pub uninterp spec fn target_of<T>(e: Seq<(Seq<char>, Seq<Seq<char>>)>, r: Result<T, crate::router::FormError>) -> bool;

/// a map of names to lists of values, with any hasher
pub uninterp spec fn fmap_with<K, V, S>(m: std::collections::HashMap<K, V, S>) -> Map<Seq<char>, Seq<Seq<char>>>;

pub axiom fn axiom_fmap_with<K, V>(m: std::collections::HashMap<K, V>)
    ensures
        fmap_with(m) == fmap(m),
;

#[verifier::external_body]
pub fn entries_iter<'de, S: std::hash::BuildHasher>(m: &'de std::collections::HashMap<std::borrow::Cow<'de, str>, std::borrow::Cow<'de, [String]>, S>) -> (r: std::collections::hash_map::Iter<'de, std::borrow::Cow<'de, str>, std::borrow::Cow<'de, [String]>>)
    ensures
        entries_of(iterated(r), fmap_with(*m)),
{
    m.iter()
}

pub uninterp spec fn iterated<'de>(it: std::collections::hash_map::Iter<'de, std::borrow::Cow<'de, str>, std::borrow::Cow<'de, [String]>>) -> Seq<(Seq<char>, Seq<Seq<char>>)>;

#[verifier::external_body]
pub fn entries_peekable<'de>(it: std::collections::hash_map::Iter<'de, std::borrow::Cow<'de, str>, std::borrow::Cow<'de, [String]>>) -> (r: FormEntries<'de>)
    ensures
        left(r) == iterated(it),
{
    it.peekable()
}
} // verus!
