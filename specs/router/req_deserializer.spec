//@for C13
//@expand from_string_forms_impl
//@expand from_string_forms_key_impl
//@item enum Error
//@item struct FormDeserializer
//@item struct FormValueDeserializer
//@item struct FromSeq
//@item struct FromMap
//@ghost
use crate::vshim::*;

/// the values a deserializer works on: there is always one
pub open spec fn vals(d: FormValueDeserializer) -> Seq<Seq<char>> {
    texts(d.input@)
}

pub open spec fn value_ok(d: FormValueDeserializer) -> bool {
    d.input@.len() > 0
}

pub proof fn lemma_rest(v: Seq<Seq<char>>)
    requires
        v.len() > 0,
    ensures
        rest_of(v, v),
{
    assert(v.skip(0) =~= v);
}

/// the values a sequence has not given yet
pub open spec fn todo<'a, 'de>(s: FromSeq<'a, 'de>) -> Seq<Seq<char>> {
    if s.first {
        vals(*s.de)
    } else {
        vals(*s.de).skip(1)
    }
}

/// the entries a map has not given yet
pub open spec fn names<'a, 'de>(m: FromMap<'a, 'de>) -> Seq<(Seq<char>, Seq<Seq<char>>)> {
    if m.first || left(m.de.input).len() == 0 {
        left(m.de.input)
    } else {
        left(m.de.input).skip(1)
    }
}

/// the target is told this, and the outcome is handed on
pub open spec fn tells<V, T>(v: V, e: Event, r: Result<T, Error>) -> bool {
    told_event(v, e, r)
}

#[verifier::external_body]
pub fn visit_some<'a, 'de, V: Visitor<'de>>(v: V, d: &'a mut FormValueDeserializer<'de>) -> (r: Result<V::Value, Error>)
    requires
        value_ok(*old(d)),
    ensures
        rest_of(vals(*old(d)), vals(*final(d))),
        told_event(v, Event::Present(vals(*old(d))), r),
{
    v.visit_some(d)
}

#[verifier::external_body]
pub fn visit_newtype<'a, 'de, V: Visitor<'de>>(v: V, d: &'a mut FormValueDeserializer<'de>) -> (r: Result<V::Value, Error>)
    requires
        value_ok(*old(d)),
    ensures
        rest_of(vals(*old(d)), vals(*final(d))),
        told_event(v, Event::Newtype(vals(*old(d))), r),
{
    v.visit_newtype_struct(d)
}

#[verifier::external_body]
pub fn visit_seq<'a, 'de, V: Visitor<'de>>(v: V, s: FromSeq<'a, 'de>) -> (r: Result<V::Value, Error>)
    requires
        value_ok(*s.de),
    ensures
        rest_of(vals(*old(s.de)), vals(*final(s.de))),
        told_event(v, Event::Sequence(todo(s)), r),
{
    v.visit_seq(s)
}

#[verifier::external_body]
pub fn visit_map<'a, 'de, V: Visitor<'de>>(v: V, m: FromMap<'a, 'de>) -> (r: Result<V::Value, Error>)
    ensures
        told_event(v, Event::Names(names(m)), r),
{
    v.visit_map(m)
}

#[verifier::external_body]
pub fn seed_value<'a, 'de, S: DeserializeSeed<'de>>(s: S, d: &'a mut FormValueDeserializer<'de>) -> (r: Result<S::Value, Error>)
    requires
        value_ok(*old(d)),
    ensures
        rest_of(vals(*old(d)), vals(*final(d))),
        seeded(s, vals(*old(d)), vals(*final(d)), r),
{
    s.deserialize(d)
}

/// `T::deserialize` on the entries of a form
#[verifier::external_body]
pub fn target_deserialize<'a, 'de, T: Deserialize<'de>>(d: &'a mut FormDeserializer<'de>) -> (r: Result<T, Error>)
    ensures
        target_of::<T>(left(old(d).input), r),
{
    T::deserialize(d)
}

/// `FormValueDeserializer::new(&list)`
pub fn value_of_list<'de>(c: &'de Cow<'de, [String]>) -> (r: FormValueDeserializer<'de>)
    ensures
        vals(r) == c.vals(),
{
    value_new(cow_slice(c))
}

/// a sequence of elements each of which takes one value
pub open spec fn one_by_one(v: Seq<Seq<char>>, todos: Seq<Seq<Seq<char>>>) -> bool {
    &&& todos.len() > 0
    &&& todos[0] == v
    &&& forall|k: int| 0 <= k < todos.len() - 1 ==> (#[trigger] todos[k]).len() > 0 && todos[k + 1] == todos[k].skip(1)
}

/// the `k`th element gets the `k`th value, and after the last value there is none
pub proof fn lemma_one_by_one(v: Seq<Seq<char>>, todos: Seq<Seq<Seq<char>>>, k: int)
    requires
        one_by_one(v, todos),
        0 <= k < todos.len(),
    ensures
        k <= v.len(),
        todos[k] == v.skip(k),
        k < v.len() ==> todos[k][0] == v[k],
        todos[k].len() == 0 <==> k == v.len(),
    decreases k,
{
    if k > 0 {
        lemma_one_by_one(v, todos, k - 1);
        assert(todos[k - 1 + 1] == todos[k - 1].skip(1));
        assert(v.skip(k - 1).skip(1) =~= v.skip(k));
    } else {
        assert(v.skip(0) =~= v);
    }
}

/// a name: the seed asks for it through the functions for names, which do not go on
#[verifier::external_body]
pub fn seed_name<'a, 'de, S: DeserializeSeed<'de>>(s: S, d: &'a mut FormDeserializer<'de>) -> (r: Result<S::Value, Error>)
    requires
        left(old(d).input).len() > 0,
    ensures
        left(final(d).input) == left(old(d).input),
        seeded_name(s, left(old(d).input)[0].0, r),
{
    s.deserialize(d)
}

//@extract value_any from Deserializer for FormValueDeserializer::deserialize_any
//@fmethod deserialize_string = value_string
//@sig
pub fn value_any<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        final(this).input == old(this).input,
        told_event(visitor, Event::Text(vals(*old(this))[0]), r),
//@extract value_string from Deserializer for FormValueDeserializer::deserialize_string
//@fmethod visit_string = crate::vshim::visit_string
//@fmethod visit_str = crate::vshim::visit_text
//@sig
pub fn value_string<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        final(this).input == old(this).input,
        told_event(visitor, Event::Text(vals(*old(this))[0]), r),
//@extract value_str from Deserializer for FormValueDeserializer::deserialize_str
//@fmethod visit_string = crate::vshim::visit_string
//@fmethod visit_str = crate::vshim::visit_text
//@sig
pub fn value_str<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        final(this).input == old(this).input,
        told_event(visitor, Event::Text(vals(*old(this))[0]), r),
//@extract value_identifier from Deserializer for FormValueDeserializer::deserialize_identifier
//@fmethod deserialize_str = value_str
//@sig
pub fn value_identifier<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        final(this).input == old(this).input,
        told_event(visitor, Event::Text(vals(*old(this))[0]), r),
//@extract value_seq from Deserializer for FormValueDeserializer::deserialize_seq
//@fmethod visit_seq = visit_seq
//@sig
pub fn value_seq<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        rest_of(vals(*old(this)), vals(*final(this))),
        told_event(visitor, Event::Sequence(vals(*old(this))), r),
//@extract value_tuple from Deserializer for FormValueDeserializer::deserialize_tuple
//@fmethod deserialize_seq = value_seq
//@sig
pub fn value_tuple<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, _len: usize, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        rest_of(vals(*old(this)), vals(*final(this))),
        told_event(visitor, Event::Sequence(vals(*old(this))), r),
//@extract value_char from Deserializer for FormValueDeserializer::deserialize_char
//@fmethod chars = &crate::vshim::chars
//@fmethod visit_char = crate::vshim::visit_char
//@sig
pub fn value_char<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        final(this).input == old(this).input,
        vals(*old(this))[0].len() == 0 ==> r is Err,
        vals(*old(this))[0].len() > 0 ==> told_event(visitor, Event::Char(vals(*old(this))[0][0]), r),
//@extract value_option from Deserializer for FormValueDeserializer::deserialize_option
//@fmethod starts_with = crate::vshim::starts_with_texts
//@fpath String::default = crate::vshim::string_empty
//@fmethod visit_none = crate::vshim::visit_none
//@fmethod visit_some = visit_some
//@sig
pub fn value_option<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        rest_of(vals(*old(this)), vals(*final(this))),
        vals(*old(this))[0].len() == 0 ==> told_event(visitor, Event::Absent, r),
        vals(*old(this))[0].len() > 0 ==> told_event(visitor, Event::Present(vals(*old(this))), r),
//@start
        proof {
            let v = vals(*this);
            lemma_rest(v);
            assert(v.take(1) =~= seq![v[0]]);
            assert(v[0].len() == 0 ==> v[0] =~= Seq::<char>::empty());
            assert(seq![v[0]][0] == v[0]);
            assert forall|b: Seq<String>| b.len() == 1 && (#[trigger] b[0])@.len() == 0 implies texts(b) == seq![Seq::<char>::empty()] by {
                assert(b[0]@ =~= Seq::<char>::empty());
                assert(texts(b) =~= seq![Seq::<char>::empty()]);
            }
        }
//@extract value_unit from Deserializer for FormValueDeserializer::deserialize_unit
//@fmethod visit_unit = crate::vshim::visit_unit
//@sig
pub fn value_unit<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        final(this).input == old(this).input,
        told_event(visitor, Event::Unit, r),
//@extract value_unit_struct from Deserializer for FormValueDeserializer::deserialize_unit_struct
//@fmethod deserialize_unit = value_unit
//@sig
pub fn value_unit_struct<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, _name: &'static str, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        final(this).input == old(this).input,
        told_event(visitor, Event::Unit, r),
//@extract value_newtype_struct from Deserializer for FormValueDeserializer::deserialize_newtype_struct
//@fmethod visit_newtype_struct = visit_newtype
//@sig
pub fn value_newtype_struct<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, _name: &'static str, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        rest_of(vals(*old(this)), vals(*final(this))),
        told_event(visitor, Event::Newtype(vals(*old(this))), r),
//@extract value_bool from Deserializer for FormValueDeserializer::deserialize_bool
//@fmethod parse = &crate::vshim::parse_text
//@fmethod into_deserializer = crate::vshim::prim
//@fmethod deserialize_bool = crate::vshim::prim_visit
//@sig
pub fn value_bool<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        final(this).input == old(this).input,
        match parse_of::<bool>(vals(*old(this))[0]) {
            Ok(v) => told_value(visitor, v, r),
            Err(_) => r is Err,
        },
//@extract value_u8 from Deserializer for FormValueDeserializer::deserialize_u8
//@fmethod parse = &crate::vshim::parse_text
//@fmethod into_deserializer = crate::vshim::prim
//@fmethod deserialize_u8 = crate::vshim::prim_visit
//@sig
pub fn value_u8<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        final(this).input == old(this).input,
        match parse_of::<u8>(vals(*old(this))[0]) {
            Ok(v) => told_value(visitor, v, r),
            Err(_) => r is Err,
        },
//@extract value_u16 from Deserializer for FormValueDeserializer::deserialize_u16
//@fmethod parse = &crate::vshim::parse_text
//@fmethod into_deserializer = crate::vshim::prim
//@fmethod deserialize_u16 = crate::vshim::prim_visit
//@sig
pub fn value_u16<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        final(this).input == old(this).input,
        match parse_of::<u16>(vals(*old(this))[0]) {
            Ok(v) => told_value(visitor, v, r),
            Err(_) => r is Err,
        },
//@extract value_u32 from Deserializer for FormValueDeserializer::deserialize_u32
//@fmethod parse = &crate::vshim::parse_text
//@fmethod into_deserializer = crate::vshim::prim
//@fmethod deserialize_u32 = crate::vshim::prim_visit
//@sig
pub fn value_u32<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        final(this).input == old(this).input,
        match parse_of::<u32>(vals(*old(this))[0]) {
            Ok(v) => told_value(visitor, v, r),
            Err(_) => r is Err,
        },
//@extract value_u64 from Deserializer for FormValueDeserializer::deserialize_u64
//@fmethod parse = &crate::vshim::parse_text
//@fmethod into_deserializer = crate::vshim::prim
//@fmethod deserialize_u64 = crate::vshim::prim_visit
//@sig
pub fn value_u64<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        final(this).input == old(this).input,
        match parse_of::<u64>(vals(*old(this))[0]) {
            Ok(v) => told_value(visitor, v, r),
            Err(_) => r is Err,
        },
//@extract value_i8 from Deserializer for FormValueDeserializer::deserialize_i8
//@fmethod parse = &crate::vshim::parse_text
//@fmethod into_deserializer = crate::vshim::prim
//@fmethod deserialize_i8 = crate::vshim::prim_visit
//@sig
pub fn value_i8<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        final(this).input == old(this).input,
        match parse_of::<i8>(vals(*old(this))[0]) {
            Ok(v) => told_value(visitor, v, r),
            Err(_) => r is Err,
        },
//@extract value_i16 from Deserializer for FormValueDeserializer::deserialize_i16
//@fmethod parse = &crate::vshim::parse_text
//@fmethod into_deserializer = crate::vshim::prim
//@fmethod deserialize_i16 = crate::vshim::prim_visit
//@sig
pub fn value_i16<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        final(this).input == old(this).input,
        match parse_of::<i16>(vals(*old(this))[0]) {
            Ok(v) => told_value(visitor, v, r),
            Err(_) => r is Err,
        },
//@extract value_i32 from Deserializer for FormValueDeserializer::deserialize_i32
//@fmethod parse = &crate::vshim::parse_text
//@fmethod into_deserializer = crate::vshim::prim
//@fmethod deserialize_i32 = crate::vshim::prim_visit
//@sig
pub fn value_i32<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        final(this).input == old(this).input,
        match parse_of::<i32>(vals(*old(this))[0]) {
            Ok(v) => told_value(visitor, v, r),
            Err(_) => r is Err,
        },
//@extract value_i64 from Deserializer for FormValueDeserializer::deserialize_i64
//@fmethod parse = &crate::vshim::parse_text
//@fmethod into_deserializer = crate::vshim::prim
//@fmethod deserialize_i64 = crate::vshim::prim_visit
//@sig
pub fn value_i64<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        final(this).input == old(this).input,
        match parse_of::<i64>(vals(*old(this))[0]) {
            Ok(v) => told_value(visitor, v, r),
            Err(_) => r is Err,
        },
//@extract value_f32 from Deserializer for FormValueDeserializer::deserialize_f32
//@fmethod parse = &crate::vshim::parse_text
//@fmethod into_deserializer = crate::vshim::prim
//@fmethod deserialize_f32 = crate::vshim::prim_visit
//@sig
pub fn value_f32<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        final(this).input == old(this).input,
        match parse_of::<f32>(vals(*old(this))[0]) {
            Ok(v) => told_value(visitor, v, r),
            Err(_) => r is Err,
        },
//@extract value_f64 from Deserializer for FormValueDeserializer::deserialize_f64
//@fmethod parse = &crate::vshim::parse_text
//@fmethod into_deserializer = crate::vshim::prim
//@fmethod deserialize_f64 = crate::vshim::prim_visit
//@sig
pub fn value_f64<'de, V: Visitor<'de>>(this: &mut FormValueDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    requires
        value_ok(*old(this)),
    ensures
        final(this).input == old(this).input,
        match parse_of::<f64>(vals(*old(this))[0]) {
            Ok(v) => told_value(visitor, v, r),
            Err(_) => r is Err,
        },
//@extract value_new from FormValueDeserializer::new
//@sig
pub fn value_new<'de>(input: &'de [std::string::String]) -> (r: FormValueDeserializer<'de>)
//@spec
    ensures
        r.input == input,
//@fn FromSeq::new
//@ret r
//@spec
    requires
        value_ok(*old(de)),
    ensures
        *r.de == *old(de),
        *final(r.de) == *final(de),
        r.first,
//@extract next_element from SeqAccess for FromSeq::next_element_seed
//@slices
//@fmethod deserialize = seed_value
//@fmethod map = crate::vshim::res_map
//@sig
pub fn next_element<'a, 'de, T: DeserializeSeed<'de>>(this: &mut FromSeq<'a, 'de>, seed: T) -> (r: Result<Option<T::Value>, Error>)
//@spec
    requires
        value_ok(*old(this).de),
    ensures
        value_ok(*final(this).de),
        todo(*old(this)).len() == 0 ==> r == Ok::<Option<T::Value>, Error>(None) && *final(this) == *old(this),
        todo(*old(this)).len() > 0 ==> {
            &&& !final(this).first
            &&& rest_of(todo(*old(this)), vals(*final(this).de))
            &&& exists|x: Result<T::Value, Error>| {
                &&& #[trigger] seeded(seed, todo(*old(this)), vals(*final(this).de), x)
                &&& x is Ok ==> r == Ok::<Option<T::Value>, Error>(Some(x->Ok_0))
                &&& x is Err ==> r == Err::<Option<T::Value>, Error>(x->Err_0)
            }
        },
//@start
        let ghost __old = *this;
//@after "if !self.first"
        proof {
            assert(texts(__old.de.input@.skip(1)) =~= texts(__old.de.input@).skip(1));
            assert(vals(*this.de) == todo(__old));
        }
//@extract names_any from Deserializer for FormDeserializer::deserialize_any
//@fmethod deserialize_map = names_map
//@sig
pub fn names_any<'a, 'de, V: Visitor<'de>>(this: &'a mut FormDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    ensures
        told_event(visitor, Event::Names(left(old(this).input)), r),
//@extract names_map from Deserializer for FormDeserializer::deserialize_map
//@fmethod visit_map = visit_map
//@sig
pub fn names_map<'a, 'de, V: Visitor<'de>>(this: &'a mut FormDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    ensures
        told_event(visitor, Event::Names(left(old(this).input)), r),
//@extract names_string from Deserializer for FormDeserializer::deserialize_string
//@fmethod deserialize_str = names_str
//@sig
pub fn names_string<'a, 'de, V: Visitor<'de>>(this: &'a mut FormDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    ensures
        left(final(this).input) == left(old(this).input),
        left(old(this).input).len() == 0 ==> r is Err,
        left(old(this).input).len() > 0 ==> told_event(visitor, Event::Text(left(old(this).input)[0].0), r),
//@extract names_str from Deserializer for FormDeserializer::deserialize_str
//@fmethod peek = &mut crate::vshim::entries_peek
//@fmethod visit_str = crate::vshim::visit_name
//@sig
pub fn names_str<'a, 'de, V: Visitor<'de>>(this: &'a mut FormDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    ensures
        left(final(this).input) == left(old(this).input),
        left(old(this).input).len() == 0 ==> r is Err,
        left(old(this).input).len() > 0 ==> told_event(visitor, Event::Text(left(old(this).input)[0].0), r),
//@extract names_identifier from Deserializer for FormDeserializer::deserialize_identifier
//@fmethod deserialize_str = names_str
//@sig
pub fn names_identifier<'a, 'de, V: Visitor<'de>>(this: &'a mut FormDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    ensures
        left(final(this).input) == left(old(this).input),
        left(old(this).input).len() == 0 ==> r is Err,
        left(old(this).input).len() > 0 ==> told_event(visitor, Event::Text(left(old(this).input)[0].0), r),
//@extract names_bool from Deserializer for FormDeserializer::deserialize_bool
//@fmethod peek = &mut crate::vshim::entries_peek
//@fmethod clone = crate::vshim::cow_clone
//@fmethod into_deserializer = crate::vshim::name_prim
//@fmethod deserialize_bool = crate::vshim::name_visit
//@sig
pub fn names_bool<'a, 'de, V: Visitor<'de>>(this: &'a mut FormDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    ensures
        left(final(this).input) == left(old(this).input),
        left(old(this).input).len() == 0 ==> r is Err,
        left(old(this).input).len() > 0 ==> told_event(visitor, Event::Text(left(old(this).input)[0].0), r),
//@extract names_u8 from Deserializer for FormDeserializer::deserialize_u8
//@fmethod peek = &mut crate::vshim::entries_peek
//@fmethod clone = crate::vshim::cow_clone
//@fmethod into_deserializer = crate::vshim::name_prim
//@fmethod deserialize_u8 = crate::vshim::name_visit
//@sig
pub fn names_u8<'a, 'de, V: Visitor<'de>>(this: &'a mut FormDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    ensures
        left(final(this).input) == left(old(this).input),
        left(old(this).input).len() == 0 ==> r is Err,
        left(old(this).input).len() > 0 ==> told_event(visitor, Event::Text(left(old(this).input)[0].0), r),
//@extract names_u16 from Deserializer for FormDeserializer::deserialize_u16
//@fmethod peek = &mut crate::vshim::entries_peek
//@fmethod clone = crate::vshim::cow_clone
//@fmethod into_deserializer = crate::vshim::name_prim
//@fmethod deserialize_u16 = crate::vshim::name_visit
//@sig
pub fn names_u16<'a, 'de, V: Visitor<'de>>(this: &'a mut FormDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    ensures
        left(final(this).input) == left(old(this).input),
        left(old(this).input).len() == 0 ==> r is Err,
        left(old(this).input).len() > 0 ==> told_event(visitor, Event::Text(left(old(this).input)[0].0), r),
//@extract names_u32 from Deserializer for FormDeserializer::deserialize_u32
//@fmethod peek = &mut crate::vshim::entries_peek
//@fmethod clone = crate::vshim::cow_clone
//@fmethod into_deserializer = crate::vshim::name_prim
//@fmethod deserialize_u32 = crate::vshim::name_visit
//@sig
pub fn names_u32<'a, 'de, V: Visitor<'de>>(this: &'a mut FormDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    ensures
        left(final(this).input) == left(old(this).input),
        left(old(this).input).len() == 0 ==> r is Err,
        left(old(this).input).len() > 0 ==> told_event(visitor, Event::Text(left(old(this).input)[0].0), r),
//@extract names_u64 from Deserializer for FormDeserializer::deserialize_u64
//@fmethod peek = &mut crate::vshim::entries_peek
//@fmethod clone = crate::vshim::cow_clone
//@fmethod into_deserializer = crate::vshim::name_prim
//@fmethod deserialize_u64 = crate::vshim::name_visit
//@sig
pub fn names_u64<'a, 'de, V: Visitor<'de>>(this: &'a mut FormDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    ensures
        left(final(this).input) == left(old(this).input),
        left(old(this).input).len() == 0 ==> r is Err,
        left(old(this).input).len() > 0 ==> told_event(visitor, Event::Text(left(old(this).input)[0].0), r),
//@extract names_i8 from Deserializer for FormDeserializer::deserialize_i8
//@fmethod peek = &mut crate::vshim::entries_peek
//@fmethod clone = crate::vshim::cow_clone
//@fmethod into_deserializer = crate::vshim::name_prim
//@fmethod deserialize_i8 = crate::vshim::name_visit
//@sig
pub fn names_i8<'a, 'de, V: Visitor<'de>>(this: &'a mut FormDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    ensures
        left(final(this).input) == left(old(this).input),
        left(old(this).input).len() == 0 ==> r is Err,
        left(old(this).input).len() > 0 ==> told_event(visitor, Event::Text(left(old(this).input)[0].0), r),
//@extract names_i16 from Deserializer for FormDeserializer::deserialize_i16
//@fmethod peek = &mut crate::vshim::entries_peek
//@fmethod clone = crate::vshim::cow_clone
//@fmethod into_deserializer = crate::vshim::name_prim
//@fmethod deserialize_i16 = crate::vshim::name_visit
//@sig
pub fn names_i16<'a, 'de, V: Visitor<'de>>(this: &'a mut FormDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    ensures
        left(final(this).input) == left(old(this).input),
        left(old(this).input).len() == 0 ==> r is Err,
        left(old(this).input).len() > 0 ==> told_event(visitor, Event::Text(left(old(this).input)[0].0), r),
//@extract names_i32 from Deserializer for FormDeserializer::deserialize_i32
//@fmethod peek = &mut crate::vshim::entries_peek
//@fmethod clone = crate::vshim::cow_clone
//@fmethod into_deserializer = crate::vshim::name_prim
//@fmethod deserialize_i32 = crate::vshim::name_visit
//@sig
pub fn names_i32<'a, 'de, V: Visitor<'de>>(this: &'a mut FormDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    ensures
        left(final(this).input) == left(old(this).input),
        left(old(this).input).len() == 0 ==> r is Err,
        left(old(this).input).len() > 0 ==> told_event(visitor, Event::Text(left(old(this).input)[0].0), r),
//@extract names_i64 from Deserializer for FormDeserializer::deserialize_i64
//@fmethod peek = &mut crate::vshim::entries_peek
//@fmethod clone = crate::vshim::cow_clone
//@fmethod into_deserializer = crate::vshim::name_prim
//@fmethod deserialize_i64 = crate::vshim::name_visit
//@sig
pub fn names_i64<'a, 'de, V: Visitor<'de>>(this: &'a mut FormDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    ensures
        left(final(this).input) == left(old(this).input),
        left(old(this).input).len() == 0 ==> r is Err,
        left(old(this).input).len() > 0 ==> told_event(visitor, Event::Text(left(old(this).input)[0].0), r),
//@extract names_f32 from Deserializer for FormDeserializer::deserialize_f32
//@fmethod peek = &mut crate::vshim::entries_peek
//@fmethod clone = crate::vshim::cow_clone
//@fmethod into_deserializer = crate::vshim::name_prim
//@fmethod deserialize_f32 = crate::vshim::name_visit
//@sig
pub fn names_f32<'a, 'de, V: Visitor<'de>>(this: &'a mut FormDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    ensures
        left(final(this).input) == left(old(this).input),
        left(old(this).input).len() == 0 ==> r is Err,
        left(old(this).input).len() > 0 ==> told_event(visitor, Event::Text(left(old(this).input)[0].0), r),
//@extract names_f64 from Deserializer for FormDeserializer::deserialize_f64
//@fmethod peek = &mut crate::vshim::entries_peek
//@fmethod clone = crate::vshim::cow_clone
//@fmethod into_deserializer = crate::vshim::name_prim
//@fmethod deserialize_f64 = crate::vshim::name_visit
//@sig
pub fn names_f64<'a, 'de, V: Visitor<'de>>(this: &'a mut FormDeserializer<'de>, visitor: V) -> (r: Result<V::Value, Error>)
//@spec
    ensures
        left(final(this).input) == left(old(this).input),
        left(old(this).input).len() == 0 ==> r is Err,
        left(old(this).input).len() > 0 ==> told_event(visitor, Event::Text(left(old(this).input)[0].0), r),
//@fn FromMap::new
//@ret r
//@spec
    ensures
        *r.de == *old(de),
        *final(r.de) == *final(de),
        r.first,
//@extract next_key from MapAccess for FromMap::next_key_seed
//@fmethod peek = &mut crate::vshim::entries_peek
//@fmethod next = &mut crate::vshim::entries_next
//@fmethod deserialize = seed_name
//@fmethod map = crate::vshim::res_map
//@sig
pub fn next_key<'a, 'de, K: DeserializeSeed<'de>>(this: &mut FromMap<'a, 'de>, seed: K) -> (r: Result<Option<K::Value>, Error>)
//@spec
    ensures
        !final(this).first,
        left(final(this).de.input) == names(*old(this)),
        names(*old(this)).len() == 0 ==> r == Ok::<Option<K::Value>, Error>(None),
        names(*old(this)).len() > 0 ==> {
            exists|x: Result<K::Value, Error>| {
                &&& #[trigger] seeded_name(seed, names(*old(this))[0].0, x)
                &&& x is Ok ==> r == Ok::<Option<K::Value>, Error>(Some(x->Ok_0))
                &&& x is Err ==> r == Err::<Option<K::Value>, Error>(x->Err_0)
            }
        },
//@start
        let ghost __old = *this;
//@after "self.first = false"
        proof {
            let l = left(__old.de.input);
            if l.len() > 0 {
                assert(l.drop_first() =~= l.skip(1));
            }
            assert(left(this.de.input) == names(__old));
        }
//@extract next_value from MapAccess for FromMap::next_value_seed
//@fmethod peek = &mut crate::vshim::entries_peek
//@fmethod is_empty = crate::vshim::cow_is_empty
//@fmethod deserialize = seed_value
//@fpath FormValueDeserializer::new = value_of_list
//@sig
pub fn next_value<'a, 'de, V: DeserializeSeed<'de>>(this: &mut FromMap<'a, 'de>, seed: V) -> (r: Result<V::Value, Error>)
//@spec
    ensures
        final(this).first == old(this).first,
        left(final(this).de.input) == left(old(this).de.input),
        left(old(this).de.input).len() > 0 && left(old(this).de.input)[0].1.len() > 0 ==> exists|after: Seq<Seq<char>>| {
            &&& rest_of(left(old(this).de.input)[0].1, after)
            &&& #[trigger] seeded(seed, left(old(this).de.input)[0].1, after, r)
        },
        left(old(this).de.input).len() == 0 || left(old(this).de.input)[0].1.len() == 0 ==> r is Err,
//@extract names_new from FormDeserializer::from_cow_map
//@sig
pub fn names_new<'de>(input: FormEntries<'de>) -> (r: FormDeserializer<'de>)
//@spec
    ensures
        r.input == input,
//@fn from_cow_map
//@for C12 C13
//@ret r
//@fmethod iter = crate::vshim::entries_iter
//@fmethod peekable = crate::vshim::entries_peekable
//@fpath T::deserialize = target_deserialize
//@fpath FormDeserializer::from_cow_map = names_new
//@spec
    ensures
        form_decodes::<T>(fmap_with(*s), r),
//@extract form_error_body from Display for Error::fmt
//@for C08
//@fmethod write_str = crate::vshim::write_text
//@sig
pub fn form_error_body<'a>(this: &Error, formatter: &mut fmt::Formatter<'a>) -> (r: fmt::Result)
//@spec
    ensures
        r is Ok ==> written(*final(formatter)) == written(*old(formatter)) + form_error_text(*this),
