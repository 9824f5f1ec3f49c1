//@item enum ObsidianError
//@ghost
use crate::vshim::*;

//#if C12
impl vstd::std_specs::convert::FromSpecImpl<FormError> for ObsidianError {
    open spec fn obeys_from_spec() -> bool {
        true
    }

    open spec fn from_spec(error: FormError) -> Self {
        ObsidianError::FormError(error)
    }
}
//#endif

//#if C14
impl vstd::std_specs::convert::FromSpecImpl<JsonError> for ObsidianError {
    open spec fn obeys_from_spec() -> bool {
        true
    }

    open spec fn from_spec(error: JsonError) -> Self {
        ObsidianError::JsonError(error)
    }
}
//#endif

//@fn From<FormError> for ObsidianError::from
//@for C12
//@ret r
//@spec
        ensures
            r == ObsidianError::FormError(error),
//@fn From<JsonError> for ObsidianError::from
//@for C14
//@ret r
//@spec
        ensures
            r == ObsidianError::JsonError(error),
//@extract error_body from Display for ObsidianError::fmt
//@for C08
//@fmethod to_string = &crate::vshim::to_text
//@fmethod write_str = crate::vshim::write_text
//@sig
pub fn error_body<'a>(this: &ObsidianError, formatter: &mut fmt::Formatter<'a>) -> (r: fmt::Result)
//@spec
    ensures
        r is Ok ==> written(*final(formatter)) == written(*old(formatter)) + error_text(*this),
