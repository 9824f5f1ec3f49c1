//@ghost
use crate::vshim::*;
#[allow(unused_imports)]
use vstd::future::FutureAdditionalSpecFns;

//@extract handler_body from Handler for T::call
//@for C05
//@sig
pub async fn handler_body<T, F>(this: &T, ctx: Context) -> (r: ContextResult)
    where
        T: Fn(Context) -> F + Send + Sync + 'static,
        F: Future<Output = ContextResult> + Send + 'static,
//@spec
    requires
        call_requires(this, (ctx,)),
    ensures
        exists|f: F| #[trigger] call_ensures(this, (ctx,), f) && f.awaited() && r == f.view(),
