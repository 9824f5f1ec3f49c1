//@for C19
//@item struct Logger
//@path Instant::now = crate::vshim::now
//@path StatusCode::OK = crate::vshim::sc(200)
//@method elapsed = &crate::vshim::elapsed
//@method map_or = crate::vshim::map_or
//@ghost
use crate::vshim::*;
//@extract logger_body from Middleware for Logger::handle
//@fmethod next = crate::app::next_body
//@sig
pub async fn logger_body<'a>(this: &'a Logger, context: Context, ep_executor: EndpointExecutor<'a>) -> (r: ContextResult)
//@spec
    ensures
        crate::app::chain_gives(*ep_executor.route_endpoint, ep_executor.middleware@, context, r),
//@fn Logger::new
//@for C04 C19
//@spec
    ensures
        true,
