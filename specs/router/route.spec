//@for C07
//@path Arc::new = crate::vshim::arc_handler
//@item struct Route
//@fn Route::new
//@ret r
//@spec
        ensures
            r.method == method,
            r.handler == crate::vshim::handler_of(handler),
//@fn Clone for Route::clone
//@ret r
//@fmethod handler.clone = &crate::vshim::handler_clone
//@fmethod self.handler.clone = &crate::vshim::handler_clone
//@spec
        ensures
            r == *self,
