//@for C03 C07
//@item struct Resource
//@item impl Resource
//@ghost
use crate::vshim::*;

//@fn Resource::add_route
//@fmethod insert = &mut crate::vshim::rmap_insert
//@ret r
//@spec
        ensures
            r == opt(rmap(old(self).route_map), method),
            rmap(final(self).route_map) == rmap(old(self).route_map).insert(method, route),
//@fn Resource::get_route
//@for C07 C20
//@fmethod get = &crate::vshim::rmap_get
//@ret r
//@spec
        ensures
            r is Some <==> rmap(self.route_map).contains_key(*method),
            r is Some ==> *r->0 == rmap(self.route_map)[*method],
