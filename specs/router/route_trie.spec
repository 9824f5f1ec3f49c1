//@for C01 C02 C03 C04 C06 C15 C18
//@method chars = &crate::vshim::chars
//@method iter = &crate::vshim::slice_iter
//@method split = crate::vshim::str_split
//@item struct Node
//@item struct RouteValue
//@item enum ActionName
//@item struct ActionPayload
//@item struct Action
//@item struct RouteValueResult
//@item struct RouteTrie
//@item impl Node
//@ghost
use crate::vshim::*;

pub assume_specification[ <RouteValue as std::default::Default>::default ]() -> (r: RouteValue)
    ensures
        r.middlewares@ == Seq::<Arc<dyn Middleware>>::empty(),
        rmap(r.route.route_map) == Map::<Method, Route>::empty(),
;

/// `new` is `old` with the route registered at the path, and nothing else changed
pub open spec fn told(old: RouteTrie, new: RouteTrie, path: Seq<char>, route: Route) -> bool {
    &&& extended(old.head, ptoks(path), new.head)
    &&& routed(sem(old.head, ptoks(path)).val, sem(new.head, ptoks(path)).val, route)
    &&& !routes(sem(old.head, ptoks(path)).val).contains_key(route.method)
}

pub open spec fn is_param_seg(s: Seq<char>) -> bool {
    s.len() > 0 && s[0] == ':'
}

/// every line of the trie that ends here is well formed on its own
pub open spec fn child_ok(c: Node) -> bool {
    &&& c.key@.len() > 0
    &&& (c.key@.contains('*') ==> c.key@ == seq!['*'] && c.is_segment && c.child_nodes@.len() == 0)
    &&& (c.is_segment && c.key@[0] == ':' ==> forall|i: int|
        0 <= i < c.child_nodes@.len() ==> (#[trigger] c.child_nodes@[i]).is_segment)
}

pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool {
    p.len() <= s.len() && s.take(p.len() as int) == p
}

pub open spec fn key_ok(key: Seq<char>, flag: bool) -> bool {
    &&& key.len() > 0
    &&& (key.contains('*') ==> key == seq!['*'] && flag)
}

/// what has to be done to insert `key` below `n`
pub open spec fn action_ok(n: Node, key: Seq<char>, flag: bool, a: Action) -> bool {
    let ch = n.child_nodes@;
    let i = a.payload.node_index as int;
    let m = a.payload.match_count as nat;
    match a.name {
        ActionName::CreateNewNode => {
            forall|j: int| 0 <= j < ch.len() && (#[trigger] ch[j]).is_segment == flag ==> {
                &&& ch[j].key@[0] != key[0]
                &&& flag ==> !is_param_seg(key) && !is_param_seg(ch[j].key@)
            }
        },
        ActionName::NextNode => {
            0 <= i < ch.len() && ch[i].is_segment == flag && ch[i].key@ == key
        },
        ActionName::SplitKey => {
            &&& 0 <= i < ch.len() && ch[i].is_segment == flag
            &&& starts(key, ch[i].key@) && ch[i].key@.len() < key.len()
            &&& m == blen(ch[i].key@)
            &&& flag ==> !is_param_seg(key)
        },
        ActionName::SplitNode => {
            &&& 0 <= i < ch.len() && ch[i].is_segment == flag
            &&& exists|c: int| #[trigger] split_at(ch[i].key@, key, c) && m == blen(key.take(c))
            &&& flag ==> !is_param_seg(key)
        },
        ActionName::Error => {
            &&& flag
            &&& 0 <= i < ch.len() && ch[i].is_segment
            &&& ch[i].key@ != key
            &&& is_param_seg(key) || is_param_seg(ch[i].key@)
        },
    }
}

/// the longest common prefix of the two keys has `c` characters, and `a` goes on after it
pub open spec fn split_at(a: Seq<char>, b: Seq<char>, c: int) -> bool {
    &&& 0 < c < a.len()
    &&& c <= b.len()
    &&& a.take(c) == b.take(c)
    &&& c == b.len() || a[c] != b[c]
}

/// longest common prefix
pub open spec fn lcp(a: Seq<char>, b: Seq<char>) -> int
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        1 + lcp(a.drop_first(), b.drop_first())
    } else {
        0
    }
}

pub open spec fn wf_shallow(n: Node) -> bool {
    let ch = n.child_nodes@;
    &&& forall|i: int| 0 <= i < ch.len() ==> child_ok(#[trigger] ch[i])
    &&& forall|i: int, j: int|
        0 <= i < j < ch.len() && (#[trigger] ch[i]).is_segment == (#[trigger] ch[j]).is_segment ==> {
            &&& ch[i].key@[0] != ch[j].key@[0]
            &&& ch[i].is_segment ==> ch[i].key@[0] != '*' && ch[i].key@[0] != ':' && ch[j].key@[0] != ':'
        }
}

pub open spec fn wf(n: Node) -> bool
    decreases n,
{
    &&& wf_shallow(n)
    &&& forall|i: int| 0 <= i < n.child_nodes@.len() ==> wf(#[trigger] n.child_nodes@[i])
}

// ---------------------------------------------------------------- the trie as a map
/// a path as a text: each character, marked where a segment starts
pub type Tok = (bool, char);

pub open spec fn tk(flag: bool, key: Seq<char>) -> Seq<Tok> {
    Seq::new(key.len(), |i: int| (flag && i == 0, key[i]))
}

pub open spec fn nk(n: Node) -> Seq<Tok> {
    tk(n.is_segment, n.key@)
}

pub open spec fn pre(p: Seq<Tok>, t: Seq<Tok>) -> bool {
    p.len() <= t.len() && t.take(p.len() as int) == p
}

pub open spec fn is_kid(n: Node, i: int, t: Tok) -> bool {
    &&& 0 <= i < n.child_nodes@.len()
    &&& n.child_nodes@[i].key@.len() > 0
    &&& n.child_nodes@[i].is_segment == t.0
    &&& n.child_nodes@[i].key@[0] == t.1
}

pub open spec fn kid(n: Node, t: Tok) -> int {
    choose|i: int| is_kid(n, i, t)
}

/// what the trie knows of a text: is it the beginning of an inserted path, and what is stored there
pub struct Sem {
    pub point: bool,
    pub val: Option<RouteValue>,
}

pub open spec fn no_sem() -> Sem {
    Sem { point: false, val: None }
}

pub open spec fn sem(n: Node, t: Seq<Tok>) -> Sem
    decreases t.len(),
{
    if t.len() == 0 {
        Sem { point: true, val: n.value }
    } else if is_kid(n, kid(n, t[0]), t[0]) {
        let c = n.child_nodes@[kid(n, t[0])];
        if pre(nk(c), t) {
            sem(c, t.skip(nk(c).len() as int))
        } else {
            Sem { point: pre(t, nk(c)), val: None }
        }
    } else {
        no_sem()
    }
}

/// what is known of `t` if it starts with a token of child `c`
pub open spec fn via(c: Node, t: Seq<Tok>) -> Sem {
    if pre(nk(c), t) {
        sem(c, t.skip(nk(c).len() as int))
    } else {
        Sem { point: pre(t, nk(c)), val: None }
    }
}

/// `old` with all texts below `k` as `fin` has them
pub open spec fn graft(old: Node, k: Seq<Tok>, fin: Node, t: Seq<Tok>) -> Sem {
    if pre(k, t) {
        sem(fin, t.skip(k.len() as int))
    } else if pre(t, k) {
        Sem { point: true, val: sem(old, t).val }
    } else {
        sem(old, t)
    }
}

/// `cur` is the place `k` of `old`
pub open spec fn placed(old: Node, k: Seq<Tok>, cur: Node) -> bool {
    forall|t: Seq<Tok>| #[trigger] sem(cur, t) == (Sem { point: t.len() == 0 || sem(old, k + t).point, val: sem(old, k + t).val })
}

pub open spec fn grafted(old: Node, k: Seq<Tok>, fin: Node, new: Node) -> bool {
    forall|t: Seq<Tok>| #[trigger] sem(new, t) == graft(old, k, fin, t)
}

/// the node is well formed, and so is everything below it
pub open spec fn node_ok(n: Node) -> bool {
    wf(n) && child_ok(n)
}

pub open spec fn same_place(a: Node, b: Node) -> bool {
    a.key == b.key && a.is_segment == b.is_segment
}

/// children which continue the segment (or not) may be added
pub open spec fn can_take(n: Node, flag: bool) -> bool {
    &&& !n.key@.contains('*')
    &&& n.is_segment && n.key@[0] == ':' ==> flag
}

/// a parameter and another segment at the same position
pub open spec fn clash(n: Node, key: Seq<char>) -> bool {
    exists|i: int| #[trigger] clash_with(n, key, i)
}

pub open spec fn clash_with(n: Node, key: Seq<char>, i: int) -> bool {
    &&& 0 <= i < n.child_nodes@.len()
    &&& n.child_nodes@[i].is_segment
    &&& n.child_nodes@[i].key@ != key
    &&& is_param_seg(key) || is_param_seg(n.child_nodes@[i].key@)
}

// ---------------------------------------------------------------- paths
pub open spec fn toks(s: Seq<Seq<char>>) -> Seq<Tok>
    decreases s.len(),
{
    if s.len() == 0 {
        Seq::empty()
    } else {
        toks(s.drop_last()) + tk(true, s.last())
    }
}

/// the path of a route as a text
pub open spec fn ptoks(path: Seq<char>) -> Seq<Tok> {
    toks(segs(path))
}

pub open spec fn all_seg(n: Node) -> bool {
    forall|i: int| 0 <= i < n.child_nodes@.len() ==> (#[trigger] n.child_nodes@[i]).is_segment
}

/// what every insertion keeps
pub open spec fn root_ok(n: Node) -> bool {
    &&& node_ok(n)
    &&& n.key@ == seq!['/']
    &&& n.is_segment
    &&& all_seg(n)
}

/// `*` stands alone and last
pub open spec fn well_formed(s: Seq<Seq<char>>) -> bool {
    forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).contains('*') ==> s[i] == seq!['*'] && i == s.len() - 1
}

/// a segment of the path meets a different one where one of them is a parameter
pub open spec fn conflicts(head: Node, s: Seq<Seq<char>>) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] conflicts_at(head, s, i)
}

pub open spec fn conflicts_at(head: Node, s: Seq<Seq<char>>, i: int) -> bool {
    exists|n: Node| #[trigger] node_ok(n) && placed(head, toks(s.take(i)), n) && clash(n, s[i])
}

pub open spec fn free(head: Node, s: Seq<Seq<char>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> #[trigger] free_at(head, s, i)
}

pub open spec fn free_at(head: Node, s: Seq<Seq<char>>, i: int) -> bool {
    exists|n: Node| #[trigger] node_ok(n) && placed(head, toks(s.take(i)), n) && !clash(n, s[i])
}

pub open spec fn mws(v: Option<RouteValue>) -> Seq<Arc<dyn Middleware>> {
    match v {
        Some(v) => v.middlewares@,
        None => Seq::empty(),
    }
}

pub open spec fn routes(v: Option<RouteValue>) -> Map<Method, Route> {
    match v {
        Some(v) => rmap(v.route.route_map),
        None => Map::empty(),
    }
}

/// the path `k` is known now; nothing else changed
pub open spec fn extended(old: Node, k: Seq<Tok>, new: Node) -> bool {
    &&& forall|t: Seq<Tok>| (#[trigger] sem(new, t)).point == (pre(t, k) || sem(old, t).point)
    &&& forall|t: Seq<Tok>| t != k ==> (#[trigger] sem(new, t)).val == sem(old, t).val
}

pub open spec fn routed(old: Option<RouteValue>, new: Option<RouteValue>, route: Route) -> bool {
    &&& new is Some
    &&& routes(new) == routes(old).insert(route.method, route)
    &&& mws(new) == mws(old)
}

pub open spec fn middled(old: Option<RouteValue>, new: Option<RouteValue>, m: Arc<dyn Middleware>) -> bool {
    &&& new is Some
    &&& routes(new) == routes(old)
    &&& mws(new) == mws(old).push(m)
}

/// the walk down the path has consumed `i` segments and is at `cur`
pub open spec fn walking(head: Node, s: Seq<Seq<char>>, i: int, cur: Node) -> bool {
    &&& 0 <= i <= s.len()
    &&& node_ok(cur)
    &&& placed(head, toks(s.take(i)), cur)
    &&& i > 0 ==> (cur.key@.contains('*') ==> s[i - 1] == seq!['*'])
    &&& i == 0 ==> cur == head
    &&& forall|j: int| 0 <= j < i ==> #[trigger] free_at(head, s, j)
}

/// what is done at `cur` is done to the whole
pub open spec fn walked(head: Node, s: Seq<Seq<char>>, i: int, cur: Node, fin: Node, new: Node) -> bool {
    node_ok(fin) && same_place(cur, fin) ==> {
        &&& node_ok(new)
        &&& same_place(head, new)
        &&& grafted(head, toks(s.take(i)), fin, new)
    }
}

/// something is registered at or below `k`
pub open spec fn occupied(head: Node, k: Seq<Tok>) -> bool {
    sem(head, k).val is Some || exists|c: char| #[trigger] below(head, k, c)
}

pub open spec fn below(head: Node, k: Seq<Tok>, c: char) -> bool {
    sem(head, k.push((true, c))).point
}

/// `old` with the segments below `k` as `src` has them
pub open spec fn mount(old: Node, k: Seq<Tok>, src: Node, t: Seq<Tok>) -> Sem {
    let u = t.skip(k.len() as int);
    if pre(k, t) && u.len() == 0 {
        Sem { point: true, val: src.value }
    } else if pre(k, t) && u[0].0 {
        sem(src, u)
    } else if pre(t, k) {
        Sem { point: true, val: sem(old, t).val }
    } else {
        sem(old, t)
    }
}

pub open spec fn mounted(old: Node, k: Seq<Tok>, src: Node, new: Node) -> bool {
    forall|t: Seq<Tok>| #[trigger] sem(new, t) == mount(old, k, src, t)
}

/// `*` has no child
pub open spec fn wild_last(s: Seq<Seq<char>>, src: Node) -> bool {
    s.len() > 0 && s.last().contains('*') ==> src.child_nodes@.len() == 0
}

/// when registering `path` is refused
pub open spec fn refused(head: Node, s: Seq<Seq<char>>) -> bool {
    !well_formed(s) || conflicts(head, s)
}

pub open spec fn segments_ok(s: Seq<Seq<char>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() > 0
}

// ---------------------------------------------------------------- looking up
/// what is registered at the texts, seen from some place
pub type Know = spec_fn(Seq<Tok>) -> Sem;

pub open spec fn know(n: Node) -> Know {
    |t: Seq<Tok>| sem(n, t)
}

pub open spec fn after(f: Know, k: Seq<Tok>) -> Know {
    |t: Seq<Tok>| f(k + t)
}

pub open spec fn star() -> Seq<char> {
    seq!['*']
}

/// `q` is the parameter segment at this place
pub open spec fn is_pname(f: Know, q: Seq<char>) -> bool {
    &&& is_param_seg(q)
    &&& f(tk(true, q)).point
    &&& forall|c: char| !(#[trigger] f(tk(true, q).push((false, c)))).point
}

pub open spec fn pname(f: Know) -> Seq<char> {
    choose|q: Seq<char>| is_pname(f, q)
}

pub open spec fn cons(s: Seq<char>, p: Option<Seq<Seq<char>>>) -> Option<Seq<Seq<char>>> {
    match p {
        Some(p) => Some(seq![s] + p),
        None => None,
    }
}

/// the registered path which the segments `r` lead to by a static segment first
pub open spec fn by_static(f: Know, flag: bool, r: Seq<Seq<char>>) -> Option<Seq<Seq<char>>>
    decreases r.len(), 0int,
{
    let g = after(f, tk(flag, r[0]));
    if r.len() == 0 || flag && is_param_seg(r[0]) {
        None
    } else if r.len() > 1 {
        cons(r[0], best(g, true, r.skip(1)))
    } else if g(Seq::empty()).val is Some {
        Some(seq![r[0]])
    } else if g(tk(true, star())).val is Some {
        Some(seq![r[0], star()])
    } else {
        None
    }
}

/// .. by a parameter first
pub open spec fn by_param(f: Know, r: Seq<Seq<char>>) -> Option<Seq<Seq<char>>>
    decreases r.len(), 0int,
{
    let q = pname(f);
    let h = after(f, tk(true, q));
    if r.len() == 0 || !is_pname(f, q) {
        None
    } else if r.len() > 1 {
        cons(q, best(h, true, r.skip(1)))
    } else if h(Seq::empty()).val is Some {
        Some(seq![q])
    } else {
        None
    }
}

pub open spec fn direct(f: Know, flag: bool, r: Seq<Seq<char>>) -> Option<Seq<Seq<char>>>
    decreases r.len(), 1int,
{
    if by_static(f, flag, r) is Some || !flag {
        by_static(f, flag, r)
    } else {
        by_param(f, r)
    }
}

/// the registered path for the segments `r`; without `flag` the first one is the rest of a segment
pub open spec fn best(f: Know, flag: bool, r: Seq<Seq<char>>) -> Option<Seq<Seq<char>>>
    decreases r.len(), 2int,
{
    if r.len() == 0 {
        None
    } else if direct(f, flag, r) is Some {
        direct(f, flag, r)
    } else if flag && f(tk(true, star())).val is Some {
        Some(seq![star()])
    } else {
        None
    }
}

/// the text of a path whose first segment is a rest
pub open spec fn ftoks(flag: bool, p: Seq<Seq<char>>) -> Seq<Tok>
    decreases p.len(),
{
    if p.len() == 0 {
        Seq::empty()
    } else {
        tk(flag, p[0]) + ftoks(true, p.skip(1))
    }
}

/// the middlewares at the segments of the path
pub open spec fn along(f: Know, flag: bool, p: Seq<Seq<char>>) -> Seq<Arc<dyn Middleware>>
    decreases p.len(),
{
    if p.len() == 0 {
        Seq::empty()
    } else {
        mws(f(tk(flag, p[0])).val) + along(after(f, tk(flag, p[0])), true, p.skip(1))
    }
}

/// the parameters of the path bound to the segments
pub open spec fn bind(m: Map<Seq<char>, Seq<char>>, flag: bool, p: Seq<Seq<char>>, r: Seq<Seq<char>>) -> Map<Seq<char>, Seq<char>>
    decreases p.len(),
{
    if p.len() == 0 || r.len() == 0 {
        m
    } else {
        let n = bind(m, true, p.skip(1), r.skip(1));
        if flag && is_param_seg(p[0]) {
            n.insert(p[0].skip(1), r[0])
        } else {
            n
        }
    }
}

/// the registered path a request path with the segments `s` leads to
pub open spec fn found(f: Know, s: Seq<Seq<char>>) -> Option<Seq<Seq<char>>> {
    if s.len() > 0 {
        best(f, true, s)
    } else if f(Seq::empty()).val is Some {
        Some(Seq::empty())
    } else {
        None
    }
}

/// the result of looking up the segments `s` where `f` is registered
pub open spec fn resolved(f: Know, s: Seq<Seq<char>>, r: Option<RouteValueResult>) -> bool {
    let q = found(f, s);
    &&& r is Some <==> q is Some
    &&& r is Some ==> {
        &&& f(ftoks(true, q->0)).val is Some
        &&& rmap((r->0).route_value.route.route_map) == routes(f(ftoks(true, q->0)).val)
        &&& (r->0).route_value.middlewares@ == mws(f(Seq::empty()).val) + along(f, true, q->0)
        &&& smap((r->0).params) == bind(Map::empty(), true, q->0, s)
    }
}

//#if C01 C02 C03 C04 C06 C07 C15 C18 C20
pub proof fn lemma_know_child(n: Node, i: int)
    requires
        node_ok(n),
        0 <= i < n.child_nodes@.len(),
    ensures
        after(know(n), nk(n.child_nodes@[i])) == know(n.child_nodes@[i]),
{
    let c = n.child_nodes@[i];
    assert(child_ok(c));
    assert forall|t: Seq<Tok>| #[trigger] after(know(n), nk(c))(t) == know(c)(t) by {
        lemma_pre_cat(nk(c), t);
        assert(is_kid(n, i, (nk(c) + t)[0]));
        lemma_via(n, i, nk(c) + t);
    }
    assert(after(know(n), nk(c)) =~= know(c));
}

pub proof fn lemma_after_after(f: Know, a: Seq<Tok>, b: Seq<Tok>)
    ensures
        after(after(f, a), b) == after(f, a + b),
{
    assert forall|t: Seq<Tok>| #[trigger] after(after(f, a), b)(t) == after(f, a + b)(t) by {
        assert(a + (b + t) =~= a + b + t);
    }
    assert(after(after(f, a), b) =~= after(f, a + b));
}

/// nothing is registered here and no segment goes on from here
pub open spec fn dead(f: Know) -> bool {
    forall|t: Seq<Tok>| t.len() == 0 || t[0].0 ==> (#[trigger] f(t)).val is None && (t.len() > 0 ==> !f(t).point)
}

pub proof fn lemma_dead(f: Know, r: Seq<Seq<char>>)
    requires
        dead(f),
        segments_ok(r),
    ensures
        best(f, true, r) is None,
    decreases r.len(),
{
    if r.len() > 0 {
        let g = after(f, tk(true, r[0]));
        assert(dead(g)) by {
            assert forall|t: Seq<Tok>| t.len() == 0 || t[0].0 implies (#[trigger] g(t)).val is None && (t.len() > 0 ==> !g(t).point) by {
                assert((tk(true, r[0]) + t)[0] == tk(true, r[0])[0]);
            }
        }
        assert(segments_ok(r.skip(1)));
        if r.len() > 1 {
            lemma_dead(g, r.skip(1));
        }
        assert(tk(true, star())[0].0);
        let q = pname(f);
        if is_pname(f, q) {
            assert(tk(true, q)[0].0);
            assert(!f(tk(true, q)).point);
        }
    }
}

pub proof fn lemma_dead_static(f: Know, flag: bool, r: Seq<Seq<char>>)
    requires
        r.len() > 0,
        segments_ok(r),
        dead(after(f, tk(flag, r[0]))),
    ensures
        by_static(f, flag, r) is None,
{
    let g = after(f, tk(flag, r[0]));
    assert(segments_ok(r.skip(1)));
    if r.len() > 1 {
        lemma_dead(g, r.skip(1));
    }
    assert(tk(true, star())[0].0);
}

/// no child begins like `r[0]`
pub proof fn lemma_none_static(n: Node, flag: bool, r: Seq<Seq<char>>)
    requires
        node_ok(n),
        r.len() > 0,
        segments_ok(r),
        forall|j: int| 0 <= j < n.child_nodes@.len() && (#[trigger] n.child_nodes@[j]).is_segment == flag ==> n.child_nodes@[j].key@[0] != r[0][0],
    ensures
        by_static(know(n), flag, r) is None,
{
    let g = after(know(n), tk(flag, r[0]));
    assert forall|t: Seq<Tok>| t.len() == 0 || t[0].0 implies (#[trigger] g(t)).val is None && (t.len() > 0 ==> !g(t).point) by {
        let u = tk(flag, r[0]) + t;
        assert(u[0] == (flag, r[0][0]));
        assert forall|i: int| 0 <= i < n.child_nodes@.len() && (#[trigger] n.child_nodes@[i]).is_segment == u[0].0 implies n.child_nodes@[i].key@.len() > 0 && n.child_nodes@[i].key@[0] != u[0].1 by {
            assert(child_ok(n.child_nodes@[i]));
        }
        lemma_no_kid(n, u);
    }
    lemma_dead_static(know(n), flag, r);
}

/// the child begins like `r[0]` but is something else
pub proof fn lemma_partial(n: Node, i: int, flag: bool, r: Seq<Seq<char>>)
    requires
        node_ok(n),
        r.len() > 0,
        segments_ok(r),
        0 <= i < n.child_nodes@.len(),
        n.child_nodes@[i].is_segment == flag,
        n.child_nodes@[i].key@[0] == r[0][0],
        !starts(r[0], n.child_nodes@[i].key@),
    ensures
        by_static(know(n), flag, r) is None,
{
    let c = n.child_nodes@[i];
    assert(child_ok(c));
    let g = after(know(n), tk(flag, r[0]));
    let m = r[0].len() as int;
    let l = c.key@.len() as int;
    assert forall|t: Seq<Tok>| t.len() == 0 || t[0].0 implies (#[trigger] g(t)).val is None && (t.len() > 0 ==> !g(t).point) by {
        let u = tk(flag, r[0]) + t;
        assert(is_kid(n, i, u[0]));
        lemma_via(n, i, u);
        if pre(nk(c), u) {
            if l <= m {
                assert forall|j: int| 0 <= j < l implies r[0][j] == #[trigger] c.key@[j] by {
                    assert(u.take(l)[j] == nk(c)[j]);
                    assert(u[j] == tk(flag, r[0])[j]);
                }
                assert(r[0].take(l) =~= c.key@);
            } else {
                assert(u.take(l)[m] == nk(c)[m]);
                assert(u[m] == t[0]);
            }
        } else if t.len() > 0 && pre(u, nk(c)) {
            assert(nk(c).take(u.len() as int)[m] == u[m]);
            assert(u[m] == t[0]);
        }
    }
    lemma_dead_static(know(n), flag, r);
}

/// the child is the whole of `r[0]`
pub proof fn lemma_whole(n: Node, i: int, flag: bool, r: Seq<Seq<char>>)
    requires
        node_ok(n),
        r.len() > 0,
        0 <= i < n.child_nodes@.len(),
        n.child_nodes@[i].is_segment == flag,
        n.child_nodes@[i].key@ == r[0],
    ensures
        after(know(n), tk(flag, r[0])) == know(n.child_nodes@[i]),
        sem(n, tk(flag, r[0])).val == n.child_nodes@[i].value,
{
    let c = n.child_nodes@[i];
    lemma_know_child(n, i);
    assert(nk(c) + Seq::<Tok>::empty() =~= nk(c));
    assert(after(know(n), nk(c))(Seq::empty()) == sem(n, nk(c)));
    assert(know(c)(Seq::empty()).val == c.value);
}

/// `r[0]` goes on after the child
pub proof fn lemma_broken(n: Node, i: int, flag: bool, r: Seq<Seq<char>>, rem: Seq<char>)
    requires
        node_ok(n),
        r.len() > 0,
        0 <= i < n.child_nodes@.len(),
        n.child_nodes@[i].is_segment == flag,
        starts(r[0], n.child_nodes@[i].key@),
        rem == r[0].skip(n.child_nodes@[i].key@.len() as int),
        rem.len() > 0,
        flag ==> !is_param_seg(r[0]),
    ensures
        ({
            let c = n.child_nodes@[i];
            let p = best(know(c), false, seq![rem] + r.skip(1));
            &&& by_static(know(n), flag, r) is Some <==> p is Some
            &&& p is Some ==> {
                let b = by_static(know(n), flag, r)->0;
                &&& b.len() > 0
                &&& b[0] == r[0]
                &&& (p->0).len() > 0
                &&& (p->0)[0] == rem
                &&& b.skip(1) == (p->0).skip(1)
                &&& along(know(n), flag, b) == along(know(c), false, p->0)
                &&& forall|m: Map<Seq<char>, Seq<char>>| #[trigger] bind(m, flag, b, r) == bind(m, false, p->0, seq![rem] + r.skip(1))
                &&& sem(n, ftoks(flag, b)).val == sem(c, ftoks(false, p->0)).val
            }
        }),
{
    let c = n.child_nodes@[i];
    assert(child_ok(c));
    let r2 = seq![rem] + r.skip(1);
    assert(r2.skip(1) =~= r.skip(1));
    assert(r[0] =~= c.key@ + rem);
    lemma_tk_cat(flag, c.key@, rem);
    lemma_know_child(n, i);
    lemma_after_after(know(n), nk(c), tk(false, rem));
    assert(after(know(n), tk(flag, r[0])) == after(know(c), tk(false, rem)));
    let p = best(know(c), false, r2);
    let b = by_static(know(n), flag, r);
    if p is Some {
        assert(b is Some);
        lemma_pre_cat(nk(c), tk(false, rem));
        assert((b->0).skip(1) =~= (p->0).skip(1));
        assert(after(know(n), nk(c))(tk(false, rem)) == know(c)(tk(false, rem)));
        assert(ftoks(flag, b->0) =~= nk(c) + ftoks(false, p->0));
        assert(after(know(n), nk(c))(ftoks(false, p->0)) == know(c)(ftoks(false, p->0)));
    }
}

/// `*` below a node
pub proof fn lemma_star_child(n: Node)
    requires
        node_ok(n),
    ensures
        forall|i: int| 0 <= i < n.child_nodes@.len() && (#[trigger] n.child_nodes@[i]).is_segment && n.child_nodes@[i].key@ == star() ==> sem(n, tk(true, star())).val == n.child_nodes@[i].value,
        (forall|i: int| 0 <= i < n.child_nodes@.len() && (#[trigger] n.child_nodes@[i]).is_segment && n.child_nodes@[i].key@ == star() ==> n.child_nodes@[i].value is None) ==> sem(n, tk(true, star())).val is None,
{
    let t = tk(true, star());
    assert forall|i: int| 0 <= i < n.child_nodes@.len() && (#[trigger] n.child_nodes@[i]).is_segment && n.child_nodes@[i].key@ == star() implies sem(n, tk(true, star())).val == n.child_nodes@[i].value by {
        assert(is_kid(n, i, t[0]));
        lemma_via(n, i, t);
        assert(nk(n.child_nodes@[i]) =~= t);
        assert(t.take(1) =~= t);
        assert(t.skip(1) =~= Seq::empty());
    }
    if is_kid(n, kid(n, t[0]), t[0]) {
        let i = kid(n, t[0]);
        let c = n.child_nodes@[i];
        assert(child_ok(c));
        assert(c.key@.contains('*'));
    }
}

/// a parameter is the only segment
pub proof fn lemma_param_child(n: Node, i: int, r: Seq<Seq<char>>)
    requires
        node_ok(n),
        r.len() > 0,
        segments_ok(r),
        0 <= i < n.child_nodes@.len(),
        n.child_nodes@[i].is_segment,
        is_param_seg(n.child_nodes@[i].key@),
    ensures
        forall|j: int| 0 <= j < n.child_nodes@.len() && (#[trigger] n.child_nodes@[j]).is_segment ==> j == i,
        by_static(know(n), true, r) is None,
        is_pname(know(n), n.child_nodes@[i].key@),
        pname(know(n)) == n.child_nodes@[i].key@,
        after(know(n), tk(true, n.child_nodes@[i].key@)) == know(n.child_nodes@[i]),
        sem(n, tk(true, n.child_nodes@[i].key@)).val == n.child_nodes@[i].value,
        sem(n, tk(true, star())).val is None,
{
    let c = n.child_nodes@[i];
    assert(child_ok(c));
    assert forall|j: int| 0 <= j < n.child_nodes@.len() && (#[trigger] n.child_nodes@[j]).is_segment implies j == i by {
        if i < j {
            assert(n.child_nodes@[i].is_segment == n.child_nodes@[j].is_segment);
        } else if j < i {
            assert(n.child_nodes@[j].is_segment == n.child_nodes@[i].is_segment);
        }
    }
    lemma_star_child(n);
    lemma_know_child(n, i);
    lemma_whole(n, i, true, seq![c.key@]);
    if !is_param_seg(r[0]) {
        lemma_none_static(n, true, r);
    }
    let f = know(n);
    let k = tk(true, c.key@);
    assert(k + Seq::<Tok>::empty() =~= k);
    assert(after(f, nk(c))(Seq::empty()) == sem(n, k));
    assert(know(c)(Seq::empty()).point);
    assert(f(k).point);
    assert forall|x: char| !(#[trigger] f(k.push((false, x)))).point by {
        let t = seq![(false, x)];
        assert(k.push((false, x)) =~= nk(c) + t);
        assert(after(f, nk(c))(t) == know(c)(t));
        if is_kid(c, kid(c, t[0]), t[0]) {
            assert(c.child_nodes@[kid(c, t[0])].is_segment);
        }
    }
    assert(is_pname(f, c.key@));
    let q = pname(f);
    assert(is_pname(f, q));
    let t = tk(true, q);
    assert(is_kid(n, i, t[0]));
    lemma_via(n, i, t);
    let l = c.key@.len() as int;
    if pre(nk(c), t) {
        let u = t.skip(l);
        if u.len() > 0 {
            assert(!u[0].0);
            if is_kid(c, kid(c, u[0]), u[0]) {
                assert(c.child_nodes@[kid(c, u[0])].is_segment);
            }
        }
        assert(t =~= k);
        assert(q =~= c.key@) by {
            assert forall|j: int| 0 <= j < q.len() implies q[j] == #[trigger] c.key@[j] by {
                assert(t[j] == k[j]);
            }
        }
    } else {
        assert(pre(t, nk(c)));
        let m = q.len() as int;
        let x = c.key@[m];
        let v = t.push((false, x));
        assert(v =~= nk(c).take(m + 1)) by {
            assert(nk(c).take(m) == t);
        }
        assert(is_kid(n, i, v[0]));
        lemma_via(n, i, v);
        if pre(nk(c), v) {
            assert(v.skip(l) =~= Seq::empty());
        }
        assert(f(v).point);
    }
}

/// a segment which is no parameter has no parameter beside it
pub proof fn lemma_beside_static(n: Node, i: int, r: Seq<Seq<char>>)
    requires
        node_ok(n),
        0 <= i < n.child_nodes@.len(),
        n.child_nodes@[i].is_segment,
        !is_param_seg(n.child_nodes@[i].key@),
    ensures
        by_param(know(n), r) is None,
{
    assert forall|j: int| 0 <= j < n.child_nodes@.len() && (#[trigger] n.child_nodes@[j]).is_segment implies !is_param_seg(n.child_nodes@[j].key@) by {
        if i < j {
            assert(n.child_nodes@[i].is_segment == n.child_nodes@[j].is_segment);
        } else if j < i {
            assert(n.child_nodes@[j].is_segment == n.child_nodes@[i].is_segment);
        }
    }
    lemma_no_param(n, r);
}

/// `*` is no static segment
pub proof fn lemma_beside_star(n: Node, i: int, r: Seq<Seq<char>>)
    requires
        node_ok(n),
        r.len() > 0,
        segments_ok(r),
        0 <= i < n.child_nodes@.len(),
        n.child_nodes@[i].is_segment,
        n.child_nodes@[i].key@ == star(),
    ensures
        (forall|j: int| 0 <= j < i && (#[trigger] n.child_nodes@[j]).is_segment ==> n.child_nodes@[j].key@[0] != r[0][0]) ==> direct(know(n), true, r) is None || n.child_nodes@[i].value is Some && direct(know(n), true, r) == Some(seq![star()]) && !is_param_seg(r[0]),
        forall|j: int| i < j < n.child_nodes@.len() ==> !(#[trigger] n.child_nodes@[j]).is_segment,
{
    let ch = n.child_nodes@;
    let c = ch[i];
    assert(child_ok(c));
    assert(c.key@.contains('*')) by {
        assert(c.key@[0] == '*');
    }
    lemma_beside_static(n, i, r);
    assert forall|j: int| i < j < ch.len() implies !(#[trigger] ch[j]).is_segment by {
        if ch[j].is_segment {
            assert(ch[i].is_segment == ch[j].is_segment);
        }
    }
    if forall|j: int| 0 <= j < i && (#[trigger] ch[j]).is_segment ==> ch[j].key@[0] != r[0][0] {
        if r[0][0] != '*' {
            lemma_none_static(n, true, r);
        } else if !starts(r[0], c.key@) {
            lemma_partial(n, i, true, r);
        } else {
            let rem = r[0].skip(1);
            if rem.len() > 0 {
                assert(rem == r[0].skip(c.key@.len() as int));
                lemma_broken(n, i, true, r, rem);
                lemma_none_static(c, false, seq![rem] + r.skip(1));
            } else {
                assert(r[0] =~= star());
                lemma_whole(n, i, true, r);
                assert(segments_ok(r.skip(1)));
                if r.len() > 1 {
                    lemma_none_static(c, true, r.skip(1));
                    lemma_no_param(c, r.skip(1));
                }
                lemma_star_child(c);
            }
        }
    }
}

/// a path of one segment more
pub proof fn lemma_cons(f: Know, flag: bool, s: Seq<char>, p: Seq<Seq<char>>, r: Seq<Seq<char>>)
    requires
        r.len() > 0,
    ensures
        ({
            let b = seq![s] + p;
            &&& b[0] == s
            &&& b.skip(1) == p
            &&& ftoks(flag, b) == tk(flag, s) + ftoks(true, p)
            &&& along(f, flag, b) == mws(f(tk(flag, s)).val) + along(after(f, tk(flag, s)), true, p)
            &&& f(ftoks(flag, b)) == after(f, tk(flag, s))(ftoks(true, p))
            &&& forall|m: Map<Seq<char>, Seq<char>>| #[trigger] bind(m, flag, b, r) == (if flag && is_param_seg(s) { bind(m, true, p, r.skip(1)).insert(s.skip(1), r[0]) } else { bind(m, true, p, r.skip(1)) })
        }),
{
    let b = seq![s] + p;
    assert(b.skip(1) =~= p);
}

pub proof fn lemma_single(f: Know, flag: bool, s: Seq<char>, r: Seq<Seq<char>>)
    requires
        r.len() > 0,
    ensures
        ({
            let b = seq![s];
            &&& ftoks(flag, b) == tk(flag, s)
            &&& along(f, flag, b) == mws(f(tk(flag, s)).val)
            &&& forall|m: Map<Seq<char>, Seq<char>>| #[trigger] bind(m, flag, b, r) == (if flag && is_param_seg(s) { m.insert(s.skip(1), r[0]) } else { m })
        }),
{
    let b = seq![s];
    let e = b.skip(1);
    assert(e.len() == 0);
    assert(ftoks(true, e) =~= Seq::<Tok>::empty());
    assert(tk(flag, s) + Seq::<Tok>::empty() =~= tk(flag, s));
    let a = along(after(f, tk(flag, s)), true, e);
    assert(a.len() == 0);
    assert(mws(f(tk(flag, s)).val) + a =~= mws(f(tk(flag, s)).val));
    lemma_bind_end(true, e, r.skip(1));
    assert(ftoks(flag, b) == tk(flag, s));
    assert(along(f, flag, b) == mws(f(tk(flag, s)).val));
    assert(b[0] == s);
    assert forall|m: Map<Seq<char>, Seq<char>>| #[trigger] bind(m, flag, b, r) == (if flag && is_param_seg(s) { m.insert(s.skip(1), r[0]) } else { m }) by {
        assert(bind(m, true, e, r.skip(1)) == m);
    }
}

/// what a child has to do with the other children
pub proof fn lemma_siblings(n: Node, i: int)
    requires
        node_ok(n),
        0 <= i < n.child_nodes@.len(),
    ensures
        child_ok(n.child_nodes@[i]),
        wf(n.child_nodes@[i]),
        node_ok(n.child_nodes@[i]),
        forall|j: int| i < j < n.child_nodes@.len() && (#[trigger] n.child_nodes@[j]).is_segment == n.child_nodes@[i].is_segment ==> n.child_nodes@[j].key@[0] != n.child_nodes@[i].key@[0],
        forall|j: int| i < j < n.child_nodes@.len() && (#[trigger] n.child_nodes@[j]).is_segment && n.child_nodes@[i].is_segment ==> !is_param_seg(n.child_nodes@[j].key@) && !is_param_seg(n.child_nodes@[i].key@),
{
    let c = n.child_nodes@[i];
    assert forall|j: int| i < j < n.child_nodes@.len() && (#[trigger] n.child_nodes@[j]).is_segment == n.child_nodes@[i].is_segment implies n.child_nodes@[j].key@[0] != n.child_nodes@[i].key@[0] by {
        assert(n.child_nodes@[i].is_segment == n.child_nodes@[j].is_segment);
    }
    assert forall|j: int| i < j < n.child_nodes@.len() && (#[trigger] n.child_nodes@[j]).is_segment && n.child_nodes@[i].is_segment implies !is_param_seg(n.child_nodes@[j].key@) && !is_param_seg(n.child_nodes@[i].key@) by {
        assert(n.child_nodes@[i].is_segment == n.child_nodes@[j].is_segment);
    }
}

pub proof fn lemma_bind_end(flag: bool, p: Seq<Seq<char>>, r: Seq<Seq<char>>)
    requires
        r.len() == 0 || p.len() == 0,
    ensures
        forall|m: Map<Seq<char>, Seq<char>>| #[trigger] bind(m, flag, p, r) == m,
{
}

/// no parameter among the children
pub proof fn lemma_no_param(n: Node, r: Seq<Seq<char>>)
    requires
        node_ok(n),
        forall|j: int| 0 <= j < n.child_nodes@.len() && (#[trigger] n.child_nodes@[j]).is_segment ==> !is_param_seg(n.child_nodes@[j].key@),
    ensures
        by_param(know(n), r) is None,
{
    let q = pname(know(n));
    if is_pname(know(n), q) {
        let t = tk(true, q);
        assert(sem(n, t).point);
        if is_kid(n, kid(n, t[0]), t[0]) {
            assert(!is_param_seg(n.child_nodes@[kid(n, t[0])].key@));
        }
    }
}
//#endif

//#if C01 C02 C03 C04 C06 C07 C15 C18 C20
pub proof fn lemma_walk_start(head: Node, s: Seq<Seq<char>>)
    requires
        root_ok(head),
    ensures
        walking(head, s, 0, head),
        forall|fin: Node| #[trigger] walked(head, s, 0, head, fin, fin),
{
    assert(s.take(0) =~= Seq::<Seq<char>>::empty());
    lemma_placed_here(head);
    assert forall|fin: Node| #[trigger] walked(head, s, 0, head, fin, fin) by {
        lemma_grafted_here(head, fin);
    }
}

/// another segment
pub proof fn lemma_walk_step(head: Node, s: Seq<Seq<char>>, i: int, cur: Node, next: Node)
    requires
        walking(head, s, i, cur),
        i < s.len(),
        node_ok(next),
        next.key@.contains('*') ==> s[i] == seq!['*'],
        placed(cur, tk(true, s[i]), next),
        !clash(cur, s[i]),
    ensures
        walking(head, s, i + 1, next),
{
    lemma_toks_step(s, i);
    lemma_steps(head, toks(s.take(i)), cur, tk(true, s[i]), next);
    assert(free_at(head, s, i));
}

pub proof fn lemma_walk_back(head: Node, s: Seq<Seq<char>>, i: int, cur: Node, next: Node, next_fin: Node, cur_fin: Node, new: Node)
    requires
        walking(head, s, i, cur),
        i < s.len(),
        walked(head, s, i, cur, cur_fin, new),
        node_ok(next_fin) && same_place(next, next_fin) ==> {
            &&& node_ok(cur_fin)
            &&& same_place(cur, cur_fin)
            &&& grafted(cur, tk(true, s[i]), next_fin, cur_fin)
        },
    ensures
        walked(head, s, i + 1, next, next_fin, new),
{
    lemma_toks_step(s, i);
    if node_ok(next_fin) && same_place(next, next_fin) {
        lemma_graft_steps(head, toks(s.take(i)), cur, tk(true, s[i]), next_fin, cur_fin, new);
    }
}

pub proof fn lemma_can_walk(head: Node, s: Seq<Seq<char>>, i: int, cur: Node)
    requires
        root_ok(head),
        walking(head, s, i, cur),
        i < s.len(),
        well_formed(s),
        segments_ok(s),
    ensures
        can_take(cur, true),
        key_ok(s[i], true),
{
    assert(seq!['*'][0] == '*');
    assert(seq!['/'][0] == '/');
    if i > 0 {
        assert(s[i - 1].contains('*') ==> s[i - 1] == seq!['*'] && i - 1 == s.len() - 1);
    }
}

pub proof fn lemma_via(n: Node, i: int, t: Seq<Tok>)
    requires
        wf_shallow(n),
        t.len() > 0,
        is_kid(n, i, t[0]),
    ensures
        sem(n, t) == via(n.child_nodes@[i], t),
        kid(n, t[0]) == i,
{
    let j = kid(n, t[0]);
    assert(is_kid(n, j, t[0]));
    if i < j {
        assert(n.child_nodes@[i].is_segment == n.child_nodes@[j].is_segment);
    } else if j < i {
        assert(n.child_nodes@[j].is_segment == n.child_nodes@[i].is_segment);
    }
}

pub proof fn lemma_no_kid(n: Node, t: Seq<Tok>)
    requires
        t.len() > 0,
        forall|i: int| 0 <= i < n.child_nodes@.len() && (#[trigger] n.child_nodes@[i]).is_segment == t[0].0 ==> n.child_nodes@[i].key@.len() > 0 && n.child_nodes@[i].key@[0] != t[0].1,
    ensures
        sem(n, t) == no_sem(),
{
}

/// `sem` only looks at the value and the children
pub proof fn lemma_sem_body(a: Node, b: Node, t: Seq<Tok>)
    requires
        a.value == b.value,
        a.child_nodes@ == b.child_nodes@,
        wf_shallow(a),
    ensures
        sem(a, t) == sem(b, t),
        wf_shallow(b),
{
    if t.len() > 0 {
        if is_kid(a, kid(a, t[0]), t[0]) {
            let i = kid(a, t[0]);
            assert(is_kid(b, i, t[0]));
            lemma_via(a, i, t);
            lemma_via(b, i, t);
        } else {
            if is_kid(b, kid(b, t[0]), t[0]) {
                assert(is_kid(a, kid(b, t[0]), t[0]));
            }
        }
    }
}

/// the same child at different places
pub proof fn lemma_moved(a: Node, b: Node, t: Seq<Tok>)
    requires
        wf_shallow(a),
        wf_shallow(b),
        a.value == b.value,
        t.len() > 0 ==> forall|i: int| is_kid(a, i, t[0]) ==> exists|j: int| #[trigger] is_kid(b, j, t[0]) && b.child_nodes@[j] == a.child_nodes@[i],
        t.len() > 0 ==> forall|j: int| is_kid(b, j, t[0]) ==> exists|i: int| #[trigger] is_kid(a, i, t[0]),
    ensures
        sem(a, t) == sem(b, t),
{
    if t.len() > 0 {
        if is_kid(a, kid(a, t[0]), t[0]) {
            let i = kid(a, t[0]);
            let j = choose|j: int| #[trigger] is_kid(b, j, t[0]) && b.child_nodes@[j] == a.child_nodes@[i];
            lemma_via(a, i, t);
            lemma_via(b, j, t);
        } else if is_kid(b, kid(b, t[0]), t[0]) {
            let i = choose|i: int| #[trigger] is_kid(a, i, t[0]);
            assert(is_kid(a, i, t[0]));
        }
    }
}

pub proof fn lemma_pre_trans(a: Seq<Tok>, b: Seq<Tok>, t: Seq<Tok>)
    ensures
        pre(a + b, t) <==> pre(a, t) && pre(b, t.skip(a.len() as int)),
        pre(a, t) ==> (pre(t, a + b) <==> pre(t.skip(a.len() as int), b)),
        pre(a, t) && pre(a + b, t) ==> t.skip((a + b).len() as int) == t.skip(a.len() as int).skip(b.len() as int),
        !pre(a, t) ==> (pre(t, a + b) <==> pre(t, a)),
        pre(t, a) ==> pre(t, a + b),
{
    let n = a.len() as int;
    let m = b.len() as int;
    if pre(a + b, t) {
        assert(t.take(n) =~= t.take(n + m).take(n));
        assert((a + b).take(n) =~= a);
        assert(t.skip(n).take(m) =~= t.take(n + m).skip(n));
        assert((a + b).skip(n) =~= b);
        assert(t.skip(n + m) =~= t.skip(n).skip(m));
    }
    if pre(a, t) {
        assert(a =~= t.take(n));
        if pre(b, t.skip(n)) {
            assert(t.take(n + m) =~= t.take(n) + t.skip(n).take(m));
        }
        if pre(t, a + b) {
            assert((a + b).take(t.len() as int).skip(n) =~= b.take(t.len() - n));
            assert(t.skip(n) =~= b.take(t.len() - n));
        }
        if pre(t.skip(n), b) {
            assert((a + b).take(t.len() as int) =~= a + b.take(t.len() - n));
            assert(t =~= t.take(n) + t.skip(n));
        }
    } else {
        if pre(t, a + b) {
            let l = t.len() as int;
            assert((a + b).take(l) == t);
            if l >= n {
                assert(t.take(n) =~= (a + b).take(l).take(n));
                assert((a + b).take(l).take(n) =~= a);
            }
            assert(a.take(l) =~= (a + b).take(l));
        }
    }
    if pre(t, a) {
        let l = t.len() as int;
        assert((a + b).take(l) =~= a.take(l));
    }
}

pub proof fn lemma_pre_cat(a: Seq<Tok>, t: Seq<Tok>)
    ensures
        pre(a, a + t),
        (a + t).skip(a.len() as int) == t,
{
    assert((a + t).take(a.len() as int) =~= a);
    assert((a + t).skip(a.len() as int) =~= t);
}

pub proof fn lemma_tk_cat(flag: bool, a: Seq<char>, b: Seq<char>)
    requires
        a.len() > 0,
    ensures
        tk(flag, a + b) == tk(flag, a) + tk(false, b),
{
    assert(tk(flag, a + b) =~= tk(flag, a) + tk(false, b));
}

/// one child was exchanged
pub proof fn lemma_replaced(old: Node, new: Node, i: int, c: Node, t: Seq<Tok>)
    requires
        wf_shallow(old),
        wf_shallow(new),
        old.value == new.value,
        0 <= i < old.child_nodes@.len(),
        new.child_nodes@ == old.child_nodes@.update(i, c),
        c.is_segment == old.child_nodes@[i].is_segment,
        c.key@.len() > 0,
        c.key@[0] == old.child_nodes@[i].key@[0],
    ensures
        t.len() > 0 && t[0] == nk(c)[0] ==> sem(new, t) == via(c, t) && sem(old, t) == via(old.child_nodes@[i], t),
        t.len() == 0 || t[0] != nk(c)[0] ==> sem(new, t) == sem(old, t),
{
    if t.len() > 0 {
        assert(child_ok(old.child_nodes@[i]));
        if t[0] == nk(c)[0] {
            assert(is_kid(old, i, t[0]));
            assert(is_kid(new, i, t[0]));
            lemma_via(old, i, t);
            lemma_via(new, i, t);
        } else {
            assert forall|j: int| is_kid(old, j, t[0]) implies exists|k: int| #[trigger] is_kid(new, k, t[0]) && new.child_nodes@[k] == old.child_nodes@[j] by {
                assert(is_kid(new, j, t[0]));
            }
            assert forall|j: int| is_kid(new, j, t[0]) implies exists|k: int| #[trigger] is_kid(old, k, t[0]) by {
                assert(is_kid(old, j, t[0]));
            }
            lemma_moved(old, new, t);
        }
    }
}

/// exchanging a child keeps a node well formed
pub proof fn lemma_replaced_ok(old: Node, new: Node, i: int, c: Node)
    requires
        node_ok(old),
        node_ok(c),
        new.key == old.key,
        new.is_segment == old.is_segment,
        0 <= i < old.child_nodes@.len(),
        new.child_nodes@ == old.child_nodes@.update(i, c),
        c.is_segment == old.child_nodes@[i].is_segment,
        c.key@[0] == old.child_nodes@[i].key@[0],
    ensures
        node_ok(new),
{
    assert forall|j: int| 0 <= j < new.child_nodes@.len() implies child_ok(#[trigger] new.child_nodes@[j]) && wf(new.child_nodes@[j]) by {
        if j != i {
            assert(new.child_nodes@[j] == old.child_nodes@[j]);
        }
    }
    assert forall|a: int, b: int|
        0 <= a < b < new.child_nodes@.len() && (#[trigger] new.child_nodes@[a]).is_segment == (#[trigger] new.child_nodes@[b]).is_segment implies {
        &&& new.child_nodes@[a].key@[0] != new.child_nodes@[b].key@[0]
        &&& new.child_nodes@[a].is_segment ==> new.child_nodes@[a].key@[0] != '*' && new.child_nodes@[a].key@[0] != ':' && new.child_nodes@[b].key@[0] != ':'
    } by {
        assert(old.child_nodes@[a].is_segment == old.child_nodes@[b].is_segment);
    }
    assert forall|j: int| new.is_segment && new.key@[0] == ':' && 0 <= j < new.child_nodes@.len() implies (#[trigger] new.child_nodes@[j]).is_segment by {
        assert(old.child_nodes@[j].is_segment);
    }
    if new.key@.contains('*') {
        assert(new.child_nodes@.len() == 0);
    }
}

/// a child was added at the front or at the end
pub proof fn lemma_added(old: Node, new: Node, at: int, c: Node, key: Seq<char>, flag: bool)
    requires
        node_ok(old),
        node_ok(c),
        key_ok(key, flag),
        can_take(old, flag),
        c.key@ == key,
        c.is_segment == flag,
        new.key == old.key,
        new.is_segment == old.is_segment,
        new.value == old.value,
        0 <= at <= old.child_nodes@.len(),
        at == if key == seq!['*'] { old.child_nodes@.len() as int } else { 0 },
        new.child_nodes@ == old.child_nodes@.insert(at, c),
        forall|j: int| 0 <= j < old.child_nodes@.len() && (#[trigger] old.child_nodes@[j]).is_segment == flag ==> {
            &&& old.child_nodes@[j].key@[0] != key[0]
            &&& flag ==> !is_param_seg(key) && !is_param_seg(old.child_nodes@[j].key@)
        },
    ensures
        node_ok(new),
        grafted(old, tk(flag, key), c, new),
{
    let k = tk(flag, key);
    let oc = old.child_nodes@;
    let nc = new.child_nodes@;
    assert forall|j: int| 0 <= j < nc.len() implies child_ok(#[trigger] nc[j]) && wf(nc[j]) by {
        if j < at {
            assert(nc[j] == oc[j]);
        } else if j > at {
            assert(nc[j] == oc[j - 1]);
        }
    }
    if key[0] == '*' {
        assert(key.contains('*'));
    }
    assert forall|a: int, b: int|
        0 <= a < b < nc.len() && (#[trigger] nc[a]).is_segment == (#[trigger] nc[b]).is_segment implies {
        &&& nc[a].key@[0] != nc[b].key@[0]
        &&& nc[a].is_segment ==> nc[a].key@[0] != '*' && nc[a].key@[0] != ':' && nc[b].key@[0] != ':'
    } by {
        let oa = if a < at { oc[a] } else { oc[a - 1] };
        let ob = if b < at { oc[b] } else { oc[b - 1] };
        if a != at && b != at {
            assert(nc[a] == oa && nc[b] == ob);
        } else if a == at {
            assert(nc[b] == oc[b - 1]);
            assert(child_ok(oc[b - 1]));
        } else {
            assert(nc[a] == oc[a]);
            assert(child_ok(oc[a]));
        }
    }
    assert forall|j: int| new.is_segment && new.key@[0] == ':' && 0 <= j < nc.len() implies (#[trigger] nc[j]).is_segment by {
        if j < at {
            assert(nc[j] == oc[j]);
        } else if j > at {
            assert(nc[j] == oc[j - 1]);
        }
    }
    assert(wf_shallow(new));
    assert forall|t: Seq<Tok>| #[trigger] sem(new, t) == graft(old, k, c, t) by {
        assert(nk(c) == k);
        if t.len() > 0 && t[0] == k[0] {
            assert(is_kid(new, at, t[0]));
            lemma_via(new, at, t);
            assert forall|i: int| 0 <= i < oc.len() && (#[trigger] oc[i]).is_segment == t[0].0 implies oc[i].key@.len() > 0 && oc[i].key@[0] != t[0].1 by {
                assert(child_ok(oc[i]));
            }
            lemma_no_kid(old, t);
        } else {
            if t.len() > 0 {
                if pre(k, t) {
                    assert(t.take(k.len() as int)[0] == t[0]);
                }
                if pre(t, k) {
                    assert(k.take(t.len() as int)[0] == t[0]);
                }
                assert forall|i: int| is_kid(old, i, t[0]) implies exists|j: int| #[trigger] is_kid(new, j, t[0]) && new.child_nodes@[j] == old.child_nodes@[i] by {
                    let j = if i < at { i } else { i + 1 };
                    assert(nc[j] == oc[i]);
                    assert(is_kid(new, j, t[0]));
                }
                assert forall|j: int| is_kid(new, j, t[0]) implies exists|i: int| #[trigger] is_kid(old, i, t[0]) by {
                    let i = if j < at { j } else { j - 1 };
                    assert(j != at);
                    assert(nc[j] == oc[i]);
                    assert(is_kid(old, i, t[0]));
                }
            }
            lemma_moved(old, new, t);
        }
    }
}

pub proof fn lemma_fresh(old: Node, cur: Node, key: Seq<char>, flag: bool)
    requires
        node_ok(old),
        key_ok(key, flag),
        cur.value is None,
        cur.child_nodes@.len() == 0,
        cur.key@ == key,
        cur.is_segment == flag,
        forall|j: int| 0 <= j < old.child_nodes@.len() && (#[trigger] old.child_nodes@[j]).is_segment == flag ==> old.child_nodes@[j].key@[0] != key[0],
    ensures
        node_ok(cur),
        placed(old, tk(flag, key), cur),
{
    let k = tk(flag, key);
    assert forall|t: Seq<Tok>| #[trigger] sem(cur, t) == (Sem { point: t.len() == 0 || sem(old, k + t).point, val: sem(old, k + t).val }) by {
        assert((k + t)[0] == k[0]);
        assert forall|i: int| 0 <= i < old.child_nodes@.len() && (#[trigger] old.child_nodes@[i]).is_segment == flag implies old.child_nodes@[i].key@.len() > 0 && old.child_nodes@[i].key@[0] != k[0].1 by {
            assert(child_ok(old.child_nodes@[i]));
        }
        lemma_no_kid(old, k + t);
        if t.len() > 0 {
            lemma_no_kid(cur, t);
        }
    }
}

pub proof fn lemma_no_clash(n: Node, i: int, key: Seq<char>)
    requires
        wf_shallow(n),
        0 <= i < n.child_nodes@.len(),
        n.child_nodes@[i].is_segment,
        key.len() > 0,
        n.child_nodes@[i].key@[0] == key[0],
        n.child_nodes@[i].key@ == key || !is_param_seg(key),
    ensures
        !clash(n, key),
{
    assert forall|j: int| !#[trigger] clash_with(n, key, j) by {
        if clash_with(n, key, j) {
            assert(child_ok(n.child_nodes@[i]));
            assert(child_ok(n.child_nodes@[j]));
            if i < j {
                assert(n.child_nodes@[i].is_segment == n.child_nodes@[j].is_segment);
            } else if j < i {
                assert(n.child_nodes@[j].is_segment == n.child_nodes@[i].is_segment);
            }
        }
    }
}

/// the child and `cm`, which begins alike, stand for the same texts
pub open spec fn same_via(c: Node, cm: Node) -> bool {
    forall|t: Seq<Tok>| t.len() > 0 && t[0] == nk(cm)[0] ==> #[trigger] via(cm, t) == via(c, t)
}

/// the place `rest` of a child
pub proof fn lemma_descend_placed(old: Node, i: int, cm: Node, rest: Seq<Tok>, cur: Node)
    requires
        node_ok(old),
        0 <= i < old.child_nodes@.len(),
        cm.key@.len() > 0,
        nk(cm)[0] == nk(old.child_nodes@[i])[0],
        same_via(old.child_nodes@[i], cm),
        placed(cm, rest, cur),
    ensures
        placed(old, nk(cm) + rest, cur),
{
    let c = old.child_nodes@[i];
    assert(child_ok(c));
    let k = nk(cm) + rest;
    assert forall|t: Seq<Tok>| #[trigger] sem(cur, t) == (Sem { point: t.len() == 0 || sem(old, k + t).point, val: sem(old, k + t).val }) by {
        assert(k + t =~= nk(cm) + (rest + t));
        lemma_pre_cat(nk(cm), rest + t);
        assert((k + t)[0] == nk(cm)[0]);
        assert(is_kid(old, i, (k + t)[0]));
        lemma_via(old, i, k + t);
        assert(via(cm, k + t) == via(c, k + t));
    }
}

pub proof fn lemma_placed_here(n: Node)
    ensures
        placed(n, Seq::empty(), n),
{
    assert forall|t: Seq<Tok>| #[trigger] sem(n, t) == (Sem { point: t.len() == 0 || sem(n, Seq::empty() + t).point, val: sem(n, Seq::empty() + t).val }) by {
        assert(Seq::<Tok>::empty() + t =~= t);
    }
}

pub proof fn lemma_grafted_here(n: Node, fin: Node)
    ensures
        grafted(n, Seq::empty(), fin, fin),
{
    assert forall|t: Seq<Tok>| #[trigger] sem(fin, t) == graft(n, Seq::empty(), fin, t) by {
        assert(t.skip(0) =~= t);
        assert(t.take(0) =~= Seq::<Tok>::empty());
    }
}

/// a change in a child is a change of the node
pub proof fn lemma_descend(old: Node, new: Node, i: int, cm: Node, c2: Node, rest: Seq<Tok>, fin: Node)
    requires
        node_ok(old),
        node_ok(c2),
        0 <= i < old.child_nodes@.len(),
        new.key == old.key,
        new.is_segment == old.is_segment,
        new.value == old.value,
        new.child_nodes@ == old.child_nodes@.update(i, c2),
        cm.key@.len() > 0,
        nk(cm)[0] == nk(old.child_nodes@[i])[0],
        same_via(old.child_nodes@[i], cm),
        c2.key@ == cm.key@,
        c2.is_segment == cm.is_segment,
        grafted(cm, rest, fin, c2),
    ensures
        node_ok(new),
        same_place(old, new),
        grafted(old, nk(cm) + rest, fin, new),
{
    let c = old.child_nodes@[i];
    assert(child_ok(c));
    assert(nk(c2)[0] == nk(c)[0]);
    lemma_replaced_ok(old, new, i, c2);
    let k = nk(cm) + rest;
    assert forall|t: Seq<Tok>| #[trigger] sem(new, t) == graft(old, k, fin, t) by {
        lemma_replaced(old, new, i, c2, t);
        lemma_pre_trans(nk(cm), rest, t);
        if t.len() > 0 {
            assert(k[0] == nk(cm)[0]);
            if t[0] == nk(cm)[0] {
                assert(via(cm, t) == via(c, t));
                if pre(nk(cm), t) {
                    let u = t.skip(nk(cm).len() as int);
                    assert(sem(c2, u) == graft(cm, rest, fin, u));
                }
            } else {
                if pre(k, t) {
                    assert(t.take(k.len() as int)[0] == t[0]);
                }
                if pre(t, k) {
                    assert(k.take(t.len() as int)[0] == t[0]);
                }
            }
        }
    }
}

/// a node is split into two nodes: the texts stay the same
pub proof fn lemma_split(c: Node, at: int, cm: Node, inter: Node)
    requires
        node_ok(c),
        0 < at < c.key@.len(),
        inter.key@ == c.key@.skip(at),
        !inter.is_segment,
        inter.value == c.value,
        inter.child_nodes@ == c.child_nodes@,
        cm.key@ == c.key@.take(at),
        cm.is_segment == c.is_segment,
        cm.is_segment ==> cm.key@[0] != ':',
        cm.value is None,
        cm.child_nodes@ == seq![inter],
    ensures
        node_ok(inter),
        node_ok(cm),
        !cm.key@.contains('*'),
        nk(cm)[0] == nk(c)[0],
        same_via(c, cm),
{
    assert(child_ok(c) && wf(c));
    if inter.key@.contains('*') {
        let j = choose|j: int| 0 <= j < inter.key@.len() && inter.key@[j] == '*';
        assert(c.key@[at + j] == '*');
        assert(c.key@.contains('*'));
        assert(c.key@.len() == 1);
    }
    if cm.key@.contains('*') {
        let j = choose|j: int| 0 <= j < cm.key@.len() && cm.key@[j] == '*';
        assert(c.key@[j] == '*');
        assert(c.key@.contains('*'));
        assert(c.key@.len() == 1);
    }
    assert(wf_shallow(c));
    assert(wf_shallow(inter));
    assert forall|j: int| 0 <= j < inter.child_nodes@.len() implies wf(#[trigger] inter.child_nodes@[j]) by {
        assert(wf(c.child_nodes@[j]));
    }
    assert(wf(inter));
    assert(child_ok(inter));
    assert(cm.child_nodes@.len() == 1);
    assert(cm.child_nodes@[0] == inter);
    assert(wf_shallow(cm));
    assert(wf(cm));
    assert(c.key@ =~= cm.key@ + inter.key@);
    lemma_tk_cat(c.is_segment, cm.key@, inter.key@);
    assert(nk(c) == nk(cm) + nk(inter));
    assert(nk(c)[0] == nk(cm)[0]);
    assert forall|t: Seq<Tok>| t.len() > 0 && t[0] == nk(cm)[0] implies #[trigger] via(cm, t) == via(c, t) by {
        lemma_pre_trans(nk(cm), nk(inter), t);
        if pre(nk(cm), t) {
            let u = t.skip(nk(cm).len() as int);
            if u.len() == 0 {
                assert(nk(inter).take(0) =~= u);
                assert(!pre(nk(inter), u));
                assert(pre(u, nk(inter)));
                assert(!pre(nk(c), t));
                assert(pre(t, nk(c)));
            } else {
                if u[0] == nk(inter)[0] {
                    assert(is_kid(cm, 0, u[0]));
                    lemma_via(cm, 0, u);
                    if pre(nk(inter), u) {
                        lemma_sem_body(c, inter, u.skip(nk(inter).len() as int));
                    }
                } else {
                    lemma_no_kid(cm, u);
                    if pre(nk(inter), u) {
                        assert(u.take(nk(inter).len() as int)[0] == u[0]);
                    }
                    if pre(u, nk(inter)) {
                        assert(nk(inter).take(u.len() as int)[0] == u[0]);
                    }
                }
            }
        }
    }
}

pub proof fn lemma_toks_step(s: Seq<Seq<char>>, i: int)
    requires
        0 <= i < s.len(),
    ensures
        toks(s.take(i + 1)) == toks(s.take(i)) + tk(true, s[i]),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}

pub proof fn lemma_toks_head(s: Seq<Seq<char>>)
    requires
        s.len() > 0,
        segments_ok(s),
    ensures
        toks(s).len() > 0,
        toks(s)[0] == (true, s[0][0]),
    decreases s.len(),
{
    assert(s.drop_last() =~= s.take(s.len() - 1));
    if s.len() == 1 {
        assert(toks(s.drop_last()) =~= Seq::empty());
    } else {
        assert(segments_ok(s.drop_last()));
        lemma_toks_head(s.drop_last());
        assert(s.drop_last()[0] == s[0]);
    }
}

/// one step of the walk after another
pub proof fn lemma_steps(a: Node, k1: Seq<Tok>, b: Node, k2: Seq<Tok>, c: Node)
    requires
        placed(a, k1, b),
        placed(b, k2, c),
    ensures
        placed(a, k1 + k2, c),
{
    assert forall|t: Seq<Tok>| #[trigger] sem(c, t) == (Sem { point: t.len() == 0 || sem(a, k1 + k2 + t).point, val: sem(a, k1 + k2 + t).val }) by {
        assert(k1 + k2 + t =~= k1 + (k2 + t));
        assert(sem(b, k2 + t) == (Sem { point: (k2 + t).len() == 0 || sem(a, k1 + (k2 + t)).point, val: sem(a, k1 + (k2 + t)).val }));
    }
}

pub proof fn lemma_graft_steps(a: Node, k1: Seq<Tok>, b: Node, k2: Seq<Tok>, c2: Node, b2: Node, a2: Node)
    requires
        placed(a, k1, b),
        grafted(b, k2, c2, b2),
        grafted(a, k1, b2, a2),
    ensures
        grafted(a, k1 + k2, c2, a2),
{
    assert forall|t: Seq<Tok>| #[trigger] sem(a2, t) == graft(a, k1 + k2, c2, t) by {
        lemma_pre_trans(k1, k2, t);
        assert(sem(a2, t) == graft(a, k1, b2, t));
        if pre(k1, t) {
            let u = t.skip(k1.len() as int);
            assert(k1 + u =~= t);
            assert(sem(b2, u) == graft(b, k2, c2, u));
            assert(sem(b, u) == (Sem { point: u.len() == 0 || sem(a, k1 + u).point, val: sem(a, k1 + u).val }));
            if u.len() == 0 {
                assert(k2.take(0) =~= u);
                assert(pre(u, k2));
            }
        }
    }
}

/// only the value at `k` changed
pub proof fn lemma_extended(old: Node, k: Seq<Tok>, cur: Node, fin: Node, new: Node)
    requires
        placed(old, k, cur),
        grafted(old, k, fin, new),
        forall|t: Seq<Tok>| t.len() > 0 ==> #[trigger] sem(fin, t) == sem(cur, t),
    ensures
        extended(old, k, new),
        sem(new, k).val == fin.value,
        sem(old, k).val == cur.value,
{
    assert(k + Seq::<Tok>::empty() =~= k);
    assert(sem(cur, Seq::empty()) == (Sem { point: true, val: sem(old, k + Seq::<Tok>::empty()).val }));
    assert(k.take(k.len() as int) =~= k);
    assert(k.skip(k.len() as int) =~= Seq::empty());
    assert(sem(new, k) == graft(old, k, fin, k));
    assert forall|t: Seq<Tok>| (#[trigger] sem(new, t)).point == (pre(t, k) || sem(old, t).point) && (t != k ==> sem(new, t).val == sem(old, t).val) by {
        assert(sem(new, t) == graft(old, k, fin, t));
        if pre(k, t) {
            let u = t.skip(k.len() as int);
            assert(k + u =~= t);
            assert(sem(cur, u) == (Sem { point: u.len() == 0 || sem(old, k + u).point, val: sem(old, k + u).val }));
            if u.len() == 0 {
                assert(t =~= k);
            } else {
                assert(!pre(t, k));
            }
        }
    }
}

/// a node of which only the value was changed
pub proof fn lemma_value_changed(cur: Node, fin: Node)
    requires
        node_ok(cur),
        same_place(cur, fin),
        fin.child_nodes == cur.child_nodes,
    ensures
        node_ok(fin),
        forall|t: Seq<Tok>| t.len() > 0 ==> #[trigger] sem(fin, t) == sem(cur, t),
{
    assert forall|i: int| 0 <= i < fin.child_nodes@.len() implies wf(#[trigger] fin.child_nodes@[i]) && child_ok(fin.child_nodes@[i]) by {
        assert(wf(cur.child_nodes@[i]));
    }
    assert(wf_shallow(fin));
    assert forall|t: Seq<Tok>| t.len() > 0 implies #[trigger] sem(fin, t) == sem(cur, t) by {
        if is_kid(cur, kid(cur, t[0]), t[0]) {
            let i = kid(cur, t[0]);
            assert(is_kid(fin, i, t[0]));
            lemma_via(cur, i, t);
            lemma_via(fin, i, t);
        } else if is_kid(fin, kid(fin, t[0]), t[0]) {
            assert(is_kid(cur, kid(fin, t[0]), t[0]));
        }
    }
}

pub proof fn lemma_root_kept(old: Node, k: Seq<Tok>, fin: Node, new: Node)
    requires
        root_ok(old),
        node_ok(new),
        same_place(old, new),
        grafted(old, k, fin, new),
        k.len() > 0 && k[0].0,
    ensures
        root_ok(new),
{
    assert forall|i: int| 0 <= i < new.child_nodes@.len() implies (#[trigger] new.child_nodes@[i]).is_segment by {
        let c = new.child_nodes@[i];
        assert(child_ok(c));
        if !c.is_segment {
            let t = seq![(false, c.key@[0])];
            assert(is_kid(new, i, t[0]));
            lemma_via(new, i, t);
            if pre(nk(c), t) {
                assert(t.skip(nk(c).len() as int).len() == 0);
            } else {
                assert(nk(c).take(1) =~= t);
                assert(pre(t, nk(c)));
            }
            assert(sem(new, t).point);
            assert(sem(new, t) == graft(old, k, fin, t));
            if pre(k, t) {
                assert(t.take(k.len() as int)[0] == t[0]);
            }
            if pre(t, k) {
                assert(k.take(1)[0] == t[0]);
            }
            assert(is_kid(old, kid(old, t[0]), t[0]));
            assert(old.child_nodes@[kid(old, t[0])].is_segment);
        }
    }
}

pub proof fn lemma_segs(path: Seq<char>)
    ensures
        forall|i: int| 0 <= i < segs(path).len() ==> (#[trigger] segs(path)[i]).len() > 0,
{
    let sp = split(path, '/');
    assert forall|i: int| 0 <= i < segs(path).len() implies (#[trigger] segs(path)[i]).len() > 0 by {
        sp.lemma_filter_pred(not_empty(), i);
        assert(not_empty()(segs(path)[i]));
    }
}

pub proof fn lemma_star(s: Seq<char>)
    ensures
        s.contains('*') ==> (blen(s) == 1 <==> s == seq!['*']),
{
    if s.contains('*') {
        let j = choose|j: int| 0 <= j < s.len() && s[j] == '*';
        if s.len() > 1 {
            lemma_blen_ge(s);
            assert(seq!['*'].len() == 1);
        } else {
            assert(s =~= seq!['*']);
            lemma_blen_one('*');
        }
    }
}

pub proof fn lemma_placed_value(head: Node, k: Seq<Tok>, cur: Node)
    requires
        placed(head, k, cur),
    ensures
        sem(head, k).val == cur.value,
{
    assert(k + Seq::<Tok>::empty() =~= k);
    assert(sem(cur, Seq::empty()) == (Sem { point: true, val: sem(head, k + Seq::<Tok>::empty()).val }));
}

/// the children of `src` were added
pub proof fn lemma_mounted_node(cur: Node, src: Node, fin: Node)
    requires
        node_ok(cur),
        root_ok(src),
        forall|i: int| 0 <= i < cur.child_nodes@.len() ==> !(#[trigger] cur.child_nodes@[i]).is_segment,
        same_place(cur, fin),
        fin.value == src.value,
        fin.child_nodes@ == cur.child_nodes@ + src.child_nodes@,
        cur.key@.contains('*') ==> src.child_nodes@.len() == 0,
    ensures
        node_ok(fin),
        forall|t: Seq<Tok>| t.len() > 0 ==> #[trigger] sem(fin, t) == (if t[0].0 { sem(src, t) } else { sem(cur, t) }),
{
    let cc = cur.child_nodes@;
    let sc = src.child_nodes@;
    let fc = fin.child_nodes@;
    assert forall|i: int| 0 <= i < fc.len() implies wf(#[trigger] fc[i]) && child_ok(fc[i]) && (i < cc.len() ==> fc[i] == cc[i] && !fc[i].is_segment) && (i >= cc.len() ==> fc[i] == sc[i - cc.len()] && fc[i].is_segment) by {
        if i < cc.len() {
            assert(wf(cc[i]));
        } else {
            assert(wf(sc[i - cc.len()]));
        }
    }
    assert forall|a: int, b: int| 0 <= a < b < fc.len() && (#[trigger] fc[a]).is_segment == (#[trigger] fc[b]).is_segment implies {
        &&& fc[a].key@[0] != fc[b].key@[0]
        &&& fc[a].is_segment ==> fc[a].key@[0] != '*' && fc[a].key@[0] != ':' && fc[b].key@[0] != ':'
    } by {
        if b < cc.len() {
            assert(cc[a].is_segment == cc[b].is_segment);
        } else {
            assert(a >= cc.len());
            assert(sc[a - cc.len()].is_segment == sc[b - cc.len()].is_segment);
        }
    }
    assert(wf_shallow(fin));
    assert forall|i: int| fin.is_segment && fin.key@[0] == ':' && 0 <= i < fc.len() implies (#[trigger] fc[i]).is_segment by {
        if i < cc.len() {
            assert(cc[i].is_segment);
        }
    }
    assert forall|t: Seq<Tok>| t.len() > 0 implies #[trigger] sem(fin, t) == (if t[0].0 { sem(src, t) } else { sem(cur, t) }) by {
        if t[0].0 {
            if is_kid(src, kid(src, t[0]), t[0]) {
                let i = kid(src, t[0]);
                assert(fc[i + cc.len()] == sc[i]);
                assert(is_kid(fin, i + cc.len(), t[0]));
                lemma_via(fin, i + cc.len(), t);
                lemma_via(src, i, t);
            } else if is_kid(fin, kid(fin, t[0]), t[0]) {
                let i = kid(fin, t[0]);
                assert(i >= cc.len());
                assert(is_kid(src, i - cc.len(), t[0]));
            }
        } else {
            if is_kid(cur, kid(cur, t[0]), t[0]) {
                let i = kid(cur, t[0]);
                assert(fc[i] == cc[i]);
                assert(is_kid(fin, i, t[0]));
                lemma_via(fin, i, t);
                lemma_via(cur, i, t);
            } else if is_kid(fin, kid(fin, t[0]), t[0]) {
                let i = kid(fin, t[0]);
                assert(i < cc.len());
                assert(is_kid(cur, i, t[0]));
            }
        }
    }
}

pub proof fn lemma_mounted(old: Node, k: Seq<Tok>, cur: Node, src: Node, fin: Node, new: Node)
    requires
        placed(old, k, cur),
        grafted(old, k, fin, new),
        fin.value == src.value,
        forall|t: Seq<Tok>| t.len() > 0 ==> #[trigger] sem(fin, t) == (if t[0].0 { sem(src, t) } else { sem(cur, t) }),
    ensures
        mounted(old, k, src, new),
{
    assert forall|t: Seq<Tok>| #[trigger] sem(new, t) == mount(old, k, src, t) by {
        assert(sem(new, t) == graft(old, k, fin, t));
        if pre(k, t) {
            let u = t.skip(k.len() as int);
            assert(k + u =~= t);
            assert(sem(cur, u) == (Sem { point: u.len() == 0 || sem(old, k + u).point, val: sem(old, k + u).val }));
        }
    }
}

/// the first token of a child
pub proof fn lemma_child_point(n: Node, i: int)
    requires
        node_ok(n),
        0 <= i < n.child_nodes@.len(),
    ensures
        sem(n, seq![(n.child_nodes@[i].is_segment, n.child_nodes@[i].key@[0])]).point,
{
    let c = n.child_nodes@[i];
    assert(child_ok(c));
    let t = seq![(c.is_segment, c.key@[0])];
    assert(is_kid(n, i, t[0]));
    lemma_via(n, i, t);
    if pre(nk(c), t) {
        assert(t.skip(nk(c).len() as int).len() == 0);
    } else {
        assert(nk(c).take(1) =~= t);
        assert(pre(t, nk(c)));
    }
}

pub proof fn lemma_occupied(head: Node, k: Seq<Tok>, cur: Node)
    requires
        node_ok(cur),
        placed(head, k, cur),
    ensures
        occupied(head, k) <==> cur.value is Some || exists|i: int| 0 <= i < cur.child_nodes@.len() && (#[trigger] cur.child_nodes@[i]).is_segment,
{
    lemma_placed_value(head, k, cur);
    if exists|i: int| 0 <= i < cur.child_nodes@.len() && (#[trigger] cur.child_nodes@[i]).is_segment {
        let i = choose|i: int| 0 <= i < cur.child_nodes@.len() && (#[trigger] cur.child_nodes@[i]).is_segment;
        let c = cur.child_nodes@[i].key@[0];
        lemma_child_point(cur, i);
        assert(k + seq![(true, c)] =~= k.push((true, c)));
        assert(sem(cur, seq![(true, c)]) == (Sem { point: seq![(true, c)].len() == 0 || sem(head, k + seq![(true, c)]).point, val: sem(head, k + seq![(true, c)]).val }));
        assert(below(head, k, c));
    }
    if occupied(head, k) && !(sem(head, k).val is Some) {
        let c = choose|c: char| #[trigger] below(head, k, c);
        let t = seq![(true, c)];
        assert(k + t =~= k.push((true, c)));
        assert(sem(cur, t) == (Sem { point: t.len() == 0 || sem(head, k + t).point, val: sem(head, k + t).val }));
        assert(is_kid(cur, kid(cur, t[0]), t[0]));
        assert(cur.child_nodes@[kid(cur, t[0])].is_segment);
    }
}
//#endif

//@fn Node::is_param
//@for C01 C02 C03 C04 C06 C07 C15 C18 C20
//@ret r
//@spec
    ensures
        r == (self.is_segment && is_param_seg(self.key@)),
//@fn Action::new
//@for C01 C02 C03 C04 C06 C07 C15 C18
//@ret r
//@spec
    ensures
        r.name == name && r.payload == payload,
//@fn ActionPayload::new
//@for C01 C02 C03 C04 C06 C07 C15 C18
//@ret r
//@spec
    ensures
        r.match_count == match_count && r.node_index == node_index,

//@fn Node::get_insertion_action
//@forwhile
//@ret action
//@spec
    requires
        wf_shallow(*self),
        key_ok(key@, is_segment),
    ensures
        action_ok(*self, key@, is_segment, action),
//@loop 0
            invariant
                wf_shallow(*self),
                key_ok(key@, is_segment),
                0 <= __it0.pos() <= self.child_nodes@.len(),
                __it0@ == self.child_nodes@.skip(__it0.pos()),
                forall|j: int| 0 <= j < __it0.pos() && (#[trigger] self.child_nodes@[j]).is_segment == is_segment ==> {
                    &&& self.child_nodes@[j].key@[0] != key@[0]
                    &&& is_segment ==> !is_param_seg(key@) && !is_param_seg(self.child_nodes@[j].key@)
                },
            ensures
                __it0.pos() == self.child_nodes@.len(),
            decreases __it0@.len(),
//@loopstart 0
            proof {
                assert(*node == self.child_nodes@[index as int]);
                assert(child_ok(*node));
                assert(self.child_nodes@.skip(index as int).drop_first() =~= self.child_nodes@.skip(index + 1));
                axiom_str_len(key);
            }
            let ghost mut c: int = 0;
//@loopbefore 1
            proof {
                assert(node.key@.take(0) =~= key@.take(0));
                assert(key@.take(0) =~= Seq::<char>::empty());
                lemma_blen_empty();
            }
//@loop 1
                invariant_except_break
                    __it1@ == node.key@.skip(c),
                    temp_key_chars@ == key@.skip(c),
                invariant
                    0 <= c <= node.key@.len(),
                    c <= key@.len(),
                    node.key@.take(c) == key@.take(c),
                    count == blen(key@.take(c)),
                    blen(key@) <= usize::MAX,
                ensures
                    c == node.key@.len() || c == key@.len() || node.key@[c] != key@[c],
                decreases __it1@.len(),
//@loopstart 1
                proof {
                    assert(k == node.key@[c]);
                    assert(node.key@.skip(c).drop_first() =~= node.key@.skip(c + 1));
                    if c < key@.len() {
                        assert(key@.skip(c).drop_first() =~= key@.skip(c + 1));
                        lemma_blen_take_step(key@, c);
                        lemma_blen_take_mono(key@, c + 1, key@.len() as int);
                        assert(key@.take(key@.len() as int) =~= key@);
                    }
                }
//@after "count += t_k.len_utf8()"
                    proof {
                        assert(node.key@.take(c + 1) =~= node.key@.take(c).push(k));
                        assert(key@.take(c + 1) =~= key@.take(c).push(t_k));
                        c = c + 1;
                    }
//@before "match count"
            proof {
                let ghost klen = key@.len() as int;
                let ghost nlen = node.key@.len() as int;
                assert(key@.take(klen) =~= key@);
                assert(node.key@.take(nlen) =~= node.key@);
                lemma_blen_take_mono(key@, 0, c);
                lemma_blen_take_mono(key@, c, klen);
                lemma_blen_take_mono(node.key@, c, nlen);
                if c > 0 {
                    assert(node.key@.take(c)[0] == key@.take(c)[0]);
                } else {
                    lemma_blen_empty();
                }
                if 0 < c < nlen {
                    assert(split_at(node.key@, key@, c));
                }
            }

//@fn RouteValue::new
//@for C01 C04 C06 C20 C07
//@ret r
//@spec
        ensures
            r.middlewares == middlewares,
            r.route == route,
//@fn RouteValueResult::new
//@for C01 C04 C06 C20 C07
//@ret r
//@spec
        ensures
            r.route_value == route_value,
            r.params == params,
//@fn RouteValueResult::get_route
//@for C07 C20
//@ret r
//@spec
        ensures
            r is Some <==> rmap(self.route_value.route.route_map).contains_key(*method),
            r is Some ==> *r->0 == rmap(self.route_value.route.route_map)[*method],
//@fn RouteValueResult::get_middlewares
//@for C04 C20 C07
//@ret r
//@spec
        ensures
            *r == self.route_value.middlewares,
//@fn RouteValueResult::get_params
//@for C06 C20 C07
//@fmethod clone = &crate::vshim::smap_clone
//@ret r
//@spec
        ensures
            smap(r) == smap(self.params),

//@fn Node::new
//@for C01 C02 C03 C04 C06 C15 C18 C07
//@ret r
//@spec
    ensures
        r.key == key,
        r.is_segment == is_segment,
        r.value is None,
        r.child_nodes@.len() == 0,

//@fn Node::process_insertion
//@for C01 C02 C03 C04 C06 C15 C18 C07
//@ret r
//@fmethod to_string = &crate::vshim::to_text
//@fmethod split_at = &crate::vshim::str_split_at
//@fmethod node.key.truncate = &mut crate::vshim::string_truncate
//@panic
        assert(false);
//@spec
    requires
        node_ok(*old(self)),
        key_ok(key@, is_segment),
        can_take(*old(self), is_segment),
    ensures
        match r {
            Err(_) => is_segment && clash(*old(self), key@) && *final(self) == *old(self),
            Ok(cur) => {
                &&& is_segment ==> !clash(*old(self), key@)
                &&& node_ok(*cur)
                &&& cur.key@.contains('*') ==> key@ == seq!['*']
                &&& placed(*old(self), tk(is_segment, key@), *cur)
                &&& node_ok(*final(cur)) && same_place(*cur, *final(cur)) ==> {
                    &&& node_ok(*final(self))
                    &&& same_place(*old(self), *final(self))
                    &&& grafted(*old(self), tk(is_segment, key@), *final(cur), *final(self))
                }
            },
        },
    decreases *old(self),
//@before "return Ok(node)" #0
                            proof {
                                reveal_strlit("*");
                                assert(key@ =~= seq!['*']);
                                assert(after_borrow(*self).child_nodes@ =~= old(self).child_nodes@.insert(old(self).child_nodes@.len() as int, *final(node)));
                                lemma_fresh(*old(self), *node, key@, is_segment);
                                assert(is_segment ==> !clash(*old(self), key@));
                                assert(node_ok(*final(node)) && same_place(*node, *final(node)) ==> node_ok(after_borrow(*self)) && same_place(*old(self), after_borrow(*self)) && grafted(*old(self), tk(is_segment, key@), *final(node), after_borrow(*self))) by {
                                    if node_ok(*final(node)) && same_place(*node, *final(node)) {
                                    lemma_added(*old(self), after_borrow(*self), old(self).child_nodes@.len() as int, *final(node), key@, is_segment);
                                    }
                                }
                            }
//@before "return Ok(node)" #1
                            proof {
                                reveal_strlit("*");
                                assert(seq!['*'] =~= "*"@);
                                assert(after_borrow(*self).child_nodes@ =~= old(self).child_nodes@.insert(0, *final(node)));
                                lemma_fresh(*old(self), *node, key@, is_segment);
                                assert(is_segment ==> !clash(*old(self), key@));
                                assert(node_ok(*final(node)) && same_place(*node, *final(node)) ==> node_ok(after_borrow(*self)) && same_place(*old(self), after_borrow(*self)) && grafted(*old(self), tk(is_segment, key@), *final(node), after_borrow(*self))) by {
                                    if node_ok(*final(node)) && same_place(*node, *final(node)) {
                                    lemma_added(*old(self), after_borrow(*self), 0, *final(node), key@, is_segment);
                                    }
                                }
                            }
//@before "return Ok(node)" #2
                    proof {
                        let i = action.payload.node_index as int;
                        let c = old(self).child_nodes@[i];
                        assert(*node == c);
                        assert(child_ok(c) && wf(c));
                        lemma_placed_here(c);
                        lemma_descend_placed(*old(self), i, c, Seq::empty(), c);
                        assert(nk(c) + Seq::<Tok>::empty() =~= tk(is_segment, key@));
                        if is_segment {
                            lemma_no_clash(*old(self), i, key@);
                        }
                        assert(node_ok(*final(node)) && same_place(*node, *final(node)) ==> node_ok(after_borrow(*self)) && same_place(*old(self), after_borrow(*self)) && grafted(*old(self), tk(is_segment, key@), *final(node), after_borrow(*self))) by {
                            if node_ok(*final(node)) && same_place(*node, *final(node)) {
                            lemma_grafted_here(c, *final(node));
                                lemma_descend(*old(self), after_borrow(*self), i, c, *final(node), Seq::empty(), *final(node));
                            }
                        }
                    }
//@before "return node.process_insertion"
                    let ghost c = *node;
                    let ghost i = action.payload.node_index as int;
                    let ghost rest = key@.skip(c.key@.len() as int);
                    proof {
                        assert(c == old(self).child_nodes@[i]);
                        assert(child_ok(c) && wf(c));
                        let n = c.key@.len() as int;
                        assert(key@ =~= c.key@ + rest);
                        lemma_tk_cat(is_segment, c.key@, rest);
                        assert(blen(key@.take(n)) == action.payload.match_count);
                        if rest.contains('*') {
                            let j = choose|j: int| 0 <= j < rest.len() && rest[j] == '*';
                            assert(key@[n + j] == '*');
                            assert(key@.contains('*'));
                        }
                        if c.key@.contains('*') {
                            assert(key@[0] == '*');
                            assert(key@.contains('*'));
                        }
                        assert(key@[0] == c.key@[0]);
                        if is_segment {
                            lemma_no_clash(*old(self), i, key@);
                        }
                    }
//@returning "node.process_insertion"
                        proof {
                            if __r is Ok {
                                assert(tk(is_segment, key@) == nk(c) + tk(false, rest));
                                lemma_descend_placed(*old(self), i, c, tk(false, rest), *__r->Ok_0);
                                assert(node_ok(*final(__r->Ok_0)) && same_place(*__r->Ok_0, *final(__r->Ok_0)) ==> node_ok(after_borrow(*self)) && same_place(*old(self), after_borrow(*self)) && grafted(*old(self), tk(is_segment, key@), *final(__r->Ok_0), after_borrow(*self))) by {
                                    if node_ok(*final(__r->Ok_0)) && same_place(*__r->Ok_0, *final(__r->Ok_0)) {
                                        lemma_descend(*old(self), after_borrow(*self), i, c, after_borrow(*node), tk(false, rest), *final(__r->Ok_0));
                                    }
                                }
                            }
                        }
//@before "let count = action"
                    let ghost c = *node;
                    let ghost i = action.payload.node_index as int;
                    let ghost at = choose|at: int| #[trigger] split_at(c.key@, key@, at) && action.payload.match_count == blen(key@.take(at));
                    proof {
                        assert(c == old(self).child_nodes@[i]);
                        assert(child_ok(c) && wf(c));
                        assert(c.key@.take(at) == key@.take(at));
                    }
//@after "node.child_nodes.insert(0, inter_node)"
                    let ghost cm = *node;
                    let ghost rest = tk(false, new_key@);
                    proof {
                        let inter = cm.child_nodes@[0];
                        assert(cm.child_nodes@ =~= seq![inter]);
                        assert(cm.key@[0] == c.key@[0]);
                        lemma_split(c, at, cm, inter);
                        assert(key@ =~= cm.key@ + new_key@);
                        lemma_tk_cat(is_segment, cm.key@, new_key@);
                        assert(key@[0] == c.key@[0]);
                        if is_segment {
                            lemma_no_clash(*old(self), i, key@);
                        }
                    }
//@before "return Ok(node)" #3
                        proof {
                            assert(rest =~= Seq::empty());
                            lemma_placed_here(cm);
                            lemma_descend_placed(*old(self), i, cm, rest, cm);
                            assert(node_ok(*final(node)) && same_place(*node, *final(node)) ==> node_ok(after_borrow(*self)) && same_place(*old(self), after_borrow(*self)) && grafted(*old(self), tk(is_segment, key@), *final(node), after_borrow(*self))) by {
                                if node_ok(*final(node)) && same_place(*node, *final(node)) {
                                    lemma_grafted_here(cm, *final(node));
                                    lemma_descend(*old(self), after_borrow(*self), i, cm, *final(node), rest, *final(node));
                                }
                            }
                        }
//@before "return Ok(result_node)"
                        proof {
                            if new_key@.contains('*') {
                                let j = choose|j: int| 0 <= j < new_key@.len() && new_key@[j] == '*';
                                assert(key@[at + j] == '*');
                                assert(key@.contains('*'));
                            }
                            assert(new_key@ != seq!['*']) by {
                                assert(seq!['*'][0] == '*');
                            }
                            lemma_fresh(cm, *result_node, new_key@, false);
                            lemma_descend_placed(*old(self), i, cm, rest, *result_node);
                            assert(node_ok(*final(result_node)) && same_place(*result_node, *final(result_node)) ==> node_ok(after_borrow(*self)) && same_place(*old(self), after_borrow(*self)) && grafted(*old(self), tk(is_segment, key@), *final(result_node), after_borrow(*self))) by {
                                if node_ok(*final(result_node)) && same_place(*result_node, *final(result_node)) {
                                    assert(after_borrow(*node).child_nodes@ =~= cm.child_nodes@.insert(0, *final(result_node)));
                                    lemma_added(cm, after_borrow(*node), 0, *final(result_node), new_key@, false);
                                    lemma_descend(*old(self), after_borrow(*self), i, cm, after_borrow(*node), rest, *final(result_node));
                                }
                            }
                        }
//@before "return Err"
                    proof {
                        assert(clash_with(*old(self), key@, action.payload.node_index as int));
                    }

//@fn RouteTrie::new
//@for C01 C02 C03 C04 C06 C07 C15 C18
//@fmethod to_string = &crate::vshim::to_text
//@ret r
//@start
        proof {
            reveal_strlit("/");
            assert("/"@ =~= seq!['/']);
//#if C01 C02 C03 C04 C06 C15
            assert forall|n: Node| root_ok(n) && n.value is None && n.child_nodes@.len() == 0 implies #[trigger] holds(n, Seq::empty()) by {
                lemma_log_new(n);
            }
//#endif
        }
//@spec
    ensures
        root_ok(r.head),
        r.head.value is None,
        r.head.child_nodes@.len() == 0,
//#if C01 C02 C03 C04 C06 C15
        holds(r.head, Seq::empty()),
//#endif
//@fn RouteTrie::insert_default_route
//@panic
        assert(routes(old(self).head.value).contains_key(__m));
//@start
        let ghost __m = route.method;
        let ghost __rt = route;
//@spec
    requires
        root_ok(old(self).head),
    ensures
        root_ok(final(self).head),
        extended(old(self).head, Seq::empty(), final(self).head),
        routed(old(self).head.value, final(self).head.value, route),
        !routes(old(self).head.value).contains_key(route.method),
//#if C01 C02 C03 C04 C06 C15
        forall|log: Log| #[trigger] holds(old(self).head, log) ==> holds(final(self).head, log.push(Reg { path: Seq::empty(), what: What::Handler(route) })),
//#endif
//@finish returns
        proof {
            lemma_value_changed(old(self).head, self.head);
            lemma_placed_here(old(self).head);
            lemma_grafted_here(old(self).head, self.head);
            lemma_extended(old(self).head, Seq::empty(), old(self).head, self.head, self.head);
//#if C01 C02 C03 C04 C06 C15
            assert(toks(Seq::<Seq<char>>::empty()) =~= Seq::<Tok>::empty());
            assert forall|log: Log| #[trigger] holds(old(self).head, log) implies holds(self.head, log.push(Reg { path: Seq::empty(), what: What::Handler(__rt) })) by {
                lemma_log_push(old(self).head, log, Reg { path: Seq::empty(), what: What::Handler(__rt) }, self.head);
            }
//#endif
        }

//@fn RouteTrie::insert_default_middleware
//@fpath Arc::new = crate::vshim::arc_mw
//@start
        let ghost __mw = middleware;
//@spec
    requires
        root_ok(old(self).head),
    ensures
        root_ok(final(self).head),
        extended(old(self).head, Seq::empty(), final(self).head),
        middled(old(self).head.value, final(self).head.value, mw_of(middleware)),
//#if C01 C02 C03 C04 C06 C15
        forall|log: Log| #[trigger] holds(old(self).head, log) ==> holds(final(self).head, log.push(Reg { path: Seq::empty(), what: What::Around(mw_of(middleware)) })),
//#endif
//@finish returns
        proof {
            lemma_value_changed(old(self).head, self.head);
            lemma_placed_here(old(self).head);
            lemma_grafted_here(old(self).head, self.head);
            lemma_extended(old(self).head, Seq::empty(), old(self).head, self.head, self.head);
//#if C01 C02 C03 C04 C06 C15
            assert(toks(Seq::<Seq<char>>::empty()) =~= Seq::<Tok>::empty());
            assert forall|log: Log| #[trigger] holds(old(self).head, log) implies holds(self.head, log.push(Reg { path: Seq::empty(), what: What::Around(mw_of(__mw)) })) by {
                lemma_log_push(old(self).head, log, Reg { path: Seq::empty(), what: What::Around(mw_of(__mw)) }, self.head);
            }
//#endif
        }

//@fn RouteTrie::insert_route
//@for C01 C02 C03 C04 C06 C07 C15 C18
//@fmethod contains = &crate::vshim::str_contains_char
//@panic
//#if C03
        assert(refused(old(self).head, segs(path@)) || routes(sem(old(self).head, ptoks(path@)).val).contains_key(__m));
        lemma_segs(path@);
        assert forall|log: Log| #[trigger] holds(old(self).head, log) implies !well_formed(segs(path@)) || ambiguous(log, segs(path@)) || routes_at(log, ptoks(path@)).contains_key(__m) by {
            if conflicts(old(self).head, segs(path@)) {
                lemma_conflicts_log(old(self).head, log, segs(path@));
            }
        }
//#endif
//@spec
    requires
        root_ok(old(self).head),
    ensures
        root_ok(final(self).head),
        extended(old(self).head, ptoks(path@), final(self).head),
        routed(sem(old(self).head, ptoks(path@)).val, sem(final(self).head, ptoks(path@)).val, route),
        well_formed(segs(path@)),
        free(old(self).head, segs(path@)),
        !routes(sem(old(self).head, ptoks(path@)).val).contains_key(route.method),
//#if C01 C02 C03 C04 C06 C15
        forall|log: Log| #[trigger] holds(old(self).head, log) ==> holds(final(self).head, log.push(Reg { path: segs(path@), what: What::Handler(route) })),
//#endif
//#if C03
        forall|log: Log, j: int, i: int| #[trigger] holds(old(self).head, log) && #[trigger] clashing(log, j, segs(path@), i) ==> log[j].what is Mounted,
//#endif
//@start
        let ghost __m = route.method;
        let ghost __route = route;
        let ghost __s = segs(path@);
//@closure 0 |$0: &&str| -> (b: bool)
            ensures
                b == (($0)@.len() > 0),
//@loopbefore 0
        proof {
            assert(split(path@, '/').filter(not_empty()) == __s);
        }
//@loop 0
            invariant
                __s == segs(path@),
                __m == route.method,
                split_key@ == __s,
                0 <= __it0.pos() <= __s.len(),
                __it0@ == __s.skip(__it0.pos()),
                forall|i: int| 0 <= i < __it0.pos() && (#[trigger] __s[i]).contains('*') ==> __s[i] == seq!['*'] && i == __s.len() - 1,
            ensures
                __it0.pos() == __s.len(),
            decreases __it0@.len(),
//@loopstart 0
            proof {
                assert(__s.skip(pos as int).drop_first() =~= __s.skip(pos + 1));
                axiom_str_len(x);
                assert(x@ == __s[pos as int]);
                assert(__it0.pos() == pos + 1);
                assert(pos < __s.len());
                lemma_star(x@);
            }
//@after "let mut curr_node"
        let ghost mut __i: int = 0;
        proof {
            lemma_segs(path@);
            assert(segments_ok(__s));
            assert(well_formed(__s));
            lemma_walk_start(old(self).head, __s);
        }
//@loop 1
            invariant_except_break
                0 <= __i < __s.len(),
                route == __route,
                split_key@ == __s.skip(__i),
                walking(old(self).head, __s, __i, *curr_node),
                walked(old(self).head, __s, __i, *curr_node, *final(curr_node), after_borrow(self.head)),
            invariant
                root_ok(old(self).head),
                segments_ok(__s),
                well_formed(__s),
                __s == segs(path@),
                __m == __route.method,
            ensures
                __s.len() > 0,
                walking(old(self).head, __s, __s.len() as int, __cur),
                walked(old(self).head, __s, __s.len() as int, __cur, __fin, after_borrow(self.head)),
                same_place(__cur, __fin),
                __cur.child_nodes == __fin.child_nodes,
                routed(__cur.value, __fin.value, __route),
                !routes(__cur.value).contains_key(__m),
            decreases split_key@.len(),
//@loopstart 1
            proof {
                assert(k@ == __s[__i]);
                assert(__s.skip(__i).drop_first() =~= __s.skip(__i + 1));
                lemma_can_walk(old(self).head, __s, __i, *curr_node);
            }
            let ghost __at = *curr_node;
//@before "if split_key.peek().is_none()" #1
                    let ghost __next = *next_node;
                    proof {
                        lemma_walk_step(old(self).head, __s, __i, __at, __next);
                        lemma_walk_back(old(self).head, __s, __i, __at, __next, *final(next_node), after_borrow(*curr_node), after_borrow(self.head));
                        __i = __i + 1;
                    }
//@before "match &mut next_node.value"
                        proof {
                            assert(__s.take(__s.len() as int) =~= __s);
                            lemma_placed_value(old(self).head, toks(__s), __next);
                        }
//@before "break"
                        proof {
                            __cur = __next;
                            __fin = *next_node;
                        }
//@loopbefore 1
        let ghost mut __cur = *curr_node;
        let ghost mut __fin = *curr_node;
//@finish
        proof {
            assert(__s.take(__s.len() as int) =~= __s);
            lemma_toks_head(__s);
            lemma_value_changed(__cur, __fin);
            lemma_extended(old(self).head, ptoks(path@), __cur, __fin, self.head);
            lemma_root_kept(old(self).head, ptoks(path@), __fin, self.head);
//#if C01 C02 C03 C04 C06 C15
            assert forall|log: Log| #[trigger] holds(old(self).head, log) implies holds(self.head, log.push(Reg { path: segs(path@), what: What::Handler(__route) })) by {
                lemma_log_push(old(self).head, log, Reg { path: segs(path@), what: What::Handler(__route) }, self.head);
            }
//#endif
//#if C03
            assert forall|log: Log, j: int, i: int| #[trigger] holds(old(self).head, log) && #[trigger] clashing(log, j, segs(path@), i) implies log[j].what is Mounted by {
                lemma_free_log(old(self).head, log, segs(path@));
            }
//#endif
        }
//@arm "Err(err)"
            proof {
                assert(conflicts_at(old(self).head, __s, __i));
            }
//@after "self.insert_default_route(route)"
            proof {
                lemma_segs(path@);
                assert(toks(segs(path@)) =~= Seq::<Tok>::empty());
//#if C01 C02 C03 C04 C06 C15
                assert forall|log: Log| #[trigger] holds(old(self).head, log) implies holds(self.head, log.push(Reg { path: segs(path@), what: What::Handler(__route) })) by {
                lemma_log_push(old(self).head, log, Reg { path: segs(path@), what: What::Handler(__route) }, self.head);
            }
//#endif
            }


//@fn RouteTrie::insert_middleware
//@fpath Arc::new = crate::vshim::arc_mw
//@fmethod contains = &crate::vshim::str_contains_char
//@panic
//#if C03
        assert(refused(old(self).head, segs(path@)));
        lemma_segs(path@);
        assert forall|log: Log| #[trigger] holds(old(self).head, log) implies !well_formed(segs(path@)) || ambiguous(log, segs(path@)) by {
            if conflicts(old(self).head, segs(path@)) {
                lemma_conflicts_log(old(self).head, log, segs(path@));
            }
        }
//#endif
//@spec
    requires
        root_ok(old(self).head),
    ensures
        root_ok(final(self).head),
        extended(old(self).head, ptoks(path@), final(self).head),
        middled(sem(old(self).head, ptoks(path@)).val, sem(final(self).head, ptoks(path@)).val, mw_of(middleware)),
        well_formed(segs(path@)),
        free(old(self).head, segs(path@)),
//#if C01 C02 C03 C04 C06 C15
        forall|log: Log| #[trigger] holds(old(self).head, log) ==> holds(final(self).head, log.push(Reg { path: segs(path@), what: What::Around(mw_of(middleware)) })),
//#endif
//#if C03
        forall|log: Log, j: int, i: int| #[trigger] holds(old(self).head, log) && #[trigger] clashing(log, j, segs(path@), i) ==> log[j].what is Mounted,
//#endif
//@start
        let ghost __mw = middleware;
        let ghost __s = segs(path@);
//@closure 0 |$0: &&str| -> (b: bool)
            ensures
                b == (($0)@.len() > 0),
//@loopbefore 0
        proof {
            assert(split(path@, '/').filter(not_empty()) == __s);
        }
//@loop 0
            invariant
                __s == segs(path@),
                split_key@ == __s,
                0 <= __it0.pos() <= __s.len(),
                __it0@ == __s.skip(__it0.pos()),
                forall|i: int| 0 <= i < __it0.pos() && (#[trigger] __s[i]).contains('*') ==> __s[i] == seq!['*'] && i == __s.len() - 1,
            ensures
                __it0.pos() == __s.len(),
            decreases __it0@.len(),
//@loopstart 0
            proof {
                assert(__s.skip(pos as int).drop_first() =~= __s.skip(pos + 1));
                axiom_str_len(key);
                assert(key@ == __s[pos as int]);
                assert(__it0.pos() == pos + 1);
                assert(pos < __s.len());
                lemma_star(key@);
            }
//@after "let mut curr_node"
        let ghost mut __i: int = 0;
        proof {
            lemma_segs(path@);
            assert(segments_ok(__s));
            assert(well_formed(__s));
            lemma_walk_start(old(self).head, __s);
        }
//@loop 1
            invariant_except_break
                0 <= __i < __s.len(),
                middleware == __mw,
                split_key@ == __s.skip(__i),
                walking(old(self).head, __s, __i, *curr_node),
                walked(old(self).head, __s, __i, *curr_node, *final(curr_node), after_borrow(self.head)),
            invariant
                root_ok(old(self).head),
                segments_ok(__s),
                well_formed(__s),
                __s == segs(path@),
            ensures
                __s.len() > 0,
                walking(old(self).head, __s, __s.len() as int, __cur),
                walked(old(self).head, __s, __s.len() as int, __cur, __fin, after_borrow(self.head)),
                same_place(__cur, __fin),
                __cur.child_nodes == __fin.child_nodes,
                middled(__cur.value, __fin.value, mw_of(__mw)),
            decreases split_key@.len(),
//@loopstart 1
            proof {
                assert(k@ == __s[__i]);
                assert(__s.skip(__i).drop_first() =~= __s.skip(__i + 1));
                lemma_can_walk(old(self).head, __s, __i, *curr_node);
            }
            let ghost __at = *curr_node;
//@before "if split_key.peek().is_none()" #1
                    let ghost __next = *next_node;
                    proof {
                        lemma_walk_step(old(self).head, __s, __i, __at, __next);
                        lemma_walk_back(old(self).head, __s, __i, __at, __next, *final(next_node), after_borrow(*curr_node), after_borrow(self.head));
                        __i = __i + 1;
                    }
//@before "match &mut next_node.value"
                        proof {
                            assert(__s.take(__s.len() as int) =~= __s);
                            lemma_placed_value(old(self).head, toks(__s), __next);
                        }
//@before "break"
                        proof {
                            __cur = __next;
                            __fin = *next_node;
                        }
//@loopbefore 1
        let ghost mut __cur = *curr_node;
        let ghost mut __fin = *curr_node;
//@finish
        proof {
            assert(__s.take(__s.len() as int) =~= __s);
            lemma_toks_head(__s);
            lemma_value_changed(__cur, __fin);
            lemma_extended(old(self).head, ptoks(path@), __cur, __fin, self.head);
            lemma_root_kept(old(self).head, ptoks(path@), __fin, self.head);
//#if C01 C02 C03 C04 C06 C15
            assert forall|log: Log| #[trigger] holds(old(self).head, log) implies holds(self.head, log.push(Reg { path: segs(path@), what: What::Around(mw_of(__mw)) })) by {
                lemma_log_push(old(self).head, log, Reg { path: segs(path@), what: What::Around(mw_of(__mw)) }, self.head);
            }
//#endif
//#if C03
            assert forall|log: Log, j: int, i: int| #[trigger] holds(old(self).head, log) && #[trigger] clashing(log, j, segs(path@), i) implies log[j].what is Mounted by {
                lemma_free_log(old(self).head, log, segs(path@));
            }
//#endif
        }
//@arm "Err(err)"
            proof {
                assert(conflicts_at(old(self).head, __s, __i));
            }
//@after "self.insert_default_middleware(middleware)"
            proof {
                lemma_segs(path@);
                assert(toks(segs(path@)) =~= Seq::<Tok>::empty());
//#if C01 C02 C03 C04 C06 C15
                assert forall|log: Log| #[trigger] holds(old(self).head, log) implies holds(self.head, log.push(Reg { path: segs(path@), what: What::Around(mw_of(__mw)) })) by {
                lemma_log_push(old(self).head, log, Reg { path: segs(path@), what: What::Around(mw_of(__mw)) }, self.head);
            }
//#endif
            }


//@fn RouteTrie::insert_sub_route
//@fmethod extend = &mut crate::vshim::vec_extend_vec
//@fmethod contains = &crate::vshim::str_contains_char
//@panic
//#if C03
        assert(refused(old(des).head, segs(path@)) || !wild_last(segs(path@), __src.head) || occupied(old(des).head, ptoks(path@)));
        lemma_segs(path@);
        assert forall|log: Log, slog: Log| #[trigger] holds(old(des).head, log) && #[trigger] holds(__src.head, slog) implies !well_formed(segs(path@)) || ambiguous(log, segs(path@)) || taken(log, segs(path@)) || wild_above(slog, segs(path@)) by {
            if conflicts(old(des).head, segs(path@)) {
                lemma_conflicts_log(old(des).head, log, segs(path@));
            }
            if occupied(old(des).head, ptoks(path@)) {
                lemma_taken(old(des).head, log, segs(path@));
            }
            if !wild_last(segs(path@), __src.head) {
                lemma_wild_above(__src.head, slog, segs(path@));
            }
        }
//#endif
//@spec
    requires
        root_ok(old(des).head),
        root_ok(src.head),
    ensures
        root_ok(final(des).head),
        mounted(old(des).head, ptoks(path@), src.head, final(des).head),
        wild_last(segs(path@), src.head),
        !occupied(old(des).head, ptoks(path@)),
        well_formed(segs(path@)),
        free(old(des).head, segs(path@)),
//#if C01 C02 C03 C04 C06 C15
        forall|log: Log, slog: Log| #[trigger] holds(old(des).head, log) && #[trigger] holds(src.head, slog) ==> holds(final(des).head, with_mounted(log, segs(path@), slog)),
//#endif
//#if C03
        forall|log: Log, j: int, i: int| #[trigger] holds(old(des).head, log) && #[trigger] clashing(log, j, segs(path@), i) ==> log[j].what is Mounted,
        forall|log: Log, j: int| #[trigger] holds(old(des).head, log) && #[trigger] at_or_below(log, j, segs(path@)) ==> log[j].what is Mounted,
//#endif
//@start
        let ghost __src = src;
        let ghost __s = segs(path@);
//@closure 0 |$0: &&str| -> (b: bool)
            ensures
                b == (($0)@.len() > 0),
//@loopbefore 0
        proof {
            assert(split(path@, '/').filter(not_empty()) == __s);
        }
//@loop 0
            invariant
                __s == segs(path@),
                src == __src,
                split_key@ == __s,
                0 <= __it0.pos() <= __s.len(),
                __it0@ == __s.skip(__it0.pos()),
                forall|i: int| 0 <= i < __it0.pos() && (#[trigger] __s[i]).contains('*') ==> __s[i] == seq!['*'] && i == __s.len() - 1 && __src.head.child_nodes@.len() == 0,
            ensures
                __it0.pos() == __s.len(),
            decreases __it0@.len(),
//@loopstart 0
            proof {
                assert(__s.skip(pos as int).drop_first() =~= __s.skip(pos + 1));
                axiom_str_len(x);
                assert(x@ == __s[pos as int]);
                assert(__it0.pos() == pos + 1);
                assert(pos < __s.len());
                lemma_star(x@);
            }
//@after "let mut curr_node"
        let ghost mut __i: int = 0;
        proof {
            lemma_segs(path@);
            assert(segments_ok(__s));
            assert(well_formed(__s));
            lemma_walk_start(old(des).head, __s);
        }
//@loop 1
            invariant_except_break
                0 <= __i < __s.len(),
                src == __src,
                split_key@ == __s.skip(__i),
                walking(old(des).head, __s, __i, *curr_node),
                walked(old(des).head, __s, __i, *curr_node, *final(curr_node), after_borrow(des.head)),
            invariant
                root_ok(old(des).head),
                segments_ok(__s),
                well_formed(__s),
                __s == segs(path@),
            ensures
                __s.len() > 0,
                walking(old(des).head, __s, __s.len() as int, __cur),
                walked(old(des).head, __s, __s.len() as int, __cur, __fin, after_borrow(des.head)),
                same_place(__cur, __fin),
                __fin.child_nodes@ == __cur.child_nodes@ + __src.head.child_nodes@,
                __fin.value == __src.head.value,
                __cur.value is None,
                forall|i: int| 0 <= i < __cur.child_nodes@.len() ==> !(#[trigger] __cur.child_nodes@[i]).is_segment,
            decreases split_key@.len(),
//@loopstart 1
            proof {
                assert(k@ == __s[__i]);
                assert(__s.skip(__i).drop_first() =~= __s.skip(__i + 1));
                lemma_can_walk(old(des).head, __s, __i, *curr_node);
            }
            let ghost __at = *curr_node;
//@before "if curr_node.value.is_some()"
            proof {
                assert(__s.take(0) =~= Seq::<Seq<char>>::empty());
                assert(__s =~= Seq::<Seq<char>>::empty());
                lemma_occupied(old(des).head, Seq::empty(), old(des).head);
                if curr_node.child_nodes@.len() > 0 {
                    assert(old(des).head.child_nodes@[0].is_segment);
                }
            }
//@before "if split_key.peek().is_none()" #1
                    let ghost __next = *next_node;
                    proof {
                        lemma_walk_step(old(des).head, __s, __i, __at, __next);
                        lemma_walk_back(old(des).head, __s, __i, __at, __next, *final(next_node), after_borrow(*curr_node), after_borrow(des.head));
                        __i = __i + 1;
                    }
//@before "if next_node.value.is_some()"
                        proof {
                            assert(__s.take(__s.len() as int) =~= __s);
                            lemma_occupied(old(des).head, toks(__s), __next);
                        }
//@before "break"
                        proof {
                            __cur = __next;
                            __fin = *next_node;
                        }
//@loopbefore 1
        let ghost mut __cur = *curr_node;
        let ghost mut __fin = *curr_node;
//@finish
        proof {
            assert(__s.take(__s.len() as int) =~= __s);
            lemma_toks_head(__s);
            assert(__cur.key@.contains('*') ==> __s.last().contains('*')) by {
                assert(seq!['*'][0] == '*');
            }
            lemma_occupied(old(des).head, ptoks(path@), __cur);
            lemma_mounted_node(__cur, __src.head, __fin);
            lemma_mounted(old(des).head, ptoks(path@), __cur, __src.head, __fin, des.head);
            lemma_root_kept(old(des).head, ptoks(path@), __fin, des.head);
//#if C01 C02 C03 C04 C06 C15
            assert forall|log: Log, slog: Log| #[trigger] holds(old(des).head, log) && #[trigger] holds(__src.head, slog) implies holds(des.head, with_mounted(log, segs(path@), slog)) by {
                lemma_log_mount(old(des).head, log, segs(path@), __src.head, slog, des.head);
            }
//#endif
//#if C03
            assert forall|log: Log, j: int| #[trigger] holds(old(des).head, log) && #[trigger] at_or_below(log, j, segs(path@)) implies log[j].what is Mounted by {
                lemma_not_taken(old(des).head, log, segs(path@));
            }
            assert forall|log: Log, j: int, i: int| #[trigger] holds(old(des).head, log) && #[trigger] clashing(log, j, segs(path@), i) implies log[j].what is Mounted by {
                lemma_free_log(old(des).head, log, segs(path@));
            }
//#endif
        }
//@arm "Err(err)"
            proof {
                assert(conflicts_at(old(des).head, __s, __i));
            }
//@closure 1 |$0: &Node| -> (b: bool)
                ensures
                    b == $0.is_segment,
//@after "des.head = src.head"
            proof {
                let o = old(des).head;
                assert forall|t: Seq<Tok>| #[trigger] sem(des.head, t) == mount(o, ptoks(path@), __src.head, t) by {
                    assert(t.take(0) =~= Seq::<Tok>::empty());
                    assert(t.skip(0) =~= t);
                    if t.len() > 0 && !t[0].0 {
                        if is_kid(__src.head, kid(__src.head, t[0]), t[0]) {
                            assert(__src.head.child_nodes@[kid(__src.head, t[0])].is_segment);
                        }
                        if is_kid(o, kid(o, t[0]), t[0]) {
                            assert(o.child_nodes@[kid(o, t[0])].is_segment);
                        }
                    }
                }
                lemma_segs(path@);
                assert(toks(segs(path@)) =~= Seq::<Tok>::empty());
//#if C01 C02 C03 C04 C06 C15
            assert forall|log: Log, slog: Log| #[trigger] holds(old(des).head, log) && #[trigger] holds(__src.head, slog) implies holds(des.head, with_mounted(log, segs(path@), slog)) by {
                lemma_log_mount(old(des).head, log, segs(path@), __src.head, slog, des.head);
            }
//#endif
//#if C03
            assert forall|log: Log, j: int| #[trigger] holds(old(des).head, log) && #[trigger] at_or_below(log, j, segs(path@)) implies log[j].what is Mounted by {
                lemma_not_taken(old(des).head, log, segs(path@));
            }
            assert forall|log: Log, j: int, i: int| #[trigger] holds(old(des).head, log) && #[trigger] clashing(log, j, segs(path@), i) implies log[j].what is Mounted by {
                lemma_free_log(old(des).head, log, segs(path@));
            }
//#endif
            }

//@fn Node::get_next_node
//@for C01 C04 C06 C15 C18 C20 C07
//@forwhile
//@ret r
//@fmethod params.insert = crate::vshim::smap_insert
//@fmethod clone = &crate::vshim::mws_clone
//@fmethod to_string = &crate::vshim::to_text
//@fmethod split_at = &crate::vshim::str_split_at
//@spec
    requires
        node_ok(*self),
        old(key)@.len() > 0,
        segments_ok(strs(old(key)@)),
    ensures
        ({
            let q = best(know(*self), !is_break_parent, strs(old(key)@));
            &&& r is Some <==> q is Some
            &&& r is Some ==> {
                &&& (r->0).value is Some
                &&& (r->0).value == sem(*self, ftoks(!is_break_parent, q->0)).val
                &&& final(middlewares)@ == old(middlewares)@ + along(know(*self), !is_break_parent, q->0)
                &&& smap(*final(params)) == bind(smap(*old(params)), !is_break_parent, q->0, strs(old(key)@))
                &&& (q->0).len() > 0
            }
            &&& r is None ==> final(middlewares)@ == old(middlewares)@ && smap(*final(params)) == smap(*old(params))
        }),
    decreases *self,
//@start
        hide(along);
        hide(bind);
        hide(ftoks);
        hide(sem);
        hide(wf_shallow);
        let ghost __flag = !is_break_parent;
        let ghost __r = strs(key@);
        let ghost __f = know(*self);
        let ghost __m = smap(*params);
        let ghost __w = middlewares@;
//@loopbefore 0
        let ghost mut __n: int = 0;
        let ghost mut __spent = false;
        proof {
            assert(strs(key@) =~= __r.skip(1));
        }
//@loop 0
            invariant
                node_ok(*self),
                segments_ok(__r),
                __r.len() > 0,
                curr_key@ == __r[0],
                __flag == !is_break_parent,
                __f == know(*self),
                __r == strs(old(key)@),
                __m == smap(*old(params)),
                __w == old(middlewares)@,
                middlewares@ == __w,
                smap(*params) == __m,
                0 <= __n <= self.child_nodes@.len(),
                __it0@ == self.child_nodes@.skip(__n),
                __spent ==> direct(__f, __flag, __r) is None,
                __spent ==> forall|j: int| __n <= j < self.child_nodes@.len() && (#[trigger] self.child_nodes@[j]).is_segment == __flag ==> self.child_nodes@[j].key@[0] != __r[0][0] && (__flag ==> !is_param_seg(self.child_nodes@[j].key@)),
                !__spent ==> strs(key@) == __r.skip(1),
                !__spent ==> forall|j: int| 0 <= j < __n && (#[trigger] self.child_nodes@[j]).is_segment == __flag ==> self.child_nodes@[j].key@[0] != __r[0][0] && (__flag ==> !is_param_seg(self.child_nodes@[j].key@)),
                forall|j: int| 0 <= j < __n && (#[trigger] self.child_nodes@[j]).is_segment && __flag && self.child_nodes@[j].key@ == star() ==> self.child_nodes@[j].value is None,
            ensures
                __n == self.child_nodes@.len(),
            decreases __it0@.len(),
//@loopstart 0
            let ghost __c = *node;
            let ghost __i = __n;
            proof {
                assert(__c == self.child_nodes@[__n]);
                assert(self.child_nodes@.skip(__n).drop_first() =~= self.child_nodes@.skip(__n + 1));
                __n = __n + 1;
                lemma_siblings(*self, __i);
                axiom_str_len(curr_key);
                reveal_strlit("*");
                assert("*"@ =~= star());
            }
            let ghost mut c: int = 0;
//@before "if node.is_param()"
                proof {
                    if __c.is_segment && is_param_seg(__c.key@) {
                        lemma_param_child(*self, __i, __r);
                        lemma_star_child(*self);
                        lemma_blen_one(':');
                        assert(__c.key@.take(1) =~= seq![':']);
                    }
                }
//@before "return Some(node)" #0
                                proof {
                                    lemma_single(__f, true, __c.key@, __r);
                                    lemma_whole(*self, __i, true, seq![__c.key@]);
                                }
//@before "continue" #1
                                proof {
                                    __spent = true;
                                }
//@before "match node.get_next_node"
                        proof {
                            assert(strs(key@) == __r.skip(1));
                            assert(segments_ok(__r.skip(1)));
                        }
//@before "return Some(final_val)" #0
                                proof {
                                    lemma_cons(__f, true, __c.key@, best(know(__c), true, __r.skip(1))->0, __r);
                                }
//@before "continue" #2
                                proof {
                                    __spent = true;
                                    assert(middlewares@ =~= __w);
                                }
//@before "if node.key =="
                proof {
                    if __c.key@ == star() {
                        lemma_beside_star(*self, __i, __r);
                        lemma_star_child(*self);
                        lemma_single(__f, true, star(), __r);
                    }
                }
//@before "continue" #3
                            proof {
                                __spent = true;
                            }
//@loopbefore 1
            proof {
                assert(node.key@.take(0) =~= curr_key@.take(0));
                assert(curr_key@.take(0) =~= Seq::<char>::empty());
                lemma_blen_empty();
            }
//@loop 1
                invariant_except_break
                    __it1@ == node.key@.skip(c),
                    temp_key_chars@ == curr_key@.skip(c),
                invariant
                    0 <= c <= node.key@.len(),
                    c <= curr_key@.len(),
                    node.key@.take(c) == curr_key@.take(c),
                    count == blen(curr_key@.take(c)),
                    blen(curr_key@) <= usize::MAX,
                ensures
                    c == node.key@.len() || c == curr_key@.len() || node.key@[c] != curr_key@[c],
                decreases __it1@.len(),
//@loopstart 1
                proof {
                    assert(k == node.key@[c]);
                    assert(node.key@.skip(c).drop_first() =~= node.key@.skip(c + 1));
                    if c < curr_key@.len() {
                        assert(curr_key@.skip(c).drop_first() =~= curr_key@.skip(c + 1));
                        lemma_blen_take_step(curr_key@, c);
                        lemma_blen_take_mono(curr_key@, c + 1, curr_key@.len() as int);
                        assert(curr_key@.take(curr_key@.len() as int) =~= curr_key@);
                    }
                }
//@after "count += t_k.len_utf8()"
                    proof {
                        assert(node.key@.take(c + 1) =~= node.key@.take(c).push(k));
                        assert(curr_key@.take(c + 1) =~= curr_key@.take(c).push(t_k));
                        c = c + 1;
                    }
//@before "if count == node.key.len() && count != curr_key.len()"
            proof {
                let ghost klen = curr_key@.len() as int;
                let ghost nlen = node.key@.len() as int;
                assert(curr_key@.take(klen) =~= curr_key@);
                assert(node.key@.take(nlen) =~= node.key@);
                lemma_blen_take_mono(curr_key@, 0, c);
                lemma_blen_take_mono(curr_key@, c, klen);
                lemma_blen_take_mono(node.key@, c, nlen);
                if c > 0 {
                    assert(node.key@.take(c)[0] == curr_key@.take(c)[0]);
                } else {
                    lemma_blen_empty();
                }
                lemma_blen_take_mono(node.key@, 0, nlen);
                assert((count == blen(node.key@)) == (c == nlen));
                assert((count == blen(curr_key@)) == (c == klen));
                assert((c > 0) == (node.key@[0] == curr_key@[0]));
                assert(starts(curr_key@, node.key@) == (c == nlen)) by {
                    if starts(curr_key@, node.key@) && c < nlen {
                        assert(curr_key@.take(nlen)[c] == node.key@[c]);
                    }
                }
                if c > 0 && c < nlen {
                    lemma_partial(*self, __i, __flag, __r);
                    assert(!__spent);
                }
                if c == nlen && c == klen {
                    lemma_whole(*self, __i, __flag, __r);
                }
                if c == nlen && c != klen {
                    lemma_broken(*self, __i, __flag, __r, curr_key@.skip(c));
                    assert(curr_key@.take(c) == curr_key@.take(c));
                }
                if __flag {
                    lemma_beside_static(*self, __i, __r);
                }
            }
//@before "return Some(node)" #2
                            proof {
                                assert(__r =~= seq![__c.key@]);
                                lemma_single(__f, __flag, __c.key@, __r);
                            }
//@loopbefore 2
                            let ghost mut __k: int = 0;
                            proof {
                                assert(__r =~= seq![__c.key@]);
                                assert(!__spent);
                                lemma_star_child(__c);
                            }
//@loop 2
                                invariant
                                    node_ok(__c),
                                    *node == __c,
                                    __c.value is None,
                                    0 <= __k <= __c.child_nodes@.len(),
                                    __it2@ == __c.child_nodes@.skip(__k),
                                    forall|j: int| 0 <= j < __k && (#[trigger] __c.child_nodes@[j]).is_segment && __c.child_nodes@[j].key@ == star() ==> __c.child_nodes@[j].value is None,
                                    __r == seq![__c.key@],
                                    __f == know(*self),
                                    after(__f, tk(__flag, __r[0])) == know(__c),
                                    sem(*self, tk(__flag, __r[0])).val == __c.value,
                                    __flag ==> !is_param_seg(__r[0]),
                                    __w == middlewares@,
                                    __w == old(middlewares)@,
                                    __m == smap(*params),
                                    __m == smap(*old(params)),
                                    __r == strs(old(key)@),
                                    __flag == !is_break_parent,
                                ensures
                                    __k == __c.child_nodes@.len(),
                                decreases __it2@.len(),
//@loopstart 2
                                proof {
                                    assert(*child == __c.child_nodes@[__k]);
                                    assert(__c.child_nodes@.skip(__k).drop_first() =~= __c.child_nodes@.skip(__k + 1));
                                    __k = __k + 1;
                                    reveal_strlit("*");
                                    assert("*"@ =~= star());
                                    lemma_star_child(__c);
                                }
//@before "return Some(child)"
                                        proof {
                                            let g = know(__c);
                                            let b = seq![__r[0], star()];
                                            assert(g(tk(true, star())) == sem(__c, tk(true, star())));
                                            assert(g(Seq::<Tok>::empty()).val is None);
                                            assert(by_static(__f, __flag, __r) == Some(b));
                                            assert(b =~= seq![__r[0]] + seq![star()]);
                                            lemma_cons(__f, __flag, __r[0], seq![star()], __r);
                                            lemma_single(g, true, star(), __r);
                                            assert(mws(None::<RouteValue>) + along(g, true, seq![star()]) =~= along(g, true, seq![star()]));
                                            assert(__r.skip(1).len() == 0);
                                            lemma_bind_end(true, seq![star()], __r.skip(1));
                                        }
//@before "continue" #4
                            proof {
                                lemma_star_child(__c);
                                __spent = true;
                            }
//@before "if let Some(final_val) = node.get_next_node"
                    proof {
                        if break_key {
                            assert(strs(key@) =~= seq![__r[0].skip(c)] + __r.skip(1));
                        } else {
                            assert(strs(key@) == __r.skip(1));
                        }
                        assert(segments_ok(strs(key@)));
                        __spent = true;
                    }
//@before "return Some(final_val)" #1
                        proof {
                            if !break_key {
                                lemma_cons(__f, __flag, __c.key@, best(know(__c), true, __r.skip(1))->0, __r);
                            }
                        }
//@after "middlewares.truncate(outer_count)" #1
                    proof {
                        assert(middlewares@ =~= __w);
                    }
//@before "continue" #5
            proof {
                if c > 0 && c < node.key@.len() {
                    __spent = true;
                }
            }
//@before "None"
        proof {
            if !__spent {
                lemma_none_static(*self, __flag, __r);
                if __flag {
                    lemma_no_param(*self, __r);
                }
            }
            lemma_star_child(*self);
        }

//@fn RouteTrie::search_route
//@for C01 C04 C06 C15 C18 C20 C07
//@ret r
//@fpath HashMap::default = crate::vshim::smap_new
//@fmethod val.route.clone = &crate::vshim::resource_clone
//@fmethod val.middlewares.clone = &crate::vshim::mws_clone
//@spec
    requires
        root_ok(self.head),
    ensures
        resolved(know(self.head), segs(path@), r),
//#if C01 C02 C15
        most_specific(know(self.head), segs(path@), found(know(self.head), segs(path@))),
//#endif
//#if C04
        r is Some ==> (r->0).route_value.middlewares@ == chain(know(self.head), found(know(self.head), segs(path@))->0),
//#endif
//#if C06
        r is Some ==> bound(found(know(self.head), segs(path@))->0, segs(path@), smap((r->0).params)),
//#endif
//@start
        let ghost __f = know(self.head);
        let ghost __s = segs(path@);
        proof {
            lemma_segs(path@);
//#if C01 C02 C15
            lemma_lawful(self.head);
            lemma_found(__f, __s);
//#endif
//#if C04
            lemma_chain(__f, found(__f, __s)->0);
//#endif
//#if C06
            lemma_bound(found(__f, __s)->0, __s);
//#endif
        }
//@closure 0 |$0: &&str| -> (b: bool)
                ensures b == ($0@.len() > 0),
//@before "if !split_key.is_empty()"
        proof {
            assert(strs(split_key@) == __s);
            assert(segments_ok(__s));
            if __s.len() == 0 {
                lemma_bind_end(true, Seq::empty(), __s);
                assert(middlewares@ =~= mws(__f(Seq::empty()).val) + along(__f, true, Seq::empty()));
            }
        }

//@ghost
//#if C01 C02 C03 C04 C06 C15
// ---------------------------------------------------------------- what lookups find
/// no two different parameters, nothing beside a parameter
pub open spec fn sole(f: Know, q: Seq<char>) -> bool {
    &&& is_pname(f, q)
    &&& forall|q2: Seq<char>| #[trigger] is_pname(f, q2) ==> q2 == q
    &&& forall|c: char| (#[trigger] f(seq![(true, c)])).point ==> c == ':'
}

pub open spec fn one_param(f: Know) -> bool {
    &&& forall|q: Seq<char>| #[trigger] is_pname(f, q) ==> sole(f, q)
    &&& forall|q: Seq<char>, u: Seq<Tok>| is_param_seg(q) && (u.len() == 0 || u[0].0) && (#[trigger] f(tk(true, q) + u)).val is Some ==> is_pname(f, q)
}

/// `*` is the last segment, and the whole of it
pub open spec fn star_last(t: Seq<Tok>) -> bool {
    forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]).1 == '*' ==> t[i].0 && i == t.len() - 1
}

/// what is true of everything that can be registered
pub open spec fn lawful(f: Know) -> bool {
    &&& forall|t: Seq<Tok>| (#[trigger] f(t)).val is Some ==> f(t).point
    &&& forall|t: Seq<Tok>, i: int| 0 <= i <= t.len() && f(t).point ==> (#[trigger] f(t.take(i))).point
    &&& forall|t: Seq<Tok>| (#[trigger] f(t)).point ==> star_last(t)
    &&& forall|k: Seq<Tok>| one_param(#[trigger] after(f, k))
}

pub proof fn lemma_val_point(n: Node, t: Seq<Tok>)
    requires
        sem(n, t).val is Some,
    ensures
        sem(n, t).point,
    decreases t.len(),
{
    if t.len() > 0 {
        let c = n.child_nodes@[kid(n, t[0])];
        if pre(nk(c), t) {
            lemma_val_point(c, t.skip(nk(c).len() as int));
        }
    }
}

pub proof fn lemma_point_prefix(n: Node, t: Seq<Tok>, i: int)
    requires
        0 <= i <= t.len(),
        sem(n, t).point,
    ensures
        sem(n, t.take(i)).point,
    decreases t.len(),
{
    if i > 0 {
        let c = n.child_nodes@[kid(n, t[0])];
        let l = nk(c).len() as int;
        let u = t.take(i);
        assert(u[0] == t[0]);
        if pre(nk(c), t) {
            if i >= l {
                assert(u.take(l) =~= t.take(l));
                assert(u.skip(l) =~= t.skip(l).take(i - l));
                lemma_point_prefix(c, t.skip(l), i - l);
            } else {
                assert(nk(c).take(i) =~= t.take(l).take(i));
                assert(t.take(l).take(i) =~= u);
                assert(pre(u, nk(c)));
                if pre(nk(c), u) {
                    assert(l <= i);
                }
            }
        } else {
            assert(pre(t, nk(c)));
            assert(nk(c).take(i) =~= nk(c).take(t.len() as int).take(i));
            assert(pre(u, nk(c)));
            if pre(nk(c), u) {
                assert(i == l);
                assert(nk(c) =~= u);
                assert(t.take(l) == nk(c));
            }
        }
    }
}

pub proof fn lemma_star_last(n: Node, t: Seq<Tok>)
    requires
        node_ok(n),
        sem(n, t).point,
    ensures
        star_last(t),
    decreases t.len(),
{
    if t.len() > 0 {
        let i = kid(n, t[0]);
        let c = n.child_nodes@[i];
        assert(child_ok(c) && wf(c));
        let l = nk(c).len() as int;
        if pre(nk(c), t) {
            let u = t.skip(l);
            lemma_star_last(c, u);
            assert forall|j: int| 0 <= j < t.len() && (#[trigger] t[j]).1 == '*' implies t[j].0 && j == t.len() - 1 by {
                if j < l {
                    assert(t.take(l)[j] == nk(c)[j]);
                    assert(c.key@[j] == '*');
                    assert(c.key@.contains('*'));
                    assert(c.key@.len() == 1);
                    if u.len() > 0 {
                        assert(is_kid(c, kid(c, u[0]), u[0]));
                    }
                } else {
                    assert(u[j - l] == t[j]);
                }
            }
        } else {
            assert forall|j: int| 0 <= j < t.len() && (#[trigger] t[j]).1 == '*' implies t[j].0 && j == t.len() - 1 by {
                assert(nk(c).take(t.len() as int)[j] == t[j]);
                assert(nk(c)[j] == t[j]);
                assert(c.key@[j] == '*');
                assert(c.key@.contains('*'));
                assert(c.key@.len() == 1);
                assert(c.is_segment);
            }
        }
    }
}

/// the parameter among the children is the only one
pub proof fn lemma_param_known(n: Node, i: int)
    requires
        node_ok(n),
        0 <= i < n.child_nodes@.len(),
        n.child_nodes@[i].is_segment,
        is_param_seg(n.child_nodes@[i].key@),
    ensures
        sole(know(n), n.child_nodes@[i].key@),
        forall|q: Seq<char>, u: Seq<Tok>| is_param_seg(q) && (u.len() == 0 || u[0].0) && (#[trigger] know(n)(tk(true, q) + u)).val is Some ==> q == n.child_nodes@[i].key@,
{
    let c = n.child_nodes@[i];
    let f = know(n);
    assert(child_ok(c));
    lemma_param_child(n, i, seq![seq!['a']]);
    let l = c.key@.len() as int;
    let k = tk(true, c.key@);
    assert forall|q: Seq<char>| #[trigger] is_pname(f, q) implies q == c.key@ by {
        let t = tk(true, q);
        assert(f(t).point);
        assert(is_kid(n, i, t[0]));
        lemma_via(n, i, t);
        if pre(nk(c), t) {
            let u = t.skip(l);
            if u.len() > 0 {
                assert(!u[0].0);
                if is_kid(c, kid(c, u[0]), u[0]) {
                    assert(c.child_nodes@[kid(c, u[0])].is_segment);
                }
            }
            assert(t =~= k);
            assert(q =~= c.key@) by {
                assert forall|j: int| 0 <= j < q.len() implies q[j] == #[trigger] c.key@[j] by {
                    assert(t[j] == k[j]);
                }
            }
        } else {
            assert(pre(t, nk(c)));
            let m = q.len() as int;
            let x = c.key@[m];
            let v = t.push((false, x));
            assert(v =~= nk(c).take(m + 1)) by {
                assert(nk(c).take(m) == t);
            }
            assert(is_kid(n, i, v[0]));
            lemma_via(n, i, v);
            if pre(nk(c), v) {
                assert(v.skip(l) =~= Seq::empty());
            }
            assert(f(v).point);
        }
    }
    assert forall|x: char| (#[trigger] f(seq![(true, x)])).point implies x == ':' by {
        let t = seq![(true, x)];
        assert(is_kid(n, kid(n, t[0]), t[0]));
        assert(n.child_nodes@[kid(n, t[0])].is_segment);
    }
    assert forall|q: Seq<char>, u: Seq<Tok>| is_param_seg(q) && (u.len() == 0 || u[0].0) && (#[trigger] f(tk(true, q) + u)).val is Some implies q == c.key@ by {
        let t = tk(true, q) + u;
        let m = q.len() as int;
        assert(t[0] == (true, ':'));
        assert(is_kid(n, i, t[0]));
        lemma_via(n, i, t);
        assert(pre(nk(c), t));
        if l > m {
            assert(t.take(l)[m] == nk(c)[m]);
            assert(u[0] == t[m]);
        } else if l < m {
            let v = t.skip(l);
            assert(v[0] == tk(true, q)[l]);
            if is_kid(c, kid(c, v[0]), v[0]) {
                assert(c.child_nodes@[kid(c, v[0])].is_segment);
            }
        }
        assert forall|j: int| 0 <= j < l implies q[j] == #[trigger] c.key@[j] by {
            assert(t.take(l)[j] == nk(c)[j]);
            assert(t[j] == tk(true, q)[j]);
        }
        assert(q =~= c.key@);
    }
}

/// in the middle of a segment no other begins
pub proof fn lemma_barren(f: Know)
    requires
        forall|t: Seq<Tok>| t.len() > 0 && t[0].0 ==> !(#[trigger] f(t)).point && f(t).val is None,
    ensures
        one_param(f),
{
    assert forall|q: Seq<char>| #[trigger] is_pname(f, q) implies sole(f, q) by {
        assert(tk(true, q)[0].0);
        assert(!f(tk(true, q)).point);
    }
    assert forall|q: Seq<char>, u: Seq<Tok>| is_param_seg(q) && (u.len() == 0 || u[0].0) && (#[trigger] f(tk(true, q) + u)).val is Some implies is_pname(f, q) by {
        let t = tk(true, q) + u;
        assert(t[0] == tk(true, q)[0]);
        assert(t[0].0);
    }
}

pub proof fn lemma_one_param(n: Node, k: Seq<Tok>)
    requires
        node_ok(n),
    ensures
        one_param(after(know(n), k)),
    decreases k.len(),
{
    let f = after(know(n), k);
    if k.len() == 0 {
        assert forall|t: Seq<Tok>| #[trigger] f(t) == know(n)(t) by {
            assert(k + t =~= t);
        }
        assert(f =~= know(n));
        let t = seq![(true, ':')];
        if is_kid(n, kid(n, t[0]), t[0]) {
            lemma_param_known(n, kid(n, t[0]));
        } else {
            assert forall|q: Seq<char>| #[trigger] is_pname(f, q) implies sole(f, q) by {
                assert(tk(true, q)[0] == t[0]);
                assert(know(n)(tk(true, q)).point);
            }
            assert forall|q: Seq<char>, u: Seq<Tok>| is_param_seg(q) && (u.len() == 0 || u[0].0) && (#[trigger] f(tk(true, q) + u)).val is Some implies is_pname(f, q) by {
                assert((tk(true, q) + u)[0] == t[0]);
                assert(know(n)(tk(true, q) + u).val is Some);
            }
        }
    } else if is_kid(n, kid(n, k[0]), k[0]) {
        let i = kid(n, k[0]);
        let c = n.child_nodes@[i];
        assert(child_ok(c) && wf(c));
        let l = nk(c).len() as int;
        if pre(nk(c), k) {
            assert(k =~= nk(c) + k.skip(l));
            lemma_know_child(n, i);
            lemma_after_after(know(n), nk(c), k.skip(l));
            lemma_one_param(c, k.skip(l));
        } else {
            assert forall|t: Seq<Tok>| t.len() > 0 && t[0].0 implies !(#[trigger] f(t)).point && f(t).val is None by {
                let u = k + t;
                let m = k.len() as int;
                assert(u[0] == k[0]);
                if l <= m {
                    assert(u.take(l) =~= k.take(l));
                    if pre(u, nk(c)) {
                        assert(u.len() > l);
                    }
                } else {
                    if pre(nk(c), u) {
                        assert(u.take(l)[m] == nk(c)[m]);
                        assert(u[m] == t[0]);
                    }
                    if pre(u, nk(c)) {
                        assert(nk(c).take(u.len() as int)[m] == u[m]);
                        assert(u[m] == t[0]);
                    }
                }
            }
            lemma_barren(f);
        }
    } else {
        assert forall|t: Seq<Tok>| t.len() > 0 && t[0].0 implies !(#[trigger] f(t)).point && f(t).val is None by {
            assert((k + t)[0] == k[0]);
        }
        lemma_barren(f);
    }
}

/// every trie is lawful
pub proof fn lemma_lawful(n: Node)
    requires
        node_ok(n),
    ensures
        lawful(know(n)),
{
    let f = know(n);
    assert forall|t: Seq<Tok>| (#[trigger] f(t)).val is Some implies f(t).point by {
        lemma_val_point(n, t);
    }
    assert forall|t: Seq<Tok>, i: int| 0 <= i <= t.len() && f(t).point implies (#[trigger] f(t.take(i))).point by {
        lemma_point_prefix(n, t, i);
    }
    assert forall|t: Seq<Tok>| (#[trigger] f(t)).point implies star_last(t) by {
        lemma_star_last(n, t);
    }
    assert forall|k: Seq<Tok>| one_param(#[trigger] after(f, k)) by {
        lemma_one_param(n, k);
    }
}
//#endif

//@ghost
//#if C01 C02 C04 C06 C15
pub proof fn lemma_lawful_after(f: Know, k: Seq<Tok>)
    requires
        lawful(f),
    ensures
        lawful_rest(after(f, k)),
{
    let g = after(f, k);
    assert forall|t: Seq<Tok>, i: int| 0 <= i <= t.len() && g(t).point implies (#[trigger] g(t.take(i))).point by {
        assert((k + t).take(k.len() + i) =~= k + t.take(i));
        assert(f((k + t).take(k.len() + i)).point);
    }
    assert forall|t: Seq<Tok>| (#[trigger] g(t)).point implies star_last(t) by {
        assert(star_last(k + t));
        assert forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]).1 == '*' implies t[i].0 && i == t.len() - 1 by {
            assert((k + t)[k.len() + i] == t[i]);
        }
    }
    assert forall|k2: Seq<Tok>| one_param(#[trigger] after(g, k2)) by {
        lemma_after_after(f, k, k2);
    }
}

/// the same, for what can be registered below some text
pub open spec fn lawful_rest(f: Know) -> bool {
    lawful(f)
}

/// the registered path `p` matches the request segments `s`
pub open spec fn hits(f: Know, p: Seq<Seq<char>>, s: Seq<Seq<char>>) -> bool
    decreases p.len(),
{
    if p.len() == 0 || s.len() == 0 {
        p.len() == 0 && s.len() == 0
    } else if p[0] == star() {
        p.len() == 1
    } else if is_param_seg(p[0]) {
        hits(after(f, tk(true, p[0])), p.skip(1), s.skip(1))
    } else {
        &&& p[0] == s[0]
        &&& hits(after(f, tk(true, p[0])), p.skip(1), s.skip(1)) || s.len() == 1 && p.skip(1) == seq![star()] && f(tk(true, p[0])).val is None
    }
}

pub proof fn lemma_hits_end(f: Know, p: Seq<Seq<char>>, s: Seq<Seq<char>>)
    requires
        p.len() == 0 || s.len() == 0,
    ensures
        hits(f, p, s) == (p.len() == 0 && s.len() == 0),
{
}

/// something is registered at the path
pub open spec fn registered(f: Know, p: Seq<Seq<char>>) -> bool {
    segments_ok(p) && f(ftoks(true, p)).val is Some
}

pub proof fn lemma_first(f: Know, p: Seq<Seq<char>>)
    requires
        lawful(f),
        p.len() > 0,
        registered(f, p),
    ensures
        f(seq![(true, p[0][0])]).point,
        registered(after(f, tk(true, p[0])), p.skip(1)),
        p[0] == star() ==> p.len() == 1,
        is_param_seg(p[0]) ==> sole(f, p[0]),
        p[0][0] == '*' ==> p[0] == star(),
{
    let t = ftoks(true, p);
    let u = ftoks(true, p.skip(1));
    assert(t == tk(true, p[0]) + u);
    assert(f(t).point);
    assert(t.take(1) =~= seq![(true, p[0][0])]);
    assert(f(t.take(1)).point);
    let e = Seq::<Tok>::empty();
    assert(after(f, e)(t) == f(t)) by {
        assert(e + t =~= t);
    }
    assert(after(f, e) =~= f) by {
        assert forall|v: Seq<Tok>| #[trigger] after(f, e)(v) == f(v) by {
            assert(e + v =~= v);
        }
    }
    assert(one_param(after(f, e)));
    assert(segments_ok(p.skip(1)));
    if p.len() > 1 {
        assert(p.skip(1)[0] == p[1]);
        assert(u[0] == tk(true, p[1])[0]);
    }
    assert(star_last(t));
    assert(t[0] == (true, p[0][0]));
    if p[0][0] == '*' {
        assert(t.len() == 1);
        assert(p[0] =~= star());
        if p.len() > 1 {
            assert(u.len() > 0);
        }
    }
    if is_param_seg(p[0]) {
        assert(f(tk(true, p[0]) + u).val is Some);
    }
}

/// what is found is registered and matches
pub proof fn lemma_sound(f: Know, r: Seq<Seq<char>>)
    requires
        lawful(f),
        segments_ok(r),
        r.len() > 0,
    ensures
        best(f, true, r) is Some ==> (best(f, true, r)->0).len() > 0 && registered(f, best(f, true, r)->0) && hits(f, best(f, true, r)->0, r),
        by_static(f, true, r) is Some ==> (by_static(f, true, r)->0).len() > 0 && registered(f, by_static(f, true, r)->0) && hits(f, by_static(f, true, r)->0, r) && (by_static(f, true, r)->0)[0] == r[0] && !is_param_seg(r[0]),
        by_param(f, r) is Some ==> (by_param(f, r)->0).len() > 0 && registered(f, by_param(f, r)->0) && hits(f, by_param(f, r)->0, r) && is_pname(f, (by_param(f, r)->0)[0]),
    decreases r.len(),
{
    assert(segments_ok(r.skip(1)));
    let e = Seq::<Seq<char>>::empty();
    if by_static(f, true, r) is Some {
        let k = tk(true, r[0]);
        let g = after(f, k);
        let b = by_static(f, true, r)->0;
        lemma_lawful_after(f, k);
        assert(k + Seq::<Tok>::empty() =~= k);
        if r.len() > 1 {
            lemma_sound(g, r.skip(1));
            lemma_cons(f, true, r[0], best(g, true, r.skip(1))->0, r);
            assert(segments_ok(b)) by {
                assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).len() > 0 by {
                    if i > 0 {
                        assert(b.skip(1)[i - 1] == b[i]);
                    }
                }
            }
            lemma_first(f, b);
        } else {
            lemma_single(f, true, r[0], r);
            if g(Seq::empty()).val is Some {
                lemma_hits_end(g, b.skip(1), r.skip(1));
            } else {
                lemma_single(g, true, star(), r.skip(1).push(r[0]));
                lemma_cons(f, true, r[0], seq![star()], r);
                assert(b =~= seq![r[0]] + seq![star()]);
                assert(b.skip(1) =~= seq![star()]);
                assert(registered(f, b));
                lemma_first(f, b);
                assert(f(k).val is None);
            }
        }
    }
    if by_param(f, r) is Some {
        let q = pname(f);
        let k = tk(true, q);
        let g = after(f, k);
        let b = by_param(f, r)->0;
        lemma_lawful_after(f, k);
        assert(k + Seq::<Tok>::empty() =~= k);
        if r.len() > 1 {
            lemma_sound(g, r.skip(1));
            lemma_cons(f, true, q, best(g, true, r.skip(1))->0, r);
            assert(segments_ok(b)) by {
                assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).len() > 0 by {
                    if i > 0 {
                        assert(b.skip(1)[i - 1] == b[i]);
                    }
                }
            }
        } else {
            lemma_single(f, true, q, r);
            lemma_hits_end(g, b.skip(1), r.skip(1));
        }
    }
    if best(f, true, r) is Some && direct(f, true, r) is None {
        lemma_single(f, true, star(), r);
    }
}

/// `p` has `*` where `b` has a text of its own
pub open spec fn wins_at(b: Seq<Seq<char>>, p: Seq<Seq<char>>, r: Seq<Seq<char>>, i: int) -> bool {
    &&& 0 <= i < b.len() && i < p.len() && i < r.len()
    &&& b.take(i) == p.take(i)
    &&& b[i] == r[i] && !is_param_seg(b[i]) && b[i] != star()
    &&& p[i] == star()
}

/// `b` is the more specific path, or the same
pub open spec fn wins(b: Seq<Seq<char>>, p: Seq<Seq<char>>, r: Seq<Seq<char>>) -> bool {
    b == p || exists|i: int| #[trigger] wins_at(b, p, r, i)
}

pub proof fn lemma_wins_below(s: Seq<char>, b: Seq<Seq<char>>, p: Seq<Seq<char>>, r: Seq<Seq<char>>)
    requires
        r.len() > 0,
        wins(b, p, r.skip(1)),
    ensures
        wins(seq![s] + b, seq![s] + p, r),
{
    if b != p {
        let i = choose|i: int| #[trigger] wins_at(b, p, r.skip(1), i);
        let (b2, p2) = (seq![s] + b, seq![s] + p);
        assert(b2.take(i + 1) =~= seq![s] + b.take(i));
        assert(p2.take(i + 1) =~= seq![s] + p.take(i));
        assert(wins_at(b2, p2, r, i + 1));
    }
}

/// every registered path that matches is beaten by the path that is found, or is that path
pub proof fn lemma_complete(f: Know, p: Seq<Seq<char>>, r: Seq<Seq<char>>)
    requires
        lawful(f),
        segments_ok(r),
        r.len() > 0,
        registered(f, p),
        hits(f, p, r),
    ensures
        best(f, true, r) is Some,
        wins(best(f, true, r)->0, p, r),
    decreases r.len(),
{
    lemma_sound(f, r);
    lemma_first(f, p);
    assert(segments_ok(r.skip(1)));
    let g = after(f, tk(true, p[0]));
    lemma_lawful_after(f, tk(true, p[0]));
    assert(p =~= seq![p[0]] + p.skip(1));
    assert(tk(true, p[0]) + Seq::<Tok>::empty() =~= tk(true, p[0]));
    if p[0] == star() {
        assert(p =~= seq![star()]);
        lemma_single(f, true, star(), r);
        assert(f(tk(true, star())).val is Some);
        if by_static(f, true, r) is Some {
            let b = by_static(f, true, r)->0;
            lemma_first(f, b);
            if r[0] == star() {
                assert(b =~= p);
            } else {
                assert(b.take(0) =~= p.take(0));
                assert(wins_at(b, p, r, 0));
            }
        } else if by_param(f, r) is Some {
            lemma_first(f, by_param(f, r)->0);
            assert(false);
        }
    } else if is_param_seg(p[0]) {
        if by_static(f, true, r) is Some {
            lemma_first(f, by_static(f, true, r)->0);
            assert(false);
        }
        assert(is_pname(f, pname(f)));
        assert(pname(f) == p[0]);
        if r.len() > 1 {
            lemma_complete(g, p.skip(1), r.skip(1));
            lemma_wins_below(p[0], best(g, true, r.skip(1))->0, p.skip(1), r);
        } else {
            lemma_hits_end(g, p.skip(1), r.skip(1));
            assert(p.skip(1).len() == 0);
            assert(ftoks(true, p.skip(1)) =~= Seq::<Tok>::empty());
            assert(p =~= seq![p[0]]);
        }
    } else {
        if hits(g, p.skip(1), r.skip(1)) {
            if r.len() > 1 {
                lemma_complete(g, p.skip(1), r.skip(1));
                lemma_wins_below(p[0], best(g, true, r.skip(1))->0, p.skip(1), r);
            } else {
                lemma_hits_end(g, p.skip(1), r.skip(1));
                assert(p.skip(1).len() == 0);
                assert(ftoks(true, p.skip(1)) =~= Seq::<Tok>::empty());
                assert(p =~= seq![p[0]]);
            }
        } else {
            lemma_single(g, true, star(), r);
            assert(p =~= seq![r[0], star()]);
            assert(f(tk(true, p[0])) == g(Seq::empty()));
        }
    }
}
//#endif

//@ghost
//#if C01 C02 C03 C04 C06 C15
pub proof fn lemma_ftoks(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures
        toks(a) + ftoks(true, b) == toks(a + b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(toks(a) + ftoks(true, b) =~= toks(a));
    } else {
        let a2 = a.push(b[0]);
        assert(a2.drop_last() =~= a);
        assert(a2 + b.skip(1) =~= a + b);
        lemma_ftoks(a2, b.skip(1));
        assert(toks(a) + ftoks(true, b) =~= toks(a2) + ftoks(true, b.skip(1)));
    }
}

/// a path as it is and as the trie sees it
pub proof fn lemma_path_toks(p: Seq<Seq<char>>)
    ensures
        ftoks(true, p) == toks(p),
{
    let e = Seq::<Seq<char>>::empty();
    lemma_ftoks(e, p);
    assert(e + p =~= p);
    assert(toks(e) + ftoks(true, p) =~= ftoks(true, p));
}
//#endif

//#if C01 C02 C15
/// the found path is the most specific of the registered paths that match
pub open spec fn most_specific(f: Know, s: Seq<Seq<char>>, q: Option<Seq<Seq<char>>>) -> bool {
    &&& q is Some ==> registered(f, q->0) && hits(f, q->0, s)
    &&& forall|p: Seq<Seq<char>>| registered(f, p) && #[trigger] hits(f, p, s) ==> q is Some && wins(q->0, p, s)
}

pub proof fn lemma_found(f: Know, s: Seq<Seq<char>>)
    requires
        lawful(f),
        segments_ok(s),
    ensures
        most_specific(f, s, found(f, s)),
{
    if s.len() > 0 {
        lemma_sound(f, s);
        assert forall|p: Seq<Seq<char>>| registered(f, p) && #[trigger] hits(f, p, s) implies found(f, s) is Some && wins(found(f, s)->0, p, s) by {
            lemma_complete(f, p, s);
        }
    } else {
        let e = Seq::<Seq<char>>::empty();
        lemma_hits_end(f, e, s);
        assert(ftoks(true, e) =~= Seq::<Tok>::empty());
        assert forall|p: Seq<Seq<char>>| registered(f, p) && #[trigger] hits(f, p, s) implies found(f, s) is Some && wins(found(f, s)->0, p, s) by {
            lemma_hits_end(f, p, s);
            assert(p =~= e);
        }
    }
}
//#endif

//#if C04 C15
/// the middlewares of the root and of every prefix of the path, outermost first
pub open spec fn chain(f: Know, p: Seq<Seq<char>>) -> Seq<Arc<dyn Middleware>>
    decreases p.len(),
{
    if p.len() == 0 {
        mws(f(Seq::empty()).val)
    } else {
        chain(f, p.drop_last()) + mws(f(toks(p)).val)
    }
}

pub proof fn lemma_chain_at(f: Know, a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures
        chain(f, a) + along(after(f, toks(a)), true, b) == chain(f, a + b),
    decreases b.len(),
{
    let g = after(f, toks(a));
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(chain(f, a) + along(g, true, b) =~= chain(f, a));
    } else {
        let a2 = a.push(b[0]);
        assert(a2.drop_last() =~= a);
        assert(a2 + b.skip(1) =~= a + b);
        lemma_after_after(f, toks(a), tk(true, b[0]));
        assert(toks(a2) == toks(a) + tk(true, b[0]));
        lemma_chain_at(f, a2, b.skip(1));
        assert(chain(f, a) + along(g, true, b) =~= chain(f, a2) + along(after(f, toks(a2)), true, b.skip(1)));
    }
}

/// the middlewares of the found path are those of its prefixes
pub proof fn lemma_chain(f: Know, p: Seq<Seq<char>>)
    ensures
        mws(f(Seq::empty()).val) + along(f, true, p) == chain(f, p),
{
    let e = Seq::<Seq<char>>::empty();
    lemma_chain_at(f, e, p);
    assert(e + p =~= p);
    assert(after(f, toks(e)) =~= f) by {
        assert forall|t: Seq<Tok>| #[trigger] after(f, toks(e))(t) == f(t) by {
            assert(toks(e) + t =~= t);
        }
    }
}
//#endif

//#if C06 C15
/// segment `i` of the path is the parameter `x`
pub open spec fn named(p: Seq<Seq<char>>, s: Seq<Seq<char>>, i: int, x: Seq<char>) -> bool {
    &&& 0 <= i < p.len() && i < s.len()
    &&& is_param_seg(p[i])
    &&& p[i].skip(1) == x
}

/// every parameter of the path has the text of its (first) segment, and there are no others
pub open spec fn bound(p: Seq<Seq<char>>, s: Seq<Seq<char>>, m: Map<Seq<char>, Seq<char>>) -> bool {
    &&& forall|x: Seq<char>| #[trigger] m.contains_key(x) ==> exists|i: int| #[trigger] named(p, s, i, x)
    &&& forall|x: Seq<char>, i: int| #[trigger] named(p, s, i, x) ==> m.contains_key(x)
    &&& forall|x: Seq<char>, i: int| #[trigger] named(p, s, i, x) && (forall|j: int| 0 <= j < i ==> !named(p, s, j, x)) ==> m[x] == s[i]
}

pub proof fn lemma_bound(p: Seq<Seq<char>>, s: Seq<Seq<char>>)
    ensures
        bound(p, s, bind(Map::empty(), true, p, s)),
    decreases p.len(),
{
    let m = bind(Map::empty(), true, p, s);
    if p.len() == 0 || s.len() == 0 {
        lemma_bind_end(true, p, s);
    } else {
        let (p2, s2) = (p.skip(1), s.skip(1));
        let n = bind(Map::empty(), true, p2, s2);
        lemma_bound(p2, s2);
        assert forall|i: int, x: Seq<char>| #[trigger] named(p, s, i, x) && i > 0 implies named(p2, s2, i - 1, x) by {
            assert(p2[i - 1] == p[i]);
        }
        assert forall|i: int, x: Seq<char>| #[trigger] named(p2, s2, i, x) implies named(p, s, i + 1, x) by {
            assert(p2[i] == p[i + 1]);
        }
        assert forall|x: Seq<char>| #[trigger] m.contains_key(x) implies exists|i: int| #[trigger] named(p, s, i, x) by {
            if n.contains_key(x) {
                let i = choose|i: int| #[trigger] named(p2, s2, i, x);
                assert(named(p, s, i + 1, x));
            } else {
                assert(named(p, s, 0, x));
            }
        }
        assert forall|x: Seq<char>, i: int| #[trigger] named(p, s, i, x) implies m.contains_key(x) by {
            if i > 0 {
                assert(named(p2, s2, i - 1, x));
                assert(n.contains_key(x));
            }
        }
        assert forall|x: Seq<char>, i: int| #[trigger] named(p, s, i, x) && (forall|j: int| 0 <= j < i ==> !named(p, s, j, x)) implies m[x] == s[i] by {
            if i > 0 {
                assert(named(p2, s2, i - 1, x));
                assert forall|j: int| 0 <= j < i - 1 implies !named(p2, s2, j, x) by {
                    if named(p2, s2, j, x) {
                        assert(named(p, s, j + 1, x));
                    }
                }
                assert(!named(p, s, 0, x));
                assert(n[x] == s2[i - 1]);
            }
        }
    }
}
//#endif

//@ghost
//#if C01 C02 C03 C04 C06 C15
// ---------------------------------------------------------------- what has been registered
pub enum What {
    Handler(Route),
    Around(Arc<dyn Middleware>),
    /// a router was mounted here; what it holds is listed after it
    Mounted,
}

pub struct Reg {
    pub path: Seq<Seq<char>>,
    pub what: What,
}

pub type Log = Seq<Reg>;

/// the registration `i` is one for the text `t`
pub open spec fn is_for(log: Log, i: int, t: Seq<Tok>) -> bool {
    &&& 0 <= i < log.len()
    &&& !(log[i].what is Mounted)
    &&& toks(log[i].path) == t
}

pub open spec fn valued(log: Log, t: Seq<Tok>) -> bool {
    exists|i: int| #[trigger] is_for(log, i, t)
}

pub open spec fn routes_at(log: Log, t: Seq<Tok>) -> Map<Method, Route>
    decreases log.len(),
{
    if log.len() == 0 {
        Map::empty()
    } else {
        let m = routes_at(log.drop_last(), t);
        match log.last().what {
            What::Handler(r) if toks(log.last().path) == t => m.insert(r.method, r),
            _ => m,
        }
    }
}

pub open spec fn mws_at(log: Log, t: Seq<Tok>) -> Seq<Arc<dyn Middleware>>
    decreases log.len(),
{
    if log.len() == 0 {
        Seq::empty()
    } else {
        let m = mws_at(log.drop_last(), t);
        match log.last().what {
            What::Around(w) if toks(log.last().path) == t => m.push(w),
            _ => m,
        }
    }
}

pub open spec fn reaches(log: Log, i: int, t: Seq<Tok>) -> bool {
    0 <= i < log.len() && pre(t, toks(log[i].path))
}

/// registration `i` is the handler for the method `m` of the text `t`
pub open spec fn handles(log: Log, i: int, t: Seq<Tok>, m: Method) -> bool {
    &&& 0 <= i < log.len()
    &&& log[i].what is Handler
    &&& toks(log[i].path) == t
    &&& (log[i].what->Handler_0).method == m
}

/// no method twice at one path
pub open spec fn distinct(log: Log) -> bool {
    forall|i: int, j: int, t: Seq<Tok>, m: Method| #[trigger] handles(log, i, t, m) && #[trigger] handles(log, j, t, m) ==> i == j
}

/// the trie holds exactly the registrations of the log
pub open spec fn holds(head: Node, log: Log) -> bool {
    &&& root_ok(head)
    &&& distinct(log)
    &&& forall|i: int| 0 <= i < log.len() ==> segments_ok((#[trigger] log[i]).path)
    &&& forall|t: Seq<Tok>| (#[trigger] sem(head, t)).val is Some <==> valued(log, t)
    &&& forall|t: Seq<Tok>| routes((#[trigger] sem(head, t)).val) == routes_at(log, t)
    &&& forall|t: Seq<Tok>| mws((#[trigger] sem(head, t)).val) == mws_at(log, t)
    &&& forall|t: Seq<Tok>| (#[trigger] sem(head, t)).point <==> t.len() == 0 || exists|i: int| #[trigger] reaches(log, i, t)
}

pub proof fn lemma_log_new(head: Node)
    requires
        root_ok(head),
        head.value is None,
        head.child_nodes@.len() == 0,
    ensures
        holds(head, Seq::empty()),
{
    let e = Seq::<Reg>::empty();
    assert forall|t: Seq<Tok>| (#[trigger] sem(head, t)).val is Some <==> valued(e, t) by {
        assert(!valued(e, t));
    }
}

pub proof fn lemma_handler(log: Log, i: int, t: Seq<Tok>, m: Method)
    requires
        handles(log, i, t, m),
        distinct(log),
    ensures
        routes_at(log, t).contains_key(m),
        routes_at(log, t)[m] == log[i].what->Handler_0,
    decreases log.len(),
{
    let l2 = log.drop_last();
    if i < l2.len() {
        assert(handles(l2, i, t, m));
        lemma_distinct_less(log);
        lemma_handler(l2, i, t, m);
        if handles(log, log.len() - 1, t, m) {
            assert(i == log.len() - 1);
        }
    }
}

pub proof fn lemma_distinct_less(log: Log)
    requires
        distinct(log),
        log.len() > 0,
    ensures
        distinct(log.drop_last()),
{
    let l2 = log.drop_last();
    assert forall|i: int, j: int, t: Seq<Tok>, m: Method| #[trigger] handles(l2, i, t, m) && #[trigger] handles(l2, j, t, m) implies i == j by {
        assert(handles(log, i, t, m) && handles(log, j, t, m));
    }
}

pub proof fn lemma_handled(log: Log, t: Seq<Tok>, m: Method)
    requires
        routes_at(log, t).contains_key(m),
    ensures
        exists|i: int| #[trigger] handles(log, i, t, m),
    decreases log.len(),
{
    let l2 = log.drop_last();
    if routes_at(l2, t).contains_key(m) {
        lemma_handled(l2, t, m);
        let i = choose|i: int| #[trigger] handles(l2, i, t, m);
        assert(handles(log, i, t, m));
    } else {
        assert(handles(log, log.len() - 1, t, m));
    }
}

/// a route or a middleware more
pub proof fn lemma_log_push(old: Node, log: Log, reg: Reg, new: Node)
    requires
        holds(old, log),
        root_ok(new),
        segments_ok(reg.path),
        extended(old, toks(reg.path), new),
        match reg.what {
            What::Handler(r) => routed(sem(old, toks(reg.path)).val, sem(new, toks(reg.path)).val, r) && !routes(sem(old, toks(reg.path)).val).contains_key(r.method),
            What::Around(m) => middled(sem(old, toks(reg.path)).val, sem(new, toks(reg.path)).val, m),
            What::Mounted => false,
        },
    ensures
        holds(new, log.push(reg)),
{
    let l2 = log.push(reg);
    let k = toks(reg.path);
    assert(l2.drop_last() =~= log);
    assert forall|t: Seq<Tok>| (#[trigger] sem(new, t)).val is Some <==> valued(l2, t) by {
        if t == k {
            assert(is_for(l2, log.len() as int, t));
        } else {
            assert(sem(new, t).val == sem(old, t).val);
            if valued(log, t) {
                let i = choose|i: int| #[trigger] is_for(log, i, t);
                assert(is_for(l2, i, t));
            }
            if valued(l2, t) {
                let i = choose|i: int| #[trigger] is_for(l2, i, t);
                assert(is_for(log, i, t));
            }
        }
    }
    assert forall|t: Seq<Tok>| routes((#[trigger] sem(new, t)).val) == routes_at(l2, t) && mws(sem(new, t).val) == mws_at(l2, t) by {
        assert(routes(sem(old, t).val) == routes_at(log, t));
        assert(mws(sem(old, t).val) == mws_at(log, t));
        if t != k {
            assert(sem(new, t).val == sem(old, t).val);
        }
    }
    assert forall|t: Seq<Tok>| (#[trigger] sem(new, t)).point <==> t.len() == 0 || exists|i: int| #[trigger] reaches(l2, i, t) by {
        assert(sem(new, t).point == (pre(t, k) || sem(old, t).point));
        if pre(t, k) {
            assert(reaches(l2, log.len() as int, t));
        }
        if exists|i: int| #[trigger] reaches(log, i, t) {
            let i = choose|i: int| #[trigger] reaches(log, i, t);
            assert(reaches(l2, i, t));
        }
        if exists|i: int| #[trigger] reaches(l2, i, t) {
            let i = choose|i: int| #[trigger] reaches(l2, i, t);
            if i < log.len() {
                assert(reaches(log, i, t));
            }
        }
    }
    assert forall|i: int| 0 <= i < l2.len() implies segments_ok((#[trigger] l2[i]).path) by {
        if i < log.len() {
            assert(segments_ok(log[i].path));
        }
    }
    assert forall|i: int, j: int, t: Seq<Tok>, m: Method| #[trigger] handles(l2, i, t, m) && #[trigger] handles(l2, j, t, m) implies i == j by {
        if i < log.len() {
            assert(handles(log, i, t, m));
            lemma_handler(log, i, t, m);
        }
        if j < log.len() {
            assert(handles(log, j, t, m));
            lemma_handler(log, j, t, m);
        }
        assert(routes(sem(old, t).val) == routes_at(log, t));
    }
}

/// nothing for `t` in the second part
pub proof fn lemma_at_left(a: Log, b: Log, t: Seq<Tok>)
    requires
        !valued(b, t),
    ensures
        routes_at(a + b, t) == routes_at(a, t),
        mws_at(a + b, t) == mws_at(a, t),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        let b2 = b.drop_last();
        assert((a + b).drop_last() =~= a + b2);
        assert(!valued(b2, t)) by {
            if valued(b2, t) {
                let i = choose|i: int| #[trigger] is_for(b2, i, t);
                assert(is_for(b, i, t));
            }
        }
        lemma_at_left(a, b2, t);
        if toks(b.last().path) == t {
            assert(!is_for(b, b.len() - 1, t));
        }
    }
}

/// nothing for `t` in the first part
pub proof fn lemma_at_right(a: Log, b: Log, t: Seq<Tok>)
    requires
        !valued(a, t),
    ensures
        routes_at(a + b, t) == routes_at(b, t),
        mws_at(a + b, t) == mws_at(b, t),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= Seq::<Reg>::empty() + a);
        lemma_at_left(Seq::empty(), a, t);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_at_right(a, b.drop_last(), t);
    }
}

pub proof fn lemma_valued_append(a: Log, b: Log, t: Seq<Tok>)
    ensures
        valued(a + b, t) == (valued(a, t) || valued(b, t)),
{
    if valued(a, t) {
        assert(is_for(a + b, choose|i: int| #[trigger] is_for(a, i, t), t));
    }
    if valued(b, t) {
        let i = choose|i: int| #[trigger] is_for(b, i, t);
        assert(is_for(a + b, a.len() + i, t));
    }
    if valued(a + b, t) {
        let i = choose|i: int| #[trigger] is_for(a + b, i, t);
        if i < a.len() {
            assert(is_for(a, i, t));
        } else {
            assert(is_for(b, i - a.len(), t));
        }
    }
}

pub open spec fn below_path(q: Seq<Seq<char>>, e: Reg) -> Reg {
    Reg { path: q + e.path, what: e.what }
}

/// the registrations under a mount path
pub open spec fn prefixed(q: Seq<Seq<char>>, log: Log) -> Log {
    Seq::new(log.len(), |i: int| below_path(q, log[i]))
}

/// the registrations after mounting a router that has those of `src` at `q`
pub open spec fn with_mounted(log: Log, q: Seq<Seq<char>>, src: Log) -> Log {
    log.push(Reg { path: q, what: What::Mounted }) + prefixed(q, src)
}

pub proof fn lemma_toks_cat(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures
        toks(a + b) == toks(a) + toks(b),
{
    lemma_ftoks(a, b);
    lemma_path_toks(b);
}

pub proof fn lemma_prefixed(q: Seq<Seq<char>>, log: Log, u: Seq<Tok>)
    ensures
        routes_at(prefixed(q, log), toks(q) + u) == routes_at(log, u),
        mws_at(prefixed(q, log), toks(q) + u) == mws_at(log, u),
        valued(prefixed(q, log), toks(q) + u) == valued(log, u),
    decreases log.len(),
{
    let b = prefixed(q, log);
    let t = toks(q) + u;
    assert forall|i: int| 0 <= i < log.len() implies (toks((#[trigger] b[i]).path) == t <==> toks(log[i].path) == u) by {
        lemma_toks_cat(q, log[i].path);
        lemma_pre_cat(toks(q), u);
        lemma_pre_cat(toks(q), toks(log[i].path));
    }
    if log.len() > 0 {
        assert(b.drop_last() =~= prefixed(q, log.drop_last()));
        lemma_prefixed(q, log.drop_last(), u);
        assert(b.last() == b[log.len() - 1]);
    }
    if valued(b, t) {
        let i = choose|i: int| #[trigger] is_for(b, i, t);
        assert(is_for(log, i, u));
    }
    if valued(log, u) {
        let i = choose|i: int| #[trigger] is_for(log, i, u);
        assert(b[i].what == log[i].what);
        assert(is_for(b, i, t));
    }
}

/// nothing below a place that is not occupied
pub proof fn lemma_vacant(old: Node, k: Seq<Tok>, t: Seq<Tok>)
    requires
        !occupied(old, k),
        pre(k, t),
        t.len() == k.len() || t[k.len() as int].0,
    ensures
        sem(old, t).val is None,
{
    let u = t.skip(k.len() as int);
    if sem(old, t).val is Some {
        if u.len() == 0 {
            assert(t =~= k);
        } else {
            lemma_val_point(old, t);
            lemma_point_prefix(old, t, k.len() as int + 1);
            assert(t.take(k.len() as int + 1) =~= k.push((true, u[0].1)));
            assert(below(old, k, u[0].1));
        }
    }
}

/// a router is mounted
pub proof fn lemma_log_mount(old: Node, log: Log, q: Seq<Seq<char>>, src: Node, slog: Log, new: Node)
    requires
        holds(old, log),
        holds(src, slog),
        root_ok(new),
        segments_ok(q),
        mounted(old, toks(q), src, new),
        !occupied(old, toks(q)),
    ensures
        holds(new, with_mounted(log, q, slog)),
{
    let k = toks(q);
    let a = log.push(Reg { path: q, what: What::Mounted });
    let b = prefixed(q, slog);
    let l2 = a + b;
    assert(a.drop_last() =~= log);
    assert forall|t: Seq<Tok>| #[trigger] valued(a, t) == valued(log, t) && routes_at(a, t) == routes_at(log, t) && mws_at(a, t) == mws_at(log, t) by {
        if valued(a, t) {
            assert(is_for(log, choose|i: int| #[trigger] is_for(a, i, t), t));
        }
        if valued(log, t) {
            assert(is_for(a, choose|i: int| #[trigger] is_for(log, i, t), t));
        }
    }
    assert forall|i: int| 0 <= i < b.len() implies toks((#[trigger] b[i]).path) == k + toks(slog[i].path) by {
        lemma_toks_cat(q, slog[i].path);
    }
    assert forall|i: int| 0 <= i < l2.len() implies segments_ok((#[trigger] l2[i]).path) by {
        if i < log.len() {
            assert(segments_ok(log[i].path));
        } else if i > log.len() {
            assert(segments_ok(slog[i - a.len()].path));
        }
    }
    assert forall|i: int, j: int, t: Seq<Tok>, m: Method| #[trigger] handles(l2, i, t, m) && #[trigger] handles(l2, j, t, m) implies i == j by {
        let u = t.skip(k.len() as int);
        if i < log.len() {
            assert(handles(log, i, t, m));
            assert(is_for(log, i, t));
        }
        if j < log.len() {
            assert(handles(log, j, t, m));
            assert(is_for(log, j, t));
        }
        let n = a.len() as int;
        if i >= n {
            assert(l2[i] == b[i - n]);
            assert(toks(b[i - n].path) == k + toks(slog[i - n].path));
            lemma_pre_cat(k, toks(slog[i - n].path));
            assert(handles(slog, i - n, u, m));
            lemma_path_first(slog[i - n].path);
            lemma_vacant(old, k, t);
        }
        if j >= n {
            assert(l2[j] == b[j - n]);
            assert(toks(b[j - n].path) == k + toks(slog[j - n].path));
            lemma_pre_cat(k, toks(slog[j - n].path));
            assert(handles(slog, j - n, u, m));
            lemma_path_first(slog[j - n].path);
            lemma_vacant(old, k, t);
        }
        assert(sem(old, t).val is Some <==> valued(log, t));
    }
    assert forall|t: Seq<Tok>| {
        let s = #[trigger] sem(new, t);
        &&& s.val is Some <==> valued(l2, t)
        &&& routes(s.val) == routes_at(l2, t)
        &&& mws(s.val) == mws_at(l2, t)
    } by {
        let u = t.skip(k.len() as int);
        lemma_valued_append(a, b, t);
        assert(sem(new, t) == mount(old, k, src, t));
        assert(sem(old, t).val is Some <==> valued(log, t));
        assert(routes(sem(old, t).val) == routes_at(log, t));
        assert(mws(sem(old, t).val) == mws_at(log, t));
        if pre(k, t) {
            assert(t =~= k + u);
            lemma_prefixed(q, slog, u);
            assert(sem(src, u).val is Some <==> valued(slog, u));
            assert(routes(sem(src, u).val) == routes_at(slog, u));
            assert(mws(sem(src, u).val) == mws_at(slog, u));
            if u.len() == 0 || u[0].0 {
                lemma_vacant(old, k, t);
                assert(!valued(log, t));
                assert(!valued(a, t));
                lemma_at_right(a, b, t);
                if u.len() == 0 {
                    assert(u =~= Seq::<Tok>::empty());
                    assert(sem(src, u).val == src.value);
                }
            } else {
                assert(!valued(slog, u)) by {
                    if is_kid(src, kid(src, u[0]), u[0]) {
                        assert(src.child_nodes@[kid(src, u[0])].is_segment);
                    }
                }
                lemma_at_left(a, b, t);
                assert(valued(a, t) == valued(log, t));
            }
        } else {
            assert(!valued(b, t)) by {
                if valued(b, t) {
                    let i = choose|i: int| #[trigger] is_for(b, i, t);
                    lemma_pre_cat(k, toks(slog[i].path));
                }
            }
            lemma_at_left(a, b, t);
            assert(valued(a, t) == valued(log, t));
        }
    }
    assert forall|t: Seq<Tok>| (#[trigger] sem(new, t)).point <==> t.len() == 0 || exists|i: int| #[trigger] reaches(l2, i, t) by {
        let u = t.skip(k.len() as int);
        assert(sem(new, t) == mount(old, k, src, t));
        assert(sem(old, t).point <==> t.len() == 0 || exists|i: int| #[trigger] reaches(log, i, t));
        assert(l2[log.len() as int].path == q);
        assert(reaches(l2, log.len() as int, t) == pre(t, k));
        if pre(t, k) {
            if pre(k, t) {
                assert(u.len() == 0);
            }
        }
        if pre(k, t) && u.len() == 0 {
            assert(t =~= k);
            assert(pre(t, k));
        }
        if t.len() == 0 {
            assert(t =~= k.take(0));
            assert(pre(t, k));
        }
        if exists|i: int| #[trigger] reaches(log, i, t) {
            let i = choose|i: int| #[trigger] reaches(log, i, t);
            assert(reaches(l2, i, t));
        }
        if pre(k, t) && u.len() > 0 {
            assert(t =~= k + u);
            assert(sem(src, u).point <==> exists|i: int| #[trigger] reaches(slog, i, u));
            if u[0].0 && sem(old, t).point {
                lemma_point_prefix(old, t, k.len() as int + 1);
                assert(t.take(k.len() as int + 1) =~= k.push((true, u[0].1)));
                assert(below(old, k, u[0].1));
            }
            if exists|i: int| #[trigger] reaches(slog, i, u) {
                let i = choose|i: int| #[trigger] reaches(slog, i, u);
                let v = toks(slog[i].path);
                assert((k + v).take(t.len() as int) =~= k + v.take(u.len() as int));
                assert(l2[a.len() + i] == b[i]);
                assert(reaches(l2, a.len() + i, t));
                if !u[0].0 {
                    assert(v.take(u.len() as int)[0] == u[0]);
                    lemma_path_first(slog[i].path);
                }
            }
        }
        if exists|i: int| #[trigger] reaches(l2, i, t) {
            let i = choose|i: int| #[trigger] reaches(l2, i, t);
            if i < log.len() {
                assert(reaches(log, i, t));
            } else if i > log.len() {
                let v = toks(slog[i - a.len()].path);
                assert(l2[i] == b[i - a.len()]);
                assert(pre(t, k + v));
                if t.len() <= k.len() {
                    assert((k + v).take(t.len() as int) =~= k.take(t.len() as int));
                    assert(pre(t, k));
                } else {
                    assert(t.take(k.len() as int) =~= k) by {
                        assert((k + v).take(t.len() as int).take(k.len() as int) =~= k);
                    }
                    assert(v.take(u.len() as int) =~= u) by {
                        assert((k + v).take(t.len() as int).skip(k.len() as int) =~= v.take(u.len() as int));
                    }
                    assert(reaches(slog, i - a.len(), u));
                    lemma_path_first(slog[i - a.len()].path);
                    assert(v[0] == u[0]);
                }
            }
        }
    }
}

pub proof fn lemma_path_first(p: Seq<Seq<char>>)
    requires
        segments_ok(p),
    ensures
        toks(p).len() > 0 ==> toks(p)[0].0,
{
    if p.len() > 0 {
        lemma_toks_head(p);
    }
}
//#endif

//@ghost
//#if C01 C02 C03 C15
/// a path is determined by its text, and a prefix that ends with a segment by the text's prefix
pub proof fn lemma_toks_prefix(a: Seq<Seq<char>>, u: Seq<Tok>, p: Seq<Seq<char>>)
    requires
        segments_ok(a),
        segments_ok(p),
        pre(ftoks(true, a) + u, ftoks(true, p)),
        u.len() == 0 ==> ftoks(true, a) == ftoks(true, p),
        u.len() > 0 ==> u[0].0,
    ensures
        a.len() <= p.len(),
        p.take(a.len() as int) == a,
        pre(u, ftoks(true, p.skip(a.len() as int))),
        u.len() == 0 ==> a == p,
        u.len() > 0 ==> a.len() < p.len(),
    decreases a.len(),
{
    let ta = ftoks(true, a);
    let tp = ftoks(true, p);
    if a.len() == 0 {
        assert(ta + u =~= u);
        assert(p.skip(0) =~= p);
        assert(p.take(0) =~= a);
        if u.len() == 0 && p.len() > 0 {
            assert(tp.len() > 0);
        }
    } else {
        let (a2, p2) = (a.skip(1), p.skip(1));
        assert(ta.len() > 0);
        assert(p.len() > 0);
        let x = ta + u;
        assert(tp.take(x.len() as int) == x);
        let (la, lp) = (a[0].len() as int, p[0].len() as int);
        let (ra, rp) = (ftoks(true, a2), ftoks(true, p2));
        assert(segments_ok(a2) && segments_ok(p2));
        if ra.len() > 0 {
            lemma_path_first(a2);
            lemma_path_toks(a2);
        }
        if rp.len() > 0 {
            lemma_path_first(p2);
            lemma_path_toks(p2);
        }
        // where a segment ends
        if la < lp {
            assert(!tp[la].0);
            if x.len() > la {
                assert(x[la] == tp.take(x.len() as int)[la]);
                if ra.len() > 0 {
                    assert(x[la] == ra[0]);
                } else {
                    assert(x[la] == u[0]);
                }
            } else {
                assert(u.len() == 0);
                assert(ta.len() == tp.len());
            }
        }
        if lp < la {
            assert(!ta[lp].0);
            assert(x[lp] == ta[lp]);
            assert(x[lp] == tp.take(x.len() as int)[lp]);
            assert(tp[lp] == rp[0]);
        }
        assert(la == lp);
        assert(a[0] =~= p[0]) by {
            assert forall|j: int| 0 <= j < la implies a[0][j] == #[trigger] p[0][j] by {
                assert(x[j] == tp.take(x.len() as int)[j]);
                assert(x[j] == ta[j]);
                assert(ta[j] == tk(true, a[0])[j]);
                assert(tp[j] == tk(true, p[0])[j]);
            }
        }
        assert(x =~= tk(true, a[0]) + (ra + u));
        assert(pre(ra + u, rp)) by {
            assert(rp.take((ra + u).len() as int) =~= tp.take(x.len() as int).skip(la));
            assert(x.skip(la) =~= ra + u);
        }
        if u.len() == 0 {
            assert(ta.skip(la) =~= ra);
            assert(tp.skip(la) =~= rp);
        }
        lemma_toks_prefix(a2, u, p2);
        assert(p.take(a.len() as int) =~= seq![p[0]] + p2.take(a2.len() as int));
        assert(a =~= seq![a[0]] + a2);
        assert(p.skip(a.len() as int) =~= p2.skip(a2.len() as int));
        if u.len() == 0 {
            assert(a =~= p);
        }
    }
}

pub proof fn lemma_toks_inj(a: Seq<Seq<char>>, p: Seq<Seq<char>>)
    requires
        segments_ok(a),
        segments_ok(p),
        toks(a) == toks(p),
    ensures
        a == p,
{
    let e = Seq::<Tok>::empty();
    lemma_path_toks(a);
    lemma_path_toks(p);
    assert(ftoks(true, a) + e =~= ftoks(true, p));
    assert(ftoks(true, p).take(ftoks(true, p).len() as int) =~= ftoks(true, p));
    lemma_toks_prefix(a, e, p);
}
//#endif

//#if C03
/// segment `i` of a registered path differs from that of `s`, and one of them is a parameter
pub open spec fn clashes(e: Reg, s: Seq<Seq<char>>, i: int) -> bool {
    &&& 0 <= i < s.len() && i < e.path.len()
    &&& e.path.take(i) == s.take(i)
    &&& e.path[i] != s[i]
    &&& is_param_seg(s[i]) || is_param_seg(e.path[i])
}

pub open spec fn clashing(log: Log, j: int, s: Seq<Seq<char>>, i: int) -> bool {
    0 <= j < log.len() && clashes(log[j], s, i)
}

pub open spec fn ambiguous(log: Log, s: Seq<Seq<char>>) -> bool {
    exists|j: int, i: int| #[trigger] clashing(log, j, s, i)
}

/// a clash in the trie is one with something registered
pub proof fn lemma_clash_log(head: Node, log: Log, s: Seq<Seq<char>>, i: int, n: Node)
    requires
        holds(head, log),
        segments_ok(s),
        0 <= i < s.len(),
        node_ok(n),
        placed(head, toks(s.take(i)), n),
        clash(n, s[i]),
    ensures
        exists|j: int| #[trigger] clashing(log, j, s, i),
{
    let x = s[i];
    let k = toks(s.take(i));
    let m = choose|m: int| #[trigger] clash_with(n, x, m);
    let c = n.child_nodes@[m];
    assert(child_ok(c));
    lemma_know_child(n, m);
    assert(nk(c) + Seq::<Tok>::empty() =~= nk(c));
    assert(after(know(n), nk(c))(Seq::empty()) == sem(n, nk(c)));
    assert(sem(n, nk(c)).point);
    let t = k + nk(c);
    assert(sem(head, t).point);
    let j = choose|j: int| #[trigger] reaches(log, j, t);
    assert(reaches(log, j, t));
    let p = log[j].path;
    assert(segments_ok(s.take(i)));
    lemma_path_toks(p);
    lemma_path_toks(s.take(i));
    lemma_toks_prefix(s.take(i), nk(c), p);
    let p2 = p.skip(i);
    let y = p[i];
    assert(p2[0] == y);
    let tp = ftoks(true, p2);
    assert(tp.take(nk(c).len() as int) == nk(c));
    assert(tp.take(nk(c).len() as int)[0] == nk(c)[0]);
    assert(tp[0] == tk(true, y)[0]);
    assert(y[0] == c.key@[0]);
    assert(p =~= p.take(i) + p2);
    lemma_toks_cat(p.take(i), p2);
    lemma_path_toks(p2);
    if is_param_seg(c.key@) && y == x {
        // then y goes on after the key of the child
        assert(p2 =~= seq![y] + p2.skip(1));
        let v = tk(true, y) + ftoks(true, p2.skip(1));
        assert(tp == v);
        let l = c.key@.len() as int;
        if y.len() == l {
            assert(y =~= c.key@) by {
                assert forall|a: int| 0 <= a < l implies y[a] == #[trigger] c.key@[a] by {
                    assert(tp.take(l)[a] == nk(c)[a]);
                    assert(tp[a] == tk(true, y)[a]);
                }
            }
        } else {
            if y.len() < l {
                let w = y.len() as int;
                assert(tp.take(l)[w] == nk(c)[w]);
                assert(ftoks(true, p2.skip(1)).len() > 0);
                assert(segments_ok(p2.skip(1)));
                lemma_path_toks(p2.skip(1));
                lemma_path_first(p2.skip(1));
                assert(tp[w] == ftoks(true, p2.skip(1))[0]);
            } else {
                let z = tp[l];
                assert(z == tk(true, y)[l]);
                assert(!z.0);
                let u = nk(c).push(z);
                assert(tp.take(l + 1) =~= u);
                assert(pre(k + u, toks(p))) by {
                    assert((k + tp).take((k + u).len() as int) =~= k + tp.take(l + 1));
                }
                assert(reaches(log, j, k + u));
                assert(sem(head, k + u).point);
                assert(sem(n, u).point);
                assert(u =~= nk(c) + seq![z]);
                assert(after(know(n), nk(c))(seq![z]) == know(c)(seq![z]));
                assert(is_kid(c, kid(c, z), z));
                assert(c.child_nodes@[kid(c, z)].is_segment);
            }
        }
    }
    assert(clashing(log, j, s, i));
}

/// something registered clashes in the trie
pub proof fn lemma_log_clash(head: Node, log: Log, s: Seq<Seq<char>>, i: int, n: Node, j: int)
    requires
        holds(head, log),
        segments_ok(s),
        node_ok(n),
        placed(head, toks(s.take(i)), n),
        clashing(log, j, s, i),
        !(log[j].what is Mounted),
    ensures
        clash(n, s[i]),
{
    let x = s[i];
    let k = toks(s.take(i));
    let p = log[j].path;
    let p2 = p.skip(i);
    let y = p[i];
    assert(p =~= s.take(i) + p2);
    lemma_toks_cat(s.take(i), p2);
    lemma_path_toks(p2);
    assert(is_for(log, j, toks(p)));
    assert(sem(head, toks(p)).val is Some);
    let t = ftoks(true, p2);
    assert(sem(n, t).val is Some);
    assert(p2[0] == y);
    let u = ftoks(true, p2.skip(1));
    assert(t == tk(true, y) + u);
    assert(y.len() > 0);
    assert(t[0] == (true, y[0]));
    let m = kid(n, t[0]);
    assert(is_kid(n, m, t[0]));
    let c = n.child_nodes@[m];
    if is_param_seg(y) {
        assert(segments_ok(p2.skip(1))) by {
            assert forall|a: int| 0 <= a < p2.skip(1).len() implies (#[trigger] p2.skip(1)[a]).len() > 0 by {
                assert(p2.skip(1)[a] == p[i + 1 + a]);
            }
        }
        lemma_path_toks(p2.skip(1));
        lemma_path_first(p2.skip(1));
        lemma_param_known(n, m);
        assert(know(n)(tk(true, y) + u).val is Some);
        assert(y == c.key@);
    }
    assert(clash_with(n, x, m));
}

/// a path whose way is free clashes with nothing registered
pub proof fn lemma_free_log(head: Node, log: Log, s: Seq<Seq<char>>)
    requires
        holds(head, log),
        segments_ok(s),
        free(head, s),
    ensures
        forall|j: int, i: int| #[trigger] clashing(log, j, s, i) ==> log[j].what is Mounted,
{
    assert forall|j: int, i: int| #[trigger] clashing(log, j, s, i) implies log[j].what is Mounted by {
        assert(free_at(head, s, i));
        let n = choose|n: Node| #[trigger] node_ok(n) && placed(head, toks(s.take(i)), n) && !clash(n, s[i]);
        if !(log[j].what is Mounted) {
            lemma_log_clash(head, log, s, i, n, j);
        }
    }
}

pub proof fn lemma_conflicts_log(head: Node, log: Log, s: Seq<Seq<char>>)
    requires
        holds(head, log),
        segments_ok(s),
        conflicts(head, s),
    ensures
        ambiguous(log, s),
{
    let i = choose|i: int| 0 <= i < s.len() && #[trigger] conflicts_at(head, s, i);
    let n = choose|n: Node| #[trigger] node_ok(n) && placed(head, toks(s.take(i)), n) && clash(n, s[i]);
    lemma_clash_log(head, log, s, i, n);
    let j = choose|j: int| #[trigger] clashing(log, j, s, i);
    assert(clashing(log, j, s, i));
}
//#endif

//@ghost
//#if C03
/// the registration `j` is one at the path or below
pub open spec fn at_or_below(log: Log, j: int, q: Seq<Seq<char>>) -> bool {
    &&& 0 <= j < log.len()
    &&& q.len() <= log[j].path.len()
    &&& log[j].path.take(q.len() as int) == q
}

/// there is something at the path or below
pub open spec fn taken(log: Log, q: Seq<Seq<char>>) -> bool {
    exists|j: int| #[trigger] at_or_below(log, j, q)
}

pub open spec fn sub_path(log: Log, j: int) -> bool {
    0 <= j < log.len() && log[j].path.len() > 0
}

/// the path ends with `*` and there would be paths below it
pub open spec fn wild_above(slog: Log, q: Seq<Seq<char>>) -> bool {
    &&& q.len() > 0 && q.last().contains('*')
    &&& exists|j: int| #[trigger] sub_path(slog, j)
}

pub proof fn lemma_taken(head: Node, log: Log, q: Seq<Seq<char>>)
    requires
        holds(head, log),
        segments_ok(q),
        occupied(head, toks(q)),
    ensures
        taken(log, q),
{
    let k = toks(q);
    lemma_path_toks(q);
    if sem(head, k).val is Some {
        let j = choose|j: int| #[trigger] is_for(log, j, k);
        assert(is_for(log, j, k));
        assert(segments_ok(log[j].path));
        lemma_toks_inj(log[j].path, q);
        assert(q.take(q.len() as int) =~= q);
        assert(at_or_below(log, j, q));
    } else {
        let c = choose|c: char| #[trigger] below(head, k, c);
        let u = seq![(true, c)];
        let t = k.push((true, c));
        assert(k + u =~= t);
        assert(sem(head, t).point);
        let j = choose|j: int| #[trigger] reaches(log, j, t);
        assert(reaches(log, j, t));
        assert(segments_ok(log[j].path));
        lemma_path_toks(log[j].path);
        lemma_toks_prefix(q, u, log[j].path);
        assert(at_or_below(log, j, q));
    }
}

pub proof fn lemma_not_taken(head: Node, log: Log, q: Seq<Seq<char>>)
    requires
        holds(head, log),
        segments_ok(q),
        !occupied(head, toks(q)),
    ensures
        forall|j: int| #[trigger] at_or_below(log, j, q) ==> log[j].what is Mounted,
{
    assert forall|j: int| #[trigger] at_or_below(log, j, q) implies log[j].what is Mounted by {
        if !(log[j].what is Mounted) {
            let p = log[j].path;
            let n = q.len() as int;
            let u = toks(p.skip(n));
            assert(segments_ok(p));
            assert(p =~= q + p.skip(n));
            lemma_toks_cat(q, p.skip(n));
            assert(is_for(log, j, toks(p)));
            assert(sem(head, toks(p)).val is Some);
            lemma_pre_cat(toks(q), u);
            assert(segments_ok(p.skip(n)));
            lemma_path_first(p.skip(n));
            if u.len() > 0 {
                assert(toks(p)[toks(q).len() as int] == u[0]);
            }
            lemma_vacant(head, toks(q), toks(p));
        }
    }
}

pub proof fn lemma_wild_above(src: Node, slog: Log, q: Seq<Seq<char>>)
    requires
        holds(src, slog),
        !wild_last(q, src),
    ensures
        wild_above(slog, q),
{
    let c = src.child_nodes@[0];
    assert(child_ok(c));
    lemma_child_point(src, 0);
    assert(c.is_segment);
    let t = seq![(true, c.key@[0])];
    assert(sem(src, t).point);
    let j = choose|j: int| #[trigger] reaches(slog, j, t);
    assert(reaches(slog, j, t));
    assert(toks(slog[j].path).len() > 0);
    assert(sub_path(slog, j));
}
//#endif

//@ghost
//#if C01 C02 C15
pub open spec fn same_values(f: Know, g: Know) -> bool {
    forall|t: Seq<Tok>| (#[trigger] f(t)).val is Some <==> g(t).val is Some
}

pub proof fn lemma_same_hits(f: Know, g: Know, p: Seq<Seq<char>>, s: Seq<Seq<char>>)
    requires
        same_values(f, g),
    ensures
        hits(f, p, s) == hits(g, p, s),
    decreases p.len(),
{
    if p.len() > 0 && s.len() > 0 {
        let k = tk(true, p[0]);
        assert(same_values(after(f, k), after(g, k))) by {
            assert forall|t: Seq<Tok>| (#[trigger] after(f, k)(t)).val is Some <==> after(g, k)(t).val is Some by {
                assert(f(k + t).val is Some <==> g(k + t).val is Some);
            }
        }
        lemma_same_hits(after(f, k), after(g, k), p.skip(1), s.skip(1));
        assert(f(k).val is Some <==> g(k).val is Some);
    } else {
        lemma_hits_end(f, p, s);
        lemma_hits_end(g, p, s);
    }
}

pub proof fn lemma_wins_anti(b: Seq<Seq<char>>, p: Seq<Seq<char>>, r: Seq<Seq<char>>)
    requires
        wins(b, p, r),
        wins(p, b, r),
    ensures
        b == p,
{
    if b != p {
        let i = choose|i: int| #[trigger] wins_at(b, p, r, i);
        let j = choose|j: int| #[trigger] wins_at(p, b, r, j);
        assert(wins_at(b, p, r, i) && wins_at(p, b, r, j));
        if i < j {
            assert(p.take(j)[i] == b.take(j)[i]);
        } else if j < i {
            assert(p.take(i)[j] == b.take(i)[j]);
        }
    }
}

/// what a lookup finds depends only on where something is registered
pub proof fn lemma_same_found(f: Know, g: Know, s: Seq<Seq<char>>)
    requires
        lawful(f),
        lawful(g),
        same_values(f, g),
        segments_ok(s),
    ensures
        found(f, s) == found(g, s),
{
    lemma_found(f, s);
    lemma_found(g, s);
    let (a, b) = (found(f, s), found(g, s));
    if a is Some {
        lemma_same_hits(f, g, a->0, s);
        assert(f(ftoks(true, a->0)).val is Some);
        assert(registered(g, a->0));
        assert(hits(g, a->0, s));
    }
    if b is Some {
        lemma_same_hits(f, g, b->0, s);
        assert(f(ftoks(true, b->0)).val is Some);
        assert(registered(f, b->0));
        assert(hits(f, b->0, s));
    }
    if a is Some && b is Some {
        lemma_wins_anti(a->0, b->0, s);
    }
}
//#endif

//#if C02 C15
/// the same registrations, in whatever order, with or without empty routers mounted
pub open spec fn covers(a: Log, b: Log) -> bool {
    forall|i: int| 0 <= i < a.len() && !((#[trigger] a[i]).what is Mounted) ==> b.contains(a[i])
}

pub proof fn lemma_covers(a: Log, b: Log, t: Seq<Tok>)
    requires
        covers(a, b),
    ensures
        valued(a, t) ==> valued(b, t),
        forall|i: int, m: Method| #[trigger] handles(a, i, t, m) ==> exists|j: int| #[trigger] handles(b, j, t, m) && b[j] == a[i],
{
    if valued(a, t) {
        let i = choose|i: int| #[trigger] is_for(a, i, t);
        assert(b.contains(a[i]));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i];
        assert(is_for(b, j, t));
    }
    assert forall|i: int, m: Method| #[trigger] handles(a, i, t, m) implies exists|j: int| #[trigger] handles(b, j, t, m) && b[j] == a[i] by {
        assert(b.contains(a[i]));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i];
        assert(handles(b, j, t, m));
    }
}

/// the order of the registrations does not matter to any lookup
pub proof fn lemma_any_order(x: Node, a: Log, y: Node, b: Log, s: Seq<Seq<char>>)
    requires
        holds(x, a),
        holds(y, b),
        covers(a, b),
        covers(b, a),
        segments_ok(s),
    ensures
        found(know(x), s) == found(know(y), s),
        forall|t: Seq<Tok>| routes((#[trigger] sem(x, t)).val) == routes(sem(y, t).val),
{
    lemma_lawful(x);
    lemma_lawful(y);
    assert forall|t: Seq<Tok>| (#[trigger] know(x)(t)).val is Some <==> know(y)(t).val is Some by {
        lemma_covers(a, b, t);
        lemma_covers(b, a, t);
        assert(sem(x, t).val is Some <==> valued(a, t));
        assert(sem(y, t).val is Some <==> valued(b, t));
    }
    lemma_same_found(know(x), know(y), s);
    assert forall|t: Seq<Tok>| routes((#[trigger] sem(x, t)).val) == routes(sem(y, t).val) by {
        let ra = routes_at(a, t);
        let rb = routes_at(b, t);
        assert(routes(sem(x, t).val) == ra);
        assert(routes(sem(y, t).val) == rb);
        assert forall|m: Method| #[trigger] ra.contains_key(m) implies rb.contains_key(m) && rb[m] == ra[m] by {
            lemma_same_handler(a, b, t, m);
        }
        assert forall|m: Method| #[trigger] rb.contains_key(m) implies ra.contains_key(m) && rb[m] == ra[m] by {
            lemma_same_handler(b, a, t, m);
        }
        assert(ra =~= rb);
    }
}

pub proof fn lemma_same_handler(a: Log, b: Log, t: Seq<Tok>, m: Method)
    requires
        covers(a, b),
        distinct(a),
        distinct(b),
        routes_at(a, t).contains_key(m),
    ensures
        routes_at(b, t).contains_key(m),
        routes_at(b, t)[m] == routes_at(a, t)[m],
{
    lemma_covers(a, b, t);
    lemma_handled(a, t, m);
    let i = choose|i: int| #[trigger] handles(a, i, t, m);
    assert(handles(a, i, t, m));
    let j = choose|j: int| #[trigger] handles(b, j, t, m) && b[j] == a[i];
    lemma_handler(a, i, t, m);
    lemma_handler(b, j, t, m);
}

/// a registration at one path leaves all other paths as they are
pub proof fn lemma_others_kept(old: Node, new: Node, k: Seq<Tok>)
    requires
        extended(old, k, new),
    ensures
        forall|t: Seq<Tok>| t != k ==> routes((#[trigger] sem(new, t)).val) == routes(sem(old, t).val) && mws(sem(new, t).val) == mws(sem(old, t).val),
{
    assert forall|t: Seq<Tok>| t != k implies routes((#[trigger] sem(new, t)).val) == routes(sem(old, t).val) && mws(sem(new, t).val) == mws(sem(old, t).val) by {
        assert(sem(new, t).val == sem(old, t).val);
    }
}
//#endif

//#if C15
/// the texts below `q` which start a segment are those of `src`
pub open spec fn grows(f: Know, k: Seq<Tok>, src: Know) -> bool {
    forall|t: Seq<Tok>| t.len() == 0 || t[0].0 ==> #[trigger] after(f, k)(t).val == src(t).val
}

/// the segments of the request fit the mount path
pub open spec fn follows(q: Seq<Seq<char>>, r: Seq<Seq<char>>) -> bool {
    &&& q.len() == r.len()
    &&& forall|i: int| 0 <= i < q.len() ==> !(#[trigger] q[i]).contains('*') && (is_param_seg(q[i]) || q[i] == r[i])
}

pub proof fn lemma_hits_grown(g: Know, src: Know, p: Seq<Seq<char>>, s: Seq<Seq<char>>)
    requires
        forall|t: Seq<Tok>| t.len() == 0 || t[0].0 ==> (#[trigger] g(t)).val == src(t).val,
        segments_ok(p),
    ensures
        hits(g, p, s) == hits(src, p, s),
{
    if p.len() > 0 && s.len() > 0 {
        let k = tk(true, p[0]);
        assert(same_values(after(g, k), after(src, k))) by {
            assert forall|t: Seq<Tok>| (#[trigger] after(g, k)(t)).val is Some <==> after(src, k)(t).val is Some by {
                assert((k + t)[0] == k[0]);
                assert(g(k + t).val == src(k + t).val);
            }
        }
        lemma_same_hits(after(g, k), after(src, k), p.skip(1), s.skip(1));
        assert(k[0].0);
        assert(g(k).val == src(k).val);
    } else {
        lemma_hits_end(g, p, s);
        lemma_hits_end(src, p, s);
    }
}

/// a path below the mount path matches what it matches in the mounted router
pub proof fn lemma_hits_below(f: Know, q: Seq<Seq<char>>, r: Seq<Seq<char>>, p: Seq<Seq<char>>, s: Seq<Seq<char>>)
    requires
        follows(q, r),
        segments_ok(q),
        q.len() > 0 && s.len() == 0 ==> f(ftoks(true, q)).val is Some || p.len() == 0,
    ensures
        hits(f, q + p, r + s) == hits(after(f, ftoks(true, q)), p, s),
    decreases q.len(),
{
    let g = after(f, ftoks(true, q));
    if q.len() == 0 {
        assert(q + p =~= p);
        assert(r + s =~= s);
        assert(g =~= f) by {
            assert forall|t: Seq<Tok>| #[trigger] g(t) == f(t) by {
                assert(ftoks(true, q) + t =~= t);
            }
        }
    } else {
        let (q2, r2) = (q.skip(1), r.skip(1));
        let k = tk(true, q[0]);
        let h = after(f, k);
        assert(!q[0].contains('*'));
        assert(q[0] != star()) by {
            assert(star()[0] == '*');
        }
        assert((q + p).skip(1) =~= q2 + p);
        assert((r + s).skip(1) =~= r2 + s);
        assert((q + p)[0] == q[0] && (r + s)[0] == r[0]);
        lemma_after_after(f, k, ftoks(true, q2));
        assert(segments_ok(q2));
        assert(follows(q2, r2)) by {
            assert forall|i: int| 0 <= i < q2.len() implies !(#[trigger] q2[i]).contains('*') && (is_param_seg(q2[i]) || q2[i] == r2[i]) by {
                assert(!q[i + 1].contains('*'));
            }
        }
        assert(h(ftoks(true, q2)) == f(ftoks(true, q)));
        lemma_hits_below(h, q2, r2, p, s);
        if !is_param_seg(q[0]) && (r + s).len() == 1 && (q + p).skip(1) == seq![star()] && f(k).val is None {
            assert(s.len() == 0);
            if q2.len() > 0 {
                assert((q2 + p)[0] == q2[0]);
                assert(seq![star()][0] == star());
                assert(q2[0].contains('*')) by {
                    assert(q2[0][0] == '*');
                }
                assert(!q[1].contains('*'));
            } else {
                assert(ftoks(true, q2) =~= Seq::<Tok>::empty());
                assert(k + Seq::<Tok>::empty() =~= k);
                assert(p.len() > 0);
            }
            assert(false);
        }
    }
}

/// the mounted router answers below the mount path as it would on its own
pub proof fn lemma_mount_lookup(f: Know, q: Seq<Seq<char>>, src: Know, r: Seq<Seq<char>>, s: Seq<Seq<char>>)
    requires
        lawful(f),
        lawful(src),
        grows(f, ftoks(true, q), src),
        follows(q, r),
        segments_ok(q),
        segments_ok(r),
        segments_ok(s),
        found(src, s) is Some,
    ensures
        found(f, r + s) == Some(q + found(src, s)->0),
{
    let p = found(src, s)->0;
    let k = ftoks(true, q);
    let g = after(f, k);
    let (qp, rs) = (q + p, r + s);
    lemma_found(src, s);
    lemma_path_toks(q);
    lemma_path_toks(p);
    lemma_toks_cat(q, p);
    lemma_path_toks(qp);
    lemma_path_first(p);
    assert(segments_ok(qp)) by {
        assert forall|i: int| 0 <= i < qp.len() implies (#[trigger] qp[i]).len() > 0 by {
            if i >= q.len() {
                assert(qp[i] == p[i - q.len()]);
            }
        }
    }
    assert(segments_ok(rs)) by {
        assert forall|i: int| 0 <= i < rs.len() implies (#[trigger] rs[i]).len() > 0 by {
            if i >= r.len() {
                assert(rs[i] == s[i - r.len()]);
            }
        }
    }
    assert(g(ftoks(true, p)).val == src(ftoks(true, p)).val);
    assert(registered(f, qp));
    if s.len() == 0 {
        lemma_hits_end(src, p, s);
    }
    lemma_hits_grown(g, src, p, s);
    lemma_hits_below(f, q, r, p, s);
    assert(hits(f, qp, rs));
    lemma_found(f, rs);
    let b = found(f, rs)->0;
    assert(wins(b, qp, rs));
    if b != qp {
        let i = choose|i: int| #[trigger] wins_at(b, qp, rs, i);
        assert(wins_at(b, qp, rs, i));
        if i < q.len() {
            assert(qp[i] == q[i]);
            assert(star()[0] == '*');
            assert(q[i].contains('*'));
        }
        let n = q.len() as int;
        assert(qp.take(i).take(n) =~= q);
        assert(b.take(i).take(n) =~= b.take(n));
        let b2 = b.skip(n);
        assert(b =~= q + b2);
        assert(segments_ok(b2)) by {
            assert forall|j: int| 0 <= j < b2.len() implies (#[trigger] b2[j]).len() > 0 by {
                assert(b2[j] == b[n + j]);
            }
        }
        lemma_path_toks(b2);
        lemma_toks_cat(q, b2);
        lemma_path_toks(b);
        lemma_path_first(b2);
        assert(g(ftoks(true, b2)).val == src(ftoks(true, b2)).val);
        assert(registered(src, b2));
        lemma_hits_grown(g, src, b2, s);
        lemma_hits_below(f, q, r, b2, s);
        assert(hits(src, b2, s));
        assert(wins(p, b2, s));
        assert(b2.take(i - n) =~= b.take(i).skip(n));
        assert(p.take(i - n) =~= qp.take(i).skip(n));
        assert(rs[i] == s[i - n]);
        assert(wins_at(b2, p, s, i - n));
        lemma_wins_anti(p, b2, s);
    }
}
//#endif

//@ghost
//#if C15
/// after mounting, the paths below the mount path are those of the mounted router
pub proof fn lemma_mounted_grows(old: Node, k: Seq<Tok>, src: Node, new: Node)
    requires
        mounted(old, k, src, new),
    ensures
        grows(know(new), k, know(src)),
{
    assert forall|t: Seq<Tok>| t.len() == 0 || t[0].0 implies #[trigger] after(know(new), k)(t).val == know(src)(t).val by {
        lemma_pre_cat(k, t);
        assert(sem(new, k + t) == mount(old, k, src, k + t));
    }
}

/// a request below the mount path gets what the mounted router has for the rest of it
pub proof fn lemma_mounted_answers(old: Node, q: Seq<Seq<char>>, src: Node, new: Node, r: Seq<Seq<char>>, s: Seq<Seq<char>>)
    requires
        node_ok(new),
        node_ok(src),
        mounted(old, toks(q), src, new),
        segments_ok(q),
        segments_ok(r),
        segments_ok(s),
        follows(q, r),
        found(know(src), s) is Some,
    ensures
        ({
            let p = found(know(src), s)->0;
            &&& found(know(new), r + s) == Some(q + p)
            &&& sem(new, toks(q + p)).val == sem(src, toks(p)).val
            &&& q.len() > 0 ==> chain(know(new), q + p) == chain(know(old), q.drop_last()) + chain(know(src), p)
            &&& forall|i: int, x: Seq<char>| #[trigger] named(p, s, i, x) ==> named(q + p, r + s, q.len() + i, x)
        }),
{
    let k = toks(q);
    let p = found(know(src), s)->0;
    lemma_path_toks(q);
    lemma_lawful(src);
    lemma_lawful(new);
    lemma_mounted_grows(old, k, src, new);
    lemma_mount_lookup(know(new), q, know(src), r, s);
    lemma_found(know(src), s);
    lemma_toks_cat(q, p);
    lemma_path_first(p);
    assert(after(know(new), k)(toks(p)).val == know(src)(toks(p)).val);
    if q.len() > 0 {
        let q1 = q.drop_last();
        lemma_kept_chain(old, q, src, new, q1);
        lemma_grown_chain(old, q, src, new, p);
    }
}

/// the places above the mount path keep their middlewares
pub proof fn lemma_kept_chain(old: Node, q: Seq<Seq<char>>, src: Node, new: Node, a: Seq<Seq<char>>)
    requires
        mounted(old, toks(q), src, new),
        segments_ok(q),
        a.len() < q.len(),
        a == q.take(a.len() as int),
    ensures
        chain(know(new), a) == chain(know(old), a),
    decreases a.len(),
{
    let t = toks(a);
    let rest = q.skip(a.len() as int);
    assert(q =~= a + rest);
    lemma_toks_cat(a, rest);
    lemma_pre_cat(t, toks(rest));
    assert(segments_ok(rest));
    lemma_toks_head(rest);
    assert(t.len() < toks(q).len());
    assert(sem(new, t) == mount(old, toks(q), src, t));
    if a.len() > 0 {
        assert(a.drop_last() =~= q.take(a.len() - 1));
        lemma_kept_chain(old, q, src, new, a.drop_last());
    } else {
        assert(t =~= Seq::<Tok>::empty());
    }
}

/// the places below have those of the mounted router
pub proof fn lemma_grown_chain(old: Node, q: Seq<Seq<char>>, src: Node, new: Node, p: Seq<Seq<char>>)
    requires
        mounted(old, toks(q), src, new),
        segments_ok(q),
        segments_ok(p),
        q.len() > 0,
        chain(know(new), q.drop_last()) == chain(know(old), q.drop_last()),
    ensures
        chain(know(new), q + p) == chain(know(old), q.drop_last()) + chain(know(src), p),
    decreases p.len(),
{
    lemma_mounted_grows(old, toks(q), src, new);
    lemma_toks_cat(q, p);
    lemma_path_first(p);
    assert(after(know(new), toks(q))(toks(p)).val == know(src)(toks(p)).val);
    if p.len() > 0 {
        let p1 = p.drop_last();
        assert((q + p).drop_last() =~= q + p1);
        assert(segments_ok(p1));
        lemma_grown_chain(old, q, src, new, p1);
        assert(chain(know(old), q.drop_last()) + chain(know(src), p1) + mws(know(src)(toks(p)).val) =~= chain(know(old), q.drop_last()) + chain(know(src), p));
    } else {
        assert(q + p =~= q);
        assert(toks(p) =~= Seq::<Tok>::empty());
        assert(toks(q) + toks(p) =~= toks(q));
    }
}

/// what was registered elsewhere stays
pub proof fn lemma_mount_others(old: Node, k: Seq<Tok>, src: Node, new: Node, t: Seq<Tok>)
    requires
        mounted(old, k, src, new),
        !(pre(k, t) && (t.len() == k.len() || t[k.len() as int].0)),
    ensures
        sem(new, t).val == sem(old, t).val,
{
    assert(sem(new, t) == mount(old, k, src, t));
    if pre(k, t) {
        assert(t.skip(k.len() as int)[0] == t[k.len() as int]);
    }
}
//#endif
