// What the custom properties part looks like.
pub type Pair = (Seq<char>, Seq<char>);
pub uninterp spec fn escaped(s: Seq<char>) -> String;
pub uninterp spec fn pid(i: usize) -> Seq<char>;
/// Names and values held.
pub uninterp spec fn held(h: HashMap<String, String>) -> Map<Seq<char>, Seq<char>>;
/// The same in the order in which they are written.
pub uninterp spec fn entries(m: Map<Seq<char>, Seq<char>>) -> Seq<Pair>;
// TRUSTED: a hash map iterated, collected and sorted gives each of its entries once.
pub axiom fn listed(h: HashMap<String, String>)
    ensures ({ let m = held(h); let e = entries(m);
        &&& forall |i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0 != (#[trigger] e[j]).0
        &&& forall |i: int| 0 <= i < e.len() ==> m.contains_key((#[trigger] e[i]).0) && m[e[i].0] == e[i].1
        &&& forall |k: Seq<char>| #[trigger] m.contains_key(k) ==> exists |i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k });
pub open spec fn prop_at(i: usize, k: Seq<char>) -> Seq<At> { ats(ats(ats(Seq::empty(), "fmtid"@, "{D5CDD505-2E9C-101B-9397-08002B2CF9AE}"@), "pid"@, pid(i)), "name"@, escaped(k)@) }
pub open spec fn prop_el(i: usize, k: Seq<char>) -> El { El { n: "property"@, a: prop_at(i, k) } }
pub open spec fn str_el() -> El { El { n: "lpwstr"@, a: Seq::empty() } }
pub open spec fn put_prop(i: usize, e: Pair, log: Seq<Tok>) -> Seq<Tok> {
    log.push(Tok::Open(prop_el(i, e.0))).push(Tok::Open(str_el())).push(Tok::Chars(seen(escaped(e.1)@))).push(Tok::Close("lpwstr"@)).push(Tok::Close("property"@))
}
/// All properties, the first with this number.
pub open spec fn put_props(e: Seq<Pair>, i: usize, log: Seq<Tok>) -> Seq<Tok> decreases e.len()
{ if e.len() == 0 { log } else { put_props(e.skip(1), (i + 1) as usize, put_prop(i, e[0], log)) } }
pub uninterp spec fn part_at() -> Seq<At>;
pub open spec fn part(m: Map<Seq<char>, Seq<char>>, log: Seq<Tok>, a: Seq<At>) -> Seq<Tok> {
    put_props(entries(m), 0, log.push(Tok::Open(El { n: "Properties"@, a }))).push(Tok::Close("Properties"@))
}
