//@include prelude.rs
verus! {
//@gsub `std::fmt::Result` => `fmt::Result`
//@gsub `&mut Formatter` => `&mut fmt::Formatter`
//@gsub `crate::` => ``
//@gsub `.extend(inner)` => `.vx_extend(inner)`
//@gsub `.trim().to_string()` => `.vx_trim()`
//@gsub `.push_str(&` => `.vx_push(&`
//@gsub `.clone()` => `.vx_clone()`
//@gsub `.to_string()` => `.vx_string()`
//@gsub `.write_char(` => `.vx_char(`
//@fmt write
// TRUSTED: format! appends literal pieces and the Display text of its arguments; `format!(..)` and `write!(..)` are read as these calls.
#[verifier::external_body]
pub struct VxFmt { s: String }
impl VxFmt {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn lit(self, t: &str) -> (r: Self) ensures r@ == self@ + t@ { unimplemented!() }
    #[verifier::external_body] pub fn show<X: VxShow + ?Sized>(self, t: &X) -> (r: Self) ensures r@ == self@ + t.shown() { unimplemented!() }
    #[verifier::external_body] pub fn done(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body] pub fn vx_fmt(t: &str) -> (r: VxFmt) ensures r@ == t@ { unimplemented!() }
pub trait VxShow { spec fn shown(&self) -> Seq<char>; }
impl<T: VxShow + ?Sized> VxShow for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
impl VxShow for String { open spec fn shown(&self) -> Seq<char> { self@ } }
// TRUSTED: String clone, push_str, str::trim, to_string, Vec::extend.
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
pub trait VxText { spec fn chars(&self) -> Seq<char>; fn vx_trim(&self) -> (r: String) ensures r@ == trimmed(self.chars()); fn vx_string(&self) -> (r: String) ensures r@ == self.chars(); }
impl VxText for String { open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_trim(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_string(&self) -> (r: String) { unimplemented!() } }
impl VxText for str { open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_trim(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_string(&self) -> (r: String) { unimplemented!() } }
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub trait VxPush { fn vx_push(&mut self, t: &str); }
impl VxPush for String { #[verifier::external_body] fn vx_push(&mut self, t: &str) ensures final(self)@ == old(self)@ + t@ { unimplemented!() } }
pub trait VxExtend<T> { fn vx_extend(&mut self, v: Vec<T>); }
impl<T> VxExtend<T> for Vec<T> { #[verifier::external_body] fn vx_extend(&mut self, v: Vec<T>) ensures final(self)@ == old(self)@ + v@ { unimplemented!() } }
impl fmt::Formatter {
    #[verifier::external_body] pub fn vx_write(&mut self, t: String) -> (r: fmt::Result) ensures r is Ok, final(self).out() == old(self).out() + t@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_char(&mut self, c: char) -> (r: fmt::Result) ensures r is Ok, final(self).out() == old(self).out().push(c) { unimplemented!() }
}
//@item reader/xml_parser.rs::OwnedName
//@item reader/xml_parser.rs::OwnedAttribute
//@item reader/xml_parser.rs::Namespace
//@item reader/xml_parser.rs::XmlEvent
//@item XmlData
//@item XmlDocument
//@item ParseXmlError

// ---- what an XML parser sees
pub struct X { pub name: Seq<char>, pub attrs: Seq<(Seq<char>, Seq<char>)>, pub data: Option<Seq<char>>, pub kids: Seq<X> }
pub open spec fn qname(n: OwnedName) -> Seq<char> {
    match n.prefix { Some(p) => if n.local_name@.len() == 0 { p@ } else { p@ + ":"@ + n.local_name@ }, None => n.local_name@ }
}
pub open spec fn av(a: Seq<OwnedAttribute>) -> Seq<(Seq<char>, Seq<char>)> { a.map_values(|x: OwnedAttribute| (qname(x.name), x.value@)) }
pub open spec fn pv(a: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)> { a.map_values(|x: (String, String)| (x.0@, x.1@)) }
pub open spec fn dv(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn xv(d: XmlData) -> X decreases d { X { name: d.name@, attrs: pv(d.attributes@), data: dv(d.data), kids: xs(d.children@) } }
pub open spec fn xs(v: Seq<XmlData>) -> Seq<X> decreases v { Seq::new(v.len(), |i: int| if 0 <= i < v.len() { xv(v[i]) } else { arbitrary() }) }
/// One event applied to the stack of open elements, the document at the bottom.
pub open spec fn step(st: Seq<X>, e: XmlEvent, trim: bool) -> Option<Seq<X>> {
    let top = st.last();
    match e {
        XmlEvent::StartElement { name, attributes, .. } => Some(st.push(X { name: qname(name), attrs: av(attributes@), data: None, kids: Seq::empty() })),
        XmlEvent::Characters(t) => if st.len() < 2 { None } else { Some(st.drop_last().push(X { data: Some(match top.data { Some(d) => d + t@, None => t@ }), ..top })) },
        XmlEvent::Whitespace(t) => Some(if st.len() < 2 || top.data is None { st } else { st.drop_last().push(X { data: Some(top.data->Some_0 + t@), ..top }) }),
        XmlEvent::EndElement { name } => if st.len() < 2 || top.name != qname(name) { None } else { Some(add(st.drop_last(), seq![ended(top, trim)])) },
        XmlEvent::EndDocument => Some(st),
    }
}
pub open spec fn ended(x: X, trim: bool) -> X { match x.data { Some(d) => X { data: Some(if trim { trimmed(d) } else { d }), ..x }, None => x } }
pub open spec fn add(st: Seq<X>, v: Seq<X>) -> Seq<X> { st.drop_last().push(X { kids: st.last().kids + v, ..st.last() }) }
/// The events are in the order in which they are popped: last first.
pub open spec fn run(st: Seq<X>, d: Seq<XmlEvent>, trim: bool) -> Option<Seq<X>> decreases d.len() {
    if d.len() == 0 { Some(st) } else { match step(st, d.last(), trim) { Some(s) => run(s, d.drop_last(), trim), None => None } }
}
pub open spec fn top(st: Seq<X>, c: Option<XmlData>, v: Seq<XmlData>) -> Seq<X> { match c { Some(c) => st.push(xv(c)), None => add(st, xs(v)) } }
pub open spec fn fits(st: Seq<X>, c: Option<XmlData>) -> bool { if c is Some { st.len() >= 1 } else { st.len() == 1 } }
pub open spec fn open_or_bad(r: Option<Seq<X>>, n: nat) -> bool { match r { Some(s) => s.len() > n, None => true } }
proof fn lemma_adds()
    ensures forall |a: Seq<XmlData>, b: Seq<XmlData>| #[trigger] xs(a + b) == xs(a) + xs(b),
        forall |st: Seq<X>, a: Seq<X>, b: Seq<X>| st.len() > 0 ==> #[trigger] add(add(st, a), b) == add(st, a + b),
        forall |st: Seq<X>, x: X, b: Seq<X>| #[trigger] add(st.push(x), b) == st.push(X { kids: x.kids + b, ..x }),
        forall |st: Seq<X>, x: X| #[trigger] st.push(x).drop_last() == st,
        forall |v: Seq<XmlData>, x: XmlData| #[trigger] xs(v.push(x)) == xs(v).push(xv(x)),
        forall |x: X| #[trigger] Seq::<X>::empty().push(x) == seq![x],
        xs(Seq::empty()) == Seq::<X>::empty(), forall |s: Seq<char>| #[trigger] (""@ + s) == s,
{
    reveal_strlit("");
    assert forall |st: Seq<X>, x: X| #[trigger] st.push(x).drop_last() == st by { assert(st.push(x).drop_last() =~= st); }
    assert forall |v: Seq<XmlData>, x: XmlData| #[trigger] xs(v.push(x)) == xs(v).push(xv(x)) by { assert(xs(v.push(x)) =~= xs(v).push(xv(x))); }
    assert forall |s: Seq<char>| #[trigger] (""@ + s) == s by { assert(""@ + s =~= s); }
    assert forall |a: Seq<XmlData>, b: Seq<XmlData>| #[trigger] xs(a + b) == xs(a) + xs(b) by { assert(xs(a + b) =~= xs(a) + xs(b)); }
    assert forall |st: Seq<X>, a: Seq<X>, b: Seq<X>| st.len() > 0 implies #[trigger] add(add(st, a), b) == add(st, a + b) by { assert(add(add(st, a), b) =~= add(st, a + b)) by { assert(st.last().kids + a + b =~= st.last().kids + (a + b)); } }
    assert forall |st: Seq<X>, x: X, b: Seq<X>| #[trigger] add(st.push(x), b) == st.push(X { kids: x.kids + b, ..x }) by { assert(add(st.push(x), b) =~= st.push(X { kids: x.kids + b, ..x })); }
    assert(xs(Seq::empty()) =~= Seq::<X>::empty());
}
// TRUSTED: into_iter().map(f).collect() applies f to every element in order.
#[verifier::external_body]
pub fn vx_map_all<A, B, F: Fn(A) -> B>(v: Vec<A>, f: F) -> (r: Vec<B>)
    requires forall |a: A| #[trigger] f.requires((a,))
    ensures r@.len() == v@.len(), forall |i: int| 0 <= i < v@.len() ==> f.ensures((v@[i],), #[trigger] r@[i])
{ unimplemented!() }
//@fn xml_json/mod.rs::map_owned_attributes
//@| ensures pv(r@) == av(attrs@),
//@sub `attrs~~.into_iter()~~.map(` => `let vx_o = vx_map_all(attrs, `
//@sub `})~~.collect()` => `}); assert(pv(vx_o@) =~= av(attrs@)); vx_o`
//@closure 0
//@|  -> (o: (String, String)) ensures o.0@ == qname(attr.name), o.1 == attr.value
//@at start
//@| proof { lemma_adds(); }
//@end
// TRUSTED: EventReader gives every element the empty namespace (Namespace::empty() in build_start_event), so all are equal.
#[verifier::external_body]
pub fn vx_same(a: &Namespace, b: &Namespace) -> (r: bool) ensures r { unimplemented!() }
#[verifier::external_body]
pub fn vx_declared(a: Vec<OwnedAttribute>, n: &Namespace) -> (r: Vec<OwnedAttribute>) { unimplemented!() }
//@fn xml_json/mod.rs::parse
//@| requires current is Some ==> current_vec@.len() == 0,
//@| ensures
//@|   r matches Ok(o) ==> o.1@.len() <= data@.len() && (current is Some ==> o.0@.len() == 1) && (current is None ==> o.1@.len() == 0)
//@|     && forall |st: Seq<X>| fits(st, current) ==> #[trigger] run(top(st, current, current_vec@), data@, trim) == run(top(st, None, o.0@), o.1@, trim),
//@|   r is Err ==> forall |st: Seq<X>| fits(st, current) ==> open_or_bad(#[trigger] run(top(st, current, current_vec@), data@, trim), st.len()),
//@| decreases data@.len(),
//@sub `let mut attributes = attributes;~~let n = namespace.clone();~~let ns = n~~.into_iter()~~.filter(|(_k, v)| {~~(!v.is_empty())~~&& (v != "http://www.w3.org/2000/xmlns/")~~&& (v != "http://www.w3.org/XML/1998/namespace")~~})~~.map(|(k, v)| OwnedAttribute {~~name: OwnedName {~~local_name: k.to_string(),~~namespace: if v.is_empty() {~~None~~} else {~~Some(v.to_string())~~},~~prefix: Some("xmlns".to_string()),~~},~~value: v.to_string(),~~});~~attributes.extend(ns);~~attributes` => `vx_declared(attributes, &namespace)`
//@sub `namespace == current_namespace` => `vx_same(&namespace, &current_namespace)`
//@attr
//@|  #[verifier::loop_isolation(false)]
//@|  #[verifier::allow_complex_invariants]
//@closure 2
//@|  -> (vx_t: String) ensures vx_t@ == trimmed(text@)
//@loop 0
//@|  invariant current is Some <==> current0 is Some, current is Some ==> current_vec@.len() == 0, data@.len() <= data0.len(),
//@|   forall |st: Seq<X>| fits(st, current0) ==> #[trigger] run(top(st, current0, current_vec0), data0, trim) == run(top(st, current, current_vec@), data@, trim)
//@|  ensures data@.len() == 0
//@|  decreases data@.len()
//@loopstart 0
//@|  let ghost vx_c = current; let ghost vx_v = current_vec@; let ghost vx_e = elmt; let ghost vx_d = data@.push(elmt);
//@|  assert(vx_d.drop_last() =~= data@);
//@|  proof { lemma_adds(); }
//@loopend 0
//@|  assert forall |st: Seq<X>| fits(st, current0) implies #[trigger] run(top(st, current0, current_vec0), data0, trim) == run(top(st, current, current_vec@), data@, trim) by {
//@|    let s0 = top(st, vx_c, vx_v);
//@|    assert(run(top(st, current0, current_vec0), data0, trim) == run(s0, vx_d, trim));
//@|    match vx_e {
//@|      XmlEvent::Characters(t) => { assert(step(s0, vx_e, trim)->Some_0 =~= top(st, current, current_vec@)); }
//@|      XmlEvent::Whitespace(t) => { assert(step(s0, vx_e, trim)->Some_0 =~= top(st, current, current_vec@)); }
//@|      XmlEvent::StartElement { name, attributes, .. } => { assert(step(s0, vx_e, trim)->Some_0 =~= s0.push(vx_new)); 
//@|          if let Some(c) = current { let b = vx_c->Some_0; assert(c.children@ == b.children@ + vx_in); assert(xv(c).kids == xs(c.children@)); assert(xv(b).kids == xs(b.children@)); }
//@|          assert(current matches Some(c) ==> xv(c) == (X { kids: xv(vx_c->Some_0).kids + xs(vx_in), ..xv(vx_c->Some_0) })); assert(current is None ==> current_vec@ == vx_v + vx_in); assert(top(st, current, current_vec@) =~= add(s0, xs(vx_in))); }
//@|      _ => {}
//@|    }
//@|  }
//@at start
//@| let ghost current0 = current; let ghost current_vec0 = current_vec@; let ghost data0 = data@;
//@| let ghost mut vx_new: X = arbitrary(); let ghost mut vx_in: Seq<XmlData> = Seq::empty();
//@before `let (inner, rest) =`
//@| let ghost vx_i = inner; let ghost vx_j = data@;
//@| assert forall |st: Seq<X>| fits(st, current0) implies #[trigger] run(top(st, current0, current_vec0), data0, trim) == run(top(top(st, vx_c, vx_v), Some(vx_i), Seq::<XmlData>::empty()), vx_j, trim) by {
//@|   let s0 = top(st, vx_c, vx_v);
//@|   assert(run(top(st, current0, current_vec0), data0, trim) == run(s0, vx_d, trim));
//@|   assert(step(s0, vx_e, trim)->Some_0 =~= s0.push(xv(vx_i)));
//@| }
//@before `current_vec.push(crnt)`
//@| assert(current_vec@ == Seq::<XmlData>::empty());
//@| assert(xv(crnt) == ended(xv(vx_c->Some_0), trim));
//@before `data = rest;`
//@| proof { vx_in = inner@; vx_new = xv(vx_i);
//@|   assert forall |s: Seq<X>| s.len() >= 1 implies #[trigger] run(s.push(xv(vx_i)), vx_j, trim) == run(add(s, xs(inner@)), rest@, trim) by { assert(top(s, Some(vx_i), Seq::<XmlData>::empty()) == s.push(xv(vx_i))); } }
//@end

// ---- printing
/// What `escape` makes of a text; the escape unit proves that an XML parser reads it back as the text.
pub uninterp spec fn esc(s: Seq<char>) -> Seq<char>;
//@fn escape/mod.rs::escape ext
//@| ensures r@ == esc(text@),
//@end
pub open spec fn pattr(a: (Seq<char>, Seq<char>)) -> Seq<char> { " "@ + a.0 + "=\""@ + esc(a.1) + "\""@ }
pub open spec fn pattrs(a: Seq<(Seq<char>, Seq<char>)>) -> Seq<char> decreases a.len() { if a.len() == 0 { Seq::empty() } else { pattrs(a.drop_last()) + pattr(a.last()) } }
pub open spec fn ptext(d: Option<Seq<char>>) -> Seq<char> { match d { Some(t) => esc(t), None => Seq::empty() } }
pub open spec fn px(d: XmlData) -> Seq<char> decreases d, 1nat {
    "<"@ + d.name@ + pattrs(pv(d.attributes@)) + seq!['>'] + ptext(dv(d.data)) + pxs(d.children@, d.children@.len()) + "</"@ + d.name@ + ">"@
}
pub open spec fn pxs(v: Seq<XmlData>, n: nat) -> Seq<char> decreases v, n {
    if n == 0 || n > v.len() { Seq::empty() } else { pxs(v, (n - 1) as nat) + px(v[n - 1]) }
}
proof fn lemma_assoc()
    ensures forall |a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] (a + (b + c)) == a + b + c, forall |a: Seq<char>, c: char| #[trigger] a.push(c) == a + seq![c],
        forall |a: Seq<char>| #[trigger] (a + Seq::<char>::empty()) == a,
{
    assert forall |a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] (a + (b + c)) == a + b + c by { assert(a + (b + c) =~= a + b + c); }
    assert forall |a: Seq<char>, c: char| #[trigger] a.push(c) == a + seq![c] by { assert(a.push(c) =~= a + seq![c]); }
    assert forall |a: Seq<char>| #[trigger] (a + Seq::<char>::empty()) == a by { assert(a + Seq::<char>::empty() =~= a); }
}
// ASSUMED: elements are nested less deeply than usize::MAX.
#[verifier::external_body] pub fn vx_deeper(n: usize) -> usize { n + 1 }
//@fn XmlData::format
//@| ensures r is Ok, final(f).out() == old(f).out() + px(*self),
//@| decreases *self,
//@sub `_depth + 1` => `vx_deeper(_depth)`
//@loop 0 iter=it
//@| invariant f.out() == vx_o + "<"@ + self.name@ + pattrs(pv(self.attributes@).take(it.index@))
//@loop 1 iter=it
//@| invariant f.out() == vx_o + "<"@ + self.name@ + pattrs(pv(self.attributes@)) + seq!['>'] + ptext(dv(self.data)) + pxs(self.children@, it.index@ as nat)
//@loopend 0
//@| proof { let a = pv(self.attributes@); assert(a.take(it.index@ + 1).drop_last() =~= a.take(it.index@)); assert(a.take(it.index@ + 1).last() == (self.attributes@[it.index@].0@, self.attributes@[it.index@].1@)); }
//@afterloop 0
//@| proof { reveal_strlit(">"); assert(">"@ =~= seq!['>']); assert(pv(self.attributes@).take(self.attributes@.len() as int) =~= pv(self.attributes@)); }
//@at start
//@| let ghost vx_o = f.out();
//@| proof { lemma_assoc(); }
//@end
//@fn <XmlData as Display>::fmt
//@| ensures r is Ok, final(f).out() == old(f).out() + px(*self),
//@end
//@fn <XmlDocument as Display>::fmt
//@| ensures r is Ok, final(f).out() == old(f).out() + pxs(self.data@, self.data@.len()),
//@loop 0 iter=it
//@| invariant f.out() == vx_o + pxs(self.data@, it.index@ as nat)
//@at start
//@| let ghost vx_o = f.out();
//@| proof { lemma_assoc(); }
//@end
// TRUSTED: the XML events of a text, in order, or an error (quick_xml through EventReader).
pub uninterp spec fn events(s: Seq<char>) -> Option<Seq<XmlEvent>>;
#[verifier::external_body]
pub fn vx_events(s: &str) -> (r: Result<Vec<XmlEvent>, ParseXmlError>) ensures r is Ok == events(s@) is Some, r matches Ok(v) ==> Some(v@) == events(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_reverse(v: &mut Vec<XmlEvent>) ensures final(v)@ == old(v)@.reverse() { unimplemented!() }
pub open spec fn root() -> Seq<X> { seq![X { name: Seq::empty(), attrs: Seq::empty(), data: None, kids: Seq::empty() }] }
/// The elements that the events describe, if every element is closed by its own end.
pub open spec fn tree(e: Seq<XmlEvent>, trim: bool) -> Option<Seq<X>> {
    match run(root(), e.reverse(), trim) { Some(s) => if s.len() == 1 { Some(s[0].kids) } else { None }, None => None }
}
//@fn XmlDocument::from_reader
//@| ensures r is Ok == (events(source@) matches Some(e) && tree(e, trim) is Some), r matches Ok(d) ==> tree(events(source@)->Some_0, trim) == Some(xs(d.data@)),
//@sub `pub fn from_reader<R>(source: R, trim: bool)` => `pub fn from_reader(source: &str, trim: bool)`
//@sub `where~~R: Read,` => ``
//@sub `let parser = EventReader::new(source);` => ``
//@sub `parser~~.into_iter()~~.collect::<Result<_, _>>()~~.map_err(|e| ParseXmlError(e.to_string()))?` => `vx_events(source)?`
//@sub `events.reverse()` => `vx_reverse(&mut events)`
//@sub `parse(events, None, Vec::new(), trim, Namespace::empty())~~.map(|(data, _)| XmlDocument { data })~~.map_err(ParseXmlError)` => `match parse(events, None, Vec::new(), trim, Namespace::empty()) { Ok((data, _)) => Ok(XmlDocument { data }), Err(e) => Err(ParseXmlError(e)) }`
//@at start
//@| proof {
//@|   lemma_adds();
//@|   assert(root()[0].kids + xs(Seq::<XmlData>::empty()) =~= root()[0].kids);
//@|   assert(top(root(), None::<XmlData>, Seq::<XmlData>::empty()) =~= root());
//@|   assert forall |v: Seq<XmlData>| (#[trigger] top(root(), None::<XmlData>, v)).len() == 1 && top(root(), None::<XmlData>, v)[0].kids == xs(v) by { assert(top(root(), None::<XmlData>, v)[0].kids =~= xs(v)); }
//@| }
//@end

// ---- what an XML parser sees in the printed text: tags, attributes and character data, references still undecoded
pub enum E { Open(Seq<char>, Seq<(Seq<char>, Seq<char>)>), Text(Seq<char>), Close(Seq<char>) }
pub enum Mode { Text, Lt, Name, Key, Eq, Val, After, End, Bad }
pub struct L { pub mode: Mode, pub out: Seq<E>, pub name: Seq<char>, pub attrs: Seq<(Seq<char>, Seq<char>)>, pub key: Seq<char>, pub buf: Seq<char> }
pub open spec fn seen(l: L) -> Seq<E> { if l.buf.len() > 0 { l.out.push(E::Text(l.buf)) } else { l.out } }
pub open spec fn lex1(l: L, c: char) -> L {
    match l.mode {
        Mode::Text => if c == '<' { L { mode: Mode::Lt, out: seen(l), buf: Seq::empty(), ..l } } else { L { buf: l.buf.push(c), ..l } },
        Mode::Lt => if c == '/' { L { mode: Mode::End, name: Seq::empty(), ..l } } else { L { mode: Mode::Name, name: seq![c], attrs: Seq::empty(), ..l } },
        Mode::Name => if c == ' ' { L { mode: Mode::Key, key: Seq::empty(), ..l } } else if c == '>' { opened(l) } else { L { name: l.name.push(c), ..l } },
        Mode::Key => if c == '=' { L { mode: Mode::Eq, ..l } } else { L { key: l.key.push(c), ..l } },
        Mode::Eq => if c == '"' { L { mode: Mode::Val, buf: Seq::empty(), ..l } } else { L { mode: Mode::Bad, ..l } },
        Mode::Val => if c == '"' { L { mode: Mode::After, attrs: l.attrs.push((l.key, l.buf)), buf: Seq::empty(), ..l } } else { L { buf: l.buf.push(c), ..l } },
        Mode::After => if c == ' ' { L { mode: Mode::Key, key: Seq::empty(), ..l } } else if c == '>' { opened(l) } else { L { mode: Mode::Bad, ..l } },
        Mode::End => if c == '>' { L { mode: Mode::Text, out: l.out.push(E::Close(l.name)), ..l } } else { L { name: l.name.push(c), ..l } },
        Mode::Bad => l,
    }
}
pub open spec fn opened(l: L) -> L { L { mode: Mode::Text, out: l.out.push(E::Open(l.name, l.attrs)), buf: Seq::empty(), ..l } }
pub open spec fn lex(l: L, s: Seq<char>) -> L decreases s.len() { if s.len() == 0 { l } else { lex1(lex(l, s.drop_last()), s.last()) } }
proof fn lemma_lex(l: L, a: Seq<char>, b: Seq<char>)
    ensures lex(l, a + b) == lex(lex(l, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_lex(l, a, b.drop_last()); }
}
pub open spec fn lacks(s: Seq<char>, c: char) -> bool { forall |i: int| 0 <= i < s.len() ==> s[i] != c }
// The escape unit proves that `escape` leaves none of these characters.
pub broadcast axiom fn esc_clean(s: Seq<char>) ensures lacks(#[trigger] esc(s), '<'), lacks(esc(s), '"');
proof fn lemma_run(l: L, s: Seq<char>)
    ensures l.mode is Text && lacks(s, '<') ==> lex(l, s) == (L { buf: l.buf + s, ..l }),
        l.mode is Val && lacks(s, '"') ==> lex(l, s) == (L { buf: l.buf + s, ..l }),
        l.mode is Key && lacks(s, '=') ==> lex(l, s) == (L { key: l.key + s, ..l }),
        l.mode is Name && lacks(s, ' ') && lacks(s, '>') ==> lex(l, s) == (L { name: l.name + s, ..l }),
        l.mode is End && lacks(s, '>') ==> lex(l, s) == (L { name: l.name + s, ..l }),
    decreases s.len()
{
    if s.len() == 0 { assert(l.buf + s =~= l.buf); assert(l.key + s =~= l.key); assert(l.name + s =~= l.name); }
    else {
        let d = s.drop_last();
        lemma_run(l, d);
        assert(forall |c: char| lacks(s, c) ==> lacks(d, c));
        assert((l.buf + d).push(s.last()) =~= l.buf + s); assert((l.key + d).push(s.last()) =~= l.key + s); assert((l.name + d).push(s.last()) =~= l.name + s);
    }
}
/// Names as XML allows them, as far as this lexer cares.
pub open spec fn named(n: Seq<char>) -> bool { n.len() > 0 && n[0] != '/' && lacks(n, ' ') && lacks(n, '>') }
pub open spec fn keyed(a: Seq<(Seq<char>, Seq<char>)>) -> bool { forall |i: int| 0 <= i < a.len() ==> lacks((#[trigger] a[i]).0, '=') }
pub open spec fn legal(d: XmlData) -> bool decreases d { named(d.name@) && keyed(pv(d.attributes@)) && forall |i: int| 0 <= i < d.children@.len() ==> legal(#[trigger] d.children@[i]) }
pub open spec fn escs(a: Seq<(Seq<char>, Seq<char>)>) -> Seq<(Seq<char>, Seq<char>)> { a.map_values(|x: (Seq<char>, Seq<char>)| (x.0, esc(x.1))) }
/// The element as a parser reports it: its tag and attributes, its text, its children in order, its end.
pub open spec fn flat(d: XmlData) -> Seq<E> decreases d, 1nat {
    seq![E::Open(d.name@, escs(pv(d.attributes@)))] + (if ptext(dv(d.data)).len() > 0 { seq![E::Text(ptext(dv(d.data)))] } else { Seq::empty() })
        + flats(d.children@, d.children@.len()) + seq![E::Close(d.name@)]
}
pub open spec fn flats(v: Seq<XmlData>, n: nat) -> Seq<E> decreases v, n { if n == 0 || n > v.len() { Seq::empty() } else { flats(v, (n - 1) as nat) + flat(v[n - 1]) } }
proof fn lemma_lits()
    ensures "<"@ == seq!['<'], ">"@ == seq!['>'], "</"@ == seq!['<', '/'], " "@ == seq![' '], "\""@ == seq!['"'], "=\""@ == seq!['=', '"']
{
    reveal_strlit("<"); reveal_strlit(">"); reveal_strlit("</"); reveal_strlit(" "); reveal_strlit("\""); reveal_strlit("=\"");
    assert("<"@ =~= seq!['<']); assert(">"@ =~= seq!['>']); assert("</"@ =~= seq!['<', '/']); assert(" "@ =~= seq![' ']); assert("\""@ =~= seq!['"']); assert("=\""@ =~= seq!['=', '"']);
}
proof fn lemma_one(l: L, c: char) ensures lex(l, seq![c]) == lex1(l, c)
{ assert(seq![c].drop_last() =~= Seq::<char>::empty()); assert(lex(l, Seq::<char>::empty()) == l); }
proof fn lemma_two(l: L, c: char, d: char) ensures lex(l, seq![c, d]) == lex1(lex1(l, c), d)
{ assert(seq![c, d] =~= seq![c] + seq![d]); lemma_lex(l, seq![c], seq![d]); lemma_one(l, c); lemma_one(lex1(l, c), d); }
proof fn lemma_attrs(l: L, a: Seq<(Seq<char>, Seq<char>)>)
    requires l.mode is Name, l.buf.len() == 0, l.attrs.len() == 0, keyed(a)
    ensures ({ let r = lex(l, pattrs(a)); r.out == l.out && r.name == l.name && r.buf.len() == 0 && r.attrs == escs(a) && (r.mode is After || r.mode is Name) })
    decreases a.len()
{
    if a.len() == 0 { assert(escs(a) =~= l.attrs); }
    else {
        broadcast use esc_clean;
        let b = a.drop_last(); let x = a.last();
        assert forall |i: int| 0 <= i < b.len() implies lacks((#[trigger] b[i]).0, '=') by { assert(b[i] == a[i]); }
        lemma_attrs(l, b); lemma_lits();
        let r = lex(l, pattrs(b));
        let p = pattr(x);
        lemma_lex(l, pattrs(b), p);
        lemma_lex(r, " "@ + x.0 + "=\""@ + esc(x.1), "\""@);
        lemma_lex(r, " "@ + x.0 + "=\""@, esc(x.1));
        lemma_lex(r, " "@ + x.0, "=\""@);
        lemma_lex(r, " "@, x.0);
        lemma_one(r, ' ');
        let r1 = lex1(r, ' ');
        lemma_run(r1, x.0);
        let r2 = lex(r1, x.0);
        assert(r2.key =~= x.0);
        lemma_two(r2, '=', '"');
        let r3 = lex(r2, "=\""@);
        lemma_run(r3, esc(x.1));
        let r4 = lex(r3, esc(x.1));
        assert(r4.buf =~= esc(x.1));
        lemma_one(r4, '"');
        assert(escs(a) =~= escs(b).push((x.0, esc(x.1))));
    }
}
proof fn lemma_kids(l: L, v: Seq<XmlData>, n: nat)
    requires l.mode is Text, n <= v.len(), forall |i: int| 0 <= i < v.len() ==> legal(#[trigger] v[i])
    ensures ({ let r = lex(l, pxs(v, n)); r.mode is Text && seen(r) == seen(l) + flats(v, n) })
    decreases v, n
{
    if n == 0 { assert(seen(l) + flats(v, n) =~= seen(l)); }
    else {
        lemma_kids(l, v, (n - 1) as nat);
        lemma_lex(l, pxs(v, (n - 1) as nat), px(v[n - 1]));
        theorem(lex(l, pxs(v, (n - 1) as nat)), v[n - 1]);
        assert(seen(l) + flats(v, (n - 1) as nat) + flat(v[n - 1]) =~= seen(l) + flats(v, n));
    }
}
/// In the printed text a parser sees the element: same name, attributes and text (escaped), children in order, nothing else.
proof fn theorem(l: L, d: XmlData)
    requires l.mode is Text, legal(d)
    ensures ({ let r = lex(l, px(d)); r.mode is Text && r.buf.len() == 0 && seen(r) == seen(l) + flat(d) })
    decreases d, 1nat
{
    broadcast use esc_clean;
    lemma_lits();
    let n = d.name@; let a = pattrs(pv(d.attributes@)); let t = ptext(dv(d.data)); let k = pxs(d.children@, d.children@.len());
    let n1 = seq![n[0]]; let n2 = n.skip(1);
    assert(n =~= n1 + n2);
    lemma_lex(l, "<"@ + n + a + seq!['>'] + t + k + "</"@ + n, ">"@);
    lemma_lex(l, "<"@ + n + a + seq!['>'] + t + k + "</"@, n);
    lemma_lex(l, "<"@ + n + a + seq!['>'] + t + k, "</"@);
    lemma_lex(l, "<"@ + n + a + seq!['>'] + t, k);
    lemma_lex(l, "<"@ + n + a + seq!['>'], t);
    lemma_lex(l, "<"@ + n + a, seq!['>']);
    lemma_lex(l, "<"@ + n, a);
    lemma_lex(l, "<"@, n);
    lemma_one(l, '<');
    let r1 = lex(l, "<"@);
    lemma_lex(r1, n1, n2); lemma_one(r1, n[0]);
    let r2 = lex(r1, n1);
    lemma_run(r2, n2);
    let r3 = lex(r2, n2);
    assert(r3.name =~= n);
    lemma_attrs(r3, pv(d.attributes@));
    let r4 = lex(r3, a);
    lemma_one(r4, '>');
    let r5 = lex1(r4, '>');
    assert(r5.out =~= seen(l).push(E::Open(n, escs(pv(d.attributes@)))));
    assert(lacks(t, '<'));
    lemma_run(r5, t);
    let r6 = lex(r5, t);
    assert(r6.buf =~= t);
    lemma_kids(r6, d.children@, d.children@.len());
    let r7 = lex(r6, k);
    lemma_two(r7, '<', '/');
    let r8 = lex(r7, "</"@);
    lemma_run(r8, n);
    let r9 = lex(r8, n);
    assert(r9.name =~= n);
    lemma_one(r9, '>');
    let r = lex(l, px(d));
    assert(r == lex1(r9, '>'));
    assert(seen(r) =~= seen(l) + flat(d));
}
pub mod vx_unused { pub struct StartElement; }
//@auto except=<*,StartElement*,EventWriter*,XMLBuilder*,EventReader*
fn main(){}
proof fn vx_probe() ensures false {}
}
