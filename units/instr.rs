//@include prelude.rs
verus! {
//@gsub `crate::xml::writer::Result<` => `XResult<`
//@gsub `crate::xml::writer::EventWriter<W>` => `EventWriter`
//@gsub `build_to<W: Write>` => `build_to`
//@gsub `crate::` => ``
//@gsub `impl Into<String>` => `impl VxInto`
//@gsub `usize::from_str(` => `vx_usize(`
//@gsub `.replace("&quot;", "\"")` => `.vx_quot()`
//@gsub `.replace("&quot;", "")` => `.vx_noquot()`
//@gsub `.replace('\"', "")` => `.vx_nomark()`
//@gsub `.replace('"', "")` => `.vx_nomark()`
//@gsub `.to_string()` => `.vx_string()`
//@fmt write
// One text after another; opaque so that the prover keeps the pieces apart.
#[verifier::opaque]
pub open spec fn cat(a: Seq<char>, b: Seq<char>) -> Seq<char> { a + b }
// TRUSTED: format! appends literal pieces and the Display text of its arguments; `format!(..)` and `write!(..)` are read as these calls.
#[verifier::opaque]
pub open spec fn lit(s: &str) -> Seq<char> { s@ }
#[verifier::opaque]
pub open spec fn own(s: String) -> Seq<char> { s@ }
#[verifier::external_body]
pub struct VxFmt { s: String }
impl VxFmt {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn lit(self, t: &str) -> (r: Self) ensures r@ == cat(self@, lit(t)) { unimplemented!() }
    #[verifier::external_body] pub fn show<X: VxShow + ?Sized>(self, t: &X) -> (r: Self) ensures r@ == cat(self@, t.shown()) { unimplemented!() }
    #[verifier::external_body] pub fn done(self) -> (r: String) ensures own(r) == self@ { unimplemented!() }
}
#[verifier::external_body] pub fn vx_fmt(t: &str) -> (r: VxFmt) ensures r@ == lit(t) { unimplemented!() }
pub trait VxShow { spec fn shown(&self) -> Seq<char>; }
pub uninterp spec fn dec(n: int) -> Seq<char>;
impl VxShow for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } }
impl VxShow for String { open spec fn shown(&self) -> Seq<char> { own(*self) } }
pub trait VxInto: Sized {
    spec fn chars(&self) -> Seq<char>;
    fn into(self) -> (r: String) ensures r@ == self.chars();
}
impl VxInto for String { open spec fn chars(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
// TRUSTED: String::from(&str) keeps the characters.
impl VxInto for &str { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }

// ---- what a table-of-contents instruction says
pub struct T {
    pub o: Option<(usize, usize)>, pub l: Option<(usize, usize)>, pub n: Option<(usize, usize)>,
    pub b: Option<Seq<char>>, pub t: Seq<(Seq<char>, usize)>, pub p: Option<Seq<char>>, pub d: Option<Seq<char>>,
    pub a: Option<Seq<char>>, pub c: Option<Seq<char>>, pub s: Option<Seq<char>>, pub f: Option<Option<Seq<char>>>,
    pub h: bool, pub w: bool, pub x: bool, pub u: bool, pub z: bool,
}
pub open spec fn ov(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn sv(v: Seq<StyleWithLevel>) -> Seq<(Seq<char>, usize)> { v.map_values(|s: StyleWithLevel| (s.0.0@, s.0.1)) }
pub open spec fn tv(t: InstrToC) -> T {
    T { o: t.heading_styles_range, l: t.tc_field_level_range, n: t.omit_page_numbers_level_range, b: ov(t.entry_bookmark_name),
        t: sv(t.styles_with_levels@), p: ov(t.entry_and_page_number_separator), d: ov(t.sequence_and_page_numbers_separator),
        a: ov(t.caption_label), c: ov(t.caption_label_including_numbers), s: ov(t.seq_field_identifier_for_prefix),
        f: match t.tc_field_identifier { Some(x) => Some(ov(x)), None => None }, h: t.hyperlink, w: t.preserve_tab, x: t.preserve_new_line,
        u: t.use_applied_paragraph_line_level, z: t.hide_tab_and_page_numbers_in_webview }
}
pub open spec fn none() -> T {
    T { o: None, l: None, n: None, b: None, t: Seq::empty(), p: None, d: None, a: None, c: None, s: None, f: None, h: false, w: false, x: false, u: false, z: false }
}

// ---- text
pub open spec fn starts(t: Seq<char>, w: Seq<char>) -> bool { t.len() >= w.len() && t.take(w.len() as int) == w }
#[verifier::opaque]
pub open spec fn quot() -> Seq<char> { seq!['&', 'q', 'u', 'o', 't', ';'] }
/// No `&quot;` in it.
pub open spec fn nq(s: Seq<char>) -> bool { forall |i: int| 0 <= i && i + 6 <= s.len() ==> !is_quot(s, i) }
pub open spec fn is_quot(s: Seq<char>, i: int) -> bool { s[i] == '&' && s[i + 1] == 'q' && s[i + 2] == 'u' && s[i + 3] == 'o' && s[i + 4] == 't' && s[i + 5] == ';' }
pub open spec fn nomark(s: Seq<char>) -> Seq<char> { s.filter(|c: char| c != '"') }
/// Every `&quot;` replaced.
pub uninterp spec fn replq(s: Seq<char>, by: Seq<char>) -> Seq<char>;
pub broadcast axiom fn replq_none(s: Seq<char>, by: Seq<char>) requires nq(s) ensures #[trigger] replq(s, by) == s;
/// What an argument says: without marks around it.
pub open spec fn strip(s: Seq<char>) -> Seq<char> { nomark(replq(s, Seq::empty())) }
// TRUSTED: str::replace replaces every occurrence and keeps the rest.
pub trait VxRepl { fn vx_quot(&self) -> (r: String); fn vx_noquot(&self) -> (r: String); fn vx_nomark(&self) -> (r: String); }
impl VxRepl for str {
    #[verifier::external_body] fn vx_quot(&self) -> (r: String) ensures r@ == replq(self@, seq!['"']) { unimplemented!() }
    #[verifier::external_body] fn vx_noquot(&self) -> (r: String) ensures r@ == replq(self@, Seq::empty()) { unimplemented!() }
    #[verifier::external_body] fn vx_nomark(&self) -> (r: String) ensures r@ == nomark(self@) { unimplemented!() }
}
impl VxRepl for String {
    #[verifier::external_body] fn vx_quot(&self) -> (r: String) ensures r@ == replq(self@, seq!['"']) { unimplemented!() }
    #[verifier::external_body] fn vx_noquot(&self) -> (r: String) ensures r@ == replq(self@, Seq::empty()) { unimplemented!() }
    #[verifier::external_body] fn vx_nomark(&self) -> (r: String) ensures r@ == nomark(self@) { unimplemented!() }
}
pub trait VxString { fn vx_string(&self) -> (r: String); }
// TRUSTED: str::to_string keeps the characters.
impl VxString for str { #[verifier::external_body] fn vx_string(&self) -> (r: String) ensures r@ == self@ { self.to_string() } }
// TRUSTED: str::chars yields the characters in order.
#[verifier::external_body]
pub fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
pub assume_specification [String::with_capacity] (n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
/// The pieces between occurrences of a character.
pub open spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::empty()] }
    else { let r = split(s.drop_last(), c); if s.last() == c { r.push(Seq::empty()) } else { r.drop_last().push(r.last().push(s.last())) } }
}
pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
pub open spec fn sviews(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
// TRUSTED: str::split yields the pieces in order.
#[verifier::external_body]
pub fn vx_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>) ensures views(r@) == split(s@, c) { unimplemented!() }
// TRUSTED: iterating over texts, with and without a look ahead.
#[verifier::external_body]
pub struct VxTexts<'a> { v: &'a str }
impl<'a> VxTexts<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> (r matches Some(x) && x@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1)),
    { unimplemented!() }
    #[verifier::external_body] pub fn peek(&mut self) -> (r: Option<&'a str>)
        ensures final(self).rest() == old(self).rest(), old(self).rest().len() == 0 ==> r is None, old(self).rest().len() > 0 ==> (r matches Some(x) && x@ == old(self).rest()[0]),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_texts<'a>(v: &'a Vec<String>) -> (r: VxTexts<'a>) ensures r.rest() == sviews(v@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_pieces<'a>(s: &'a str, c: char) -> (r: VxTexts<'a>) ensures r.rest() == split(s@, c) { unimplemented!() }
// TRUSTED: str::starts_with.
#[verifier::external_body]
pub fn vx_starts(s: &str, w: &str) -> (r: bool) ensures r == starts(s@, w@) { unimplemented!() }
// TRUSTED: numbers are printed as digits that parse back to them.
pub uninterp spec fn num(s: Seq<char>) -> Option<usize>;
pub broadcast axiom fn num_dec(n: usize) ensures #[trigger] num(dec(n as int)) == Some(n);
pub open spec fn digits(s: Seq<char>) -> bool { forall |i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9' }
pub broadcast axiom fn dec_digits(n: usize) ensures digits(#[trigger] dec(n as int));
#[verifier::external_body]
pub fn vx_usize(s: &str) -> (r: Result<usize, ()>) ensures r == (match num(s@) { Some(n) => Ok::<usize, ()>(n), None => Err(()) }) { unimplemented!() }

// ---- reading
pub struct St { pub ts: Seq<Seq<char>>, pub cur: Seq<char>, pub quoted: bool }
pub open spec fn step(s: St, c: char) -> St {
    let q = if c == '"' { !s.quoted } else { s.quoted };
    if c == ' ' && !q { St { ts: s.ts.push(s.cur), cur: Seq::empty(), quoted: q } } else { St { cur: s.cur.push(c), quoted: q, ..s } }
}
pub open spec fn scan(s0: St, s: Seq<char>) -> St decreases s.len() { if s.len() == 0 { s0 } else { step(scan(s0, s.drop_last()), s.last()) } }
pub open spec fn st0() -> St { St { ts: Seq::empty(), cur: Seq::empty(), quoted: false } }
pub open spec fn done(s: St) -> Seq<Seq<char>> { s.ts.push(s.cur) }
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>> { done(scan(st0(), replq(s, seq!['"']))) }
pub open spec fn range(i: Seq<char>) -> Option<(usize, usize)> {
    let r = split(strip(i), '-');
    if r.len() > 1 { match (num(r[0]), num(r[1])) { (Some(a), Some(b)) => Some((a, b)), _ => None } } else { None }
}
pub open spec fn or_range(i: Seq<char>, old: Option<(usize, usize)>) -> Option<(usize, usize)> { if range(i) is Some { range(i) } else { old } }
pub open spec fn pairs(r: Seq<Seq<char>>, acc: Seq<(Seq<char>, usize)>) -> Seq<(Seq<char>, usize)> decreases r.len() {
    if r.len() < 2 { acc } else { match num(r[1]) { Some(n) => pairs(r.skip(2), acc.push((r[0], n))), None => acc } }
}
pub open spec fn sw(c: char) -> Seq<char> { seq!['\\', c] }
/// What a sequence of words says, on top of what is known already.
pub open spec fn run(ts: Seq<Seq<char>>, acc: T) -> T decreases ts.len() {
    if ts.len() == 0 { acc }
    else {
        let k = ts[0]; let r = ts.skip(1);
        if k == sw('h') { run(r, T { h: true, ..acc }) }
        else if k == sw('u') { run(r, T { u: true, ..acc }) }
        else if k == sw('w') { run(r, T { w: true, ..acc }) }
        else if k == sw('x') { run(r, T { x: true, ..acc }) }
        else if k == sw('z') { run(r, T { z: true, ..acc }) }
        else if k == sw('f') && (r.len() == 0 || starts(r[0], seq!['\\'])) { run(r, T { f: Some(None), ..acc }) }
        else if r.len() == 0 { acc }
        else if k == sw('a') { run(r.skip(1), T { a: Some(strip(r[0])), ..acc }) }
        else if k == sw('b') { run(r.skip(1), T { b: Some(strip(r[0])), ..acc }) }
        else if k == sw('c') { run(r.skip(1), T { c: Some(strip(r[0])), ..acc }) }
        else if k == sw('d') { run(r.skip(1), T { d: Some(strip(r[0])), ..acc }) }
        else if k == sw('f') { run(r.skip(1), T { f: Some(if strip(r[0]).len() == 0 { None } else { Some(strip(r[0])) }), ..acc }) }
        else if k == sw('l') { run(r.skip(1), T { l: or_range(r[0], acc.l), ..acc }) }
        else if k == sw('n') { run(r.skip(1), T { n: or_range(r[0], acc.n), ..acc }) }
        else if k == sw('o') { run(r.skip(1), T { o: or_range(r[0], acc.o), ..acc }) }
        else if k == sw('p') { run(r.skip(1), T { p: Some(strip(r[0])), ..acc }) }
        else if k == sw('s') { run(r.skip(1), T { s: Some(strip(r[0])), ..acc }) }
        else if k == sw('t') { run(r.skip(1), T { t: pairs(split(strip(r[0]), ','), acc.t), ..acc }) }
        else { run(r, acc) }
    }
}
// TRUSTED: the derived Default: nothing set.
#[verifier::external_body]
pub fn vx_none() -> (r: InstrToC) ensures tv(r) == none() { unimplemented!() }
//@fn InstrToC::new
//@|  ensures tv(r) == none(),
//@sub `Self::default()` => `vx_none()`
//@end
//@fn InstrToC::heading_styles_range
//@|  ensures tv(r) == (T { o: Some((start, end)), ..tv(self) }),
//@end
//@fn InstrToC::tc_field_level_range
//@|  ensures tv(r) == (T { l: Some((start, end)), ..tv(self) }),
//@end
//@fn InstrToC::omit_page_numbers_level_range
//@|  ensures tv(r) == (T { n: Some((start, end)), ..tv(self) }),
//@end
//@fn InstrToC::tc_field_identifier
//@|  ensures tv(r) == (T { f: Some(ov(t)), ..tv(self) }),
//@end
//@fn InstrToC::entry_and_page_number_separator
//@|  ensures tv(r) == (T { p: Some(t.chars()), ..tv(self) }),
//@end
//@fn InstrToC::entry_bookmark_name
//@|  ensures tv(r) == (T { b: Some(t.chars()), ..tv(self) }),
//@end
//@fn InstrToC::caption_label
//@|  ensures tv(r) == (T { a: Some(t.chars()), ..tv(self) }),
//@end
//@fn InstrToC::caption_label_including_numbers
//@|  ensures tv(r) == (T { c: Some(t.chars()), ..tv(self) }),
//@end
//@fn InstrToC::sequence_and_page_numbers_separator
//@|  ensures tv(r) == (T { d: Some(t.chars()), ..tv(self) }),
//@end
//@fn InstrToC::seq_field_identifier_for_prefix
//@|  ensures tv(r) == (T { s: Some(t.chars()), ..tv(self) }),
//@end
//@fn InstrToC::hyperlink
//@|  ensures tv(r) == (T { h: true, ..tv(self) }),
//@end
//@fn InstrToC::preserve_tab
//@|  ensures tv(r) == (T { w: true, ..tv(self) }),
//@end
//@fn InstrToC::preserve_new_line
//@|  ensures tv(r) == (T { x: true, ..tv(self) }),
//@end
//@fn InstrToC::use_applied_paragraph_line_level
//@|  ensures tv(r) == (T { u: true, ..tv(self) }),
//@end
//@fn InstrToC::hide_tab_and_page_numbers_in_webview
//@|  ensures tv(r) == (T { z: true, ..tv(self) }),
//@end
//@fn InstrToC::add_style_with_level
//@|  ensures tv(r) == (T { t: tv(self).t.push((s.0.0@, s.0.1)), ..tv(self) }),
//@at start
//@|  proof { assert(sv(self.styles_with_levels@.push(s)) =~= sv(self.styles_with_levels@).push((s.0.0@, s.0.1))); }
//@end
//@fn documents/elements/instr_toc.rs::split_instr
//@|  ensures sviews(r@) == words(instr@),
//@sub `instr.replace("&quot;", "\"").chars()` => `vx_chars(&instr.vx_quot())`
//@attr
//@|  #[verifier::loop_isolation(false)]
//@at start
//@|  let ghost vx_q = replq(instr@, seq!['"']);
//@|  proof { assert(sviews(Seq::<String>::empty()) =~= Seq::empty()); assert(vx_q.take(0) =~= Seq::empty()); }
//@loop 0 iter=it
//@|  invariant (St { ts: sviews(tokens@), cur: token@, quoted }) == scan(st0(), vx_q.take(it.index@))
//@loopstart 0
//@|  proof { assert(vx_q.take(it.index@ + 1).drop_last() =~= vx_q.take(it.index@)); }
//@|  let ghost vx_t = tokens@;
//@|  let ghost vx_cur = token;
//@loopend 0
//@|  proof { assert(sviews(vx_t.push(vx_cur)) =~= sviews(vx_t).push(vx_cur@)); assert(vx_q.take(it.index@ + 1).last() == c); assert((St { ts: sviews(tokens@), cur: token@, quoted }) == scan(st0(), vx_q.take(it.index@ + 1))); }
//@at end
//@|  proof { assert(vx_q.take(vx_q.len() as int) =~= vx_q); assert(sviews(tokens@) =~= words(instr@)); }
//@end
//@fn documents/elements/instr_toc.rs::parse_level_range
//@|  ensures r == range(i@),
//@sub `r.split('-').collect()` => `vx_split(&r, '-')`
//@end
//@fn <InstrToC as FromStr>::from_str distinct
//@|  ensures r matches Ok(t) && tv(t) == run(words(instr@), none()),
//@sub `tokens~~.iter()~~.map(String::as_str)~~.peekable()` => `vx_texts(&tokens)`
//@sub `!n.starts_with("\\")` => `!vx_starts(n, "\\")`
//@sub `r.split(',')` => `vx_pieces(&r, ',')`
//@attr
//@|  #[verifier::loop_isolation(false)]
//@|  #[verifier::allow_complex_invariants]
//@at start
//@|  broadcast use ax::str_ext;
//@loop 0
//@|  invariant run(s.rest(), tv(toc)) == run(words(instr@), none())
//@|  decreases s.rest().len()
//@loopstart 0
//@|  let ghost vx_s = s.rest();
//@|  let ghost vx_toc = tv(toc);
//@|  proof {
//@|    assert("\\a"@ =~= sw('a')); assert("\\b"@ =~= sw('b')); assert("\\c"@ =~= sw('c')); assert("\\d"@ =~= sw('d')); assert("\\f"@ =~= sw('f')); assert("\\h"@ =~= sw('h')); assert("\\l"@ =~= sw('l')); assert("\\n"@ =~= sw('n')); assert("\\o"@ =~= sw('o')); assert("\\p"@ =~= sw('p')); assert("\\s"@ =~= sw('s')); assert("\\t"@ =~= sw('t')); assert("\\u"@ =~= sw('u')); assert("\\w"@ =~= sw('w')); assert("\\x"@ =~= sw('x')); assert("\\z"@ =~= sw('z'));
//@|    assert("\\"@ =~= seq!['\\']);
//@|    assert(Seq::<(Seq<char>, usize)>::empty() =~= sv(Seq::empty()));
//@|    if vx_s.len() > 1 { assert(vx_s.skip(1)[0] == vx_s[1]); assert(vx_s.skip(1).skip(1) =~= vx_s.skip(2)); }
//@|  }
//@loop 1
//@|  invariant_except_break pairs(r.rest(), tv(toc).t) == pairs(split(strip(vx_s[1]), ','), vx_toc.t), tv(toc) == (T { t: tv(toc).t, ..vx_toc })
//@|  ensures tv(toc) == (T { t: pairs(split(strip(vx_s[1]), ','), vx_toc.t), ..vx_toc })
//@|  decreases r.rest().len()
//@loopstart 1
//@|  let ghost vx_r = r.rest();
//@|  proof { if vx_r.len() > 1 { assert(vx_r.skip(1).skip(1) =~= vx_r.skip(2)); } }
//@end
//@fn InstrToC::with_instr_text
//@|  ensures tv(r) == run(words(s@), none()),
//@sub `.expect("should convert to InstrToC")` => `.unwrap()`
//@end

// ---- printing
pub struct Error;
pub type XResult<A> = Result<A, Error>;
// TRUSTED: the XML writer appends what is written to it.
#[verifier::external_body]
pub struct EventWriter { x: u8 }
impl EventWriter { pub uninterp spec fn out(&self) -> Seq<char>; }
#[verifier::external_body]
pub struct VxOut { x: u8 }
impl VxOut {
    pub uninterp spec fn out(&self) -> Seq<char>;
    #[verifier::external_body] pub fn vx_write(&mut self, s: String) -> (r: XResult<()>) ensures r is Ok ==> final(self).out() == cat(old(self).out(), own(s)) { unimplemented!() }
}
#[verifier::external_body]
pub struct XMLBuilder { x: u8 }
impl XMLBuilder {
    pub uninterp spec fn out(&self) -> Seq<char>;
    #[verifier::external_body] pub fn from(w: EventWriter) -> (r: Self) ensures r.out() == w.out() { unimplemented!() }
    #[verifier::external_body] pub fn inner_mut(&mut self) -> (r: XResult<&mut VxOut>)
        ensures r is Ok ==> r->Ok_0.out() == old(self).out() && final(self).out() == (*final(r->Ok_0)).out() { unimplemented!() }
    #[verifier::external_body] pub fn into_inner(self) -> (r: XResult<EventWriter>) ensures r is Ok ==> r->Ok_0.out() == self.out() { unimplemented!() }
}
/// A character of a value as character data, given what follows it.
pub open spec fn stray1(c: char, rest: Seq<char>) -> Seq<char> {
    if c == '&' && !is_ref(rest) { seq!['&', 'a', 'm', 'p', ';'] }
    else if c == '<' { seq!['&', 'l', 't', ';'] }
    else if c == '>' { seq!['&', 'g', 't', ';'] }
    else if c == '"' { quot() }
    else if c == '\u{fffe}' || c == '\u{ffff}' { Seq::empty() }
    else if c < ' ' && c != '\t' && c != '\n' && c != '\r' { Seq::empty() }
    else { seq![c] }
}
/// What is left of `s` from `k` on, as character data.
pub open spec fn stray_to(s: Seq<char>, k: int) -> Seq<char> decreases k { if k <= 0 { Seq::empty() } else { stray_to(s, k - 1) + stray1(s[k - 1], s.skip(k)) } }
#[verifier::opaque]
pub open spec fn stray(s: Seq<char>) -> Seq<char> { stray_to(s, s.len() as int) }
/// The text after an ampersand makes it a reference.
pub uninterp spec fn is_ref(s: Seq<char>) -> bool;
//@fn escape/mod.rs::starts_with_reference ext
//@|  ensures r == is_ref(text@),
//@end
// TRUSTED: str::char_indices yields every character with its place, and the text after a one-byte character starts one further.
pub uninterp spec fn offset(s: Seq<char>, k: int) -> usize;
#[verifier::external_body]
pub fn vx_char_indices(s: &str) -> (r: Vec<(usize, char)>) ensures r@.len() == s@.len(), forall |k: int| 0 <= k < s@.len() ==> (#[trigger] r@[k]).0 == offset(s@, k) && r@[k].1 == s@[k] { unimplemented!() }
#[verifier::external_body]
pub fn vx_after<'a>(s: &'a str, at: usize) -> (r: &'a str) ensures forall |k: int| 0 <= k < s@.len() && #[trigger] offset(s@, k) == at && s@[k] == '&' ==> r@ == s@.skip(k + 1) { unimplemented!() }
#[verifier::external_body]
pub fn vx_all<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall |c: char| f.requires((c,)),
    ensures r ==> forall |k: int| 0 <= k < s@.len() ==> f.ensures((#[trigger] s@[k],), true) { unimplemented!() }
pub enum Cow<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> Cow<'a> { pub open spec fn view(&self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } } }
impl<'a> VxShow for Cow<'a> { open spec fn shown(&self) -> Seq<char> { self@ } }
pub open spec fn plain(c: char) -> bool { c >= ' ' && c != '&' && c != '<' && c != '>' && c != '"' && c != '\u{fffe}' && c != '\u{ffff}' }
proof fn lemma_stray_plain(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall |i: int| 0 <= i < s.len() ==> plain(#[trigger] s[i]),
    ensures stray_to(s, k) == s.take(k)
    decreases k
{
    if k > 0 { lemma_stray_plain(s, k - 1); assert(plain(s[k - 1])); assert(stray_to(s, k) =~= s.take(k)); } else { assert(s.take(0) =~= Seq::empty()); }
}
//@fn escape/mod.rs::escape_stray distinct
//@|  ensures r@ == stray(text@),
//@sub `Cow<'_, str>` => `Cow<'_>`
//@sub `text.chars().all(is_plain)` => `vx_all(text, is_plain)`
//@sub `text.char_indices()` => `vx_char_indices(text)`
//@sub `&text[index + 1..]` => `vx_after(text, index)`
//@closure 0
//@|  -> (o: bool) ensures o == plain(ch)
//@attr
//@|  #[verifier::loop_isolation(false)]
//@at start
//@|  proof {
//@|    reveal(stray);
//@|    if forall |i: int| 0 <= i < text@.len() ==> plain(#[trigger] text@[i]) { lemma_stray_plain(text@, text@.len() as int); assert(text@.take(text@.len() as int) =~= text@); }
//@|    assert("&amp;"@ =~= seq!['&', 'a', 'm', 'p', ';']); assert("&lt;"@ =~= seq!['&', 'l', 't', ';']); assert("&gt;"@ =~= seq!['&', 'g', 't', ';']); reveal(quot); assert("&quot;"@ =~= quot());
//@|  }
//@loop 0 iter=it
//@|  invariant escaped@ == stray_to(text@, it.index@)
//@loopstart 0
//@|  let ghost vx_e = escaped@;
//@loopend 0
//@|  proof { assert(escaped@ =~= vx_e + stray1(text@[it.index@], text@.skip(it.index@ + 1))); }
//@end
#[verifier::opaque]
pub open spec fn open(c: char) -> Seq<char> { seq![' ', '\\', c, ' ', '&', 'q', 'u', 'o', 't', ';'] }
pub open spec fn txt(out: Seq<char>, o: Option<Seq<char>>, c: char) -> Seq<char> { match o { Some(v) => cat(out, cat(cat(open(c), stray(v)), quot())), None => out } }
pub open spec fn lvl(out: Seq<char>, o: Option<(usize, usize)>, c: char) -> Seq<char> { match o { Some(v) => cat(out, cat(cat(cat(cat(open(c), dec(v.0 as int)), dash()), dec(v.1 as int)), quot())), None => out } }
pub open spec fn flag(out: Seq<char>, o: bool, c: char) -> Seq<char> { if o { cat(out, sp(c)) } else { out } }
#[verifier::opaque]
pub open spec fn sp(c: char) -> Seq<char> { seq![' ', '\\', c] }
#[verifier::opaque]
pub open spec fn dash() -> Seq<char> { seq!['-'] }
#[verifier::opaque]
pub open spec fn comma() -> Seq<char> { seq![','] }
#[verifier::opaque]
pub open spec fn nothing() -> Seq<char> { Seq::empty() }
#[verifier::opaque]
pub open spec fn tocw() -> Seq<char> { seq!['T', 'O', 'C'] }
pub open spec fn one(s: (Seq<char>, usize)) -> Seq<char> { cat(cat(cat(nothing(), s.0), comma()), dec(s.1 as int)) }
pub open spec fn joined(v: Seq<(Seq<char>, usize)>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { one(v[0]) } else { joined(v.drop_last()) + comma() + one(v.last()) }
}
pub open spec fn fid(out: Seq<char>, f: Option<Option<Seq<char>>>) -> Seq<char> { match f { Some(Some(v)) => txt(out, Some(v), 'f'), Some(None) => flag(out, true, 'f'), None => out } }
pub open spec fn list(v: Seq<(Seq<char>, usize)>) -> Option<Seq<char>> { if v.len() == 0 { None } else { Some(joined(v)) } }
/// The instruction as it is written after `out`.
pub open spec fn raw(out: Seq<char>, t: T) -> Seq<char> {
    let r = cat(out, tocw());
    let r = txt(r, t.a, 'a'); let r = txt(r, t.b, 'b'); let r = txt(r, t.c, 'c'); let r = txt(r, t.d, 'd'); let r = fid(r, t.f);
    let r = lvl(r, t.l, 'l'); let r = lvl(r, t.n, 'n'); let r = lvl(r, t.o, 'o'); let r = txt(r, t.p, 'p'); let r = txt(r, t.s, 's');
    let r = txt(r, list(t.t), 't'); let r = flag(r, t.h, 'h'); let r = flag(r, t.u, 'u'); let r = flag(r, t.w, 'w'); let r = flag(r, t.x, 'x'); flag(r, t.z, 'z')
}
// TRUSTED: iter().map(f).collect() applies f to every element in order; join puts the separator between the texts.
#[verifier::external_body]
pub fn vx_map<X, F: Fn(&X) -> String>(v: &Vec<X>, f: F) -> (r: Vec<String>)
    requires forall |x: &X| f.requires((x,)),
    ensures r@.len() == v@.len(), forall |k: int| 0 <= k < v@.len() ==> f.ensures((&v@[k],), #[trigger] r@[k]) { unimplemented!() }
pub open spec fn join(v: Seq<Seq<char>>, by: Seq<char>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { join(v.drop_last(), by) + by + v.last() }
}
#[verifier::external_body]
pub fn vx_join(v: Vec<String>, by: &str) -> (r: String) ensures r@ == join(sviews(v@), lit(by)) { unimplemented!() }
proof fn lemma_joined(v: Seq<(Seq<char>, usize)>)
    ensures join(v.map_values(|s: (Seq<char>, usize)| one(s)), comma()) == joined(v)
    decreases v.len()
{
    let m = v.map_values(|s: (Seq<char>, usize)| one(s));
    if v.len() > 1 { lemma_joined(v.drop_last()); assert(m.drop_last() =~= v.drop_last().map_values(|s: (Seq<char>, usize)| one(s))); }
}
proof fn lemma_lits()
    ensures lit(" \\a &quot;") == open('a'), lit(" \\b &quot;") == open('b'), lit(" \\c &quot;") == open('c'), lit(" \\d &quot;") == open('d'), lit(" \\f &quot;") == open('f'), lit(" \\l &quot;") == open('l'), lit(" \\n &quot;") == open('n'), lit(" \\o &quot;") == open('o'), lit(" \\p &quot;") == open('p'), lit(" \\s &quot;") == open('s'), lit(" \\t &quot;") == open('t'), lit(" \\f") == sp('f'), lit(" \\h") == sp('h'), lit(" \\u") == sp('u'), lit(" \\w") == sp('w'), lit(" \\x") == sp('x'), lit(" \\z") == sp('z'), lit("TOC") == tocw(), lit(",") == comma(), lit("-") == dash(), lit("&quot;") == quot(), lit("") == nothing(),
{
    reveal(lit);
    reveal(open); reveal(dash); reveal(comma); reveal(nothing); reveal(tocw); reveal(sp); reveal(quot);
    reveal_strlit(" \\a &quot;"); reveal_strlit(" \\b &quot;"); reveal_strlit(" \\c &quot;"); reveal_strlit(" \\d &quot;"); reveal_strlit(" \\f &quot;"); reveal_strlit(" \\l &quot;"); reveal_strlit(" \\n &quot;"); reveal_strlit(" \\o &quot;"); reveal_strlit(" \\p &quot;"); reveal_strlit(" \\s &quot;"); reveal_strlit(" \\t &quot;"); reveal_strlit(" \\f"); reveal_strlit(" \\h"); reveal_strlit(" \\u"); reveal_strlit(" \\w"); reveal_strlit(" \\x"); reveal_strlit(" \\z"); reveal_strlit("TOC"); reveal_strlit(","); reveal_strlit("-"); reveal_strlit("&quot;"); reveal_strlit("");
    assert(" \\a &quot;"@ =~= open('a')); assert(" \\b &quot;"@ =~= open('b')); assert(" \\c &quot;"@ =~= open('c')); assert(" \\d &quot;"@ =~= open('d')); assert(" \\f &quot;"@ =~= open('f')); assert(" \\l &quot;"@ =~= open('l')); assert(" \\n &quot;"@ =~= open('n')); assert(" \\o &quot;"@ =~= open('o')); assert(" \\p &quot;"@ =~= open('p')); assert(" \\s &quot;"@ =~= open('s')); assert(" \\t &quot;"@ =~= open('t')); assert(" \\f"@ =~= sp('f')); assert(" \\h"@ =~= sp('h')); assert(" \\u"@ =~= sp('u')); assert(" \\w"@ =~= sp('w')); assert(" \\x"@ =~= sp('x')); assert(" \\z"@ =~= sp('z'));
    assert("TOC"@ =~= tocw()); assert(","@ =~= comma()); assert("-"@ =~= dash()); assert("&quot;"@ =~= quot()); assert(""@ =~= nothing());
}
proof fn lemma_list(v: Seq<StyleWithLevel>)
    ensures forall |m: Seq<String>| m.len() == v.len() && (forall |k: int| 0 <= k < m.len() ==> own(#[trigger] m[k]) == one((own(v[k].0.0), v[k].0.1))) ==> join(#[trigger] sviews(m), comma()) == joined(sv(v)), sv(v).len() == v.len(),
{
    reveal(own); lemma_joined(sv(v));
    assert forall |m: Seq<String>| m.len() == v.len() && (forall |k: int| 0 <= k < m.len() ==> own(#[trigger] m[k]) == one((own(v[k].0.0), v[k].0.1)))
      implies join(#[trigger] sviews(m), comma()) == joined(sv(v)) by {
        assert(sviews(m) =~= sv(v).map_values(|s: (Seq<char>, usize)| one(s)));
      }
}
//@fn <InstrToC as BuildXML>::build_to
//@|  ensures r is Ok ==> r->Ok_0.out() == raw(stream.out(), tv(*self)),
//@sub `self~~.styles_with_levels~~.iter()~~.map(` => `vx_join(vx_map(&self.styles_with_levels, `
//@sub `)~~.collect::<Vec<String>>()~~.join(",")` => `), ",")`
//@sub `|s|` => `|s: &StyleWithLevel|`
//@closure 0
//@|  -> (o: String) ensures own(o) == one((own(s.0.0), s.0.1))
//@attr
//@|  #[verifier::spinoff_prover]
//@|  #[verifier::rlimit(60)]
//@at start
//@|  proof { lemma_lits(); lemma_list(self.styles_with_levels@); }
//@end
//VERUSARGS --smt-option smt.case_split=0

// ---- what is written says what was set
/// XML's reading of character data.
pub open spec fn xdec(t: Seq<char>) -> Seq<char> decreases t.len() {
    if t.len() == 0 { Seq::empty() }
    else if t[0] != '&' { seq![t[0]] + xdec(t.skip(1)) }
    else if starts(t, seq!['&', 'a', 'm', 'p', ';']) { seq!['&'] + xdec(t.skip(5)) }
    else if starts(t, seq!['&', 'l', 't', ';']) { seq!['<'] + xdec(t.skip(4)) }
    else if starts(t, seq!['&', 'g', 't', ';']) { seq!['>'] + xdec(t.skip(4)) }
    else if starts(t, seq!['&', 'q', 'u', 'o', 't', ';']) { seq!['"'] + xdec(t.skip(6)) }
    else { seq![t[0]] + xdec(t.skip(1)) }
}
/// `a` is read as `x` whatever comes after it.
#[verifier::opaque]
pub open spec fn reads(a: Seq<char>, x: Seq<char>) -> bool { forall |b: Seq<char>| xdec(#[trigger] (a + b)) == x + xdec(b) }
proof fn reads_cat(a: Seq<char>, x: Seq<char>, b: Seq<char>, y: Seq<char>)
    requires reads(a, x), reads(b, y),
    ensures reads(cat(a, b), x + y), reads(a + b, x + y),
{
    reveal(cat); reveal(reads);
    assert forall |c: Seq<char>| xdec(#[trigger] ((a + b) + c)) == (x + y) + xdec(c) by {
        assert((a + b) + c =~= a + (b + c));
        assert(xdec(b + c) == y + xdec(c));
        assert(xdec(a + (b + c)) == x + xdec(b + c));
        assert(x + (y + xdec(c)) =~= (x + y) + xdec(c));
    }
}
proof fn reads_none() ensures reads(Seq::empty(), Seq::empty()), reads(nothing(), Seq::empty()) {
    reveal(nothing); reveal(reads);
    assert forall |b: Seq<char>| xdec(#[trigger] (Seq::<char>::empty() + b)) == Seq::<char>::empty() + xdec(b) by { assert(Seq::<char>::empty() + b =~= b); assert(Seq::<char>::empty() + xdec(b) =~= xdec(b)); }
}
proof fn reads_char(c: char) requires c != '&' ensures reads(seq![c], seq![c]) {
    reveal(reads);
    let a = seq![c];
    assert forall |b: Seq<char>| xdec(#[trigger] (a + b)) == a + xdec(b) by { assert((a + b)[0] == c); assert((a + b).skip(1) =~= b); }
}
proof fn reads_ref(c: char) requires c == '&' || c == '<' || c == '>' || c == '"'
    ensures reads(if c == '&' { seq!['&', 'a', 'm', 'p', ';'] } else if c == '<' { seq!['&', 'l', 't', ';'] } else if c == '>' { seq!['&', 'g', 't', ';'] } else { seq!['&', 'q', 'u', 'o', 't', ';'] }, seq![c])
{
    reveal(reads);
    let w = if c == '&' { seq!['&', 'a', 'm', 'p', ';'] } else if c == '<' { seq!['&', 'l', 't', ';'] } else if c == '>' { seq!['&', 'g', 't', ';'] } else { seq!['&', 'q', 'u', 'o', 't', ';'] };
    assert forall |b: Seq<char>| xdec(#[trigger] (w + b)) == seq![c] + xdec(b) by {
        let t = w + b;
        assert(t.skip(w.len() as int) =~= b); assert(t.take(w.len() as int) =~= w);
        assert(t[0] == '&'); assert(t[1] == w[1]); assert(t[2] == w[2]); assert(t[3] == w[3]);
        assert forall |v: Seq<char>| #[trigger] starts(t, v) implies (forall |k: int| 0 <= k < v.len() ==> t[k] == v[k]) by {
            assert forall |k: int| 0 <= k < v.len() implies t[k] == v[k] by { assert(t.take(v.len() as int)[k] == v[k]); }
        }
        assert(starts(t, w));
    }
}
/// Text without the reference character is read as itself.
proof fn reads_plain(a: Seq<char>)
    requires forall |i: int| 0 <= i < a.len() ==> #[trigger] a[i] != '&',
    ensures reads(a, a)
    decreases a.len()
{
    if a.len() == 0 { reads_none(); assert(a =~= Seq::empty()); }
    else {
        reads_plain(a.drop_last()); reads_char(a.last());
        reads_cat(a.drop_last(), a.drop_last(), seq![a.last()], seq![a.last()]);
        assert(a.drop_last() + seq![a.last()] =~= a);
    }
}
/// A value the property is about: no quotation mark, nothing XML cannot carry, no reference spelled out.
pub open spec fn legal(v: Seq<char>) -> bool {
    nq(v) && forall |i: int| 0 <= i < v.len() ==> #[trigger] v[i] != '"' && v[i] != '\u{fffe}' && v[i] != '\u{ffff}' && (v[i] >= ' ' || v[i] == '\t' || v[i] == '\n') && (v[i] == '&' ==> !is_ref(v.skip(i + 1)))
}
proof fn reads_stray(v: Seq<char>, k: int)
    requires legal(v), 0 <= k <= v.len(),
    ensures reads(stray_to(v, k), v.take(k))
    decreases k
{
    if k == 0 { reads_none(); assert(v.take(0) =~= Seq::empty()); }
    else {
        reads_stray(v, k - 1);
        let c = v[k - 1];
        if c == '&' || c == '<' || c == '>' { reads_ref(c); } else { reads_char(c); }
        reads_cat(stray_to(v, k - 1), v.take(k - 1), stray1(c, v.skip(k)), seq![c]);
        assert(v.take(k - 1) + seq![c] =~= v.take(k));
    }
}
proof fn scan_cat(s: St, a: Seq<char>, b: Seq<char>) ensures scan(s, a + b) == scan(scan(s, a), b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { scan_cat(s, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
proof fn scan_one(s: St, c: char) ensures scan(s, seq![c]) == step(s, c) { assert(seq![c].drop_last() =~= Seq::empty()); assert(scan(s, seq![c].drop_last()) == s); }
/// Inside quotation marks everything belongs to the word.
proof fn scan_in(s: St, v: Seq<char>)
    requires s.quoted || forall |i: int| 0 <= i < v.len() ==> v[i] != ' ', forall |i: int| 0 <= i < v.len() ==> v[i] != '"',
    ensures scan(s, v) == (St { cur: s.cur + v, ..s })
    decreases v.len()
{
    if v.len() == 0 { assert(s.cur + v =~= s.cur); } else { scan_in(s, v.drop_last()); assert(s.cur + v =~= (s.cur + v.drop_last()).push(v.last())); }
}
pub open spec fn marked(v: Seq<char>) -> Seq<char> { seq!['"'] + v + seq!['"'] }
pub open spec fn word(c: char) -> Seq<char> { seq![' ', '\\', c] }
pub open spec fn arg(c: char, v: Seq<char>) -> Seq<char> { word(c) + (seq![' '] + marked(v)) }
pub open spec fn two(c: char, w: Seq<char>) -> Seq<Seq<char>> { seq![sw(c), w] }
pub open spec fn just(c: char) -> Seq<Seq<char>> { seq![sw(c)] }
/// No lookahead beyond a word that is not a switch.
pub open spec fn fresh(m: Seq<Seq<char>>) -> bool { m.len() == 0 || starts(m[0], seq!['\\']) }
/// After the words `ts` the switches `t` are known, whatever switch comes next.
pub open spec fn says(ts: Seq<Seq<char>>, t: T) -> bool { forall |m: Seq<Seq<char>>| fresh(m) ==> run(#[trigger] (ts + m), none()) == run(m, t) }
/// `out` is written, read as the text `x`, whose words are `ts`, which say `t`.
pub open spec fn good(out: Seq<char>, x: Seq<char>, ts: Seq<Seq<char>>, t: T) -> bool {
    reads(out, x) && nq(x) && !scan(st0(), x).quoted && done(scan(st0(), x)) == ts && says(ts, t)
}
pub open spec fn fine(out: Seq<char>, t: T) -> bool { exists |x: Seq<char>, ts: Seq<Seq<char>>| good(out, x, ts, t) }
proof fn nq_cat(a: Seq<char>, b: Seq<char>)
    requires nq(a), nq(b), b.len() == 0 || (b[0] != 'q' && b[0] != 'u' && b[0] != 'o' && b[0] != 't' && b[0] != ';'),
    ensures nq(a + b)
{
    let s = a + b;
    assert forall |i: int| 0 <= i && i + 6 <= s.len() implies !is_quot(s, i) by {
        if is_quot(s, i) {
            if i + 6 <= a.len() { assert(is_quot(a, i)); } else if i >= a.len() { assert(is_quot(b, i - a.len())); } else { assert(s[a.len() as int] == b[0]); }
        }
    }
}
proof fn nq_pre(a: Seq<char>, b: Seq<char>)
    requires nq(b), forall |i: int| 0 <= i < a.len() ==> #[trigger] a[i] != '&',
    ensures nq(a + b)
{
    let s = a + b;
    assert forall |i: int| 0 <= i && i + 6 <= s.len() implies !is_quot(s, i) by {
        if is_quot(s, i) { if i < a.len() { assert(s[i] == a[i]); } else { assert(is_quot(b, i - a.len())); } }
    }
}
proof fn nq_marked(v: Seq<char>) requires nq(v) ensures nq(marked(v))
{
    nq_cat(v, seq!['"']); nq_pre(seq!['"'], v + seq!['"']);
    assert(marked(v) =~= seq!['"'] + (v + seq!['"']));
}
proof fn filter_none(v: Seq<char>) requires forall |i: int| 0 <= i < v.len() ==> v[i] != '"' ensures nomark(v) == v decreases v.len()
{
    reveal(Seq::filter);
    if v.len() == 0 { assert(nomark(v) =~= v); } else { filter_none(v.drop_last()); assert(nomark(v) =~= v); }
}
proof fn strip_marked(v: Seq<char>)
    requires nq(v), forall |i: int| 0 <= i < v.len() ==> v[i] != '"',
    ensures strip(marked(v)) == v
{
    nq_marked(v); replq_none(marked(v), Seq::empty());
    let m = marked(v); let p = |c: char| c != '"';
    reveal(Seq::filter);
    assert(m.drop_last() =~= seq!['"'] + v);
    assert(nomark(m) == (seq!['"'] + v).filter(p));
    Seq::filter_distributes_over_add(seq!['"'], v, p);
    assert(seq!['"'].drop_last() =~= Seq::empty());
    assert(seq!['"'].filter(p) =~= Seq::empty());
    filter_none(v);
    assert(Seq::<char>::empty() + v =~= v);
}
proof fn says_arg(ts: Seq<Seq<char>>, t: T, c: char, w: Seq<char>, u: T)
    requires says(ts, t), w.len() > 0, w[0] == '"', forall |m: Seq<Seq<char>>| #[trigger] run(two(c, w) + m, t) == run(m, u),
    ensures says(ts + two(c, w), u)
{
    let k = two(c, w);
    assert forall |m: Seq<Seq<char>>| fresh(m) implies run(#[trigger] ((ts + k) + m), none()) == run(m, u) by {
        assert((ts + k) + m =~= ts + (k + m));
        assert((k + m)[0] == sw(c)); assert(sw(c).take(1) =~= seq!['\\']);
        assert(fresh(k + m));
    }
}
proof fn grow(out: Seq<char>, x: Seq<char>, ts: Seq<Seq<char>>, t: T, a: Seq<char>, c: char, v: Seq<char>, u: T)
    requires good(out, x, ts, t), reads(a, arg(c, v)), nq(v), forall |i: int| 0 <= i < v.len() ==> v[i] != '"', c != ' ', c != '"', c != '&',
        forall |m: Seq<Seq<char>>| #[trigger] run(two(c, marked(v)) + m, t) == run(m, u),
    ensures fine(cat(out, a), u)
{
    let y = arg(c, v); let k = two(c, marked(v));
    reads_cat(out, x, a, y);
    nq_marked(v); nq_pre(seq![' '], marked(v)); nq_pre(word(c), seq![' '] + marked(v)); nq_cat(x, y);
    let s0 = scan(st0(), x);
    scan_cat(st0(), x, y); scan_cat(s0, word(c), seq![' '] + marked(v));
    scan_word(s0, c);
    let s1 = St { ts: ts, cur: sw(c), quoted: false };
    assert(scan(s0, word(c)) == s1);
    scan_cat(s1, seq![' '], marked(v)); scan_one(s1, ' ');
    let s2 = St { ts: ts.push(sw(c)), cur: Seq::empty(), quoted: false };
    assert(scan(s1, seq![' ']) == s2);
    assert(marked(v) =~= seq!['"'] + (v + seq!['"']));
    scan_cat(s2, seq!['"'], v + seq!['"']); scan_one(s2, '"');
    let s3 = St { cur: seq!['"'], quoted: true, ..s2 };
    assert(Seq::<char>::empty().push('"') =~= seq!['"']);
    assert(scan(s2, seq!['"']) == s3);
    scan_cat(s3, v, seq!['"']); scan_in(s3, v);
    let s4 = St { cur: seq!['"'] + v, ..s3 };
    scan_one(s4, '"');
    assert((seq!['"'] + v).push('"') =~= marked(v));
    assert(scan(s0, y) == (St { ts: ts.push(sw(c)), cur: marked(v), quoted: false }));
    assert(ts.push(sw(c)).push(marked(v)) =~= ts + k);
    says_arg(ts, t, c, marked(v), u);
    assert(good(cat(out, a), x + y, ts + k, u));
}
proof fn scan_word(s: St, c: char) requires !s.quoted, c != ' ', c != '"' ensures scan(s, word(c)) == (St { ts: done(s), cur: sw(c), quoted: false })
{
    scan_one(s, ' ');
    let s1 = St { ts: done(s), cur: Seq::empty(), quoted: false };
    scan_cat(s, seq![' '], seq!['\\', c]);
    assert(word(c) =~= seq![' '] + seq!['\\', c]);
    scan_in(s1, seq!['\\', c]);
    assert(Seq::<char>::empty() + seq!['\\', c] =~= sw(c));
}
proof fn grow_flag(out: Seq<char>, x: Seq<char>, ts: Seq<Seq<char>>, t: T, c: char, u: T)
    requires good(out, x, ts, t), c != ' ', c != '"', c != '&', forall |m: Seq<Seq<char>>| fresh(m) ==> #[trigger] run(just(c) + m, t) == run(m, u),
    ensures fine(cat(out, sp(c)), u)
{
    reveal(sp);
    let y = word(c); let k = just(c);
    assert(sp(c) =~= y);
    reads_plain(y); reads_cat(out, x, y, y);
    assert(nq(Seq::empty())); nq_pre(y, Seq::empty()); assert(y + Seq::<char>::empty() =~= y); nq_cat(x, y);
    let s0 = scan(st0(), x);
    scan_cat(st0(), x, y); scan_word(s0, c);
    assert(ts.push(sw(c)) =~= ts + k);
    assert forall |m: Seq<Seq<char>>| fresh(m) implies run(#[trigger] ((ts + k) + m), none()) == run(m, u) by {
        assert((ts + k) + m =~= ts + (k + m)); assert((k + m)[0] == sw(c)); assert(sw(c).take(1) =~= seq!['\\']); assert(fresh(k + m));
    }
    assert(good(cat(out, sp(c)), x + y, ts + k, u));
}
proof fn reads_open(c: char) requires c != '&' ensures reads(open(c), word(c) + seq![' ', '"'])
{
    reveal(open);
    assert(open(c) =~= seq![' ', '\\', c, ' '] + seq!['&', 'q', 'u', 'o', 't', ';']);
    reads_plain(seq![' ', '\\', c, ' ']); reads_ref('"'); reads_cat(seq![' ', '\\', c, ' '], seq![' ', '\\', c, ' '], seq!['&', 'q', 'u', 'o', 't', ';'], seq!['"']);
    assert(seq![' ', '\\', c, ' '] + seq!['"'] =~= word(c) + seq![' ', '"']);
}
proof fn reads_quot() ensures reads(quot(), seq!['"']) { reveal(quot); reads_ref('"'); }
pub open spec fn set(t: T, c: char, v: Option<Seq<char>>) -> T {
    if c == 'a' { T { a: v, ..t } } else if c == 'b' { T { b: v, ..t } } else if c == 'c' { T { c: v, ..t } } else if c == 'd' { T { d: v, ..t } } else if c == 'p' { T { p: v, ..t } } else { T { s: v, ..t } }
}
pub open spec fn texts(c: char) -> bool { c == 'a' || c == 'b' || c == 'c' || c == 'd' || c == 'p' || c == 's' }
proof fn reads_arg(c: char, w: Seq<char>, v: Seq<char>) requires c != '&', reads(w, v), ensures reads(cat(cat(open(c), w), quot()), arg(c, v))
{
    reads_open(c); reads_quot();
    reads_cat(open(c), word(c) + seq![' ', '"'], w, v);
    reads_cat(cat(open(c), w), word(c) + seq![' ', '"'] + v, quot(), seq!['"']);
    assert(word(c) + seq![' ', '"'] + v + seq!['"'] =~= arg(c, v));
}
proof fn run_two(c: char, w: Seq<char>, m: Seq<Seq<char>>)
    ensures (two(c, w) + m).skip(1).skip(1) == m, (two(c, w) + m)[0] == sw(c), (two(c, w) + m).skip(1)[0] == w, (two(c, w) + m).len() == m.len() + 2,
{ assert((two(c, w) + m).skip(1).skip(1) =~= m); }
proof fn sw_apart() ensures forall |a: char, b: char| #[trigger] sw(a) == #[trigger] sw(b) ==> a == b
{
    assert forall |a: char, b: char| #[trigger] sw(a) == #[trigger] sw(b) implies a == b by { assert(sw(a)[1] == a); assert(sw(b)[1] == b); }
}
proof fn lemma_fid(out: Seq<char>, t: T, f: Option<Option<Seq<char>>>)
    requires fine(out, t), f matches Some(Some(v)) ==> legal(v) && v.len() > 0, t.f is None,
    ensures fine(fid(out, f), T { f, ..t })
{
    if let Some(o) = f {
        let (x, ts) = choose |x: Seq<char>, ts: Seq<Seq<char>>| good(out, x, ts, t);
        sw_apart();
        if let Some(v) = o {
            reveal(stray); reads_stray(v, v.len() as int); assert(v.take(v.len() as int) =~= v);
            reads_arg('f', stray(v), v); strip_marked(v);
            assert forall |m: Seq<Seq<char>>| #[trigger] run(two('f', marked(v)) + m, t) == run(m, T { f, ..t }) by {
                run_two('f', marked(v), m);
                assert(marked(v).take(1)[0] == '"');
                assert(!starts(marked(v), seq!['\\']));
            }
            grow(out, x, ts, t, cat(cat(open('f'), stray(v)), quot()), 'f', v, T { f, ..t });
        } else {
            assert forall |m: Seq<Seq<char>>| fresh(m) implies #[trigger] run(just('f') + m, t) == run(m, T { f, ..t }) by { assert((just('f') + m).skip(1) =~= m); assert((just('f') + m)[0] == sw('f')); }
            grow_flag(out, x, ts, t, 'f', T { f, ..t });
        }
    }
}
pub open spec fn set_flag(t: T, c: char, o: bool) -> T {
    if c == 'h' { T { h: o, ..t } } else if c == 'u' { T { u: o, ..t } } else if c == 'w' { T { w: o, ..t } } else if c == 'x' { T { x: o, ..t } } else { T { z: o, ..t } }
}
proof fn lemma_flag(out: Seq<char>, t: T, o: bool, c: char)
    requires fine(out, t), c == 'h' || c == 'u' || c == 'w' || c == 'x' || c == 'z', !o ==> set_flag(t, c, false) == t,
    ensures fine(flag(out, o, c), set_flag(t, c, o))
{
    if o {
        let (x, ts) = choose |x: Seq<char>, ts: Seq<Seq<char>>| good(out, x, ts, t);
        sw_apart();
        assert forall |m: Seq<Seq<char>>| fresh(m) implies #[trigger] run(just(c) + m, t) == run(m, set_flag(t, c, o)) by { assert((just(c) + m).skip(1) =~= m); assert((just(c) + m)[0] == sw(c)); }
        grow_flag(out, x, ts, t, c, set_flag(t, c, o));
    }
}
pub open spec fn without(s: Seq<char>, c: char) -> bool { forall |i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c }
proof fn split_none(s: Seq<char>, c: char) requires without(s, c) ensures split(s, c) == seq![s] decreases s.len()
{
    if s.len() == 0 { assert(s =~= Seq::empty()); } else {
        assert(without(s.drop_last(), c)) by { assert forall |i: int| 0 <= i < s.drop_last().len() implies #[trigger] s.drop_last()[i] != c by { assert(s[i] != c); } }
        split_none(s.drop_last(), c);
        assert(s.drop_last().push(s.last()) =~= s);
        assert(s[s.len() - 1] != c);
        assert(split(s, c) =~= seq![s]);
    }
}
proof fn split_some(s: Seq<char>, c: char) ensures split(s, c).len() > 0 decreases s.len() { if s.len() > 0 { split_some(s.drop_last(), c); } }
proof fn split_cat(a: Seq<char>, b: Seq<char>, c: char) requires without(b, c) ensures split(a + seq![c] + b, c) == split(a, c).push(b) decreases b.len()
{
    let s = a + seq![c] + b;
    if b.len() == 0 { assert(s.drop_last() =~= a); assert(b =~= Seq::empty()); assert(s.last() == c); } else {
        let d = b.drop_last();
        assert(without(d, c)) by { assert forall |i: int| 0 <= i < d.len() implies #[trigger] d[i] != c by { assert(b[i] != c); } }
        split_cat(a, d, c);
        assert(s.drop_last() =~= a + seq![c] + d); assert(s.last() == b.last()); assert(b[b.len() - 1] != c);
        assert(d.push(b.last()) =~= b);
        assert(split(s, c) =~= split(a, c).push(b));
    }
}
pub open spec fn set_lvl(t: T, c: char, o: Option<(usize, usize)>) -> T { if c == 'l' { T { l: o, ..t } } else if c == 'n' { T { n: o, ..t } } else { T { o: o, ..t } } }
proof fn lemma_lvl(out: Seq<char>, t: T, o: Option<(usize, usize)>, c: char)
    requires fine(out, t), c == 'l' || c == 'n' || c == 'o', o is None ==> set_lvl(t, c, None) == t,
    ensures fine(lvl(out, o, c), set_lvl(t, c, o))
{
    if let Some(r) = o {
        let (x, ts) = choose |x: Seq<char>, ts: Seq<Seq<char>>| good(out, x, ts, t);
        let (a, b) = (dec(r.0 as int), dec(r.1 as int));
        dec_digits(r.0); dec_digits(r.1); num_dec(r.0); num_dec(r.1);
        let v = a + seq!['-'] + b;
        reveal(dash); reveal(cat);
        assert forall |i: int| 0 <= i < v.len() implies #[trigger] v[i] != '&' && v[i] != '"' by { if i < a.len() { assert(v[i] == a[i]); } else if i > a.len() { assert(v[i] == b[i - a.len() - 1]); } }
        reads_plain(v); reads_arg(c, v, v);
        assert(nq(Seq::empty())); nq_pre(v, Seq::empty()); assert(v + Seq::<char>::empty() =~= v);
        strip_marked(v); sw_apart();
        assert(without(a, '-')) by { assert forall |i: int| 0 <= i < a.len() implies #[trigger] a[i] != '-' by {} }
        assert(without(b, '-')) by { assert forall |i: int| 0 <= i < b.len() implies #[trigger] b[i] != '-' by {} }
        split_none(a, '-'); split_cat(a, b, '-');
        assert(range(marked(v)) == o);
        let w = cat(cat(cat(cat(open(c), a), dash()), b), quot());
        assert(w =~= cat(cat(open(c), v), quot()));
        assert forall |m: Seq<Seq<char>>| #[trigger] run(two(c, marked(v)) + m, t) == run(m, set_lvl(t, c, o)) by { run_two(c, marked(v), m); }
        grow(out, x, ts, t, w, c, v, set_lvl(t, c, o));
    }
}
pub open spec fn flat(v: Seq<(Seq<char>, usize)>) -> Seq<Seq<char>> decreases v.len() { if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()).push(v.last().0).push(dec(v.last().1 as int)) } }
proof fn split_joined(v: Seq<(Seq<char>, usize)>)
    requires v.len() > 0, forall |i: int| 0 <= i < v.len() ==> without((#[trigger] v[i]).0, ','),
    ensures split(joined(v), ',') == flat(v)
    decreases v.len()
{
    reveal(comma); reveal(cat); reveal(nothing);
    let (n, l) = (v.last().0, dec(v.last().1 as int));
    dec_digits(v.last().1);
    assert(without(l, ',')) by { assert forall |i: int| 0 <= i < l.len() implies #[trigger] l[i] != ',' by {} }
    assert(v.last() == v[v.len() - 1]);
    assert(one(v.last()) =~= n + seq![','] + l);
    if v.len() == 1 {
        split_none(n, ','); split_cat(n, l, ',');
        assert(flat(v.drop_last()) =~= Seq::empty());
        assert(split(joined(v), ',') =~= flat(v));
    } else {
        let p = v.drop_last();
        assert forall |i: int| 0 <= i < p.len() implies without((#[trigger] p[i]).0, ',') by { assert(p[i] == v[i]); }
        split_joined(p);
        split_cat(joined(p), n, ','); split_cat(joined(p) + seq![','] + n, l, ',');
        assert(joined(v) =~= joined(p) + seq![','] + n + seq![','] + l);
    }
}
proof fn flat_front(v: Seq<(Seq<char>, usize)>)
    requires v.len() > 0,
    ensures flat(v) == seq![v[0].0, dec(v[0].1 as int)] + flat(v.skip(1))
    decreases v.len()
{
    if v.len() == 1 { assert(v.skip(1) =~= Seq::empty()); assert(v.drop_last() =~= Seq::empty()); assert(flat(v) =~= seq![v[0].0, dec(v[0].1 as int)] + flat(v.skip(1))); }
    else {
        flat_front(v.drop_last());
        assert(v.drop_last().skip(1) =~= v.skip(1).drop_last());
        assert(v.skip(1).last() == v.last());
        assert(flat(v) =~= seq![v[0].0, dec(v[0].1 as int)] + flat(v.skip(1)));
    }
}
proof fn pairs_flat(v: Seq<(Seq<char>, usize)>, acc: Seq<(Seq<char>, usize)>) ensures pairs(flat(v), acc) == acc + v decreases v.len()
{
    if v.len() == 0 { assert(acc + v =~= acc); } else {
        flat_front(v); num_dec(v[0].1);
        assert(flat(v).skip(2) =~= flat(v.skip(1)));
        pairs_flat(v.skip(1), acc.push(v[0]));
        assert(acc.push(v[0]) + v.skip(1) =~= acc + v);
        assert((v[0].0, v[0].1) == v[0]);
    }
}
proof fn lemma_styles(out: Seq<char>, t: T, v: Seq<(Seq<char>, usize)>)
    requires fine(out, t), t.t == Seq::<(Seq<char>, usize)>::empty(), v.len() > 0 ==> legal(joined(v)), forall |i: int| 0 <= i < v.len() ==> without((#[trigger] v[i]).0, ','),
    ensures fine(txt(out, list(v), 't'), T { t: v, ..t })
{
    if v.len() == 0 { assert(v =~= t.t); } else {
        let (x, ts) = choose |x: Seq<char>, ts: Seq<Seq<char>>| good(out, x, ts, t);
        let j = joined(v);
        reveal(stray); reads_stray(j, j.len() as int); assert(j.take(j.len() as int) =~= j);
        reads_arg('t', stray(j), j); strip_marked(j); sw_apart();
        split_joined(v); pairs_flat(v, Seq::empty());
        assert(Seq::<(Seq<char>, usize)>::empty() + v =~= v);
        assert forall |m: Seq<Seq<char>>| #[trigger] run(two('t', marked(j)) + m, t) == run(m, T { t: v, ..t }) by { run_two('t', marked(j), m); }
        grow(out, x, ts, t, cat(cat(open('t'), stray(j)), quot()), 't', j, T { t: v, ..t });
    }
}
pub open spec fn ok(o: Option<Seq<char>>) -> bool { o matches Some(v) ==> legal(v) }
/// The switches the property is about.
pub open spec fn settable(t: T) -> bool {
    ok(t.a) && ok(t.b) && ok(t.c) && ok(t.d) && ok(t.p) && ok(t.s) && (t.f matches Some(Some(v)) ==> legal(v) && v.len() > 0)
        && (t.t.len() > 0 ==> legal(joined(t.t))) && (forall |i: int| 0 <= i < t.t.len() ==> without((#[trigger] t.t[i]).0, ','))
}
/// Every combination of switches, as written and read by an XML parser, parses back to the same switches.
proof fn theorem(t: T)
    requires settable(t),
    ensures run(words(xdec(raw(Seq::empty(), t))), none()) == t
{
    let r = cat(Seq::empty(), tocw());
    start();
    lemma_txt(r, none(), t.a, 'a'); let r = txt(r, t.a, 'a'); let g = set(none(), 'a', t.a);
    lemma_txt(r, g, t.b, 'b'); let r = txt(r, t.b, 'b'); let g = set(g, 'b', t.b);
    lemma_txt(r, g, t.c, 'c'); let r = txt(r, t.c, 'c'); let g = set(g, 'c', t.c);
    lemma_txt(r, g, t.d, 'd'); let r = txt(r, t.d, 'd'); let g = set(g, 'd', t.d);
    lemma_fid(r, g, t.f); let r = fid(r, t.f); let g = T { f: t.f, ..g };
    lemma_lvl(r, g, t.l, 'l'); let r = lvl(r, t.l, 'l'); let g = set_lvl(g, 'l', t.l);
    lemma_lvl(r, g, t.n, 'n'); let r = lvl(r, t.n, 'n'); let g = set_lvl(g, 'n', t.n);
    lemma_lvl(r, g, t.o, 'o'); let r = lvl(r, t.o, 'o'); let g = set_lvl(g, 'o', t.o);
    lemma_txt(r, g, t.p, 'p'); let r = txt(r, t.p, 'p'); let g = set(g, 'p', t.p);
    lemma_txt(r, g, t.s, 's'); let r = txt(r, t.s, 's'); let g = set(g, 's', t.s);
    lemma_styles(r, g, t.t); let r = txt(r, list(t.t), 't'); let g = T { t: t.t, ..g };
    lemma_flag(r, g, t.h, 'h'); let r = flag(r, t.h, 'h'); let g = set_flag(g, 'h', t.h);
    lemma_flag(r, g, t.u, 'u'); let r = flag(r, t.u, 'u'); let g = set_flag(g, 'u', t.u);
    lemma_flag(r, g, t.w, 'w'); let r = flag(r, t.w, 'w'); let g = set_flag(g, 'w', t.w);
    lemma_flag(r, g, t.x, 'x'); let r = flag(r, t.x, 'x'); let g = set_flag(g, 'x', t.x);
    lemma_flag(r, g, t.z, 'z'); let r = flag(r, t.z, 'z'); let g = set_flag(g, 'z', t.z);
    assert(g == t);
    assert(r == raw(Seq::empty(), t));
    finish(r, t);
}
proof fn start() ensures fine(cat(Seq::empty(), tocw()), none())
{
    reveal(tocw); reveal(cat);
    let w = seq!['T', 'O', 'C']; let e = cat(Seq::empty(), tocw());
    assert(e =~= w);
    reads_plain(w);
    assert(nq(Seq::empty())); nq_pre(w, Seq::empty()); assert(w + Seq::<char>::empty() =~= w);
    scan_in(st0(), w); assert(Seq::<char>::empty() + w =~= w);
    let ts = seq![w];
    assert(done(scan(st0(), w)) =~= ts);
    assert forall |m: Seq<Seq<char>>| fresh(m) implies run(#[trigger] (ts + m), none()) == run(m, none()) by { assert((ts + m)[0] == w); assert((ts + m).skip(1) =~= m); assert(w.len() == 3); if m.len() == 0 { assert(m =~= Seq::empty()); } }
    assert(good(e, w, ts, none()));
}
proof fn finish(r: Seq<char>, t: T) requires fine(r, t) ensures run(words(xdec(r)), none()) == t
{
    let (x, ts) = choose |x: Seq<char>, ts: Seq<Seq<char>>| good(r, x, ts, t);
    reveal(reads);
    assert(r + Seq::<char>::empty() =~= r); assert(x + xdec(Seq::empty()) =~= x);
    assert(xdec(r + Seq::<char>::empty()) == x + xdec(Seq::empty()));
    replq_none(x, seq!['"']);
    assert(ts + Seq::<Seq<char>>::empty() =~= ts);
    assert(fresh(Seq::empty()));
    assert(run(ts + Seq::<Seq<char>>::empty(), none()) == run(Seq::empty(), t));
}
proof fn lemma_txt(out: Seq<char>, t: T, o: Option<Seq<char>>, c: char)
    requires fine(out, t), texts(c), o matches Some(v) ==> legal(v), o is None ==> set(t, c, None) == t,
    ensures fine(txt(out, o, c), set(t, c, o))
{
    if let Some(v) = o {
        let (x, ts) = choose |x: Seq<char>, ts: Seq<Seq<char>>| good(out, x, ts, t);
        reveal(stray); reads_stray(v, v.len() as int); assert(v.take(v.len() as int) =~= v);
        reads_arg(c, stray(v), v);
        strip_marked(v); sw_apart();
        assert forall |m: Seq<Seq<char>>| #[trigger] run(two(c, marked(v)) + m, t) == run(m, set(t, c, o)) by { run_two(c, marked(v), m); }
        grow(out, x, ts, t, cat(cat(open(c), stray(v)), quot()), c, v, set(t, c, o));
    }
}
//@auto except=EventWriter*,XMLBuilder*,VxOut*
fn main(){}
proof fn vx_probe() ensures false {}
}
