//@include prelude.rs
verus! {
//@gsub `crate::escape::` => ``
//@gsub `escape::escape_owned` => `escape_owned`
//@gsub `crate::` => ``
//@gsub `Default::default()` => `vx_default()`
//@gsub `super::` => ``
//@gsub `impl Into<String>` => `impl VxInto`
//@gsub `r#type` => `vx_type`
// TRUSTED: some value of the type (its Default).
#[verifier::external_body]
pub fn vx_default<T>() -> T { unimplemented!() }
// TRUSTED: String::from(String) and String::from(&str) keep the characters.
pub trait VxInto: Sized {
    spec fn chars(&self) -> Seq<char>;
    fn into(self) -> (r: String) ensures r@ == self.chars();
}
impl VxInto for String { open spec fn chars(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
impl VxInto for &str { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
// TRUSTED: str::chars yields the characters in order.
#[verifier::external_body]
pub fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
// TRUSTED: Iterator::any.
pub fn vx_any<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: bool)
    requires forall |t: &T| f.requires((t,)),
    ensures !r ==> forall |i: int| 0 <= i < s@.len() ==> f.ensures((&s@[i],), false),
        r ==> exists |i: int| 0 <= i < s@.len() && f.ensures((&s@[i],), true),
{
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s.len(), forall |t: &T| f.requires((t,)), forall |j: int| 0 <= j < i ==> f.ensures((&s@[j],), false),
        decreases s.len() - i,
    { if f(&s[i]) { return true; } i += 1; }
    false
}
pub assume_specification [String::with_capacity] (n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
/// One character of caller text as character data.
pub open spec fn esc1(c: char) -> Seq<char> {
    if c == '&' { seq!['&', 'a', 'm', 'p', ';'] }
    else if c == '<' { seq!['&', 'l', 't', ';'] }
    else if c == '>' { seq!['&', 'g', 't', ';'] }
    else if c == '"' { seq!['&', 'q', 'u', 'o', 't', ';'] }
    else if c == '\'' { seq!['&', 'a', 'p', 'o', 's', ';'] }
    else if c == '\n' { seq!['&', '#', 'x', 'A', ';'] }
    else if c == '\r' { Seq::empty() }
    else { seq![c] }
}
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { esc(s.drop_last()) + esc1(s.last()) }
}
pub open spec fn special(c: char) -> bool { c == '&' || c == '<' || c == '>' || c == '"' || c == '\'' || c == '\n' || c == '\r' }
pub open spec fn special_byte(b: u8) -> bool { b == 38 || b == 60 || b == 62 || b == 34 || b == 39 || b == 10 || b == 13 }
/// Caller text without carriage returns.
pub open spec fn nocr(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last() == '\r' { nocr(s.drop_last()) } else { nocr(s.drop_last()).push(s.last()) }
}
/// XML's reading of character data: the predefined references and the one character reference that is
/// written stand for one character, everything else for itself.
pub open spec fn starts(t: Seq<char>, w: Seq<char>) -> bool { t.len() >= w.len() && t.take(w.len() as int) == w }
pub open spec fn dec(t: Seq<char>) -> Seq<char> decreases t.len() {
    if t.len() == 0 { Seq::empty() }
    else if starts(t, seq!['&', 'a', 'm', 'p', ';']) { seq!['&'] + dec(t.skip(5)) }
    else if starts(t, seq!['&', 'l', 't', ';']) { seq!['<'] + dec(t.skip(4)) }
    else if starts(t, seq!['&', 'g', 't', ';']) { seq!['>'] + dec(t.skip(4)) }
    else if starts(t, seq!['&', 'q', 'u', 'o', 't', ';']) { seq!['"'] + dec(t.skip(6)) }
    else if starts(t, seq!['&', 'a', 'p', 'o', 's', ';']) { seq!['\''] + dec(t.skip(6)) }
    else if starts(t, seq!['&', '#', 'x', 'A', ';']) { seq!['\n'] + dec(t.skip(5)) }
    else { seq![t[0]] + dec(t.skip(1)) }
}
proof fn lemma_esc_front(s: Seq<char>)
    requires s.len() > 0
    ensures esc(s) == esc1(s[0]) + esc(s.skip(1)), nocr(s) == (if s[0] == '\r' { nocr(s.skip(1)) } else { seq![s[0]] + nocr(s.skip(1)) })
    decreases s.len()
{
    if s.len() == 1 {
        assert(s.drop_last() =~= Seq::empty()); assert(s.skip(1) =~= Seq::empty());
        assert(esc(s) =~= esc1(s[0]) + esc(s.skip(1)));
        assert(nocr(s) =~= (if s[0] == '\r' { nocr(s.skip(1)) } else { seq![s[0]] + nocr(s.skip(1)) }));
    } else {
        lemma_esc_front(s.drop_last());
        assert(s.drop_last().skip(1) =~= s.skip(1).drop_last());
        assert(s.skip(1).last() == s.last());
        assert(esc(s) =~= esc1(s[0]) + esc(s.skip(1)));
        assert(nocr(s) =~= (if s[0] == '\r' { nocr(s.skip(1)) } else { seq![s[0]] + nocr(s.skip(1)) }));
    }
}
/// A parser recovers exactly the caller's text (without carriage returns) from escaped text.
proof fn lemma_decodes(s: Seq<char>)
    ensures dec(esc(s)) == nocr(s)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_decodes(s.skip(1)); lemma_esc_front(s);
        let t = esc(s); let w = esc1(s[0]); let rest = esc(s.skip(1));
        assert(t.skip(w.len() as int) =~= rest);
        assert(t.take(w.len() as int) =~= w);
        if s[0] == '\r' { assert(t =~= rest); }
        else {
            assert(t[0] == w[0]);
            if w.len() > 1 { assert(t[1] == w[1]); assert(t[2] == w[2]);  }
            assert forall |v: Seq<char>| #[trigger] starts(t, v) implies (forall |k: int| 0 <= k < v.len() ==> t[k] == v[k]) by {
                assert forall |k: int| 0 <= k < v.len() implies t[k] == v[k] by { assert(t.take(v.len() as int)[k] == v[k]); }
            }
            assert(starts(t, w));
            assert(dec(t) =~= seq![s[0]] + dec(rest));
        }
    }
}
/// No markup character survives escaping.
proof fn lemma_no_markup(s: Seq<char>)
    ensures forall |i: int| 0 <= i < esc(s).len() ==> (#[trigger] esc(s)[i]) != '<' && esc(s)[i] != '>' && esc(s)[i] != '"' && esc(s)[i] != '\'' && esc(s)[i] != '\n' && esc(s)[i] != '\r'
    decreases s.len()
{
    if s.len() > 0 {
        lemma_no_markup(s.drop_last());
        let a = esc(s.drop_last()); let w = esc1(s.last());
        assert forall |i: int| 0 <= i < esc(s).len() implies (#[trigger] esc(s)[i]) != '<' && esc(s)[i] != '>' && esc(s)[i] != '"' && esc(s)[i] != '\'' && esc(s)[i] != '\n' && esc(s)[i] != '\r' by {
            if i < a.len() { assert(esc(s)[i] == a[i]); } else { assert(esc(s)[i] == w[i - a.len()]); }
        }
    }
}
/// Different texts (up to carriage returns) stay different: escaping is injective, so nothing can be confused with markup.
proof fn lemma_injective(s: Seq<char>, t: Seq<char>)
    requires esc(s) == esc(t),
    ensures nocr(s) == nocr(t),
    decreases s.len() + t.len()
{
    if s.len() > 0 && s.last() == '\r' { assert(esc(s) =~= esc(s.drop_last())); lemma_injective(s.drop_last(), t); }
    else if t.len() > 0 && t.last() == '\r' { assert(esc(t) =~= esc(t.drop_last())); lemma_injective(s, t.drop_last()); }
    else if s.len() == 0 || t.len() == 0 {
        if s.len() > 0 { assert(esc1(s.last()).len() > 0); assert(esc(s).len() > 0); }
        if t.len() > 0 { assert(esc1(t.last()).len() > 0); assert(esc(t).len() > 0); }
    } else {
        let (a, b) = (s.last(), t.last());
        let e = esc(s);
        let (x, y) = (esc1(a), esc1(b));
        assert forall |i: int| 0 <= i < x.len() implies e[e.len() - x.len() + i] == x[i] by {}
        assert forall |i: int| 0 <= i < y.len() implies e[e.len() - y.len() + i] == y[i] by {}
        assert(e.last() == x.last() && e.last() == y.last());
        lemma_amp(s.drop_last()); lemma_amp(t.drop_last());
        if x.len() == 1 && y.len() == 1 { assert(a == b); }
        else { lemma_tail(s.drop_last(), a, t.drop_last(), b); }
        assert(a == b);
        assert(esc(s.drop_last()) =~= e.take(e.len() - x.len()));
        assert(esc(t.drop_last()) =~= e.take(e.len() - y.len()));
        lemma_injective(s.drop_last(), t.drop_last());
    }
}
/// Every ampersand of escaped text starts a reference that is closed by a semicolon before the next ampersand.
pub open spec fn ref_at(t: Seq<char>, i: int) -> bool {
    exists |c: char| special(c) && c != '\r' && #[trigger] esc1(c).len() + i <= t.len() && t.subrange(i, i + esc1(c).len()) == esc1(c)
}
proof fn lemma_amp(s: Seq<char>)
    ensures forall |i: int| 0 <= i < esc(s).len() && #[trigger] esc(s)[i] == '&' ==> ref_at(esc(s), i)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_amp(s.drop_last());
        let a = esc(s.drop_last()); let w = esc1(s.last()); let t = esc(s);
        assert forall |i: int| 0 <= i < t.len() && #[trigger] t[i] == '&' implies ref_at(t, i) by {
            if i < a.len() {
                assert(a[i] == '&'); assert(ref_at(a, i));
                let c = choose |c: char| special(c) && c != '\r' && #[trigger] esc1(c).len() + i <= a.len() && a.subrange(i, i + esc1(c).len()) == esc1(c);
                assert(t.subrange(i, i + esc1(c).len()) =~= a.subrange(i, i + esc1(c).len()));
            } else {
                let k = i - a.len();
                assert(w[k] == '&');
                assert(special(s.last()));
                assert(k == 0);
                assert(t.subrange(i, i + w.len()) =~= w);
            }
        }
    }
}
proof fn lemma_tail(s: Seq<char>, a: char, t: Seq<char>, b: char)
    requires esc(s) + esc1(a) == esc(t) + esc1(b), a != '\r', b != '\r',
    ensures a == b
{
    let e = esc(s) + esc1(a); let f = esc(t) + esc1(b);
    let (x, y) = (esc1(a), esc1(b));
    if a != b {
        assert(e.last() == x.last()); assert(f.last() == y.last());
        let n = e.len();
        // a raw ';' after a closed reference cannot be told apart only if the reference belongs to the prefix: impossible by shape
        if x.len() == 1 && y.len() > 1 { lemma_semi(s, a, y); assert(e.skip(n - y.len()) =~= y); }
        else if y.len() == 1 && x.len() > 1 { lemma_semi(t, b, x); assert(f.skip(n - x.len()) =~= x); }
        else if x.len() > 1 && y.len() > 1 {
            assert(e.skip(n - y.len()) =~= y); assert(e.skip(n - x.len()) =~= x);
            assert(e[n - 2] == x[x.len() - 2] && e[n - 2] == y[y.len() - 2]);
            assert(e[n - 3] == x[x.len() - 3] && e[n - 3] == y[y.len() - 3]);
        }
    }
}
/// Text ending in a plain character never ends like a reference.
proof fn lemma_semi(s: Seq<char>, a: char, y: Seq<char>)
    requires esc1(a).len() == 1, exists |c: char| special(c) && c != '\r' && y == #[trigger] esc1(c),
    ensures (esc(s) + esc1(a)).len() < y.len() || (esc(s) + esc1(a)).skip((esc(s) + esc1(a)).len() - y.len()) != y
{
    let e = esc(s) + esc1(a);
    if e.len() >= y.len() && e.skip(e.len() - y.len()) == y {
        let i = e.len() - y.len();
        assert(e[i] == y[0]); assert(y[0] == '&');
        assert(i < esc(s).len());
        assert(esc(s)[i] == '&');
        lemma_amp(s);
        assert(ref_at(esc(s), i));
        let c = choose |c: char| special(c) && c != '\r' && #[trigger] esc1(c).len() + i <= esc(s).len() && esc(s).subrange(i, i + esc1(c).len()) == esc1(c);
        let z = esc1(c);
        assert forall |k: int| 0 <= k < z.len() implies e[i + k] == z[k] by { assert(esc(s).subrange(i, i + z.len())[k] == z[k]); }
        assert forall |k: int| 0 <= k < y.len() implies e[i + k] == y[k] by { assert(e.skip(i)[k] == y[k]); }
        assert(z.len() < y.len());
        assert(e[i + z.len() - 1] == ';');
        assert(y[z.len() - 1] == ';');
    }
}
proof fn lemma_esc_id(s: Seq<char>)
    requires forall |i: int| 0 <= i < s.len() ==> !special(#[trigger] s[i]),
    ensures esc(s) == s
    decreases s.len()
{
    if s.len() > 0 {
        assert forall |i: int| 0 <= i < s.drop_last().len() implies !special(#[trigger] s.drop_last()[i]) by { assert(!special(s[i])); }
        lemma_esc_id(s.drop_last()); assert(!special(s[s.len() - 1])); assert(esc(s) =~= s);
    }
}
/// An ASCII character is its own byte in UTF-8.
proof fn lemma_ascii_byte(s: Seq<char>, i: int)
    requires 0 <= i < s.len(), (s[i] as u32) < 128,
    ensures exists |j: int| 0 <= j < vstd::utf8::encode_utf8(s).len() && #[trigger] vstd::utf8::encode_utf8(s)[j] == s[i] as u8
    decreases s.len()
{
    reveal_with_fuel(vstd::utf8::encode_utf8, 2);
    let b = vstd::utf8::encode_utf8(s);
    let h = vstd::utf8::encode_scalar(s[0] as u32);
    let rest = vstd::utf8::encode_utf8(s.drop_first());
    assert(b == h + rest);
    if i == 0 {
        let v = s[0] as u32; assert(v & 0x7f == v) by (bit_vector) requires v < 128; assert(v & 0x7fu32 == v); assert(h.len() == 1); assert(h[0] == s[0] as u8);
        assert(b[0] == s[0] as u8);
    } else {
        lemma_ascii_byte(s.drop_first(), i - 1);
        let j = choose |j: int| 0 <= j < rest.len() && #[trigger] rest[j] == s[i] as u8;
        assert(b[h.len() + j] == s[i] as u8);
    }
}
//@fn escape/mod.rs::escape autostr
//@|  ensures r@ == esc(text@),
//@sub `text.chars()` => `vx_chars(text)`
//@attr
//@|  #[verifier::loop_isolation(false)]
//@loop 0 iter=it
//@|  invariant escaped@ == esc(text@.take(it.index@))
//@loopstart 0
//@|  proof { assert(text@.take(it.index@ + 1).drop_last() =~= text@.take(it.index@)); }
//@loopend 0
//@|  proof { assert(escaped@ =~= esc(text@.take(it.index@ + 1))); }
//@at end
//@|  proof { assert(text@.take(text@.len() as int) =~= text@); }
//@end
//@fn escape/mod.rs::escape_owned
//@|  ensures r@ == esc(text@),
//@sub `text~~.as_bytes()~~.iter()~~.any(` => `vx_any(text.as_str().as_bytes(), `
//@sub `|byte|` => `|byte: &u8|`
//@closure 0
//@|  -> (o: bool) ensures o == special_byte(*byte)
//@at start
//@|  proof {
//@|    if forall |j: int| 0 <= j < vstd::utf8::encode_utf8(text@).len() ==> !special_byte(#[trigger] vstd::utf8::encode_utf8(text@)[j]) {
//@|      assert forall |i: int| 0 <= i < text@.len() implies !special(#[trigger] text@[i]) by { if special(text@[i]) { lemma_ascii_byte(text@, i); } }
//@|      lemma_esc_id(text@);
//@|    }
//@|  }
//@end
//@gsub `.replace('\n', "")` => `.vx_nolf()`
/// Run text is one line: line feeds are dropped.
pub open spec fn nolf(s: Seq<char>) -> Seq<char> { s.filter(|c: char| c != '\n') }
// TRUSTED: str::replace('\n', "") removes the line feeds.
pub trait VxNolf { fn vx_nolf(&self) -> (r: String); }
impl VxNolf for String { #[verifier::external_body] fn vx_nolf(&self) -> (r: String) ensures r@ == nolf(self@) { self.replace('\n', "") } }
//@fn Text::new
//@|  ensures r.text@ == esc(text.chars()),
//@end
//@fn DeleteText::new
//@|  ensures r.text@ == esc(text.chars()),
//@end
//@fn Text::without_escape
//@|  ensures r.text@ == text.chars(),
//@end
//@fn DeleteText::without_escape
//@|  ensures r.text@ == text.chars(),
//@end
//@fn RunStyle::new
//@|  ensures r.val@ == esc(val.chars()),
//@end
//@fn BasedOn::new
//@|  ensures r.val@ == esc(val.chars()),
//@end
//@fn Next::new
//@|  ensures r.val@ == esc(val.chars()),
//@end
//@fn Link::new
//@|  ensures r.val@ == esc(val.chars()),
//@end
//@fn TableStyle::new
//@|  ensures r.val@ == esc(val.chars()),
//@end
//@fn Name::new
//@|  ensures r.name@ == esc(name.chars()),
//@end
//@fn ParagraphStyle::new
//@|  ensures val matches Some(v) ==> r.val@ == esc(v.chars()),
//@end
//@fn InstrTC::new
//@|  ensures r.text@ == esc(text.chars()),
//@end
//@fn Style::new
//@|  ensures r.style_id@ == esc(style_id.chars()),
//@end
//@fn Style::name
//@|  ensures r.name.name@ == esc(name.chars()), r.style_id == self.style_id,
//@end
//@fn Style::based_on
//@|  ensures r.based_on matches Some(b) && b.val@ == esc(base.chars()), r.style_id == self.style_id, r.name == self.name,
//@end
//@fn Style::next
//@|  ensures r.next matches Some(b) && b.val@ == esc(next.chars()), r.style_id == self.style_id, r.name == self.name,
//@end
//@fn Style::link
//@|  ensures r.link matches Some(b) && b.val@ == esc(link.chars()), r.style_id == self.style_id, r.name == self.name,
//@end
//@fn Insert::author
//@|  ensures r.author@ == esc(author.chars()),
//@end
//@fn Delete::author
//@|  ensures r.author@ == esc(author.chars()),
//@end
//@fn MoveFrom::author
//@|  ensures r.author@ == esc(author.chars()),
//@end
//@fn MoveTo::author
//@|  ensures r.author@ == esc(author.chars()),
//@end
//@fn ParagraphPropertyChange::author
//@|  ensures r.author@ == esc(author.chars()),
//@end
//@fn Comment::author
//@|  ensures r.author@ == esc(author.chars()),
//@end
//@fn RunFonts::ascii
//@|  ensures r.ascii matches Some(x) && x@ == esc(f.chars()), r.hi_ansi == self.hi_ansi, r.east_asia == self.east_asia, r.cs == self.cs, r.ascii_theme == self.ascii_theme, r.hi_ansi_theme == self.hi_ansi_theme, r.east_asia_theme == self.east_asia_theme, r.cs_theme == self.cs_theme, r.hint == self.hint,
//@end
//@fn RunFonts::hi_ansi
//@|  ensures r.hi_ansi matches Some(x) && x@ == esc(f.chars()), r.ascii == self.ascii, r.east_asia == self.east_asia, r.cs == self.cs, r.ascii_theme == self.ascii_theme, r.hi_ansi_theme == self.hi_ansi_theme, r.east_asia_theme == self.east_asia_theme, r.cs_theme == self.cs_theme, r.hint == self.hint,
//@end
//@fn RunFonts::east_asia
//@|  ensures r.east_asia matches Some(x) && x@ == esc(f.chars()), r.ascii == self.ascii, r.hi_ansi == self.hi_ansi, r.cs == self.cs, r.ascii_theme == self.ascii_theme, r.hi_ansi_theme == self.hi_ansi_theme, r.east_asia_theme == self.east_asia_theme, r.cs_theme == self.cs_theme, r.hint == self.hint,
//@end
//@fn RunFonts::cs
//@|  ensures r.cs matches Some(x) && x@ == esc(f.chars()), r.ascii == self.ascii, r.hi_ansi == self.hi_ansi, r.east_asia == self.east_asia, r.ascii_theme == self.ascii_theme, r.hi_ansi_theme == self.hi_ansi_theme, r.east_asia_theme == self.east_asia_theme, r.cs_theme == self.cs_theme, r.hint == self.hint,
//@end
//@fn RunFonts::ascii_theme
//@|  ensures r.ascii_theme matches Some(x) && x@ == esc(f.chars()), r.ascii == self.ascii, r.hi_ansi == self.hi_ansi, r.east_asia == self.east_asia, r.cs == self.cs, r.hi_ansi_theme == self.hi_ansi_theme, r.east_asia_theme == self.east_asia_theme, r.cs_theme == self.cs_theme, r.hint == self.hint,
//@end
//@fn RunFonts::hi_ansi_theme
//@|  ensures r.hi_ansi_theme matches Some(x) && x@ == esc(f.chars()), r.ascii == self.ascii, r.hi_ansi == self.hi_ansi, r.east_asia == self.east_asia, r.cs == self.cs, r.ascii_theme == self.ascii_theme, r.east_asia_theme == self.east_asia_theme, r.cs_theme == self.cs_theme, r.hint == self.hint,
//@end
//@fn RunFonts::east_asia_theme
//@|  ensures r.east_asia_theme matches Some(x) && x@ == esc(f.chars()), r.ascii == self.ascii, r.hi_ansi == self.hi_ansi, r.east_asia == self.east_asia, r.cs == self.cs, r.ascii_theme == self.ascii_theme, r.hi_ansi_theme == self.hi_ansi_theme, r.cs_theme == self.cs_theme, r.hint == self.hint,
//@end
//@fn RunFonts::cs_theme
//@|  ensures r.cs_theme matches Some(x) && x@ == esc(f.chars()), r.ascii == self.ascii, r.hi_ansi == self.hi_ansi, r.east_asia == self.east_asia, r.cs == self.cs, r.ascii_theme == self.ascii_theme, r.hi_ansi_theme == self.hi_ansi_theme, r.east_asia_theme == self.east_asia_theme, r.hint == self.hint,
//@end
//@fn RunFonts::hint
//@|  ensures r.hint matches Some(x) && x@ == esc(f.chars()), r.ascii == self.ascii, r.hi_ansi == self.hi_ansi, r.east_asia == self.east_asia, r.cs == self.cs, r.ascii_theme == self.ascii_theme, r.hi_ansi_theme == self.hi_ansi_theme, r.east_asia_theme == self.east_asia_theme, r.cs_theme == self.cs_theme,
//@end
//@fn Hyperlink::new
//@|  ensures match t { HyperlinkType::External => r.link matches HyperlinkData::External { rid, path } && path@ == esc(value.chars()), HyperlinkType::Anchor => r.link matches HyperlinkData::Anchor { anchor } && anchor@ == value.chars() },
//@end
//@fn DocumentRels::add_hyperlinks
//@|  ensures r.hyperlinks@.len() == self.hyperlinks@.len() + 1, r.hyperlinks@.last().0@ == id.chars(), r.hyperlinks@.last().1@ == esc(path.chars()), r.hyperlinks@.last().2@ == vx_type.chars(),
//@end
//@fn TableOfContents::delete
//@|  ensures r.delete matches Some(d) && d.author@ == esc(author.chars()) && d.date@ == date.chars(),
//@end
//@fn Run::add_text
//@|  ensures r.children@.len() == self.children@.len() + 1, r.children@.last() matches RunChild::Text(t) && t.text@ == esc(nolf(text.chars())), r.children@.drop_last() == self.children@,
//@end
//@fn Run::add_delete_text
//@|  ensures r.children@.len() == self.children@.len() + 1, r.children@.last() matches RunChild::DeleteText(t) && t.text@ == esc(nolf(text.chars())), r.children@.drop_last() == self.children@,
//@end
//@fn Run::add_text_without_escape
//@|  ensures r.children@.len() == self.children@.len() + 1, r.children@.last() matches RunChild::Text(t) && t.text@ == nolf(text.chars()), r.children@.drop_last() == self.children@,
//@end
//@fn Run::add_delete_text_without_escape
//@|  ensures r.children@.len() == self.children@.len() + 1, r.children@.last() matches RunChild::DeleteText(t) && t.text@ == nolf(text.chars()), r.children@.drop_last() == self.children@,
//@end
//@fn Paragraph::delete
//@|  ensures r.property.run_property.del matches Some(d) && d.author@ == esc(author.chars()),
//@end
//@fn Paragraph::insert
//@|  ensures r.property.run_property.ins matches Some(d) && d.author@ == esc(author.chars()),
//@end
//@fn Insert::date
//@|  ensures r.author == self.author, r.date@ == date.chars(),
//@end
//@fn Delete::date
//@|  ensures r.author == self.author, r.date@ == date.chars(),
//@end
//@fn MoveFrom::date
//@|  ensures r.author == self.author, r.date@ == date.chars(),
//@end
//@fn MoveTo::date
//@|  ensures r.author == self.author, r.date@ == date.chars(),
//@end
//@fn ParagraphPropertyChange::date
//@|  ensures r.author == self.author, r.date@ == date.chars(),
//@end
//@fn Comment::date
//@|  ensures r.author == self.author, r.date@ == date.chars(),
//@end
//@auto
fn main(){}
proof fn vx_probe() ensures false {}
}
