"""Writes the units about tracked insertions, deletions and moves (tc_spec, tc_write, tc_read)."""
import os
U = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'units')
rd = lambda n: open(os.path.join(U, n)).read()
def wr(n, s): open(os.path.join(U, n), 'w').write(s)
pr, pw, cw = rd('pc_read.rs'), rd('pc_write.rs'), rd('cu_write.rs')
def cut(s, a, b):
    i = s.index(a); return s[i:s.index(b, i)]
T = [('Insert', 'ins', 'ins', 1), ('Delete', 'del', 'del', 0), ('MoveFrom', 'moveFrom', 'mf', 0), ('MoveTo', 'moveTo', 'mt', 1)]
OPEN = {'Insert': 'open_insert', 'Delete': 'open_delete', 'MoveFrom': 'open_move_from', 'MoveTo': 'open_move_to'}
NAMES = 'w:ins w:del w:moveFrom w:moveTo w:id w:author w:date'.split()
def kid(t, d):
    C = t + 'Child'
    return f'''pub open spec fn kid_{t}(c: {C}, log: Seq<Tok>) -> Seq<Tok> {{ match c {{ {C}::Run(b) => log + nest_toks(*b), {C + "::Delete(b) => log + nest_toks(b)," if d else ""} {C}::CommentStart(b) => log + nest_toks(*b), {C}::CommentEnd(b) => log + nest_toks(b) }} }}
pub open spec fn kids_{t}(c: Seq<{C}>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() {{ if c.len() == 0 {{ log }} else {{ kids_{t}(c.skip(1), kid_{t}(c[0], log)) }} }}
pub open spec fn onto_{t}(x: {t}, id: Seq<char>, log: Seq<Tok>) -> Seq<Tok> {{ kids_{t}(x.children@, log.push(Tok::Open(El {{ n: "{NM[t]}"@, a: by(id, x.author@, x.date@) }}))).push(Tok::Close("{NM[t]}"@)) }}
'''
NM = {t: n for t, n, _, _ in T}
wr('tc_spec.rs', '''// What tracked changes look like in a part.
/// What anything that has its own content is written as.
pub uninterp spec fn nest_toks<T>(v: T) -> Seq<Tok>;
pub open spec fn by(id: Seq<char>, author: Seq<char>, date: Seq<char>) -> Seq<At> { ats(ats(ats(Seq::empty(), "id"@, id), "author"@, author), "date"@, date) }
''' + ''.join(kid(t, d) for t, n, v, d in T) + '''/// What the names written look like without their prefix.
pub proof fn names()
    ensures ''' + ', '.join('local("%s"@) == "%s"@' % (n, n.split(':')[1]) for n in NAMES) + '''
{ ''' + ' '.join('reveal_strlit("%s"); reveal_strlit("%s"); assert(local("%s"@) =~= "%s"@);' % (n, n.split(':')[1], n, n.split(':')[1]) for n in NAMES) + ''' }
''' + ''.join(f'//@item {t}\n//@item {t}Child\n' for t, _, _, _ in T) + ''.join(f'#[verifier::external_body] pub struct {t} {{ x: u8 }}\n' for t in ['Run', 'CommentRangeStart', 'CommentRangeEnd']))
def wkid(t, d):
    C = t + 'Child'
    if not d: return ''
    return f'''//@fn <{C} as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for {C} {{
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> {{ kid_{t}(*self, log) }}
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) {{ self.build_to_body(stream) }}
}}
proof fn lemma_{t}(c: Seq<{C}>, log: Seq<Tok>) ensures all_onto(c, log) == kids_{t}(c, log) decreases c.len()
{{ if c.len() > 0 {{ lemma_{t}(c.skip(1), kid_{t}(c[0], log)); }} }}
'''
def wbody(t, n, d):
    C = t + 'Child'
    o = f'stream.log().push(Tok::Open(El {{ n: "{n}"@, a: by(i, self.author@, self.date@) }}))'
    if d:
        pre = f'assert forall |l: Seq<Tok>| #[trigger] all_onto(self.children@, l) == kids_{t}(self.children@, l) by {{ lemma_{t}(self.children@, l); }}'
        clo = ''; more = lm = ''
        lem = ''
    else:
        pre = f'assert forall |l: Seq<Tok>| #[trigger] fold(self.children@, l, g_{t}()) == kids_{t}(self.children@, l) by {{ lemma_{t}(self.children@, l); }}'
        more = f' && fold(self.children@, {o}, g_{t}()) == kids_{t}(self.children@, {o})'; lm = f'lemma_{t}(self.children@, {o});'
        clo = f'//@closure 0\n//@| -> (o: Result<XMLBuilder<W>>) ensures does(*ch, b, o, g_{t}())\n'
        lem = f'''pub open spec fn g_{t}() -> spec_fn({C}, Seq<Tok>) -> Seq<Tok> {{ |c: {C}, l: Seq<Tok>| kid_{t}(c, l) }}
proof fn lemma_{t}(c: Seq<{C}>, log: Seq<Tok>) ensures fold(c, log, g_{t}()) == kids_{t}(c, log) decreases c.len()
{{ if c.len() > 0 {{ lemma_{t}(c.skip(1), kid_{t}(c[0], log)); }} }}
'''
    return lem + f'''//@fn <{t} as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> (exists |i: Seq<char>| w.log() == #[trigger] onto_{t}(*self, i, stream.log())) && w.open() == stream.open(),
//@sub `self.generate()` => `vx_history_id()`
//@sub `id.as_ref()` => `id.as_str()`
{clo}//@at start
//@| proof {{ names(); {pre} assert(stream.open().push("{n}"@).drop_last() =~= stream.open()); assert forall |i: Seq<char>| #![trigger by(i, self.author@, self.date@)] onto_{t}(*self, i, stream.log()).len() >= 0{more} by {{{lm}}} }}
//@end
'''
each = cut(cw, 'pub open spec fn fold<T>', '// TRUSTED: iterate').replace('items: Vec<T>', "items: &Vec<T>").replace('`T, F: Fn(T, Self)`', '`T, F: Fn(&T, Self)`').replace('forall |t: T, b: Self| f.requires((t, b))', 'forall |t: T, b: Self| #[trigger] f.requires((&t, b))').replace('f.ensures((t, b), o)', 'f.ensures((&t, b), o)').replace('it.seq() == items0,', 'it.seq().len() == items0.len(), forall |j: int| 0 <= j < items0.len() ==> *(#[trigger] it.seq()[j]) == items0[j],')
wr('tc_write.rs', '''//@include prelude.rs
verus! {
//@include wr_pre.rs
//@include rx_spec.rs
//@include tc_spec.rs
//@include wr_head.rs
''' + cut(cw, '/// An element was opened.', '//@fn XMLBuilder::open_custom_properties') + '''// Numbers of changes are handed out by a counter; a reader ignores them.
#[verifier::external_body] pub fn vx_history_id() -> String { unimplemented!() }
''' + ''.join(f'''//@fn XMLBuilder::{OPEN[t]}
//@| ensures opened(self, r, El {{ n: "{n}"@, a: by(arg0@, arg1@, arg2@) }}),
//@at start
//@| proof {{ names(); }}
//@end
''' for t, n, _, _ in T) + '// TRUSTED here: what has its own content is written after what is there already (runs: unit rn_write).\n' + ''.join(f'''impl BuildXML for {t} {{
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> {{ log + nest_toks(*self) }}
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) {{ unimplemented!() }}
}}
''' for t in ['Run', 'CommentRangeStart', 'CommentRangeEnd', 'Delete']) + '''impl<T: BuildXML> BuildXML for Box<T> {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { (**self).onto(log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { (**self).build_to(stream) }
}
impl<'a, T: BuildXML> BuildXML for &'a T {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { (**self).onto(log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { (**self).build_to(stream) }
}
''' + cut(pw, 'pub open spec fn all_onto', 'proof fn lemma_all') + each + ''.join(wkid(t, d) for t, n, v, d in T) + ''.join(wbody(t, n, d) for t, n, v, d in T) + '''//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
''')
EL = {'r': 'Run', 'ins': 'Insert', 'del': 'Delete', 'moveFrom': 'MoveFrom', 'moveTo': 'MoveTo'}
ck = ' else '.join(f'if n == "{n}"@ {{ Some(XMLElement::{t}) }}' for n, t in EL.items()) + ' else { None }'
rev = ' '.join(f'reveal_strlit("{n}");' for n in EL)
def diffs(L):
    ex = []
    for i, a in enumerate(L):
        for b in L[i + 1:]:
            if len(a) == len(b):
                k = next(j for j in range(len(a)) if a[j] != b[j]); ex.append(f'assert("{a}"@[{k}] != "{b}"@[{k}]);')
    return ' '.join(f'reveal_strlit("{a}");' for a in L) + ' ' + ' '.join(ex)
LITS = list(EL)
head = cut(pr, '//@include prelude.rs', '#[verifier::opaque] pub open spec fn ck').replace('pc_spec', 'tc_spec')
def reader(t, n, v, d):
    C = t + 'Child'
    new = {'Insert': 'new_with_empty', 'MoveTo': 'new_with_empty'}.get(t, 'new')
    o = f'''// ---- {t}
pub open spec fn v_{t}(x: {t}) -> Ch<{C}> {{ Ch {{ author: x.author, date: x.date, c: x.children@ }} }}
//@fn <{t} as Default>::default r=out
//@| ensures out.children@ == Seq::<{C}>::empty(),
//@end
//@fn {t}::{new}
//@| ensures r.children@ == Seq::<{C}>::empty(),
//@sub `..Default::default()` => `..{t}::default()`
//@end
//@fn {t}::add_run
//@| ensures v_{t}(r) == (Ch {{ c: self.children@.push({C}::Run(Box::new(run))), ..v_{t}(self) }}),
//@end
''' + (f'''//@fn {t}::add_delete
//@| ensures v_{t}(r) == (Ch {{ c: self.children@.push({C}::Delete(del)), ..v_{t}(self) }}),
//@end
''' if d else '') + f'''//@fn {t}::add_comment_start ext
//@end
//@fn {t}::add_comment_end ext
//@end
//@fn {t}::author
//@| ensures v_{t}(r) == (Ch {{ author: escaped(author.chars()), ..v_{t}(self) }}),
//@end
//@fn {t}::date
//@| ensures v_{t}(r) == (Ch {{ date: strv(date.chars()), ..v_{t}(self) }}),
//@end
pub open spec fn rd_{t}(t: Seq<Tok>, c: Seq<{C}>) -> Option<(Seq<{C}>, Seq<Tok>)> decreases t.len()
{{
    if t.len() == 0 {{ None }} else {{ match t[0] {{
        Tok::Open(e) => if e.n == "r"@ {{ match run_val(t.skip(1)) {{ Some(y) => if y.1.len() < t.len() {{ rd_{t}(y.1, c.push({C}::Run(Box::new(y.0)))) }} else {{ None }}, None => None }} }}
            {f"""else if e.n == "del"@ {{ match del_val(e.a, t.skip(1)) {{ Some(y) => if y.1.len() < t.len() {{ rd_{t}(y.1, c.push({C}::Delete(y.0))) }} else {{ None }}, None => None }} }}""" if d else ''} else {{ None }},
        Tok::Close(n) => if n == "{n}"@ {{ Some((c, t.skip(1))) }} else {{ None }},
        Tok::Chars(_) => None,
    }} }}
}}
//@fn <{t} as ElementReader>::read r=out{'' if t != 'Delete' else ' name=read_body'}
//@| ensures rd_{t}(old(r).todo(), Seq::empty()) matches Some(y) ==> (out matches Ok(z) && told(v_{t}(z), av(attrs@), y.0)) && final(r).todo() == y.1,
//@sub `.expect("should convert to XMLElement")` => `.unwrap()`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@before `loop {{`
//@| let ghost vx_g = rd_{t}(r.todo(), Seq::empty()); let ghost vx_o = {v};
//@loop 0
//@| invariant vx_g == rd_{t}(old(r).todo(), Seq::empty()), vx_g is Some ==> rd_{t}(r.todo(), {v}.children@) == vx_g && {v}.author == vx_o.author && {v}.date == vx_o.date,
//@loopstart 0
//@| proof {{ cks(); lits(); reveal_with_fuel(rd_{t}, 2); assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }}
//@loop 1 iter=it
//@| invariant vx_g == rd_{t}(old(r).todo(), Seq::empty()), vx_g is Some ==> vx_g == Some(({v}.children@, r.todo())) && v_{t}({v}) == fin(vx_o.author, vx_o.date, av(attrs@).take(it.index@ as int), {v}.children@),
//@loopstart 1
//@| proof {{ let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At {{ n: attr.name.local_name@, v: attr.value@ }})); reveal_strlit("author"); reveal_strlit("date"); }}
//@afterloop 1
//@| proof {{ assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); assert(vx_g is Some ==> v_{t}({v}) == fin(vx_o.author, vx_o.date, av(attrs@), {v}.children@)); assert(vx_g is Some ==> vx_g == Some(({v}.children@, r.todo()))); }}
//@end
pub open spec fn settled_{t}(c: {C}) -> bool {{ match c {{ {C}::Run(b) => ran(*b), {C + "::Delete(b) => gone(b)," if d else ""} _ => false }} }}
pub open spec fn toks_{t}(c: Seq<{C}>) -> Seq<Tok> decreases c.len() {{ if c.len() == 0 {{ Seq::empty() }} else {{ kid_{t}(c[0], Seq::empty()) + toks_{t}(c.skip(1)) }} }}
proof fn lemma_kids_{t}(c: Seq<{C}>, log: Seq<Tok>) ensures kids_{t}(c, log) == log + toks_{t}(c) decreases c.len()
{{
    if c.len() == 0 {{ assert(log + toks_{t}(c) =~= log); }} else {{
        let k = kid_{t}(c[0], Seq::empty()); assert(kid_{t}(c[0], log) =~= log + k);
        lemma_kids_{t}(c.skip(1), kid_{t}(c[0], log));
        assert(log + k + toks_{t}(c.skip(1)) =~= log + (k + toks_{t}(c.skip(1))));
    }}
}}
proof fn lemma_all_{t}(c: Seq<{C}>, rest: Seq<Tok>, x: Seq<{C}>)
    requires forall |i: int| 0 <= i < c.len() ==> settled_{t}(#[trigger] c[i])
    ensures rd_{t}(toks_{t}(c) + rest, x) == rd_{t}(rest, x + c) decreases c.len()
{{
    if c.len() == 0 {{ assert(toks_{t}(c) + rest =~= rest); assert(x + c =~= x); }} else {{
        assert(settled_{t}(c[0])); lits();
        assert forall |i: int| 0 <= i < c.skip(1).len() implies settled_{t}(#[trigger] c.skip(1)[i]) by {{ assert(c.skip(1)[i] == c[i + 1]); }}
        let k = kid_{t}(c[0], Seq::empty()); let m = toks_{t}(c.skip(1)) + rest; let s = toks_{t}(c) + rest; assert(s =~= k + m);
        match c[0] {{
            {C}::Run(b) => {{ lemma_ran(*b, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(*b) + m); }}
            {f"{C}::Delete(b) => {{ let a = lemma_gone(b, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(b) + m); }}" if d else ''}
            _ => {{}}
        }}
        assert(rd_{t}(s, x) == rd_{t}(m, x.push(c[0]))) by {{ reveal_with_fuel(rd_{t}, 2); }}
        lemma_all_{t}(c.skip(1), rest, x.push(c[0]));
        assert(x.push(c[0]) + c.skip(1) =~= x + c);
    }}
}}
/// Whatever follows the change, reading what was written for it gives the same author, date and content in the same order.
proof fn theorem_tracked_{n}(x: {t}, id: Seq<char>, log: Seq<Tok>, rest: Seq<Tok>)
    requires escaped(seen(x.author@)) == x.author, seen(x.date@) == x.date@, forall |i: int| 0 <= i < x.children@.len() ==> settled_{t}(#[trigger] x.children@[i])
    ensures exists |b: Seq<Tok>| onto_{t}(x, id, log) == log.push(Tok::Open(El {{ n: "{n}"@, a: by(id, x.author@, x.date@) }})) + b && #[trigger] rd_{t}(b + rest, Seq::empty()) == Some((x.children@, rest)),
        forall |y: Ch<{C}>| #[trigger] told(y, by(id, x.author@, x.date@), x.children@) ==> y == v_{t}(x)
{{
    lits(); let c = x.children@; let e = Tok::Close("{n}"@); let b = toks_{t}(c).push(e); let h = log.push(Tok::Open(El {{ n: "{n}"@, a: by(id, x.author@, x.date@) }}));
    lemma_kids_{t}(c, h); assert(onto_{t}(x, id, log) =~= h + b);
    let tail = seq![e] + rest; assert(b + rest =~= toks_{t}(c) + tail); lemma_all_{t}(c, tail, Seq::empty());
    assert(Seq::<{C}>::empty() + c =~= c); assert(tail[0] == e); assert(tail.skip(1) =~= rest);
    assert(rd_{t}(tail, c) == Some((c, rest))) by {{ reveal_with_fuel(rd_{t}, 2); }}
    lemma_by(id, x.author@, x.date@);
}}
'''
    return o
wr('tc_read.rs', head.replace('//@include rx_spec.rs', '//@gsub `escape::` => ``\n//@include rx_spec.rs') + f'''#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> {{ {ck} }}
proof fn cks() ensures {', '.join(f'ck("{n}"@) == Some(XMLElement::{t})' for n, t in EL.items())} {{ reveal(ck); {diffs(LITS)} }}
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof {{ reveal(ck); {rev} }}
//@end
proof fn lits() ensures ''' + ', '.join(f'"{a}"@ != "{b}"@' for i, a in enumerate(LITS) for b in LITS[i + 1:]) + '''
{ ''' + diffs(LITS) + ''' }
pub uninterp spec fn escaped(s: Seq<char>) -> String;
//@fn escape/mod.rs::escape_owned ext
//@| ensures r == escaped(text@),
//@end
//@fn reader/ignore.rs::ignore_element ext
//@| ensures el != ignore ==> final(r).todo() == old(r).todo(),
//@end
#[verifier::external_body] pub struct Comment { x: u8 }
//@fn Comment::new ext
//@end
/// What reading a run and a deletion gives (unit rn_read; below).
pub uninterp spec fn run_val(t: Seq<Tok>) -> Option<(Run, Seq<Tok>)>;
pub uninterp spec fn del_val(a: Seq<At>, t: Seq<Tok>) -> Option<(Delete, Seq<Tok>)>;
//@fn <Run as ElementReader>::read ext r=out
//@| ensures run_val(old(r).todo()) matches Some(x) ==> (out == Ok::<Run, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
impl Delete { #[verifier::external_body] pub fn read<R: Read>(r: &mut EventReader<R>, attrs: &[OwnedAttribute]) -> (out: Result<Self, ReaderError>)
    ensures del_val(av(attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<Delete, ReaderError>(x.0) && final(r).todo() == x.1) { unimplemented!() } }
pub struct Ch<C> { pub author: String, pub date: String, pub c: Seq<C> }
pub open spec fn fin<C>(a0: String, d0: String, a: Seq<At>, c: Seq<C>) -> Ch<C> { Ch { author: match last(a, "author"@) { Some(v) => escaped(v), None => a0 }, date: match last(a, "date"@) { Some(v) => strv(v), None => d0 }, c } }
pub open spec fn told<C>(x: Ch<C>, a: Seq<At>, c: Seq<C>) -> bool { x.c == c && (last(a, "author"@) matches Some(v) ==> x.author == escaped(v)) && (last(a, "date"@) matches Some(v) ==> x.date == strv(v)) }
/// A run or a deletion is written between its tags and read back.
pub open spec fn ran(v: Run) -> bool { exists |a: Seq<At>, b: Seq<Tok>| #![trigger laid_run(v, a, b)] laid_run(v, a, b) }
pub open spec fn laid_run(v: Run, a: Seq<At>, b: Seq<Tok>) -> bool { nest_toks(v) == seq![Tok::Open(El { n: "r"@, a })] + b && forall |rest: Seq<Tok>| #[trigger] run_val(b + rest) == Some((v, rest)) }
pub open spec fn gone(v: Delete) -> bool { exists |a: Seq<At>, b: Seq<Tok>| #![trigger laid_del(v, a, b)] laid_del(v, a, b) }
pub open spec fn laid_del(v: Delete, a: Seq<At>, b: Seq<Tok>) -> bool { nest_toks(v) == seq![Tok::Open(El { n: "del"@, a })] + b && forall |rest: Seq<Tok>| #[trigger] del_val(a, b + rest) == Some((v, rest)) }
proof fn lemma_ran(v: Run, rest: Seq<Tok>)
    requires ran(v) ensures ({ let t = Seq::<Tok>::empty() + nest_toks(v) + rest; t.len() > 0 && (t[0] matches Tok::Open(e) && e.n == "r"@) && run_val(t.skip(1)) == Some((v, rest)) && rest.len() < t.len() })
{
    let (a, b) = choose |a: Seq<At>, b: Seq<Tok>| #![trigger laid_run(v, a, b)] laid_run(v, a, b);
    let t = Seq::<Tok>::empty() + nest_toks(v) + rest; assert(t =~= seq![Tok::Open(El { n: "r"@, a })] + (b + rest)); assert(t.skip(1) =~= b + rest);
}
proof fn lemma_gone(v: Delete, rest: Seq<Tok>) -> (a: Seq<At>)
    requires gone(v) ensures ({ let t = Seq::<Tok>::empty() + nest_toks(v) + rest; t.len() > 0 && t[0] == Tok::Open(El { n: "del"@, a }) && del_val(a, t.skip(1)) == Some((v, rest)) && rest.len() < t.len() })
{
    let (a, b) = choose |a: Seq<At>, b: Seq<Tok>| #![trigger laid_del(v, a, b)] laid_del(v, a, b);
    let t = Seq::<Tok>::empty() + nest_toks(v) + rest; assert(t =~= seq![Tok::Open(El { n: "del"@, a })] + (b + rest)); assert(t.skip(1) =~= b + rest); a
}
proof fn lemma_by(id: Seq<char>, author: Seq<char>, date: Seq<char>) ensures last(by(id, author, date), "author"@) == Some(seen(author)), last(by(id, author, date), "date"@) == Some(seen(date))
{
    reveal_strlit("id"); reveal_strlit("author"); reveal_strlit("date"); reveal_with_fuel(last, 4);
    let z = Seq::<At>::empty(); let x = z.push(At { n: "id"@, v: seen(id) }); let y = x.push(At { n: "author"@, v: seen(author) }); let w = y.push(At { n: "date"@, v: seen(date) });
    assert(w.drop_last() =~= y); assert(y.drop_last() =~= x);
}
''' + ''.join(reader(*x) for x in T) + '''//@auto except=documents/elements/style.rs*
proof fn vx_probe() ensures false {}
fn main(){}
}
''')
