use crate::index::{cfg_off, slice, FnItem, Index};
use serde_json::json;
use std::path::Path;
use syn::spanned::Spanned;
use syn::visit::Visit;

pub struct Out {
    pub text: String,
    pub lines: usize,
    pub fns: Vec<serde_json::Value>,
    pub types: Vec<String>,
    pub missing: Vec<String>,
    pub lost: Vec<serde_json::Value>,
    pub subs: Vec<serde_json::Value>,
    pub dropped_fields: Vec<String>,
    pub trusted: Vec<String>,
    pub force_ext: Vec<String>,
    pub emitted: std::collections::BTreeSet<String>,
    pub calls: std::collections::BTreeSet<String>,
    /// rewrite `format!` into calls the verifier has contracts for
    pub fmt: bool,
    pub fmt_write: bool,
}

impl Out {
    fn push(&mut self, s: &str) {
        self.text.push_str(s);
        if !s.ends_with('\n') {
            self.text.push('\n');
        }
        self.lines = self.text.matches('\n').count();
    }
    pub fn map(&self) -> serde_json::Value {
        json!({
            "fns": self.fns, "types": self.types, "missing": self.missing, "lost": self.lost,
            "subs": self.subs, "dropped_fields": self.dropped_fields, "trusted": self.trusted,
        })
    }
}

#[derive(Default, Clone, Debug)]
pub struct Overlay {
    pub contract: String,
    pub loops: Vec<(usize, Option<String>, Option<String>, String)>,
    pub before: Vec<(String, String)>,
    pub after: Vec<(String, String)>,
    pub start: String,
    pub tail: String,
    pub loopstart: Vec<(usize, String)>,
    pub loopend: Vec<(usize, String)>,
    pub afterloop: Vec<(usize, String)>,
    pub closures: Vec<(usize, String)>,
    pub all_closures: Option<String>,
    pub all_loops: Option<String>,
    pub pre_loops: String,
    pub reader_loops: bool,
    pub casts: bool,
    pub closure_of: Option<String>,
    pub subs: Vec<(String, String)>,
    pub ext: bool,
    pub free: bool,
    pub as_trait: bool,
    pub name: Option<String>,
    pub ret: String,
    pub attr: String,
    pub auto_str: bool,
    pub distinct: bool,
    pub fmt_ok: bool,
    pub split: bool,
    pub generics: Option<String>,
}

struct Body<'t> {
    text: &'t str,
    loops: Vec<(proc_macro2::Span, syn::Block, Option<proc_macro2::Span>, usize)>,
    stmts: Vec<std::ops::Range<usize>>,
    attrs: Vec<std::ops::Range<usize>>,
    off: Vec<std::ops::Range<usize>>,
    closures: Vec<syn::ExprClosure>,
    owner: std::collections::BTreeMap<usize, String>,
    calls: std::collections::BTreeSet<String>,
    strs: Vec<String>,
    heads: Vec<(usize, usize, String)>,
    casts: Vec<(usize, usize, String)>,
}

impl<'ast, 't> Visit<'ast> for Body<'t> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let off = match s {
            syn::Stmt::Local(l) => cfg_off(&l.attrs),
            syn::Stmt::Expr(e, _) => cfg_off(expr_attrs(e)),
            syn::Stmt::Macro(m) => cfg_off(&m.attrs),
            _ => false,
        };
        // items declared inside the body are indexed and extracted on their own
        if off || matches!(s, syn::Stmt::Item(_)) {
            self.off.push(s.span().byte_range());
            return;
        }
        self.stmts.push(s.span().byte_range());
        syn::visit::visit_stmt(self, s);
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        if cfg_off(&a.attrs) {
            self.off.push(a.span().byte_range());
            return;
        }
        syn::visit::visit_arm(self, a);
    }
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        self.attrs.push(a.span().byte_range());
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        // `for p in &mut x` is the same as `for p in x.iter_mut()`, `for p in &x` as `for p in x.iter()`
        if let syn::Expr::Reference(r) = &*l.expr {
            {
                let it = if r.mutability.is_some() { ".iter_mut()" } else { ".iter()" };
                let (a, b) = (l.expr.span().byte_range(), r.expr.span().byte_range());
                self.heads.push((a.start, b.start, String::new()));
                self.heads.push((b.end, b.end, it.to_string()));
            }
        }
        // loop variables are bound by name: destructure at the start of the body
        if let syn::Pat::TupleStruct(t) = &*l.pat {
            let r = t.span().byte_range();
            let nm = format!("vx_e{}", self.loops.len());
            let p = l.body.brace_token.span.open().byte_range().end;
            self.heads.push((p, p, format!(" let {} = {nm};", &self.text[r.clone()])));
            self.heads.push((r.start, r.end, nm));
        }
        self.loops.push((l.span(), l.body.clone(), Some(l.expr.span()), l.span().byte_range().end));
        syn::visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        self.loops.push((l.span(), l.body.clone(), None, l.span().byte_range().end));
        syn::visit::visit_expr_while(self, l);
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        self.loops.push((l.span(), l.body.clone(), None, l.span().byte_range().end));
        syn::visit::visit_expr_loop(self, l);
    }
    fn visit_expr_cast(&mut self, c: &'ast syn::ExprCast) {
        // `e as T` cannot fail; read as a call that gives some T (only with option `casts`)
        let (e, t) = (c.expr.span().byte_range(), c.ty.span().byte_range());
        self.casts.push((e.start, e.start, format!("vx_cast::<_, {}>(", &self.text[t.clone()])));
        self.casts.push((e.end, t.end, ")".to_string()));
        syn::visit::visit_expr_cast(self, c);
    }
    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        // `x |= e` on booleans
        if let syn::BinOp::BitOrAssign(o) = &b.op {
            let (o, r) = (o.span().byte_range(), b.right.span().byte_range());
            self.heads.push((o.start, o.end, ".vx_or_assign(".to_string()));
            self.heads.push((r.end, r.end, ")".to_string()));
        }
        syn::visit::visit_expr_binary(self, b);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        self.closures.push(c.clone());
        syn::visit::visit_expr_closure(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        for a in &m.args {
            if let syn::Expr::Closure(c) = a {
                self.owner.insert(c.span().byte_range().start, m.method.to_string());
            }
        }
        self.calls.insert(format!(".{}", m.method));
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if seg.len() >= 2 {
            self.calls.insert(format!("{}::{}", seg[seg.len() - 2], seg[seg.len() - 1]));
        } else {
            self.calls.insert(format!("::{}", seg[0]));
        }
        syn::visit::visit_expr_path(self, p);
    }
    fn visit_lit_str(&mut self, l: &'ast syn::LitStr) {
        let s = self.text[l.span().byte_range()].to_string();
        if !self.strs.contains(&s) {
            self.strs.push(s);
        }
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        collect_strs(m.tokens.clone(), self.text, &mut self.strs);
        syn::visit::visit_macro(self, m);
    }
}

fn collect_strs(ts: proc_macro2::TokenStream, text: &str, out: &mut Vec<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Literal(l) => {
                let s = text[l.span().byte_range()].to_string();
                if s.starts_with('"') && !out.contains(&s) {
                    out.push(s);
                }
            }
            proc_macro2::TokenTree::Group(g) => collect_strs(g.stream(), text, out),
            _ => {}
        }
    }
}

/// `format!("a{x}b{}", y)` as a chain of appends: `vx_fmt("a").show(&(x)).lit("b").show(&(y)).done()`.
/// Placeholders with a format specification are left alone.
/// With `write`, `write!(w, ..)` becomes `w.vx_write(..)` of that chain.
fn rewrite_format(s: String, write: bool) -> String {
    let mut out = String::new();
    let mut rest = s.as_str();
    loop {
        let (f, w) = (rest.find("format!("), rest.find("write!(").filter(|_| write));
        let Some(p) = f.into_iter().chain(w).min() else { break };
        let mac = if Some(p) == w { "write!(" } else { "format!(" };
        let (pre, tail) = rest.split_at(p);
        out.push_str(pre);
        let body = &tail[mac.len()..];
        let b: Vec<char> = body.chars().collect();
        let (mut depth, mut k, mut instr) = (1, 0, false);
        while k < b.len() {
            match b[k] {
                '\\' if instr => k += 1,
                '"' => instr = !instr,
                '(' if !instr => depth += 1,
                ')' if !instr => {
                    depth -= 1;
                    if depth == 0 {
                        break;
                    }
                }
                _ => {}
            }
            k += 1;
        }
        let inner: String = b[..k.min(b.len())].iter().collect();
        let parsed = syn::parse::Parser::parse_str(
            syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated,
            &inner,
        );
        let chain = parsed.ok().and_then(|args| {
            let mut it = args.iter();
            let to = if mac == "write!(" { Some(quote::ToTokens::to_token_stream(it.next()?).to_string()) } else { None };
            let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) = it.next()? else { return None };
            let f: Vec<char> = l.value().chars().collect();
            let (mut c, mut lit, mut i) = (String::new(), String::new(), 0);
            while i < f.len() {
                if (f[i] == '{' || f[i] == '}') && i + 1 < f.len() && f[i + 1] == f[i] {
                    lit.push(f[i]);
                    i += 2;
                } else if f[i] == '{' {
                    let e = (i..f.len()).find(|j| f[*j] == '}')?;
                    let name: String = f[i + 1..e].iter().collect();
                    if name.contains(':') {
                        return None;
                    }
                    let arg = if name.is_empty() { quote::ToTokens::to_token_stream(it.next()?).to_string() } else { name };
                    if c.is_empty() {
                        c = format!("vx_fmt({lit:?})");
                    } else if !lit.is_empty() {
                        c.push_str(&format!(".lit({lit:?})"));
                    }
                    c.push_str(&format!(".show(&({arg}))"));
                    lit.clear();
                    i = e + 1;
                } else {
                    lit.push(f[i]);
                    i += 1;
                }
            }
            if c.is_empty() {
                c = format!("vx_fmt({lit:?})");
            } else if !lit.is_empty() {
                c.push_str(&format!(".lit({lit:?})"));
            }
            Some(match to {
                Some(w) => format!("{w}.vx_write({c}.done())"),
                None => c + ".done()",
            })
        });
        match chain {
            Some(c) => {
                out.push_str(&c);
                rest = &body[inner.len() + 1..];
            }
            None => {
                out.push_str(mac);
                rest = body;
            }
        }
    }
    out.push_str(rest);
    out
}

fn expr_attrs(e: &syn::Expr) -> &[syn::Attribute] {
    match e {
        syn::Expr::Block(b) => &b.attrs,
        syn::Expr::If(b) => &b.attrs,
        syn::Expr::Match(b) => &b.attrs,
        syn::Expr::Call(b) => &b.attrs,
        syn::Expr::MethodCall(b) => &b.attrs,
        syn::Expr::Assign(b) => &b.attrs,
        syn::Expr::ForLoop(b) => &b.attrs,
        _ => &[],
    }
}

fn norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn tick(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut rest = s;
    while let Some(a) = rest.find('`') {
        let Some(b) = rest[a + 1..].find('`') else { break };
        v.push(rest[a + 1..a + 1 + b].to_string());
        rest = &rest[a + b + 2..];
    }
    v
}

pub fn run(ix: &Index, text: &str, dir: &Path, force_ext: Vec<String>) -> Out {
    let mut out = Out {
        text: String::new(),
        lines: 0,
        fns: vec![],
        types: vec![],
        missing: vec![],
        lost: vec![],
        subs: vec![],
        dropped_fields: vec![],
        trusted: vec![],
        force_ext,
        emitted: Default::default(),
        calls: Default::default(),
        fmt: false,
        fmt_write: false,
    };
    let mut gsubs = vec![];
    process(ix, text, dir, &mut out, &mut gsubs);
    out
}

fn process(ix: &Index, text: &str, dir: &Path, out: &mut Out, gsubs: &mut Vec<(String, String)>) {
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let t = l.trim_start();
        if !t.starts_with("//@") {
            out.push(l);
            i += 1;
            continue;
        }
        let d = t[3..].trim();
        let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
        match cmd {
            "include" => {
                let p = dir.join(rest.trim());
                let inc = std::fs::read_to_string(&p).unwrap_or_else(|_| panic!("include {p:?}"));
                process(ix, &inc, dir, out, gsubs);
                i += 1;
            }
            "fmt" => {
                out.fmt = true;
                out.fmt_write |= rest.trim() == "write";
                i += 1;
            }
            "gsub" => {
                let v = tick(rest);
                gsubs.push((v[0].clone(), v[1].clone()));
                i += 1;
            }
            "item" | "struct" | "enum" => {
                emit_type(ix, rest, out, gsubs);
                i += 1;
            }
            "fn" => {
                let (key, opts) = split_key(rest);
                let mut ov = parse_opts(&opts);
                i = parse_overlay(&lines, i + 1, &mut ov);
                emit_fn(ix, &key, &ov, out, gsubs);
            }
            "bulk" => {
                // //@bulk PREFIX SUFFIX [except=a,b]  : every indexed fn whose key matches
                let (key, opts) = split_key(rest);
                let mut ov = parse_opts(&opts);
                i = parse_overlay(&lines, i + 1, &mut ov);
                let except: Vec<String> = opts
                    .iter()
                    .find_map(|o| o.strip_prefix("except="))
                    .map(|s| s.split(',').map(|x| x.replace('~', " ")).collect())
                    .unwrap_or_default();
                let infile = opts.iter().find_map(|o| o.strip_prefix("file="));
                let insig = opts.iter().find_map(|o| o.strip_prefix("sig="));
                let (a, b) = key.split_once('*').unwrap_or((&key, ""));
                for k in ix.fn_order.clone() {
                    if out.emitted.contains(&k) {
                        continue;
                    }
                    if k.starts_with(a) && k.ends_with(b) && !except.contains(&k) {
                        if let Some(f) = infile {
                            if !ix.files[ix.fns[&k].file].rel.starts_with(f) {
                                continue;
                            }
                        }
                        if let Some(w) = insig {
                            let f = &ix.fns[&k];
                            if !slice(&ix.files[f.file].text, f.sig.span()).contains(w) {
                                continue;
                            }
                        }
                        emit_fn(ix, &k, &ov, out, gsubs);
                    }
                }
            }
            "auto" => {
                loop {
                    let n = out.text.len();
                    auto_types(ix, rest, out, gsubs);
                    auto_stubs(ix, rest, out, gsubs);
                    if out.text.len() == n {
                        break;
                    }
                }
                i += 1;
            }
            "hooks" => {
                // //@hooks TYPE TRAIT a,b : the impl has exactly these methods, every default body is empty
                let w: Vec<&str> = rest.split_whitespace().collect();
                let pre = format!("<{} as {}>::", w[0], w[1]);
                let mut have: Vec<&str> = ix.fns.keys().filter_map(|k| k.strip_prefix(pre.as_str())).collect();
                let mut want: Vec<&str> = w[2].split(',').collect();
                have.sort();
                want.sort();
                let mut ok = have == want;
                match ix.types.get(w[1]).map(|t| &t.item) {
                    Some(syn::Item::Trait(t)) => {
                        for x in &t.items {
                            if let syn::TraitItem::Fn(f) = x {
                                ok &= f.default.as_ref().map(|b| b.stmts.is_empty()).unwrap_or(false);
                            }
                        }
                    }
                    _ => ok = false,
                }
                if !ok {
                    out.missing.push(format!("impl {} for {} with the hooks {} and empty defaults", w[1], w[0], w[2]));
                }
                i += 1;
            }
            "autotypes" => {
                auto_types(ix, rest, out, gsubs);
                i += 1;
            }
            _ => panic!("unknown directive {l}"),
        }
    }
}

fn split_key(s: &str) -> (String, Vec<String>) {
    let s = s.trim();
    // keys may contain spaces inside <...>
    if let Some(r) = s.strip_prefix('<') {
        if let Some(p) = r.find(">::") {
            let tail = &r[p + 3..];
            let (n, o) = tail.split_once(' ').unwrap_or((tail, ""));
            return (
                format!("<{}>::{}", &r[..p], n),
                o.split_whitespace().map(|x| x.to_string()).collect(),
            );
        }
    }
    let (k, o) = s.split_once(' ').unwrap_or((s, ""));
    (k.to_string(), o.split_whitespace().map(|x| x.to_string()).collect())
}

fn parse_opts(opts: &[String]) -> Overlay {
    let mut ov = Overlay { ret: "r".into(), ..Default::default() };
    for o in opts {
        if o == "ext" {
            ov.ext = true
        } else if o == "free" {
            ov.free = true
        } else if o == "trait" {
            ov.as_trait = true
        } else if o == "split" {
            ov.split = true;
            ov.as_trait = true
        } else if o == "fmtok" {
            ov.fmt_ok = true
        } else if o == "casts" {
            ov.casts = true
        } else if o == "distinct" {
            ov.auto_str = true;
            ov.distinct = true
        } else if o == "autostr" {
            ov.auto_str = true
        } else if let Some(n) = o.strip_prefix("name=") {
            ov.name = Some(n.to_string())
        } else if let Some(n) = o.strip_prefix("r=") {
            ov.ret = n.to_string()
        }
    }
    ov
}

fn parse_overlay(lines: &[&str], mut i: usize, ov: &mut Overlay) -> usize {
    enum Cur {
        C,
        L(usize),
        B(usize),
        A(usize),
        S,
        Ls(usize),
        Le(usize),
        Al(usize),
        E,
        Cl(usize),
        Ac,
        At,
        AL,
        PL,
        None,
    }
    let mut cur = Cur::C;
    while i < lines.len() {
        let t = lines[i].trim_start();
        if !t.starts_with("//@") {
            break;
        }
        let d = t[3..].trim_end();
        if let Some(txt) = d.strip_prefix('|') {
            let txt = format!("{txt}\n");
            match cur {
                Cur::C => ov.contract.push_str(&txt),
                Cur::L(k) => ov.loops[k].3.push_str(&txt),
                Cur::B(k) => ov.before[k].1.push_str(&txt),
                Cur::A(k) => ov.after[k].1.push_str(&txt),
                Cur::S => ov.start.push_str(&txt),
                Cur::E => ov.tail.push_str(&txt),
                Cur::Ls(k) => ov.loopstart[k].1.push_str(&txt),
                Cur::Le(k) => ov.loopend[k].1.push_str(&txt),
                Cur::Al(k) => ov.afterloop[k].1.push_str(&txt),
                Cur::Cl(k) => ov.closures[k].1.push_str(&txt),
                Cur::Ac => ov.all_closures.as_mut().unwrap().push_str(&txt),
                Cur::At => ov.attr.push_str(&txt),
                Cur::AL => ov.all_loops.as_mut().unwrap().push_str(&txt),
                Cur::PL => ov.pre_loops.push_str(&txt),
                Cur::None => {}
            }
            i += 1;
            continue;
        }
        let d = d.trim();
        let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
        match cmd {
            "end" => return i + 1,
            "loop" if rest.trim() == "*" => {
                ov.all_loops = Some(String::new());
                cur = Cur::AL;
            }
            "preloop" => cur = Cur::PL,
            "readerloops" => ov.reader_loops = true,
            "loop" => {
                let n: usize = rest.split_whitespace().next().unwrap().parse().unwrap();
                let iter = rest
                    .split_whitespace()
                    .find_map(|x| x.strip_prefix("iter="))
                    .map(|s| s.to_string());
                let expect = tick(rest).into_iter().next();
                ov.loops.push((n, iter, expect, String::new()));
                cur = Cur::L(ov.loops.len() - 1);
            }
            "at" => cur = if rest.trim() == "end" { Cur::E } else { Cur::S },
            "before" => {
                ov.before.push((tick(rest)[0].clone(), String::new()));
                cur = Cur::B(ov.before.len() - 1);
            }
            "after" => {
                ov.after.push((tick(rest)[0].clone(), String::new()));
                cur = Cur::A(ov.after.len() - 1);
            }
            "loopstart" => {
                ov.loopstart.push((rest.trim().parse().unwrap(), String::new()));
                cur = Cur::Ls(ov.loopstart.len() - 1);
            }
            "loopend" => {
                ov.loopend.push((rest.trim().parse().unwrap(), String::new()));
                cur = Cur::Le(ov.loopend.len() - 1);
            }
            "afterloop" => {
                ov.afterloop.push((rest.trim().parse().unwrap(), String::new()));
                cur = Cur::Al(ov.afterloop.len() - 1);
            }
            "closure" => {
                if let Some(p) = rest.trim().strip_suffix('*') {
                    if !p.is_empty() {
                        ov.closure_of = Some(p.to_string());
                    }
                    ov.all_closures = Some(String::new());
                    cur = Cur::Ac;
                } else {
                    ov.closures.push((rest.trim().parse().unwrap(), String::new()));
                    cur = Cur::Cl(ov.closures.len() - 1);
                }
            }
            "attr" => cur = Cur::At,
            "generics" => ov.generics = Some(rest.trim().to_string()),
            "sub" => {
                let v = tick(rest);
                ov.subs.push((v[0].clone(), v[1].clone()));
                cur = Cur::None;
            }
            _ => return i,
        }
        i += 1;
    }
    i
}

/// The parameter that is an event reader.
fn reader_param(f: &FnItem, text: &str) -> Option<String> {
    f.sig.inputs.iter().find_map(|a| match a {
        syn::FnArg::Typed(t) if text[t.ty.span().byte_range()].contains("EventReader") => Some(match &*t.pat {
            syn::Pat::Ident(i) => i.ident.to_string(),
            _ => "_r".to_string(),
        }),
        _ => None,
    })
}

fn accumulator(t: &str) -> Option<String> {
    let w = |c: char| c.is_alphanumeric() || c == '_';
    for (i, _) in t.match_indices(" = ") {
        let l: String = t[..i].chars().rev().take_while(|c| w(*c)).collect::<String>().chars().rev().collect();
        let r: String = t[i + 3..].chars().take_while(|c| w(*c)).collect();
        let pre = t[..i - l.len()].trim_end();
        let next = t[i + 3 + r.len()..].trim_start();
        if !l.is_empty() && l == r && !t.contains(&format!("let mut {l} ")) && !pre.ends_with("let") && !pre.ends_with("mut") && !pre.ends_with('.') && next.starts_with('.') && next[1..].trim_start().starts_with(|c: char| c.is_lowercase()) {
            return Some(l);
        }
    }
    None
}

fn find_ws(s: &str, pat: &str) -> Option<std::ops::Range<usize>> {
    let ps: Vec<&str> = pat.split("~~").collect();
    for (i, _) in s.match_indices(ps[0]) {
        let mut e = i + ps[0].len();
        let mut ok = true;
        for p in &ps[1..] {
            e += s[e..].len() - s[e..].trim_start().len();
            if !s[e..].starts_with(p) {
                ok = false;
                break;
            }
            e += p.len();
        }
        if ok {
            return Some(i..e);
        }
    }
    None
}

fn apply_subs(
    mut s: String,
    subs: &[(String, String)],
    key: &str,
    out: &mut Out,
) -> String {
    for (a, b) in subs {
        let b = b.replace("\\n", "\n");
        if a.contains("~~") {
            // "~~" stands for any white space
            let mut n = 0;
            while let Some(r) = find_ws(&s, a) {
                s.replace_range(r, &b);
                n += 1;
                if n > 50 {
                    break;
                }
            }
            if n > 0 {
                out.subs.push(json!({"in": key, "from": a, "to": b, "count": n}));
            }
            continue;
        }
        if s.contains(a.as_str()) {
            let n = s.matches(a.as_str()).count();
            s = s.replace(a.as_str(), &b);
            out.subs.push(json!({"in": key, "from": a, "to": b, "count": n}));
        }
    }
    s
}

pub fn emit_type(ix: &Index, rest: &str, out: &mut Out, gsubs: &[(String, String)]) {
    let mut it = rest.split_whitespace();
    let key = it.next().unwrap().to_string();
    let opts: Vec<&str> = it.collect();
    let drop: Vec<&str> = opts
        .iter()
        .find_map(|o| o.strip_prefix("drop="))
        .map(|s| s.split(',').collect())
        .unwrap_or_default();
    let attr = opts
        .iter()
        .find_map(|o| o.strip_prefix("attr="))
        .map(|s| s.replace('~', " "))
        .unwrap_or_default();
    let Some(t) = ix.types.get(&key) else {
        out.missing.push(key);
        return;
    };
    let text = &ix.files[t.file].text;
    let mut s = String::new();
    let attrs = match &t.item {
        syn::Item::Struct(x) => &x.attrs[..],
        syn::Item::Enum(x) => &x.attrs[..],
        _ => &[],
    };
    if attrs.iter().any(|a| a.path().is_ident("derive") && quote::ToTokens::to_token_stream(a).to_string().contains("Copy")) {
        s.push_str("#[derive(Clone, Copy)]\n");
    }
    if let syn::Item::Enum(e) = &t.item {
        let plain = e.variants.iter().all(|v| matches!(v.fields, syn::Fields::Unit));
        if plain && attrs.iter().any(|a| a.path().is_ident("derive") && quote::ToTokens::to_token_stream(a).to_string().contains("PartialEq")) {
            s.push_str("#[derive(PartialEq, Eq, Structural)]\n");
        }
    }
    if !attr.is_empty() {
        s.push_str(&attr);
        s.push('\n');
    }
    let g = |gen: &syn::Generics| {
        if gen.params.is_empty() {
            String::new()
        } else {
            slice(text, gen.span()).to_string()
        }
    };
    match &t.item {
        syn::Item::Struct(st) => {
            s.push_str(&format!("pub struct {}{}", st.ident, g(&st.generics)));
            match &st.fields {
                syn::Fields::Named(n) => {
                    s.push_str(" {\n");
                    for f in &n.named {
                        if cfg_off(&f.attrs) {
                            continue;
                        }
                        let id = f.ident.as_ref().unwrap().to_string();
                        if drop.contains(&id.as_str()) {
                            out.dropped_fields.push(format!("{}.{}", key, id));
                            continue;
                        }
                        s.push_str(&format!("    pub {}: {},\n", id, slice(text, f.ty.span())));
                    }
                    s.push('}');
                }
                syn::Fields::Unnamed(u) => {
                    s.push('(');
                    for f in &u.unnamed {
                        s.push_str(&format!("pub {}, ", slice(text, f.ty.span())));
                    }
                    s.push_str(");");
                }
                syn::Fields::Unit => s.push(';'),
            }
        }
        syn::Item::Enum(en) => {
            s.push_str(&format!("pub enum {}{} {{\n", en.ident, g(&en.generics)));
            for v in &en.variants {
                if cfg_off(&v.attrs) {
                    continue;
                }
                if drop.contains(&v.ident.to_string().as_str()) {
                    out.dropped_fields.push(format!("{}::{}", key, v.ident));
                    continue;
                }
                s.push_str(&format!("    {}", v.ident));
                match &v.fields {
                    syn::Fields::Named(n) => {
                        s.push_str(" { ");
                        for f in &n.named {
                            s.push_str(&format!(
                                "{}: {}, ",
                                f.ident.as_ref().unwrap(),
                                slice(text, f.ty.span())
                            ));
                        }
                        s.push('}');
                    }
                    syn::Fields::Unnamed(u) => {
                        s.push('(');
                        for f in &u.unnamed {
                            s.push_str(&format!("{}, ", slice(text, f.ty.span())));
                        }
                        s.push(')');
                    }
                    syn::Fields::Unit => {}
                }
                s.push_str(",\n");
            }
            s.push('}');
        }
        syn::Item::Type(ty) => {
            s.push_str(&format!(
                "pub type {}{} = {};",
                ty.ident,
                g(&ty.generics),
                slice(text, ty.ty.span())
            ));
        }
        syn::Item::Const(c) => {
            s.push_str(&format!(
                "pub const {}: {} = {};",
                c.ident,
                slice(text, c.ty.span()),
                slice(text, c.expr.span())
            ));
        }
        _ => {
            out.missing.push(key);
            return;
        }
    }
    let s = apply_subs(s, gsubs, &key, out);
    out.types.push(format!("{} ({}:{})", key, ix.files[t.file].rel, t.line));
    out.push(&s);
}

fn block_inner_start(b: &syn::Block) -> usize {
    b.brace_token.span.open().byte_range().end
}
fn block_inner_end(b: &syn::Block) -> usize {
    b.brace_token.span.close().byte_range().start
}

pub fn emit_fn(ix: &Index, key: &str, ov: &Overlay, out: &mut Out, gsubs: &[(String, String)]) {
    let key = key.to_string();
    let mut ov = ov.clone();
    if out.force_ext.contains(&key) {
        ov.ext = true;
    }
    let ov = &ov;
    let Some(f) = ix.fns.get(&key) else {
        out.missing.push(key);
        return;
    };
    out.emitted.insert(key.clone());
    let text = &f.text;
    let mut v = Body {
        text,
        loops: vec![],
        stmts: vec![],
        attrs: vec![],
        off: vec![],
        closures: vec![],
        owner: Default::default(),
        calls: Default::default(),
        strs: vec![],
        heads: vec![],
        casts: vec![],
    };
    v.visit_block(&f.block);
    let mut ins: Vec<(usize, usize, String)> = vec![]; // (start, end, replacement)
    for a in &v.attrs {
        ins.push((a.start, a.end, String::new()));
    }
    for a in &v.off {
        ins.push((a.start, a.end, String::new()));
    }
    ins.extend(v.heads.iter().cloned());
    if ov.casts {
        ins.extend(v.casts.iter().cloned());
    }
    // The verifier does not take `mut self`: bind it to a local of another name.
    let mut_self = matches!(f.sig.inputs.first(), Some(syn::FnArg::Receiver(r)) if r.mutability.is_some() && r.reference.is_none());
    if mut_self {
        let mut v = vec![];
        self_tokens(quote::ToTokens::to_token_stream(&f.block), &mut v);
        for r in v {
            ins.push((r.start, r.end, "this".to_string()));
        }
        let p = block_inner_start(&f.block);
        ins.push((p, p, "\nlet mut this = self;".to_string()));
    }
    if !ov.ext {
        out.calls.extend(v.calls.iter().map(|c| c.replace("Self::", &format!("{}::", f.self_ty.clone().unwrap_or_default()))));
        let mut start = ov.start.clone();
        if ov.auto_str && !v.strs.is_empty() {
            let rs: Vec<String> = v.strs.iter().map(|s| format!("reveal_strlit({s});")).collect();
            let mut rs = rs;
            if ov.distinct {
                // attribute and element names: literals of equal length differ at a known position
                let name = |s: &String| s.len() <= 32 && s.trim_matches('"').chars().all(|c| c.is_alphanumeric() || c == ':' || c == '_');
                let ns: Vec<&String> = v.strs.iter().filter(|s| name(s)).collect();
                for (i, a) in ns.iter().enumerate() {
                    for b in &ns[..i] {
                        if a.len() == b.len() {
                            let k = a.chars().zip(b.chars()).position(|(x, y)| x != y).unwrap_or(1) - 1;
                            rs.push(format!("assert({a}@[{k}] != {b}@[{k}]);"));
                        }
                    }
                }
            }
            start = format!("proof {{ {} }}\n{start}", rs.join(" "));
        }
        if !start.is_empty() {
            let p = block_inner_start(&f.block);
            ins.push((p, p, format!("\n{start}")));
        }
        if !ov.tail.is_empty() {
            let unit = matches!(f.sig.output, syn::ReturnType::Default);
            match f.block.stmts.last() {
                Some(syn::Stmt::Expr(e, None)) if unit => {
                    let p = e.span().byte_range().end;
                    ins.push((p, p, format!(";\n{}\n", ov.tail)));
                }
                Some(syn::Stmt::Expr(e, None)) => {
                    let p = e.span().byte_range().start;
                    ins.push((p, p, format!("\n{}\n", ov.tail)));
                }
                _ => {
                    let p = block_inner_end(&f.block);
                    ins.push((p, p, format!("\n{}\n", ov.tail)));
                }
            }
        }
        for (n, iter, expect, txt) in &ov.loops {
            match v.loops.get(*n) {
                None => out.lost.push(json!({"fn": key, "anchor": format!("loop {n}")})),
                Some((span, body, it, _)) => {
                    let head = &text[span.byte_range().start..body.span().byte_range().start];
                    if let Some(e) = expect {
                        if norm(head) != norm(e) {
                            out.lost.push(json!({"fn": key, "anchor": format!("loop {n}"), "expected": e, "found": norm(head)}));
                        }
                    }
                    if let (Some(nm), Some(sp)) = (iter, it) {
                        let p = sp.byte_range().start;
                        ins.push((p, p, format!("{nm}: ")));
                    }
                    let p = body.span().byte_range().start;
                    ins.push((p, p, format!("\n{txt}")));
                }
            }
        }
        if let (Some(txt), true) = (&ov.all_loops, ov.loops.is_empty()) {
            // `$V` = the accumulator `v` of a loop whose body assigns `v = v...`, `$N` = loop number
            for (n, (span, body, _, _)) in v.loops.iter().enumerate() {
                let b = body.span().byte_range();
                if let Some(var) = accumulator(&text[b.clone()]) {
                    let f = |t: &String| t.replace("$V", &var).replace("$N", &n.to_string());
                    ins.push((b.start, b.start, format!("\n{}", f(txt))));
                    let p = span.byte_range().start;
                    ins.push((p, p, format!("\n{}\n", f(&ov.pre_loops))));
                }
            }
        }
        if ov.reader_loops {
            // every `loop`/`while` whose body takes events: the events left decrease
            for (n, (span, body, it, _)) in v.loops.iter().enumerate() {
                let b = body.span().byte_range();
                if it.is_some() {
                    if let Some(r) = reader_param(f, text) {
                        let e = span.byte_range().end;
                        if !text[e..].trim_start().starts_with([',', '}', ')', ';']) {
                            ins.push((e, e, ";".to_string()));
                        }
                        ins.push((b.start, b.start, format!("\n invariant {r}.rest() <= old({r}).rest(), {r}.wf(),\n")));
                    }
                    continue;
                }
                let Some(r) = text[b.clone()].find(".next_event()").map(|e| {
                    let t = &text[b.clone()][..e];
                    t[t.rfind(|c: char| !c.is_alphanumeric() && c != '_').map_or(0, |i| i + 1)..].to_string()
                }) else {
                    out.lost.push(json!({"fn": key, "anchor": format!("loop {n} takes no events")}));
                    continue;
                };
                let param = f.sig.inputs.iter().any(|a| matches!(a, syn::FnArg::Typed(t) if matches!(&*t.pat, syn::Pat::Ident(i) if i.ident == r.as_str())));
                let old = if param { format!("{r}.rest() <= old({r}).rest(), ") } else { String::new() };
                ins.push((b.start, b.start, format!("\n invariant {r}.wf(), {old}{r}.rest() <= vx_r{n}, decreases {r}.rest(),\n")));
                let s = span.byte_range();
                ins.push((s.start, s.start, format!("{{ let ghost vx_r{n} = {r}.rest(); ")));
                ins.push((s.end, s.end, " }".to_string()));
            }
        }
        // Loops without an overlay entry: contract written for a different loop structure.
        if !ov.loops.is_empty() && v.loops.len() > ov.loops.iter().map(|l| l.0 + 1).max().unwrap() {
            out.lost.push(json!({"fn": key, "anchor": "extra loop"}));
        }
        if ov.loops.is_empty() && !v.loops.is_empty() && ov.all_closures.is_none() && !ov.reader_loops {
            out.lost.push(json!({"fn": key, "anchor": "loop without invariant"}));
        }
        for (n, txt) in &ov.loopstart {
            if let Some((_, b, _, _)) = v.loops.get(*n) {
                let p = block_inner_start(b);
                ins.push((p, p, format!("\n{txt}")));
            }
        }
        for (n, txt) in &ov.loopend {
            if let Some((_, b, _, _)) = v.loops.get(*n) {
                let p = block_inner_end(b);
                ins.push((p, p, format!("\n{txt}")));
            }
        }
        for (n, txt) in &ov.afterloop {
            if let Some((_, _, _, e)) = v.loops.get(*n) {
                ins.push((*e, *e, format!("\n{txt}")));
            }
        }
        for (is_before, list) in [(true, &ov.before), (false, &ov.after)] {
            for (sub, txt) in list {
                // innermost statement containing the anchor text
                let pos = norm_find(text, f.block.span().byte_range(), sub);
                let st = pos.and_then(|p| {
                    v.stmts
                        .iter()
                        .filter(|r| r.start <= p && p < r.end)
                        .min_by_key(|r| r.end - r.start)
                });
                match st {
                    None => out.lost.push(json!({"fn": key, "anchor": sub})),
                    Some(r) => {
                        let p = if is_before { r.start } else { r.end };
                        ins.push((p, p, format!("\n{txt}\n")));
                    }
                }
            }
        }
        for (k, c) in v.closures.iter().enumerate() {
            let txt = ov
                .closures
                .iter()
                .find(|(n, _)| *n == k)
                .map(|(_, t)| t.clone())
                .or(match (&ov.closure_of, v.owner.get(&c.span().byte_range().start)) {
                    (Some(p), Some(m)) if m.starts_with(p.as_str()) => ov.all_closures.clone(),
                    (Some(_), _) => None,
                    (None, _) => ov.all_closures.clone(),
                });
            if let Some(mut txt) = txt {
                for (j, pat) in c.inputs.iter().rev().enumerate() {
                    if let syn::Pat::Ident(i) = pat {
                        txt = txt.replace(&format!("${j}"), &i.ident.to_string());
                    }
                }
                if txt.contains('$') {
                    continue;
                }
                let p = c.or2_token.span.byte_range().end;
                let b = c.body.span().byte_range();
                // the verifier takes only variables as closure parameters: bind the pattern in the body
                let mut lets = String::new();
                for (j, pat) in c.inputs.iter().enumerate() {
                    if !matches!(pat, syn::Pat::Ident(_) | syn::Pat::Type(_) | syn::Pat::Wild(_)) {
                        let r = pat.span().byte_range();
                        lets.push_str(&format!("let {} = vx_p{j}; ", &text[r.clone()]));
                        ins.push((r.start, r.end, format!("vx_p{j}")));
                    }
                }
                if let (syn::Expr::Block(eb), false) = (&*c.body, lets.is_empty()) {
                    let q = block_inner_start(&eb.block);
                    ins.push((q, q, lets.clone()));
                } else if !lets.is_empty() {
                    txt.push_str(&format!(" {{ {lets}"));
                    ins.push((p, p, format!(" {txt} ")));
                    ins.push((b.end, b.end, " }".to_string()));
                    continue;
                }
                if matches!(*c.body, syn::Expr::Block(_)) {
                    ins.push((p, p, format!(" {txt} ")));
                } else {
                    ins.push((p, p, format!(" {txt} {{ ")));
                    ins.push((b.end, b.end, " }".to_string()));
                }
            }
        }
        for (n, _) in &ov.closures {
            if *n >= v.closures.len() {
                out.lost.push(json!({"fn": key, "anchor": format!("closure {n}")}));
            }
        }
    }
    let body_span = f.block.span().byte_range();
    let mut body = String::new();
    // stable by position; insertions at the same place keep the order they were added
    ins.sort_by_key(|(a, b, _)| (*a, *b > *a));
    let mut pos = body_span.start;
    for (a, b, t) in &ins {
        if *a < pos {
            continue;
        }
        body.push_str(&text[pos..*a]);
        body.push_str(t);
        pos = *b;
    }
    body.push_str(&text[pos..body_span.end]);

    let sig_start = f.sig.fn_token.span.byte_range().start;
    let paren_end = f.sig.paren_token.span.close().byte_range().end;
    let mut head = text[sig_start..paren_end].to_string();
    if mut_self {
        head = head.replacen("mut self", "self", 1);
    }
    if let Some(n) = &ov.name {
        let old = f.sig.ident.to_string();
        head = head.replacen(&format!("fn {old}"), &format!("fn {n}"), 1);
    }
    match &f.sig.output {
        syn::ReturnType::Default => {}
        syn::ReturnType::Type(_, t) => {
            head.push_str(&format!(" -> ({}: {})", ov.ret, slice(text, t.span())));
        }
    }
    if let Some(w) = &f.sig.generics.where_clause {
        head.push(' ');
        head.push_str(slice(text, w.span()));
    }
    for (a, b) in &f.assoc {
        head = head.replace(&format!("Self::{a}"), b);
        body = body.replace(&format!("Self::{a}"), b);
    }
    let mut s = String::new();
    if ov.ext {
        s.push_str("#[verifier::external_body]\n");
        out.trusted.push(key.clone());
    }
    if !ov.attr.is_empty() {
        s.push_str(&ov.attr);
    }
    let vis = if ov.as_trait { "" } else { "pub " };
    s.push_str(vis);
    s.push_str(&head);
    s.push('\n');
    // `$R` = the parameter that is an event reader
    let rd = reader_param(f, text);
    s.push_str(&ov.contract.replace("$R", rd.as_deref().unwrap_or("r")));
    if ov.ext {
        s.push_str("{ unimplemented!() }\n");
    } else {
        s.push_str(&body);
        s.push('\n');
    }
    let mut subs = ov.subs.clone();
    subs.extend(gsubs.iter().cloned());
    let s = apply_subs(s, &subs, &key, out);
    let s = if out.fmt { rewrite_format(s, out.fmt_write) } else { s };
    if !ov.ext && !ov.fmt_ok {
        // a format string with placeholders that no substitution has rewritten is outside the subset
        for mac in ["write!(", "format!(", "writeln!("] {
            let mut at = 0;
            while let Some(p) = s[at..].find(mac) {
                at += p + mac.len();
                let rest = &s[at..];
                if let Some(q) = rest.find('"') {
                    let lit = &rest[q + 1..];
                    let lit = &lit[..lit.find('"').unwrap_or(lit.len())];
                    if lit.contains('{') {
                        out.lost.push(json!({"fn": key, "anchor": "format string", "found": lit}));
                    }
                }
            }
        }
    }
    let s = match (&f.self_ty, ov.free) {
        (Some(_), false) => {
            let gen = ov.generics.clone().unwrap_or(f.impl_generics.clone());
            if ov.as_trait {
                let mut tr = f.trait_.clone().unwrap_or_default();
                if ov.split {
                    tr = format!("{tr}Body");
                }
                format!("impl{} {} for {} {{\n{}}}\n", gen, tr, f.self_ty_full, s)
            } else {
                format!("impl{} {} {{\n{}}}\n", gen, f.self_ty_full, s)
            }
        }
        _ => s,
    };
    if ov.split {
        // Recursive trait dispatch: calls go to a trait method that carries only the trait's contract,
        // the body is verified against the same contract in an inherent function.
        let gen = ov.generics.clone().unwrap_or(f.impl_generics.clone());
        let tr = f.trait_.clone().unwrap_or_default();
        let mut h = apply_subs(head.clone(), &subs, &key, out);
        if let Some(n) = &ov.name {
            h = h.replacen(&format!("fn {n}"), &format!("fn {}", f.sig.ident), 1);
        }
        let ty = apply_subs(f.self_ty_full.clone(), &subs, &key, out);
        out.push(&format!(
            "impl{gen} {tr} for {ty} {{\n#[verifier::external_body]\n{h}\n{{ unimplemented!() }}\n}}\n"
        ));
    }
    let start = out.lines + 1;
    out.push(&s);
    let end = out.lines;
    out.fns.push(json!({
        "fn": key, "file": ix.files[f.file].rel, "line": f.line, "start": start, "end": end,
        "verified": !ov.ext, "loops": v.loops.len(), "closures": v.closures.len(),
        "text": hash(&quote::ToTokens::to_token_stream(&f.block).to_string()),
        "shape": hash(&shape(quote::ToTokens::to_token_stream(&f.block))),
    }));
}

/// The tokens with the statements of every block sorted: the same for two bodies that differ in statement order only.
fn shape(ts: proc_macro2::TokenStream) -> String {
    let (mut parts, mut cur) = (vec![], String::new());
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => {
                let brace = g.delimiter() == proc_macro2::Delimiter::Brace;
                cur.push_str(&format!("{:?}[{}]", g.delimiter(), shape(g.stream())));
                if brace {
                    parts.push(std::mem::take(&mut cur));
                }
            }
            proc_macro2::TokenTree::Punct(p) if p.as_char() == ';' => parts.push(std::mem::take(&mut cur)),
            t => cur.push_str(&format!("{t} ")),
        }
    }
    parts.push(cur);
    parts.retain(|p| !p.is_empty());
    parts.sort();
    parts.join("|")
}

fn hash(s: &str) -> String {
    format!("{:016x}", s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)))
}

fn norm_find(text: &str, r: std::ops::Range<usize>, sub: &str) -> Option<usize> {
    if let Some(p) = text[r.clone()].find(sub) {
        return Some(r.start + p);
    }
    // whitespace-insensitive search
    let want: Vec<char> = sub.chars().filter(|c| !c.is_whitespace()).collect();
    if want.is_empty() {
        return None;
    }
    let hay: Vec<(usize, char)> = text[r.clone()]
        .char_indices()
        .filter(|(_, c)| !c.is_whitespace())
        .collect();
    'o: for i in 0..hay.len() {
        if i + want.len() > hay.len() {
            break;
        }
        for (k, w) in want.iter().enumerate() {
            if hay[i + k].1 != *w {
                continue 'o;
            }
        }
        return Some(r.start + hay[i].0);
    }
    None
}

#[allow(dead_code)]
fn unused(_: &FnItem) {}

fn self_tokens(ts: proc_macro2::TokenStream, out: &mut Vec<std::ops::Range<usize>>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Ident(i) if i == "self" => out.push(i.span().byte_range()),
            proc_macro2::TokenTree::Group(g) => self_tokens(g.stream(), out),
            _ => {}
        }
    }
}

/// Emits every indexed type named in the text so far that the unit does not define itself, transitively.
fn auto_types(ix: &Index, rest: &str, out: &mut Out, gsubs: &[(String, String)]) {
    let opts: Vec<&str> = rest.split_whitespace().collect();
    let list = |k: &str| -> Vec<String> {
        opts.iter()
            .find_map(|o| o.strip_prefix(k))
            .map(|s| s.split(',').map(|x| x.to_string()).collect())
            .unwrap_or_default()
    };
    let except = list("except=");
    let drop = list("drop=");
    loop {
        let (used, defined) = idents(&out.text);
        let todo: Vec<String> = used
            .iter()
            .filter(|n| ix.types.contains_key(*n) && !defined.contains(*n) && !except.contains(n))
            .cloned()
            .collect();
        if todo.is_empty() {
            break;
        }
        for n in todo {
            let d: Vec<&str> = drop
                .iter()
                .filter_map(|x| x.split_once('.'))
                .filter(|(t, _)| *t == n)
                .map(|(_, f)| f)
                .collect();
            let before = out.text.len();
            let spec = if d.is_empty() { n.clone() } else { format!("{n} drop={}", d.join(",")) };
            emit_type(ix, &spec, out, gsubs);
            if out.text.len() == before {
                return;
            }
        }
    }
}

fn idents(text: &str) -> (std::collections::BTreeSet<String>, std::collections::BTreeSet<String>) {
    let mut used = std::collections::BTreeSet::new();
    let mut def = std::collections::BTreeSet::new();
    for line in text.lines() {
        let line = line.split("//").next().unwrap();
        let mut code = String::new();
        let mut in_str = false;
        let mut prev = ' ';
        for c in line.chars() {
            if c == '"' && prev != '\\' && prev != '\'' {
                in_str = !in_str;
            } else if !in_str {
                code.push(c);
            }
            prev = c;
        }
        let toks: Vec<&str> = code
            .split(|c: char| !(c.is_alphanumeric() || c == '_'))
            .filter(|x| !x.is_empty())
            .collect();
        for (k, t) in toks.iter().enumerate() {
            if k > 0 && ["struct", "enum", "type", "trait", "const"].contains(&toks[k - 1]) {
                def.insert(t.to_string());
            }
            used.insert(t.to_string());
        }
    }
    (used, def)
}

/// Signature-only (trusted, unspecified) stubs for every indexed function that the verified bodies may call
/// and the unit does not otherwise emit.
fn auto_stubs(ix: &Index, rest: &str, out: &mut Out, gsubs: &[(String, String)]) {
    let except: Vec<String> = rest
        .split_whitespace()
        .find_map(|o| o.strip_prefix("except="))
        .map(|s| s.split(',').map(|x| x.to_string()).collect())
        .unwrap_or_default();
    let (used, _) = idents(&out.text);
    let calls = out.calls.clone();
    let ov = Overlay { ret: "vx_r".into(), ext: true, ..Default::default() };
    for k in ix.fn_order.clone() {
        if out.emitted.contains(&k) || except.iter().any(|e| *e == k || e.strip_suffix('*').is_some_and(|p| k.starts_with(p))) {
            continue;
        }
        let f = &ix.fns[&k];
        let name = f.sig.ident.to_string();
        // a function returning an opaque type has no stub
        if matches!(&f.sig.output, syn::ReturnType::Type(_, t) if matches!(&**t, syn::Type::ImplTrait(_))) {
            continue;
        }
        let want = match &f.self_ty {
            None => calls.contains(&format!("::{name}")) || calls.iter().any(|c| c.ends_with(&format!("::{name}")) && c.starts_with(|ch: char| ch.is_lowercase())),
            Some(t) => {
                let recv = matches!(f.sig.inputs.first(), Some(syn::FnArg::Receiver(_)));
                if recv { calls.contains(&format!(".{name}")) && used.contains(t) || calls.contains(&format!("{t}::{name}")) } else { calls.contains(&format!("{t}::{name}")) }
            }
        };
        if want && f.trait_.as_deref().map_or(true, |t| !t.starts_with("From") && t != "BuildXML" && t != "Clone") {
            emit_fn(ix, &k, &ov, out, gsubs);
        }
    }
}
