//! Drafts specifications of builder methods. This is an authoring aid, run by hand: the draft is
//! reviewed and committed as a unit, no check runs it.
use crate::index::{FnItem, Index};
use quote::ToTokens;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
struct V {
    e: String,
    t: String,
    upd: BTreeMap<String, V>,
}

fn v(e: impl Into<String>, t: impl Into<String>) -> V {
    V { e: e.into(), t: t.into(), upd: BTreeMap::new() }
}

type R<T> = Result<T, String>;

pub struct Mine<'a> {
    ix: &'a Index,
    done: BTreeMap<String, R<String>>,
    order: Vec<String>,
    pub text: Vec<String>,
}

fn ty_text(t: &syn::Type, me: &str) -> String {
    let s = t.to_token_stream().to_string().replace(' ', "");
    let s = s.replace("implInto<String>", "impl Into<String>").replace("crate::types::", "").replace("crate::", "").replace("super::", "");
    if s == "Self" { return me.to_string(); }
    s
}

impl V {
    fn render(&self) -> String {
        if self.upd.is_empty() {
            return self.e.clone();
        }
        let fs: Vec<String> = self.upd.iter().map(|(k, x)| format!("{}: {}", k, x.render())).collect();
        format!("{} {{ {}, ..{} }}", self.t, fs.join(", "), self.e)
    }
}

/// Replaces the identifier `a` (not a field) by `b`.
fn words(s: &str, a: &str, b: &str) -> String {
    let id = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
    let mut r = String::new();
    let mut i = 0;
    while i < s.len() {
        let prev = s[..i].chars().last();
        if s[i..].starts_with(a) && !id(prev) && prev != Some('.') && !id(s[i + a.len()..].chars().next()) {
            r.push_str(b);
            i += a.len();
        } else {
            let c = s[i..].chars().next().unwrap();
            r.push(c);
            i += c.len_utf8();
        }
    }
    r
}

fn inner<'s>(t: &'s str, o: &str) -> Option<&'s str> {
    t.strip_prefix(&format!("{o}<")).and_then(|x| x.strip_suffix('>'))
}

impl<'a> Mine<'a> {
    pub fn new(ix: &'a Index) -> Self {
        Mine { ix, done: BTreeMap::new(), order: vec![], text: vec![] }
    }

    fn field_ty(&self, t: &str, f: &str) -> R<String> {
        let it = self.ix.types.get(t).ok_or(format!("no type {t}"))?;
        if let syn::Item::Struct(s) = &it.item {
            for (i, x) in s.fields.iter().enumerate() {
                let n = x.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string());
                if n == f {
                    return Ok(ty_text(&x.ty, t));
                }
            }
        }
        Err(format!("no field {t}.{f}"))
    }

    fn get(&self, x: &V, f: &str) -> R<V> {
        if let Some(y) = x.upd.get(f) {
            return Ok(y.clone());
        }
        let t = self.field_ty(&x.t, f)?;
        let e = if x.e.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') { x.e.clone() } else { format!("({})", x.e) };
        Ok(v(format!("{}.{}", e, f), t))
    }

    fn set(&self, x: &mut V, path: &[String], y: V) -> R<()> {
        if path.len() == 1 {
            let t = self.field_ty(&x.t, &path[0])?;
            let y = self.coerce(y, &t);
            x.upd.insert(path[0].clone(), y);
            return Ok(());
        }
        let mut k = self.get(x, &path[0])?;
        self.set(&mut k, &path[1..], y)?;
        x.upd.insert(path[0].clone(), k);
        Ok(())
    }

    fn coerce(&self, x: V, t: &str) -> V {
        if t == "String" && x.t == "str" {
            return v(format!("strv({})", x.render()), "String");
        }
        if t == "str" && x.t == "String" {
            return v(format!("{}@", x.render()), "str");
        }
        if t == "Option<String>" && x.t == "Option<str>" {
            if let Some(i) = x.e.strip_prefix("Some(").and_then(|q| q.strip_suffix(')')) {
                return v(format!("Some(strv({i}))"), t);
            }
        }
        x
    }

    fn param_ty(t: &syn::Type, f: &FnItem, me: &str) -> String {
        let s = ty_text(t, me);
        if s == "implInto<u32>" { return "u32".into(); }
        if s == "impl Into<String>" || s == "&str" || s == "implAsRef<str>" {
            return "str".into();
        }
        for g in &f.sig.generics.params {
            if let syn::GenericParam::Type(p) = g {
                if p.ident == s && p.bounds.to_token_stream().to_string().replace(' ', "").contains("Into<String>") {
                    return "str".into();
                }
            }
        }
        s
    }

    /// Parameters of a function: (name, spec type, how the contract passes it).
    fn params(f: &FnItem, me: &str) -> R<Vec<(String, String, String)>> {
        let mut r = vec![];
        for a in &f.sig.inputs {
            match a {
                syn::FnArg::Receiver(x) => {
                    let scalar = matches!(&f.sig.output, syn::ReturnType::Type(_, t) if ["usize", "bool", "u32", "i32"].contains(&ty_text(t, me).as_str()));
                    if x.mutability.is_some() && x.reference.is_some() || x.reference.is_some() && !scalar { return Err("borrowed self".into()); }
                    r.push(("this".to_string(), me.to_string(), if x.reference.is_some() { "*self" } else { "self" }.to_string()))
                }
                syn::FnArg::Typed(p) => {
                    let syn::Pat::Ident(i) = &*p.pat else { return Err("pattern".into()) };
                    let n = i.ident.to_string();
                    let t = Self::param_ty(&p.ty, f, me);
                    let pass = if ty_text(&p.ty, me) == "implInto<u32>" { format!("{n}.num()") } else if ty_text(&p.ty, me) == "&str" { format!("{n}@") } else if t == "str" { format!("{n}.chars()") } else { n.clone() };
                    r.push((n, t, pass));
                }
            }
        }
        Ok(r)
    }

    pub fn mine(&mut self, key: &str) -> R<String> {
        if let Some(r) = self.done.get(key) {
            return r.clone();
        }
        self.done.insert(key.to_string(), Err("recursive".into()));
        let r = self.mine0(key);
        self.done.insert(key.to_string(), r.clone().map(|x| x));
        r
    }

    fn mine0(&mut self, key: &str) -> R<String> {
        let f = self.ix.fns.get(key).ok_or(format!("no fn {key}"))?;
        let me = f.self_ty.clone().unwrap_or_default();
        let ps = Self::params(f, &me)?;
        let ret = match &f.sig.output {
            syn::ReturnType::Type(_, t) => ty_text(t, &me),
            _ => return Err("no result".into()),
        };
        let mut env: BTreeMap<String, V> = BTreeMap::new();
        let st = |t: &str| if t == "str" { "Seq<char>".to_string() } else { t.to_string() };
        for (n, t, _) in &ps {
            let name = if n == "this" && t == &me { "self" } else { n };
            env.insert(name.to_string(), v(n.clone(), t.clone()));
        }
        let block = f.block.clone();
        let x = self.block(&block, &mut env, &me, &ret)?;
        let x = self.coerce(x, &ret);
        let name = format!("sp_{}", key.replace("::", "_"));
        let sig: Vec<String> = ps.iter().map(|(n, t, _)| format!("{n}: {}", st(t))).collect();
        let args: Vec<String> = ps.iter().map(|(_, _, p)| p.clone()).collect();
        let mut out = format!("pub open spec fn {name}({}) -> {ret} {{ {} }}\n", sig.join(", "), x.render());
        out.push_str(&format!("//@fn {key} r=out\n//@| ensures out == {name}({}),\n", args.join(", ")));
        for (k, y) in &x.upd {
            if let Some(s) = y.e.strip_prefix("vecv(").and_then(|q| q.strip_suffix(')')) {
                // the sequence itself, in the parameters of the method
                if s.starts_with(&format!("this.{k}@.push(")) {
                    let mut q = words(s, "this", "self");
                    for (n, _, p) in &ps {
                        if n != p && n != "this" {
                            q = words(&q, n, p);
                        }
                    }
                    out.push_str(&format!("//@|   out.{k}@ == {q},\n"));
                }
            }
        }
        out.push_str("//@end\n");
        self.order.push(key.to_string());
        self.text.push(out);
        Ok(ret)
    }

    fn block(&mut self, b: &syn::Block, env: &mut BTreeMap<String, V>, me: &str, want: &str) -> R<V> {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            match s {
                syn::Stmt::Local(l) => {
                    let (name, ty) = match &l.pat {
                        syn::Pat::Ident(i) => (i.ident.to_string(), None),
                        syn::Pat::Type(t) => match &*t.pat {
                            syn::Pat::Ident(i) => (i.ident.to_string(), Some(ty_text(&t.ty, me))),
                            _ => return Err("let pattern".into()),
                        },
                        _ => return Err("let pattern".into()),
                    };
                    let e = &l.init.as_ref().ok_or("let without value")?.expr;
                    let x = self.expr(e, env, me, ty.as_deref().unwrap_or(""))?;
                    env.insert(name, x);
                }
                syn::Stmt::Expr(e, semi) => {
                    let effect = want.is_empty() && matches!(e, syn::Expr::Assign(_) | syn::Expr::If(_) | syn::Expr::Match(_))
                        || want.is_empty() && matches!(e, syn::Expr::MethodCall(m) if m.method == "push");
                    if i + 1 == n && semi.is_none() && !effect {
                        return self.expr(e, env, me, want);
                    }
                    self.stmt(e, env, me)?;
                }
                syn::Stmt::Macro(_) => return Err("macro statement".into()),
                syn::Stmt::Item(_) => {}
            }
        }
        Ok(v("()", "()"))
    }

    fn place(e: &syn::Expr) -> R<Vec<String>> {
        match e {
            syn::Expr::Path(p) => Ok(vec![p.path.get_ident().ok_or("path")?.to_string()]),
            syn::Expr::Field(f) => {
                let mut r = Self::place(&f.base)?;
                r.push(match &f.member {
                    syn::Member::Named(n) => n.to_string(),
                    syn::Member::Unnamed(n) => n.index.to_string(),
                });
                Ok(r)
            }
            _ => Err(format!("place {}", e.to_token_stream())),
        }
    }

    fn load(&self, p: &[String], env: &BTreeMap<String, V>) -> R<V> {
        let mut x = env.get(&p[0]).ok_or(format!("unbound {}", p[0]))?.clone();
        for f in &p[1..] {
            x = self.get(&x, f)?;
        }
        Ok(x)
    }

    fn store(&self, p: &[String], y: V, env: &mut BTreeMap<String, V>) -> R<()> {
        if p.len() == 1 {
            env.insert(p[0].clone(), y);
            return Ok(());
        }
        let mut x = env.get(&p[0]).ok_or(format!("unbound {}", p[0]))?.clone();
        self.set(&mut x, &p[1..], y)?;
        env.insert(p[0].clone(), x);
        Ok(())
    }

    /// Values after a branching statement: `arms` are (text before the value, environment).
    fn merge(&self, head: &str, arms: Vec<(String, String, BTreeMap<String, V>)>, env: &mut BTreeMap<String, V>) {
        let join = |xs: Vec<String>| {
            let mut r = head.to_string();
            for ((a, b, _), x) in arms.iter().zip(xs) {
                r.push_str(a);
                r.push_str(&x);
                r.push_str(b);
            }
            format!("({r})")
        };
        let wrap = |s: String| if head.starts_with("match") { format!("{} }})", s.strip_suffix(')').unwrap()) } else { s };
        for (k, old) in env.clone() {
            let vs: Vec<&V> = arms.iter().map(|a| &a.2[&k]).collect();
            if vs.iter().all(|x| x.render() == vs[0].render()) {
                env.insert(k, vs[0].clone());
                continue;
            }
            // field by field when all are updates of the same value
            if vs.iter().all(|x| x.e == old.e) {
                let mut z = old.clone();
                let mut keys: Vec<&String> = vs.iter().flat_map(|x| x.upd.keys()).collect();
                keys.sort();
                keys.dedup();
                for f in keys {
                    let ps: Vec<V> = vs.iter().filter_map(|x| self.get(x, f).ok()).collect();
                    let m = if ps.iter().all(|p| p.render() == ps[0].render()) { ps[0].clone() } else { v(wrap(join(ps.iter().map(|p| p.render()).collect())), ps[0].t.clone()) };
                    z.upd.insert(f.clone(), m);
                }
                env.insert(k, z);
            } else {
                env.insert(k, v(wrap(join(vs.iter().map(|p| p.render()).collect())), vs[0].t.clone()));
            }
        }
    }

    fn stmt(&mut self, e: &syn::Expr, env: &mut BTreeMap<String, V>, me: &str) -> R<()> {
        match e {
            syn::Expr::Assign(a) => {
                let p = Self::place(&a.left)?;
                let want = self.load(&p, env).map(|x| x.t).unwrap_or_default();
                let x = self.expr(&a.right, env, me, &want)?;
                self.store(&p, x, env)
            }
            syn::Expr::MethodCall(m) if m.method == "push" => {
                let p = Self::place(&m.receiver)?;
                let old = self.load(&p, env)?;
                let want = inner(&old.t, "Vec").ok_or(format!("push on {}", old.t))?.to_string();
                let x = self.expr(&m.args[0], env, me, &want)?;
                let x = self.coerce(x, &want);
                let s = old.e.strip_prefix("vecv(").and_then(|q| q.strip_suffix(')')).map(|q| q.to_string()).unwrap_or(format!("{}@", old.render()));
                self.store(&p, v(format!("vecv({s}.push({}))", x.render()), old.t), env)
            }
            syn::Expr::If(i) => {
                let mut a = env.clone();
                let mut b = env.clone();
                let (head, x1, y1, x2, y2) = if let syn::Expr::Let(l) = &*i.cond {
                    let x = self.expr(&l.expr, env, me, "")?;
                    let pat = l.pat.to_token_stream().to_string();
                    if let Some(n) = pat.strip_prefix("Some (").and_then(|q| q.strip_suffix(')')) {
                        let n = n.trim().replace("ref ", "").replace("mut ", "");
                        let t = inner(&x.t, "Option").unwrap_or("?").to_string();
                        a.insert(n.clone(), v(n.clone(), t));
                        (format!("match {} {{ ", x.render()), format!("Some({n}) => "), ", ".to_string(), "None => ".to_string(), String::new())
                    } else {
                        return Err(format!("if let {pat}"));
                    }
                } else {
                    let c = self.expr(&i.cond, env, me, "bool")?;
                    (format!("if {} ", c.render()), "{ ".to_string(), " } ".to_string(), "else { ".to_string(), " }".to_string())
                };
                self.block(&i.then_branch, &mut a, me, "")?;
                if let Some((_, e)) = &i.else_branch {
                    match &**e {
                        syn::Expr::Block(bl) => { self.block(&bl.block, &mut b, me, "")?; }
                        e => self.stmt(e, &mut b, me)?,
                    }
                }
                self.merge(&head, vec![(x1, y1, a), (x2, y2, b)], env);
                Ok(())
            }
            syn::Expr::Match(m) => {
                let x = self.expr(&m.expr, env, me, "")?;
                let mut arms = vec![];
                for a in &m.arms {
                    let mut n = env.clone();
                    if a.guard.is_some() { return Err("guard".into()); }
                    let pat = a.pat.to_token_stream().to_string();
                    if pat.contains('(') { return Err(format!("match {pat}")); }
                    match &*a.body {
                        syn::Expr::Block(bl) => { self.block(&bl.block, &mut n, me, "")?; }
                        syn::Expr::Tuple(t) if t.elems.is_empty() => {}
                        e => self.stmt(e, &mut n, me)?,
                    }
                    arms.push((format!("{} => ", pat.replace(' ', "")), ", ".to_string(), n));
                }
                self.merge(&format!("match {} {{ ", x.render()), arms, env);
                Ok(())
            }
            _ => Err(format!("statement {}", e.to_token_stream().to_string().chars().take(60).collect::<String>())),
        }
    }

    fn call(&mut self, key: &str, recv: Option<V>, args: Vec<&syn::Expr>, env: &mut BTreeMap<String, V>, me: &str) -> R<V> {
        let ret = self.mine(key).map_err(|e| format!("{key}: {e}"))?;
        let f = &self.ix.fns[key];
        let own = f.self_ty.clone().unwrap_or_default();
        let ps = Self::params(f, &own)?;
        let mut r = vec![];
        let mut k = 0;
        if let Some(x) = recv {
            r.push(x.render());
            k = 1;
        }
        for (i, a) in args.iter().enumerate() {
            let t = ps[i + k].1.clone();
            let x = self.expr(a, env, me, &t)?;
            r.push(self.coerce(x, &t).render());
        }
        Ok(v(format!("sp_{}({})", key.replace("::", "_"), r.join(", ")), ret))
    }

    fn expr(&mut self, e: &syn::Expr, env: &mut BTreeMap<String, V>, me: &str, want: &str) -> R<V> {
        match e {
            syn::Expr::Paren(p) => self.expr(&p.expr, env, me, want),
            syn::Expr::Reference(p) => self.expr(&p.expr, env, me, want),
            syn::Expr::Block(b) => self.block(&b.block, env, me, want),
            syn::Expr::Lit(l) => match &l.lit {
                syn::Lit::Str(s) => Ok(v(format!("{}@", s.to_token_stream()), "str")),
                syn::Lit::Bool(b) => Ok(v(b.value.to_string(), "bool")),
                x => Ok(v(x.to_token_stream().to_string(), want)),
            },
            syn::Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if let Some(x) = env.get(&i.to_string()) {
                        return Ok(x.clone());
                    }
                    if i == "None" {
                        return Ok(v("None", want));
                    }
                }
                let s = p.path.to_token_stream().to_string().replace(' ', "").replace("crate::types::", "").replace("Self", me);
                let parts: Vec<&str> = s.split("::").collect();
                if parts.len() == 2 && self.ix.types.contains_key(parts[0]) {
                    return Ok(v(s.clone(), parts[0]));
                }
                if parts.len() == 1 && self.ix.types.contains_key(parts[0]) {
                    return Ok(v(s.clone(), want));
                }
                Err(format!("path {s}"))
            }
            syn::Expr::Field(_) => {
                if let Ok(p) = Self::place(e) {
                    return self.load(&p, env);
                }
                let syn::Expr::Field(f) = e else { unreachable!() };
                let b = self.expr(&f.base, env, me, "")?;
                self.get(&b, &f.member.to_token_stream().to_string())
            }
            syn::Expr::Struct(s) => {
                let t = s.path.to_token_stream().to_string().replace("Self", me);
                let mut fs = vec![];
                for f in &s.fields {
                    let n = f.member.to_token_stream().to_string();
                    let ft = self.field_ty(&t, &n)?;
                    let x = self.expr(&f.expr, env, me, &ft)?;
                    fs.push(format!("{n}: {}", self.coerce(x, &ft).render()));
                }
                if let Some(r) = &s.rest {
                    let x = self.expr(r, env, me, &t)?;
                    fs.push(format!("..{}", x.render()));
                }
                Ok(v(format!("{t} {{ {} }}", fs.join(", ")), t))
            }
            syn::Expr::Macro(m) => {
                let n = m.mac.path.to_token_stream().to_string();
                if n == "vec" {
                    let args = m.mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).map_err(|e| e.to_string())?;
                    let it = inner(want, "Vec").unwrap_or("").to_string();
                    let mut r = vec![];
                    for a in &args {
                        let x = self.expr(a, env, me, &it)?;
                        r.push(self.coerce(x, &it).render());
                    }
                    if r.is_empty() {
                        return Ok(v(format!("vecv(Seq::<{it}>::empty())"), want));
                    }
                    return Ok(v(format!("vecv(seq![{}])", r.join(", ")), want));
                }
                Err(format!("macro {n}"))
            }
            syn::Expr::Tuple(t) => {
                let ts: Vec<String> = want.trim_start_matches('(').trim_end_matches(')').split(',').map(|x| x.to_string()).collect();
                let mut r = vec![];
                for (i, a) in t.elems.iter().enumerate() {
                    let w = ts.get(i).cloned().unwrap_or_default();
                    let x = self.expr(a, env, me, &w)?;
                    r.push(self.coerce(x, &w).render());
                }
                Ok(v(format!("({})", r.join(", ")), want))
            }
            syn::Expr::Binary(b) => {
                use syn::BinOp::*;
                if !matches!(b.op, Lt(_) | Le(_) | Gt(_) | Ge(_) | Eq(_) | Ne(_) | And(_) | Or(_)) { return Err("arithmetic".into()); }
                let x = self.expr(&b.left, env, me, "")?;
                let y = self.expr(&b.right, env, me, &x.t)?;
                Ok(v(format!("({} {} {})", x.render(), b.op.to_token_stream(), y.render()), "bool"))
            }
            syn::Expr::Cast(c) => {
                let x = self.expr(&c.expr, env, me, "")?;
                let t = ty_text(&c.ty, me);
                Ok(v(format!("({} as {t})", x.render()), t))
            }
            syn::Expr::Call(c) => {
                let s = c.func.to_token_stream().to_string().replace(' ', "").replace("crate::types::", "").replace("crate::", "");
                let s = if s.starts_with("Self::") { s.replacen("Self", me, 1) } else { s };
                let args: Vec<&syn::Expr> = c.args.iter().collect();
                if s == "Some" {
                    let t = inner(want, "Option").unwrap_or("").to_string();
                    let x = self.expr(args[0], env, me, &t)?;
                    let x = self.coerce(x, &t);
                    return Ok(v(format!("Some({})", x.render()), format!("Option<{}>", x.t)));
                }
                if s == "Box::new" {
                    let t = inner(want, "Box").unwrap_or("").to_string();
                    let x = self.expr(args[0], env, me, &t)?;
                    return Ok(v(format!("Box::new({})", x.render()), format!("Box<{}>", x.t)));
                }
                if s == "Default::default" {
                    return Ok(v(format!("dflt::<{want}>()"), want));
                }
                if s == "escape::escape" || s == "escape" || s == "escape::escape_owned" || s == "escape_owned" {
                    let x = self.expr(args[0], env, me, "str")?;
                    return Ok(v(format!("escaped({})", self.coerce(x, "str").render()), "String"));
                }
                let parts: Vec<&str> = s.split("::").collect();
                if parts.len() == 2 {
                    if parts[1] == "default" && !self.ix.fns.contains_key(&s) {
                        return Ok(v(format!("dflt::<{}>()", parts[0]), parts[0]));
                    }
                    if let Some(it) = self.ix.types.get(parts[0]) {
                        if let syn::Item::Enum(en) = &it.item {
                            if let Some(vr) = en.variants.iter().find(|x| x.ident == parts[1]) {
                                let ts: Vec<String> = vr.fields.iter().map(|f| ty_text(&f.ty, parts[0])).collect();
                                let mut r = vec![];
                                for (a, t) in args.iter().zip(ts) {
                                    let x = self.expr(a, env, me, &t)?;
                                    r.push(self.coerce(x, &t).render());
                                }
                                return Ok(v(format!("{s}({})", r.join(", ")), parts[0]));
                            }
                        }
                    }
                    if self.ix.fns.contains_key(&s) {
                        return self.call(&s, None, args, env, me);
                    }
                }
                if parts.len() == 1 && self.ix.types.contains_key(&s) {
                    let t = self.field_ty(&s, "0")?;
                    let x = self.expr(args[0], env, me, &t)?;
                    return Ok(v(format!("{s}({})", self.coerce(x, &t).render()), s));
                }
                Err(format!("call {s}"))
            }
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n == "take" {
                    let p = Self::place(&m.receiver)?;
                    let x = self.load(&p, env)?;
                    self.store(&p, v("None", x.t.clone()), env)?;
                    return Ok(x);
                }
                let x = self.expr(&m.receiver, env, me, "")?;
                match n.as_str() {
                    "into" | "to_string" | "to_owned" | "as_ref" | "as_str" if x.t == "str" || x.t == "String" => return Ok(x),
                    "to_string" if self.ix.types.contains_key(&x.t) || x.t == "usize" || x.t == "i32" || x.t == "u32" => return Ok(v(format!("shown({})", x.render()), "String")),
                    "is_some" => return Ok(v(format!("({} is Some)", x.render()), "bool")),
                    "is_none" => return Ok(v(format!("({} is None)", x.render()), "bool")),
                    "clone" => return Ok(x),
                    "into" if want == "String" => return Err(format!("into of {}", x.t)),
                    "into" => return Ok(v(x.render(), want)),
                    "unwrap_or_else" => {
                        let t = inner(&x.t, "Option").unwrap_or("?").to_string();
                        let syn::Expr::Closure(c) = &m.args[0] else {
                            let k = m.args[0].to_token_stream().to_string().replace(' ', "");
                            if self.ix.fns.contains_key(&k) {
                                let y = self.call(&k, None, vec![], env, me)?;
                                return Ok(v(format!("(match {} {{ Some(x) => x, None => {} }})", x.render(), y.render()), t));
                            }
                            return Err("unwrap_or_else".into());
                        };
                        let y = self.expr(&c.body, env, me, &t)?;
                        return Ok(v(format!("(match {} {{ Some(x) => x, None => {} }})", x.render(), y.render()), t));
                    }
                    "unwrap_or_default" => {
                        let t = inner(&x.t, "Option").unwrap_or("?").to_string();
                        return Ok(v(format!("(match {} {{ Some(x) => x, None => dflt::<{t}>() }})", x.render()), t));
                    }
                    _ => {}
                }
                let key = format!("{}::{}", x.t, n);
                if self.ix.fns.contains_key(&key) {
                    return self.call(&key, Some(x), m.args.iter().collect(), env, me);
                }
                Err(format!("method {} on {}", n, x.t))
            }
            syn::Expr::If(i) => {
                let syn::Expr::Let(_) = &*i.cond else {
                    let c = self.expr(&i.cond, env, me, "bool")?;
                    let mut a = env.clone();
                    let mut b = env.clone();
                    let x = self.block(&i.then_branch, &mut a, me, want)?;
                    let Some((_, el)) = &i.else_branch else { return Err("if".into()) };
                    let y = self.expr(el, &mut b, me, want)?;
                    return Ok(v(format!("(if {} {{ {} }} else {{ {} }})", c.render(), x.render(), y.render()), x.t));
                };
                Err("if let expression".into())
            }
            _ => Err(format!("expression {}", e.to_token_stream().to_string().chars().take(60).collect::<String>())),
        }
    }
}

pub fn run(ix: &Index) {
    let mut m = Mine::new(ix);
    let keys: Vec<String> = ix.fn_order.clone();
    let mut bad = vec![];
    for k in &keys {
        let f = &ix.fns[k];
        let Some(me) = f.self_ty.clone() else { continue };
        if f.trait_.is_some() || !ix.files[f.file].rel.starts_with("documents/") {
            continue;
        }
        let by_value = matches!(f.sig.inputs.first(), Some(syn::FnArg::Receiver(r)) if r.reference.is_none());
        let ret = match &f.sig.output {
            syn::ReturnType::Type(_, t) => ty_text(t, &me),
            _ => continue,
        };
        if !by_value || ret != me {
            continue;
        }
        if let Err(e) = m.mine(k) {
            bad.push(format!("{k}: {e}"));
        }
    }
    for t in &m.text {
        print!("{t}");
    }
    for b in &bad {
        eprintln!("{b}");
    }
    eprintln!("{} mined, {} not", m.order.len(), bad.len());
}

/// Public constructors and builder methods with their argument types, and unit enumerations: input
/// of tools/gen_c13.py.
pub fn api(ix: &Index) {
    let mut types: BTreeMap<String, serde_json::Value> = BTreeMap::new();
    let mut enums: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for n in &ix.type_order {
        match &ix.types[n].item {
            syn::Item::Enum(e) if matches!(e.vis, syn::Visibility::Public(_)) => {
                if e.variants.iter().all(|x| x.fields.is_empty()) {
                    enums.insert(n.clone(), e.variants.iter().map(|x| x.ident.to_string()).collect());
                }
            }
            syn::Item::Struct(s) if matches!(s.vis, syn::Visibility::Public(_)) => {
                types.insert(n.clone(), serde_json::json!({"ctors": {}, "methods": []}));
            }
            _ => {}
        }
    }
    for k in &ix.fn_order {
        let f = &ix.fns[k];
        let Some(me) = f.self_ty.clone() else { continue };
        if f.trait_.is_some() || !matches!(f.vis, syn::Visibility::Public(_)) || !types.contains_key(&me) {
            continue;
        }
        let rel = &ix.files[f.file].rel;
        if !rel.starts_with("documents/") && !rel.starts_with("types/") {
            continue;
        }
        let ret = match &f.sig.output {
            syn::ReturnType::Type(_, t) => ty_text(t, &me),
            _ => continue,
        };
        if ret != me {
            continue;
        }
        let args: Vec<String> = f.sig.inputs.iter().filter_map(|a| match a {
            syn::FnArg::Typed(p) => Some(ty_text(&p.ty, &me)),
            _ => None,
        }).collect();
        let name = f.sig.ident.to_string();
        match f.sig.inputs.first() {
            Some(syn::FnArg::Receiver(r)) => {
                if r.reference.is_none() {
                    types.get_mut(&me).unwrap()["methods"].as_array_mut().unwrap().push(serde_json::json!([name, args]));
                }
            }
            _ => {
                types.get_mut(&me).unwrap()["ctors"][name] = serde_json::json!(args);
            }
        }
    }
    println!("{}", serde_json::to_string_pretty(&serde_json::json!({"types": types, "enums": enums})).unwrap());
}
