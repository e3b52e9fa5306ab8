use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;

pub struct SrcFile {
    pub rel: String,
    pub text: String,
}

/// One function (free, inherent, trait-impl or produced by a macro invocation inside an impl).
pub struct FnItem {
    pub file: usize,
    /// Text the function is sliced out of (the file, or the expansion of a macro).
    pub text: String,
    pub line: usize,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub attrs: Vec<syn::Attribute>,
    pub vis: syn::Visibility,
    /// Byte offset correction: spans in `sig`/`block` index into `text`.
    pub self_ty: Option<String>,
    pub impl_generics: String,
    pub self_ty_full: String,
    pub trait_: Option<String>,
    pub assoc: Vec<(String, String)>,
}

pub struct TypeItem {
    pub file: usize,
    pub line: usize,
    pub item: syn::Item,
}

pub struct Index {
    pub files: Vec<SrcFile>,
    pub fns: BTreeMap<String, FnItem>,
    pub types: BTreeMap<String, TypeItem>,
    pub dup_types: Vec<String>,
    pub type_order: Vec<String>,
    pub fn_order: Vec<String>,
    macros: BTreeMap<String, Vec<MacroRule>>,
}

struct MacroRule {
    params: Vec<String>,
    body: String,
}

pub fn slice<'a>(text: &'a str, span: proc_macro2::Span) -> &'a str {
    &text[span.byte_range()]
}

fn walk(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(dir)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    es.sort();
    for p in es {
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            out.push(p);
        }
    }
}

pub fn cfg_off(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") {
            return false;
        }
        let s = quote::ToTokens::to_token_stream(&a.meta).to_string().replace(' ', "");
        s == "cfg(test)" || s == "cfg(feature=\"wasm\")" || s == "cfg(not(feature=\"image\"))"
    })
}

fn ty_name(t: &syn::Type) -> Option<String> {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        syn::Type::Reference(r) => ty_name(&r.elem),
        _ => None,
    }
}

impl Index {
    pub fn build(src: &Path) -> Result<Index, String> {
        let mut paths = vec![];
        walk(src, &mut paths);
        let mut ix = Index {
            files: vec![],
            fns: BTreeMap::new(),
            types: BTreeMap::new(),
            dup_types: vec![],
            type_order: vec![],
            fn_order: vec![],
            macros: BTreeMap::new(),
        };
        let mut parsed = vec![];
        for p in &paths {
            let text = std::fs::read_to_string(p).map_err(|e| e.to_string())?;
            let rel = p.strip_prefix(src).unwrap().to_string_lossy().to_string();
            let f = syn::parse_file(&text).map_err(|e| format!("{rel}: {e}"))?;
            ix.files.push(SrcFile { rel, text });
            parsed.push(f);
        }
        for (i, f) in parsed.iter().enumerate() {
            for it in &f.items {
                if let syn::Item::Macro(m) = it {
                    ix.add_macro(i, m);
                }
            }
        }
        for (i, f) in parsed.into_iter().enumerate() {
            ix.items(i, f.items);
        }
        Ok(ix)
    }

    fn add_macro(&mut self, file: usize, m: &syn::ItemMacro) {
        let Some(id) = &m.ident else { return };
        let text = self.files[file].text.clone();
        let toks: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
        let mut rules = vec![];
        let mut k = 0;
        while k + 2 < toks.len() + 1 && k < toks.len() {
            // (params) => { body } ;
            let proc_macro2::TokenTree::Group(g) = &toks[k] else { break };
            let mut params = vec![];
            let pt: Vec<_> = g.stream().into_iter().collect();
            for (j, t) in pt.iter().enumerate() {
                if let proc_macro2::TokenTree::Punct(p) = t {
                    if p.as_char() == '$' {
                        if let Some(proc_macro2::TokenTree::Ident(n)) = pt.get(j + 1) {
                            params.push(n.to_string());
                        }
                    }
                }
            }
            let Some(proc_macro2::TokenTree::Group(b)) = toks.get(k + 3) else { break };
            let r = b.span().byte_range();
            rules.push(MacroRule { params, body: text[r.start + 1..r.end - 1].to_string() });
            k += 4;
            if let Some(proc_macro2::TokenTree::Punct(p)) = toks.get(k) {
                if p.as_char() == ';' {
                    k += 1;
                }
            }
        }
        self.macros.insert(id.to_string(), rules);
    }

    fn expand(&self, file: usize, mac: &syn::Macro) -> Option<String> {
        let name = mac.path.segments.last()?.ident.to_string();
        let rules = self.macros.get(&name)?;
        let text = &self.files[file].text;
        let mut args: Vec<String> = vec![];
        let mut cur: Option<(usize, usize)> = None;
        for t in mac.tokens.clone() {
            if let proc_macro2::TokenTree::Punct(p) = &t {
                if p.as_char() == ',' {
                    if let Some((a, b)) = cur.take() {
                        args.push(text[a..b].to_string());
                    }
                    continue;
                }
            }
            let r = t.span().byte_range();
            cur = Some(match cur {
                None => (r.start, r.end),
                Some((a, _)) => (a, r.end),
            });
        }
        if let Some((a, b)) = cur {
            args.push(text[a..b].to_string());
        }
        let rule = rules.iter().find(|r| r.params.len() == args.len())?;
        let mut body = rule.body.clone();
        let mut order: Vec<usize> = (0..args.len()).collect();
        order.sort_by_key(|i| std::cmp::Reverse(rule.params[*i].len()));
        for i in order {
            body = body.replace(&format!("${}", rule.params[i]), &args[i]);
        }
        Some(body)
    }

    fn add_fn(&mut self, key: String, f: FnItem) {
        // items declared inside the body
        if f.text == self.files[f.file].text {
            let inner: Vec<syn::Item> = f.block.stmts.iter().filter_map(|s| match s {
                syn::Stmt::Item(i) => Some(i.clone()),
                _ => None,
            }).collect();
            if !inner.is_empty() {
                self.items(f.file, inner);
            }
        }
        self.fn_order.push(key.clone());
        self.fns.insert(key, f);
    }

    fn items(&mut self, file: usize, items: Vec<syn::Item>) {
        for it in items {
            match it {
                syn::Item::Mod(m) => {
                    if cfg_off(&m.attrs) || m.ident == "tests" {
                        continue;
                    }
                    if let Some((_, its)) = m.content {
                        self.items(file, its);
                    }
                }
                syn::Item::Fn(f) => {
                    if cfg_off(&f.attrs) {
                        continue;
                    }
                    let key = format!("{}::{}", self.files[file].rel, f.sig.ident);
                    let item = FnItem {
                        file,
                        text: self.files[file].text.clone(),
                        line: f.sig.fn_token.span.start().line,
                        sig: f.sig,
                        block: *f.block,
                        attrs: f.attrs,
                        vis: f.vis,
                        self_ty: None,
                        impl_generics: String::new(),
                        self_ty_full: String::new(),
                        trait_: None,
                        assoc: vec![],
                    };
                    self.add_fn(key, item);
                }
                syn::Item::Impl(im) => self.item_impl(file, im),
                syn::Item::Struct(_)
                | syn::Item::Enum(_)
                | syn::Item::Type(_)
                | syn::Item::Const(_)
                | syn::Item::Static(_)
                | syn::Item::Trait(_) => {
                    let (name, off) = match &it {
                        syn::Item::Struct(s) => (s.ident.to_string(), cfg_off(&s.attrs)),
                        syn::Item::Enum(s) => (s.ident.to_string(), cfg_off(&s.attrs)),
                        syn::Item::Type(s) => (s.ident.to_string(), cfg_off(&s.attrs)),
                        syn::Item::Const(s) => (s.ident.to_string(), cfg_off(&s.attrs)),
                        syn::Item::Static(s) => (s.ident.to_string(), cfg_off(&s.attrs)),
                        syn::Item::Trait(s) => (s.ident.to_string(), cfg_off(&s.attrs)),
                        _ => unreachable!(),
                    };
                    if off {
                        continue;
                    }
                    let line = it.span().start().line;
                    let full = format!("{}::{}", self.files[file].rel, name);
                    if self.types.contains_key(&name) {
                        self.dup_types.push(full.clone());
                    } else {
                        self.types.insert(
                            name.clone(),
                            TypeItem { file, line, item: it.clone() },
                        );
                        self.type_order.push(name);
                    }
                    self.types.insert(full, TypeItem { file, line, item: it });
                }
                _ => {}
            }
        }
    }

    fn item_impl(&mut self, file: usize, im: syn::ItemImpl) {
        if cfg_off(&im.attrs) {
            return;
        }
        let text = self.files[file].text.clone();
        let Some(ty) = ty_name(&im.self_ty) else { return };
        let ty_full = slice(&text, im.self_ty.span()).to_string();
        let gen = if im.generics.params.is_empty() {
            String::new()
        } else {
            slice(&text, im.generics.span()).to_string()
        };
        let tr = im
            .trait_
            .as_ref()
            .map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        let mut assoc = vec![];
        for it in &im.items {
            if let syn::ImplItem::Type(t) = it {
                assoc.push((t.ident.to_string(), slice(&text, t.ty.span()).to_string()));
            }
        }
        let tr_full = im.trait_.as_ref().map(|(_, p, _)| slice(&text, p.span()).to_string());
        for it in im.items {
            match it {
                syn::ImplItem::Fn(f) => {
                    if cfg_off(&f.attrs) {
                        continue;
                    }
                    let key = match &tr {
                        None => format!("{}::{}", ty, f.sig.ident),
                        Some(t) => format!("<{} as {}>::{}", ty, t, f.sig.ident),
                    };
                    // From impls differ in the type parameter only.
                    let key = if self.fns.contains_key(&key) && tr.is_some() {
                        format!("<{} as {}>::{}", ty_full, tr_full.clone().unwrap(), f.sig.ident)
                    } else {
                        key
                    };
                    let item = FnItem {
                        file,
                        text: text.clone(),
                        line: f.sig.fn_token.span.start().line,
                        sig: f.sig,
                        block: f.block,
                        attrs: f.attrs,
                        vis: f.vis,
                        self_ty: Some(ty.clone()),
                        impl_generics: gen.clone(),
                        self_ty_full: ty_full.clone(),
                        trait_: tr.clone(),
                        assoc: assoc.clone(),
                    };
                    self.add_fn(key, item);
                }
                syn::ImplItem::Macro(m) => {
                    let line = m.mac.span().start().line;
                    let Some(body) = self.expand(file, &m.mac) else { continue };
                    let Ok(f) = syn::parse_str::<syn::ImplItemFn>(&body) else { continue };
                    let key = format!("{}::{}", ty, f.sig.ident);
                    let item = FnItem {
                        file,
                        text: body,
                        line,
                        sig: f.sig,
                        block: f.block,
                        attrs: f.attrs,
                        vis: f.vis,
                        self_ty: Some(ty.clone()),
                        impl_generics: gen.clone(),
                        self_ty_full: ty_full.clone(),
                        trait_: None,
                        assoc: vec![],
                    };
                    self.add_fn(key, item);
                }
                _ => {}
            }
        }
    }
}
