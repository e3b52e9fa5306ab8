//! Package view: zip entries, relationships, content types.
use crate::xml::{self, El};
use std::collections::BTreeMap;
use std::io::Read;

#[derive(Clone)]
pub struct Pkg {
    pub names: Vec<String>,
    pub parts: BTreeMap<String, Vec<u8>>,
}

#[derive(Clone, Debug)]
pub struct Rel {
    pub id: String,
    pub ty: String,
    pub target: String,
    pub external: bool,
}

impl Pkg {
    pub fn open(bytes: &[u8]) -> Result<Pkg, String> {
        // entry names in stored order, duplicates included
        let mut z = zip::ZipArchive::new(std::io::Cursor::new(bytes)).map_err(|e| format!("zip: {e}"))?;
        let mut names = vec![];
        let mut parts = BTreeMap::new();
        for i in 0..z.len() {
            let mut f = z.by_index(i).map_err(|e| format!("zip entry: {e}"))?;
            let n = f.name().to_string();
            if n.ends_with('/') {
                continue;
            }
            let mut b = vec![];
            f.read_to_end(&mut b).map_err(|e| format!("zip read {n}: {e}"))?;
            names.push(n.clone());
            parts.insert(n, b);
        }
        Ok(Pkg { names, parts })
    }
    pub fn is_xml(n: &str) -> bool {
        n.ends_with(".xml") || n.ends_with(".rels")
    }
    pub fn xml(&self, n: &str) -> Result<El, String> {
        let b = self.parts.get(n).ok_or_else(|| format!("no part {n}"))?;
        let s = std::str::from_utf8(b).map_err(|_| format!("{n}: not UTF-8"))?;
        xml::parse(s).map_err(|e| format!("{n}: {e}"))
    }
    pub fn rels_name(part: &str) -> String {
        match part.rsplit_once('/') {
            Some((d, f)) => format!("{d}/_rels/{f}.rels"),
            None => format!("_rels/{part}.rels"),
        }
    }
    /// Relationships of a part ("" = package), targets resolved to part names.
    pub fn rels(&self, part: &str) -> Result<Vec<Rel>, String> {
        let rn = if part.is_empty() { "_rels/.rels".to_string() } else { Pkg::rels_name(part) };
        if !self.parts.contains_key(&rn) {
            return Ok(vec![]);
        }
        let x = self.xml(&rn)?;
        let dir = part.rsplit_once('/').map(|p| p.0).unwrap_or("");
        let mut v = vec![];
        for r in x.kids_named("Relationship") {
            let external = r.attr("TargetMode") == Some("External");
            let t = r.attr("Target").unwrap_or("").to_string();
            let target = if external { t } else { resolve(dir, &t) };
            v.push(Rel { id: r.attr("Id").unwrap_or("").into(), ty: r.attr("Type").unwrap_or("").into(), target, external });
        }
        Ok(v)
    }
}

pub fn resolve(dir: &str, t: &str) -> String {
    if let Some(a) = t.strip_prefix('/') {
        return a.to_string();
    }
    let mut p: Vec<&str> = dir.split('/').filter(|s| !s.is_empty()).collect();
    for s in t.split('/') {
        match s {
            "." | "" => {}
            ".." => {
                p.pop();
            }
            x => p.push(x),
        }
    }
    p.join("/")
}

/// Runs a closure on the code under test; a panic is returned as Err.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

pub fn pack(d: docx_rs::Docx) -> Result<Vec<u8>, String> {
    let mut c = std::io::Cursor::new(vec![]);
    match guard(|| d.pack(&mut c)) {
        Err(p) => Err(format!("panic: {p}")),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Ok(Ok(())) => Ok(c.into_inner()),
    }
}

pub fn build_pack(d: docx_rs::Docx) -> Result<Vec<u8>, String> {
    let mut c = std::io::Cursor::new(vec![]);
    match guard(|| d.build().pack(&mut c)) {
        Err(p) => Err(format!("panic: {p}")),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Ok(Ok(())) => Ok(c.into_inner()),
    }
}
