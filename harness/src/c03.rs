//! C03: every XML part of a produced package is well-formed.
use crate::ctx::Ctx;
use crate::gen::{Gen, Opt};
use crate::pkg::{self, Pkg};

pub fn run(c: &mut Ctx) {
    c.rule = "a random document through the builder API, packed; every XML part parsed by a strict XML parser; distinct = document".into();
    let n = if c.thorough { 20000 } else { 3000 };
    c.par(n, |c, i| {
        let mut o = Opt::all();
        o.wild = i % 3 == 2;
        if i % 7 == 0 {
            o.blocks = 12;
        }
        let seed = c.seed.wrapping_mul(1_000_003).wrapping_add(i as u64);
        let mut g = Gen::new(seed, o);
        let d = g.doc();
        c.case(&g.log);
        match pkg::pack(d) {
            Err(e) => c.bad("pack-fails", format!("packing fails: {e}"), g.log.clone()),
            Ok(b) => match Pkg::open(&b) {
                Err(e) => c.bad("zip", e, g.log.clone()),
                Ok(p) => {
                    for nm in p.names.iter().filter(|n| Pkg::is_xml(n)) {
                        if let Err(e) = p.xml(nm) {
                            let part: String = nm.chars().filter(|c| !c.is_ascii_digit()).collect();
                            let txt = String::from_utf8_lossy(&p.parts[nm]).to_string();
                            c.bad(&format!("malformed:{part}"), format!("part is not well-formed: {e}"), format!("{}\n--- {nm}\n{}", g.log, txt));
                        }
                    }
                }
            },
        }
    });
}
