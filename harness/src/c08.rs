//! C08: direct packing and packing after building give the same bytes.
//! Ids such as those of revisions are counted per process, so every run over a shard of documents happens in a
//! process of its own, once for each way of packing and once more to see that the bytes can be reproduced.
use crate::ctx::{hash, Ctx};
use crate::gen::{Gen, Opt};
use crate::pkg::{self, Pkg};
use std::process::{Child, Command, Stdio};

const SHARDS: usize = 4;

fn make(seed: u64, i: usize) -> (Gen, docx_rs::Docx) {
    let mut o = Opt::all();
    o.props = i % 3 == 0;
    o.clash = i % 2 == 0;
    o.ids = i % 5 == 0;
    if i % 4 == 0 {
        o.blocks = 10;
    }
    let mut g = Gen::new(seed.wrapping_mul(1_000_133).wrapping_add(i as u64), o);
    let d = g.doc();
    (g, d)
}

/// `--tier shard:count:mode`; one line per document: the hash of the archive, then name=hash of every entry in order.
pub fn child(seed: u64, spec: &str, out: &str) {
    let v: Vec<usize> = spec.split(':').map(|x| x.parse().unwrap_or(0)).collect();
    let (shard, n, mode) = (v[0], v[1], v[2]);
    let mut s = String::new();
    let mut i = shard;
    while i < n {
        let (_, d) = make(seed, i);
        let b = if mode == 1 { pkg::build_pack(d) } else { pkg::pack(d) };
        match b {
            Err(e) => s.push_str(&format!("{i} error {}\n", e.replace('\n', " "))),
            Ok(b) => {
                s.push_str(&format!("{i} {:016x}", hash(&b)));
                if let Ok(p) = Pkg::open(&b) {
                    for n in &p.names {
                        s.push_str(&format!(" {n}={:016x}", hash(&p.parts[n])));
                    }
                }
                s.push('\n');
            }
        }
        i += SHARDS;
    }
    std::fs::write(out, s).expect("write");
}

fn diff(a: &str, b: &str) -> String {
    let (x, y): (Vec<&str>, Vec<&str>) = (a.split(' ').collect(), b.split(' ').collect());
    for (p, q) in x.iter().skip(2).zip(y.iter().skip(2)) {
        if p != q {
            let (p, q) = (p.split('=').next().unwrap_or(p), q.split('=').next().unwrap_or(q));
            return if p == q { p.to_string() } else { format!("{p} / {q}") };
        }
    }
    if x.len() != y.len() {
        return format!("{} / {} entries", x.len(), y.len());
    }
    "archive".into()
}

pub fn run(c: &mut Ctx) {
    c.rule = "a random document packed directly, packed after building, and packed directly again, in separate processes; archives compared byte by byte; distinct = document".into();
    let n = if c.thorough { 12000 } else { 1800 };
    let exe = std::env::current_exe().expect("exe");
    let dir = std::env::temp_dir().join(format!("c08-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let mut kids: Vec<(usize, usize, Child)> = vec![];
    for shard in 0..SHARDS {
        for mode in 0..3 {
            let ch = Command::new(&exe)
                .args(["C08-child", "--seed", &c.seed.to_string(), "--tier", &format!("{shard}:{n}:{mode}"), "--out"])
                .arg(dir.join(format!("{shard}-{mode}")))
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .expect("spawn");
            kids.push((shard, mode, ch));
        }
    }
    for (s, m, mut k) in kids {
        let st = k.wait().expect("wait");
        assert!(st.success(), "child {s}-{m} failed");
    }
    for shard in 0..SHARDS {
        let t: Vec<Vec<String>> = (0..3).map(|m| std::fs::read_to_string(dir.join(format!("{shard}-{m}"))).unwrap_or_default().lines().map(|l| l.to_string()).collect()).collect();
        // a difference shifts the counters of everything after it: only the first one of each kind counts
        for (m, what) in [(1usize, "build"), (2, "again")] {
            for (a, b) in t[0].iter().zip(t[m].iter()) {
                let i: usize = a.split(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0);
                if a != b {
                    let (g, _) = make(c.seed, i);
                    let d = diff(a, b);
                    let key = format!("{what}:{}", crate::c06::kind_of(&d));
                    let msg = if m == 1 { format!("document {i}: packing directly and packing after building differ first in {d}") } else { format!("document {i}: packing the same document in two processes differs first in {d}") };
                    c.bad(&key, msg, g.log.clone());
                    break;
                }
            }
        }
        for a in &t[0] {
            let mut w = a.split(' ');
            let i: usize = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            c.case(&format!("document {i}: {}", a.chars().take(300).collect::<String>()));
            if w.next() == Some("error") {
                let (g, _) = make(c.seed, i);
                c.bad("pack-fails", a.clone(), g.log.clone());
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}
