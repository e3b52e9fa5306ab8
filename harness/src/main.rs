//! Concrete stage: searches for inputs on which the real crate violates a property's contract.
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c13_gen;
mod c14;
mod c15;
mod ctx;
#[allow(dead_code)]
mod gen;
mod gen2;
#[allow(dead_code)]
mod pkg;
mod rng;
mod xml;

use ctx::Ctx;

fn main() {
    let mut args = std::env::args().skip(1);
    let prop = args.next().expect("property");
    if prop == "C15-child" {
        std::process::exit(if c15::child(&args.next().expect("file")) { 0 } else { 1 });
    }
    let mut seed = 1u64;
    let mut tier = "quick".to_string();
    let mut out = String::new();
    let mut root = "/verif".to_string();
    while let Some(k) = args.next() {
        let v = args.next().unwrap_or_default();
        match k.as_str() {
            "--seed" => seed = v.parse().unwrap_or(1),
            "--tier" => tier = v,
            "--out" => out = v,
            "--root" => root = v,
            _ => {}
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    if prop == "C08-child" {
        let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || c08::child(seed, &tier, &out)).unwrap();
        std::process::exit(if h.join().is_ok() { 0 } else { 2 });
    }
    if prop == "C10-child" {
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || c10::child(seed, &tier, &out)).unwrap();
        std::process::exit(if h.join().is_ok() { 0 } else { 2 });
    }
    if prop == "C13-table" {
        return c13::print_table();
    }
    let mut c = Ctx::new(&prop, seed, &tier, &root);
    // deep structures need a deep stack in the unoptimised build
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let p = c.prop.clone();
            match p.as_str() {
                "C01" => c01::run(&mut c),
                "C02" => c02::run(&mut c),
                "C03" => c03::run(&mut c),
                "C04" => c04::run(&mut c),
                "C05" => c05::run(&mut c),
                "C06" => c06::run(&mut c),
                "C07" => c07::run(&mut c),
                "C08" => c08::run(&mut c),
                "C09" => c09::run(&mut c),
                "C10" => c10::run(&mut c),
                "C11" => c11::run(&mut c),
                "C12" => c12::run(&mut c),
                "C13" => c13::run(&mut c),
                "C14" => c14::run(&mut c),
                "C15" => c15::run(&mut c),
                _ => panic!("unknown property"),
            }
            c
        })
        .unwrap();
    match h.join() {
        Ok(c) => {
            c.write(&out);
            println!("{} cases, {} violations", c.cases, c.violations.len());
        }
        Err(e) => {
            let msg = ctx::panic_msg(&e);
            println!("harness failure: {msg}");
            std::process::exit(2);
        }
    }
}
