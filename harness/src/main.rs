//! Conformance harness: drives the real code and records traces for the specification to judge.
mod cli;
mod core;
mod draw;
mod gen;
mod hist;
mod model;
mod rec;
mod rx;
mod txt;
mod wasm;

use serde_json::Value;
use std::path::PathBuf;
use std::time::Duration;

pub struct Ctx {
    pub rng: gen::Rng,
    /// inputs enumerated by TLC from the specification
    pub gen: Vec<model::A>,
    /// evaluator histories enumerated by TLC from the specification
    pub plans: Vec<Vec<(usize, usize, Vec<usize>)>>,
    /// any other behaviours enumerated by TLC, by kind
    pub behaviours: Vec<Value>,
    pub thorough: bool,
    pub out: PathBuf,
    pub cli: PathBuf,
}
impl Ctx {
    pub fn size(&self, small: usize, medium: usize) -> (usize, usize) {
        if self.thorough {
            (small * 10, medium * 8)
        } else {
            (small, medium)
        }
    }
    pub fn big(&self, n: usize) -> usize {
        if self.thorough {
            n * 5
        } else {
            n
        }
    }
    pub fn reps(&self, n: usize) -> usize {
        if self.thorough {
            n * 4
        } else {
            n
        }
    }
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn run() {
    let suite = std::env::args().nth(1).expect("suite");
    let out = PathBuf::from(arg("--out").expect("--out"));
    let thorough = arg("--tier").as_deref() == Some("thorough");
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut c = Ctx {
        rng: gen::Rng(seed.wrapping_mul(0x9E37_79B9).wrapping_add(suite.bytes().fold(7, |h, b| h * 31 + b as u64))),
        gen: vec![],
        plans: vec![],
        behaviours: vec![],
        thorough,
        out: out.clone(),
        cli: PathBuf::from(arg("--cli").unwrap_or_default()),
    };
    if let Some(f) = arg("--gen") {
        for l in std::fs::read_to_string(f).unwrap().lines() {
            let v: Value = serde_json::from_str(l).unwrap();
            if v["k"] == "dfa" || v["k"] == "nfa" {
                c.gen.push(model::A::from_json(&v));
            } else if v["k"] == "plan" {
                c.plans.push(
                    v["ops"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|o| {
                            let u = |v: &Value| v.as_u64().unwrap() as usize;
                            (u(&o["e"]) - 1, u(&o["kind"]), o["w"].as_array().unwrap().iter().map(|x| u(x) - 1).collect())
                        })
                        .collect(),
                );
            } else {
                c.behaviours.push(v);
            }
        }
    }
    rec::init(&out, Duration::from_secs(if thorough { 60 } else { 30 }));
    let c = &mut c;
    match suite.as_str() {
        "C01" => core::c01(c),
        "C02" => core::c02(c),
        "C03" => core::c03(c),
        "C04" => core::c04(c),
        "C05" => core::c05(c),
        "C06" => core::c06(c),
        "C07" => core::c07(c),
        "C08" => core::c08(c),
        "C09" => core::c09(c),
        "C10" => core::c10(c),
        "C11" => core::c11(c),
        "C12" => txt::c12(c),
        "C13" => txt::c13(c),
        "C14" => txt::c14(c),
        "C15" => hist::c15(c),
        "C16" => rx::c16(c),
        "C17" => rx::c17(c),
        "C18" => cli::c18(c),
        "C19" => cli::c19(c),
        "C20" => cli::c20(c),
        "C21" => cli::c21(c),
        "C22" => wasm::c22(c),
        "C23" => draw::c23(c),
        "C24" => draw::c24(c),
        "C25" => core::c25(c),
        s => panic!("no suite {s}"),
    }
    rec::finish();
}

fn main() {
    std::thread::Builder::new().stack_size(512 << 20).spawn(run).unwrap().join().unwrap();
}
