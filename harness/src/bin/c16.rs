//! C16: one transcript of everything the crate returns, from servers built with different features and
//! run with different numbers of threads; all must agree byte for byte.
use dsv_harness::*;
use proptest::prop_oneof;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    toy: bool,
    seed: u64,
    n: usize,
    parties: usize,
    batch: usize,
    bad: Option<(u8, u8)>,
    table: usize,
    hint: usize,
    label: Vec<u8>,
    msg: Vec<u16>,
    proof: bool,
    full: u8,
    copies: usize,
}
struct Server {
    name: String,
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Server {
    fn new(build: &str, threads: usize) -> Self {
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let mut child = Command::new(format!("{dir}/harness/target-c16/{build}/release/dsv-srv"))
            .env("RAYON_NUM_THREADS", threads.to_string())
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| {
                eprintln!("transcript server {build}: {e}");
                std::process::exit(3)
            });
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        let name = if build == "parallel" { format!("parallel build with {threads} threads") } else { format!("{build} build") };
        Server { name, child, to, from }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn servers() -> Vec<Server> {
    let mut v = vec![Server::new("none", 1), Server::new("std", 1)];
    v.extend([1, 2, 3, 5, 8].map(|t| Server::new("parallel", t)));
    v
}
thread_local!(static SRV: RefCell<Vec<Server>> = const { RefCell::new(vec![]) });
type Transcript = Vec<(String, String)>;

fn check(c: &Case) -> Outcome {
    let mut line = serde_json::to_string(c).unwrap();
    line.push('\n');
    let all: Vec<(String, Vec<Transcript>)> = SRV.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_empty() {
            *s = servers();
        }
        for x in s.iter_mut() {
            let _ = x.to.write_all(line.as_bytes()).and_then(|_| x.to.flush());
        }
        let r: Vec<_> = s
            .iter_mut()
            .map(|x| {
                let mut l = String::new();
                let _ = x.from.read_line(&mut l);
                (x.name.clone(), serde_json::from_str::<Vec<Transcript>>(&l).ok())
            })
            .collect();
        if let Some((n, _)) = r.iter().find(|(_, t)| t.is_none()) {
            let n = n.clone();
            s.clear();
            return Err(format!("{n} ended without a transcript"));
        }
        Ok(r.into_iter().map(|(n, t)| (n, t.unwrap())).collect())
    })?;
    let (n0, t0) = &all[0];
    let r = &t0[0];
    ensure!(r.iter().all(|(k, _)| k != "panic"), "{n0} panicked");
    for (n, ts) in &all {
        for (i, t) in ts.iter().enumerate() {
            for (a, b) in r.iter().zip(t) {
                ensure!(a == b, "{n} (copy {i} of {}) differs from {n0} in {:?}: {:?} against {:?}", ts.len(), a.0, b, a);
            }
            ensure_eq!(t.len(), r.len(), "length of the transcript of {n}");
        }
    }
    Ok(Info::new(r.len() > 30 && c.msg.iter().any(|x| *x > 0))
        .label_if(c.proof, "with proof")
        .label_if(c.full > 0, "whole message")
        .label_if(c.copies > 1, "concurrent copies")
        .label_if(c.bad.is_some(), "altered ciphertext in the batch")
        .label_if(c.table > 64, "large table")
        .label(if c.n >= 16 { "16 or more chunks" } else { "under 16 chunks" }))
}
fn cases(toy: bool) -> BoxedStrategy<Case> {
    let n = if toy {
        prop_oneof![12 => 1usize..=9, 2 => Just(16usize), 1 => Just(32usize), 1 => Just(64usize)].boxed()
    } else {
        (1usize..=3).boxed()
    };
    let heavy = if toy { 40usize } else { 9 };
    bx(n.prop_flat_map(move |n| {
        (
            (any::<u64>(), 1usize..=4, 1usize..=heavy, proptest::option::of(any::<(u8, u8)>())),
            (prop_oneof![4 => 0usize..=20, 1 => 0usize..=if toy { 300 } else { 70 }], 0usize..=if toy { 300 } else { 60 }),
            proptest::collection::vec(any::<u8>(), 0..20),
            proptest::collection::vec(0u16..16, n),
            proptest::bool::weighted(if n <= 4 { 0.4 } else { 0.0 }),
            if toy { prop_oneof![4 => Just(0u8), 1 => Just(4u8), 1 => Just(8u8), 1 => Just(16u8)].boxed() } else { prop_oneof![5 => Just(0u8), 1 => Just(16u8)].boxed() },
            1usize..=3,
        )
            .prop_map(move |((seed, parties, batch, bad), (table, hint), label, msg, proof, full, copies)| Case {
                toy, seed, n, parties, batch, bad, table, hint, label, msg, proof, full, copies,
            })
    }))
}
fn main() {
    let mut p = Prop::new("C16", "Results do not depend on build configuration or thread scheduling");
    p.assume("thread schedules are those the operating system produces for 1 to 8 workers and up to 3 concurrent callers");
    let nt = "non-trivial: over 30 results compared and a message that is not zero";
    p.part("toy", &format!("three builds, five thread counts, transparent pairing; {nt}"), 220, 12000, || cases(true), check);
    p.part("bls", &format!("three builds, five thread counts, BLS12-381; {nt}"), 40, 800, || cases(false), check);
    p.finish()
}
