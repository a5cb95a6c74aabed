//! A case: everything one simulated run depends on, besides the code.
use crate::rng::Rng;
use simrt::{NS, STREAM_NAMES};

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub prop: String,
    pub cfg: Vec<i64>,
    pub ops: Vec<Vec<i64>>,
    pub st: [Vec<u32>; NS],
}

impl Case {
    pub fn new(prop: &str) -> Case {
        Case { prop: prop.into(), cfg: vec![], ops: vec![], st: Default::default() }
    }
    /// Configuration value `i`; absent means 0.
    pub fn c(&self, i: usize) -> i64 {
        self.cfg.get(i).copied().unwrap_or(0)
    }
    pub fn print(&self, seed: u64, index: u64, o: &crate::runner::Outcome) -> String {
        let (kind, msg) = (&o.kind, &o.msg);
        let mut s = String::new();
        s.push_str("dst-replay 1\n");
        s.push_str(&format!("property {}\nseed {}\nindex {}\nkind {}\n", self.prop, seed, index, kind));
        s.push_str(&format!("message {}\n", msg.replace('\n', " | ")));
        s.push_str(&format!("trace {} {:016x} {:016x}\n", o.steps, o.evhash, o.schedhash));
        s.push_str(&format!("cfg{}\n", self.cfg.iter().map(|x| format!(" {}", x)).collect::<String>()));
        for o in &self.ops {
            s.push_str(&format!("op{}\n", o.iter().map(|x| format!(" {}", x)).collect::<String>()));
        }
        for (i, v) in self.st.iter().enumerate() {
            if !v.is_empty() {
                s.push_str(&format!("stream {}{}\n", STREAM_NAMES[i], v.iter().map(|x| format!(" {}", x)).collect::<String>()));
            }
        }
        s.push_str("end\n");
        s
    }
    /// Returns the case, the kind of violation and the trace fingerprint.
    pub fn parse(text: &str) -> Result<(Case, String, String), String> {
        let mut c = Case::new("");
        let mut kind = String::new();
        let mut fp = String::new();
        let mut seen_end = false;
        for (n, l) in text.lines().enumerate() {
            let mut w = l.split_whitespace();
            let bad = || format!("line {}: {}", n + 1, l);
            match w.next() {
                None => {}
                Some("dst-replay") | Some("seed") | Some("index") | Some("message") => {}
                Some("property") => c.prop = w.next().ok_or_else(bad)?.into(),
                Some("trace") => fp = w.collect::<Vec<_>>().join(" "),
                Some("kind") => kind = w.next().unwrap_or("").into(),
                Some("cfg") => c.cfg = w.map(|x| x.parse().map_err(|_| bad())).collect::<Result<_, _>>()?,
                Some("op") => c.ops.push(w.map(|x| x.parse().map_err(|_| bad())).collect::<Result<_, _>>()?),
                Some("stream") => {
                    let nm = w.next().ok_or_else(bad)?;
                    let i = STREAM_NAMES.iter().position(|x| *x == nm).ok_or_else(bad)?;
                    c.st[i] = w.map(|x| x.parse().map_err(|_| bad())).collect::<Result<_, _>>()?;
                }
                Some("end") => seen_end = true,
                _ => return Err(bad()),
            }
        }
        if !seen_end || c.prop.is_empty() {
            return Err("not a complete replay file".into());
        }
        Ok((c, kind, fp))
    }
}

/// One operation field, absent means 0.
pub fn f(op: &[i64], i: usize) -> i64 {
    op.get(i).copied().unwrap_or(0)
}

/// Field reduced to 0..n.
pub fn fm(op: &[i64], i: usize, n: usize) -> usize {
    f(op, i).unsigned_abs() as usize % n.max(1)
}

// ------------------------------------------------- stream generation (swarm)

/// Gaps between preemptions, in instrumented steps, and targets.
pub fn gen_sched(r: &mut Rng, c: &mut Case) {
    let style = r.below(6);
    let n = match style {
        0 => 0,
        1 => r.below(4) + 1,
        2 => r.below(12) + 1,
        _ => r.below(60) + 4,
    };
    for _ in 0..n {
        let g = match if style == 5 { r.below(4) } else { style } {
            0 | 3 => 1 + r.below(12),
            1 => 1 + r.below(400),
            2 => 1 + r.below(2500),
            _ => 1 + r.skewed(1500),
        };
        c.st[simrt::GAP].push(g as u32);
    }
    let m = r.below(60);
    for _ in 0..m {
        c.st[simrt::TGT].push(r.below(8) as u32);
    }
    let spur = r.chance(1, 2);
    let m = r.below(40);
    for _ in 0..m {
        let sp = spur && r.chance(1, 4);
        c.st[simrt::WAKE].push((r.below(64) as u32) * 8 + sp as u32);
    }
}

/// Address placement.
pub fn gen_place(r: &mut Rng, c: &mut Case) {
    let n = match r.below(3) {
        0 => 0,
        1 => r.below(20),
        _ => r.below(200),
    };
    for _ in 0..n {
        c.st[simrt::PLACE].push(r.below(64) as u32);
    }
}

pub fn gen_rand(r: &mut Rng, c: &mut Case, n: u64) {
    // tower heights come from single bits: bias runs towards short, tall and mixed
    let tall = r.below(5);
    for _ in 0..n {
        let bit = match tall {
            0 => false,
            1 => r.chance(1, 4),
            2 | 3 => r.chance(1, 2),
            _ => r.chance(5, 6),
        };
        c.st[simrt::RAND].push(((bit as u32) << 31) | (r.u64() as u32 >> 1));
    }
}

/// A sparse or dense fault stream with values 1..=kinds, 0 elsewhere.
pub fn gen_faults(r: &mut Rng, c: &mut Case, s: usize, max_len: u64, kinds: &[u32], dense: u64) {
    if kinds.is_empty() {
        return;
    }
    // only some kinds per run
    let mut on: Vec<u32> = kinds.iter().copied().filter(|_| r.chance(2, 3)).collect();
    if on.is_empty() {
        on.push(r.pick(kinds));
    }
    let n = r.below(max_len + 1);
    for _ in 0..n {
        let v = if r.below(100) < dense { r.pick(&on) | ((r.below(1 << 20) as u32) << 8) } else { 0 };
        c.st[s].push(v);
    }
}
