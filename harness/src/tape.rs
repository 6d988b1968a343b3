//! Choice tapes: every random decision of a case is read from one vector of numbers that proptest
//! generates and shrinks. 0 always means the simplest choice, and a tape that ends reads as zeros.

use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::TestRunner;
use proptest::prelude::Rng;

pub struct Tape<'a> {
    data: &'a [u32],
    pos: usize,
}

impl<'a> Tape<'a> {
    pub fn new(data: &'a [u32]) -> Self {
        Tape { data, pos: 0 }
    }
    /// Decisions for something large, made from one
    pub fn derived(seed: u32, len: usize) -> Vec<u32> {
        let mut state = seed as u64;
        (0..len)
            .map(|_| {
                state = state.wrapping_add(0x9e37_79b9_7f4a_7c15);
                let mut z = state;
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                (z >> 32) as u32 ^ z as u32
            })
            .collect()
    }
    pub fn raw(&mut self) -> u32 {
        let v = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with the given chance in percent
    pub fn chance(&mut self, percent: u32) -> bool {
        let v = ((self.raw() as u64 * 100) >> 32) as u32;
        v >= 100 - percent.min(100)
    }
    pub fn pick<'b, T>(&mut self, items: &'b [T]) -> &'b T {
        &items[self.below(items.len())]
    }
    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        // All zeros leaves the order as it is
        for i in 0..items.len() {
            let j = i + self.below(items.len() - i);
            items.swap(i, j);
        }
    }
}

#[derive(Debug, Clone)]
pub struct TapeStrategy {
    pub min_len: usize,
    pub max_len: usize,
}

impl Strategy for TapeStrategy {
    type Tree = TapeTree;
    type Value = Vec<u32>;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        let rng = runner.rng();
        let span = (self.max_len - self.min_len + 1) as u64;
        let len = self.min_len + ((rng.next_u32() as u64 * span) >> 32) as usize;
        let data: Vec<u32> = (0..len).map(|_| rng.next_u32()).collect();
        Ok(TapeTree::new(data))
    }
}

#[derive(Debug, Clone, Copy)]
enum Pass {
    Truncate(usize),
    Delete(usize, usize),
    Zero(usize, usize),
    Lower(usize, u32),
    Done,
}

#[derive(Debug, Clone)]
pub struct TapeTree {
    /// Last value known to fail (or the initial one)
    best: Vec<u32>,
    current: Vec<u32>,
    pass: Pass,
    changed: bool,
    rounds: u32,
}

impl TapeTree {
    fn new(data: Vec<u32>) -> Self {
        let len = data.len();
        TapeTree {
            best: data.clone(),
            current: data,
            pass: Pass::Truncate(len / 2),
            changed: false,
            rounds: 0,
        }
    }

    /// Makes the next candidate out of best
    fn advance(&mut self) -> bool {
        loop {
            let len = self.best.len();
            match self.pass {
                Pass::Truncate(keep) => {
                    // keep the first `keep` entries
                    if keep >= len || len - keep < 1 {
                        self.pass = Pass::Delete((len / 4).max(1), 0);
                        continue;
                    }
                    self.pass = Pass::Truncate(keep + ((len - keep) / 2).max(1));
                    self.current = self.best[..keep].to_vec();
                    return true;
                }
                Pass::Delete(size, at) => {
                    if at >= len {
                        self.pass = if size == 1 {
                            Pass::Zero((len / 8).max(1), 0)
                        } else {
                            Pass::Delete((size / 2).max(1), 0)
                        };
                        continue;
                    }
                    let end = (at + size).min(len);
                    let mut c = self.best[..at].to_vec();
                    c.extend_from_slice(&self.best[end..]);
                    self.pass = Pass::Delete(size, at + size);
                    self.current = c;
                    return true;
                }
                Pass::Zero(size, at) => {
                    if at >= len {
                        self.pass = if size == 1 {
                            Pass::Lower(0, 0)
                        } else {
                            Pass::Zero((size / 2).max(1), 0)
                        };
                        continue;
                    }
                    self.pass = Pass::Zero(size, at + size);
                    let end = (at + size).min(len);
                    if self.best[at..end].iter().all(|v| *v == 0) {
                        continue;
                    }
                    let mut c = self.best.clone();
                    c[at..end].iter_mut().for_each(|v| *v = 0);
                    self.current = c;
                    return true;
                }
                Pass::Lower(at, step) => {
                    if at >= len {
                        if self.changed && self.rounds < 3 {
                            self.changed = false;
                            self.rounds += 1;
                            self.pass = Pass::Truncate(len / 2);
                            continue;
                        }
                        self.pass = Pass::Done;
                        continue;
                    }
                    if step >= 3 || self.best[at] == 0 {
                        self.pass = Pass::Lower(at + 1, 0);
                        continue;
                    }
                    self.pass = Pass::Lower(at, step + 1);
                    let mut c = self.best.clone();
                    c[at] = match step {
                        0 => c[at] / 2,
                        1 => c[at] - c[at] / 4,
                        _ => c[at] - c[at] / 8,
                    };
                    if c[at] == self.best[at] {
                        continue;
                    }
                    self.current = c;
                    return true;
                }
                Pass::Done => return false,
            }
        }
    }
}

impl ValueTree for TapeTree {
    type Value = Vec<u32>;
    fn current(&self) -> Vec<u32> {
        self.current.clone()
    }
    fn simplify(&mut self) -> bool {
        // current fails: keep it
        if self.best != self.current {
            self.changed = true;
            // After a deletion the same offset holds new entries
            match self.pass {
                Pass::Delete(size, at) => self.pass = Pass::Delete(size, at.saturating_sub(size)),
                Pass::Truncate(_) => self.pass = Pass::Truncate(self.current.len() / 2),
                _ => {}
            }
        }
        self.best = self.current.clone();
        self.advance()
    }
    fn complicate(&mut self) -> bool {
        self.current = self.best.clone();
        self.advance()
    }
}
