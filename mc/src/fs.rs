//! Randomness under the control of the enumeration: the Fiat-Shamir transcript (recorded,
//! optionally scripted) and the caller's generator (recorded, single draws overridable).
use ark_ff::{to_bytes, ToBytes};
use ark_std::rand::{Error, RngCore, SeedableRng};
use blake2::Blake2s;
use rand_chacha::ChaChaRng;
use std::cell::RefCell;
use zero_over_k::rng::{FiatShamirRng, SimpleHashFiatShamirRng};

pub type RealFS = SimpleHashFiatShamirRng<Blake2s, ChaChaRng>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Init(Vec<u8>),
    Absorb(Vec<u8>),
    /// 64-bit words drawn
    Draw(u64),
}

#[derive(Default)]
struct Tape {
    events: Vec<Ev>,
    /// scripted words, consumed by successive draws
    script: Vec<u64>,
    pos: usize,
}

thread_local! {
    static TAPE: RefCell<Tape> = RefCell::new(Tape::default());
}

/// Starts a fresh recording with the given script (empty: the real hash decides).
pub fn start(script: Vec<u64>) {
    TAPE.with(|t| *t.borrow_mut() = Tape { events: vec![], script, pos: 0 });
}
/// Ends the recording and returns it.
pub fn finish() -> Vec<Ev> {
    TAPE.with(|t| std::mem::take(&mut *t.borrow_mut()).events)
}
/// Draws recorded, in order.
pub fn draws(ev: &[Ev]) -> Vec<u64> {
    ev.iter().filter_map(|e| if let Ev::Draw(d) = e { Some(*d) } else { None }).collect()
}
/// Draws grouped by the number of absorb calls before them.
pub fn segments(ev: &[Ev]) -> Vec<(usize, Vec<u64>)> {
    let mut out: Vec<(usize, Vec<u64>)> = vec![];
    let mut absorbed = 0;
    for e in ev {
        match e {
            Ev::Init(_) => absorbed = 0,
            Ev::Absorb(_) => absorbed += 1,
            Ev::Draw(d) => match out.last_mut() {
                Some((a, v)) if *a == absorbed => v.push(*d),
                _ => out.push((absorbed, vec![*d])),
            },
        }
    }
    out
}

/// The transcript used by (almost) all explorations: the real hash transcript, recorded.
pub struct TapeFS {
    inner: RealFS,
}
fn push(e: Ev) {
    TAPE.with(|t| t.borrow_mut().events.push(e));
}
impl TapeFS {
    fn draw(&mut self) -> u64 {
        let inner = self.inner.next_u64();
        TAPE.with(|t| {
            let mut t = t.borrow_mut();
            let w = if t.pos < t.script.len() { t.script[t.pos] } else { inner };
            t.pos += 1;
            t.events.push(Ev::Draw(w));
            w
        })
    }
}
impl RngCore for TapeFS {
    fn next_u32(&mut self) -> u32 {
        self.draw() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.draw()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let w = self.draw().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&w[..n]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl FiatShamirRng for TapeFS {
    fn initialize<'a, T: 'a + ToBytes>(i: &'a T) -> Self {
        push(Ev::Init(to_bytes![i].unwrap()));
        Self { inner: RealFS::initialize(i) }
    }
    fn absorb<'a, T: 'a + ToBytes>(&mut self, i: &'a T) {
        push(Ev::Absorb(to_bytes![i].unwrap()));
        self.inner.absorb(i)
    }
}

/// The caller's generator: a fixed stream with overridable words; counts the draws.
#[derive(Clone)]
pub struct ZkRng {
    inner: ChaChaRng,
    pub overrides: std::collections::BTreeMap<usize, u64>,
    pub drawn: Vec<u64>,
}
impl ZkRng {
    pub fn new(seed: u64) -> Self {
        Self {
            inner: ChaChaRng::seed_from_u64(seed),
            overrides: Default::default(),
            drawn: vec![],
        }
    }
    fn draw(&mut self) -> u64 {
        let w = self.inner.next_u64();
        let w = self.overrides.get(&self.drawn.len()).copied().unwrap_or(w);
        self.drawn.push(w);
        w
    }
}
impl RngCore for ZkRng {
    fn next_u32(&mut self) -> u32 {
        self.draw() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.draw()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let w = self.draw().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&w[..n]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// The field elements that a sequence of drawn words decodes to.
pub fn field_draws<F: ark_ff::PrimeField>(words: &[u64]) -> Vec<F> {
    struct W<'a>(&'a [u64], usize);
    impl<'a> RngCore for W<'a> {
        fn next_u32(&mut self) -> u32 {
            self.next_u64() as u32
        }
        fn next_u64(&mut self) -> u64 {
            self.1 += 1;
            self.0.get(self.1 - 1).copied().unwrap_or(0)
        }
        fn fill_bytes(&mut self, d: &mut [u8]) {
            for c in d.chunks_mut(8) {
                let w = self.next_u64().to_le_bytes();
                let n = c.len();
                c.copy_from_slice(&w[..n]);
            }
        }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
            self.fill_bytes(d);
            Ok(())
        }
    }
    let mut w = W(words, 0);
    let mut out = vec![];
    while w.1 < words.len() {
        out.push(F::rand(&mut w));
    }
    out
}
