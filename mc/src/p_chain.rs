//! A registry of every public signal chain, and the properties that range over all of them: C18 C30 C31.
use crate::core::*;
use crate::p_iter::Set;
use crate::{ensure, Tier};
use komunikilo::bpf::bandpass;
use komunikilo::bpsk::*;
use komunikilo::cdma::*;
use komunikilo::chaos::*;
use komunikilo::csk::*;
use komunikilo::dcsk::*;
use komunikilo::fh::*;
use komunikilo::fh_css::*;
use komunikilo::fh_ofdm_dcsk::*;
use komunikilo::fm::*;
use komunikilo::fsk::*;
use komunikilo::hadamard::HadamardMatrix;
use komunikilo::iter::Iter;
use komunikilo::ofdm::*;
use komunikilo::qpsk::*;
use num_complex::Complex;
use std::cell::Cell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::{Mutex, OnceLock};

type C = Complex<f64>;
pub type Src = Box<dyn Iterator<Item = C>>;

/// Everything a chain's own iterator can be asked, behind one pointer.
trait Ops {
    fn next1(&mut self) -> Option<u64>;
    fn nth1(&mut self, n: usize) -> Option<u64>;
    fn hint1(&self) -> (usize, Option<usize>);
    fn count1(self: Box<Self>) -> usize;
    fn last1(self: Box<Self>) -> Option<u64>;
    fn fold1(self: Box<Self>) -> Vec<u64>;
}
impl<T: Enc, I: Iterator<Item = T>> Ops for I {
    fn next1(&mut self) -> Option<u64> {
        self.next().map(Enc::enc)
    }
    fn nth1(&mut self, n: usize) -> Option<u64> {
        self.nth(n).map(Enc::enc)
    }
    fn hint1(&self) -> (usize, Option<usize>) {
        self.size_hint()
    }
    fn count1(self: Box<Self>) -> usize {
        (*self).count()
    }
    fn last1(self: Box<Self>) -> Option<u64> {
        (*self).last().map(Enc::enc)
    }
    fn fold1(self: Box<Self>) -> Vec<u64> {
        (*self).fold(vec![], |mut v, x| {
            v.push(x.enc());
            v
        })
    }
}
pub struct Out(Box<dyn Ops>);
impl Iterator for Out {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        self.0.next1()
    }
    fn nth(&mut self, n: usize) -> Option<u64> {
        self.0.nth1(n)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint1()
    }
    fn count(self) -> usize {
        self.0.count1()
    }
    fn last(self) -> Option<u64> {
        self.0.last1()
    }
    fn fold<B, F: FnMut(B, u64) -> B>(self, init: B, f: F) -> B {
        self.0.fold1().into_iter().fold(init, f)
    }
}

/// An output item as a number: equal numbers iff equal items.
pub trait Enc {
    fn enc(self) -> u64;
}
impl Enc for bool {
    fn enc(self) -> u64 {
        self as u64
    }
}
impl Enc for f64 {
    fn enc(self) -> u64 {
        self.to_bits()
    }
}
impl Enc for C {
    fn enc(self) -> u64 {
        fnv([self.re.to_bits(), self.im.to_bits()].into_iter())
    }
}
impl<T: Enc> Enc for Vec<T> {
    fn enc(self) -> u64 {
        fnv(self.into_iter().map(|x| x.enc()))
    }
}
impl<T: Enc, const N: usize> Enc for [T; N] {
    fn enc(self) -> u64 {
        fnv(self.into_iter().map(|x| x.enc()))
    }
}

fn b(s: Src) -> impl Iterator<Item = bool> {
    s.map(|z| z.re > 0.0)
}
fn f(s: Src) -> impl Iterator<Item = f64> {
    s.map(|z| z.re)
}
fn out<T: Enc, I: Iterator<Item = T> + 'static>(it: I) -> Out {
    Out(Box::new(it))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Tx,
    /// A receiver; its input is produced by the transmitter of that name.
    Rx(&'static str),
    Gen,
    Adapt,
}

pub struct Chain {
    pub name: String,
    pub kind: Kind,
    /// Items in and items out per complete block (symbol, frame).
    pub bi: usize,
    pub bo: usize,
    pub make: Box<dyn Fn(Src) -> Out + Send + Sync>,
}

fn ch(name: &str, kind: Kind, bi: usize, bo: usize, make: impl Fn(Src) -> Out + Send + Sync + 'static) -> Chain {
    Chain { name: name.into(), kind, bi, bo, make: Box::new(make) }
}

fn key(v: Vec<bool>) -> &'static [bool] {
    static K: OnceLock<Mutex<HashMap<Vec<bool>, &'static [bool]>>> = OnceLock::new();
    let mut m = K.get_or_init(Default::default).lock().unwrap();
    *m.entry(v.clone()).or_insert_with(|| Box::leak(v.into_boxed_slice()))
}

/// (sample rate, symbol rate, carrier)
const PASS: [(usize, usize, f64); 4] = [(40, 10, 10.0), (40, 10, 5.0), (80, 10, 10.0), (80, 20, 10.0)];
const FREQ: [(f64, f64, usize, usize, usize); 6] =
    [(10.0, 40.0, 5, 100, 10), (20.0, 40.0, 5, 100, 10), (10.0, 40.0, 3, 100, 10), (10.0, 40.0, 5, 200, 10), (10.0, 40.0, 1, 100, 10), (10.0, 30.0, 5, 100, 20)];

pub fn registry() -> Vec<Chain> {
    use Kind::*;
    let mut v = vec![];
    v.push(ch("tx_baseband_bpsk", Tx, 1, 1, |s| out(tx_baseband_bpsk_signal(b(s)))));
    v.push(ch("rx_baseband_bpsk", Rx("tx_baseband_bpsk"), 1, 1, |s| out(rx_baseband_bpsk_signal(s))));
    v.push(ch("tx_baseband_qpsk", Tx, 2, 1, |s| out(tx_baseband_qpsk_signal(b(s)))));
    v.push(ch("rx_baseband_qpsk", Rx("tx_baseband_qpsk"), 1, 2, |s| out(rx_baseband_qpsk_signal(s))));
    for (i, (fs, rs, fc)) in PASS.into_iter().enumerate() {
        let sps = fs / rs;
        let n = |x: &str| format!("{x}#{i}");
        let st = |x: &str| -> &'static str { Box::leak(format!("{x}#{i}").into_boxed_str()) };
        v.push(ch(&n("tx_bpsk"), Tx, 1, sps, move |s| out(tx_bpsk_signal(b(s), fs, rs, fc))));
        v.push(ch(&n("rx_bpsk"), Rx(st("tx_bpsk")), sps, 1, move |s| out(rx_bpsk_signal(f(s), fs, rs, fc))));
        v.push(ch(&n("tx_qpsk"), Tx, 2, sps, move |s| out(tx_qpsk_signal(b(s), fs, rs, fc))));
        v.push(ch(&n("rx_qpsk"), Rx(st("tx_qpsk")), sps, 2, move |s| out(rx_qpsk_signal(f(s), fs, rs, fc))));
        v.push(ch(&n("tx_fsk_carrier"), Tx, 1, sps, move |s| out(tx_fsk(b(s), fs, rs, fc))));
        v.push(ch(&n("tx_fm"), Tx, 1, sps, move |s| out(tx_fm(f(s), fs, rs, fc))));
        v.push(ch(&n("tx_bfsk"), Tx, 1, sps, move |s| out(tx_bfsk_signal(b(s), fs, rs, fc, 1.5 * fc))));
        v.push(ch(&n("tx_mfsk"), Tx, 1, sps, move |s| out(tx_mfsk_signal(b(s), fs, rs, fc, 1.5 * fc, 2))));
        v.push(ch(&n("tx_fsk_list"), Tx, 1, sps, move |s| out(tx_fsk_signal(b(s), fs, rs, &[1.5 * fc, fc]))));
        v.push(ch(&n("tx_fh_ofdm_dcsk_2"), Tx, 7, 10 * sps, move |s| out(tx_fh_ofdm_dcsk_signal_2(b(s), fs, rs, fc))));
        v.push(ch(&n("linear_chirp"), Gen, 1, 1, move |_| out(linear_chirp(rs as f64, fs * 4, fc, 2.0 * fc))));
        let (sc, pl) = [(8usize, 2usize), (8, 3), (7, 2), (16, 2)][i];
        let os = sc + sc / 4;
        v.push(ch(&n("tx_baseband_ofdm"), Tx, sc - pl, os, move |s| out(tx_baseband_ofdm_signal(s.map(|z| C::new(z.re, z.im)), sc, pl))));
        v.push(ch(&n("rx_baseband_ofdm"), Rx(st("tx_baseband_ofdm")), os, sc - pl, move |s| out(rx_baseband_ofdm_signal(s, sc, pl))));
        v.push(ch(&n("tx_ofdm"), Tx, 2 * (sc - pl), os * sps, move |s| out(tx_ofdm_qpsk_signal(b(s), sc, pl, fs, rs, fc))));
        v.push(ch(&n("rx_ofdm"), Rx(st("tx_ofdm")), os * sps, 2 * (sc - pl), move |s| out(rx_ofdm_qpsk_signal(f(s), sc, pl, fs, rs, fc))));
        let k: &'static [bool] = match i {
            0 => key(vec![true, false, true, true]),
            1 => key(vec![false, true, true, false]),
            2 => key(vec![true, true, false]),
            _ => key(HadamardMatrix::new(4).key(1).clone()),
        };
        let kl = k.len();
        // a whole number of samples (4) per chip
        let (cfs, crs) = (4 * kl * rs, rs);
        let cs = 4 * kl;
        let cfc = kl as f64 * rs as f64 * if i % 2 == 0 { 1.0 } else { 0.5 };
        v.push(ch(&n("tx_baseband_cdma"), Tx, 1, kl, move |s| out(tx_baseband_cdma(b(s), k))));
        v.push(ch(&n("rx_baseband_cdma"), Rx(st("tx_baseband_cdma")), kl, 1, move |s| out(rx_baseband_cdma(b(s), k))));
        v.push(ch(&n("tx_cdma_bpsk"), Tx, 1, cs, move |s| out(tx_cdma_bpsk_signal(b(s), cfs, crs, cfc, k))));
        v.push(ch(&n("rx_cdma_bpsk"), Rx(st("tx_cdma_bpsk")), cs, 1, move |s| out(rx_cdma_bpsk_signal(f(s), cfs, crs, cfc, k))));
        v.push(ch(&n("tx_cdma_qpsk"), Tx, 2, cs, move |s| out(tx_cdma_qpsk_signal(b(s), cfs, crs, cfc, k))));
        v.push(ch(&n("rx_cdma_qpsk"), Rx(st("tx_cdma_qpsk")), cs, 2, move |s| out(rx_cdma_qpsk_signal(f(s), cfs, crs, cfc, k))));
        v.push(ch(&n("tx_coded_cdma"), Tx, 56, 96 * cs, move |s| out(tx_coded_cdma_bpsk_signal(b(s), cfs, crs, cfc, k))));
        v.push(ch(&n("rx_coded_cdma"), Rx(st("tx_coded_cdma")), 96 * cs, 56, move |s| out(rx_coded_cdma_bpsk_signal(f(s), cfs, crs, cfc, k))));
        // carrier FSK in the domain of its receiver
        let (ffs, frs, ffc) = [(50usize * 2, 2usize, 40.0), (44 * 2, 2, 40.0), (50 * 2, 2, 40.0), (84, 1, 40.0)][i];
        let fsps = ffs / frs;
        if i != 2 {
            v.push(ch(&n("tx_fsk"), Tx, 1, fsps, move |s| out(tx_fsk(b(s), ffs, frs, ffc))));
            v.push(ch(&n("rx_fsk"), Rx(st("tx_fsk")), fsps, 1, move |s| out(rx_fsk(f(s), ffs, frs, ffc))));
        }
    }
    for (i, (lo, hi, nf, fs, rs)) in FREQ.into_iter().enumerate() {
        let sps = fs / rs;
        let n = |x: &str| format!("{x}#{i}");
        let st = |x: &str| -> &'static str { Box::leak(format!("{x}#{i}").into_boxed_str()) };
        v.push(ch(&n("tx_fh_bpsk"), Tx, 1, sps, move |s| out(tx_fh_bpsk_signal(b(s), lo, hi, nf, fs, rs))));
        v.push(ch(&n("rx_fh_bpsk"), Rx(st("tx_fh_bpsk")), sps, 1, move |s| out(rx_fh_bpsk_signal(f(s), lo, hi, nf, fs, rs))));
        v.push(ch(&n("tx_fh_css"), Tx, 1, sps, move |s| out(tx_fh_css_signal(b(s), fs, rs, lo, hi, nf))));
        v.push(ch(&n("tx_fh_ofdm_dcsk"), Tx, 7, 10 * sps, move |s| out(tx_fh_ofdm_dcsk_signal(b(s), lo, hi, nf, fs, rs))));
        if i < 2 {
            v.push(ch(&n("tx_fh_bpsk_old"), Tx, 1, sps, move |s| out(tx_fh_bpsk_signal_old(b(s), lo, hi, nf, fs, rs, 20.0))));
            v.push(ch(&n("upchirp"), Gen, 1, 1, move |_| out(linear_upchirp_centered(rs as f64, lo, hi, fs * 4))));
            v.push(ch(&n("downchirp"), Gen, 1, 1, move |_| out(linear_downchirp_centered(rs as f64, lo, hi, fs * 4))));
        }
    }
    v.push(ch("tx_baseband_fh_ofdm_dcsk", Tx, 7, 10, |s| out(tx_baseband_fh_ofdm_dcsk_signal(b(s)))));
    v.push(ch("rx_baseband_fh_ofdm_dcsk", Rx("tx_baseband_fh_ofdm_dcsk"), 10, 7, |s| out(rx_baseband_fh_ofdm_dcsk_signal(s))));
    v.push(ch("tx_csk", Tx, 1, 1, |s| out(tx_baseband_csk(b(s)))));
    #[cfg(kmc)]
    v.push(ch("rx_csk", Rx("tx_csk"), 1, 1, |s| out(komunikilo::csk::kmc_hook::rx_baseband_csk(f(s)))));
    v.push(ch("tx_dcsk", Tx, 1, 2, |s| out(tx_baseband_dcsk(b(s)))));
    v.push(ch("rx_dcsk", Rx("tx_dcsk"), 2, 1, |s| out(rx_baseband_dcsk(f(s)))));
    v.push(ch("logistic#0", Gen, 1, 1, |_| out(LogisticMap::new(3.9, 0.1))));
    v.push(ch("logistic#1", Gen, 1, 1, |_| out(LogisticMap::new(3.9, 0.15))));
    v.push(ch("logistic#2", Gen, 1, 1, |_| out(LogisticMap::new(3.7, 0.1))));
    v.push(ch("chebyshev#0", Gen, 1, 1, |_| out(Chebyshev::new(0.5))));
    v.push(ch("chebyshev#1", Gen, 1, 1, |_| out(Chebyshev::new(0.4))));
    for n in [256usize, 512, 8] {
        v.push(ch(&format!("walsh#{n}"), Gen, 1, 1, move |_| {
            let h = HadamardMatrix::new(n);
            let chips = h.key(0).len() as f64;
            out(std::iter::once(chips).chain((0..n - 1).flat_map(move |k| h.key(k).clone()).map(|b| if b { 1.0 } else { -1.0 })))
        }));
    }
    for (i, (m, k)) in [(64usize, 8usize), (64, 16), (128, 8)].into_iter().enumerate() {
        let sig = |m: usize| -> Vec<f64> { items(2 * m).0.iter().enumerate().map(|(k, z)| z.re + 0.25 * ((k * k) as f64 * 0.37).sin()).collect() };
        v.push(ch(&format!("ssca_base#{i}"), Gen, 1, 1, move |_| out(komunikilo::ssca::ssca_base(sig(m), m, k).into_iter())));
        v.push(ch(&format!("ssca_mapped#{i}"), Gen, 1, 1, move |_| out(komunikilo::ssca::ssca_mapped(sig(m), m, k).into_iter())));
        v.push(ch(&format!("hadamard#{i}"), Gen, 1, 1, move |_| {
            let h = HadamardMatrix::new(4 << i);
            out((0..4 << i).map(|r| h.key(r).clone()).collect::<Vec<_>>().into_iter())
        }));
        v.push(ch(&format!("linspace#{i}"), Gen, 1, 1, move |_| out(komunikilo::linspace(m as f64, 0.5, k * 4))));
    }
    v.push(ch("chunks#0", Adapt, 3, 1, |s| out(s.chunks(3))));
    v.push(ch("chunks#1", Adapt, 4, 1, |s| out(s.chunks(4))));
    v.push(ch("wchunks", Adapt, 3, 1, |s| out(f(s).wchunks(3))));
    v.push(ch("inflate#0", Adapt, 1, 3, |s| out(s.inflate(3))));
    v.push(ch("inflate#1", Adapt, 1, 2, |s| out(s.inflate(2))));
    v.push(ch("take_every", Adapt, 3, 1, |s| out(s.take_every(3))));
    v.push(ch("scale", Adapt, 1, 1, |s| out(Iter::scale(f(s), 2.5))));
    v.push(ch("convolve#0", Adapt, 1, 1, |s| out(f(s).convolve(vec![1.0, 2.0, -3.0]))));
    v.push(ch("convolve#1", Adapt, 1, 1, |s| out(f(s).convolve(vec![0.5, 2.0, 1.0, 7.0]))));
    v.push(ch("nonvolve", Adapt, 1, 1, |s| out(s.map(|z| [z.re, z.im]).nonvolve(vec![1.0, 2.0, -3.0]))));
    v.push(ch("integrate", Adapt, 1, 1, |s| out(f(s).integrate())));
    v.push(ch("nintegrate", Adapt, 1, 1, |s| out(s.map(|z| [z.re, z.im]).nintegrate())));
    v.push(ch("integrate_and_dump#0", Adapt, 4, 1, |s| out(f(s).integrate_and_dump(4))));
    v.push(ch("integrate_and_dump#1", Adapt, 5, 1, |s| out(f(s).integrate_and_dump(5))));
    v.push(ch("nintegrate_and_dump", Adapt, 4, 1, |s| out(s.map(|z| [z.re, z.im]).nintegrate_and_dump(4))));
    v.push(ch("bandpass#0", Adapt, 16, 16, |s| out(bandpass(10.0, 30.0, f(s), 100, 16))));
    v.push(ch("bandpass#1", Adapt, 16, 16, |s| out(bandpass(20.0, 40.0, f(s), 100, 16))));
    v.push(ch("bandpass#2", Adapt, 15, 15, |s| out(bandpass(10.0, 30.0, f(s), 100, 15))));
    v
}

fn reg() -> &'static Vec<Chain> {
    static R: OnceLock<Vec<Chain>> = OnceLock::new();
    R.get_or_init(registry)
}
fn find(name: &str) -> usize {
    reg().iter().position(|c| c.name == name).unwrap_or_else(|| panic!("harness: no chain {name}"))
}

struct Items(Vec<C>);
fn items(n: usize) -> std::sync::Arc<Items> {
    static M: OnceLock<Mutex<HashMap<usize, std::sync::Arc<Items>>>> = OnceLock::new();
    let mut m = M.get_or_init(Default::default).lock().unwrap();
    m.entry(n)
        .or_insert_with(|| {
            let d = content(1 << 11);
            let s = |x: bool| if x { 1.0 } else { -1.0 };
            std::sync::Arc::new(Items((0..n).map(|i| C::new(s(d[i % d.len()]), s(d[(i * 7 + 3) % d.len()]))).collect()))
        })
        .clone()
}

/// Real-valued transmissions for receivers: run the transmitter, keep the numbers (not the codes).
fn transmission(rx: &Chain, blocks: usize) -> Vec<C> {
    let Kind::Rx(tx) = rx.kind else { unreachable!() };
    let t = &reg()[find(tx)];
    let n_in = t.bi * blocks;
    let src: Src = Box::new(items(n_in).0.clone().into_iter());
    raw_tx(tx, src, t)
}

/// The transmitters that feed receivers, as complex samples.
fn raw_tx(name: &str, s: Src, t: &Chain) -> Vec<C> {
    // the encodings of bool and f64 outputs are invertible; complex outputs are rebuilt here
    let (base, i) = match name.split_once('#') {
        Some((a, k)) => (a, k.parse::<usize>().unwrap()),
        None => (name, 0),
    };
    let (sc, pl) = [(8usize, 2usize), (8, 3), (7, 2), (16, 2)][i.min(3)];
    match base {
        "tx_baseband_bpsk" => tx_baseband_bpsk_signal(b(s)).collect(),
        "tx_baseband_qpsk" => tx_baseband_qpsk_signal(b(s)).collect(),
        "tx_baseband_ofdm" => tx_baseband_ofdm_signal(s, sc, pl).collect(),
        "tx_baseband_fh_ofdm_dcsk" => tx_baseband_fh_ofdm_dcsk_signal(b(s)).collect(),
        "tx_baseband_cdma" => (t.make)(s).map(|x| C::new(if x == 1 { 1.0 } else { -1.0 }, 0.0)).collect(),
        _ => (t.make)(s).map(|x| C::new(f64::from_bits(x), 0.0)).collect(),
    }
}

/// Finite input for chain c holding `blocks` complete blocks.
fn input(c: &Chain, blocks: usize) -> Vec<C> {
    match c.kind {
        Kind::Rx(_) => transmission(c, blocks),
        Kind::Gen => vec![],
        _ => items(c.bi * blocks).0.clone(),
    }
}

// ------------------------------------------------------------------ C18

fn receivers() -> Vec<usize> {
    (0..reg().len()).filter(|&i| matches!(reg()[i].kind, Kind::Rx(_))).collect()
}

fn run_rx(c: &Chain, x: Vec<C>) -> Result<Vec<u64>, String> {
    let n = x.len();
    let lim = (n / c.bi + 2) * c.bo + 60;
    match panics(|| pull((c.make)(Box::new(x.into_iter())), lim)) {
        Ok(r) => r.map_err(|e| format!("{}: {e}", c.name)),
        Err(p) => Err(format!("{}: panicked on {n} received items: {p}", c.name)),
    }
}

const NASTY: [f64; 12] = [0.0, 1.0, -1.0, f64::MAX, -f64::MAX, 5e-324, -5e-324, 1e155, -1e155, -0.0, 0.5, 1e-160];

pub fn c18(t: Tier) -> Set {
    (
        vec![
            scn("cuts", "every receiver configuration x every cut point of a transmission of 6 blocks (coded: 2 frames, cut at every sample of the first two bytes and around every byte)", move |ctx| {
                let c = &reg()[ctx.pick("rx", &receivers())];
                let coded = c.name.starts_with("rx_coded");
                let full = transmission(c, if coded { 2 } else { t.of(6, 12) });
                let n = if coded {
                    let cs = c.bi / 96;
                    let mut cuts: Vec<usize> = (0..=16 * cs).collect();
                    for k in 0..=24 {
                        for d in [0isize, -1, 1, cs as isize, -(cs as isize), cs as isize + 1] {
                            let p = (k * 8 * cs) as isize + d;
                            if p >= 0 && p as usize <= full.len() {
                                cuts.push(p as usize);
                            }
                        }
                    }
                    cuts.sort();
                    cuts.dedup();
                    ctx.pick("cut", &cuts)
                } else {
                    ctx.choose("cut", full.len() + 1)
                };
                let whole = run_rx(c, full.clone())?;
                let part = run_rx(c, full[..n].to_vec())?;
                let done = n / c.bi * c.bo;
                ctx.step(part.len());
                ctx.observe(fnv(part.iter().cloned()));
                ensure!(part.len() >= done, "{}: {n} of {} items received: only {} of {done} bits of complete blocks decoded", c.name, full.len(), part.len());
                for i in 0..done {
                    ensure!(part[i] == whole[i], "{}: {n} of {} items received: item {i} decoded differently", c.name, full.len());
                }
                Ok(())
            }),
            scn("cuts-dropped-head", "every receiver: a transmission whose first 0..2 blocks of samples are missing (reception starts late), every offset", move |ctx| {
                let c = &reg()[ctx.pick("rx", &receivers())];
                let coded = c.name.starts_with("rx_coded");
                let full = transmission(c, if coded { 2 } else { 4 });
                let k = if coded { ctx.choose("skip", 60) * 13 } else { ctx.choose("skip", 2 * c.bi) };
                let r = run_rx(c, full[k.min(full.len())..].to_vec())?;
                ctx.step(r.len());
                ctx.observe(fnv(r.into_iter()));
                Ok(())
            }),
            scn("garbage-exhaustive", "every receiver: every sequence of up to 3 items over 12 finite values (zeros, tiny, huge, both signs) filling or repeating into 3 blocks", move |ctx| {
                let c = &reg()[ctx.pick("rx", &receivers())];
                let k = 1 + ctx.choose("k", t.of(3, 4));
                let mut w = vec![];
                for _ in 0..k {
                    w.push(ctx.pick("v", &NASTY));
                }
                let n = ctx.pick("blocks", &[0usize, 3]) * c.bi;
                let n = if n == 0 { k } else if c.name.starts_with("rx_coded") { n / 3 + 1 } else { n + 1 };
                let x: Vec<C> = (0..n).map(|i| C::new(w[i % k], w[(i + 1) % k])).collect();
                let r = run_rx(c, x)?;
                ctx.step(r.len());
                ctx.observe(fnv(r.into_iter()));
                Ok(())
            }),
            scn("disturbed", "every receiver: a transmission of 5 blocks with one item (each position) replaced by each of 12 values: other blocks decode as before", move |ctx| {
                let c = &reg()[ctx.pick("rx", &receivers())];
                if c.name.starts_with("rx_coded") {
                    return Ok(());
                }
                let full = transmission(c, 5);
                let p = ctx.choose("pos", full.len());
                let v = ctx.pick("v", &NASTY);
                let whole = run_rx(c, full.clone())?;
                let mut x = full;
                x[p] = C::new(v, -v);
                let r = run_rx(c, x)?;
                ctx.step(r.len());
                ensure!(r.len() == whole.len(), "{}: item {p} replaced by {v}: {} bits instead of {}", c.name, r.len(), whole.len());
                for i in 0..r.len() {
                    if i / c.bo != p / c.bi {
                        ensure!(r[i] == whole[i], "{}: item {p} replaced by {v} changes bit {i} of another block", c.name);
                    }
                }
                ctx.observe(fnv(r.into_iter()));
                Ok(())
            }),
            scn("coded-garbage", "coded receiver (2-chip key, 2 samples per chip): arbitrary frames: every window of a de Bruijn sequence of 2^14 bits x lengths of 48..200 bits", move |ctx| {
                let k = key(vec![true, false]);
                let off = ctx.choose("offset", t.of(1 << 12, 1 << 15));
                let n = ctx.pick("bits", &[96usize, 48, 56, 95, 97, 104, 88, 192, 200, 49, 47]);
                let d: Vec<bool> = content(off * 3 + n)[off * 3..].to_vec();
                let x: Vec<f64> = pull(tx_cdma_bpsk_signal(d.into_iter(), 40, 10, 0.0, k), n * 4 + 1)?;
                let r = match panics(|| pull(rx_coded_cdma_bpsk_signal(x.into_iter(), 40, 10, 0.0, k), n + 60)) {
                    Ok(r) => r?,
                    Err(p) => return Err(format!("coded receiver panicked on {n} bits of garbage: {p}")),
                };
                ctx.step(r.len());
                ctx.observe(hash_bits(&r));
                Ok(())
            }),
            scn("bursts", "every receiver configuration: of 8 blocks every run a..b replaced by each of 12 values, alternating signs or a foreign pattern: all other blocks decode as before", move |ctx| {
                let c = &reg()[ctx.pick("rx", &receivers())];
                let coded = c.name.starts_with("rx_coded");
                let nb = if coded { 3 } else { 8 };
                let full = transmission(c, nb);
                let a = ctx.choose("from", nb);
                let z = a + 1 + ctx.choose("blocks", nb - a);
                let v = ctx.pick("v", &NASTY);
                let how = ctx.choose("how", 3);
                let whole = run_rx(c, full.clone())?;
                let mut x = full.clone();
                for p in a * c.bi..(z * c.bi).min(x.len()) {
                    x[p] = match how {
                        0 => C::new(v, -v),
                        1 => C::new(if p % 2 == 0 { v } else { -v }, v),
                        _ => full[(p * 7 + 3) % full.len()] * v.clamp(-3.0, 3.0),
                    };
                }
                let r = run_rx(c, x)?;
                ctx.step(r.len());
                for i in 0..whole.len() {
                    let blk = i / c.bo;
                    if blk < a || blk >= z {
                        ensure!(r.get(i) == Some(&whole[i]), "{}: garbage in blocks {a}..{z} changes bit {i} of block {blk}", c.name);
                    }
                }
                ctx.observe(fnv(r.into_iter()));
                Ok(())
            }),
            scn("long-disturbed", "every receiver configuration: of 600 blocks (coded: 8 frames) every second, third or all but every tenth is garbage of each of 12 values: the others decode as before", move |ctx| {
                let c = &reg()[ctx.pick("rx", &receivers())];
                let coded = c.name.starts_with("rx_coded");
                let nb = if coded { 8 } else { t.of(600, 5000) };
                let which = ctx.choose("which", 4);
                let v = ctx.pick("v", &NASTY);
                let bad = move |k: usize| match which {
                    0 => k % 2 == 0,
                    1 => k % 3 == 1,
                    2 => k % 10 != 9,
                    _ => k == 0 || k == nb / 2,
                };
                let full = transmission(c, nb);
                let whole = run_rx(c, full.clone())?;
                let x: Vec<C> = full.into_iter().enumerate().map(|(p, z)| if bad(p / c.bi) { C::new(if p % 3 == 0 { v } else { -v }, v) } else { z }).collect();
                let r = run_rx(c, x)?;
                ctx.step(r.len());
                for i in 0..whole.len() {
                    if !bad(i / c.bo) {
                        ensure!(r.get(i) == Some(&whole[i]), "{}: garbage in other blocks (pattern {which}) changes bit {i} of block {}", c.name, i / c.bo);
                    }
                }
                ctx.observe(fnv(r.into_iter()));
                Ok(())
            }),
            scn("long-cuts", "every receiver configuration: a transmission of 520 blocks cut at every place in the blocks 0, 1, 127, 255, 256, 511 and 519 (coded: 5 frames, every 12th of a frame)", move |ctx| {
                let c = &reg()[ctx.pick("rx", &receivers())];
                let coded = c.name.starts_with("rx_coded");
                let full = transmission(c, if coded { 5 } else { 520 });
                let n = if coded {
                    ctx.choose("cut", 5 * 12 + 1) * c.bi / 12
                } else {
                    let bl = ctx.pick("block", &[0usize, 1, 127, 255, 256, 511, 519]);
                    let parts = t.of(8, c.bi).min(c.bi);
                    bl * c.bi + ctx.choose("cut", parts + 1) * c.bi / parts
                };
                let n = n.min(full.len());
                let whole = run_rx(c, full.clone())?;
                let part = run_rx(c, full[..n].to_vec())?;
                let done = n / c.bi * c.bo;
                ctx.step(part.len());
                ctx.observe(fnv(part.iter().cloned()));
                ensure!(part.len() >= done && part[..done] == whole[..done], "{}: {n} of {} items received: complete blocks decode differently ({} bits of {done})", c.name, full.len(), part.len());
                Ok(())
            }),
            scn("garbage-lengths", "every receiver configuration: every length from 0 to 2 blocks + 2 of each of 12 constant values", move |ctx| {
                let c = &reg()[ctx.pick("rx", &receivers())];
                let top = 2 * c.bi + 2;
                let v = ctx.pick("v", &NASTY);
                let n = if top > t.of(400, 3000) { ctx.choose("len", 101) * top / 100 } else { ctx.choose("len", top + 1) };
                let r = run_rx(c, vec![C::new(v, -v); n])?;
                ctx.step(r.len());
                ctx.observe(fnv(r.into_iter()));
                Ok(())
            }),
        ],
        &["received values are finite", "for coded transmissions a block is a whole frame"],
    )
}

// ------------------------------------------------------------------ C30

const SOLO_BLOCKS: usize = 4;

fn solo_items(c: &Chain) -> usize {
    match c.kind {
        Kind::Gen => 24,
        _ => c.bo * SOLO_BLOCKS,
    }
}

fn solo_src(c: &Chain) -> Vec<C> {
    let coded = c.name.contains("coded");
    input(c, if coded { 2 } else { SOLO_BLOCKS + 1 })
}

fn limit(c: &Chain) -> usize {
    if c.name.contains("coded") { c.bo * 2 } else { solo_items(c) }
}

/// Run as `kmc solo INDEX`: one chain, alone, in a fresh process. The transmission that feeds a receiver is
/// given on standard input.
pub fn solo(i: usize) -> Option<String> {
    let c = reg().get(i)?;
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).ok()?;
    let src: Vec<C> = s
        .lines()
        .filter_map(|l| {
            let (a, b) = l.split_once(' ')?;
            Some(C::new(f64::from_bits(u64::from_str_radix(a, 16).ok()?), f64::from_bits(u64::from_str_radix(b, 16).ok()?)))
        })
        .collect();
    let r: Vec<u64> = (c.make)(Box::new(src.into_iter())).take(limit(c)).collect();
    Some(r.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" "))
}

struct Solo {
    src: Vec<Vec<C>>,
    want: Vec<Result<Vec<u64>, String>>,
}

fn solos() -> &'static Solo {
    static S: OnceLock<Solo> = OnceLock::new();
    S.get_or_init(|| {
        let src: Vec<Vec<C>> = reg().iter().map(solo_src).collect();
        let exe = std::env::current_exe().unwrap();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let want: Vec<Mutex<Result<Vec<u64>, String>>> = reg().iter().map(|_| Mutex::new(Err("not run".into()))).collect();
        std::thread::scope(|sc| {
            for _ in 0..8 {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= src.len() {
                        break;
                    }
                    let run = || -> Result<Vec<u64>, String> {
                        use std::io::Write;
                        let mut p = std::process::Command::new(&exe)
                            .args(["solo", &i.to_string()])
                            .stdin(std::process::Stdio::piped())
                            .stdout(std::process::Stdio::piped())
                            .stderr(std::process::Stdio::null())
                            .spawn()
                            .map_err(|e| format!("harness: cannot start solo process: {e}"))?;
                        let text: String = src[i].iter().map(|z| format!("{:x} {:x}\n", z.re.to_bits(), z.im.to_bits())).collect();
                        let mut stdin = p.stdin.take().unwrap();
                        let _ = stdin.write_all(text.as_bytes());
                        drop(stdin);
                        let o = p.wait_with_output().map_err(|e| e.to_string())?;
                        if !o.status.success() {
                            return Err(format!("{} alone in a fresh process failed: {}", reg()[i].name, o.status));
                        }
                        let s = String::from_utf8_lossy(&o.stdout);
                        let line = s.lines().find_map(|l| l.strip_prefix("SOLO ")).ok_or("no output")?;
                        line.split_whitespace().map(|w| u64::from_str_radix(w, 16).map_err(|e| e.to_string())).collect()
                    };
                    *want[i].lock().unwrap() = run();
                });
            }
        });
        Solo { src, want: want.into_iter().map(|m| m.into_inner().unwrap()).collect() }
    })
}

fn start(i: usize) -> Out {
    let c = &reg()[i];
    (c.make)(Box::new(solos().src[i].clone().into_iter()))
}
fn wanted(i: usize) -> Result<&'static Vec<u64>, String> {
    solos().want[i].as_ref().map_err(|e| e.clone())
}

fn same(ctx: &mut Ctx, i: usize, from: usize, got: &[u64], after: &str) -> R {
    let w = wanted(i)?;
    ctx.step(got.len());
    ctx.observe(fnv(got.iter().cloned().chain([i as u64])));
    for (k, g) in got.iter().enumerate() {
        match w.get(from + k) {
            Some(x) if x == g => {}
            Some(_) => return Err(format!("{}: item {} differs from what it is when run alone ({after})", reg()[i].name, from + k)),
            None => return Err(format!("{}: more items ({}) than when run alone ({after})", reg()[i].name, from + k + 1)),
        }
    }
    Ok(())
}

/// One party: a script of operations on one chain. Script: construct, pull, pull, ..., drop
struct Party {
    idx: usize,
    it: Option<Out>,
    done: usize,
    pc: usize,
}

impl Party {
    fn step(&mut self, pulls: usize, last: bool, amount: usize, ctx_err: &mut Option<String>) -> Vec<u64> {
        let mut got = vec![];
        if self.pc == 0 {
            self.it = Some(start(self.idx));
        } else if self.pc <= pulls {
            let want = limit(&reg()[self.idx]).saturating_sub(self.done).min(amount);
            let it = self.it.as_mut().unwrap();
            for _ in 0..want {
                match it.next() {
                    Some(x) => got.push(x),
                    None => {
                        *ctx_err = Some(format!("{}: ended after {} items, alone it gives more", reg()[self.idx].name, self.done + got.len()));
                        break;
                    }
                }
            }
            self.done += got.len();
        } else {
            let _ = last;
            self.it = None;
        }
        self.pc += 1;
        got
    }
}

/// All interleavings of two scripts of `n` operations each, chosen one by one.
fn interleave(ctx: &mut Ctx, a: usize, b: usize, pulls: usize, amount: [usize; 2], cut: [usize; 2]) -> R {
    let mut ps = [Party { idx: a, it: None, done: 0, pc: 0 }, Party { idx: b, it: None, done: 0, pc: 0 }];
    let mut trail = String::new();
    loop {
        let left: Vec<usize> = (0..2).filter(|&k| ps[k].pc < cut[k].min(pulls + 2)).collect();
        if left.is_empty() {
            break;
        }
        let k = if left.len() == 1 { left[0] } else { ctx.choose("next", 2) };
        trail.push(if k == 0 { 'a' } else { 'b' });
        let from = ps[k].done;
        let mut e = None;
        let got = ps[k].step(pulls, false, amount[k], &mut e);
        let other = reg()[ps[1 - k].idx].name.clone();
        same(ctx, ps[k].idx, from, &got, &format!("interleaved with {other}: {trail}"))?;
        if let Some(e) = e {
            if wanted(ps[k].idx)?.len() > ps[k].done {
                return Err(e);
            }
        }
    }
    Ok(())
}

/// Runs closures one at a time, in the order given, each on the thread it is sent to.
struct Worker {
    tx: std::sync::mpsc::Sender<Box<dyn FnOnce(&mut Option<Party>) + Send>>,
}
fn with_workers<T>(n: usize, f: impl FnOnce(&[Worker]) -> T) -> T {
    std::thread::scope(|s| {
        let ws: Vec<Worker> = (0..n)
            .map(|_| {
                let (tx, rx) = std::sync::mpsc::channel::<Box<dyn FnOnce(&mut Option<Party>) + Send>>();
                s.spawn(move || {
                    let mut p: Option<Party> = None;
                    while let Ok(g) = rx.recv() {
                        g(&mut p);
                    }
                });
                Worker { tx }
            })
            .collect();
        let r = f(&ws);
        drop(ws);
        r
    })
}

fn threads(ctx: &mut Ctx, who: &[usize], pulls: usize) -> R {
    with_workers(who.len(), |ws| {
        let mut pc = vec![0usize; who.len()];
        let mut done = vec![0usize; who.len()];
        let mut trail = String::new();
        loop {
            let left: Vec<usize> = (0..who.len()).filter(|&k| pc[k] < pulls + 2).collect();
            if left.is_empty() {
                return Ok(());
            }
            let k = left[if left.len() == 1 { 0 } else { ctx.choose("thread", left.len()) }];
            trail.push((b'a' + k as u8) as char);
            let amount = limit(&reg()[who[k]]).div_ceil(pulls);
            let idx = who[k];
            let (rt, rr) = std::sync::mpsc::channel();
            ws[k]
                .tx
                .send(Box::new(move |p| {
                    let r = panics(|| {
                        let p = p.get_or_insert(Party { idx, it: None, done: 0, pc: 0 });
                        let mut e = None;
                        let got = p.step(pulls, false, amount, &mut e);
                        (got, e)
                    });
                    let _ = rt.send(r);
                }))
                .map_err(|_| "harness: worker gone".to_string())?;
            let (got, e) = rr.recv().map_err(|_| "harness: worker died".to_string())?.map_err(|p| format!("{}: panicked: {p} (threads {trail})", reg()[idx].name))?;
            same(ctx, idx, done[k], &got, &format!("several threads: {trail}"))?;
            done[k] += got.len();
            if let Some(e) = e {
                if wanted(idx)?.len() > done[k] {
                    return Err(format!("{e} (threads {trail})"));
                }
            }
            pc[k] += 1;
        }
    })
}

/// Chains of one family differ in one parameter at a time.
fn family(i: usize) -> &'static str {
    let n: &'static str = &reg()[i].name;
    n.split('#').next().unwrap()
}

fn heavy(i: usize) -> bool {
    reg()[i].name.contains("coded")
}

fn firsts() -> Vec<usize> {
    let mut seen = std::collections::HashSet::new();
    (0..reg().len()).filter(|&i| !heavy(i) && seen.insert(family(i))).collect()
}

fn full_run(ctx: &mut Ctx, i: usize, after: &str) -> R {
    let n = limit(&reg()[i]);
    let got: Vec<u64> = start(i).take(n).collect();
    same(ctx, i, 0, &got, after)?;
    let w = wanted(i)?;
    ensure!(got.len() == w.len(), "{}: {} items instead of the {} it gives alone ({after})", reg()[i].name, got.len(), w.len());
    Ok(())
}

/// A chain on an unbounded source.
fn long_start(i: usize) -> Out {
    let c = &reg()[i];
    (c.make)(counting(c, Rc::new(Cell::new(0)), 3))
}
fn long_run(i: usize, many: usize) -> usize {
    let mut it = long_start(i);
    let mut k = 0;
    while k < many && it.next().is_some() {
        k += 1;
    }
    k
}

pub fn c30(t: Tier) -> Set {
    let n = reg().len();
    (
        vec![
            crate::p_crowd::scenario(t),
            scn("repeat", &format!("each of {n} chains, three times in a row, whole and abandoned half way"), move |ctx| {
                let i = ctx.choose("chain", n);
                let k = ctx.choose("abandon", 4);
                for r in 0..3 {
                    if k > 0 {
                        let m = limit(&reg()[i]) * (k - 1) / 3 + 1;
                        let got: Vec<u64> = start(i).take(m.min(limit(&reg()[i]))).collect();
                        same(ctx, i, 0, &got, "abandoned")?;
                    }
                    full_run(ctx, i, &format!("run {r}, abandoned before: {k}"))?;
                }
                Ok(())
            }),
            scn("history", &format!("every ordered pair of {n} chains: the second after the first ran whole or half"), move |ctx| {
                let i = ctx.choose("first", n);
                let j = ctx.choose("second", n);
                let half = ctx.choose("half", 2) == 1;
                let m = limit(&reg()[i]);
                let got: Vec<u64> = start(i).take(if half { m / 2 } else { m }).collect();
                same(ctx, i, 0, &got, "first")?;
                full_run(ctx, j, &format!("after {}{}", reg()[i].name, if half { " half way" } else { "" }))
            }),
            scn("history-family", "every sequence of 4 chains within one family of configurations differing in one parameter", move |ctx| {
                let fams: Vec<&'static str> = {
                    let mut v: Vec<&'static str> = (0..n).filter(|&i| !heavy(i)).map(family).collect();
                    v.sort();
                    v.dedup();
                    v
                };
                let fam = ctx.pick("family", &fams);
                let m: Vec<usize> = (0..n).filter(|&i| family(i) == fam).collect();
                let mut hist = String::new();
                for _ in 0..t.of(4, 5) {
                    let i = ctx.pick("chain", &m);
                    full_run(ctx, i, &format!("after {hist}"))?;
                    hist.push_str(&reg()[i].name);
                    hist.push(' ');
                }
                Ok(())
            }),
            scn("pairs", "every pair of chains of different families (one configuration each) and every pair within a family: all interleavings of construct, 2 pulls, drop of both, dropping early or not", move |ctx| {
                let same_family = ctx.choose("same family", 2) == 1;
                let (a, b) = if same_family {
                    let a = ctx.choose("a", n);
                    let m: Vec<usize> = (a..n).filter(|&i| family(i) == family(a)).collect();
                    (a, ctx.pick("b", &m))
                } else {
                    let l = firsts();
                    let x = ctx.choose("a", l.len());
                    let y = x + ctx.choose("b", l.len() - x);
                    (l[x], l[y])
                };
                if heavy(a) && !t.deep() {
                    // long frames: whole pulls only
                    return interleave(ctx, a, b, 1, [limit(&reg()[a]), limit(&reg()[b])], [3, 3]);
                }
                let pulls = t.of(2, 3);
                let cut = ctx.pick("early drop", &[[9usize, 9], [2, 9], [9, 2]]);
                let am = [limit(&reg()[a]).div_ceil(pulls), limit(&reg()[b]).div_ceil(pulls)];
                interleave(ctx, a, b, pulls, am, cut)
            }),
            scn("item-by-item", "every pair within a family: all interleavings of constructing and pulling 5 single items each", move |ctx| {
                let l: Vec<usize> = (0..n).filter(|&i| !heavy(i)).collect();
                let a = ctx.pick("a", &l);
                let m: Vec<usize> = (a..n).filter(|&i| family(i) == family(a)).collect();
                let b = ctx.pick("b", &m);
                interleave(ctx, a, b, 5, [1, 1], [7, 7])
            }),
            scn("threads", "two threads: every pair of different families and every pair within a family, all interleavings of construct, 2 pulls, drop", move |ctx| {
                let same_family = ctx.choose("same family", 2) == 1;
                let (a, b) = if same_family {
                    let l: Vec<usize> = (0..n).filter(|&i| !heavy(i)).collect();
                    let a = ctx.pick("a", &l);
                    let m: Vec<usize> = (a..n).filter(|&i| family(i) == family(a)).collect();
                    (a, ctx.pick("b", &m))
                } else {
                    let l = firsts();
                    let x = ctx.choose("a", l.len());
                    let y = x + ctx.choose("b", if t.deep() { l.len() - x } else { 1.max((l.len() - x).min(6)) });
                    (l[x], l[y])
                };
                threads(ctx, &[a, b], t.of(2, 3))
            }),
            scn("three-threads", "three threads on one family: all interleavings of construct, 1 pull, drop", move |ctx| {
                let l: Vec<usize> = if t.deep() { (0..n).filter(|&i| !heavy(i)).collect() } else { firsts() };
                let a = ctx.pick("a", &l);
                let m: Vec<usize> = (a..n).filter(|&i| family(i) == family(a)).collect();
                let b = if t.deep() { ctx.pick("b", &m) } else { m[m.len() / 2] };
                threads(ctx, &[a, b, m[m.len() - 1]], 1)
            }),
            scn("long-history", &format!("each of {n} chains run alone for 2^17 items (coded: 12 frames) while every other chain stands half way: all of those end as they do alone, and so does a fresh run of each"), move |ctx| {
                let i = ctx.choose("long", n);
                let others: Vec<usize> = (0..n).filter(|&j| !heavy(j)).collect();
                let mut halves: Vec<(usize, usize, Out)> = vec![];
                for &j in &others {
                    let mut it = start(j);
                    let m = limit(&reg()[j]).min(wanted(j)?.len()) / 2;
                    let got: Vec<u64> = it.by_ref().take(m).collect();
                    same(ctx, j, 0, &got, "first half")?;
                    halves.push((j, m, it));
                }
                let name = &reg()[i].name;
                let many = if heavy(i) { reg()[i].bo * 12 } else { t.of(1usize << 17, 1 << 20) + 100 };
                let ran = long_run(i, many);
                ctx.step(ran);
                for (j, m, it) in halves {
                    let got: Vec<u64> = it.take(limit(&reg()[j]) - m).collect();
                    same(ctx, j, m, &got, &format!("{name} ran for {ran} items in between"))?;
                    ensure!(got.len() + m == wanted(j)?.len(), "{}: {} items instead of {} ({name} ran for {ran} items in between)", reg()[j].name, got.len() + m, wanted(j)?.len());
                }
                for &j in &others {
                    full_run(ctx, j, &format!("after {name} ran for {ran} items"))?;
                }
                Ok(())
            }),
            scn("long-lockstep", &format!("each of {n} chains twice, one copy ahead of the other by each of 1, 1000, 2^14, 2^15 + 1 items, for 2^16 items: both give the same"), move |ctx| {
                let i = ctx.choose("chain", n);
                let ahead = ctx.pick("ahead", &[1usize, 1000, 1 << 14, (1 << 15) + 1]);
                let total = if heavy(i) { reg()[i].bo * 6 } else { t.of(1usize << 16, 1 << 19) };
                let ahead = ahead.min(total / 2);
                let (mut a, mut b) = (long_start(i), long_start(i));
                let mut queue = std::collections::VecDeque::new();
                for _ in 0..ahead {
                    queue.push_back(a.next());
                }
                let mut h = 0u64;
                for k in 0..total {
                    queue.push_back(a.next());
                    let x = queue.pop_front().unwrap();
                    let y = b.next();
                    ensure!(x == y, "{}: two copies, one {ahead} items ahead: item {k} differs", reg()[i].name);
                    if x.is_none() {
                        break;
                    }
                    h = h.wrapping_mul(0x100000001b3) ^ x.unwrap_or(7);
                }
                ctx.step(total);
                ctx.observe(h);
                Ok(())
            }),
            scn("long-threads", "every family: one member runs for 2^16 items in another thread between the halves of a run of each of the first and last members, and a fresh run follows in both threads", move |ctx| {
                let l = firsts();
                let i = ctx.pick("long", &l);
                let m: Vec<usize> = (0..n).filter(|&j| family(j) == family(i)).collect();
                let j = [m[0], m[m.len() - 1]][ctx.choose("other", 2)];
                let mut it = start(j);
                let half = limit(&reg()[j]).min(wanted(j)?.len()) / 2;
                let got: Vec<u64> = it.by_ref().take(half).collect();
                same(ctx, j, 0, &got, "first half")?;
                let there: Vec<u64> = std::thread::scope(|s| {
                    s.spawn(|| {
                        long_run(i, t.of(1 << 16, 1 << 19));
                        start(j).take(limit(&reg()[j])).collect()
                    })
                    .join()
                })
                .map_err(|_| format!("{}: panicked in another thread", reg()[i].name))?;
                same(ctx, j, 0, &there, "after a long run in the same other thread")?;
                let got: Vec<u64> = it.take(limit(&reg()[j]) - half).collect();
                same(ctx, j, half, &got, "after a long run in another thread")?;
                full_run(ctx, j, "after a long run in another thread")
            }),
        ],
        &["interleavings are at the granularity of construction, pulls and drops; the library has no unsafe code and no shared mutable state below that"],
    )
}

// ------------------------------------------------------------------ C31

fn streaming() -> Vec<usize> {
    (0..reg().len()).filter(|&i| reg()[i].kind != Kind::Gen).collect()
}

/// Unbounded source counting what was taken from it.
fn counting(c: &Chain, taken: Rc<Cell<usize>>, tail: usize) -> Src {
    let fixed: Vec<C> = match c.kind {
        Kind::Rx(_) => transmission(c, if c.name.contains("coded") { 2 } else { 8 }),
        _ => items(4096).0.clone(),
    };
    let mut i = 0usize;
    Box::new(std::iter::from_fn(move || {
        taken.set(taken.get() + 1);
        let z = if i < fixed.len() { fixed[i] } else { [C::new(1.0, 1.0), C::new(-1.0, 1.0)][(i >> tail) & 1] };
        i += 1;
        Some(z)
    }))
}

/// A number of input items: 0..3 whole blocks, and a little short or over.
fn pick_len(ctx: &mut Ctx, c: &Chain, coded: bool, t: Tier) -> Result<usize, String> {
    if c.name.starts_with("bandpass") {
        return Ok(ctx.choose("blocks", 5) * c.bi);
    }
    if coded {
        let l = t.of(vec![0usize, c.bi / 2, c.bi, c.bi + c.bi / 3, 2 * c.bi], (0..=12).map(|k| k * c.bi / 6).collect());
        return Ok(ctx.pick("n", &l));
    }
    if 3 * c.bi + 3 <= t.of(24, 400) {
        return Ok(ctx.choose("n", 3 * c.bi + 3));
    }
    let mut l = vec![];
    for k in 0..4 {
        for d in [-2isize, -1, 0, 1, c.bi as isize / 2] {
            let n = (k * c.bi) as isize + d;
            if n >= 0 {
                l.push(n as usize);
            }
        }
    }
    l.sort();
    l.dedup();
    Ok(ctx.pick("n", &l))
}

/// What a chain gives for its standard input, one pull at a time.
fn reference_items(c: &'static Chain, coded: bool) -> std::sync::Arc<Vec<u64>> {
    static M: OnceLock<Mutex<HashMap<String, std::sync::Arc<Vec<u64>>>>> = OnceLock::new();
    if let Some(v) = M.get_or_init(Default::default).lock().unwrap().get(&c.name) {
        return v.clone();
    }
    let x = input(c, if coded { 2 } else { 4 });
    let mut v = vec![];
    let mut it = (c.make)(Box::new(x.into_iter()));
    while let Some(z) = it.next() {
        v.push(z);
    }
    let v = std::sync::Arc::new(v);
    M.get().unwrap().lock().unwrap().insert(c.name.clone(), v.clone());
    v
}

pub fn c31(t: Tier) -> Set {
    (
        vec![
            scn("consumption", "every transmitter, receiver and adaptor on an unbounded source: after construction and after each of the first 3 blocks' items, how much was consumed", move |ctx| {
                let c = &reg()[ctx.pick("chain", &streaming())];
                let taken = Rc::new(Cell::new(0));
                let src = counting(c, taken.clone(), 3);
                let mut it = (c.make)(src);
                ensure!(taken.get() == 0, "{}: {} items consumed at construction", c.name, taken.get());
                let blocks = if c.name.contains("coded") { 2 } else { t.of(6, 40) };
                for k in 0..blocks * c.bo {
                    ensure!(it.next().is_some(), "{}: ended after {k} items on an unbounded source", c.name);
                    let lim = (k / c.bo + 1) * c.bi + c.bi;
                    ctx.step(1);
                    ensure!(taken.get() <= lim, "{}: {} items consumed to produce item {k} (block {} ends at {}, one further block would be {lim})", c.name, taken.get(), k / c.bo, (k / c.bo + 1) * c.bi);
                }
                ctx.observe(taken.get() as u64);
                Ok(())
            }),
            scn("causality", "every chain: two inputs that agree on the first n items (every n up to 4 blocks) and differ in 3 ways after: the blocks complete within n agree", move |ctx| {
                let c = &reg()[ctx.pick("chain", &streaming())];
                let coded = c.name.contains("coded");
                let x = input(c, if coded { 2 } else { 5 });
                let top = if coded { 40 } else { (4 * c.bi).min(x.len()) };
                let n = if coded { ctx.choose("n", top) * x.len() / 40 } else { ctx.choose("n", top + 1) };
                let mut y = x[..n].to_vec();
                match ctx.choose("after", 3) {
                    0 => {}
                    1 => y.extend(x[n..].iter().map(|z| -z)),
                    _ => y.extend(std::iter::repeat(C::new(1.0, -1.0)).take(3 * c.bi)),
                }
                if c.name.starts_with("bandpass") && y.len() % c.bi != 0 {
                    return Ok(()); // whole blocks only, see C27
                }
                let lim = (x.len().max(y.len()) / c.bi + 3) * c.bo + 60;
                let a = pull((c.make)(Box::new(x.into_iter())), lim)?;
                let b = pull((c.make)(Box::new(y.into_iter())), lim)?;
                let done = n / c.bi * c.bo;
                ctx.step(done);
                ctx.observe(fnv(b.iter().cloned()));
                ensure!(a.len() >= done && b.len() >= done, "{}: {} and {} items from inputs agreeing on {n}", c.name, a.len(), b.len());
                for i in 0..done {
                    ensure!(a[i] == b[i], "{}: item {i} depends on input after item {n}", c.name);
                }
                Ok(())
            }),
            scn("demand", "every chain: items do not depend on how they are demanded: pulled one by one, in bulk, by nth, after a clone of the input, and with the source ending exactly at each block end", move |ctx| {
                let c = &reg()[ctx.pick("chain", &streaming())];
                let coded = c.name.contains("coded");
                let x = input(c, if coded { 2 } else { 4 });
                let lim = (x.len() / c.bi + 3) * c.bo + 60;
                let a = pull((c.make)(Box::new(x.clone().into_iter())), lim)?;
                ctx.observe(fnv(a.iter().cloned()));
                match ctx.choose("how", 4) {
                    0 => {
                        let mut it = (c.make)(Box::new(x.into_iter()));
                        let n = ctx.choose("skip", 12) * a.len().max(12) / 12;
                        let got = it.nth(n);
                        ensure!(got == a.get(n).cloned(), "{}: nth({n}) is not item {n}", c.name);
                    }
                    1 => {
                        let mut it = (c.make)(Box::new(x.into_iter()));
                        let n = a.len() / 2;
                        let head: Vec<u64> = it.by_ref().take(n).collect();
                        let tail: Vec<u64> = it.collect();
                        ensure!(head.into_iter().chain(tail).collect::<Vec<_>>() == a, "{}: taken in two parts it gives other items", c.name);
                    }
                    2 => {
                        let mut got = vec![];
                        (c.make)(Box::new(x.into_iter())).for_each(|z| got.push(z));
                        ensure!(got == a, "{}: for_each gives other items than pulling", c.name);
                    }
                    _ => {
                        let (lo, hi) = (c.make)(Box::new(x.into_iter())).size_hint();
                        ensure!(lo <= a.len() && hi.map_or(true, |h| h >= a.len()), "{}: promises {lo}..{hi:?} items, gives {}", c.name, a.len());
                    }
                }
                ctx.step(a.len());
                Ok(())
            }),
            scn("unbounded", "every chain runs on an unbounded source for 4000 blocks without accumulating: consumption stays within one block of production", move |ctx| {
                let c = &reg()[ctx.pick("chain", &streaming())];
                let taken = Rc::new(Cell::new(0));
                let mut it = (c.make)(counting(c, taken.clone(), 5));
                let blocks = if c.name.contains("coded") { 12 } else { t.of(2000, 20000) };
                for k in 0..blocks {
                    for _ in 0..c.bo {
                        ensure!(it.next().is_some(), "{}: ended in block {k} on an unbounded source", c.name);
                    }
                    ensure!(taken.get() <= (k + 2) * c.bi, "{}: {} items consumed for {} blocks of {}", c.name, taken.get(), k + 1, c.bi);
                    ensure!(taken.get() + c.bi > k * c.bi, "{}: only {} items consumed for {} blocks of {}", c.name, taken.get(), k + 1, c.bi);
                }
                ctx.step(blocks * c.bo);
                ctx.observe(taken.get() as u64);
                Ok(())
            }),
            scn("hints", "every chain x every source shape (honest bounds of six kinds, chained, reversed) x 0..3 blocks and 1..2 items short or over: after every pull the promised bound holds what is left", move |ctx| {
                let c = &reg()[ctx.pick("chain", &streaming())];
                let coded = c.name.contains("coded");
                let x = input(c, if coded { 2 } else { 4 });
                let n = pick_len(ctx, c, coded, t)?;
                let x = x[..n.min(x.len())].to_vec();
                let sh = ctx.choose("shape", SHAPES);
                let lim = (x.len() / c.bi + 3) * c.bo + 60;
                let total = pull((c.make)(Box::new(x.clone().into_iter())), lim)?.len();
                let mut it = (c.make)(shaped(x, sh));
                let stride = if coded { 7 } else { 1 };
                for k in 0..=total {
                    if k % stride == 0 || k + 3 > total {
                        let (lo, hi) = it.size_hint();
                        ensure!(lo <= total - k && hi.map_or(true, |h| h >= total - k), "{}: {n} items in: after {k} items it promises {lo}..{hi:?} more, there are {}", c.name, total - k);
                    }
                    ensure!(it.next().is_some() == (k < total), "{}: {n} items in (source shape {sh}): other length than {total}", c.name);
                }
                ctx.step(total);
                ctx.observe(fnv([total as u64].into_iter()));
                Ok(())
            }),
            scn("skip", "every chain x source shape: every number of single pulls up to one block + 2, then nth(k) for every k up to two blocks + 1 (strided when long), then the rest", move |ctx| {
                let c = &reg()[ctx.pick("chain", &streaming())];
                let coded = c.name.contains("coded");
                let sh = ctx.pick("shape", t.of(&[0usize, 1, 3][..], &[0, 1, 2, 3, 4, 5, 6, 7][..]));
                let x = input(c, if coded { 2 } else { 4 });
                let want = reference_items(c, coded);
                let grid = |top: usize, m: usize| -> Vec<usize> {
                    let mut g: Vec<usize> = if top <= m { (0..=top).collect() } else { (0..=m).map(|i| i * top / m).collect() };
                    g.extend([1, 2, 3, c.bo.saturating_sub(1), c.bo, c.bo + 1].into_iter().filter(|&k| k <= top));
                    g.sort();
                    g.dedup();
                    g
                };
                let a = ctx.pick("pulls", &grid(c.bo + 2, t.of(8, 24)));
                let k = ctx.pick("nth", &grid(2 * c.bo + 1, t.of(10, 40)));
                let mut it = (c.make)(shaped(x, sh));
                for i in 0..a {
                    ensure!(it.next() == want.get(i).cloned(), "{}: item {i} (source shape {sh})", c.name);
                }
                let got = it.nth(k);
                let at = a + k;
                ensure!(got == want.get(at).cloned(), "{}: after {a} pulls nth({k}) does not give item {at}", c.name);
                if at < want.len() {
                    let rest: Vec<u64> = it.collect();
                    ensure!(rest[..] == want[at + 1..], "{}: after {a} pulls and nth({k}) the rest is different ({} items for {})", c.name, rest.len(), want.len() - at - 1);
                }
                ctx.step(want.len());
                ctx.observe(got.unwrap_or(0));
                Ok(())
            }),
            scn("operations", "every chain: every sequence of 4 operations among next, nth(1), nth(block - 1), taking 2 by reference, asking the bound, then each of collect, count, last, fold, stepping by 2 and 3", move |ctx| {
                let c = &reg()[ctx.pick("chain", &streaming())];
                let coded = c.name.contains("coded");
                let x = input(c, if coded { 2 } else { 4 });
                let want = reference_items(c, coded);
                let mut it = (c.make)(Box::new(x.into_iter()));
                let mut at = 0usize;
                let mut over = false;
                let mut hist = String::new();
                for _ in 0..t.of(3, 4) {
                    let op = ctx.choose("op", 5);
                    hist.push_str(["next ", "nth(1) ", "nth(block-1) ", "take(2) ", "hint "][op]);
                    match op {
                        0 | 1 | 2 => {
                            let k = [0, 1, c.bo.saturating_sub(1)][op];
                            let g = if op == 0 { it.next() } else { it.nth(k) };
                            ensure!(g == want.get(at + k).cloned(), "{}: {hist}does not give item {}", c.name, at + k);
                            at += k + 1;
                        }
                        3 => {
                            let g: Vec<u64> = it.by_ref().take(2).collect();
                            let lo = at.min(want.len());
                            ensure!(g[..] == want[lo..(at + 2).min(want.len()).max(lo)], "{}: {hist}gives other items than {at}..", c.name);
                            at += 2;
                        }
                        _ => {
                            let left = want.len().saturating_sub(at);
                            let (lo, hi) = it.size_hint();
                            ensure!(lo <= left && hi.map_or(true, |h| h >= left), "{}: {hist}promises {lo}..{hi:?}, {left} left", c.name);
                        }
                    }
                    if at > want.len() {
                        over = true; // past its end: nothing more is promised
                        break;
                    }
                }
                if !over {
                    let left = &want[at..];
                    let how = ctx.choose("finish", 6);
                    hist.push_str(["collect", "count", "last", "fold", "step_by(2)", "step_by(3)"][how]);
                    let ok = match how {
                        0 => it.collect::<Vec<_>>()[..] == *left,
                        1 => it.count() == left.len(),
                        2 => it.last() == left.last().cloned(),
                        3 => it.fold(vec![], |mut v, z| { v.push(z); v })[..] == *left,
                        k => it.step_by(k - 2).collect::<Vec<_>>() == left.iter().cloned().step_by(k - 2).collect::<Vec<_>>(),
                    };
                    ensure!(ok, "{}: {hist}: not what is left from item {at} on ({} items)", c.name, left.len());
                }
                ctx.step(want.len());
                ctx.observe(at as u64);
                Ok(())
            }),
            scn("memory", "every chain on an unbounded source: heap held after 200 blocks and after 3200 (coded: 4 and 36) differs by less than 4 kB + 16 bytes per item of a block", move |ctx| {
                let c = &reg()[ctx.pick("chain", &streaming())];
                let coded = c.name.contains("coded");
                let taken = Rc::new(Cell::new(0));
                let mut it = (c.make)(counting(c, taken.clone(), 5));
                let (a, z) = if coded { (4, 36) } else { (200, t.of(3200, 30000)) };
                let mut sum = 0u64;
                let mut early = 0;
                for k in 0..z {
                    for _ in 0..c.bo {
                        let v = it.next();
                        ensure!(v.is_some(), "{}: ended in block {k} on an unbounded source", c.name);
                        sum = sum.wrapping_mul(31).wrapping_add(v.unwrap_or(0));
                    }
                    if k == a {
                        early = held();
                    }
                }
                let more = held() - early;
                ensure!(more < 4096 + 16 * (c.bi + c.bo) as i64, "{}: holds {more} bytes more after {z} blocks than after {a}", c.name);
                ctx.step(z * c.bo);
                ctx.observe(sum);
                Ok(())
            }),
            scn("pipelines", "every receiver fed by its own transmitter directly, on an unbounded bit source: bits consumed per bit decoded stay within two blocks of each chain, all decoded items as from the collected transmission", move |ctx| {
                let rxs: Vec<usize> = receivers().into_iter().filter(|&i| !reg()[i].name.contains("ofdm") && reg()[i].name != "rx_baseband_qpsk").collect();
                let c = &reg()[ctx.pick("chain", &rxs)];
                let coded = c.name.contains("coded");
                let Kind::Rx(tx) = c.kind else { unreachable!() };
                let tc = &reg()[find(tx)];
                let taken = Rc::new(Cell::new(0));
                let src = counting(tc, taken.clone(), 5);
                let is_bits = tx.starts_with("tx_baseband_cdma");
                let is_cplx = tx == "tx_baseband_bpsk";
                let mid: Src = if is_cplx {
                    Box::new(tx_baseband_bpsk_signal(b(src)))
                } else {
                    let it = (tc.make)(src);
                    Box::new(it.map(move |x| C::new(if is_bits { if x == 1 { 1.0 } else { -1.0 } } else { f64::from_bits(x) }, 0.0)))
                };
                ensure!(taken.get() == 0, "{tx}: {} bits consumed at construction", taken.get());
                let mut it = (c.make)(mid);
                ensure!(taken.get() == 0, "{}: {} bits consumed at construction", c.name, taken.get());
                let blocks = if coded { 4 } else { t.of(300, 3000) };
                // what the blocks are, in items of the transmitter
                let mut got = vec![];
                for k in 0..blocks * c.bo {
                    let Some(v) = it.next() else { return Err(format!("{}: ended after {k} items on an unbounded transmission", c.name)) };
                    got.push(v);
                    let out_blocks = k / c.bo + 1;
                    let samples = (out_blocks + 1) * c.bi;
                    let lim = (samples.div_ceil(tc.bo) + 1) * tc.bi;
                    ensure!(taken.get() <= lim, "{} on {tx}: {} bits consumed to decode item {k} (at most {lim})", c.name, taken.get());
                }
                // the same from a collected transmission
                let again = Rc::new(Cell::new(0));
                let n_in = (blocks * c.bi).div_ceil(tc.bo) * tc.bi;
                let all: Src = Box::new(counting(tc, again, 5).take(n_in));
                let samples = raw_tx(tx, all, tc);
                let want = pull((c.make)(Box::new(samples.into_iter())), blocks * c.bo + 60)?;
                ensure!(want.len() >= got.len() && want[..got.len()] == got[..], "{} on {tx}: decoding on the fly and decoding the collected transmission differ", c.name);
                ctx.step(got.len());
                ctx.observe(fnv(got.into_iter()));
                Ok(())
            }),
        ],
        &["a unit of lookahead is one block: bit, symbol, OFDM symbol or coded frame"],
    )
}
