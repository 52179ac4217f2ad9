//! C39: what the receivers other than the coherent ones of C36 decide on.
use crate::core::*;
use crate::p_iter::Set;
use crate::p_psk::{cosw, rate_plans_where, sinw};
use crate::{ensure, Tier};
use komunikilo::bpsk::*;
use komunikilo::dcsk::*;
use komunikilo::fh::*;
use komunikilo::fh_ofdm_dcsk::*;
use komunikilo::fm::*;
use komunikilo::ofdm::*;
use komunikilo::qpsk::*;
use num_complex::Complex;
use std::f64::consts::PI;
use std::sync::Arc;

type C = Complex<f64>;

#[derive(Clone, Debug)]
enum K {
    /// BPSK and QPSK symbols at baseband
    Bb,
    Qb,
    /// carrier-based FSK: sample rate, symbol rate, carrier
    Fsk(usize, usize, f64),
    /// hopped BPSK: band, number of frequencies, rates
    Fh(f64, f64, usize, usize, usize),
    Dcsk,
    /// OFDM at baseband (with QPSK decisions): subcarriers, pilots
    Ob(usize, usize),
    /// OFDM at passband: subcarriers, pilots, rates, carrier
    Op(usize, usize, usize, usize, f64),
    Fod,
}

/// A decision statistic: the bit is 1 if it is positive, 0 if negative; undecided within the tolerance.
type Stat = (f64, f64);

struct Rx {
    k: K,
    /// samples and bits per block
    block: usize,
    per: usize,
    complex: bool,
    /// hopped BPSK: the waveform of a 1 for every block
    template: Arc<Vec<f64>>,
    /// FH-OFDM-DCSK: for every block the subcarrier of the reference and (subcarrier, sign) of every bit
    plan: Arc<Vec<Option<(usize, Vec<(usize, f64)>)>>>,
}

fn dft8(x: &[C]) -> Vec<C> {
    (0..8).map(|f| (0..8).map(|i| x[i] * C::from_polar(1.0, -2.0 * PI * (f * i % 8) as f64 / 8.0)).sum()).collect()
}

fn fod_plan(blocks: usize) -> Result<Vec<Option<(usize, Vec<(usize, f64)>)>>, String> {
    let spectra = |flip: usize| -> Result<Vec<Vec<C>>, String> {
        let n = blocks * 7;
        let s = pull(tx_baseband_fh_ofdm_dcsk_signal((0..n).map(move |i| i % 7 != flip)).take(blocks * 10), blocks * 10 + 1)?;
        Ok(s.chunks(10).map(|b| dft8(&b[2..])).collect())
    };
    let ones = spectra(7)?;
    let mut flipped = vec![];
    for i in 0..7 {
        flipped.push(spectra(i)?);
    }
    let mut v = vec![];
    for b in 0..blocks {
        let mut used = vec![false; 8];
        let mut bits = vec![];
        for f in &flipped {
            let d: Vec<usize> = (0..8).filter(|&c| (f[b][c] - ones[b][c]).norm() > 1e-7).collect();
            if d.len() == 1 && !used[d[0]] {
                used[d[0]] = true;
                bits.push(d[0]);
            }
        }
        let r = (0..8).find(|&c| !used[c]);
        v.push(match r {
            Some(r) if bits.len() == 7 && ones[b][r].norm() > 1e-7 => {
                Some((r, bits.iter().map(|&c| (c, (ones[b][r].conj() * ones[b][c]).re.signum())).collect()))
            }
            _ => None,
        });
    }
    Ok(v)
}

fn carriers(sc: usize, pl: usize) -> Vec<usize> {
    let back = (pl - 1) / 2;
    let front = pl - 1 - back;
    (0..sc).filter(|&c| c >= front && c < sc - back && c != sc / 2).collect()
}

impl Rx {
    fn new(k: K, blocks: usize) -> Result<Rx, String> {
        let (block, per, complex) = match k {
            K::Bb => (1, 1, true),
            K::Qb => (1, 2, true),
            K::Fsk(fs, rs, _) => (fs / rs, 1, false),
            K::Fh(_, _, _, fs, rs) => (fs / rs, 1, false),
            K::Dcsk => (2, 1, false),
            K::Ob(sc, pl) => (sc + sc / 4, 2 * (sc - pl), true),
            K::Op(sc, pl, fs, rs, _) => ((sc + sc / 4) * (fs / rs), 2 * (sc - pl), false),
            K::Fod => (10, 7, true),
        };
        let template = match k {
            K::Fh(lo, hi, m, fs, rs) => pull(tx_fh_bpsk_signal((0..blocks).map(|_| true), lo, hi, m, fs, rs), blocks * block + 1)?,
            _ => vec![],
        };
        let plan = if let K::Fod = k { fod_plan(blocks)? } else { vec![] };
        Ok(Rx { k, block, per, complex, template: Arc::new(template), plan: Arc::new(plan) })
    }

    /// The statistics of block `j` made of the samples `x`.
    fn stats(&self, j: usize, x: &[C]) -> Vec<Stat> {
        let tot: f64 = x.iter().map(|v| v.norm()).sum();
        match self.k {
            K::Bb => vec![(x[0].re, 0.0)],
            K::Qb => vec![(x[0].re, 0.0), (x[0].im, 0.0)],
            K::Fsk(fs, _, fc) => {
                let e = |f: f64| -> f64 {
                    let (mut a, mut b) = (0.0, 0.0);
                    for (i, v) in x.iter().enumerate() {
                        a += v.re * cosw(f, fs, i);
                        b += v.re * sinw(f, fs, i);
                    }
                    a * a + b * b
                };
                let (h, l) = (e(fc * 1.025), e(fc * 0.975));
                vec![(h - l, 1e-6 * (h + l) + 1e-10 * tot * tot)]
            }
            K::Fh(..) => {
                let w = &self.template[j * self.block..(j + 1) * self.block];
                vec![(x.iter().zip(w).map(|(v, w)| v.re * w).sum(), 1e-8 * tot)]
            }
            K::Dcsk => vec![(x[0].re * x[1].re, 0.0)],
            K::Ob(sc, pl) => spectrum(&x[sc / 4..], sc, pl, tot),
            K::Op(sc, pl, fs, rs, fc) => {
                let sps = fs / rs;
                let y: Vec<C> = (0..sc + sc / 4)
                    .map(|s| {
                        (0..sps)
                            .map(|i| {
                                let n = s * sps + i;
                                let a = j * self.block + n;
                                C::new(x[n].re * cosw(fc, fs, a), -x[n].re * sinw(fc, fs, a))
                            })
                            .sum()
                    })
                    .collect();
                spectrum(&y[sc / 4..], sc, pl, tot * 1e2)
            }
            K::Fod => match &self.plan[j] {
                None => vec![(0.0, 1.0); 7],
                Some((r, bits)) => {
                    let y = dft8(&x[2..]);
                    bits.iter().map(|&(c, s)| ((y[*r].conj() * y[c]).re * s, 1e-10 * tot * tot)).collect()
                }
            },
        }
    }

    fn run(&self, x: Vec<C>) -> Result<Vec<bool>, String> {
        let max = (x.len() / self.block + 2) * self.per + 2;
        let re = x.clone().into_iter().map(|v| v.re);
        match self.k {
            K::Bb => pull(rx_baseband_bpsk_signal(x.into_iter()), max),
            K::Qb => pull(rx_baseband_qpsk_signal(x.into_iter()), max),
            K::Fsk(fs, rs, fc) => pull(rx_fsk(re, fs, rs, fc), max),
            K::Fh(lo, hi, m, fs, rs) => pull(rx_fh_bpsk_signal(re, lo, hi, m, fs, rs), max),
            K::Dcsk => pull(rx_baseband_dcsk(re), max),
            K::Ob(sc, pl) => pull(rx_baseband_qpsk_signal(rx_baseband_ofdm_signal(x.into_iter(), sc, pl)), max),
            K::Op(sc, pl, fs, rs, fc) => pull(rx_ofdm_qpsk_signal(re, sc, pl, fs, rs, fc), max),
            K::Fod => pull(rx_baseband_fh_ofdm_dcsk_signal(x.into_iter()), max),
        }
    }

    fn check(&self, ctx: &mut Ctx, x: Vec<C>) -> R {
        let blocks = x.len() / self.block;
        let got = self.run(x.clone())?;
        ensure!(got.len() >= blocks * self.per, "{:?}: {} bits for {blocks} complete blocks", self.k, got.len());
        let mut sure = 0u64;
        for j in 0..blocks {
            let st = self.stats(j, &x[j * self.block..(j + 1) * self.block]);
            for (b, &(v, tol)) in st.iter().enumerate() {
                if v.abs() > tol {
                    sure += 1;
                    ensure!(got[j * self.per + b] == (v > 0.0), "{:?}: block {j} of {blocks}, bit {b}: decided {} with statistic {v:e} (tolerance {tol:e})", self.k, got[j * self.per + b]);
                }
            }
        }
        ctx.step(blocks * self.per);
        ctx.observe(hash_bits(&got[..(blocks * self.per).min(4096)]) ^ sure);
        Ok(())
    }

    /// A reception of n samples.
    fn reception(&self, n: usize, shape: usize) -> Vec<C> {
        let u = |i: usize, s: u64| (fnv([i as u64, s, shape as u64].into_iter()) >> 11) as f64 / (1u64 << 53) as f64 - 0.5;
        (0..n)
            .map(|i| {
                let v = match shape % 7 {
                    0 => C::new(u(i, 1), u(i, 2)),
                    1 => C::new((0.7 * i as f64).cos() + u(i, 1), (1.3 * i as f64).sin() + u(i, 2)),
                    2 => C::new(u(i, 1) * if i % 7 == 0 { 40.0 } else { 1.0 }, u(i, 2) * if i % 5 == 1 { 40.0 } else { 1.0 }),
                    3 => C::new(300.0 + 100.0 * u(i, 1), -300.0 + 100.0 * u(i, 2)),
                    4 => C::new(u(i, 1), u(i, 2)) * 10f64.powi(i as i32 / self.block as i32 % 9 - 4),
                    5 => C::new(if u(i, 1) > 0.3 { 1.0 } else { -1.0 }, if u(i, 2) > 0.3 { 1.0 } else { -1.0 }),
                    _ => C::new((i % self.block + 1) as f64 * u(i, 1), (self.block - i % self.block) as f64 * u(i, 2)),
                };
                if self.complex { v } else { C::new(v.re, 0.0) }
            })
            .collect()
    }
}

fn spectrum(y: &[C], sc: usize, pl: usize, tot: f64) -> Vec<Stat> {
    let tol = 1e-11 * tot.max(y.iter().map(|v| v.norm()).sum());
    let mut v = vec![];
    for c in carriers(sc, pl) {
        let f = (c + sc - sc / 2) % sc;
        let s: C = (0..sc).map(|i| y[i] * C::from_polar(1.0, -2.0 * PI * (f * i % sc) as f64 / sc as f64)).sum();
        v.push((s.re, tol));
        v.push((s.im, tol));
    }
    v
}

fn kinds(t: Tier) -> Vec<K> {
    let mut v = vec![K::Bb, K::Qb, K::Dcsk, K::Fod];
    for sps in (2usize..=t.of(40, 130)).chain([50, 64, 65, 80, 100, 128, 129, 200, 255, 256, 257, 441, 500, 1000, 1024]) {
        v.push(K::Fsk(sps * 100, 100, [0.11, 0.31, 0.4, 0.02][sps % 4] * (sps * 100) as f64));
        v.push(K::Fsk(sps * 7, 7, 0.25 * (sps * 7) as f64));
        v.push(K::Fh(0.1 * (sps * 50) as f64, 0.45 * (sps * 50) as f64, [1, 2, 3, 5, 8, 16, 33][sps % 7], sps * 50, 50));
        v.push(K::Fh(0.0, 0.5 * (sps * 3) as f64, [4, 7, 1, 2][sps % 4], sps * 3, 3));
    }
    for sc in 2..=t.of(12, 24) {
        for pl in 1..sc {
            v.push(K::Ob(sc, pl));
        }
    }
    for (sc, pl) in [(16, 5), (32, 8), (33, 1), (64, 12), (65, 11), (100, 7), (128, 20), (255, 30), (256, 55)] {
        v.push(K::Ob(sc, pl));
    }
    for (sc, pl) in [(2, 1), (3, 1), (4, 1), (5, 2), (8, 3), (16, 5), (64, 12)] {
        for sps in [3usize, 4, 7, 16, 49] {
            v.push(K::Op(sc, pl, sps * 90, 90, 0.23 * (sps * 90) as f64));
        }
    }
    v
}

/// Fewer, for scenarios with a dimension per sample.
fn few() -> Vec<K> {
    let mut v = vec![K::Bb, K::Qb, K::Dcsk, K::Fod];
    for sps in [2usize, 3, 4, 5, 8, 9, 16, 20, 33, 49, 64, 100, 147] {
        v.push(K::Fsk(sps * 100, 100, [0.11, 0.31, 0.4][sps % 3] * (sps * 100) as f64));
        v.push(K::Fh(0.05 * (sps * 50) as f64, 0.47 * (sps * 50) as f64, [1, 2, 3, 5][sps % 4], sps * 50, 50));
    }
    v.extend([K::Ob(2, 1), K::Ob(3, 1), K::Ob(4, 2), K::Ob(5, 1), K::Ob(8, 2), K::Ob(9, 3), K::Ob(16, 4), K::Ob(33, 6), K::Ob(64, 12)]);
    v.extend([K::Op(2, 1, 40, 10, 9.0), K::Op(4, 1, 44, 4, 9.0), K::Op(5, 2, 15, 5, 3.1), K::Op(8, 2, 40, 8, 7.0)]);
    v
}

pub fn c39(t: Tier) -> Set {
    (
        vec![
            scn("exhaustive", "every sequence of samples over {1,-1,0.3,-2.5} (complex: two values per part) of up to 7 samples: baseband PSK, DCSK, FSK and hopped BPSK of 2..4 samples per symbol", move |ctx| {
                let k = ctx.pick("receiver", &[
                    K::Bb, K::Qb, K::Dcsk, K::Fsk(40, 20, 9.0), K::Fsk(60, 20, 17.0), K::Fsk(80, 20, 5.0),
                    K::Fh(3.0, 19.0, 3, 40, 20), K::Fh(0.0, 30.0, 2, 60, 20), K::Fh(7.0, 33.0, 5, 80, 20),
                ]);
                let n = ctx.choose("n", t.of(8, 10));
                let mut v = ctx.choose("x", 4usize.pow(n as u32));
                let x: Vec<C> = (0..n)
                    .map(|_| {
                        let d = v % 4;
                        v /= 4;
                        match k {
                            K::Bb | K::Qb => C::new([1.0, -0.3][d % 2], [2.5, -1.0][d / 2]),
                            _ => C::new([1.0, -1.0, 0.3, -2.5][d], 0.0),
                        }
                    })
                    .collect();
                let rx = Rx::new(k, n + 1)?;
                rx.check(ctx, x)
            }),
            scn("exhaustive-blocks", "every block over {1,-1} (thorough and small blocks: {1,-1,j,-j}): small OFDM plans, second of two blocks", move |ctx| {
                let k = ctx.pick("receiver", &[K::Ob(2, 1), K::Ob(3, 1), K::Ob(4, 1), K::Ob(5, 2), K::Ob(6, 1), K::Ob(7, 3), K::Op(2, 1, 12, 4, 3.3), K::Fod]);
                let rx = Rx::new(k, 3)?;
                let l: usize = if rx.complex && rx.block <= t.of(5, 7) { 4 } else { 2 };
                let mut v = ctx.choose("x", l.pow(rx.block as u32));
                let mut x = rx.reception(rx.block, 0);
                for _ in 0..rx.block {
                    x.push([C::new(1.0, 0.0), C::new(-1.0, 0.0), C::new(0.0, 1.0), C::new(0.0, -1.0)][v % l]);
                    v /= l;
                }
                rx.check(ctx, x)
            }),
            scn("receptions", "every configuration of the grid (FSK and hopping with 2..40 and larger samples per symbol, every OFDM plan up to 12 subcarriers and larger, passband OFDM, FH-OFDM-DCSK, baseband PSK, DCSK) x 7 shapes of reception, 30 blocks and a fragment", move |ctx| {
                let k = ctx.pick("receiver", &kinds(t));
                let shape = ctx.choose("shape", 7);
                let rx = Rx::new(k, 31)?;
                let x = rx.reception(30 * rx.block + rx.block / 2, shape);
                rx.check(ctx, x)
            }),
            scn("weights", "the weight of every sample: each sample of a block in turn (each part of it) put just below and just above every value at which some decision of its block turns over, 3 gains", move |ctx| {
                let k = ctx.pick("receiver", &few());
                let rx = Rx::new(k, 3)?;
                let x = rx.reception(3 * rx.block, 1);
                let p = rx.block + ctx.choose("pos", rx.block);
                let im = rx.complex && ctx.choose("part", 2) == 1;
                let gain = ctx.pick("gain", &[1.0, 1e-5, 1e5]);
                let put = |v: f64| {
                    let mut y = x.clone();
                    if im { y[p].im = v } else { y[p].re = v }
                    y
                };
                let st = |v: f64| rx.stats(1, &put(v)[rx.block..2 * rx.block]);
                let (a, b, c) = (st(0.0), st(1.0), st(-1.0));
                let mut turns = vec![];
                for i in 0..rx.per {
                    // quadratic in the value: q2 v^2 + q1 v + q0
                    let (q0, q2, q1) = (a[i].0, (b[i].0 + c[i].0) / 2.0 - a[i].0, (b[i].0 - c[i].0) / 2.0);
                    if q2.abs() > 1e-9 {
                        let d = q1 * q1 - 4.0 * q2 * q0;
                        if d >= 0.0 {
                            turns.push((-q1 + d.sqrt()) / (2.0 * q2));
                            turns.push((-q1 - d.sqrt()) / (2.0 * q2));
                        }
                    } else if q1.abs() > 1e-3 {
                        turns.push(-q0 / q1);
                    }
                }
                for v in turns {
                    for d in [-1.0, 1.0] {
                        let mut y = put(v + d * 0.01 * (v.abs() + 0.1));
                        for s in y.iter_mut() {
                            *s *= gain;
                        }
                        rx.check(ctx, y)?;
                    }
                }
                Ok(())
            }),
            scn("late", "receptions of 2^22 samples (thorough 2^24 + 2^12; FH-OFDM-DCSK 20000 blocks, thorough 2^17): every block by its own statistic, 16 configurations x 2 shapes", move |ctx| {
                let k = ctx.pick("receiver", &[
                    K::Bb, K::Qb, K::Dcsk, K::Fod,
                    K::Fsk(12, 1, 2.345678), K::Fsk(48 * 900, 900, 1801.7), K::Fsk(5_000_000, 250_000, 1_000_001.0), K::Fsk(600, 200, 100.0),
                    K::Fh(1.0, 5.5, 5, 12, 1), K::Fh(500.0, 20_000.0, 64, 43_200, 900), K::Fh(0.0, 1e5, 3, 1_000_000, 250_000),
                    K::Ob(7, 2), K::Ob(64, 12), K::Op(4, 1, 3 * 4000, 4000, 2000.3), K::Op(5, 2, 8, 1, 2.2), K::Op(16, 4, 64_000, 16_000, 31_000.0),
                ]);
                let n = match k { K::Fod => 10 * t.of(20_000, 1 << 17), _ => (1usize << t.of(22, 24)) + (1 << 12) };
                let shape = ctx.choose("shape", 2);
                let rx = Rx::new(k, n)?;
                let rx = Rx { template: rx.template.clone(), ..rx };
                let x = rx.reception(n, shape);
                rx.check(ctx, x)
            }),
            scn("levels", "receptions at 22 levels from 1e-140 to 1e140, one block 120 dB above or below the others: 7 shapes x the smaller grid", move |ctx| {
                let k = ctx.pick("receiver", &few());
                let shape = ctx.choose("shape", 7);
                let level = ctx.choose("level", 24);
                let rx = Rx::new(k, 9)?;
                let mut x = rx.reception(8 * rx.block, shape);
                if level < 22 {
                    let g = 10f64.powi([-140, -100, -60, -40, -20, -12, -10, -8, -6, -4, -2, 2, 3, 4, 6, 8, 10, 12, 20, 60, 100, 140][level]);
                    for v in x.iter_mut() {
                        *v *= g;
                    }
                } else {
                    let g = if level == 22 { 1e-6 } else { 1e6 };
                    for v in x[3 * rx.block..4 * rx.block].iter_mut() {
                        *v *= g;
                    }
                }
                rx.check(ctx, x)
            }),
            scn("long-symbols", "FSK and hopped symbols of 67 to 10^5 samples (thorough 10^6): the disturbance that just turns or does not turn the decision put into the first, middle or last sample, or spread over a half", move |ctx| {
                let l: Vec<usize> = steps_to(t.of(100_001, 1_000_001)).into_iter().filter(|&s| s > 66).collect();
                let sps = ctx.pick("sps", &l);
                let f = ctx.pick("f", &[0.11, 0.25]);
                let fs = 3 * sps;
                let k = if ctx.choose("receiver", 2) == 0 { K::Fsk(fs, 3, f * fs as f64) } else { K::Fh(0.0, 2.0 * f * fs as f64, 2, fs, 3) };
                let rx = Rx::new(k, 3)?;
                let x = rx.reception(3 * sps, 1);
                let range = match ctx.choose("where", 5) {
                    0 => sps..sps + 1,
                    1 => sps + sps / 2..sps + sps / 2 + 1,
                    2 => 2 * sps - 1..2 * sps,
                    3 => sps..sps + sps / 2,
                    _ => sps + sps / 2..2 * sps,
                };
                // a scaled copy of what is there: the statistic is quadratic in the scale
                let put = |g: f64| {
                    let mut y = x.clone();
                    for v in y[range.clone()].iter_mut() {
                        *v *= g;
                    }
                    y
                };
                let st = |g: f64| rx.stats(1, &put(g)[sps..2 * sps])[0].0;
                let (a, b, c) = (st(0.0), st(1.0), st(-1.0));
                let (q0, q2, q1) = (a, (b + c) / 2.0 - a, (b - c) / 2.0);
                let mut turns = vec![];
                let d = q1 * q1 - 4.0 * q2 * q0;
                if q2.abs() > 1e-6 * q1.abs() {
                    if d >= 0.0 {
                        turns.push((-q1 + d.sqrt()) / (2.0 * q2));
                        turns.push((-q1 - d.sqrt()) / (2.0 * q2));
                    }
                } else {
                    turns.push(-q0 / q1);
                }
                for g in turns {
                    if g.is_finite() && g.abs() < 1e9 {
                        for d in [0.98, 1.02] {
                            rx.check(ctx, put(g * d))?;
                        }
                    }
                }
                Ok(())
            }),
            scn("rates", "FSK and hopped BPSK at every symbol rate 1..700 (thorough 6000) with few samples per symbol and at every even division of 18 usual sample rates: 8 symbols", move |ctx| {
                let (sps, rs) = ctx.pick("rates", &rate_plans_where(t, |s| (2..=400).contains(&s)));
                let fs = sps * rs;
                let k = if ctx.choose("receiver", 2) == 0 { K::Fsk(fs, rs, 0.31 * fs as f64) } else { K::Fh(0.1 * fs as f64, 0.4 * fs as f64, 3, fs, rs) };
                let rx = Rx::new(k, 9)?;
                let x = rx.reception(8 * sps, 0);
                rx.check(ctx, x)
            }),
            scn("isolation", "one sample (each of the first 4 blocks' positions) replaced by an enormous, infinite or not-a-number value: every other block is decided as before", move |ctx| {
                let k = ctx.pick("receiver", &[
                    K::Bb, K::Qb, K::Dcsk, K::Fod, K::Fsk(80, 10, 31.0), K::Fsk(500, 10, 111.0), K::Fh(3.0, 39.0, 3, 80, 10), K::Ob(4, 1), K::Ob(9, 2), K::Ob(16, 4), K::Op(4, 1, 40, 10, 9.0), K::Op(3, 1, 30, 10, 5.0),
                ]);
                let rx = Rx::new(k, 5)?;
                let mut x = rx.reception(5 * rx.block, 0);
                let p = ctx.choose("pos", 4 * rx.block);
                let v = ctx.pick("v", &[f64::INFINITY, f64::NAN, 1e300, -f64::MAX, 1e17]);
                x[p] = if rx.complex { C::new(v, -v) } else { C::new(v, 0.0) };
                let got = rx.run(x.clone())?;
                ensure!(got.len() >= 5 * rx.per, "{:?}: {} bits for 5 blocks", rx.k, got.len());
                for j in (0..5).filter(|&j| j != p / rx.block) {
                    for (b, (s, tol)) in rx.stats(j, &x[j * rx.block..(j + 1) * rx.block]).into_iter().enumerate() {
                        ensure!(s.abs() <= tol || got[j * rx.per + b] == (s > 0.0), "{:?}: {v} at sample {p} changes bit {b} of block {j}", rx.k);
                    }
                }
                ctx.step(4 * rx.per);
                Ok(())
            }),
        ],
        &[
            "a statistic within rounding error of zero may be decided either way",
            "the hop order and the chaotic chips are taken from the transmitter of the same tree, not pinned",
            "decisions on the CSK receiver are part of C22, those of the coherent single-carrier receivers of C36",
        ],
    )
}

/// The root-raised-cosine pulse, in the form without removable singularities.
#[cfg(kmc)]
fn rrc(x: f64, b: f64) -> f64 {
    let sinc = |v: f64| if v == 0.0 { 1.0 } else { (PI * v).sin() / (PI * v) };
    (1.0 - b) * sinc((1.0 - b) * x) + b * (sinc(b * x + 0.25) * (PI * (x + 0.25)).cos() + sinc(b * x - 0.25) * (PI * (x - 0.25)).cos())
}

#[cfg(kmc)]
fn rrc_check(ctx: &mut Ctx, taps: usize, beta: f64, ts: f64, fs: f64) -> R {
    let h = komunikilo::kmc_hook::rrcosfilter(taps, beta, ts, fs);
    ensure!(h.len() == taps, "{} taps instead of {taps}", h.len());
    for (i, &v) in h.iter().enumerate() {
        let x = (i as f64 - taps as f64 / 2.0) / fs / ts;
        let w = rrc(x, beta) / ts;
        ensure!((v - w).abs() * ts <= 2e-7, "taps={taps} beta={beta} ts={ts} fs={fs}: tap {i} (t={x} symbols) is {v} instead of {w}");
    }
    ctx.step(taps);
    ctx.observe(h.iter().fold(0, |a, v| a.rotate_left(5) ^ (v * 1e6).round().to_bits()));
    Ok(())
}

pub fn c40(t: Tier) -> Set {
    #[cfg(not(kmc))]
    let v = { let _ = t; vec![] };
    #[cfg(kmc)]
    let v = vec![
        scn("grid", "0..66 taps x 101 roll-offs from 0 to 1 x 9 symbol lengths x 9 numbers of samples per symbol", move |ctx| {
            let taps = ctx.choose("taps", t.of(67, 200));
            let beta = ctx.choose("beta", 101) as f64 / 100.0;
            let ts = ctx.pick("ts", &[1.0, 2.0, 0.5, 1e-3, 1.0 / 900.0, 1e-6, 3.7, 1e4, 0.1]);
            let sps = ctx.pick("sps", &[1.0, 2.0, 3.0, 4.0, 5.0, 8.0, 10.0, 1.5, 49.0]);
            rrc_check(ctx, taps, beta, ts, sps / ts)
        }),
        scn("singular", "roll-offs p/q for which a tap falls on, or next to, +-ts/(4 beta) and +-ts/(2 beta): every number of samples per symbol 1..64, tap 0..40 (thorough 200) from the middle, offsets of a few rounding steps", move |ctx| {
            let sps = 1 + ctx.choose("sps", 64);
            let k = ctx.choose("k", t.of(41, 200));
            let half = ctx.choose("half", 2);
            let den = ctx.pick("den", &[4.0, 2.0, 1.0, 8.0]);
            let ts = ctx.pick("ts", &[1.0, 1.0 / 900.0, 3.7]);
            let e = ctx.pick("e", &[0.0, 1e-16, -1e-16, 3e-16, 1e-14, 1e-12, 1e-10, 1e-9, -1e-9, 4e-9, 6e-9, 1e-8, 1e-7, -1e-6, 1e-5, 1e-3]);
            let x = (k as f64 + half as f64 / 2.0) / sps as f64;
            let beta = (1.0 + e) / (den * x);
            if x == 0.0 || beta > 1.0 {
                return Ok(());
            }
            rrc_check(ctx, 2 * (k + 2) + half, beta, ts, sps as f64 / ts)
        }),
        scn("magnitudes", "symbol lengths of 10^e for every e from -150 to 150, 5 samples per symbol counts, 8 roll-offs, up to 33 taps", move |ctx| {
            let e = ctx.choose("decade", 301) as i32 - 150;
            let ts = 10f64.powi(e);
            let sps = ctx.pick("sps", &[1.0, 2.0, 4.0, 5.0, 1000.0]);
            let beta = ctx.pick("beta", &[0.0, 0.1, 0.22, 0.25, 0.35, 0.5, 0.75, 1.0]);
            let taps = ctx.pick("taps", &[1usize, 2, 33]);
            rrc_check(ctx, taps, beta, ts, sps / ts)
        }),
        scn("long", "filters of up to 2^17 taps (thorough 2^21) around powers of two and ten x 12 roll-offs x 3 rates", move |ctx| {
            let l: Vec<usize> = steps_to(t.of(1 << 17, 1 << 21)).into_iter().filter(|&n| n > 66).collect();
            let taps = ctx.pick("taps", &l);
            let beta = ctx.pick("beta", &[0.0, 0.01, 0.1, 0.2, 0.22, 0.25, 0.3, 0.35, 0.5, 0.75, 0.99, 1.0]);
            let (ts, fs) = ctx.pick("rate", &[(1.0, 1.0), (1e-3, 48_000.0), (1.0 / 900.0, 44_100.0)]);
            rrc_check(ctx, taps, beta, ts, fs)
        }),
    ];
    (v, &["roll-offs outside 0..1 and symbol lengths or rates that are not positive are outside the definition"])
}
