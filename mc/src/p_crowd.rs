//! C30: many configurations of one kind of chain in one process. Every list of configurations is worked through
//! in several orders, each order in a process of its own; every configuration has to give the same items in all.
use crate::core::*;
use crate::{ensure, Tier};
use komunikilo as k;
use komunikilo::bpsk::*;
use komunikilo::cdma::*;
use komunikilo::chaos::*;
use komunikilo::csk::*;
use komunikilo::dcsk::*;
use komunikilo::fh::*;
use komunikilo::fh_css::*;
use komunikilo::fh_ofdm_dcsk::*;
use komunikilo::fm::*;
use komunikilo::fsk::*;
use komunikilo::iter::Iter;
use komunikilo::ofdm::*;
use komunikilo::qpsk::*;
use num_complex::Complex;
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

type C = Complex<f64>;
type Run = Box<dyn Fn() -> Vec<f64> + Send + Sync>;

fn run(f: impl Fn() -> Vec<f64> + Send + Sync + 'static) -> Run {
    Box::new(f)
}
fn bits(n: usize) -> impl Iterator<Item = bool> {
    (0..n).map(|i| i * i % 7 % 2 == 1 || i % 5 == 3)
}
fn num(n: usize, seed: usize) -> Vec<bool> {
    (0..n).map(|i| seed >> i & 1 == 1).collect()
}
fn wave(n: usize) -> impl Iterator<Item = f64> {
    (0..n).map(|i| (i as f64 * 0.731).sin() + 0.4 * ((i * i % 29) as f64 * 0.2 - 1.0))
}
fn cwave(n: usize) -> impl Iterator<Item = C> {
    wave(2 * n).zip(wave(2 * n).skip(1)).step_by(2).map(|(a, b)| C::new(a, b))
}
fn fb(it: impl Iterator<Item = bool>) -> Vec<f64> {
    it.map(|b| b as u8 as f64).collect()
}
fn fc(it: impl Iterator<Item = C>) -> Vec<f64> {
    it.flat_map(|z| [z.re, z.im]).collect()
}
fn ff(it: impl Iterator<Item = f64>) -> Vec<f64> {
    it.collect()
}
fn leak(v: Vec<bool>) -> &'static [bool] {
    Box::leak(v.into_boxed_slice())
}

/// (samples per symbol, symbol rate): small ones, and ones that agree in their low 8, 16 and 32 bits or after rounding.
fn rates() -> Vec<(usize, usize)> {
    let mut v = vec![];
    for sps in [2usize, 3, 4, 5, 7, 8, 10, 12, 16, 21, 32, 48, 100, 150, 256 + 4] {
        for rs in [1usize, 2, 3, 5, 10, 11, 100, 257, 900, 1000, 65_536 + 1, 65_536 + 10, 16_777_217, (1 << 32) + 1] {
            v.push((sps, rs));
        }
    }
    v
}
/// Carriers as fractions of the sample rate, and absolute ones that agree when truncated or rounded.
fn carriers(fs: usize) -> Vec<f64> {
    let f = fs as f64;
    let mut v = vec![0.0, f * 0.125, f * 0.25, f * 0.251, f * 0.26];
    if fs > 60 && fs < 10_000 {
        v.extend([10.0, 10.25, 10.5, 10.75, 11.0, 10.000001]);
    }
    v
}
fn plans() -> Vec<(f64, f64, usize, usize, usize)> {
    let mut v = vec![];
    for lo in [10.0, 10.25, 10.5, 20.0, 0.0] {
        for hi in [40.0, 40.25, 40.5, 45.0] {
            for nf in [1usize, 2, 3, 4, 5, 6, 7, 8, 16, 17, 257] {
                for (fs, rs) in [(100usize, 10usize), (200, 10), (100, 20), (1000, 100), (1000, 200), (100, 5), (65_536 + 100, 10)] {
                    if fs / rs < 200 {
                        v.push((lo, hi, nf, fs, rs));
                    }
                }
            }
        }
    }
    v
}
fn crowd_keys() -> Vec<Vec<bool>> {
    let mut v: Vec<Vec<bool>> = (1..=6).flat_map(|n| (0..1usize << n).map(move |s| num(n, s))).collect();
    for n in [8usize, 16, 32, 64, 65] {
        let base: Vec<bool> = bits(n).collect();
        v.push(base.clone());
        for i in 0..n {
            let mut x = base.clone();
            x[i] = !x[i];
            v.push(x);
        }
    }
    v
}

pub const FAMILIES: [&str; 39] = [
    "tx_baseband_ofdm", "rx_baseband_ofdm", "tx_ofdm", "rx_ofdm", "tx_bpsk", "rx_bpsk", "tx_qpsk", "rx_qpsk", "tx_fsk", "rx_fsk", "tx_fm", "tx_bfsk", "tx_fsk_list",
    "tx_fh_ofdm_dcsk_2", "linear_chirp", "tx_fh_bpsk", "rx_fh_bpsk", "tx_fh_css", "tx_fh_ofdm_dcsk", "tx_fh_bpsk_old", "cdma_baseband", "tx_cdma", "rx_cdma",
    "coded_cdma_keys", "coded_messages", "coded_received", "messages", "received", "chaos", "walsh", "linspace", "windows", "measures", "adaptors", "convolve", "bandpass",
    "butterpass", "ssca", "demod_maps",
];

fn family(name: &str) -> Vec<Run> {
    let mut v: Vec<Run> = vec![];
    match name {
        "tx_baseband_ofdm" | "rx_baseband_ofdm" => {
            for sc in 2..=96usize {
                for pl in 0..sc {
                    if name.starts_with("tx") {
                        v.push(run(move || fc(tx_baseband_ofdm_signal(cwave(2 * (sc - pl)), sc, pl))));
                    } else {
                        v.push(run(move || fc(rx_baseband_ofdm_signal(cwave(2 * (sc + sc / 4)), sc, pl))));
                    }
                }
            }
        }
        "tx_ofdm" | "rx_ofdm" => {
            for sc in (2..=20usize).chain([31, 32, 64]) {
                for pl in 0..sc.min(18) {
                    for (sps, rs, f) in [(2usize, 1usize, 0.25), (4, 1, 0.25), (4, 2, 0.25), (4, 2, 0.2), (5, 900, 0.1)] {
                        let fs = sps * rs;
                        let c = f * fs as f64;
                        if name.starts_with("tx") {
                            v.push(run(move || ff(tx_ofdm_qpsk_signal(bits(4 * (sc - pl)), sc, pl, fs, rs, c))));
                        } else {
                            v.push(run(move || fb(rx_ofdm_qpsk_signal(wave(2 * (sc + sc / 4) * sps), sc, pl, fs, rs, c))));
                        }
                    }
                }
            }
        }
        "tx_bpsk" | "rx_bpsk" | "tx_qpsk" | "rx_qpsk" | "tx_fsk" | "tx_fm" | "tx_bfsk" | "tx_fsk_list" | "tx_fh_ofdm_dcsk_2" | "linear_chirp" => {
            for (sps, rs) in rates() {
                let fs = sps * rs;
                for c in carriers(fs) {
                    v.push(match name {
                        "tx_bpsk" => run(move || ff(tx_bpsk_signal(bits(8), fs, rs, c))),
                        "rx_bpsk" => run(move || fb(rx_bpsk_signal(wave(24 * sps), fs, rs, c))),
                        "tx_qpsk" => run(move || ff(tx_qpsk_signal(bits(16), fs, rs, c))),
                        "rx_qpsk" => run(move || fb(rx_qpsk_signal(wave(24 * sps), fs, rs, c))),
                        "tx_fsk" => run(move || ff(tx_fsk(bits(8), fs, rs, c))),
                        "tx_fm" => run(move || ff(tx_fm(wave(8), fs, rs, c))),
                        "tx_bfsk" => run(move || ff(tx_bfsk_signal(bits(8), fs, rs, c, 1.5 * c + 0.25))),
                        "tx_fsk_list" => run(move || ff(tx_fsk_signal(bits(8), fs, rs, &[1.5 * c + 0.25, c]))),
                        "tx_fh_ofdm_dcsk_2" => run(move || ff(tx_fh_ofdm_dcsk_signal_2(bits(21), fs, rs, c))),
                        _ => run(move || {
                            let mut x = ff(linear_chirp(rs as f64, fs, c, 1.5 * c + 0.25).take(4 * sps));
                            x.extend(linear_upchirp_centered(rs as f64, c, 0.5 * c, fs).take(4 * sps));
                            x.extend(linear_downchirp_centered(rs as f64, c, 0.5 * c, fs).take(4 * sps));
                            x
                        }),
                    });
                }
            }
        }
        "rx_fsk" => {
            for sps in [42usize, 44, 50, 84, 100, 120, 168, 298, 300] {
                for rs in [1usize, 2, 3, 10, 257, 65_537] {
                    for m in [10.0, 10.25, 20.0, 20.5, 25.0] {
                        let (fs, c) = (sps * rs, m * rs as f64);
                        v.push(run(move || fb(rx_fsk(wave(6 * sps), fs, rs, c))));
                    }
                }
            }
        }
        "tx_fh_bpsk" | "rx_fh_bpsk" | "tx_fh_css" | "tx_fh_ofdm_dcsk" | "tx_fh_bpsk_old" => {
            for (lo, hi, nf, fs, rs) in plans() {
                let sps = fs / rs;
                v.push(match name {
                    "tx_fh_bpsk" => run(move || ff(tx_fh_bpsk_signal(bits(12), lo, hi, nf, fs, rs))),
                    "rx_fh_bpsk" => run(move || fb(rx_fh_bpsk_signal(wave(24 * sps), lo, hi, nf, fs, rs))),
                    "tx_fh_css" => run(move || ff(tx_fh_css_signal(bits(12), fs, rs, lo, hi, nf))),
                    "tx_fh_ofdm_dcsk" => run(move || ff(tx_fh_ofdm_dcsk_signal(bits(21), lo, hi, nf, fs, rs))),
                    _ => run(move || ff(tx_fh_bpsk_signal_old(bits(12), lo, hi, nf, fs, rs, 20.0))),
                });
            }
        }
        "cdma_baseband" => {
            for key in crowd_keys() {
                let key = leak(key);
                v.push(run(move || fb(tx_baseband_cdma(bits(12), key))));
                v.push(run(move || fb(rx_baseband_cdma(bits(12 * key.len()), key))));
            }
        }
        "tx_cdma" | "rx_cdma" | "coded_cdma_keys" => {
            for key in crowd_keys() {
                let key = leak(key);
                for (spc, rs, f) in [(2usize, 1usize, 0.25), (4, 1, 0.25), (4, 3, 0.2)] {
                    let sps = spc * key.len();
                    let fs = sps * rs;
                    let c = f * fs as f64;
                    if name == "coded_cdma_keys" {
                        if spc == 2 && key.len() < 9 {
                            v.push(run(move || ff(tx_coded_cdma_bpsk_signal(bits(60), fs, rs, c, key))));
                            v.push(run(move || fb(rx_coded_cdma_bpsk_signal(wave(200 * sps), fs, rs, c, key))));
                        }
                    } else if name == "tx_cdma" {
                        v.push(run(move || ff(tx_cdma_bpsk_signal(bits(6), fs, rs, c, key))));
                        v.push(run(move || ff(tx_cdma_qpsk_signal(bits(12), fs, rs, c, key))));
                    } else {
                        v.push(run(move || fb(rx_cdma_bpsk_signal(wave(24 * sps), fs, rs, c, key))));
                        v.push(run(move || fb(rx_cdma_qpsk_signal(wave(24 * sps), fs, rs, c, key))));
                    }
                }
            }
        }
        "coded_messages" => {
            // one or two bytes of a background changed, and all short ones
            for n in 0..=10usize {
                for s in 0..1usize << n {
                    v.push(run(move || ff(tx_coded_cdma_bpsk_signal(num(n, s).into_iter(), 2, 1, 0.25, &[true]))));
                }
            }
            for i in 0..112usize {
                for j in (0..=i).step_by(5) {
                    v.push(run(move || {
                        let m: Vec<bool> = bits(112).enumerate().map(|(p, b)| b ^ (p == i || p == j)).collect();
                        ff(tx_coded_cdma_bpsk_signal(m.into_iter(), 2, 1, 0.25, &[true]))
                    }));
                }
            }
        }
        "coded_received" => {
            // one transmission with any one or two bytes of it changed; two frames
            for i in 0..24usize {
                for j in 0..=i {
                    for e in [1u8, 0x80, 0xff, 0x5a, 0x1d] {
                        v.push(run(move || {
                            let mut x: Vec<f64> = tx_coded_cdma_bpsk_signal(bits(112), 2, 1, 0.25, &[true]).collect();
                            for p in [i, j] {
                                for b in 0..8 {
                                    if e >> b & 1 == 1 && x.len() >= (p * 8 + b) * 2 + 2 {
                                        x[(p * 8 + b) * 2] *= -1.0;
                                        x[(p * 8 + b) * 2 + 1] *= -1.0;
                                    }
                                }
                            }
                            fb(rx_coded_cdma_bpsk_signal(x.into_iter(), 2, 1, 0.25, &[true]))
                        }));
                    }
                }
            }
        }
        "messages" => {
            const KEY: [bool; 3] = [true, true, false];
            for n in 0..=8usize {
                for s in 0..1usize << n {
                    v.push(run(move || {
                        let m = || num(n, s).into_iter();
                        let mut x = fc(tx_baseband_bpsk_signal(m()));
                        x.extend(fc(tx_baseband_qpsk_signal(m())));
                        x.extend(tx_bpsk_signal(m(), 40, 10, 10.0));
                        x.extend(tx_qpsk_signal(m(), 40, 10, 10.0));
                        x.extend(tx_fsk(m(), 40, 10, 10.0));
                        x.extend(tx_bfsk_signal(m(), 40, 10, 10.0, 15.0));
                        x.extend(tx_mfsk_signal(m(), 40, 10, 10.0, 15.0, 2));
                        x.extend(tx_fh_bpsk_signal(m(), 10.0, 40.0, 5, 100, 10));
                        x.extend(tx_fh_css_signal(m(), 100, 10, 10.0, 40.0, 5));
                        x.extend(tx_fh_ofdm_dcsk_signal(m(), 10.0, 40.0, 5, 100, 10));
                        x.extend(tx_fh_ofdm_dcsk_signal_2(m(), 40, 10, 10.0));
                        x.extend(fc(tx_baseband_fh_ofdm_dcsk_signal(m())));
                        x.extend(tx_baseband_csk(m()));
                        x.extend(tx_baseband_dcsk(m()));
                        x.extend(tx_ofdm_qpsk_signal(m(), 8, 2, 4, 1, 1.0));
                        x.extend(tx_cdma_bpsk_signal(m(), 12, 1, 3.0, &KEY));
                        x.extend(tx_cdma_qpsk_signal(m(), 12, 1, 3.0, &KEY));
                        x.extend(fb(tx_baseband_cdma(m(), &KEY)));
                        x
                    }));
                }
            }
        }
        "received" => {
            // every sequence of 6 values over 3 per receiver of small blocks
            for s in 0..729usize {
                v.push(run(move || {
                    let at = move |i: usize| [-1.0, 0.25, 1.5][s / 3usize.pow(i as u32 % 6) % 3];
                    let w = move |n: usize| (0..n).map(at);
                    let cw = move |n: usize| (0..n).map(move |i| C::new(at(i), at(i + 1)));
                    let mut x = fb(rx_baseband_bpsk_signal(cw(6)));
                    x.extend(fb(rx_baseband_qpsk_signal(cw(6))));
                    x.extend(fb(rx_bpsk_signal(w(24), 40, 10, 10.0)));
                    x.extend(fb(rx_qpsk_signal(w(24), 40, 10, 10.0)));
                    x.extend(fb(rx_fh_bpsk_signal(w(40), 10.0, 40.0, 5, 100, 10)));
                    x.extend(fb(rx_baseband_dcsk(w(12))));
                    x.extend(fb(rx_baseband_fh_ofdm_dcsk_signal(cw(30))));
                    #[cfg(kmc)]
                    x.extend(fb(k::csk::kmc_hook::rx_baseband_csk(w(6))));
                    x.extend(fb(rx_cdma_bpsk_signal(w(24), 12, 1, 3.0, &[true, true, false])));
                    x.extend(fb(rx_baseband_cdma(w(24).map(|v| v > 0.0), &[true, true, false])));
                    x.extend(fb(rx_ofdm_qpsk_signal(w(80), 8, 2, 4, 1, 1.0)));
                    x.extend(fc(rx_baseband_ofdm_signal(cw(20), 8, 2)));
                    x.extend(fb(rx_fsk(w(150), 50, 1, 20.0)));
                    x
                }));
            }
        }
        "chaos" => {
            for a in 0..24usize {
                for b in 0..40usize {
                    v.push(run(move || {
                        let (mu, x0) = (3.4 + a as f64 * 0.025, 0.05 + b as f64 * 0.0225);
                        let mut x: Vec<f64> = LogisticMap::new(mu, x0).take(6).collect();
                        x.push(logistic_map(mu, x0));
                        x.push(tent_map(mu - 2.0, x0));
                        x.push(bernoulli_map(mu - 2.0, x0));
                        x.push(chebyshev(x0));
                        x.extend(Chebyshev::new(x0 - 0.01 * a as f64).take(6));
                        x
                    }));
                }
            }
        }
        "walsh" => {
            for p in 0..9u32 {
                let n = 1usize << p;
                for r in 0..n {
                    v.push(run(move || fb(k::hadamard::HadamardMatrix::new(n).key(r).iter().cloned())));
                }
            }
        }
        "linspace" => {
            for a in [-3.0, 0.0, 0.25, 0.5, 1.0, 10.0] {
                for b in [-3.0, 0.0, 0.25, 0.5, 1.0, 10.0, 10.25] {
                    for n in (0..40usize).chain([255, 256, 257, 300]) {
                        v.push(run(move || ff(k::linspace(a, b, n))));
                    }
                }
            }
        }
        "windows" => {
            for n in (1..=300usize).chain([512, 513, 1024, 65_536 + 1, 65_536 + 2]) {
                v.push(run(move || k::hamming_window(n)));
                v.push(run(move || fc(k::hamming_window_complex(n).into_iter())));
            }
        }
        "measures" => {
            for a in 0..60usize {
                for b in 0..20usize {
                    v.push(run(move || {
                        let y = a as f64 * 0.25 - 7.0 + b as f64 * 0.01;
                        let x: Vec<f64> = wave(a * 7 + b + 1).collect();
                        let (t, r): (Vec<bool>, Vec<bool>) = (bits(a + 1).collect(), num(a + 1, b * 12345));
                        vec![k::db(y.abs() + 0.1), k::undb(y), k::erf(y), k::erfc(y), k::ber(&t, &r), k::avg_energy(&x), k::energy(x.iter().cloned(), 10.0 + b as f64), k::power(x.iter().cloned(), 10.0 + b as f64)]
                    }));
                }
            }
        }
        "adaptors" => {
            for n in 1..=80usize {
                for len in [160usize, 161, 77, 256] {
                    v.push(run(move || {
                        let mut x: Vec<f64> = Iter::chunks(wave(len), n).flat_map(|c| [c.len() as f64, c.iter().sum(), c.first().copied().unwrap_or(0.5)]).collect();
                        x.extend(wave(len).inflate(n % 9 + 1));
                        x.extend(wave(len).take_every(n));
                        x.extend(wave(len).integrate_and_dump(n));
                        x.extend(wave(len).map(|v| [v, -v]).nintegrate_and_dump(n).flatten());
                        x.extend(Iter::scale(wave(len), n as f64 * 0.25));
                        x.extend(wave(len).integrate());
                        x
                    }));
                }
            }
        }
        "convolve" => {
            for n in 1..=5usize {
                for s in 0..4usize.pow(n as u32) {
                    v.push(run(move || {
                        let f: Vec<f64> = (0..n).map(|i| [-1.0, 0.5, 1.0, 2.0][s / 4usize.pow(i as u32) % 4]).collect();
                        let mut x = ff(wave(20).convolve(f.clone()));
                        x.extend(wave(20).map(|v| [v, 1.0 - v]).nonvolve(f).flatten());
                        x
                    }));
                }
            }
        }
        "bandpass" => {
            for l in (1..=40usize).chain([64, 100, 256, 257]) {
                for fs in [l, 2 * l, 1000, 44_100] {
                    for (lo, hi) in [(0.11, 0.31), (0.0, 0.2), (0.05, 0.45), (0.25, 0.45), (0.3, 0.35)] {
                        v.push(run(move || ff(k::bpf::bandpass(lo * fs as f64, hi * fs as f64, wave(2 * l), fs, l))));
                    }
                }
            }
        }
        "butterpass" => {
            for fs in [1000usize, 1001, 2000, 8000, 44_100] {
                for (lo, hi) in [(0.1, 0.2), (0.1, 0.201), (0.2, 0.3), (0.25, 0.35), (0.1, 0.15), (0.02, 0.05)] {
                    for n in [300usize, 301, 1000] {
                        v.push(run(move || ff(k::bpf::butterpass(lo * fs as f64, hi * fs as f64, wave(n), fs))));
                    }
                }
            }
        }
        "ssca" => {
            for (n, np) in [(16usize, 4usize), (16, 8), (32, 4), (32, 8), (32, 16), (64, 8), (64, 16), (128, 8), (128, 32), (64, 4), (24, 8), (40, 8), (48, 16)] {
                for kind in 0..3usize {
                    let x: Vec<f64> = wave(n + np + 8).map(|v| v * (kind + 1) as f64 + kind as f64).collect();
                    let y = x.clone();
                    v.push(run(move || fc(k::ssca::ssca_base(x.clone(), n, np).into_iter())));
                    v.push(run(move || fc(k::ssca::ssca_mapped(y.clone(), n, np).into_iter())));
                }
            }
        }
        "demod_maps" => {
            // transmissions of one configuration received by another: every receiver configuration sees every signal
            for (sps, rs) in [(4usize, 10usize), (8, 10), (4, 20), (10, 10)] {
                for (tx, f) in [(0usize, 0.25), (1, 0.25), (0, 0.125), (1, 0.2)] {
                    for (rps, rrs) in [(4usize, 10usize), (8, 10), (4, 20), (10, 10)] {
                        for rf in [0.25, 0.125, 0.2] {
                            v.push(run(move || {
                                let (fs, rfs) = (sps * rs, rps * rrs);
                                let c = f * fs as f64;
                                let s: Vec<f64> = if tx == 0 { tx_bpsk_signal(bits(24), fs, rs, c).collect() } else { tx_qpsk_signal(bits(48), fs, rs, c).collect() };
                                let rc = rf * rfs as f64;
                                let mut x = fb(rx_bpsk_signal(s.iter().cloned(), rfs, rrs, rc));
                                x.extend(fb(rx_qpsk_signal(s.into_iter(), rfs, rrs, rc)));
                                x
                            }));
                        }
                    }
                }
            }
        }
        _ => {}
    }
    v
}

fn sum(r: &Run) -> String {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r()));
    match r {
        Err(_) => "panic".into(),
        Ok(x) => {
            let (mut a, mut b, mut m) = (0.0, 0.0, 0.0);
            for (i, v) in x.iter().enumerate() {
                let w = (i as f64 * 2.399963).sin() + 1.5;
                a += v * w;
                b += v * ((i as f64 * 1.1).cos() + 0.1);
                m += v.abs();
            }
            format!("{}/{:x}/{:x}/{:x}", x.len(), f64::to_bits(a), f64::to_bits(b), f64::to_bits(m))
        }
    }
}

pub const ORDERS: usize = 5;

/// Run as `kmc crowd FAMILY ORDER` in a process of its own.
pub fn child(name: &str, order: usize) -> Option<String> {
    let l = family(name);
    if l.is_empty() {
        return None;
    }
    let n = l.len();
    let mut out = vec![String::new(); n];
    match order {
        0 => (0..n).for_each(|i| out[i] = sum(&l[i])),
        1 => (0..n).rev().for_each(|i| out[i] = sum(&l[i])),
        2 => {
            // a stride coprime with the length
            let mut st = (n as f64 * 0.618) as usize | 1;
            let gcd = |mut a: usize, mut b: usize| {
                while b > 0 {
                    (a, b) = (b, a % b);
                }
                a
            };
            while gcd(st, n) != 1 {
                st += 1;
            }
            (0..n).for_each(|i| out[i * st % n] = sum(&l[i * st % n]));
        }
        3 => (0..n).for_each(|i| out[i] = std::thread::scope(|s| s.spawn(|| sum(&l[i])).join().unwrap_or_else(|_| "panic".into()))),
        _ => (0..n).for_each(|i| {
            // its neighbour, itself, its other neighbour, itself again
            sum(&l[(i + 1) % n]);
            let a = sum(&l[i]);
            sum(&l[(i + n - 1) % n]);
            let b = sum(&l[i]);
            out[i] = if agree(&a, &b) { b } else { format!("differs:{a}:{b}") };
        }),
    }
    Some(out.join(" "))
}

fn agree(a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    let p = |s: &str| -> Option<(String, Vec<f64>)> {
        let mut it = s.split('/');
        let n = it.next()?.to_string();
        let v: Option<Vec<f64>> = it.map(|x| u64::from_str_radix(x, 16).ok().map(f64::from_bits)).collect();
        Some((n, v.filter(|v| v.len() == 3)?))
    };
    match (p(a), p(b)) {
        (Some((n, x)), Some((m, y))) => n == m && (0..3).all(|i| (x[i] - y[i]).abs() <= 1e-9 * (1.0 + x[2].abs()) || x[i].to_bits() == y[i].to_bits() || (x[i].is_nan() && y[i].is_nan())),
        _ => false,
    }
}

fn spawn(name: &str, order: usize) -> Result<Vec<String>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = std::process::Command::new(&exe)
        .args(["crowd", name, &order.to_string()])
        .stdin(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .output()
        .map_err(|e| format!("harness: cannot start process: {e}"))?;
    ensure!(o.status.success(), "the {name} configurations, order {order}, in one process: {}", o.status);
    let s = String::from_utf8_lossy(&o.stdout).into_owned();
    let line = s.lines().find_map(|l| l.strip_prefix("CROWD ")).ok_or("no output")?;
    Ok(line.split(' ').map(|s| s.to_string()).collect())
}

type Got = std::sync::Arc<Result<Vec<String>, String>>;
fn result(name: &'static str, order: usize) -> Got {
    static R: OnceLock<Mutex<HashMap<(&'static str, usize), std::sync::Arc<OnceLock<Got>>>>> = OnceLock::new();
    let cell = R.get_or_init(Default::default).lock().unwrap().entry((name, order)).or_default().clone();
    cell.get_or_init(|| std::sync::Arc::new(spawn(name, order))).clone()
}

pub fn scenario(_t: Tier) -> Scn {
    scn(
        "crowd",
        "39 families of up to 4700 configurations each (every subcarrier and pilot count up to 96, rates and carriers that agree in their low bits or when rounded, keys one chip apart, hop plans, filters, messages, receptions): every list worked through in one process forwards, backwards, in strides, each in a fresh thread, and each between its neighbours: every configuration gives the same every time",
        move |ctx| {
            let name = FAMILIES[ctx.choose("family", FAMILIES.len())];
            let order = 1 + ctx.choose("order", ORDERS - 1);
            let (a, b) = (result(name, 0), result(name, order));
            let a = a.as_ref().as_ref().map_err(|e| e.clone())?;
            let b = b.as_ref().as_ref().map_err(|e| e.clone())?;
            ensure!(a.len() == b.len(), "{name}: {} and {} results", a.len(), b.len());
            for i in 0..a.len() {
                ensure!(agree(&a[i], &b[i]), "{name}: configuration {i} of {} gives {} when the others run before it in order, and {} in order {order}", a.len(), a[i], b[i]);
            }
            ctx.step(a.len());
            ctx.observe(a.iter().fold(0, |h: u64, s| h.rotate_left(5) ^ s.len() as u64) ^ name.len() as u64);
            Ok(())
        },
    )
}
