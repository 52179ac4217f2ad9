//! C05 C06 C09 C36: PSK modems and the waveforms built on them.
use crate::core::*;
use crate::p_iter::Set;
use crate::{ensure, Tier};
use komunikilo::bpsk::*;
use komunikilo::cdma::*;
use komunikilo::ofdm::*;
use komunikilo::qpsk::*;
use num_complex::Complex;
use std::f64::consts::PI;

pub fn nrz(b: bool) -> f64 {
    if b { 1.0 } else { -1.0 }
}
pub fn cosw(fc: f64, fs: usize, i: usize) -> f64 {
    (2.0 * PI * fc * (i as f64 / fs as f64)).cos()
}
pub fn sinw(fc: f64, fs: usize, i: usize) -> f64 {
    (2.0 * PI * fc * (i as f64 / fs as f64)).sin()
}

pub const RS: [usize; 6] = [1, 900, 1000, 3, 9600, 44100];
pub fn sps_list(t: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=t.of(66, 130)).collect();
    v.extend([80, 96, 100, 127, 128, 129, 147, 200, 255, 256, 257, 441, 500, 512, 1000, 1023, 1024, 1025]);
    v.sort();
    v.dedup();
    v
}

/// Symbol lengths beyond the grid: (samples per symbol, symbol rate).
pub fn long_symbols(t: Tier) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for s in steps_to(t.of(100_001, 1_000_001)) {
        if s > 66 {
            for r in [1usize, 900, 7] {
                v.push((s, r));
            }
        }
    }
    v.extend([(1_000_000, 1), (3, 1_000_000_000), (4, 12_345_678), (50, 1 << 32), (7, 333_333_333), (2, 1 << 40)]);
    v
}

/// Rate plans (samples per symbol, symbol rate): every symbol rate up to 700 (thorough 6000) with few
/// samples per symbol, and every even division of the usual sample rates. A samples-per-symbol count
/// obtained by anything but exact division goes wrong at some of them (49, 98, 103, 107, 161 ...).
pub fn rate_plans(t: Tier) -> &'static [(usize, usize)] {
    static P: std::sync::OnceLock<Vec<(usize, usize)>> = std::sync::OnceLock::new();
    P.get_or_init(|| make_rate_plans(t))
}
/// Those of them that satisfy a condition; made once per scenario.
pub fn rate_plans_where(t: Tier, f: impl Fn(usize) -> bool) -> Vec<(usize, usize)> {
    rate_plans(t).iter().cloned().filter(|r| f(r.0)).collect()
}
fn make_rate_plans(t: Tier) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for rs in 1..=t.of(700usize, 6000) {
        for sps in [1usize, 2, 3, 4, 5, 6, 7, 12] {
            v.push((sps, rs));
        }
    }
    for fs in [8000usize, 11_025, 16_000, 22_050, 32_000, 44_100, 48_000, 65_536, 80_000, 88_200, 96_000, 100_000, 192_000, 250_000, 1_000_000, 2_400_000, 10_000_000, 20_000_000] {
        for sps in 1..=t.of(1000usize, 4000) {
            if fs % sps == 0 {
                v.push((sps, fs / sps));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Carriers as a function of the configuration (all within [0, fs/2]).
pub fn carriers(fs: usize, rs: usize) -> Vec<f64> {
    let f = fs as f64;
    let mut v = vec![
        2.0 * rs as f64, rs as f64, 0.5 * rs as f64, 2.5 * rs as f64, 0.0, f / 2.0, f / 4.0, f / 3.0, f / 8.0,
        0.123456 * f, 0.031 * f, 0.4567 * f, 0.499 * f, rs as f64 / 3.0, 1.0, 1800.0, 20000.0, 0.25, f / 2.0 - rs as f64 / 2.0,
    ];
    v.retain(|&c| c >= 0.0 && c <= f / 2.0);
    v
}

/// Half-cycle carriers m*rs/2, 0 < m < sps.
pub fn half_carriers(t: Tier, rs: usize, sps: usize) -> Vec<f64> {
    let all = t.of(20, 64);
    let mut ms: Vec<usize> = if sps <= all { (1..sps).collect() } else { vec![1, 2, 3, 4, 5, 7, sps / 4, sps / 3, sps / 2, sps - 3, sps - 2, sps - 1] };
    ms.retain(|&m| m >= 1 && m < sps);
    ms.dedup();
    // the usual carrier (two cycles per symbol) first
    if let Some(p) = ms.iter().position(|&m| m == 4) {
        ms.swap(0, p);
    }
    ms.into_iter().map(|m| m as f64 * rs as f64 / 2.0).collect()
}

/// Smallest carrier energy any symbol sees.
fn min_energy(n_sym: usize, sps: usize, fs: usize, fc: f64) -> f64 {
    (0..n_sym.min(64))
        .map(|k| (k * sps..(k + 1) * sps).map(|i| cosw(fc, fs, i).powi(2)).sum::<f64>())
        .fold(f64::INFINITY, f64::min)
}

fn bpsk_rt(ctx: &mut Ctx, msg: &[bool], fs: usize, rs: usize, fc: f64) -> R {
    let sps = fs / rs;
    let what = format!("BPSK fs={fs} rs={rs} fc={fc} message {}", bstr(msg));
    let tx = pull(tx_bpsk_signal(msg.iter().cloned(), fs, rs, fc), msg.len() * sps + 1)?;
    let rx = pull(rx_bpsk_signal(tx.into_iter(), fs, rs, fc), msg.len() + 1)?;
    same_bits(ctx, &what, &rx, msg)
}
fn qpsk_rt(ctx: &mut Ctx, msg: &[bool], fs: usize, rs: usize, fc: f64) -> R {
    let sps = fs / rs;
    let what = format!("QPSK fs={fs} rs={rs} fc={fc} message {}", bstr(msg));
    let tx = pull(tx_qpsk_signal(msg.iter().cloned(), fs, rs, fc), msg.len() * sps + 1)?;
    let rx = pull(rx_qpsk_signal(tx.into_iter(), fs, rs, fc), msg.len() + 2)?;
    same_bits(ctx, &what, &rx, &msg[..msg.len() / 2 * 2])
}

pub const BASE: [(usize, usize, f64); 6] = [
    (44100, 900, 1800.0),
    (80000, 1000, 2500.0),
    (8, 2, 2.0),
    (9600 * 3, 9600, 4800.0),
    (1_000_000, 1000, 400_000.0),
    (64, 16, 16.0),
];

pub fn c05(t: Tier) -> Set {
    let exh = t.of(12, 16);
    (
        vec![
            scn("baseband", "all messages up to 14 bits; every length 0..600 and ladder to 2^17 in 6 patterns", move |ctx| {
                let mut lens: Vec<usize> = (0..600).collect();
                lens.extend(ladder(10, t.of(17, 21)));
                let m = message(ctx, t.of(14, 18), &lens, PATTERNS);
                ctx.note(|| bstr(&m));
                let tx = pull(tx_baseband_bpsk_signal(m.iter().cloned()), m.len() + 1)?;
                let rx = pull(rx_baseband_bpsk_signal(tx.into_iter()), m.len() + 1)?;
                same_bits(ctx, "baseband BPSK", &rx, &m)
            }),
            scn("exhaustive", &format!("all messages up to {exh} bits at 6 configurations; every length 0..260 in 6 patterns"), move |ctx| {
                let (fs, rs, fc) = ctx.pick("cfg", &BASE);
                let lens: Vec<usize> = (0..260).collect();
                let exh = if fs / rs > 100 { 8 } else { exh };
                let m = message(ctx, exh, &lens, PATTERNS);
                ctx.note(|| format!("fs={fs} rs={rs} fc={fc} {}", bstr(&m)));
                bpsk_rt(ctx, &m, fs, rs, fc)
            }),
            scn("grid", "every samples-per-symbol of the list x 6 symbol rates x up to 19 carriers, content of 80 bits and all 3-bit messages", move |ctx| {
                let sps = ctx.pick("sps", &sps_list(t));
                let rs = ctx.pick("rs", &RS);
                let fs = sps * rs;
                let fc = ctx.pick("fc", &carriers(fs, rs));
                if min_energy(80, sps, fs, fc) < 1e-6 {
                    return Ok(());
                }
                let k = ctx.choose("m", 9);
                let m = if k == 0 { content(80) } else { (0..3).map(|i| (k - 1) >> i & 1 == 1).collect() };
                bpsk_rt(ctx, &m, fs, rs, fc)
            }),
            scn("long", "long messages (ladder to 2^16+1 bits, thorough 2^19+1) at 3 configurations, 6 patterns", move |ctx| {
                let (fs, rs, fc) = ctx.pick("cfg", &[(6, 2, 1.0), (44100, 900, 1800.0), (10000, 1000, 1234.5)]);
                let hi = if fs == 6 { t.of(17, 20) } else { t.of(14, 17) };
                let n = ctx.pick("n", &ladder(9, hi));
                let p = ctx.choose("pattern", t.of(2, PATTERNS));
                bpsk_rt(ctx, &pattern(p, n), fs, rs, fc)
            }),
            scn("long-symbols", "round-number samples per symbol from 67 to 10^5 (thorough 10^6) x 3 symbol rates, and enormous rates, x 5 carriers: 5 bits", move |ctx| {
                let (sps, rs) = ctx.pick("shape", &long_symbols(t));
                let fs = sps * rs;
                let fc = ctx.pick("f", &[0.123456, 0.0, 0.25, 2.0 / sps as f64, 0.4999]) * fs as f64;
                if fc > fs as f64 / 2.0 || min_energy(5, sps, fs, fc) < 1e-6 {
                    return Ok(());
                }
                bpsk_rt(ctx, &[true, false, false, true, true], fs, rs, fc)
            }),
            scn("far", "one transmission of 2^24 + 2^14 samples (thorough 2^28) fed straight into the receiver, 5 configurations x 2 patterns", move |ctx| {
                let (fs, rs, fc) = ctx.pick("cfg", &[(3usize, 1usize, 0.7), (44100, 900, 1800.0), (12, 4, 3.217), (1_000_000, 100_000, 123_456.7), (48000, 48000, 0.0)]);
                let p = ctx.choose("pattern", 2);
                let n = ((1usize << t.of(24, 28)) + (1 << 14)) / (fs / rs);
                let tx = tx_bpsk_signal((0..n).map(move |i| bit_at(p, i)), fs, rs, fc);
                stream_bits(ctx, &format!("BPSK fs={fs} rs={rs} fc={fc} pattern {p}"), rx_bpsk_signal(tx, fs, rs, fc), n, |i| bit_at(p, i))
            }),
            scn("far-baseband", "2^24 + 4096 bits (thorough 2^30) at baseband", move |ctx| {
                let p = ctx.choose("pattern", 2);
                let n = (1usize << t.of(24, 30)) + 4096;
                let tx = tx_baseband_bpsk_signal((0..n).map(move |i| bit_at(p, i)));
                stream_bits(ctx, "baseband BPSK", rx_baseband_bpsk_signal(tx), n, |i| bit_at(p, i))
            }),
            scn("rates", "every symbol rate 1..700 (thorough 6000) x 8 samples per symbol up to 12, and every even division of 18 usual sample rates, 2 carriers: 9 bits", move |ctx| {
                let (sps, rs) = ctx.pick("rate", rate_plans(t));
                let fs = sps * rs;
                let fc = ctx.pick("f", &[0.0, 0.1234567]) * fs as f64;
                bpsk_rt(ctx, &[true, false, false, true, true, false, true, true, false], fs, rs, fc)
            }),
            scn("faint", "1 to 4 samples per symbol with a carrier so close to a quarter or half of the sample rate, or to zero, that some samples shrink to 10^-2 .. 10^-6: 5 x 5 x 3 symbol rates, all 4-bit messages and 40 bits", move |ctx| {
                let sps = ctx.pick("sps", &[1usize, 2, 3, 4]);
                let rs = ctx.pick("rs", &[900usize, 1, 44_100]);
                let fs = sps * rs;
                let e = ctx.pick("off", &[1e-2, 1e-3, 1e-4, 1e-5, 1e-6]);
                let at = ctx.pick("at", &[0.25f64, 0.5, 0.0, 1.0 / 6.0, 0.25 - 2e-9]);
                let fc = fs as f64 * (at - e as f64).abs();
                if min_energy(40, sps, fs, fc) < 1e-14 {
                    return Ok(());
                }
                let k = ctx.choose("m", 17);
                let m = if k == 0 { content(40) } else { (0..4).map(|i| (k - 1) >> i & 1 == 1).collect() };
                bpsk_rt(ctx, &m, fs, rs, fc)
            }),
        ],
        &["no noise between transmitter and receiver", "configurations whose carrier energy in some symbol is below 1e-6 (scenario faint: 1e-14) are left out"],
    )
}

pub fn c06(t: Tier) -> Set {
    let exh = t.of(12, 16);
    let even: Vec<usize> = (0..260).collect();
    (
        vec![
            scn("baseband", "all messages (odd lengths too) up to 14 bits; every length 0..600 and ladder to 2^17 in 6 patterns", move |ctx| {
                let mut lens: Vec<usize> = (0..600).collect();
                lens.extend(ladder(10, t.of(17, 21)));
                let m = message(ctx, t.of(14, 18), &lens, PATTERNS);
                let tx = pull(tx_baseband_qpsk_signal(m.iter().cloned()), m.len() + 1)?;
                ensure!(tx.len() == m.len() / 2, "baseband QPSK: {} symbols for {} bits", tx.len(), m.len());
                let rx = pull(rx_baseband_qpsk_signal(tx.into_iter()), m.len() + 2)?;
                same_bits(ctx, "baseband QPSK", &rx, &m[..m.len() / 2 * 2])
            }),
            scn("exhaustive", &format!("all messages up to {exh} bits at 6 configurations; every length 0..259 in 6 patterns"), move |ctx| {
                let (fs, rs, fc) = ctx.pick("cfg", &[
                    (44100, 900, 1800.0), (80000, 1000, 2500.0), (12, 2, 2.0), (9600 * 3, 9600, 4800.0), (100_000, 1000, 40_000.0), (64, 16, 16.0),
                ]);
                let m = message(ctx, if fs / rs > 60 { 9 } else { exh }, &even, PATTERNS);
                ctx.note(|| format!("fs={fs} rs={rs} fc={fc} {}", bstr(&m)));
                qpsk_rt(ctx, &m, fs, rs, fc)
            }),
            scn("grid", "every samples-per-symbol >= 3 of the list x 6 symbol rates x half-cycle carriers, content of 84 bits and all 4-bit messages", move |ctx| {
                let l: Vec<usize> = sps_list(t).into_iter().filter(|&s| s >= 3).collect();
                let sps = ctx.pick("sps", &l);
                let rs = ctx.pick("rs", &RS);
                let fc = ctx.pick("fc", &half_carriers(t, rs, sps));
                let k = ctx.choose("m", t.of(5, 17));
                let m = if k == 0 { content(84) } else { (0..4).map(|i| (k * 7 - 1) >> i & 1 == 1).collect() };
                qpsk_rt(ctx, &m, sps * rs, rs, fc)
            }),
            scn("long", "long messages (ladder to 2^16+1 bits) at 3 configurations", move |ctx| {
                let (fs, rs, fc) = ctx.pick("cfg", &[(6, 2, 1.0), (44100, 900, 1800.0), (10000, 1000, 1500.0)]);
                let hi = if fs == 6 { t.of(17, 20) } else { t.of(14, 17) };
                let n = ctx.pick("n", &ladder(9, hi));
                let p = ctx.choose("pattern", t.of(2, PATTERNS));
                qpsk_rt(ctx, &pattern(p, n), fs, rs, fc)
            }),
            scn("long-symbols", "round-number samples per symbol from 67 to 10^5 (thorough 10^6) x 3 symbol rates, and enormous rates, x 4 half-cycle carriers: 10 bits", move |ctx| {
                let (sps, rs) = ctx.pick("shape", &long_symbols(t));
                if sps < 3 {
                    return Ok(());
                }
                let m = ctx.pick("half cycles", &[4usize, 1, sps / 2, sps - 1]);
                if m == 0 || m >= sps {
                    return Ok(());
                }
                qpsk_rt(ctx, &[true, false, false, true, true, true, false, false, true, false], sps * rs, rs, m as f64 * rs as f64 / 2.0)
            }),
            scn("far", "one transmission of 2^24 + 2^14 samples (thorough 2^28) fed straight into the receiver, 5 configurations x 2 patterns", move |ctx| {
                let (fs, rs, fc) = ctx.pick("cfg", &[(3usize, 1usize, 0.5), (44100, 900, 1800.0), (12, 4, 4.0), (1_000_000, 100_000, 150_000.0), (48000, 8000, 4000.0)]);
                let p = ctx.choose("pattern", 2);
                let n = ((1usize << t.of(24, 28)) + (1 << 14)) / (fs / rs) / 2 * 2;
                let tx = tx_qpsk_signal((0..n).map(move |i| bit_at(p, i)), fs, rs, fc);
                stream_bits(ctx, &format!("QPSK fs={fs} rs={rs} fc={fc} pattern {p}"), rx_qpsk_signal(tx, fs, rs, fc), n, |i| bit_at(p, i))
            }),
            scn("far-baseband", "2^24 + 4096 bits (thorough 2^30) at baseband", move |ctx| {
                let p = ctx.choose("pattern", 2);
                let n = (1usize << t.of(24, 30)) + 4096;
                let tx = tx_baseband_qpsk_signal((0..n).map(move |i| bit_at(p, i)));
                stream_bits(ctx, "baseband QPSK", rx_baseband_qpsk_signal(tx), n, |i| bit_at(p, i))
            }),
            scn("rates", "every symbol rate 1..700 (thorough 6000) x 8 samples per symbol up to 12, and every even division of 18 usual sample rates (3 samples per symbol or more), 2 half-cycle carriers: 10 bits", move |ctx| {
                let l = rate_plans_where(t, |s| s >= 3);
                let (sps, rs) = ctx.pick("rate", &l);
                let m = ctx.pick("half cycles", &[1usize, sps - 1]);
                qpsk_rt(ctx, &[true, false, false, true, true, true, false, false, true, false], sps * rs, rs, m as f64 * rs as f64 / 2.0)
            }),
        ],
        &["no noise between transmitter and receiver"],
    )
}

// ------------------------------------------------------------------ C09

const TOL: f64 = 1e-6;

pub fn keys_small() -> Vec<Vec<bool>> {
    let mut v = vec![];
    for l in 1..=4usize {
        for x in 0..1usize << l {
            v.push((0..l).map(|i| x >> i & 1 == 1).collect());
        }
    }
    for l in [5usize, 6, 7, 8, 9, 11, 12, 16, 20, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512] {
        v.push(content(l + 7)[7..].to_vec());
    }
    v
}

fn wave_bpsk(ctx: &mut Ctx, m: &[bool], fs: usize, rs: usize, fc: f64) -> R {
    let sps = fs / rs;
    let got = pull(tx_bpsk_signal(m.iter().cloned(), fs, rs, fc), m.len() * sps + 1)?;
    let want: Vec<f64> = (0..m.len() * sps).map(|i| nrz(m[i / sps]) * cosw(fc, fs, i)).collect();
    close(ctx, &format!("BPSK waveform fs={fs} rs={rs} fc={fc} message {}", bstr(m)), &got, &want, TOL)
}
fn wave_qpsk(ctx: &mut Ctx, m: &[bool], fs: usize, rs: usize, fc: f64) -> R {
    let sps = fs / rs;
    let got = pull(tx_qpsk_signal(m.iter().cloned(), fs, rs, fc), m.len() * sps + 1)?;
    let want: Vec<f64> = (0..m.len() / 2 * sps)
        .map(|i| nrz(m[i / sps * 2]) * cosw(fc, fs, i) - nrz(m[i / sps * 2 + 1]) * sinw(fc, fs, i))
        .collect();
    close(ctx, &format!("QPSK waveform fs={fs} rs={rs} fc={fc} message {}", bstr(m)), &got, &want, TOL)
}
fn wave_ofdm(ctx: &mut Ctx, m: &[bool], sc: usize, pl: usize, fs: usize, rs: usize, fc: f64) -> R {
    let sps = fs / rs;
    let cap = (m.len() + 2 * sc) * sps * 40 + 10;
    let base: Vec<Complex<f64>> = pull(tx_baseband_ofdm_signal(tx_baseband_qpsk_signal(m.iter().cloned()), sc, pl), cap)?;
    let got = pull(tx_ofdm_qpsk_signal(m.iter().cloned(), sc, pl, fs, rs, fc), base.len() * sps + 1)?;
    let want: Vec<f64> = (0..base.len() * sps)
        .map(|i| base[i / sps].re * cosw(fc, fs, i) - base[i / sps].im * sinw(fc, fs, i))
        .collect();
    close(ctx, &format!("OFDM waveform {sc}/{pl} fs={fs} rs={rs} fc={fc}"), &got, &want, TOL)
}
fn wave_cdma(ctx: &mut Ctx, m: &[bool], key: &[bool], spc: usize, rs: usize, fc: f64, q: bool) -> R {
    let sps = spc * key.len();
    let fs = sps * rs;
    let what = format!("CDMA/{} waveform fs={fs} rs={rs} fc={fc} key {} message {}", if q { "QPSK" } else { "BPSK" }, bstr(key), bstr(m));
    let (got, nsym) = if q {
        (pull(tx_cdma_qpsk_signal(m.iter().cloned(), fs, rs, fc, key), m.len() * sps + 1)?, m.len() / 2)
    } else {
        (pull(tx_cdma_bpsk_signal(m.iter().cloned(), fs, rs, fc, key), m.len() * sps + 1)?, m.len())
    };
    let want: Vec<f64> = (0..nsym * sps)
        .map(|i| {
            let s = i / sps;
            let w = if q { nrz(m[2 * s]) * cosw(fc, fs, i) - nrz(m[2 * s + 1]) * sinw(fc, fs, i) } else { nrz(m[s]) * cosw(fc, fs, i) };
            w * nrz(key[(i % sps) / spc])
        })
        .collect();
    close(ctx, &what, &got, &want, TOL)
}

pub fn c09(t: Tier) -> Set {
    (
        vec![
            scn("psk-grid", "BPSK and QPSK: samples-per-symbol list x 6 symbol rates x up to 19 carriers, content of 70 bits", move |ctx| {
                let sps = ctx.pick("sps", &sps_list(t));
                let rs = ctx.pick("rs", &RS);
                let fc = ctx.pick("fc", &carriers(sps * rs, rs));
                let m = content(70);
                match ctx.choose("modem", 2) {
                    0 => wave_bpsk(ctx, &m, sps * rs, rs, fc),
                    _ => wave_qpsk(ctx, &m, sps * rs, rs, fc),
                }
            }),
            scn("psk-messages", "BPSK and QPSK: all messages up to 10 bits, every length 0..130 in 6 patterns, 3 configurations", move |ctx| {
                let (fs, rs, fc) = ctx.pick("cfg", &[(4410, 900 / 10, 180.0), (12, 4, 1.7), (80, 10, 33.0)]);
                let lens: Vec<usize> = (0..130).collect();
                let m = message(ctx, t.of(10, 14), &lens, PATTERNS);
                match ctx.choose("modem", 2) {
                    0 => wave_bpsk(ctx, &m, fs, rs, fc),
                    _ => wave_qpsk(ctx, &m, fs, rs, fc),
                }
            }),
            scn("psk-long", "BPSK and QPSK: ladder to 2^20 samples (late sample times)", move |ctx| {
                let (fs, rs, fc) = ctx.pick("cfg", &[(44100, 900, 1800.0), (6, 2, 2.5), (1_000_000, 250_000, 123_456.7)]);
                let n = ctx.pick("samples", &ladder(14, t.of(20, 23)));
                let m = content(n / (fs / rs));
                match ctx.choose("modem", 2) {
                    0 => wave_bpsk(ctx, &m, fs, rs, fc),
                    _ => wave_qpsk(ctx, &m, fs, rs, fc),
                }
            }),
            scn("ofdm", "passband OFDM: 12 subcarrier/pilot plans x sps 1..20 and larger x carriers, several lengths", move |ctx| {
                let (sc, pl) = ctx.pick("plan", &[(8, 1), (64, 12), (4, 2), (2, 1), (5, 2), (16, 4), (7, 1), (32, 6), (12, 3), (128, 20), (256, 30), (48, 5)]);
                let mut l: Vec<usize> = (1..=20).collect();
                l.extend([32, 49, 64, 80, 100]);
                let sps = ctx.pick("sps", &l);
                let rs = ctx.pick("rs", &[900usize, 1, 1000]);
                let fc = ctx.pick("fc", &carriers(sps * rs, rs));
                let n = ctx.pick("n", &[2 * (sc - pl), 2, 4 * (sc - pl) + 2]);
                wave_ofdm(ctx, &content(n), sc, pl, sps * rs, rs, fc)
            }),
            scn("ofdm-long", "passband OFDM up to 2^18 samples", move |ctx| {
                let (sc, pl) = ctx.pick("plan", &[(64, 12), (16, 1)]);
                let k = ctx.choose("size", 3);
                let n = 2 * (sc - pl) * [40, 120, 250][k];
                let (fs, rs, fc) = ctx.pick("cfg", &[(44100, 900, 1800.0), (10, 2, 1.3)]);
                wave_ofdm(ctx, &content(n), sc, pl, fs, rs, fc)
            }),
            scn("cdma", "CDMA/BPSK and CDMA/QPSK: 54 keys of 1..512 chips x samples per chip 2..8 and larger x 2 symbol rates x 6 carriers", move |ctx| {
                let key = ctx.pick("key", &keys_small());
                let spc = ctx.pick("spc", &[2usize, 3, 4, 5, 7, 8, 16, 33]);
                let rs = ctx.pick("rs", &[1usize, 900]);
                let fs = spc * key.len() * rs;
                let fc = ctx.pick("f", &[0.11, 0.25, 0.0, 0.5, 0.37, 0.03]) * fs as f64;
                let q = ctx.choose("qpsk", 2) == 1;
                let n = if key.len() * spc > 500 { 9 } else { 40 };
                wave_cdma(ctx, &content(n), &key, spc, rs, fc, q)
            }),
            scn("cdma-messages", "CDMA: all messages up to 7 bits, every length 0..70, two keys", move |ctx| {
                let key = ctx.pick("key", &[vec![true, true, false], content(16)]);
                let lens: Vec<usize> = (0..70).collect();
                let m = message(ctx, 7, &lens, 2);
                let q = ctx.choose("qpsk", 2) == 1;
                wave_cdma(ctx, &m, &key, 3, 10, 17.0, q)
            }),
            scn("long-symbols", "BPSK and QPSK: round-number samples per symbol from 67 to 10^5 x 3 symbol rates, and enormous rates, x 4 carriers: 6 bits", move |ctx| {
                let (sps, rs) = ctx.pick("shape", &long_symbols(t));
                let fs = sps * rs;
                let fc = ctx.pick("f", &[0.123456, 0.0, 2.0 / sps as f64, 0.4999]) * fs as f64;
                if fc > fs as f64 / 2.0 {
                    return Ok(());
                }
                let m = [true, false, false, true, true, true];
                match ctx.choose("modem", 2) {
                    0 => wave_bpsk(ctx, &m, fs, rs, fc),
                    _ => wave_qpsk(ctx, &m, fs, rs, fc),
                }
            }),
            scn("far", "every waveform for 2^24 + 2^14 samples (thorough 2^28): BPSK, QPSK, OFDM, CDMA over both, 3 configurations", move |ctx| {
                let total = (1usize << t.of(24, 28)) + (1 << 14);
                let tol = t.of(TOL, 1e-5);
                let (rs, sps, f) = ctx.pick("cfg", &[(900usize, 48usize, 0.0417), (1, 12, 0.31234), (250_000, 6, 0.1234567)]);
                let fs = rs * sps;
                let fc = f * fs as f64;
                let n = total / sps;
                let msg = (0..2 * n).map(|i| bit_at(0, i));
                let key = [true, false, true];
                let w = |i: usize| (cosw(fc, fs, i), sinw(fc, fs, i));
                match ctx.choose("modem", 5) {
                    0 => stream_close(ctx, &format!("BPSK fs={fs} rs={rs} fc={fc}"), tx_bpsk_signal(msg.take(n), fs, rs, fc), n * sps, |i| nrz(bit_at(0, i / sps)) * w(i).0, tol),
                    1 => stream_close(ctx, &format!("QPSK fs={fs} rs={rs} fc={fc}"), tx_qpsk_signal(msg, fs, rs, fc), n * sps,
                        |i| nrz(bit_at(0, i / sps * 2)) * w(i).0 - nrz(bit_at(0, i / sps * 2 + 1)) * w(i).1, tol),
                    2 => stream_close(ctx, &format!("CDMA/BPSK fs={fs} rs={rs} fc={fc}"), tx_cdma_bpsk_signal(msg.take(n), fs, rs, fc, &key), n * sps,
                        |i| nrz(bit_at(0, i / sps)) * w(i).0 * nrz(key[i % sps / (sps / 3)]), tol),
                    3 => stream_close(ctx, &format!("CDMA/QPSK fs={fs} rs={rs} fc={fc}"), tx_cdma_qpsk_signal(msg, fs, rs, fc, &key), n * sps,
                        |i| (nrz(bit_at(0, i / sps * 2)) * w(i).0 - nrz(bit_at(0, i / sps * 2 + 1)) * w(i).1) * nrz(key[i % sps / (sps / 3)]), tol),
                    _ => {
                        let (sc, pl) = (16, 4);
                        let blocks = n / 20;
                        let bits = blocks * 24;
                        let mut base = tx_baseband_ofdm_signal(tx_baseband_qpsk_signal((0..bits).map(|i| bit_at(0, i))), sc, pl);
                        let mut z = Complex::new(0.0, 0.0);
                        let got = tx_ofdm_qpsk_signal((0..bits).map(|i| bit_at(0, i)), sc, pl, fs, rs, fc);
                        stream_close(ctx, &format!("OFDM fs={fs} rs={rs} fc={fc}"), got, blocks * 20 * sps, |i| {
                            if i % sps == 0 {
                                z = base.next().unwrap_or(Complex::new(f64::NAN, 0.0));
                            }
                            z.re * w(i).0 - z.im * w(i).1
                        }, tol)
                    }
                }
            }),
            scn("long-keys", "CDMA over both modems: keys of 513..4096 chips (thorough 16384), 2 and 3 samples per chip, 3 carriers, 6 bits", move |ctx| {
                let l: Vec<usize> = [600usize, 777, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 8191, 8192, 16384].into_iter().filter(|&x| x <= t.of(4096, 16384)).collect();
                let key = content(ctx.pick("l", &l) + 11)[11..].to_vec();
                let spc = ctx.pick("spc", &[2usize, 3]);
                let fc = ctx.pick("f", &[0.11, 0.25, 0.49]) * (spc * key.len() * 10) as f64;
                let q = ctx.choose("qpsk", 2) == 1;
                wave_cdma(ctx, &content(6), &key, spc, 10, fc, q)
            }),
            scn("rates", "every symbol rate 1..700 (thorough 6000) x 8 samples per symbol up to 12, and every even division of 18 usual sample rates: BPSK, QPSK and OFDM; CDMA over both modems with 1- and 3-chip keys of 2 and 5 samples per chip", move |ctx| {
                let (sps, rs) = ctx.pick("rate", rate_plans(t));
                let fs = sps * rs;
                let fc = 0.1234567 * fs as f64;
                match ctx.choose("modem", 5) {
                    0 => wave_bpsk(ctx, &content(8), fs, rs, fc),
                    1 => wave_qpsk(ctx, &content(12), fs, rs, fc),
                    2 => wave_ofdm(ctx, &content(10), 4, 1, fs, rs, fc),
                    m => {
                        let (l, q) = (ctx.pick("key", &[3usize, 1]), m == 4);
                        let spc = sps.div_ceil(l).max(2);
                        wave_cdma(ctx, &content(6), &content(l + 3)[3..], spc, rs, 0.1234567 * (spc * l * rs) as f64, q)
                    }
                }
            }),
            scn("long-chips", "CDMA over both modems: 5 keys of 1..64 chips of 1000..70001 samples each (at most 300,000 samples per symbol), 3 carriers, 4 bits", move |ctx| {
                let l = ctx.pick("key", &[1usize, 2, 3, 16, 64]);
                let spc = ctx.pick("spc", &[1000usize, 1024, 1025, 4095, 4100, 16_384, 21_846, 33_000, 65_536, 70_001]);
                let fx = ctx.pick("carrier", &[0.25f64, 0.1234567, 0.001]);
                let q = ctx.choose("modem", 2) == 1;
                if spc * l > 300_000 {
                    return Ok(());
                }
                wave_cdma(ctx, &content(4), &content(l + 3)[3..], spc, 3, fx * (spc * l * 3) as f64, q)
            }),
        ],
        &["samples are compared within 1e-6"],
    )
}

// ------------------------------------------------------------------ C36

/// Reference correlator. Returns per symbol the (I, Q) correlation sums.
fn correlate(x: &[f64], sps: usize, fs: usize, fc: f64, key: &[bool]) -> Vec<(f64, f64)> {
    let spc = sps / key.len();
    x.chunks_exact(sps)
        .enumerate()
        .map(|(k, c)| {
            let (mut i, mut q) = (0.0, 0.0);
            for (j, &v) in c.iter().enumerate() {
                let v = v * nrz(key[j / spc]);
                i += v * cosw(fc, fs, k * sps + j);
                q -= v * sinw(fc, fs, k * sps + j);
            }
            (i, q)
        })
        .collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Modem {
    B,
    Q,
    Cb,
    Cq,
}

fn decide_case(ctx: &mut Ctx, modem: Modem, x: &[f64], fs: usize, rs: usize, fc: f64, key: &[bool]) -> R {
    let sps = fs / rs;
    let one = [true];
    let k: &[bool] = if matches!(modem, Modem::B | Modem::Q) { &one } else { key };
    let c = correlate(x, sps, fs, fc, k);
    let it = x.to_vec().into_iter();
    let lim = 2 * c.len() + 3;
    let got = match modem {
        Modem::B => pull(rx_bpsk_signal(it, fs, rs, fc), lim)?,
        Modem::Q => pull(rx_qpsk_signal(it, fs, rs, fc), lim)?,
        Modem::Cb => pull(rx_cdma_bpsk_signal(it, fs, rs, fc, key), lim)?,
        Modem::Cq => pull(rx_cdma_qpsk_signal(it, fs, rs, fc, key), lim)?,
    };
    let flat: Vec<f64> = match modem {
        Modem::B | Modem::Cb => c.iter().map(|v| v.0).collect(),
        _ => c.iter().flat_map(|v| [v.0, v.1]).collect(),
    };
    ctx.step(got.len());
    ctx.observe(hash_bits(&got));
    ensure!(got.len() == flat.len(), "{modem:?} fs={fs} rs={rs} fc={fc}: {} bits for {} samples", got.len(), x.len());
    for (i, (&g, &w)) in got.iter().zip(flat.iter()).enumerate() {
        let s = i * sps / if flat.len() > c.len() { 2 } else { 1 } / sps;
        let scale: f64 = x[s * sps..(s + 1) * sps].iter().map(|v| v.abs()).sum();
        if w.abs() <= 1e-7 * scale {
            continue; // on the decision boundary either answer is right
        }
        ensure!(g == (w > 0.0), "{modem:?} fs={fs} rs={rs} fc={fc}: bit {i} is {g} although the correlation over its symbol is {w}");
    }
    Ok(())
}

pub fn c36(t: Tier) -> Set {
    let modems = [Modem::B, Modem::Q, Modem::Cb, Modem::Cq];
    (
        vec![
            scn("exhaustive", "every sequence of up to 8 samples over {1,-1,0,2.5}, sps 2..4, 3 carriers (BPSK and QPSK)", move |ctx| {
                let modem = ctx.pick("modem", &[Modem::B, Modem::Q]);
                let sps = ctx.pick("sps", &[2usize, 3, 4, 1]);
                let n = ctx.choose("n", t.of(9, 11));
                let mut v = ctx.choose("x", 4usize.pow(n as u32));
                let x: Vec<f64> = (0..n).map(|_| { let r = [1.0, -1.0, 0.0, 2.5][v % 4]; v /= 4; r }).collect();
                let fs = sps * 10;
                let fc = [0.0, 0.25, 0.11][ctx.choose("fc", 3)] * fs as f64;
                decide_case(ctx, modem, &x, fs, 10, fc, &[true])
            }),
            scn("exhaustive-cdma", "every sequence of up to 8 samples over {1,-1,0,2.5}, keys of 1..2 chips, 2 samples per chip", move |ctx| {
                let modem = ctx.pick("modem", &[Modem::Cb, Modem::Cq]);
                let key = ctx.pick("key", &[vec![true, false], vec![true], vec![false, false], vec![false]]);
                let sps = 2 * key.len();
                let n = ctx.choose("n", 9);
                let mut v = ctx.choose("x", 4usize.pow(n as u32));
                let x: Vec<f64> = (0..n).map(|_| { let r = [1.0, -1.0, 0.0, 2.5][v % 4]; v /= 4; r }).collect();
                decide_case(ctx, modem, &x, sps * 10, 10, 0.11 * (sps * 10) as f64, &key)
            }),
            scn("weights", "the decision weight of every sample: a transmission with one sample (each in turn) disturbed just below and just above the flipping point, 3 gains", move |ctx| {
                let modem = ctx.pick("modem", &modems);
                let l = match modem {
                    Modem::B | Modem::Q => {
                        let mut v: Vec<(usize, Vec<bool>)> = (2..=t.of(50, 100)).map(|s| (s, vec![true])).collect();
                        v.extend([64usize, 80, 100, 128, 256].map(|s| (s, vec![true])));
                        v
                    }
                    _ => {
                        let mut v = vec![];
                        for k in [vec![true, false], vec![false, true, true], content(4), content(8), content(16), content(5), content(32)] {
                            for spc in [2usize, 3, 4, 5, 8] {
                                v.push((spc * k.len(), k.clone()));
                            }
                        }
                        v
                    }
                };
                let (sps, key) = ctx.pick("shape", &l);
                let rs = 100;
                let fs = rs * sps;
                let fc = ctx.pick("fc", &[0.11, 0.25, 0.4, 2.0 / sps as f64]) * fs as f64;
                if fc > fs as f64 / 2.0 {
                    return Ok(());
                }
                let m = vec![true, false, false, true, true, false];
                let mut x: Vec<f64> = match modem {
                    Modem::B => tx_bpsk_signal(m.iter().cloned(), fs, rs, fc).take(6 * sps).collect(),
                    Modem::Q => tx_qpsk_signal(m.iter().cloned(), fs, rs, fc).take(6 * sps).collect(),
                    Modem::Cb => tx_cdma_bpsk_signal(m.iter().cloned(), fs, rs, fc, &key).take(6 * sps).collect(),
                    Modem::Cq => tx_cdma_qpsk_signal(m.iter().cloned(), fs, rs, fc, &key).take(6 * sps).collect(),
                };
                let p = ctx.choose("pos", 3 * sps);
                let on = ctx.choose("branch", if matches!(modem, Modem::B | Modem::Cb) { 1 } else { 2 });
                let side = ctx.pick("side", &[0.97, 1.03]);
                let gain = ctx.pick("gain", &[1.0, 1e-4, 1e4]);
                let kk = if matches!(modem, Modem::B | Modem::Q) { vec![true] } else { key.clone() };
                let c = correlate(&x, sps, fs, fc, &kk)[p / sps];
                let kc = nrz(kk[(p % sps) / (sps / kk.len())]);
                let (w, tot) = if on == 0 { (cosw(fc, fs, p) * kc, c.0) } else { (-sinw(fc, fs, p) * kc, c.1) };
                if w.abs() < 1e-3 {
                    return Ok(());
                }
                x[p] -= side * tot / w;
                for v in x.iter_mut() {
                    *v *= gain;
                }
                decide_case(ctx, modem, &x, fs, rs, fc, &key)
            }),
            scn("interference", "strong structured interference (16 shapes) over grids of sps, carriers and keys", move |ctx| {
                let modem = ctx.pick("modem", &modems);
                let key = if matches!(modem, Modem::B | Modem::Q) { vec![true] } else { ctx.pick("key", &keys_small()) };
                let spc = if key.len() == 1 { ctx.pick("spc", &sps_list(t)) } else { ctx.pick("spc", &[2usize, 3, 5, 8, 16]) };
                if spc < 2 {
                    return Ok(());
                }
                let sps = spc * key.len();
                let rs = 50;
                let fs = rs * sps;
                let fc = ctx.pick("fc", &[0.11, 0.25, 0.333, 0.02]) * fs as f64;
                let shape = ctx.choose("shape", 16);
                let n = 11 * sps + shape % 3; // sometimes an incomplete last symbol
                let x: Vec<f64> = (0..n)
                    .map(|i| {
                        let u = fnv([i as u64, shape as u64].into_iter()) as f64 / u64::MAX as f64 - 0.5;
                        match shape / 4 {
                            0 => u,
                            1 => 3.0 * u + nrz(content(12)[i / sps]) * cosw(fc, fs, i),
                            2 => 20.0 * u * ((i % 7 == 0) as u8 as f64) + cosw(fc * 1.1, fs, i),
                            _ => 1e3 * u + 400.0,
                        }
                    })
                    .collect();
                decide_case(ctx, modem, &x, fs, rs, fc, &key)
            }),
            scn("isolation", "one sample (each position of 4 symbols) replaced by an enormous, infinite or not-a-number value: every other symbol is decided by its own correlation as before", move |ctx| {
                let modem = ctx.pick("modem", &modems);
                let (sps, key) = match modem {
                    Modem::B | Modem::Q => (ctx.pick("sps", &[2usize, 3, 5, 8, 20]), vec![true]),
                    _ => {
                        let k = ctx.pick("key", &[vec![true, false], vec![false, true, true], content(8)]);
                        (k.len() * ctx.pick("spc", &[2usize, 3, 5]), k)
                    }
                };
                let (rs, fs) = (10, 10 * sps);
                let fc = 0.211 * fs as f64;
                let p = ctx.choose("pos", 4 * sps);
                let v = ctx.pick("v", &[f64::INFINITY, f64::NAN, 1e300, -f64::MAX, f64::NEG_INFINITY, 1e17]);
                let mut x: Vec<f64> = (0..4 * sps).map(|i| nrz(content(12)[i / sps + 2]) * cosw(fc, fs, i) - sinw(fc, fs, i) * nrz(i / sps % 2 == 0) + ((i * 7 % 5) as f64 - 2.0) * 0.2).collect();
                x[p] = v;
                let c = correlate(&x, sps, fs, fc, &key);
                let it = x.clone().into_iter();
                let (got, per) = match modem {
                    Modem::B => (pull(rx_bpsk_signal(it, fs, rs, fc), 20)?, 1),
                    Modem::Q => (pull(rx_qpsk_signal(it, fs, rs, fc), 20)?, 2),
                    Modem::Cb => (pull(rx_cdma_bpsk_signal(it, fs, rs, fc, &key), 20)?, 1),
                    Modem::Cq => (pull(rx_cdma_qpsk_signal(it, fs, rs, fc, &key), 20)?, 2),
                };
                ensure!(got.len() == 4 * per, "{modem:?}: {} bits for 4 symbols", got.len());
                ctx.step(got.len());
                for s in 0..4 {
                    for b in 0..per {
                        let w = if b == 0 { c[s].0 } else { c[s].1 };
                        if s != p / sps && w.abs() > 1e-6 {
                            ensure!(got[s * per + b] == (w > 0.0), "{modem:?} sps={sps}: {v} at sample {p} changes the decision on symbol {s}");
                        }
                    }
                }
                Ok(())
            }),
            scn("late", "random-looking reception of 2^20 samples (thorough 2^24): every symbol decided by its own correlation at its own time, 4 receivers x 3 configurations", move |ctx| {
                let modem = ctx.pick("modem", &modems);
                let key = if matches!(modem, Modem::B | Modem::Q) { vec![true] } else { vec![true, false, true] };
                let (sps, rs, f) = ctx.pick("cfg", &[(12usize, 1usize, 0.2345678), (48, 900, 0.0417), (6, 250_000, 0.41)]);
                let fs = sps * rs;
                let fc = f * fs as f64;
                let n = (1 << t.of(20, 24)) / sps * sps + 3;
                let x: Vec<f64> = (0..n).map(|i| (fnv([i as u64].into_iter()) >> 11) as f64 / (1u64 << 53) as f64 - 0.5).collect();
                decide_case(ctx, modem, &x, fs, rs, fc, &key)
            }),
            scn("long-symbols", "symbols of 67 to 10^5 samples: the disturbance that just flips or just does not flip the correlation put into the first, middle, last sample or spread over one half of the symbol", move |ctx| {
                let modem = ctx.pick("modem", &modems);
                let l: Vec<usize> = steps_to(t.of(100_001, 1_000_001)).into_iter().filter(|&s| s > 66).collect();
                let sps = ctx.pick("sps", &l);
                let key = if matches!(modem, Modem::B | Modem::Q) { vec![true] } else if sps % 2 == 0 { vec![false, true] } else { vec![false] };
                let rs = 3;
                let fs = rs * sps;
                let fc = ctx.pick("f", &[0.11, 0.25]) * fs as f64;
                let place = ctx.choose("place", 4);
                let side = ctx.pick("side", &[0.99, 1.01]);
                let on = ctx.choose("branch", if matches!(modem, Modem::B | Modem::Cb) { 1 } else { 2 });
                let wt = |i: usize| nrz(key[i % sps / (sps / key.len())]) * if on == 0 { cosw(fc, fs, i) } else { -sinw(fc, fs, i) };
                let mut x: Vec<f64> = (0..3 * sps).map(|i| nrz(i / sps != 1) * (cosw(fc, fs, i) - sinw(fc, fs, i)) * nrz(key[i % sps / (sps / key.len())])).collect();
                let c = correlate(&x, sps, fs, fc, &key)[1];
                let tot = if on == 0 { c.0 } else { c.1 };
                let range: Vec<usize> = match place {
                    0 => (sps..sps + 3).collect(),
                    1 => (sps + sps / 2..sps + sps / 2 + 3).collect(),
                    2 => (2 * sps - 3..2 * sps).collect(),
                    _ => (sps + sps / 2..2 * sps).collect(),
                };
                let p: f64 = range.iter().map(|&i| wt(i) * wt(i)).sum();
                for i in range {
                    x[i] -= side * tot * wt(i) / p;
                }
                decide_case(ctx, modem, &x, fs, rs, fc, &key)
            }),
            scn("rates", "every symbol rate 1..700 (thorough 6000) x 8 samples per symbol up to 12, and every even division of 18 usual sample rates (2 samples per symbol or more): a reception whose symbols have one strong sample each against the others", move |ctx| {
                let l = rate_plans_where(t, |s| s >= 2);
                let (sps, rs) = ctx.pick("rate", &l);
                let modem = ctx.pick("modem", &modems);
                let key = if matches!(modem, Modem::B | Modem::Q) || sps % 2 == 1 || sps < 4 { vec![true] } else { vec![false, true] };
                let fs = sps * rs;
                let fc = 0.1234567 * fs as f64;
                let x: Vec<f64> = (0..7 * sps + 1).map(|i| {
                    let strong = i % sps == (i / sps * 5) % sps;
                    nrz(i / sps % 3 == 0) * cosw(fc, fs, i) - if strong { 1.7 } else { 0.2 } * cosw(fc * 1.31, fs, i)
                }).collect();
                decide_case(ctx, modem, &x, fs, rs, fc, &key)
            }),
            scn("levels", "decisions do not depend on the strength of the reception: 24 gains from 10^-300 to 10^300 x 4 receivers x 6 shapes, and single strong symbols 10^12 above or below their neighbours", move |ctx| {
                let modem = ctx.pick("modem", &modems);
                let (sps, key) = match modem {
                    Modem::B | Modem::Q => (ctx.pick("sps", &[2usize, 3, 8, 49]), vec![true]),
                    _ => {
                        let k = ctx.pick("key", &[vec![true, false], vec![false, true, true], content(8)]);
                        (k.len() * ctx.pick("spc", &[2usize, 3, 5]), k)
                    }
                };
                let (rs, fs) = (10, 10 * sps);
                let fc = ctx.pick("f", &[0.211, 0.05]) * fs as f64;
                let gain = ctx.pick("gain", &[1e-9, 1e-7, 1e-6, 1e-5, 1e-3, 1e-12, 1e-15, 1e-16, 1e-20, 1e-30, 1e-38, 1e-45, 1e-100, 1e-300, 1e3, 1e6, 1e9, 1e12, 1e16, 1e30, 1e38, 1e40, 1e100, 1e300]);
                let shape = ctx.choose("shape", 8);
                let x: Vec<f64> = (0..8 * sps).map(|i| {
                    let k = i / sps;
                    let c = content(24);
                    let w = nrz(c[k]) * cosw(fc, fs, i) - nrz(c[k + 9]) * sinw(fc, fs, i);
                    let u = fnv([i as u64, shape as u64].into_iter()) as f64 / u64::MAX as f64 - 0.5;
                    let a = match shape { 0 => 1.0, 6 => if k == 3 { 1e-12 } else { 1.0 }, 7 => if k == 3 { 1.0 } else { 1e-12 }, _ => 1.0 };
                    let keyed = nrz(key[i % sps / (sps / key.len())]);
                    gain * a * (w * keyed + u * [0.0, 0.5, 1.0, 2.0, 5.0, 20.0, 0.1, 0.1][shape])
                }).collect();
                decide_case(ctx, modem, &x, fs, rs, fc, &key)
            }),
            scn("far", "2^24 + 2^12 samples (thorough 2^26) of a reception made as it is pulled, BPSK and QPSK receivers: every symbol decided by its own correlation at its own time", move |ctx| {
                let modem = ctx.pick("modem", &[Modem::B, Modem::Q]);
                let (sps, rs, f) = ctx.pick("cfg", &[(12usize, 1usize, 0.2345678), (48, 900, 0.0417)]);
                let fs = sps * rs;
                let fc = f * fs as f64;
                let n = ((1usize << t.of(24, 26)) + 4096) / sps;
                let s = |i: usize| (fnv([i as u64].into_iter()) >> 11) as f64 / (1u64 << 53) as f64 - 0.5;
                let src = (0..n * sps).map(s);
                let mut it: Box<dyn Iterator<Item = bool>> = if modem == Modem::B { Box::new(rx_bpsk_signal(src, fs, rs, fc)) } else { Box::new(rx_qpsk_signal(src, fs, rs, fc)) };
                for k in 0..n {
                    let (mut a, mut b) = (0.0, 0.0);
                    for i in k * sps..(k + 1) * sps {
                        let v = s(i);
                        a += v * cosw(fc, fs, i);
                        if modem == Modem::Q {
                            b -= v * sinw(fc, fs, i);
                        }
                    }
                    for w in if modem == Modem::B { vec![a] } else { vec![a, b] } {
                        let g = it.next();
                        ensure!(g.is_some(), "{modem:?} fs={fs}: the reception ends at symbol {k} of {n}");
                        ensure!(w.abs() < 1e-4 || g == Some(w > 0.0), "{modem:?} fs={fs} rs={rs} fc={fc}: symbol {k} decided {g:?} although its correlation is {w}");
                    }
                }
                ctx.step(n);
                Ok(())
            }),
        ],
        &["a correlation within 1e-7 of zero (relative to the received magnitude) may be decided either way"],
    )
}
