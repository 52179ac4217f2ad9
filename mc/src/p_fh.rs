//! C19 C20 C21: frequency hopping and chirps.
use crate::core::*;
use crate::p_iter::Set;
use crate::p_psk::{cosw, long_symbols, nrz, rate_plans, sps_list};
use crate::{ensure, Tier};
use komunikilo::fh::*;
use komunikilo::fh_css::*;
use std::f64::consts::PI;

fn rt(ctx: &mut Ctx, m: &[bool], lo: f64, hi: f64, nf: usize, fs: usize, rs: usize) -> R {
    let sps = fs / rs;
    let what = format!("FH-BPSK band {lo}..{hi} of {nf} frequencies fs={fs} rs={rs} message {}", bstr(m));
    let tx = pull(tx_fh_bpsk_signal(m.iter().cloned(), lo, hi, nf, fs, rs), m.len() * sps + 1)?;
    ensure!(tx.len() == m.len() * sps, "{what}: {} samples instead of {}", tx.len(), m.len() * sps);
    let rx = pull(rx_fh_bpsk_signal(tx.into_iter(), lo, hi, nf, fs, rs), m.len() + 1)?;
    same_bits(ctx, &what, &rx, m)
}

fn bands(fs: f64) -> Vec<(f64, f64)> {
    vec![(0.02 * fs, 0.05 * fs), (0.0, 0.5 * fs), (0.1 * fs, 0.4 * fs), (0.4999 * fs, 0.5 * fs), (0.25 * fs, 0.25 * fs), (0.0, 0.0), (0.0, 0.001 * fs), (0.123 * fs, 0.3456 * fs)]
}

pub fn c19(t: Tier) -> Set {
    (
        vec![
            scn("grid", "hop frequency counts 1..20 and larger x 8 bands x samples-per-symbol list x 3 symbol rates; content of 70 bits", move |ctx| {
                let mut l: Vec<usize> = (1..=20).collect();
                l.extend([31, 32, 33, 64, 100, 128, 256]);
                let nf = ctx.pick("nf", &l);
                let sps = ctx.pick("sps", &sps_list(t));
                let rs = ctx.pick("rs", &[900usize, 1, 3]);
                let fs = sps * rs;
                let (lo, hi) = ctx.pick("band", &bands(fs as f64));
                if nf > 20 && sps > 130 {
                    return Ok(());
                }
                rt(ctx, &content(70), lo, hi, nf, fs, rs)
            }),
            scn("messages", "all messages up to 10 bits, every length 0..200 in 6 patterns x hop counts 1..9 x 2 rates", move |ctx| {
                let nf = 1 + ctx.choose("nf", 9);
                let (fs, rs) = ctx.pick("rate", &[(4410usize, 90usize), (30, 10)]);
                let lens: Vec<usize> = (0..200).collect();
                let m = message(ctx, t.of(10, 13), &lens, PATTERNS);
                rt(ctx, &m, 0.1 * fs as f64, 0.4 * fs as f64, nf, fs, rs)
            }),
            scn("long", "up to 2^15 bits (thorough 2^18), hop counts 1,2,3,16,1000", move |ctx| {
                let nf = ctx.pick("nf", &[16usize, 1, 2, 3, 1000]);
                let n = ctx.pick("n", &ladder(9, t.of(15, 18)));
                let p = ctx.choose("pattern", 2);
                rt(ctx, &pattern(p, n), 1000.0, 2000.0, nf, 10000, 1000)
            }),
            scn("counts", "every hop frequency count 1..300 (thorough 1100) and 10 up to 65537, content of a block and a half (at most 2000 bits), 3 bands, 2 rates", move |ctx| {
                let mut l: Vec<usize> = (1..=t.of(300, 1100)).collect();
                l.extend([511, 512, 513, 1000, 1024, 4096, 10_000, 32_768, 65_536, 65_537]);
                let nf = ctx.pick("nf", &l);
                let (fs, rs) = ctx.pick("rate", &[(7usize * 300, 300usize), (48, 2)]);
                let f = fs as f64;
                let (lo, hi) = ctx.pick("band", &[(0.05 * f, 0.45 * f), (0.0, 0.5 * f), (0.2499 * f, 0.25 * f)]);
                rt(ctx, &content((nf + nf / 2).min(2000)), lo, hi, nf, fs, rs)
            }),
            scn("long-symbols", "round-number samples per symbol from 67 to 10^5 (thorough 10^6) and enormous rates x hop counts 1,3,16 x 3 bands, 9 bits", move |ctx| {
                let (sps, rs) = ctx.pick("shape", &long_symbols(t));
                let nf = ctx.pick("nf", &[1usize, 3, 16]);
                let f = (sps * rs) as f64;
                let (lo, hi) = ctx.pick("band", &[(0.1 * f, 0.4 * f), (0.0, 0.5 * f), (rs as f64 * 1.3, rs as f64 * 1.7)]);
                if hi > f / 2.0 {
                    return Ok(());
                }
                rt(ctx, &content(9), lo, hi, nf, sps * rs, rs)
            }),
            scn("far", "2^21 + 2^10 bits (thorough 2^24) streamed through transmitter and receiver, hop counts 1,2,7,64,300", move |ctx| {
                let nf = ctx.pick("nf", &[7usize, 1, 2, 64, 300]);
                let n = (1usize << t.of(21, 24)) + (1 << 10);
                let (fs, rs) = ctx.pick("rate", &[(8usize, 1usize), (9000, 900)]);
                let f = fs as f64;
                let (lo, hi) = (0.1 * f, 0.4 * f);
                let rx = rx_fh_bpsk_signal(tx_fh_bpsk_signal((0..n).map(|i| bit_at(0, i)), lo, hi, nf, fs, rs), lo, hi, nf, fs, rs);
                stream_bits(ctx, &format!("FH-BPSK of {nf} frequencies fs={fs} rs={rs} long stream"), rx, n, |i| bit_at(0, i))
            }),
            scn("sources", "8 differently shaped sources, every length 0..40 x hop counts 1,2,5,16", move |ctx| {
                let shape = ctx.choose("shape", SHAPES);
                let n = ctx.choose("n", 41);
                let nf = ctx.pick("nf", &[1usize, 2, 5, 16]);
                let (fs, rs) = ctx.pick("rate", &[(44100usize, 900usize), (30, 10)]);
                let (lo, hi) = (0.1 * fs as f64, 0.4 * fs as f64);
                let m = content(n);
                let tx = pull(tx_fh_bpsk_signal(shaped(m.clone(), shape), lo, hi, nf, fs, rs), n * (fs / rs) + 1)?;
                let rx = pull(rx_fh_bpsk_signal(shaped(tx, shape), lo, hi, nf, fs, rs), n + 1)?;
                same_bits(ctx, &format!("FH-BPSK of {nf} frequencies, source shape {shape}"), &rx, &m)
            }),
            scn("bands", "21 x 21 band edges across 0 to half the sample rate (also equal, very close, fractional) x hop counts 1..8 x 4 rates, content of 20 bits", move |ctx| {
                let (fs, rs) = ctx.pick("rate", &[(44100usize, 900usize), (20, 2), (9, 3), (1_000_000, 100_000)]);
                let f = fs as f64;
                let e: Vec<f64> = (0..=20).map(|i| if i % 5 == 3 { (i as f64 / 40.0 + 0.00123) * f } else { i as f64 / 40.0 * f }).collect();
                let lo = ctx.pick("lo", &e);
                let hi = ctx.pick("hi", &e);
                let nf = 1 + ctx.choose("nf", 8);
                if hi < lo {
                    return Ok(());
                }
                rt(ctx, &content(20), lo, hi, nf, fs, rs)
            }),
            scn("rates", "every symbol rate 1..700 (thorough 6000) x 8 samples per symbol up to 12, and every even division of 18 usual sample rates, hop counts 1, 2 and 5, 2 bands: 9 bits", move |ctx| {
                let (sps, rs) = ctx.pick("rate", rate_plans(t));
                let nf = ctx.pick("nf", &[5usize, 1, 2]);
                let f = (sps * rs) as f64;
                let (lo, hi) = ctx.pick("band", &[(0.1 * f, 0.4 * f), (0.0, 0.5 * f)]);
                rt(ctx, &content(9), lo, hi, nf, sps * rs, rs)
            }),
        ],
        &["no noise between transmitter and receiver"],
    )
}

// ------------------------------------------------------------------ C20

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hop {
    Bpsk,
    Css,
}

fn chirp_at(fs: usize, sps: usize, f0: f64, f1: f64, j: usize) -> f64 {
    let t = j as f64 / fs as f64;
    let k = (f1 - f0) * fs as f64 / sps as f64;
    (2.0 * PI * (f0 + k * t / 2.0) * t).cos()
}

/// The waveform of one symbol at hop index k.
fn symbol(kind: Hop, bit: bool, lo: f64, hi: f64, nf: usize, k: usize, fs: usize, sps: usize, j: usize) -> f64 {
    let w = (hi - lo) / nf as f64;
    let f = lo + k as f64 * w;
    match kind {
        Hop::Bpsk => nrz(bit) * cosw(f, fs, j),
        Hop::Css => {
            if bit {
                chirp_at(fs, sps, f - w / 2.0, f + w / 2.0, j)
            } else {
                chirp_at(fs, sps, f + w / 2.0, f - w / 2.0, j)
            }
        }
    }
}

/// Identify the hop index of every symbol by its waveform.
fn hops(ctx: &mut Ctx, kind: Hop, m: &[bool], lo: f64, hi: f64, nf: usize, fs: usize, rs: usize) -> Result<Vec<usize>, String> {
    ctx.step(m.len() * (fs / rs));
    let h = hops_plain(kind, m, lo, hi, nf, fs, rs)?;
    ctx.observe(fnv(h.iter().map(|&k| k as u64)));
    Ok(h)
}
fn hops_plain(kind: Hop, m: &[bool], lo: f64, hi: f64, nf: usize, fs: usize, rs: usize) -> Result<Vec<usize>, String> {
    let sps = fs / rs;
    let lim = m.len() * sps + 1;
    let it = m.to_vec().into_iter();
    let x = match kind {
        Hop::Bpsk => pull(tx_fh_bpsk_signal(it, lo, hi, nf, fs, rs), lim)?,
        Hop::Css => pull(tx_fh_css_signal(it, fs, rs, lo, hi, nf), lim)?,
    };
    let what = format!("{kind:?} band {lo}..{hi} of {nf} frequencies fs={fs} rs={rs}");
    ensure!(x.len() == m.len() * sps, "{what}: {} samples instead of {}", x.len(), m.len() * sps);
    // all candidates, computed once when that pays, and found by the value of an early sample
    let table: Vec<Vec<f64>> = if (m.len() > 3 * nf || m.len() > 600) && nf * sps <= 1 << 24 {
        (0..2 * nf).map(|w| (0..sps).map(|j| symbol(kind, w % 2 == 1, lo, hi, nf, w / 2, fs, sps, j)).collect()).collect()
    } else {
        vec![]
    };
    let at = |bit: bool, k: usize, j: usize| if table.is_empty() { symbol(kind, bit, lo, hi, nf, k, fs, sps, j) } else { table[2 * k + bit as usize][j] };
    let probe = 1.min(sps - 1);
    let index: Vec<Vec<(f64, usize)>> = [false, true]
        .iter()
        .map(|&bit| {
            let mut v: Vec<(f64, usize)> = (0..nf).map(|k| (at(bit, k, probe), k)).collect();
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            v
        })
        .collect();
    let mut out = vec![];
    for (s, c) in x.chunks(sps).enumerate() {
        let mut found = None;
        let list = &index[m[s] as usize];
        let from = list.partition_point(|e| e.0 < c[probe] - 1e-7);
        for &(v, k) in &list[from..] {
            if v > c[probe] + 1e-7 {
                break;
            }
            if (0..sps).all(|j| (c[j] - at(m[s], k, j)).abs() < 1e-7) {
                ensure!(found.is_none(), "harness: hop frequencies {found:?} and {k} cannot be told apart in {what}");
                found = Some(k);
            }
        }
        match found {
            Some(k) => out.push(k),
            None => return Err(format!("{what}: symbol {s} (bit {}) is not sent on any of the {nf} hop frequencies", m[s])),
        }
    }
    Ok(out)
}

fn once_per_block(h: &[usize], nf: usize, what: &str) -> R {
    for (b, c) in h.chunks(nf).enumerate() {
        let mut seen = vec![false; nf];
        for &k in c {
            ensure!(!seen[k], "{what}: block {b} uses hop frequency {k} twice: {c:?}");
            seen[k] = true;
        }
    }
    if nf >= 3 && h.len() >= 12 * nf {
        let first = &h[..nf];
        ensure!(h.chunks_exact(nf).any(|c| c != first), "{what}: the same order repeats in all {} blocks", h.len() / nf);
    }
    Ok(())
}

pub fn c20(t: Tier) -> Set {
    (
        vec![
            scn("blocks", "FH-BPSK and FH-CSS x hop counts 1..40 and larger x 4 bands x 2 rates: 20 blocks each", move |ctx| {
                let kind = ctx.pick("kind", &[Hop::Bpsk, Hop::Css]);
                let mut l: Vec<usize> = (1..=t.of(40, 80)).collect();
                l.extend([48, 63, 64, 65, 100, 128]);
                let nf = ctx.pick("nf", &l);
                let (fs, rs) = ctx.pick("rate", &[(44100usize, 900usize), (64000, 1000)]);
                let f = fs as f64;
                let (lo, hi) = ctx.pick("band", &[(1000.0, 20000.0), (0.0, f / 2.0), (5000.0, 15000.0), (f / 10.0, f / 2.0)]);
                let n = nf * t.of(20, 40);
                let m = content(n);
                let h = hops(ctx, kind, &m, lo, hi, nf, fs, rs)?;
                let what = format!("{kind:?} {nf} hop frequencies");
                ctx.note(|| format!("{what}: {:?}", &h[..h.len().min(40)]));
                once_per_block(&h, nf, &what)
            }),
            scn("message-independence", "hop counts 1..9: all messages up to 8 bits and every length 1..60 in 6 patterns follow one pattern", move |ctx| {
                let kind = ctx.pick("kind", &[Hop::Bpsk, Hop::Css]);
                let nf = 1 + ctx.choose("nf", 9);
                let lens: Vec<usize> = (1..60).collect();
                let m = message(ctx, t.of(8, 10), &lens, PATTERNS);
                let a = hops(ctx, kind, &m, 1000.0, 20000.0, nf, 44100, 900)?;
                let b = hops(ctx, kind, &pattern(1, m.len() + 20), 1000.0, 20000.0, nf, 44100, 900)?;
                ensure!(a[..] == b[..a.len()], "{kind:?} {nf} hop frequencies: message {} hops {a:?}, another message {b:?}", bstr(&m));
                once_per_block(&a, nf, &format!("{kind:?} {nf} hop frequencies"))
            }),
            scn("parameters", "the pattern of hop indices only depends on documented parameters: each transmission repeated gives the same pattern, 12 rates x hop counts 2..12", move |ctx| {
                let kind = ctx.pick("kind", &[Hop::Bpsk, Hop::Css]);
                let nf = 2 + ctx.choose("nf", 11);
                let sps = ctx.pick("sps", &[8usize, 10, 12, 16, 20, 25, 32, 49, 50, 64, 80, 100]);
                let rs = ctx.pick("rs", &[1usize, 900]);
                let fs = sps * rs;
                let m = content(13 * nf);
                let a = hops(ctx, kind, &m, 0.1 * fs as f64, 0.45 * fs as f64, nf, fs, rs)?;
                let b = hops(ctx, kind, &m, 0.1 * fs as f64, 0.45 * fs as f64, nf, fs, rs)?;
                ensure!(a == b, "{kind:?} {nf} hop frequencies: two transmissions with the same parameters hop differently");
                once_per_block(&a, nf, &format!("{kind:?} {nf} hop frequencies sps={sps}"))
            }),
            scn("long", "long transmissions: 2^12 blocks (thorough 2^14) for 1..9 hop frequencies", move |ctx| {
                let kind = ctx.pick("kind", &[Hop::Bpsk, Hop::Css]);
                let nf = 1 + ctx.choose("nf", 9);
                let n = nf << t.of(12, 14);
                let h = hops(ctx, kind, &content(n), 1000.0, 9000.0, nf, 20000, 1000)?;
                once_per_block(&h, nf, &format!("{kind:?} {nf} hop frequencies"))
            }),
            scn("counts", "every hop count 41..300 (thorough 600): 13 blocks each; 13 up to 100000: 2 blocks", move |ctx| {
                let kind = ctx.pick("kind", &[Hop::Bpsk, Hop::Css]);
                let mut l: Vec<usize> = (41..=t.of(300, 600)).collect();
                l.extend([640, 1000, 1023, 1024, 2048, 4096, 5000, 8192, 10_000, 16_384, 32_768, 65_537, 100_000]);
                let nf = ctx.pick("nf", &l);
                let sps = if nf > 9000 { 64 } else if nf > 700 { 2000 } else { 256 };
                let (fs, lo, hi) = (sps * 1000, 0.05 * (sps * 1000) as f64, 0.45 * (sps * 1000) as f64);
                let h = hops(ctx, kind, &content(nf * if nf > 700 { 2 } else { 13 }), lo, hi, nf, fs, 1000)?;
                once_per_block(&h, nf, &format!("{kind:?} {nf} hop frequencies"))
            }),
            scn("far", "2^17 symbols (thorough 2^21) of one transmission, hop counts 2,3,5,16: once per block throughout; no order repeated for ever", move |ctx| {
                let kind = ctx.pick("kind", &[Hop::Bpsk, Hop::Css]);
                let nf = ctx.pick("nf", &[2usize, 3, 5, 16]);
                let n = (1usize << t.of(17, 21)) / nf * nf;
                let h = hops(ctx, kind, &content(n), 1000.0, 9000.0, nf, 24000, 1000)?;
                let what = format!("{kind:?} {nf} hop frequencies");
                once_per_block(&h, nf, &what)?;
                // not one order repeated for ever, from any point on
                if nf >= 3 {
                    let tail: Vec<&[usize]> = h.chunks_exact(nf).collect();
                    let (k, last) = (tail.len(), tail[tail.len() - 1]);
                    ensure!(tail[k - 200..].iter().any(|c| *c != last), "{what}: the same order repeats in the last 200 of {k} blocks");
                }
                Ok(())
            }),
            scn("same-pattern", "separate transmissions of one plan (also started on other threads, after other plans ran, and of other lengths) hop alike: hop counts 2..24 x 6 histories", move |ctx| {
                let kind = ctx.pick("kind", &[Hop::Bpsk, Hop::Css]);
                let nf = 2 + ctx.choose("nf", 23);
                let (fs, rs, lo, hi) = (64000usize, 1000usize, 3000.0, 29000.0);
                let m = content(14 * nf);
                let a = hops(ctx, kind, &m, lo, hi, nf, fs, rs)?;
                let other = |k: usize| {
                    let it = content(1000).into_iter();
                    match kind {
                        Hop::Bpsk => tx_fh_bpsk_signal(it, lo, hi, k, fs, rs).take(7777).count(),
                        Hop::Css => tx_fh_css_signal(it, fs, rs, lo, hi, k).take(7777).count(),
                    }
                };
                let b = match ctx.choose("history", 6) {
                    0 => hops(ctx, kind, &m, lo, hi, nf, fs, rs)?,
                    1 => {
                        other(nf);
                        hops(ctx, kind, &m, lo, hi, nf, fs, rs)?
                    }
                    2 => {
                        other(nf + 1);
                        hops(ctx, kind, &pattern(3, m.len()), lo, hi, nf, fs, rs)?
                    }
                    3 => {
                        std::thread::scope(|s| s.spawn(|| other(3)).join().unwrap());
                        hops(ctx, kind, &pattern(2, m.len()), lo, hi, nf, fs, rs)?
                    }
                    4 => std::thread::scope(|s| {
                        let m = &m;
                        s.spawn(move || { other(nf); hops_plain(kind, m, lo, hi, nf, fs, rs) }).join().unwrap()
                    })?,
                    _ => {
                        let long = hops(ctx, kind, &content(m.len() * 5), lo, hi, nf, fs, rs)?;
                        long[..a.len()].to_vec()
                    }
                };
                ensure!(a == b, "{kind:?} {nf} hop frequencies: two transmissions with the same parameters hop differently");
                once_per_block(&a, nf, &format!("{kind:?} {nf} hop frequencies"))
            }),
            scn("rates", "every symbol rate 1..700 (thorough 6000) at 16 samples per symbol and every even division (12 to 300 samples per symbol) of 18 usual sample rates, 2 and 4 hop frequencies: 3 blocks", move |ctx| {
                let kind = ctx.pick("kind", &[Hop::Bpsk, Hop::Css]);
                let mut l: Vec<(usize, usize)> = (1..=t.of(700, 6000)).map(|rs| (16usize, rs)).collect();
                l.extend(rate_plans(t).iter().cloned().filter(|r| r.0 > 12 && r.0 <= 300));
                let (sps, rs) = ctx.pick("rate", &l);
                let nf = ctx.pick("nf", &[4usize, 2]);
                let f = (sps * rs) as f64;
                let h = hops(ctx, kind, &content(3 * nf), 0.1 * f, 0.45 * f, nf, sps * rs, rs)?;
                once_per_block(&h, nf, &format!("{kind:?} {nf} hop frequencies sps={sps} rs={rs}"))
            }),
        ],
        &["hop frequencies are identified by comparing every sample of the symbol with the waveform of every candidate frequency (tolerance 1e-7)"],
    )
}

// ------------------------------------------------------------------ C21

fn chirp_ref(rate: f64, fs: usize, f0: f64, f1: f64) -> Vec<f64> {
    let n = (fs as f64 / rate).round() as usize;
    (0..n)
        .map(|i| {
            let t = i as f64 / fs as f64;
            (2.0 * PI * (f0 + (f1 - f0) * rate * t / 2.0) * t).cos()
        })
        .collect()
}

pub fn c21(t: Tier) -> Set {
    const TOL: f64 = 1e-6;
    (
        vec![
            scn("linear", "linear_chirp: samples per chirp list and large x 5 rates x 36 frequency pairs (up, down, flat, through zero)", move |ctx| {
                let mut l = sps_list(t);
                l.extend([4096, 44100, 100_000]);
                let n = ctx.pick("n", &l);
                let rate = ctx.pick("rate", &[900.0, 1.0, 0.5, 2.5, 1000.0]);
                let fs = (n as f64 * rate) as usize;
                if fs == 0 || fs as f64 / rate != n as f64 {
                    return Ok(());
                }
                let fr = [0.0, 0.1, 0.25, 0.5, 0.333, -0.2].map(|x| x * fs as f64);
                let f0 = ctx.pick("f0", &fr);
                let f1 = ctx.pick("f1", &fr);
                let got = pull(linear_chirp(rate, fs, f0, f1), n + 1)?;
                close(ctx, &format!("chirp rate={rate} fs={fs} f0={f0} f1={f1}"), &got, &chirp_ref(rate, fs, f0, f1), TOL)
            }),
            scn("centred", "centred up- and down-chirps: samples per chirp list x 3 rates x 5 centres x 5 bandwidths", move |ctx| {
                let n = ctx.pick("n", &sps_list(t));
                let rate = ctx.pick("rate", &[900.0, 1.0, 2.5]);
                let fs = (n as f64 * rate) as usize;
                if fs == 0 || fs as f64 / rate != n as f64 {
                    return Ok(());
                }
                let c = ctx.pick("centre", &[0.25, 0.1, 0.0, 0.4, 0.37]) * fs as f64;
                let b = ctx.pick("bandwidth", &[0.1, 0.0, 0.2, 0.5, 0.013]) * fs as f64;
                if ctx.choose("dir", 2) == 0 {
                    let got = pull(linear_upchirp_centered(rate, c, b, fs), n + 1)?;
                    close(ctx, &format!("up-chirp rate={rate} fs={fs} centre={c} bandwidth={b}"), &got, &chirp_ref(rate, fs, c - b / 2.0, c + b / 2.0), TOL)
                } else {
                    let got = pull(linear_downchirp_centered(rate, c, b, fs), n + 1)?;
                    close(ctx, &format!("down-chirp rate={rate} fs={fs} centre={c} bandwidth={b}"), &got, &chirp_ref(rate, fs, c + b / 2.0, c - b / 2.0), TOL)
                }
            }),
            scn("css-single", "FH-CSS with one hop frequency (every sample predicted): samples-per-symbol list x 3 symbol rates x 6 bands; content of 30 bits", move |ctx| {
                let sps = ctx.pick("sps", &sps_list(t));
                let rs = ctx.pick("rs", &[900usize, 1, 3]);
                let fs = sps * rs;
                let f = fs as f64;
                let (lo, hi) = ctx.pick("band", &[(0.1 * f, 0.3 * f), (0.0, 0.5 * f), (0.2 * f, 0.2 * f), (0.05 * f, 0.06 * f), (0.123 * f, 0.456 * f), (0.4 * f, 0.5 * f)]);
                let m = content(30);
                let got = pull(tx_fh_css_signal(m.iter().cloned(), fs, rs, lo, hi, 1), 30 * sps + 1)?;
                let want: Vec<f64> = (0..30 * sps).map(|i| symbol(Hop::Css, m[i / sps], lo, hi, 1, 0, fs, sps, i % sps)).collect();
                close(ctx, &format!("FH-CSS band {lo}..{hi} fs={fs} rs={rs}"), &got, &want, TOL)
            }),
            scn("css-messages", "FH-CSS: all messages up to 9 bits, every length 0..100 in 6 patterns x hop counts 1..6: every symbol is the chirp of its bit on one of the hop frequencies", move |ctx| {
                let nf = 1 + ctx.choose("nf", 6);
                let lens: Vec<usize> = (0..100).collect();
                let m = message(ctx, t.of(9, 12), &lens, PATTERNS);
                hops(ctx, Hop::Css, &m, 1000.0, 20000.0, nf, 44100, 900).map(|_| ())
            }),
            scn("css-grid", "FH-CSS: hop counts 1..20 x 30 sample-per-symbol values x 3 symbol rates x 4 bands, content of 50 bits", move |ctx| {
                let nf = 1 + ctx.choose("nf", 20);
                let sps = ctx.pick("sps", &[8usize, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 48, 49, 50, 63, 64, 65, 80, 100, 128, 200, 256, 441, 1000]);
                let rs = ctx.pick("rs", &[900usize, 1, 48]);
                let fs = sps * rs;
                let f = fs as f64;
                let (lo, hi) = ctx.pick("band", &[(0.1 * f, 0.4 * f), (0.02 * f, 0.48 * f), (0.2 * f, 0.45 * f), (0.05 * f, 0.3 * f)]);
                hops(ctx, Hop::Css, &content(50), lo, hi, nf, fs, rs).map(|_| ())
            }),
            scn("long-chirps", "chirps of round-number lengths from 67 to 10^6 samples (thorough 10^7) x 5 rates x 5 frequency pairs, all three functions", move |ctx| {
                let l: Vec<usize> = steps_to(t.of(1_000_001, 10_000_001)).into_iter().filter(|&x| x > 66).collect();
                let n = ctx.pick("n", &l);
                let rate = ctx.pick("rate", &[1.0, 900.0, 0.25, 0.125, 1.5]);
                let fs = (n as f64 * rate) as usize;
                if fs == 0 || fs as f64 / rate != n as f64 {
                    return Ok(());
                }
                let f = fs as f64;
                let (f0, f1) = ctx.pick("sweep", &[(0.0, 0.5), (0.45, 0.05), (0.2, 0.2), (0.123, 0.124), (1.0 / n as f64, 3.0 / n as f64)]);
                let (f0, f1) = (f0 * f, f1 * f);
                let it: Box<dyn Iterator<Item = f64>> = match ctx.choose("fn", 2) {
                    0 => Box::new(linear_chirp(rate, fs, f0, f1)),
                    _ if f1 >= f0 => Box::new(linear_upchirp_centered(rate, (f0 + f1) / 2.0, f1 - f0, fs)),
                    _ => Box::new(linear_downchirp_centered(rate, (f0 + f1) / 2.0, f0 - f1, fs)),
                };
                stream_close(ctx, &format!("chirp of {n} samples rate={rate} fs={fs} from {f0} to {f1}"), it, n, |i| {
                    let t = i as f64 / f;
                    (2.0 * PI * (f0 + (f1 - f0) * rate * t / 2.0) * t).cos()
                }, if n > 2_000_000 { 1e-5 } else { TOL })
            }),
            scn("fractional", "chirp rates that are not whole numbers: 1/7, 0.1, 0.3, 12.5, 29.97, 1/3 ... x 9 periods with a whole number of samples x 4 sweeps", move |ctx| {
                let n = ctx.pick("n", &[7usize, 8, 50, 100, 441, 1000, 4096, 10_000, 48_000]);
                let fs = ctx.pick("fs", &[1usize, 10, 1000, 44_100, 48_000, 2_400_000]);
                // the rate whose period holds n samples; only where the quotient is exact in floating point
                let rate = fs as f64 / n as f64;
                if fs as f64 / rate != n as f64 {
                    return Ok(());
                }
                let f = fs as f64;
                let (f0, f1) = ctx.pick("sweep", &[(0.0, 0.5), (0.45, 0.05), (0.2, 0.2), (-0.1, 0.1)]);
                let (f0, f1) = (f0 * f, f1 * f);
                let got = pull(linear_chirp(rate, fs, f0, f1), n + 1)?;
                let want: Vec<f64> = (0..n).map(|i| { let t = i as f64 / f; (2.0 * PI * (f0 + (f1 - f0) * rate * t / 2.0) * t).cos() }).collect();
                close(ctx, &format!("chirp rate={rate} fs={fs} from {f0} to {f1}"), &got, &want, TOL)
            }),
            scn("css-long-symbols", "FH-CSS: round-number samples per symbol from 67 to 10^5 (thorough 10^6) and enormous rates, one hop frequency (every sample predicted), 4 bits", move |ctx| {
                let (sps, rs) = ctx.pick("shape", &long_symbols(t));
                let fs = sps * rs;
                let f = fs as f64;
                let (lo, hi) = ctx.pick("band", &[(0.1 * f, 0.3 * f), (0.0, 0.5 * f), (0.123 * f, 0.456 * f)]);
                let m = [true, false, false, true];
                let it = tx_fh_css_signal(m.into_iter(), fs, rs, lo, hi, 1);
                stream_close(ctx, &format!("FH-CSS band {lo}..{hi} fs={fs} rs={rs}"), it, 4 * sps, |i| symbol(Hop::Css, m[i / sps], lo, hi, 1, 0, fs, sps, i % sps), TOL)
            }),
            scn("css-far", "FH-CSS: 2^24 + 2^14 samples (thorough 2^27) of one transmission with one hop frequency, every sample compared; 2^15 symbols on 4 and 9 frequencies", move |ctx| {
                let total = (1usize << t.of(24, 27)) + (1 << 14);
                match ctx.choose("cfg", 4) {
                    c @ 0..=1 => {
                        let (fs, rs) = [(12usize, 1usize), (44100, 900)][c];
                        let sps = fs / rs;
                        let n = total / sps;
                        let (lo, hi) = (0.1 * fs as f64, 0.4 * fs as f64);
                        let it = tx_fh_css_signal((0..n).map(|i| bit_at(0, i)), fs, rs, lo, hi, 1);
                        let table: Vec<Vec<f64>> = [false, true].iter().map(|&b| (0..sps).map(|j| symbol(Hop::Css, b, lo, hi, 1, 0, fs, sps, j)).collect()).collect();
                        stream_close(ctx, &format!("FH-CSS long stream fs={fs} rs={rs}"), it, n * sps, |i| table[bit_at(0, i / sps) as usize][i % sps], TOL)
                    }
                    c => hops(ctx, Hop::Css, &content(total >> 9), 1000.0, 9000.0, [4, 9][c - 2], 24000, 1000).map(|_| ()),
                }
            }),
            scn("css-counts", "FH-CSS: hop counts 21..200 (thorough 600) x 2 bands, 2 samples-per-symbol, a block and a half", move |ctx| {
                let nf = 21 + ctx.choose("nf", t.of(180, 580));
                let sps = ctx.pick("sps", &[256usize, 500]);
                let fs = sps * 900;
                let f = fs as f64;
                let (lo, hi) = ctx.pick("band", &[(0.05 * f, 0.45 * f), (0.02 * f, 0.48 * f)]);
                hops(ctx, Hop::Css, &content(nf + nf / 2), lo, hi, nf, fs, 900).map(|_| ())
            }),
            scn("css-sources", "FH-CSS from 8 differently shaped sources, every length 0..40, hop counts 1 and 3", move |ctx| {
                let shape = ctx.choose("shape", SHAPES);
                let n = ctx.choose("n", 41);
                let nf = ctx.pick("nf", &[1usize, 3]);
                let a = pull(tx_fh_css_signal(shaped(content(n), shape), 44100, 900, 1000.0, 20000.0, nf), 49 * n + 1)?;
                let b = pull(tx_fh_css_signal(content(n).into_iter(), 44100, 900, 1000.0, 20000.0, nf), 49 * n + 1)?;
                close(ctx, &format!("FH-CSS from source shape {shape}"), &a, &b, 0.0)
            }),
            scn("rates", "every symbol rate 1..700 (thorough 6000) x 8 samples per symbol up to 12, and every even division of 18 usual sample rates: chirps (all three functions) and FH-CSS with one hop frequency, up and down", move |ctx| {
                let (sps, rs) = ctx.pick("rate", rate_plans(t));
                let fs = sps * rs;
                let f = fs as f64;
                let (c, b) = (0.2345 * f, 0.1377 * f);
                let what = format!("chirp of {sps} samples, rate={rs} fs={fs}");
                match ctx.choose("fn", 4) {
                    0 => close(ctx, &what, &pull(linear_chirp(rs as f64, fs, 0.01 * f, 0.48 * f), sps + 1)?, &chirp_ref(rs as f64, fs, 0.01 * f, 0.48 * f), TOL),
                    1 => close(ctx, &what, &pull(linear_upchirp_centered(rs as f64, c, b, fs), sps + 1)?, &chirp_ref(rs as f64, fs, c - b / 2.0, c + b / 2.0), TOL),
                    2 => close(ctx, &what, &pull(linear_downchirp_centered(rs as f64, c, b, fs), sps + 1)?, &chirp_ref(rs as f64, fs, c + b / 2.0, c - b / 2.0), TOL),
                    _ => {
                        let m = [true, false, false, true, true];
                        let got = pull(tx_fh_css_signal(m.into_iter(), fs, rs, 0.1 * f, 0.3 * f, 1), 5 * sps + 1)?;
                        let want: Vec<f64> = (0..5 * sps).map(|i| symbol(Hop::Css, m[i / sps], 0.1 * f, 0.3 * f, 1, 0, fs, sps, i % sps)).collect();
                        close(ctx, &format!("FH-CSS fs={fs} rs={rs}"), &got, &want, TOL)
                    }
                }
            }),
        ],
        &["chirp periods of a whole number of samples", "samples are compared within 1e-6"],
    )
}
