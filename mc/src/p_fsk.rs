//! C10 C11: FSK and FM.
use crate::core::*;
use crate::p_iter::Set;
use crate::p_psk::{cosw, long_symbols, nrz, rate_plans, sps_list, RS};
use crate::Tier;
use komunikilo::fm::*;
use komunikilo::fsk::*;
use std::f64::consts::PI;

const TOL: f64 = 1e-6;

#[derive(Clone, Copy, Debug)]
enum F {
    B,
    M,
    L,
}

fn wave(ctx: &mut Ctx, which: F, m: &[bool], fs: usize, rs: usize, lo: f64, hi: f64) -> R {
    let sps = fs / rs;
    let it = m.to_vec().into_iter();
    let lim = m.len() * sps + 1;
    let got = match which {
        F::B => pull(tx_bfsk_signal(it, fs, rs, lo, hi), lim)?,
        F::M => pull(tx_mfsk_signal(it, fs, rs, lo, hi, 2), lim)?,
        F::L => pull(tx_fsk_signal(it, fs, rs, &[hi, lo]), lim)?,
    };
    let want: Vec<f64> = (0..m.len() * sps).map(|i| cosw(if m[i / sps] { hi } else { lo }, fs, i)).collect();
    close(ctx, &format!("FSK {which:?} fs={fs} rs={rs} low={lo} high={hi} message {}", bstr(m)), &got, &want, TOL)
}

fn wave_c(ctx: &mut Ctx, m: &[bool], fs: usize, rs: usize, fc: f64) -> R {
    let sps = fs / rs;
    let got = pull(tx_fsk(m.iter().cloned(), fs, rs, fc), m.len() * sps + 1)?;
    let want: Vec<f64> = (0..m.len() * sps).map(|i| cosw(fc * (1.0 + 0.025 * nrz(m[i / sps])), fs, i)).collect();
    close(ctx, &format!("carrier FSK fs={fs} rs={rs} fc={fc} message {}", bstr(m)), &got, &want, TOL)
}

fn wave_fm(ctx: &mut Ctx, x: &[f64], fs: usize, rs: usize, fc: f64) -> R {
    let sps = fs / rs;
    let got = pull(tx_fm(x.iter().cloned(), fs, rs, fc), x.len() * sps + 1)?;
    let mut s = 0.0;
    let want: Vec<f64> = (0..x.len() * sps)
        .map(|i| {
            s += x[i / sps];
            (2.0 * PI * fc * (i as f64 / fs as f64) + 0.05 * s).cos()
        })
        .collect();
    close(ctx, &format!("FM fs={fs} rs={rs} fc={fc} of {} samples", x.len()), &got, &want, TOL)
}

fn bands(fs: usize, rs: usize) -> Vec<(f64, f64)> {
    let f = fs as f64;
    let r = rs as f64;
    let mut v = vec![
        (0.1 * f, 0.2 * f), (0.0, 0.5 * f), (0.123456 * f, 0.3777 * f), (r, 2.0 * r), (0.25 * f, 0.25 * f), (1000.0, 2000.0), (0.4 * f, 0.1 * f), (0.0, 0.0), (0.47 * f, 0.499 * f),
    ];
    v.retain(|&(a, b)| a <= f / 2.0 && b <= f / 2.0);
    v
}

pub fn c10(t: Tier) -> Set {
    (
        vec![
            scn("fsk-grid", "three binary FSK transmitters x samples-per-symbol list x 6 symbol rates x 9 frequency pairs, content of 40 bits", move |ctx| {
                let w = ctx.pick("tx", &[F::B, F::M, F::L]);
                let sps = ctx.pick("sps", &sps_list(t));
                let rs = ctx.pick("rs", &RS);
                let (lo, hi) = ctx.pick("band", &bands(sps * rs, rs));
                wave(ctx, w, &content(40), sps * rs, rs, lo, hi)
            }),
            scn("fsk-messages", "three transmitters x all messages up to 10 bits and every length 0..130 in 6 patterns x 3 configurations", move |ctx| {
                let w = ctx.pick("tx", &[F::B, F::M, F::L]);
                let (fs, rs, lo, hi) = ctx.pick("cfg", &[(80, 10, 12.0, 33.0), (12, 4, 1.7, 5.1), (44100, 900, 1000.0, 2000.0)]);
                let lens: Vec<usize> = (0..130).collect();
                let m = message(ctx, if fs > 1000 { 6 } else { t.of(10, 13) }, &lens, PATTERNS);
                wave(ctx, w, &m, fs, rs, lo, hi)
            }),
            scn("carrier-grid", "carrier FSK: samples-per-symbol list x 6 symbol rates x 9 carriers, content of 40 bits", move |ctx| {
                let sps = ctx.pick("sps", &sps_list(t));
                let rs = ctx.pick("rs", &RS);
                let f = (sps * rs) as f64;
                let fc = ctx.pick("fc", &[0.1 * f, 0.25 * f, 0.0, 0.4 * f, 0.37777 * f, 1800.0, 20.0 * rs as f64, 0.48 * f, 0.5 * f]);
                wave_c(ctx, &content(40), sps * rs, rs, fc)
            }),
            scn("carrier-messages", "carrier FSK: all messages up to 11 bits, every length 0..200 in 6 patterns x 3 configurations", move |ctx| {
                let (fs, rs, fc) = ctx.pick("cfg", &[(80, 10, 22.0), (12, 4, 5.0), (4410, 90, 1800.0)]);
                let lens: Vec<usize> = (0..200).collect();
                let m = message(ctx, if fs > 1000 { 8 } else { t.of(11, 14) }, &lens, PATTERNS);
                wave_c(ctx, &m, fs, rs, fc)
            }),
            scn("fm-exhaustive", "FM: every sequence of up to 6 message samples over {0,1,-1,0.5,3}, 3 rates, 3 carriers", move |ctx| {
                let (fs, rs) = ctx.pick("rate", &[(12usize, 4usize), (10, 10), (49, 7)]);
                let n = ctx.choose("n", t.of(7, 8));
                let mut v = ctx.choose("x", 5usize.pow(n as u32));
                let x: Vec<f64> = (0..n).map(|_| { let r = [1.0, 0.0, -1.0, 0.5, 3.0][v % 5]; v /= 5; r }).collect();
                let fc = ctx.pick("fc", &[0.2, 0.0, 0.44]) * fs as f64;
                wave_fm(ctx, &x, fs, rs, fc)
            }),
            scn("fm-grid", "FM: samples-per-symbol list x 3 symbol rates x 4 carriers x 3 message shapes of 40 samples", move |ctx| {
                let sps = ctx.pick("sps", &sps_list(t));
                let rs = ctx.pick("rs", &[900usize, 1, 7]);
                let fc = ctx.pick("fc", &[0.2, 0.0, 0.44, 0.123456]) * (sps * rs) as f64;
                let k = ctx.choose("shape", 3);
                let x: Vec<f64> = (0..40).map(|i| match k { 0 => (i as f64 * 0.7).sin(), 1 => nrz(content(40)[i]), _ => i as f64 * 0.1 - 1.0 }).collect();
                wave_fm(ctx, &x, sps * rs, rs, fc)
            }),
            scn("long", "every transmitter up to 2^18 samples (late sample times)", move |ctx| {
                let (fs, rs) = ctx.pick("cfg", &[(44100usize, 900usize), (6, 2), (1_000_000, 250_000)]);
                let n = ctx.pick("samples", &ladder(13, t.of(18, 22))) / (fs / rs);
                let f = fs as f64;
                match ctx.choose("tx", 5) {
                    0 => wave(ctx, F::B, &content(n), fs, rs, 0.11 * f, 0.37 * f),
                    1 => wave(ctx, F::M, &content(n), fs, rs, 0.11 * f, 0.37 * f),
                    2 => wave(ctx, F::L, &content(n), fs, rs, 0.11 * f, 0.37 * f),
                    3 => wave_c(ctx, &content(n), fs, rs, 0.23 * f),
                    _ => wave_fm(ctx, &content(n).into_iter().map(nrz).collect::<Vec<_>>(), fs, rs, 0.23 * f),
                }
            }),
            scn("long-symbols", "every transmitter: round-number samples per symbol from 67 to 10^5 (thorough 10^6), and enormous rates, x 3 bands: 7 bits", move |ctx| {
                let (sps, rs) = ctx.pick("shape", &long_symbols(t));
                let fs = sps * rs;
                let f = fs as f64;
                let (lo, hi) = ctx.pick("band", &[(0.123456 * f, 0.3777 * f), (rs as f64, 2.0 * rs as f64), (0.0, 0.5 * f)]);
                if hi > f / 2.0 {
                    return Ok(());
                }
                let m = [true, false, false, true, true, true, false];
                match ctx.choose("tx", 5) {
                    0 => wave(ctx, F::B, &m, fs, rs, lo, hi),
                    1 => wave(ctx, F::M, &m, fs, rs, lo, hi),
                    2 => wave(ctx, F::L, &m, fs, rs, lo, hi),
                    3 => wave_c(ctx, &m, fs, rs, if hi > 0.4 * f { 0.47 * f } else { hi }),
                    _ => wave_fm(ctx, &[0.3, -1.0, 2.0], fs, rs, hi),
                }
            }),
            scn("far", "every transmitter for 2^24 + 2^14 samples (thorough 2^28), every sample compared, 3 configurations", move |ctx| {
                let total = (1usize << t.of(24, 28)) + (1 << 14);
                let tol = t.of(TOL, 1e-4);
                let (fs, rs) = ctx.pick("cfg", &[(44100usize, 900usize), (12, 1), (1_500_000, 250_000)]);
                let sps = fs / rs;
                let n = total / sps;
                let f = fs as f64;
                let (lo, hi) = (0.0417 * f, 0.31234 * f);
                let m = (0..n).map(|i| bit_at(0, i));
                let tone = |i: usize| cosw(if bit_at(0, i / sps) { hi } else { lo }, fs, i);
                let what = format!("fs={fs} rs={rs}");
                match ctx.choose("tx", 5) {
                    0 => stream_close(ctx, &format!("FSK B {what}"), tx_bfsk_signal(m, fs, rs, lo, hi), n * sps, tone, tol),
                    1 => stream_close(ctx, &format!("FSK M {what}"), tx_mfsk_signal(m, fs, rs, lo, hi, 2), n * sps, tone, tol),
                    2 => stream_close(ctx, &format!("FSK L {what}"), tx_fsk_signal(m, fs, rs, &[hi, lo]), n * sps, tone, tol),
                    3 => stream_close(ctx, &format!("carrier FSK {what}"), tx_fsk(m, fs, rs, hi), n * sps, |i| cosw(hi * (1.0 + 0.025 * nrz(bit_at(0, i / sps))), fs, i), tol),
                    _ => {
                        let x = |k: usize| nrz(bit_at(5, k)) * 0.5;
                        let mut s = 0.0;
                        stream_close(ctx, &format!("FM {what}"), tx_fm((0..n).map(x), fs, rs, hi), n * sps, |i| {
                            s += x(i / sps);
                            (2.0 * PI * hi * (i as f64 / fs as f64) + 0.05 * s).cos()
                        }, tol)
                    }
                }
            }),
            scn("sources", "every transmitter from 8 differently shaped sources, every length 0..40", move |ctx| {
                let shape = ctx.choose("shape", SHAPES);
                let n = ctx.choose("n", 41);
                let m = content(n);
                let (fs, rs, lo, hi) = ctx.pick("cfg", &[(80usize, 10usize, 12.0, 33.0), (5, 5, 0.4, 2.1), (360, 9, 11.0, 101.0)]);
                let sps = fs / rs;
                let src = shaped(m.clone(), shape);
                let what = format!("source shape {shape} of {n} bits, fs={fs} rs={rs}");
                let tone = |i: usize| cosw(if m[i / sps] { hi } else { lo }, fs, i);
                match ctx.choose("tx", 5) {
                    0 => stream_close(ctx, &format!("FSK B {what}"), tx_bfsk_signal(src, fs, rs, lo, hi), n * sps, tone, TOL),
                    1 => stream_close(ctx, &format!("FSK M {what}"), tx_mfsk_signal(src, fs, rs, lo, hi, 2), n * sps, tone, TOL),
                    2 => stream_close(ctx, &format!("FSK L {what}"), tx_fsk_signal(src, fs, rs, &[hi, lo]), n * sps, tone, TOL),
                    3 => stream_close(ctx, &format!("carrier FSK {what}"), tx_fsk(src, fs, rs, lo), n * sps, |i| cosw(lo * (1.0 + 0.025 * nrz(m[i / sps])), fs, i), TOL),
                    _ => {
                        let mut s = 0.0;
                        let x: Vec<f64> = m.iter().map(|&b| nrz(b)).collect();
                        stream_close(ctx, &format!("FM {what}"), tx_fm(shaped(x.clone(), shape), fs, rs, hi), n * sps, |i| {
                            s += x[i / sps];
                            (2.0 * PI * hi * (i as f64 / fs as f64) + 0.05 * s).cos()
                        }, TOL)
                    }
                }
            }),
            scn("fm-values", "FM: message samples of magnitude 1e-9 to 100, long equal runs, 10 shapes x 8 scales x 3 rates x 3 carriers, 300 samples", move |ctx| {
                let (fs, rs) = ctx.pick("rate", &[(12usize, 4usize), (10, 10), (44100, 900)]);
                let k = ctx.choose("shape", 10);
                let a = ctx.pick("scale", &[1.0, 1e-9, 1e-3, 0.1, 3.0, 10.0, 20.0, 100.0]);
                let fc = ctx.pick("fc", &[0.2, 0.0, 0.499]) * fs as f64;
                let c = content(300);
                let x: Vec<f64> = (0..300)
                    .map(|i| {
                        a * match k {
                            0 => 1.0,
                            1 => -1.0,
                            2 => nrz(c[i]),
                            3 => (i as f64 * 0.01).sin(),
                            4 => (i as f64 * 1.3).cos(),
                            5 => if i == 0 { 1.0 } else { 0.0 },
                            6 => if i % 100 < 50 { 1.0 } else { -1.0 },
                            7 => i as f64 / 300.0,
                            8 => if i > 250 { 1.0 } else { 0.0 },
                            _ => -(i as f64) / 100.0 + 1.0,
                        }
                    })
                    .collect();
                wave_fm(ctx, &x, fs, rs, fc)
            }),
            scn("rates", "every symbol rate 1..700 (thorough 6000) x 8 samples per symbol up to 12, and every even division of 18 usual sample rates: every transmitter, 7 bits", move |ctx| {
                let (sps, rs) = ctx.pick("rate", rate_plans(t));
                let fs = sps * rs;
                let f = fs as f64;
                let (lo, hi) = (0.123456 * f, 0.3777 * f);
                let m = [true, false, false, true, true, true, false];
                match ctx.choose("tx", 5) {
                    0 => wave(ctx, F::B, &m, fs, rs, lo, hi),
                    1 => wave(ctx, F::M, &m, fs, rs, lo, hi),
                    2 => wave(ctx, F::L, &m, fs, rs, lo, hi),
                    3 => wave_c(ctx, &m, fs, rs, lo),
                    _ => wave_fm(ctx, &[0.3, -1.0, 2.0, 0.1], fs, rs, hi),
                }
            }),
        ],
        &["samples are compared within 1e-6"],
    )
}

/// Configurations of the domain: carrier 20*k*rs (tone spacing k*rs), tones multiples of rs/2.
fn domain(t: Tier) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for k in 1..=t.of(6usize, 12) {
        // highest tone 20.5*k*rs < fs/2
        let min = 41 * k + 1;
        for s in [min, min + 1, min + 2, min + 7, 2 * min, 3 * min + 1, 64 * k, 50 * k, 100 * k, 49 * k, 128 * k] {
            if s >= min {
                v.push((k, s));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn rt(ctx: &mut Ctx, m: &[bool], fs: usize, rs: usize, fc: f64) -> R {
    let tx = pull(tx_fsk(m.iter().cloned(), fs, rs, fc), m.len() * (fs / rs) + 1)?;
    let rx = pull(rx_fsk(tx.into_iter(), fs, rs, fc), m.len() + 1)?;
    same_bits(ctx, &format!("FSK loopback fs={fs} rs={rs} fc={fc} message {}", bstr(m)), &rx, m)
}

pub fn c11(t: Tier) -> Set {
    (
        vec![
            scn("grid", "every (spacing 1..6 symbol rates, samples per symbol) of the list x 5 symbol rates; content of 60 bits and 4 patterns", move |ctx| {
                let (k, sps) = ctx.pick("plan", &domain(t));
                let rs = ctx.pick("rs", &[900usize, 1, 10, 441, 1000]);
                let p = ctx.choose("pattern", 5);
                rt(ctx, &pattern(p, 60), sps * rs, rs, (20 * k * rs) as f64)
            }),
            scn("sps", "every samples per symbol from 42 to 300 with spacing one symbol rate, content of 40 bits", move |ctx| {
                let sps = 42 + ctx.choose("sps", t.of(259, 1200));
                let rs = ctx.pick("rs", &[900usize, 7]);
                rt(ctx, &content(40), sps * rs, rs, (20 * rs) as f64)
            }),
            scn("messages", "all messages up to 12 bits, every length 0..200 in 6 patterns x 3 configurations", move |ctx| {
                let (fs, rs, k) = ctx.pick("cfg", &[(500usize, 10usize, 1usize), (42 * 900, 900, 1), (100, 1, 2)]);
                let lens: Vec<usize> = (0..200).collect();
                let m = message(ctx, t.of(12, 15), &lens, PATTERNS);
                rt(ctx, &m, fs, rs, (20 * k * rs) as f64)
            }),
            scn("long", "messages up to 2^13 bits (thorough 2^16)", move |ctx| {
                let (fs, rs) = ctx.pick("cfg", &[(43usize, 1usize), (44100, 900)]);
                let n = ctx.pick("n", &ladder(8, t.of(13, 16)));
                let p = ctx.choose("pattern", 2);
                rt(ctx, &pattern(p, n), fs, rs, (20 * rs) as f64)
            }),
            scn("close-tones", "spacing of 1..40 symbol rates x samples per symbol at the smallest possible, round numbers, hundreds and thousands up to 10^4 (thorough 10^5), 3 symbol rates, 12 bits", move |ctx| {
                let k = 1 + ctx.choose("k", t.of(40, 100));
                let min = 41 * k + 1;
                let mut l: Vec<usize> = steps_to(t.of(10_001, 100_001)).into_iter().filter(|&x| x >= min).collect();
                l.extend([min, min + 1, 45 * k + 3, 60 * k, 200 * k, 441 * k]);
                let sps = ctx.pick("sps", &l);
                let rs = ctx.pick("rs", &[1usize, 900, 48_000]);
                rt(ctx, &content(12), sps * rs, rs, (20 * k * rs) as f64)
            }),
            scn("plans", "every spacing 1..12 symbol rates x every samples per symbol from the smallest possible to 640 (thorough 1500), content of 24 bits", move |ctx| {
                let k = 1 + ctx.choose("k", 12);
                let min = 41 * k + 1;
                let sps = min + ctx.choose("sps", t.of(640, 1500) - min);
                rt(ctx, &content(24), sps * 90, 90, (20 * k * 90) as f64)
            }),
            scn("far", "2^19 bits (more than 2^24 samples; thorough 2^22) streamed through transmitter and receiver at 3 configurations", move |ctx| {
                let n = 1usize << t.of(19, 22);
                let (fs, rs, k) = ctx.pick("cfg", &[(42usize, 1usize, 1usize), (45 * 900, 900, 1), (100, 1, 2)]);
                let fc = (20 * k * rs) as f64;
                let rx = rx_fsk(tx_fsk((0..n).map(|i| bit_at(0, i)), fs, rs, fc), fs, rs, fc);
                stream_bits(ctx, &format!("FSK loopback fs={fs} rs={rs} fc={fc} long stream"), rx, n, |i| bit_at(0, i))
            }),
            scn("sources", "8 differently shaped sources, every length 0..40, 2 configurations", move |ctx| {
                let shape = ctx.choose("shape", SHAPES);
                let n = ctx.choose("n", 41);
                let (fs, rs, k) = ctx.pick("cfg", &[(44100usize, 900usize, 1usize), (100, 1, 2)]);
                let fc = (20 * k * rs) as f64;
                let m = content(n);
                let tx = pull(tx_fsk(shaped(m.clone(), shape), fs, rs, fc), n * (fs / rs) + 1)?;
                let rx = pull(rx_fsk(shaped(tx, shape), fs, rs, fc), n + 1)?;
                same_bits(ctx, &format!("FSK loopback fs={fs} rs={rs} source shape {shape}"), &rx, &m)
            }),
            scn("rates", "every symbol rate 1..3000 (thorough 12000) at 42, 43 and 84 samples per symbol, and every even division (42 to 2000 samples per symbol) of 18 usual sample rates: 7 bits", move |ctx| {
                let mut l: Vec<(usize, usize)> = (1..=t.of(3000, 12000)).flat_map(|rs| [(42usize, rs), (43, rs), (84, rs)]).collect();
                l.extend(rate_plans(t).iter().cloned().filter(|r| r.0 >= 42));
                let (sps, rs) = ctx.pick("rate", &l);
                rt(ctx, &[true, false, false, true, true, true, false], sps * rs, rs, (20 * rs) as f64)
            }),
        ],
        &["no noise between transmitter and receiver", "for spacings that are whole multiples of the symbol rate both tones then are multiples of half the symbol rate"],
    )
}
