//! C25 C26 C27: noise channels, measurement helpers, band-pass filter.
use crate::core::*;
use crate::ensure;
use crate::p_iter::Set;
use crate::rng::seeded;
use crate::Tier;
use komunikilo as k;
use num_complex::Complex;
use std::f64::consts::PI;

// ------------------------------------------------------------------ C25

const SIGMAS: [f64; 11] = [1.0, 0.0, 0.5, 2.0, 3.7, 1e-6, 1e4, 1e-300, 1e-12, 1e12, 1e150];

pub fn sig(kind: usize, n: usize) -> Vec<f64> {
    (0..n)
        .map(|i| {
            let x = i as f64;
            match kind {
                0 => 0.0,
                1 => (x * 0.7).sin(),
                2 => if (i * i + i / 3) % 5 < 2 { 1.0 } else { -1.0 },
                3 => -3.25 + 0.125 * x,
                4 => 1e6 * (x * 1.3).cos(),
                _ => if i % 7 == 3 { 1e-8 } else { 0.0 },
            }
        })
        .collect()
}

/// A chain under test: (seed, signal as re/im, sigma) -> output as re/im.
fn awgn_r(seed: u64, s: &[f64], sigma: f64) -> Result<Vec<f64>, String> {
    seeded(seed, || pull(k::awgn(s.iter().cloned(), sigma), s.len() + 1))?
}
fn awgn_c(seed: u64, s: &[f64], sigma: f64) -> Result<Vec<f64>, String> {
    let n = s.len() / 2;
    let v = seeded(seed, || pull(k::awgn_complex((0..n).map(|i| Complex::new(s[2 * i], s[2 * i + 1])), sigma), n + 1))??;
    Ok(v.into_iter().flat_map(|c| [c.re, c.im]).collect())
}
type Ch = fn(u64, &[f64], f64) -> Result<Vec<f64>, String>;

fn linear(ctx: &mut Ctx, what: &str, ch: Ch, n: usize, kind: usize, sigma: f64, seed: u64) -> R {
    let s = sig(kind, n);
    let one = ch(seed, &vec![0.0; n], 1.0)?;
    let out = ch(seed, &s, sigma)?;
    ctx.step(n);
    ctx.observe(hash_f(&out));
    ensure!(one.len() == n && out.len() == n, "{what}: {} samples for {n}", out.len());
    for i in 0..n {
        let want = s[i] + sigma * one[i];
        let tol = 1e-9 * (s[i].abs() + sigma * one[i].abs()) + 1e-300;
        ensure!((out[i] - want).abs() <= tol,
            "{what} sigma={sigma} signal {kind} seed {seed}: sample {i} of {n} is {} instead of signal + sigma*noise = {want}", out[i]);
        if sigma == 0.0 {
            ensure!(out[i] == s[i], "{what}: sigma 0 changed sample {i}");
        }
    }
    Ok(())
}

/// Probability of a standard normal exceeding |x|
fn tail(x: f64) -> f64 {
    1.0 - erf_ref(x / 2f64.sqrt())
}

/// Every statistic of unit Gaussian white noise, each within `sg` standard errors.
pub fn gaussian(what: &str, z: &[f64]) -> R {
    let n = z.len() as f64;
    let sg = 6.5;
    let m = z.iter().sum::<f64>() / n;
    ensure!(m.abs() < sg / n.sqrt(), "{what}: mean {m} of {n} noise samples");
    let v = z.iter().map(|x| x * x).sum::<f64>() / n;
    ensure!((v - 1.0).abs() < sg * (2.0 / n).sqrt(), "{what}: variance {v} of {n} noise samples instead of 1");
    let s3 = z.iter().map(|x| x.powi(3)).sum::<f64>() / n;
    ensure!(s3.abs() < sg * (15.0 / n).sqrt(), "{what}: third moment {s3}");
    let s4 = z.iter().map(|x| x.powi(4)).sum::<f64>() / n;
    ensure!((s4 - 3.0).abs() < sg * (96.0 / n).sqrt(), "{what}: fourth moment {s4} instead of 3");
    for k in 0..=16 {
        let x = k as f64 * 0.25;
        for up in [true, false] {
            let p = tail(x) / 2.0;
            let c = z.iter().filter(|&&y| if up { y > x } else { y < -x }).count() as f64 / n;
            let se = (p * (1.0 - p) / n).sqrt() + 1.5 / n;
            ensure!((c - p).abs() < sg * se, "{what}: fraction {c} of samples beyond {}{x} instead of {p}", if up { "" } else { "-" });
        }
    }
    for lag in 1..=64.min(z.len() / 4) {
        let l = lag as f64;
        let c = (0..z.len() - lag).map(|i| z[i] * z[i + lag]).sum::<f64>() / (n - l);
        ensure!(c.abs() < sg / (n - l).sqrt(), "{what}: samples {lag} apart are correlated ({c})");
        let c2 = (0..z.len() - lag).map(|i| (z[i] * z[i] - 1.0) * (z[i + lag] * z[i + lag] - 1.0)).sum::<f64>() / (n - l) / 2.0;
        ensure!(c2.abs() < 1.6 * sg / (n - l).sqrt(), "{what}: magnitudes {lag} apart are correlated ({c2})");
    }
    repeats(what, &[z])
}

/// Noise never repeats (up to sign): all samples of all streams together.
pub fn repeats(what: &str, zs: &[&[f64]]) -> R {
    let mut v: Vec<u64> = zs.iter().flat_map(|z| z.iter().map(|x| x.abs().to_bits())).collect();
    let n = v.len();
    v.sort_unstable();
    v.dedup();
    ensure!(n - v.len() <= 3, "{what}: {} of {n} noise samples repeat earlier ones", n - v.len());
    Ok(())
}

pub fn cross(what: &str, a: &[f64], b: &[f64]) -> R {
    let n = a.len().min(b.len());
    for lag in -32i64..=32 {
        let (lo, hi) = (0.max(-lag) as usize, (n as i64 - lag.max(0)) as usize);
        let c = (lo..hi).map(|i| a[i] * b[(i as i64 + lag) as usize]).sum::<f64>() / (hi - lo) as f64;
        ensure!(c.abs() < 6.5 / ((hi - lo) as f64).sqrt(), "{what}: correlation {c} at lag {lag}");
    }
    Ok(())
}

fn py_awgn(seed: u64, s: &[f64], sigma: f64) -> Result<Vec<f64>, String> {
    seeded(seed, || crate::p_py::call_vec("awgn", (s.to_vec(), sigma)))?
}
fn py_pure(seed: u64, s: &[f64], sigma: f64) -> Result<Vec<f64>, String> {
    let n = seeded(seed, || crate::p_py::call_vec("pure_awgn", (s.len(), sigma)))??;
    ensure!(n.len() == s.len(), "pure_awgn({}) returned {} samples", s.len(), n.len());
    Ok(n.iter().zip(s).map(|(a, b)| a + b).collect())
}
const CH: [(&str, Ch); 4] = [("awgn", awgn_r), ("awgn_complex", awgn_c), ("python awgn", py_awgn), ("python pure_awgn", py_pure)];

pub fn c25(t: Tier) -> Set {
    (
        vec![
            scn("linear", "four noise functions x every length 0..40 and ladder to 2^12 x 6 signals x 11 sigmas x 3 entropy answers: exactly signal + sigma*noise(entropy)", move |ctx| {
                let (w, ch) = CH[ctx.choose("channel", 4)];
                let mut lens: Vec<usize> = (0..40).map(|i| 2 * i).collect();
                lens.extend(ladder(7, t.of(11, 15)).iter().map(|x| 2 * (x / 2)));
                let n = ctx.pick("len", &lens);
                let kind = ctx.choose("signal", 6);
                let sigma = ctx.pick("sigma", &SIGMAS);
                let seed = 1 + ctx.choose("entropy", t.of(2, 6)) as u64;
                linear(ctx, w, ch, n, kind, sigma, seed)
            }),
            scn("odd-lengths", "real channels, lengths 1,3,..,41 (no pairing of samples)", move |ctx| {
                let (w, ch) = CH[ctx.pick("channel", &[0usize, 2, 3])];
                let n = 1 + 2 * ctx.choose("len", 21);
                let sigma = ctx.pick("sigma", &SIGMAS);
                linear(ctx, w, ch, n, 1, sigma, 3)
            }),
            scn("prefix", "asking for less noise gives a prefix: lengths 0..64 of one stream, both Rust channels", move |ctx| {
                let (w, ch) = CH[ctx.choose("channel", 2)];
                let n = 2 * ctx.choose("len", 33);
                let a = ch(9, &vec![1.0; n], 2.0)?;
                let b = ch(9, &vec![1.0; 64], 2.0)?;
                close(ctx, &format!("{w}: first {n} of 64"), &a, &b[..n], 0.0)
            }),
            scn("gaussian", "for each entropy answer (8, thorough 64): moments, tails at 17 levels, correlations at 64 lags and repeats of 2^17 samples of every channel (each within 6.5 standard errors)", move |ctx| {
                let (w, ch) = CH[ctx.choose("channel", 4)];
                let seed = 11 + ctx.choose("entropy", t.of(8, 64)) as u64;
                let n = 1 << t.of(17, 20);
                let kind = ctx.choose("signal", 2);
                let sigma = ctx.pick("sigma", &[1.0, 7.5]);
                let s = sig(kind, n);
                let o = ch(seed, &s, sigma)?;
                ensure!(o.len() == n, "{w}: {} samples for {n}", o.len());
                ctx.step(n);
                let z: Vec<f64> = o.iter().zip(&s).map(|(a, b)| (a - b) / sigma).collect();
                ctx.observe(hash_f(&z[..16]));
                if ch as usize == awgn_c as usize {
                    let re: Vec<f64> = z.iter().step_by(2).cloned().collect();
                    let im: Vec<f64> = z.iter().skip(1).step_by(2).cloned().collect();
                    gaussian("awgn_complex real part", &re)?;
                    gaussian("awgn_complex imaginary part", &im)?;
                    repeats("awgn_complex real and imaginary parts", &[&re, &im])?;
                    cross("awgn_complex real against imaginary part", &re, &im)
                } else {
                    gaussian(w, &z)
                }
            }),
            scn("separate-calls", "every ordered pair of noise functions called one after the other (or advanced alternately) in one thread, 6 entropy answers, and in two threads with the system's own entropy: different, uncorrelated noise", move |ctx| {
                let a = ctx.choose("first", 4);
                let b = ctx.choose("second", 4);
                let mode = ctx.choose("mode", 3);
                let n = 1 << 13;
                let zero = vec![0.0; n];
                let run = |i: usize| -> Result<Vec<f64>, String> {
                    Ok(match i {
                        0 => k::awgn(zero.iter().cloned(), 1.0).collect(),
                        1 => k::awgn_complex(zero[..n / 2].iter().map(|&x| Complex::new(x, x)), 1.0).flat_map(|c| [c.re, c.im]).collect(),
                        2 => crate::p_py::call_vec("awgn", (zero.clone(), 1.0))?,
                        _ => crate::p_py::call_vec("pure_awgn", (n, 1.0))?,
                    })
                };
                let (x, y) = match mode {
                    0 => {
                        let seed = 100 + ctx.choose("entropy", 6) as u64;
                        seeded(seed, || -> Result<_, String> { Ok((run(a)?, run(b)?)) })??
                    }
                    1 => {
                        if a > 1 || b > 1 {
                            return Ok(());
                        }
                        let seed = 200 + ctx.choose("entropy", 6) as u64;
                        let mk = |i: usize| -> Box<dyn Iterator<Item = f64>> {
                            if i == 0 {
                                Box::new(k::awgn(zero.clone().into_iter(), 1.0))
                            } else {
                                Box::new(k::awgn_complex(vec![Complex::new(0.0, 0.0); n / 2].into_iter(), 1.0).flat_map(|c| [c.re, c.im]))
                            }
                        };
                        seeded(seed, || {
                            let (mut p, mut q) = (mk(a), mk(b));
                            let (mut x, mut y) = (vec![], vec![]);
                            for i in 0..n {
                                x.extend(p.next());
                                if i % 3 != 0 || i > n / 2 {
                                    y.extend(q.next());
                                }
                            }
                            y.extend(q);
                            (x, y)
                        })?
                    }
                    _ => std::thread::scope(|s| -> Result<_, String> {
                        let h = s.spawn(|| run(a));
                        let h2 = s.spawn(|| run(b));
                        Ok((h.join().map_err(|_| "panicked")??, h2.join().map_err(|_| "panicked")??))
                    })?,
                };
                ensure!(x.len() == n && y.len() == n, "{} / {}: {} and {} samples for {n}", CH[a].0, CH[b].0, x.len(), y.len());
                ctx.step(2 * n);
                let w = format!("{} and {} in one program", CH[a].0, CH[b].0);
                repeats(&w, &[&x, &y])?;
                cross(&w, &x, &y)
            }),
            scn("many-calls", "2^14 separate calls (thorough 2^17) of each noise function in one thread, 4 entropy answers, and of all four in turn: first and second samples of all calls are Gaussian, uncorrelated and never repeat", move |ctx| {
                let which = ctx.choose("channel", 5);
                let seed = 300 + ctx.choose("entropy", 4) as u64;
                let n = 1usize << t.of(14, 17);
                let run = |i: usize| -> Result<[f64; 2], String> {
                    Ok(match i {
                        0 => {
                            let mut a = k::awgn([0.0; 2].into_iter(), 1.0);
                            [a.next().unwrap_or(0.0), a.next().unwrap_or(0.0)]
                        }
                        1 => {
                            let z = k::awgn_complex([Complex::new(0.0, 0.0)].into_iter(), 1.0).next().unwrap_or(Complex::new(0.0, 0.0));
                            [z.re, z.im]
                        }
                        2 => { let v = crate::p_py::call_vec("awgn", (vec![0.0; 2], 1.0))?; ensure!(v.len() == 2, "python awgn: {} samples", v.len()); [v[0], v[1]] }
                        _ => { let v = crate::p_py::call_vec("pure_awgn", (2usize, 1.0))?; ensure!(v.len() == 2, "python pure_awgn: {} samples", v.len()); [v[0], v[1]] }
                    })
                };
                let v = seeded(seed, || -> Result<Vec<[f64; 2]>, String> { (0..n).map(|i| run(if which == 4 { i % 4 } else { which })).collect() })??;
                ctx.step(2 * n);
                let a: Vec<f64> = v.iter().map(|x| x[0]).collect();
                let b: Vec<f64> = v.iter().map(|x| x[1]).collect();
                ctx.observe(hash_f(&a[..8]));
                let w = if which == 4 { "all noise functions in turn" } else { CH[which].0 };
                repeats(&format!("{n} calls of {w}"), &[&a, &b])?;
                gaussian(&format!("first samples of {n} calls of {w}"), &a)?;
                gaussian(&format!("second samples of {n} calls of {w}"), &b)?;
                cross(&format!("first and second samples of {n} calls of {w}"), &a, &b)
            }),
            scn("many-answers", "2^12 different entropy answers (thorough 2^15), each in its own thread: the noise differs for all of them, and first samples are Gaussian across them", move |ctx| {
                let (w, ch) = CH[ctx.choose("channel", 4)];
                let n = 1u64 << t.of(12, 15);
                let mut a = vec![];
                let mut b = vec![];
                for s in 0..n {
                    let v = ch(1_000_000 + s * 77, &[0.0; 2], 1.0)?;
                    ensure!(v.len() == 2, "{w}: {} samples for 2", v.len());
                    a.push(v[0]);
                    b.push(v[1]);
                }
                ctx.step(2 * n as usize);
                repeats(&format!("{w} over {n} entropy answers"), &[&a, &b])?;
                gaussian(&format!("{w}: first samples over {n} entropy answers"), &a)?;
                gaussian(&format!("{w}: second samples over {n} entropy answers"), &b)?;
                cross(&format!("{w}: first and second samples over {n} entropy answers"), &a, &b)
            }),
            scn("far", "one stream of 2^21 samples (thorough 2^24) of each channel: every window of 2^16 is Gaussian, nothing repeats, and the stream is signal + sigma*noise to the end", move |ctx| {
                let (w, ch) = CH[ctx.choose("channel", 4)];
                let seed = 500 + ctx.choose("entropy", 2) as u64;
                let n = 1usize << t.of(21, 24);
                let kind = ctx.pick("signal", &[1usize, 4]);
                let s = sig(kind, n);
                let z = ch(seed, &vec![0.0; n], 1.0)?;
                let o = ch(seed, &s, 0.25)?;
                ensure!(o.len() == n && z.len() == n, "{w}: {} samples for {n}", o.len());
                ctx.step(n);
                for i in 0..n {
                    let want = s[i] + 0.25 * z[i];
                    ensure!((o[i] - want).abs() <= 1e-9 * (1.0 + s[i].abs()), "{w}: sample {i} of {n} is {} instead of {want}", o[i]);
                }
                repeats(&format!("{w}, {n} samples"), &[&z])?;
                for (i, c) in z.chunks(1 << 16).enumerate() {
                    if i % 4 == 3 || i == 0 {
                        if ch as usize == awgn_c as usize {
                            gaussian(&format!("{w} window {i} real"), &c.iter().step_by(2).cloned().collect::<Vec<_>>())?;
                            gaussian(&format!("{w} window {i} imaginary"), &c.iter().skip(1).step_by(2).cloned().collect::<Vec<_>>())?;
                        } else {
                            gaussian(&format!("{w} window {i}"), c)?;
                        }
                    }
                }
                Ok(())
            }),
            scn("values", "signals made of special values (0, -0, 1e12, 1e-12, 255, whole numbers, equal runs) and 25 sigmas from 1e-12 to 1e9: exactly signal + sigma*noise(entropy)", move |ctx| {
                let (w, ch) = CH[ctx.choose("channel", 4)];
                let k = ctx.choose("signal", 10);
                let sg: Vec<f64> = (-12..=9).map(|e| 10f64.powi(e)).chain([0.7071067811865476, 3.0, 0.05]).collect();
                let sigma = ctx.pick("sigma", &sg);
                let n = 300;
                let s: Vec<f64> = (0..n)
                    .map(|i| match k {
                        0 => -0.0,
                        1 => 1e12,
                        2 => -1e-12,
                        3 => (i % 256) as f64,
                        4 => if i < 150 { 1.0 } else { -1.0 },
                        5 => if i == 299 { 5.0 } else { 0.0 },
                        6 => 10f64.powi(i as i32 % 25 - 12),
                        7 => -10f64.powi(i as i32 % 25 - 12),
                        8 => SPECIAL[i % SPECIAL.len()].clamp(-1e15, 1e15) + 0.0,
                        _ => (i as f64).sqrt(),
                    })
                    .map(|x: f64| if x.is_nan() { 0.5 } else { x })
                    .collect();
                let one = ch(77, &vec![0.0; n], 1.0)?;
                let o = ch(77, &s, sigma)?;
                ensure!(o.len() == n && one.len() == n, "{w}: {} samples for {n}", o.len());
                ctx.step(n);
                ctx.observe(hash_f(&o));
                for i in 0..n {
                    let want = s[i] + sigma * one[i];
                    ensure!((o[i] - want).abs() <= 1e-9 * (s[i].abs() + sigma * one[i].abs()) + 1e-300, "{w} sigma={sigma} signal {k}: sample {i} ({}) is {} instead of {want}", s[i], o[i]);
                }
                Ok(())
            }),
            scn("sources", "both Rust channels from 8 differently shaped sources, every length 0..40: the same noise, one sample each", move |ctx| {
                let shape = ctx.choose("shape", SHAPES);
                let n = ctx.choose("n", 41);
                let s = sig(1, n);
                let c = ctx.choose("channel", 2);
                let (a, b) = if c == 0 {
                    (seeded(5, || pull(k::awgn(shaped(s.clone(), shape), 2.0), n + 1))??, awgn_r(5, &s, 2.0)?)
                } else {
                    let z: Vec<Complex<f64>> = s.iter().map(|&x| Complex::new(x, -x)).collect();
                    let flat: Vec<f64> = z.iter().flat_map(|z| [z.re, z.im]).collect();
                    let v = seeded(5, || pull(k::awgn_complex(shaped(z.clone(), shape), 2.0), n + 1))??;
                    (v.iter().flat_map(|z| [z.re, z.im]).collect(), awgn_c(5, &flat, 2.0)?)
                };
                close(ctx, &format!("{} from source shape {shape} of {n} samples", CH[c].0), &a, &b, 0.0)
            }),
        ],
        &[
            "the noise source is rand's thread_rng; the only nondeterminism below it, the operating system's entropy, is an explored environment answer (the getrandom call is interposed per thread)",
            "the Gaussian shape is judged by fixed statistics at 6.5 standard errors for every entropy answer of the list, not by a distribution-free proof",
        ],
    )
}

// ------------------------------------------------------------------ C26

/// erf to ~1e-15: Taylor series of exp(-x^2)-scaled form below 3, continued fraction above.
pub fn erf_ref(x: f64) -> f64 {
    let a = x.abs();
    let v = if a == 0.0 {
        0.0
    } else if a < 3.0 {
        // erf(x) = 2/sqrt(pi) * exp(-x^2) * sum 2^n x^(2n+1) / (2n+1)!!
        let mut term = a;
        let mut s = a;
        let mut n = 0.0;
        while term > 1e-18 * s {
            n += 1.0;
            term *= 2.0 * a * a / (2.0 * n + 1.0);
            s += term;
        }
        2.0 / PI.sqrt() * (-a * a).exp() * s
    } else if a > 6.5 {
        1.0
    } else {
        let mut f = 0.0;
        for k in (1..=200).rev() {
            f = k as f64 / 2.0 / (a + f);
        }
        1.0 - (-a * a).exp() / PI.sqrt() / (a + f)
    };
    if x < 0.0 { -v } else { v }
}

fn rel(what: &str, got: f64, want: f64) -> R {
    let tol = 1e-9 * want.abs() + 1e-290;
    ensure!((got - want).abs() <= tol || got == want, "{what} is {got} instead of {want}");
    Ok(())
}

fn means(ctx: &mut Ctx, x: &[f64], fs: f64) -> R {
    let ss: f64 = x.iter().map(|v| v * v).sum();
    let n = x.len() as f64;
    ctx.step(x.len());
    ctx.observe(hash_f(x));
    let d = format!("of {} samples {:?}", x.len(), &x[..x.len().min(6)]);
    rel(&format!("avg_energy {d}"), k::avg_energy(x), ss / n)?;
    rel(&format!("avg_energy_py {d}"), k::avg_energy_py(x.to_vec()), ss / n)?;
    rel(&format!("energy {d} at {fs}"), k::energy(x.iter().cloned(), fs), ss / fs)?;
    rel(&format!("power {d} at {fs}"), k::power(x.iter().cloned(), fs), ss / n / fs)
}

pub fn c26(t: Tier) -> Set {
    (
        vec![
            scn("ber-exhaustive", "ber of every pair of bit strings of 1..6 x 0..6 bits (unequal lengths included, common length >= 1)", move |ctx| {
                let na = 1 + ctx.choose("len a", t.of(6, 8));
                let nb = 1 + ctx.choose("len b", t.of(6, 8));
                let a = ctx.bits("a", na);
                let b = ctx.bits("b", nb);
                let n = na.min(nb);
                let e = (0..n).filter(|&i| a[i] != b[i]).count();
                ctx.step(n);
                ctx.observe(e as u64 * 100 + n as u64);
                rel(&format!("ber({}, {})", bstr(&a), bstr(&b)), k::ber(&a, &b), e as f64 / n as f64)
            }),
            scn("ber-long", "ber of patterns of every length 1..300 and a ladder to 2^18 against shorter, equal and longer ones", move |ctx| {
                let mut lens: Vec<usize> = (1..300).collect();
                lens.extend(ladder(9, t.of(18, 22)));
                let n = ctx.pick("n", &lens);
                let m = (n as i64 + ctx.pick("delta", &[0i64, -1, 1, 7, -9])).max(1) as usize;
                let (p, q) = (ctx.choose("pa", 4), ctx.choose("pb", 4));
                let (a, b) = (pattern(p, n), pattern(q, m));
                let c = n.min(m);
                let e = (0..c).filter(|&i| a[i] != b[i]).count();
                ctx.step(c);
                rel(&format!("ber of {n} against {m} bits"), k::ber(&a, &b), e as f64 / c as f64)
            }),
            scn("means-exhaustive", "avg_energy, energy and power of every vector of up to 5 samples over {1,0,-2,0.5,1e3,-1e-3}, 3 sample rates", move |ctx| {
                let n = 1 + ctx.choose("n", t.of(5, 7));
                let mut v = ctx.choose("x", 6usize.pow(n as u32));
                let x: Vec<f64> = (0..n).map(|_| { let r = [1.0, 0.0, -2.0, 0.5, 1e3, -1e-3][v % 6]; v /= 6; r }).collect();
                let fs = ctx.pick("fs", &[1.0, 44100.0, 0.3]);
                means(ctx, &x, fs)
            }),
            scn("means-long", "the same for 6 signals of every length 1..300 and a ladder to 2^16", move |ctx| {
                let mut lens: Vec<usize> = (1..300).collect();
                lens.extend(ladder(9, t.of(16, 20)));
                let n = ctx.pick("n", &lens);
                let kind = ctx.choose("signal", 6);
                means(ctx, &sig(kind, n), 8000.0)
            }),
            scn("db", "db and undb at 1..9 x 10^k for k=-150..150, at powers of two 2^-500..2^500, and on -1500..1500 dB: definition and mutual inverse", move |ctx| {
                let x = match ctx.choose("grid", 2) {
                    0 => (1 + ctx.choose("m", 9)) as f64 * 10f64.powi(ctx.choose("e", 301) as i32 - 150),
                    _ => 2f64.powi(ctx.choose("e", 1001) as i32 - 500),
                };
                ctx.step(1);
                ctx.observe(x.to_bits());
                let d = k::db(x);
                ensure!((d - 10.0 * x.log10()).abs() <= 1e-9 * (1.0 + d.abs()), "db({x}) is {d}");
                ensure!((k::undb(d) / x - 1.0).abs() < 1e-11, "undb(db({x})) is {}", k::undb(d));
                let y = -1500.0 + 3000.0 * (ctx.choose("y", 31) as f64 / 30.0);
                ensure!((k::undb(y) / 10f64.powf(y / 10.0) - 1.0).abs() < 1e-10, "undb({y}) is {}", k::undb(y));
                ensure!((k::db(k::undb(y)) - y).abs() < 1e-9, "db(undb({y})) is {}", k::db(k::undb(y)));
                Ok(())
            }),
            scn("linspace", "linspace for 7 starts x 7 stops x every count 0..130 and a ladder to 2^16", move |ctx| {
                let a = ctx.pick("a", &[0.0, 1.0, -1.0, 0.1, 1e6, -3.7, 1e-9]);
                let b = ctx.pick("b", &[1.0, 0.0, -1.0, 0.1, 2e6, 12.34, 5e-9]);
                let mut ns: Vec<usize> = (0..130).collect();
                ns.extend(ladder(8, t.of(13, 18)));
                let n = ctx.pick("n", &ns);
                let g = pull(k::linspace(a, b, n), n + 1)?;
                let w: Vec<f64> = (0..n).map(|i| a + i as f64 * (b - a) / n as f64).collect();
                close(ctx, &format!("linspace({a}, {b}, {n})"), &g, &w, 1e-12 * (a.abs() + b.abs()) + 1e-300)
            }),
            scn("windows", "hamming_window and hamming_window_complex of every length 0..600 and a ladder to 2^16", move |ctx| {
                let mut ns: Vec<usize> = (0..600).collect();
                ns.extend(ladder(10, t.of(16, 20)));
                let n = ctx.pick("n", &ns);
                let w: Vec<f64> = (0..n).map(|i| 0.54 - 0.46 * (2.0 * PI * i as f64 / n as f64).cos()).collect();
                close(ctx, &format!("hamming_window({n})"), &k::hamming_window(n), &w, 1e-12)?;
                let c = k::hamming_window_complex(n);
                close(ctx, &format!("hamming_window_complex({n}).re"), &c.iter().map(|x| x.re).collect::<Vec<_>>(), &w, 1e-12)?;
                ensure!(c.iter().all(|x| x.im == 0.0), "hamming_window_complex({n}) is not real");
                Ok(())
            }),
            scn("erf", "erf and erfc at every multiple of 2^-10 in [0,40) (thorough 2^-13), at 2^-60..2^10 and at 1e300: within 2e-7, in [-1,1], odd, erfc=1-erf, non-decreasing up to the error", move |ctx| {
                let x = match ctx.choose("grid", 3) {
                    0 => {
                        let hi = ctx.choose("whole", 40) as f64;
                        let d = t.of(10, 13);
                        hi + ctx.choose("frac", 1 << d) as f64 / (1u64 << d) as f64
                    }
                    1 => 2f64.powi(ctx.choose("e", 71) as i32 - 60),
                    _ => ctx.pick("big", &[1e300, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY]),
                };
                ctx.step(4);
                let e = k::erf(x);
                ctx.observe(e.to_bits());
                ensure!((e - erf_ref(x)).abs() <= 2e-7, "erf({x}) is {e} instead of {}", erf_ref(x));
                ensure!(e.abs() <= 1.0, "erf({x}) is {e}");
                if x != 0.0 {
                    ensure!(k::erf(-x) == -e, "erf is not odd at {x}: {} and {e}", k::erf(-x));
                    let m = k::erf(-x);
                    ensure!((m - erf_ref(-x)).abs() <= 2e-7, "erf({}) is {m}", -x);
                }
                ensure!((k::erfc(x) - (1.0 - e)).abs() <= 1e-15, "erfc({x}) is {} and 1-erf {}", k::erfc(x), 1.0 - e);
                ensure!((k::erfc(-x) - (1.0 - k::erf(-x))).abs() <= 1e-15, "erfc({}) is not 1-erf", -x);
                Ok(())
            }),
            scn("nrz", "bit_to_nrz of both bits", move |ctx| {
                let b = ctx.choose("bit", 2) == 1;
                ctx.step(1);
                ensure!(k::bit_to_nrz(b) == if b { 1.0 } else { -1.0 }, "bit_to_nrz({b}) is {}", k::bit_to_nrz(b));
                Ok(())
            }),
            scn("ber-positions", "one differing bit at every position of 1..130 bits and at round-number positions up to 2^20 (thorough 2^24); equal and all-different strings of those lengths", move |ctx| {
                let mut lens: Vec<usize> = (1..=130).collect();
                lens.extend(steps_to(t.of(1 << 20, 1 << 24)).into_iter().filter(|&x| x > 130));
                let n = ctx.pick("n", &lens);
                let a = content(n);
                let e = ctx.choose("errors", 5);
                let mut b = a.clone();
                let want = match e {
                    0 => 0,
                    1 => { b[n - 1] = !b[n - 1]; 1 }
                    2 => { b[0] = !b[0]; 1 }
                    3 => { b.iter_mut().for_each(|x| *x = !*x); n }
                    _ => { let p = if n <= 130 { ctx.choose("pos", n) } else { n / 2 }; b[p] = !b[p]; 1 }
                };
                ctx.step(n);
                rel(&format!("ber of {n} bits with {want} errors"), k::ber(&a, &b), want as f64 / n as f64)?;
                b.extend([true, false, true]);
                rel(&format!("ber of {n} bits against a longer string with {want} errors"), k::ber(&a, &b), want as f64 / n as f64)
            }),
            scn("means-far", "avg_energy, energy and power of 4 signals at round-number lengths up to 2^20 (thorough 2^24), 9 sample rates; sources of 8 shapes", move |ctx| {
                let l: Vec<usize> = steps_to(t.of(1 << 20, 1 << 24)).into_iter().filter(|&x| x > 300).collect();
                let n = ctx.pick("n", &l);
                let kind = 1 + ctx.choose("signal", 4);
                let fs = if n < 5000 { ctx.pick("fs", &[1.0, 2.0, 0.5, 1e-3, 1e9, 48_000.0, 44_100.0, 3.3, 192_000.0]) } else { 44_100.0 };
                let x = sig(kind, n);
                means(ctx, &x, fs)?;
                if n < 2000 {
                    let shape = ctx.choose("shape", SHAPES);
                    let ss: f64 = x.iter().map(|v| v * v).sum();
                    rel(&format!("energy of {n} samples from source shape {shape}"), k::energy(shaped(x.clone(), shape), fs), ss / fs)?;
                    rel(&format!("power of {n} samples from source shape {shape}"), k::power(shaped(x.clone(), shape), fs), ss / n as f64 / fs)?;
                }
                Ok(())
            }),
            scn("means-position", "avg_energy, energy and power of one large sample at every position of 1..66 and at both ends of round-number lengths", move |ctx| {
                let mut lens: Vec<usize> = (1..=66).collect();
                lens.extend(steps_to(100_001).into_iter().filter(|&x| x > 66));
                let n = ctx.pick("n", &lens);
                let p = if n <= 66 { ctx.choose("pos", n) } else { ctx.pick("pos", &[0, n - 1, n / 2]) };
                let v = ctx.pick("value", &[1.0, -3.0, 1e150, 1e-150, 1e-5]);
                let mut x = vec![0.0; n];
                x[p] = v;
                means(ctx, &x, 10.0)
            }),
            scn("linspace-far", "linspace with round-number counts up to 2^20 (thorough 2^24) x 5 ranges, every point", move |ctx| {
                let n = ctx.pick("n", &steps_to(t.of(1 << 20, 1 << 24)));
                let (a, b) = ctx.pick("range", &[(0.0, 1.0), (-1.0, 1.0), (1e6, 2e6), (5.0, 5.0), (3.0, -7.0)]);
                stream_close(ctx, &format!("linspace({a}, {b}, {n})"), k::linspace(a, b, n), n, |i| a + i as f64 * (b - a) / n as f64, 1e-12 * (a.abs() + b.abs()))
            }),
            scn("windows-far", "both windows at round-number lengths up to 2^18 (thorough 2^22)", move |ctx| {
                let l: Vec<usize> = steps_to(t.of(1 << 18, 1 << 22)).into_iter().filter(|&x| x > 600).collect();
                let n = ctx.pick("n", &l);
                let w = |i: usize| 0.54 - 0.46 * (2.0 * PI * i as f64 / n as f64).cos();
                if ctx.choose("kind", 2) == 0 {
                    stream_close(ctx, &format!("hamming_window({n})"), k::hamming_window(n).into_iter(), n, w, 1e-12)
                } else {
                    stream_close(ctx, &format!("hamming_window_complex({n})"), k::hamming_window_complex(n).into_iter().map(|z| if z.im == 0.0 { z.re } else { f64::NAN }), n, w, 1e-12)
                }
            }),
            scn("erf-fine", "erf at 2^21 (thorough 2^25) points k*2^-18 (2^-22) of [0,8) and around the whole, half and tenth numbers: error, bound, oddness, complement, order within the error", move |ctx| {
                let d = t.of(18, 22);
                let block = ctx.choose("block", 1 << 11);
                let per = 1usize << (d + 3 - 11);
                let mut prev = -1.0f64;
                for i in 0..per {
                    let x = (block * per + i) as f64 / (1u64 << d) as f64;
                    let e = k::erf(x);
                    ensure!((e - erf_ref(x)).abs() <= 2e-7, "erf({x}) is {e} instead of {}", erf_ref(x));
                    ensure!(e <= 1.0 && e >= prev - 4e-7, "erf({x}) is {e} after {prev}");
                    ensure!(x == 0.0 || k::erf(-x) == -e, "erf is not odd at {x}");
                    ensure!((k::erfc(x) - (1.0 - e)).abs() <= 1e-15 && (k::erfc(-x) - (1.0 - k::erf(-x))).abs() <= 1e-15, "erfc({x}) is not 1-erf({x})");
                    prev = prev.max(e);
                }
                ctx.step(per);
                Ok(())
            }),
            scn("db-fine", "db and undb at 4096 mantissas x 61 decades, and undb at every tenth of a decibel from -300 to 300", move |ctx| {
                if ctx.choose("fn", 2) == 0 {
                    let e = ctx.choose("decade", 61) as i32 - 30;
                    for m in 0..4096 {
                        let x = (1.0 + 9.0 * m as f64 / 4096.0) * 10f64.powi(e);
                        let d = k::db(x);
                        ensure!((d - 10.0 * x.log10()).abs() <= 1e-9 * (1.0 + d.abs()), "db({x}) is {d}");
                        ensure!((k::undb(d) / x - 1.0).abs() < 1e-11, "undb(db({x})) is {}", k::undb(d));
                    }
                    ctx.step(4096);
                } else {
                    let y = (ctx.choose("y", 6001) as f64 - 3000.0) / 10.0;
                    ensure!((k::undb(y) / 10f64.powf(y / 10.0) - 1.0).abs() < 1e-10, "undb({y}) is {}", k::undb(y));
                    ensure!((k::db(k::undb(y)) - y).abs() < 1e-9, "db(undb({y})) is {}", k::db(k::undb(y)));
                    ctx.step(1);
                }
                Ok(())
            }),
            scn("counts-far", "ber, avg_energy, energy, power and linspace over more than 2^24 items (2^24+2^14, ber 2^26+2^14; thorough 2^28+1): counts stay exact; linspace with counts up to 2^53, its first points", move |ctx| {
                let n: usize = t.of((1 << 24) + (1 << 14), (1 << 28) + 1);
                match ctx.choose("what", 5) {
                    0 => {
                        // the late half louder, so that a count or a sum that stops is seen
                        let late = 1 << 24;
                        let x = |i: usize| if i < late { 0.5 } else { 2.0 };
                        let ss = late as f64 * 0.25 + (n - late) as f64 * 4.0;
                        rel("energy", k::energy((0..n).map(x), 8.0), ss / 8.0)?;
                        rel("power", k::power((0..n).map(x), 8.0), ss / n as f64 / 8.0)?;
                        let v: Vec<f64> = (0..n).map(x).collect();
                        rel("avg_energy", k::avg_energy(&v), ss / n as f64)?;
                    }
                    1 => {
                        let n = n.max((1 << 26) + (1 << 14));
                        let a: Vec<bool> = (0..n).map(|i| i % 3 == 0).collect();
                        let mut b = a.clone();
                        let mut bad = 0;
                        for i in (0..n).filter(|i| i % 1000 == 7 || *i >= 1 << 24) {
                            b[i] = !b[i];
                            bad += 1;
                        }
                        rel("ber", k::ber(&a, &b), bad as f64 / n as f64)?;
                        let c: Vec<bool> = a.iter().map(|x| !x).collect();
                        let g = k::ber(&a, &c);
                        ensure!(g == 1.0, "ber of opposite strings of {n} bits is {g}");
                    }
                    2 => {
                        let (a, b) = ctx.pick("range", &[(0.0, 1.0), (1e6, 2e6), (3.0, -7.0)]);
                        stream_close(ctx, &format!("linspace({a}, {b}, {n})"), k::linspace(a, b, n), n, |i| a + i as f64 * (b - a) / n as f64, 1e-15 * (a.abs() + b.abs()))?;
                    }
                    3 => {
                        let m = ctx.pick("count", &[(1usize << 32) - 1, 1 << 32, (1 << 32) + 5, 1 << 33, 10_000_000_000, 1 << 40, 1 << 53]);
                        let (a, b) = ctx.pick("range", &[(0.0, 1e6), (5.0, -5e9)]);
                        for (i, g) in k::linspace(a, b, m).take(1000).enumerate() {
                            let w = a + i as f64 * (b - a) / m as f64;
                            ensure!((g - w).abs() <= 1e-12 * w.abs().max((b - a).abs() / m as f64), "linspace({a}, {b}, {m}): point {i} is {g} instead of {w}");
                        }
                        let (lo, hi) = k::linspace(a, b, m).size_hint();
                        ensure!(lo == m && hi == Some(m), "linspace({a}, {b}, {m}) announces {lo}..{hi:?} points");
                        return Ok(());
                    }
                    _ => {
                        // many short calls: nothing carries over
                        for i in 0..1usize << 16 {
                            let m = 1 + i % 5;
                            let x: Vec<f64> = (0..m).map(|j| ((i + j) % 9) as f64 - 4.0).collect();
                            let ss: f64 = x.iter().map(|v| v * v).sum();
                            ensure!((k::avg_energy(&x) - ss / m as f64).abs() < 1e-9, "avg_energy call {i}");
                            ensure!((k::energy(x.iter().cloned(), 2.0) - ss / 2.0).abs() < 1e-9, "energy call {i}");
                            ensure!((k::power(x.iter().cloned(), 2.0) - ss / 2.0 / m as f64).abs() < 1e-9, "power call {i}");
                        }
                    }
                }
                ctx.step(n);
                Ok(())
            }),
        ],
        &["empty inputs of ber, avg_energy and power have no defined value", "values are compared within 1e-9 relative", "erf(0) is -3e-8: inside the approximation's error, so oddness is judged for x other than 0"],
    )
}

// ------------------------------------------------------------------ C27

/// Projection of one block onto the bins [low, high], by the definition (real DFT).
fn project(x: &[f64], keep: &dyn Fn(usize) -> bool) -> Vec<f64> {
    let l = x.len();
    let mut y = vec![0.0; l];
    for b in 0..=l / 2 {
        if !keep(b) {
            continue;
        }
        let w = if b == 0 || 2 * b == l { 1.0 } else { 2.0 };
        let (mut c, mut s) = (0.0, 0.0);
        let tw: Vec<(f64, f64)> = (0..l).map(|i| { let p = 2.0 * PI * ((b * i) % l) as f64 / l as f64; (p.cos(), p.sin()) }).collect();
        for i in 0..l {
            c += x[i] * tw[i].0;
            s += x[i] * tw[i].1;
        }
        for i in 0..l {
            y[i] += w * (c * tw[i].0 + s * tw[i].1) / l as f64;
        }
    }
    y
}

/// An edge relative to the bins: index in half bins; even = exactly on a bin, odd = between two.
fn edge(half: i64, fs: usize, l: usize) -> f64 {
    if half % 2 == 0 && half >= 0 {
        (half as usize / 2 * fs) as f64 / l as f64
    } else {
        half as f64 / 2.0 * fs as f64 / l as f64
    }
}

fn bp(ctx: &mut Ctx, x: &[f64], l: usize, fs: usize, lo: i64, hi: i64) -> R {
    let (fl, fh) = (edge(lo, fs, l), edge(hi, fs, l));
    let got = pull(k::bpf::bandpass(fl, fh, x.iter().cloned(), fs, l), x.len() + 1)?;
    let mut want = vec![];
    for b in x.chunks(l) {
        want.extend(project(b, &|b| 2 * b as i64 >= lo && 2 * b as i64 <= hi));
    }
    let m = x.iter().fold(1e-300, |a: f64, v| a.max(v.abs()));
    let what = format!("bandpass({fl}..{fh} Hz, fs={fs}, fft_len={l}) of {} blocks", x.len() / l);
    close(ctx, &what, &got, &want, 1e-9 * m * l as f64)?;
    // idempotent
    let twice = pull(k::bpf::bandpass(fl, fh, got.iter().cloned(), fs, l), x.len() + 1)?;
    close(ctx, &format!("{what}, applied twice"), &twice, &want, 1e-9 * m * l as f64)
}

pub fn c27(t: Tier) -> Set {
    let rates = |l: usize| vec![l * 250, 8000, 44100, l];
    (
        vec![
            scn("basis", "every block length 1..16, every unit impulse (a basis of the space), every pair of band edges on and between the bins (also outside 0..fs/2 and reversed), 4 sample rates", move |ctx| {
                let l = 1 + ctx.choose("fft_len", t.of(16, 24));
                let fs = ctx.pick("fs", &rates(l));
                let top = l as i64 + 3;
                let lo = ctx.choose("low", (top + 2) as usize) as i64 - 1;
                let hi = ctx.choose("high", (top + 2) as usize) as i64 - 1;
                // edges on a bin only where the bin frequency is what any way of computing it gives
                if (lo % 2 == 0 || hi % 2 == 0) && fs % l != 0 {
                    return Ok(());
                }
                let i = ctx.choose("impulse", l);
                let mut x = vec![0.0; l];
                x[i] = 1.0;
                bp(ctx, &x, l, fs, lo, hi)
            }),
            scn("blocks", "all sequences of up to 3 (thorough 4) blocks over {impulse, -2*cosine, ramp, zero, mixed}: each block filtered on its own, and by linearity as the sum of its parts", move |ctx| {
                let l = ctx.pick("fft_len", &[8usize, 5, 12, 2]);
                let n = ctx.choose("blocks", t.of(4, 5));
                let mut x = vec![];
                for _ in 0..n {
                    let kind = ctx.choose("block", 5);
                    x.extend((0..l).map(|i| match kind {
                        0 => if i == 1 { 1.0 } else { 0.0 },
                        1 => -2.0 * (2.0 * PI * i as f64 / l as f64).cos(),
                        2 => i as f64,
                        3 => 0.0,
                        _ => sig(1, l)[i] + sig(2, l)[i] * 10.0,
                    }));
                }
                let (lo, hi) = ctx.pick("band", &[(1i64, 3i64), (2, 4), (0, 1), (3, 99), (-1, 0)]);
                bp(ctx, &x, l, l * 100, lo, hi)
            }),
            scn("tones", "block lengths 16..256 (odd ones too): every sinusoid of the block's own frequencies, both phases, against 8 bands", move |ctx| {
                let l = ctx.pick("fft_len", &[16usize, 33, 64, 100, 255, 256]);
                let b = ctx.choose("bin", l / 2 + 1);
                let ph = ctx.choose("phase", 2) as f64 * PI / 2.0;
                let x: Vec<f64> = (0..2 * l).map(|i| (2.0 * PI * ((b * i) % l) as f64 / l as f64 + ph).cos()).collect();
                let li = l as i64;
                let (lo, hi) = ctx.pick("band", &[(1, li / 2), (li / 2, li), (li / 4, li / 4), (0, 0), (0, li), (li, li), (3, 2), (li / 3, li / 2 + 1)]);
                bp(ctx, &x, l, l * 32, lo, hi)
            }),
            scn("large", "block length 1024 (thorough also 8192): 4 signals of 1..3 blocks, 5 bands", move |ctx| {
                let l = ctx.pick("fft_len", t.of(&[1024usize, 1000][..], &[1024usize, 1000, 8192][..]));
                let n = 1 + ctx.choose("blocks", 3);
                let kind = 1 + ctx.choose("signal", 4);
                let li = l as i64;
                let (lo, hi) = ctx.pick("band", &[(li / 4, li / 2), (1, 41), (0, li), (161, 201), (li / 2, li / 2)]);
                bp(ctx, &sig(kind, n * l), l, l * 8, lo, hi)
            }),
            scn("no-state", "filtering B after A in one stream equals filtering B alone, for all pairs of 6 blocks x 3 bands, to the bit", move |ctx| {
                let l = 16;
                let (a, b) = (ctx.choose("a", 6), ctx.choose("b", 6));
                let (lo, hi) = ctx.pick("band", &[(3i64, 9i64), (0, 5), (7, 40)]);
                let (xa, xb) = (sig(a, l), sig(b, l));
                let (fl, fh) = (edge(lo, 1600, l), edge(hi, 1600, l));
                let both: Vec<f64> = xa.iter().chain(&xb).cloned().collect();
                let g = pull(k::bpf::bandpass(fl, fh, both.into_iter(), 1600, l), 2 * l + 1)?;
                let gb = pull(k::bpf::bandpass(fl, fh, xb.into_iter(), 1600, l), l + 1)?;
                ensure!(g.len() == 2 * l, "{} samples for {}", g.len(), 2 * l);
                close(ctx, "second block of a stream against the block alone", &g[l..], &gb, 0.0)
            }),
            scn("lengths", "every block length 17..150 (thorough 300): a dense signal of 2 blocks, 7 bands with edges between the bins, 2 rates", move |ctx| {
                let l = 17 + ctx.choose("fft_len", t.of(134, 284));
                let li = l as i64;
                let (lo, hi) = ctx.pick("band", &[(-1i64, li + 1), (1, 3), (li / 2 / 2 * 2 + 1, li + 1), (3, li / 2 / 2 * 2 + 1), (-1, 1), (li / 2 * 2 - 1, li / 2 * 2 + 1), (5, 5)]);
                let fs = ctx.pick("fs", &[44100usize, l * 10]);
                bp(ctx, &sig(1, 2 * l).iter().enumerate().map(|(i, x)| x + (i * i % 23) as f64 * 0.1 - 0.9).collect::<Vec<_>>(), l, fs, lo, hi)
            }),
            scn("many-blocks", "streams of 300, 1000 and 5000 blocks of 4..16 samples (thorough 100000): every block filtered on its own, silent and loud blocks mixed", move |ctx| {
                let l = ctx.pick("fft_len", &[8usize, 5, 16, 4, 1, 2]);
                let nb = ctx.pick("blocks", t.of(&[300usize, 1000, 5000][..], &[300usize, 5000, 100_000][..]));
                let (lo, hi) = ctx.pick("band", &[(3i64, 7i64), (-1, 1), (1, 99)]);
                let x: Vec<f64> = (0..nb * l)
                    .map(|i| {
                        let b = i / l;
                        let a = if b % 5 == 3 { 0.0 } else if b % 97 == 50 { 100.0 } else { 1.0 };
                        a * ((i as f64 * 0.77).sin() + (i * 7 % 13) as f64 * 0.2)
                    })
                    .collect();
                let m = x.iter().fold(0.0, |a: f64, v| a.max(v.abs()));
                let fs = l * 100;
                let got = pull(k::bpf::bandpass(edge(lo, fs, l), edge(hi, fs, l), x.iter().cloned(), fs, l), x.len() + 1)?;
                ensure!(got.len() == x.len(), "{} samples for {}", got.len(), x.len());
                for (b, c) in x.chunks(l).enumerate() {
                    let w = project(c, &|b| 2 * b as i64 >= lo && 2 * b as i64 <= hi);
                    let top = c.iter().fold(1e-9, |a: f64, v| a.max(v.abs()));
                    for i in 0..l {
                        ensure!((got[b * l + i] - w[i]).abs() <= 1e-9 * top * l as f64, "sample {i} of block {b} of {nb} is {} instead of {} (largest sample {m})", got[b * l + i], w[i]);
                    }
                }
                ctx.step(x.len());
                Ok(())
            }),
            scn("magnitudes", "signals of magnitude 1e-12 to 1e12, mixed within one stream: 25 scales x 5 block lengths x 3 bands, block-relative error", move |ctx| {
                let l = ctx.pick("fft_len", &[16usize, 9, 64, 100, 512]);
                let s = 10f64.powi(ctx.choose("scale", 25) as i32 - 12);
                let li = l as i64;
                let (lo, hi) = ctx.pick("band", &[(3i64, li / 2 / 2 * 2 + 1), (-1, 5), (5, 3 * li + 1)]);
                let x: Vec<f64> = sig(1, l).iter().map(|v| v * s).chain(sig(2, l)).chain(sig(3, l).iter().map(|v| v / s)).collect();
                let fs = l * 48;
                let got = pull(k::bpf::bandpass(edge(lo, fs, l), edge(hi, fs, l), x.iter().cloned(), fs, l), 3 * l + 1)?;
                ensure!(got.len() == 3 * l, "{} samples for {}", got.len(), 3 * l);
                for (b, c) in x.chunks(l).enumerate() {
                    let w = project(c, &|b| 2 * b as i64 >= lo && 2 * b as i64 <= hi);
                    let top = c.iter().fold(0.0, |a: f64, v| a.max(v.abs()));
                    close(ctx, &format!("bandpass with fft_len={l} block {b} of magnitude {top}"), &got[b * l..(b + 1) * l], &w, 1e-9 * top * l as f64)?;
                }
                Ok(())
            }),
            scn("sources", "8 differently shaped sources, 0..6 blocks of 5 lengths", move |ctx| {
                let shape = ctx.choose("shape", SHAPES);
                let l = ctx.pick("fft_len", &[1usize, 2, 5, 16, 64]);
                let n = l * ctx.choose("blocks", 7);
                let x = sig(1, n);
                let a = pull(k::bpf::bandpass(2.0 * 50.0, 5.0 * 50.0 + 25.0, shaped(x.clone(), shape), l * 100, l), n + 1)?;
                let b = pull(k::bpf::bandpass(2.0 * 50.0, 5.0 * 50.0 + 25.0, x.into_iter(), l * 100, l), n + 1)?;
                close(ctx, &format!("bandpass from source shape {shape}"), &a, &b, 0.0)?;
                ensure!(a.len() == n, "bandpass from source shape {shape}: {} samples for {n}", a.len());
                Ok(())
            }),
            scn("prime-lengths", "block lengths 509, 510, 1009, 1021, 1023, 1025, 2048, 2187 (thorough also 4096, 8192, 10007): one dense block, 3 bands", move |ctx| {
                let l = ctx.pick("fft_len", t.of(&[509usize, 510, 1009, 1021, 1023, 1025, 2048, 2187][..], &[509usize, 1021, 1023, 1025, 2048, 2187, 4096, 8192, 10_007][..]));
                let li = l as i64;
                let (lo, hi) = ctx.pick("band", &[(li / 4 * 2 + 1, li / 2 * 2 - 1), (1, 41), (-1, li / 3 * 2 + 1)]);
                bp(ctx, &sig(1, l).iter().enumerate().map(|(i, x)| x + (i * i % 23) as f64 * 0.1).collect::<Vec<_>>(), l, 44100, lo, hi)
            }),
            scn("slow", "block lengths 2..64 at sample rates whose bins are 0.1 to 3 Hz apart and seldom whole numbers: every pair of band edges between the bins, a dense signal", move |ctx| {
                let l = 2 + ctx.choose("fft_len", 63);
                let fs = ctx.pick("fs", &[l + 1, l - 1, 3 * l / 2, l / 2 + 1, 2 * l + 1, l / 10 + 1, 7, 3 * l - 1]);
                let top = l / 2 + 2;
                let step = (top / t.of(7, 14)).max(1);
                let n = top / step + 1;
                let lo = (ctx.choose("low", n) * step) as i64 * 2 - 1;
                let hi = (ctx.choose("high", n) * step) as i64 * 2 - 1;
                bp(ctx, &sig(1, l).iter().enumerate().map(|(i, x)| x + (i * i % 23) as f64 * 0.1 - 0.9).collect::<Vec<_>>(), l, fs, lo, hi)
            }),
            scn("close-edges", "band edges a millionth of a bin above and below a bin: 40 block lengths x 6 sample rates (44100, 8000, 7, l+1, 10 MHz, 1 GHz) x 6 pairs of bins x 4 combinations of sides", move |ctx| {
                let l = ctx.pick("fft_len", &[2usize, 3, 4, 5, 7, 8, 10, 12, 16, 20, 31, 32, 33, 50, 64, 100, 127, 128, 129, 250, 256]);
                let fs = ctx.pick("fs", &[44100usize, 8000, 7, l + 1, 10_000_000, 1_000_000_000]);
                let top = l / 2;
                let (b0, b1) = ctx.pick("bins", &[(0usize, top), (1.min(top), top), (top / 2, top / 2), (top / 3, top - top / 4), (0, 0), (top, top)]);
                let (so, sh) = (ctx.choose("lo above", 2) == 1, ctx.choose("hi above", 2) == 1);
                let w = fs as f64 / l as f64;
                let fl = (b0 as f64 + if so { 1e-6 } else { -1e-6 }) * w;
                let fh = (b1 as f64 + if sh { 1e-6 } else { -1e-6 }) * w;
                let x: Vec<f64> = sig(1, l).iter().enumerate().map(|(i, x)| x + (i * i % 23) as f64 * 0.1 - 0.9).collect();
                let got = pull(k::bpf::bandpass(fl, fh, x.iter().cloned(), fs, l), l + 1)?;
                let want = project(&x, &|b| (b > b0 || (b == b0 && !so)) && (b < b1 || (b == b1 && sh)));
                let m = x.iter().fold(1e-300, |a: f64, v| a.max(v.abs()));
                close(ctx, &format!("bandpass({fl}..{fh} Hz, fs={fs}, fft_len={l})"), &got, &want, 1e-9 * m * l as f64)
            }),
            scn("huge-blocks", "block lengths 32768 to 262144 (thorough to 2^22), also odd and round ones x 5 sample rates x 7 bands with edges between the bins: one tone next to each side of both edges, one at 0, one in the middle and one in the last bin", move |ctx| {
                let l = ctx.pick("fft_len", t.of(&[65536usize, 131072, 100_000, 262_144, 99_999, 32_768, 65_537][..], &[65536usize, 131072, 100_000, 262_144, 99_999, 32_768, 65_537, 1 << 20, 1_000_000, 1 << 22][..]));
                let fs = ctx.pick("fs", &[44_100usize, 8 * l, l - 1, 65_535, 10_000_000]);
                let top = l / 2;
                let (lo, hi) = ctx.pick("band", &[(top / 4, top / 2), (0, top / 3), (top - 3, top + 5), (1, 2), (top / 7, top / 7 + 1), (100, top - 100), (top / 2, top - 1)]);
                // edges half a bin below bin lo and half a bin above bin hi
                let at = |half: f64| half * fs as f64 / l as f64;
                let (fl, fh) = (at(lo as f64 - 0.5), at(hi as f64 + 0.5));
                let mut bins: Vec<usize> = vec![0, lo, lo.saturating_sub(1), hi.min(top), (hi + 1).min(top), (lo + hi.min(top)) / 2, top];
                bins.sort_unstable();
                bins.dedup();
                let tone = |b: usize, i: usize| (1.0 + (b % 5) as f64) * (2.0 * PI * ((b * i) % l) as f64 / l as f64 + if b == 0 || 2 * b == l { 0.0 } else { 0.3 }).cos();
                let x: Vec<f64> = (0..l).map(|i| bins.iter().map(|&b| tone(b, i)).sum()).collect();
                let got = pull(k::bpf::bandpass(fl, fh, x.into_iter(), fs, l), l + 1)?;
                let want: Vec<f64> = (0..l).map(|i| bins.iter().filter(|&&b| b >= lo && b <= hi).map(|&b| tone(b, i)).sum()).collect();
                close(ctx, &format!("bandpass({fl}..{fh} Hz, fs={fs}, fft_len={l}) of tones in bins {bins:?}"), &got, &want, 1e-6)
            }),
        ],
        &["streams consist of whole blocks (the filter refuses anything else)", "on-bin band edges are only used where the bin frequencies are exactly representable"],
    )
}

// ------------------------------------------------------------------ C37

/// The squared magnitude of a 64th-order digital Butterworth band-pass (bilinear transform, prewarped edges).
fn butter_gain(f: f64, lo: f64, hi: f64, fs: f64) -> f64 {
    let w = |x: f64| (PI * x / fs).tan();
    let (a, b, x) = (w(lo), w(hi), w(f));
    let u = (x * x - a * b) / (x * (b - a));
    1.0 / (1.0 + u.abs().powi(128))
}

/// Band edges as fractions of the sample rate.
const BUTTER: [(f64, f64); 18] = [(0.1, 0.2), (0.2, 0.3), (0.25, 0.35), (0.3, 0.4), (0.1, 0.15), (0.02, 0.05), (0.05, 0.1), (0.15, 0.17), (0.35, 0.4), (0.22, 0.3), (0.3, 0.305), (0.25, 0.255), (0.1, 0.11), (0.05, 0.06), (0.02, 0.025), (0.2, 0.215), (0.35, 0.355), (0.24, 0.26)];
const BUTTER_BLOCK: usize = 81920;

fn butter(lo: f64, hi: f64, x: Vec<f64>, fs: usize) -> Result<Vec<f64>, String> {
    let n = x.len();
    pull(k::bpf::butterpass(lo, hi, x.into_iter(), fs), n + 10)
}

pub fn c37(t: Tier) -> Set {
    (
        vec![
            scn("tones", "18 bands x 2 sample rates (thorough 5) x 15 tones (inside, outside, near and on the edges) x 3 phases: the middle of a block of 81920 samples against the analytic zero-phase gain", move |ctx| {
                let (l, h) = ctx.pick("band", &BUTTER);
                let fs = ctx.pick("fs", t.of(&[1000usize, 44100][..], &[1000usize, 10_000, 44100, 96000, 8192][..]));
                let f = fs as f64;
                let tones = [0.5 * (l + h), l + 0.1 * (h - l), h - 0.1 * (h - l), l, h, l * 0.8, h * 1.15, l - 0.2 * (h - l), h + 0.2 * (h - l), l * 0.5, h + 0.08, 0.45, 0.49, l + 0.37 * (h - l), 0.01];
                let at = ctx.pick("tone", &tones);
                let ph = ctx.pick("phase", t.of(&[0.3f64, 1.9][..], &[0.0f64, 0.3, 1.9, -2.5][..]));
                let x: Vec<f64> = (0..BUTTER_BLOCK).map(|i| (2.0 * PI * at * i as f64 + ph).cos()).collect();
                let y = butter(l * f, h * f, x.clone(), fs)?;
                ensure!(y.len() == x.len(), "{} samples for {}", y.len(), x.len());
                let g = butter_gain(at, l, h, 1.0);
                for i in BUTTER_BLOCK / 2 - 1000..BUTTER_BLOCK / 2 + 1000 {
                    let e = (y[i] - g * x[i]).abs();
                    ensure!(e < 1e-3, "band {}..{} at {fs}: tone at {} Hz: sample {i} is {} instead of {} (gain {g})", l * f, h * f, at * f, y[i], g * x[i]);
                }
                ctx.step(2000);
                ctx.observe(hash_f(&y[BUTTER_BLOCK / 2..BUTTER_BLOCK / 2 + 64]));
                Ok(())
            }),
            scn("lengths", "every stream length 0..1000 and around one and two blocks x 3 bands: as many samples out as in, all finite", move |ctx| {
                let k = ctx.choose("len", 1000 + 14);
                let n = if k < 1000 { k } else { [81919usize, 81920, 81921, 81922, 82306, 82307, 82308, 82309, 8192, 10000, 163839, 163840, 163841, 164227][k - 1000] };
                let (l, h) = ctx.pick("band", &[BUTTER[0], BUTTER[6], BUTTER[3]]);
                let x: Vec<f64> = (0..n).map(|i| (i as f64 * 0.9).sin() + 0.3 * ((i * i) as f64 * 0.01).cos()).collect();
                let y = butter(l * 1000.0, h * 1000.0, x, 1000)?;
                ensure!(y.len() == n, "{} samples for {n}", y.len());
                ensure!(y.iter().all(|v| v.is_finite() && v.abs() < 1e3), "{n} samples: unbounded output");
                ctx.step(n);
                ctx.observe(hash_f(&y));
                Ok(())
            }),
            scn("linear", "2 bands, 400 samples: every unit impulse (a basis) and every sum of a scaled impulse and a fixed dense signal", move |ctx| {
                let (l, h) = ctx.pick("band", &[BUTTER[0], BUTTER[2]]);
                let n = 400;
                let i = ctx.choose("impulse", n);
                let a = ctx.pick("scale", &[-2.5f64, 1e3]);
                let base: Vec<f64> = (0..n).map(|i| (i as f64 * 0.9).sin() + 0.3 * ((i * i) as f64 * 0.01).cos()).collect();
                let mut e = vec![0.0; n];
                e[i] = 1.0;
                let both: Vec<f64> = base.iter().zip(&e).map(|(b, e)| b + a * e).collect();
                let (f, g) = (l * 8000.0, h * 8000.0);
                let (yb, ye, y) = (butter(f, g, base, 8000)?, butter(f, g, e, 8000)?, butter(f, g, both, 8000)?);
                ensure!(yb.len() == n && ye.len() == n && y.len() == n, "lengths");
                for k in 0..n {
                    let w = yb[k] + a * ye[k];
                    ensure!((y[k] - w).abs() < 1e-7 * (1.0 + a.abs()), "impulse at {i} times {a} plus a signal: sample {k} is {} instead of {w}", y[k]);
                }
                ctx.step(n);
                ctx.observe(hash_f(&y));
                Ok(())
            }),
            scn("blocks", "streams of 2 and 3 blocks over 4 kinds, full or with a short last block: each block comes out as it does alone", move |ctx| {
                let n = 2 + ctx.choose("blocks", 2);
                let kinds: Vec<usize> = (0..n).map(|_| ctx.choose("kind", t.of(3, 4))).collect();
                let last = ctx.pick("last", &[BUTTER_BLOCK, 5000, 20]);
                let (l, h) = BUTTER[0];
                let mk = |kind: usize, len: usize| -> Vec<f64> {
                    (0..len)
                        .map(|i| match kind {
                            0 => (i as f64 * 0.9).sin(),
                            1 => ((i * i) as f64 * 0.003).cos() * 3.0,
                            2 => 0.0,
                            _ => if i % 97 == 0 { 5.0 } else { 0.1 },
                        })
                        .collect()
                };
                let parts: Vec<Vec<f64>> = (0..n).map(|b| mk(kinds[b], if b + 1 == n { last } else { BUTTER_BLOCK })).collect();
                let y = butter(l * 1000.0, h * 1000.0, parts.concat(), 1000)?;
                let mut at = 0;
                for (b, p) in parts.iter().enumerate() {
                    let alone = butter(l * 1000.0, h * 1000.0, p.clone(), 1000)?;
                    ensure!(y.len() >= at + alone.len() && y[at..at + alone.len()] == alone[..], "blocks {kinds:?}: block {b} does not come out as it does alone");
                    at += alone.len();
                }
                ensure!(y.len() == at, "{} samples for {at}", y.len());
                ctx.step(at);
                ctx.observe(hash_f(&y[..64]));
                Ok(())
            }),
            scn("streaming", "an unbounded source: nothing consumed at construction, at most two blocks for the first, one more for each further block of output", move |ctx| {
                let (l, h) = BUTTER[ctx.choose("band", 4)];
                let taken = std::rc::Rc::new(std::cell::Cell::new(0usize));
                let c = taken.clone();
                let src = std::iter::from_fn(move || {
                    c.set(c.get() + 1);
                    Some((c.get() as f64 * 0.9).sin())
                });
                let mut it = k::bpf::butterpass(l * 1000.0, h * 1000.0, src, 1000);
                ensure!(taken.get() == 0, "{} samples consumed at construction", taken.get());
                let n = t.of(3, 12) * BUTTER_BLOCK;
                for i in 0..n {
                    ensure!(it.next().is_some(), "ended after {i} samples on an unbounded source");
                    ensure!(taken.get() <= (i / BUTTER_BLOCK + 2) * BUTTER_BLOCK, "{} samples consumed to produce sample {i}", taken.get());
                }
                ctx.step(n);
                ctx.observe(taken.get() as u64);
                Ok(())
            }),
            scn("skirts", "18 bands x 14 tones where the gain changes fastest (|u| = 0.97..1.03 at both edges) x 2 sample rates: the gain of order 64 and no other", move |ctx| {
                let (l, h) = ctx.pick("band", &BUTTER);
                let fs = ctx.pick("fs", &[8000usize, 1000]);
                let u = ctx.pick("u", &[0.97f64, 0.98, 0.99, 1.0, 1.01, 1.02, 1.03]) * if ctx.choose("low", 2) == 1 { -1.0 } else { 1.0 };
                let (a, b) = ((PI * l).tan(), (PI * h).tan());
                let d = u * (b - a);
                let at = ((d + (d * d + 4.0 * a * b).sqrt()) / 2.0).atan() / PI;
                let x: Vec<f64> = (0..BUTTER_BLOCK).map(|i| (2.0 * PI * at * i as f64 + 0.7).cos()).collect();
                let y = butter(l * fs as f64, h * fs as f64, x.clone(), fs)?;
                ensure!(y.len() == x.len(), "{} samples for {}", y.len(), x.len());
                let g = 1.0 / (1.0 + u.abs().powi(128));
                for i in BUTTER_BLOCK / 2 - 500..BUTTER_BLOCK / 2 + 500 {
                    let e = (y[i] - g * x[i]).abs();
                    ensure!(e < 1e-3, "band {}..{} of fs={fs}: tone at {} Hz (u={u}): sample {i} is {} instead of {} (gain {g})", l * fs as f64, h * fs as f64, at * fs as f64, y[i], g * x[i]);
                }
                ctx.step(1000);
                ctx.observe(hash_f(&y[BUTTER_BLOCK / 2..BUTTER_BLOCK / 2 + 64]));
                Ok(())
            }),
            scn("many-blocks", "a stream of 131 blocks (thorough 1031), that is, 10.7 million samples, of 3 kinds in turn: each block comes out as it does alone", move |ctx| {
                let first = ctx.choose("first", t.of(2, 3));
                let n = t.of(131, 1031);
                let (l, h) = BUTTER[0];
                let part: Vec<Vec<f64>> = (0..3)
                    .map(|k| (0..BUTTER_BLOCK).map(|i| match k { 0 => (i as f64 * 0.9).sin(), 1 => ((i * i) as f64 * 0.003).cos() * 3.0, _ => if i % 97 == 0 { 5.0 } else { 0.1 } }).collect())
                    .collect();
                let alone: Vec<Vec<f64>> = part.iter().map(|p| butter(l * 1000.0, h * 1000.0, p.clone(), 1000)).collect::<Result<_, _>>()?;
                let src = (0..n).flat_map(|b| part[(b + first) % 3].iter().copied());
                let mut it = k::bpf::butterpass(l * 1000.0, h * 1000.0, src, 1000);
                for b in 0..n {
                    let w = &alone[(b + first) % 3];
                    for (i, w) in w.iter().enumerate() {
                        let v = it.next();
                        ensure!(v == Some(*w), "{n} blocks: sample {i} of block {b} is {v:?} instead of {w}");
                    }
                    ctx.step(BUTTER_BLOCK);
                }
                ensure!(it.next().is_none(), "{n} blocks: more samples out than in");
                ctx.observe(n as u64);
                Ok(())
            }),
            scn("levels", "4 bands, streams of 500 and 3000 samples and of two blocks, each scaled by 10 factors from 1e-100 to 1e100, the second block by another: the output scaled alike", move |ctx| {
                let (l, h) = ctx.pick("band", &[BUTTER[0], BUTTER[2], BUTTER[6], BUTTER[10]]);
                let n = ctx.pick("len", &[500usize, 3000, BUTTER_BLOCK + 700]);
                let s = ctx.pick("scale", &[1e-6f64, 1e-10, 1e-13, 1e-16, 1e-30, 1e-100, -1.0, 1e6, 1e30, 1e100]);
                let s2 = ctx.pick("second", if n > BUTTER_BLOCK { &[1.0, 1e-12, 1e9][..] } else { &[1.0][..] });
                let x: Vec<f64> = (0..n).map(|i| (i as f64 * 0.9).sin() + 0.3 * ((i * i) as f64 * 0.01).cos()).collect();
                let f = |i: usize| if i < BUTTER_BLOCK { s } else { s2 };
                let y = butter(l * 1000.0, h * 1000.0, x.clone(), 1000)?;
                let z = butter(l * 1000.0, h * 1000.0, x.iter().enumerate().map(|(i, v)| v * f(i)).collect(), 1000)?;
                ensure!(y.len() == n && z.len() == n, "{} and {} samples of {n}", y.len(), z.len());
                for i in 0..n {
                    ensure!((z[i] / f(i) - y[i]).abs() < 1e-7, "a stream scaled by {}: sample {i} of {n} is {} instead of {}", f(i), z[i], y[i] * f(i));
                }
                ctx.step(n);
                ctx.observe(hash_f(&z[..64]));
                Ok(())
            }),
        ],
        &["bands at most a tenth of the sample rate wide between 2% and 40% of it for the gain: the 64th-order design of the sci-rs crate is numerically unsound for others", "tones compared within 1e-3 in the middle of a block, away from the start-up of the filter"],
    )
}
