//! C22 C23 C24: chaos-based modulation.
use crate::core::*;
use crate::p_iter::Set;
use crate::p_psk::{nrz, sps_list};
use crate::{ensure, Tier};
use komunikilo::chaos::*;
use komunikilo::csk::*;
use komunikilo::dcsk::*;
use komunikilo::fh_ofdm_dcsk::*;
use num_complex::Complex;
use std::f64::consts::PI;

type C = Complex<f64>;

// The parameters documented in csk.rs / dcsk.rs are not part of the statement: the two sequences are
// read off the transmitter itself (all ones and all zeros), and any message must then be predicted by them.

fn csk_seqs(n: usize) -> Result<(Vec<f64>, Vec<f64>), String> {
    let a = pull(tx_baseband_csk(std::iter::repeat(true).take(n)), n + 1)?;
    let b = pull(tx_baseband_csk(std::iter::repeat(false).take(n)), n + 1)?;
    ensure!(a.len() == n && b.len() == n, "CSK: {} and {} samples for {n} bits", a.len(), b.len());
    Ok((a, b))
}

fn csk_rx(x: Vec<f64>, lim: usize) -> Result<Option<Vec<bool>>, String> {
    #[cfg(kmc)]
    {
        pull(komunikilo::csk::kmc_hook::rx_baseband_csk(x.into_iter()), lim).map(Some)
    }
    #[cfg(not(kmc))]
    {
        let _ = (x, lim);
        Ok(None)
    }
}

fn csk(ctx: &mut Ctx, m: &[bool]) -> R {
    let what = format!("CSK message of {} bits {}", m.len(), bstr(m));
    let tx = pull(tx_baseband_csk(m.iter().cloned()), m.len() + 1)?;
    let (a, b) = csk_seqs(m.len())?;
    let want: Vec<f64> = m.iter().enumerate().map(|(i, &x)| if x { a[i] } else { b[i] }).collect();
    close(ctx, &format!("{what} (samples)"), &tx, &want, 0.0)?;
    ensure!(tx.iter().all(|x| x.is_finite()), "{what}: samples are not finite");
    if let Some(rx) = csk_rx(tx, m.len() + 1)? {
        same_bits(ctx, &what, &rx, m)?;
    }
    Ok(())
}

fn dcsk(ctx: &mut Ctx, m: &[bool]) -> R {
    let what = format!("DCSK message of {} bits {}", m.len(), bstr(m));
    let tx = pull(tx_baseband_dcsk(m.iter().cloned()), 2 * m.len() + 1)?;
    ensure!(tx.len() == 2 * m.len(), "{what}: {} samples", tx.len());
    for (i, p) in tx.chunks(2).enumerate() {
        ensure!(p[0] != 0.0 && p[0].is_finite(), "{what}: reference sample {i} is {}", p[0]);
        ensure!(p[1] == nrz(m[i]) * p[0], "{what}: information sample {i} is {} for reference {} and bit {}", p[1], p[0], m[i]);
    }
    let rx = pull(rx_baseband_dcsk(tx.into_iter()), m.len() + 1)?;
    same_bits(ctx, &what, &rx, m)
}

/// Every state of a chaotic orbit up to `max` steps or the first repetition.
fn orbit(ctx: &mut Ctx, mut it: impl Iterator<Item = f64>, max: usize, f: &mut dyn FnMut(usize, f64) -> R) -> Result<bool, String> {
    // Brent: remember one checkpoint state; the generator's state is the number it last returned
    let (mut mark, mut power, mut lam) = (f64::NAN, 1usize, 0usize);
    for i in 0..max {
        let Some(x) = it.next() else { return Err(format!("the sequence ended after {i} items")) };
        f(i, x)?;
        ctx.step(1);
        if x.to_bits() == mark.to_bits() {
            return Ok(true);
        }
        lam += 1;
        if lam == power {
            mark = x;
            power *= 2;
            lam = 0;
        }
    }
    Ok(false)
}

pub fn c22(t: Tier) -> Set {
    (
        vec![
            scn("csk-messages", "CSK: all messages up to 14 bits, every length 0..600 in 6 patterns", move |ctx| {
                let lens: Vec<usize> = (0..600).collect();
                let m = message(ctx, t.of(14, 18), &lens, PATTERNS);
                csk(ctx, &m)
            }),
            scn("dcsk-messages", "DCSK: all messages up to 14 bits, every length 0..600 in 6 patterns", move |ctx| {
                let lens: Vec<usize> = (0..600).collect();
                let m = message(ctx, t.of(14, 18), &lens, PATTERNS);
                dcsk(ctx, &m)
            }),
            scn("long", "CSK and DCSK: ladder to 2^20 bits (thorough 2^23)", move |ctx| {
                let n = ctx.pick("n", &ladder(10, t.of(20, 23)));
                let p = ctx.choose("pattern", 3);
                if ctx.choose("modem", 2) == 0 { csk(ctx, &pattern(p, n)) } else { dcsk(ctx, &pattern(p, n)) }
            }),
            scn("dcsk-orbit", "every state of the DCSK reference orbit until the orbit closes (a proof for messages of any length) or 2^31 steps: non-zero, finite, information sample right for both bits", move |ctx| {
                let bit = ctx.choose("bit", 2) == 1;
                let mut s = tx_baseband_dcsk(std::iter::repeat(bit));
                let it = std::iter::from_fn(move || {
                    let r = s.next()?;
                    let i = s.next()?;
                    Some(if i == nrz(bit) * r { r } else { f64::NAN })
                });
                let closed = orbit(ctx, it, 1usize << t.of(29, 33), &mut |i, x| {
                    ensure!(x != 0.0 && x.is_finite(), "DCSK: reference sample {i} is {x} (or its information sample does not match)");
                    Ok(())
                })?;
                ctx.observe(closed as u64);
                ctx.note(|| format!("orbit closed: {closed}"));
                Ok(())
            }),
            scn("csk-orbit", "the joint orbit of the two CSK sequences until both close or 2^29 steps: the sequences never meet, so the nearer one is always the one sent", move |ctx| {
                let mut a = tx_baseband_csk(std::iter::repeat(true));
                let mut b = tx_baseband_csk(std::iter::repeat(false));
                // joint state = both numbers; hash for Brent, exact comparison on a hit
                let (mut ma, mut mb, mut power, mut lam) = (f64::NAN, f64::NAN, 1u64, 0u64);
                let mut closed = false;
                for i in 0..1u64 << t.of(29, 33) {
                    let (Some(x), Some(y)) = (a.next(), b.next()) else { return Err("CSK sequence ended".into()) };
                    if !(x.is_finite() && y.is_finite()) || x == y {
                        return Err(format!("CSK: at sample {i} the two sequences are {x} and {y}: the bit cannot be told"));
                    }
                    if x == ma && y == mb {
                        closed = true;
                        break;
                    }
                    lam += 1;
                    if lam == power {
                        (ma, mb) = (x, y);
                        power *= 2;
                        lam = 0;
                    }
                    if i % 1024 == 0 {
                        ctx.step(1024);
                    }
                }
                ctx.observe(closed as u64);
                ctx.note(|| format!("joint orbit closed: {closed}"));
                Ok(())
            }),
            scn("decision", "CSK receiver decides for the nearer sequence: each of 400 samples moved to 9 points between and beyond the two sequences", move |ctx| {
                let i = ctx.choose("i", 400);
                let w = ctx.pick("w", &[0.0, 0.25, 0.49, 0.51, 0.75, 1.0, -0.5, 1.5, 30.0]);
                let (a, b) = csk_seqs(401)?;
                let m = content(401);
                let mut x: Vec<f64> = pull(tx_baseband_csk(m.iter().cloned()), 402)?;
                x[i] = a[i] * w + b[i] * (1.0 - w);
                if let Some(rx) = csk_rx(x, 402)? {
                    let mut want = m;
                    want[i] = w > 0.5;
                    same_bits(ctx, &format!("CSK with sample {i} at {w}"), &rx, &want)?;
                }
                Ok(())
            }),
            scn("far", "2^24 + 2^12 bits (thorough 2^27) streamed through DCSK transmitter and receiver (and CSK's), 3 patterns", move |ctx| {
                let n = (1usize << t.of(24, 27)) + (1 << 12);
                let p = ctx.pick("pattern", &[0usize, 2, 5]);
                if ctx.choose("modem", 2) == 0 {
                    let rx = rx_baseband_dcsk(tx_baseband_dcsk((0..n).map(|i| bit_at(p, i))));
                    stream_bits(ctx, "DCSK long stream", rx, n, |i| bit_at(p, i))
                } else {
                    #[cfg(kmc)]
                    {
                        let rx = komunikilo::csk::kmc_hook::rx_baseband_csk(tx_baseband_csk((0..n).map(|i| bit_at(p, i))));
                        stream_bits(ctx, "CSK long stream", rx, n, |i| bit_at(p, i))?;
                    }
                    Ok(())
                }
            }),
            scn("sources", "CSK and DCSK from 8 differently shaped sources, every length 0..64, 3 patterns", move |ctx| {
                let shape = ctx.choose("shape", SHAPES);
                let n = ctx.choose("n", 65);
                let m = pattern(ctx.pick("pattern", &[0usize, 2, 3]), n);
                let what = format!("source shape {shape} of {n} bits");
                if ctx.choose("modem", 2) == 0 {
                    let a = pull(tx_baseband_dcsk(shaped(m.clone(), shape)), 2 * n + 1)?;
                    let b = pull(tx_baseband_dcsk(m.clone().into_iter()), 2 * n + 1)?;
                    close(ctx, &format!("DCSK {what}"), &a, &b, 0.0)?;
                    let rx = pull(rx_baseband_dcsk(shaped(a, shape)), n + 1)?;
                    same_bits(ctx, &format!("DCSK {what}"), &rx, &m)
                } else {
                    let a = pull(tx_baseband_csk(shaped(m.clone(), shape)), n + 1)?;
                    let b = pull(tx_baseband_csk(m.clone().into_iter()), n + 1)?;
                    close(ctx, &format!("CSK {what}"), &a, &b, 0.0)?;
                    if let Some(rx) = csk_rx(a, n + 1)? {
                        same_bits(ctx, &format!("CSK {what}"), &rx, &m)?;
                    }
                    Ok(())
                }
            }),
        ],
        &["no noise between transmitter and receiver", "when the hook is not available in the tree only the transmitter side of CSK is checked"],
    )
}

// ------------------------------------------------------------------ C23

fn grid01(k: usize) -> Vec<f64> {
    let mut v: Vec<f64> = (0..=k).map(|i| i as f64 / k as f64).collect();
    v.extend([f64::MIN_POSITIVE, f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 0.5 + f64::EPSILON / 2.0, 0.5 - f64::EPSILON / 4.0, 5e-324, 1e-300, 0.1, 0.15, 2.0 / 3.0]);
    v
}

pub fn c23(t: Tier) -> Set {
    let k = t.of(256usize, 2048);
    (
        vec![
            scn("logistic-short", "logistic sequence: mu on a grid of 81 values in [0,4] x 267 starting points x 200 iterations: recurrence and bounds", move |ctx| {
                let mu = ctx.choose("mu", 81) as f64 / 20.0;
                let x0 = ctx.pick("x0", &grid01(k));
                let mut x = x0;
                for (i, y) in LogisticMap::new(mu, x0).take(200).enumerate() {
                    let w = mu * x * (1.0 - x);
                    ensure!((y - w).abs() <= 1e-12 && y == logistic_map(mu, x), "logistic mu={mu} x0={x0}: item {i} is {y} instead of {w}");
                    ensure!((0.0..=1.0).contains(&y), "logistic mu={mu} x0={x0}: item {i} is {y}, outside [0,1]");
                    x = y;
                    ctx.step(1);
                }
                ctx.observe(x.to_bits());
                Ok(())
            }),
            scn("logistic-long", "logistic sequence: 12 parameters near the ends of [0,4] x 20 starting points x 2^18 iterations", move |ctx| {
                let mu = ctx.pick("mu", &[4.0, 3.9, 3.9999999, 4.0 - 1e-15, 3.57, 3.0, 1.0, 0.0, 2.0, 3.828427, 0.5, 3.99]);
                let x0 = ctx.pick("x0", &[0.1, 0.15, 0.5, 0.25, 0.75, 0.3, 1.0, 0.0, 1e-300, 5e-324, 1.0 - f64::EPSILON / 2.0, 0.9, 0.123, 0.7, 0.61, 0.99, 0.01, 0.333, 0.42, 0.87]);
                let mut x = x0;
                let n = 1usize << t.of(18, 24);
                for (i, y) in LogisticMap::new(mu, x0).take(n).enumerate() {
                    ensure!((y - mu * x * (1.0 - x)).abs() <= 1e-12, "logistic mu={mu} x0={x0}: item {i} is {y} after {x}");
                    ensure!((0.0..=1.0).contains(&y), "logistic mu={mu} x0={x0}: item {i} is {y}, outside [0,1]");
                    x = y;
                }
                ctx.step(n);
                ctx.observe(x.to_bits());
                Ok(())
            }),
            scn("chebyshev-short", "cubic map: 8192 starting points in [-1,1] and extremes x 500 iterations", move |ctx| {
                let n = t.of(8192, 65536);
                let c = ctx.choose("x0", n + 21);
                let x0 = if c <= n { -1.0 + 2.0 * c as f64 / n as f64 } else {
                    let g = grid01(1);
                    g[(c - n) % g.len()] * if (c - n) % 2 == 0 { 1.0 } else { -1.0 }
                };
                let mut x = x0;
                for (i, y) in Chebyshev::new(x0).take(500).enumerate() {
                    let w = 3.0 * x * x * x - 2.0 * x;
                    ensure!((y - w).abs() <= 1e-12 && y == chebyshev(x), "cubic map x0={x0}: item {i} is {y} instead of {w}");
                    ensure!((-1.0..=1.0).contains(&y), "cubic map x0={x0}: item {i} is {y}, outside [-1,1]");
                    x = y;
                    ctx.step(1);
                }
                ctx.observe(x.to_bits());
                Ok(())
            }),
            scn("chebyshev-orbit", "cubic map: orbits of 24 starting points until they close (a proof for every number of iterations) or 2^24 steps (thorough 2^30)", move |ctx| {
                let x0 = ctx.pick("x0", &[0.5, 0.1, 0.15, -0.5, 1.0, -1.0, 0.0, 0.9, -0.9, 0.99, 0.333, 0.666, 0.25, 0.75, 0.123, 0.42, 0.61, -0.3, 1e-300, 0.47140452079103173, -0.47140452079103173, 0.7, 0.8, 0.05]);
                let closed = orbit(ctx, Chebyshev::new(x0), 1usize << t.of(24, 30), &mut |i, y| {
                    ensure!((-1.0..=1.0).contains(&y), "cubic map x0={x0}: item {i} is {y}, outside [-1,1]");
                    Ok(())
                })?;
                ctx.observe(closed as u64);
                Ok(())
            }),
            scn("maps", "tent, Bernoulli, logistic and cubic map functions against their formulas: 61 parameters x 267 arguments (both signs)", move |ctx| {
                let mu = ctx.choose("mu", 61) as f64 / 10.0 - 2.0;
                let x = ctx.pick("x", &grid01(k)) * [1.0, -1.0, 3.0, -7.5][ctx.choose("scale", 4)];
                ctx.step(4);
                let chk = |n: &str, g: f64, w: f64| -> R {
                    ensure!((g - w).abs() <= 1e-9 * (1.0 + w.abs()), "{n}({mu}, {x}) is {g} instead of {w}");
                    Ok(())
                };
                chk("tent_map", tent_map(mu, x), 2.0 * mu * (1.0 - x.abs()) - 1.0)?;
                chk("bernoulli_map", bernoulli_map(mu, x), if x < 0.0 { mu * x + 1.0 } else { mu * x - 1.0 })?;
                chk("logistic_map", logistic_map(mu, x), mu * x * (1.0 - x))?;
                chk("chebyshev", chebyshev(x), 3.0 * x * x * x - 2.0 * x)?;
                ctx.observe(tent_map(mu, x).to_bits() ^ bernoulli_map(mu, x).to_bits());
                Ok(())
            }),
            scn("refusal", "starting points outside the interval are refused, inside accepted (60 points around and far from the ends)", |ctx| {
                let pts: Vec<f64> = vec![
                    0.0, 1.0, -1.0, 0.5, -0.5, -0.0, 5e-324, -5e-324, 1.0 + f64::EPSILON, -1.0 - f64::EPSILON, 1.0 - f64::EPSILON, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 2.0, -2.0, 1.1, -1.1, 1e300,
                    -1e300, 0.999, -0.999, -1e-9, 1e-9, 1.5, -1.5, 100.0,
                ];
                let x = ctx.pick("x0", &pts);
                ctx.step(2);
                let l = panics(|| LogisticMap::new(3.9, x)).is_ok();
                let c = panics(|| Chebyshev::new(x)).is_ok();
                ctx.observe((l as u64) * 2 + c as u64);
                ensure!(l == (0.0..=1.0).contains(&x), "LogisticMap::new(3.9, {x}) {}", if l { "accepted" } else { "refused" });
                ensure!(c == (-1.0..=1.0).contains(&x), "Chebyshev::new({x}) {}", if c { "accepted" } else { "refused" });
                Ok(())
            }),
            scn("logistic-far", "logistic sequence: 41 parameters x 5 starting points x 2^16 iterations, and 6 configurations x 2^24 (thorough 2^29)", move |ctx| {
                let (mu, x0, n) = if ctx.choose("kind", 2) == 0 {
                    (ctx.choose("mu", 41) as f64 / 10.0, ctx.pick("x0", &[0.1, 0.37, 0.5, 0.9999, 1e-9]), 1usize << 16)
                } else {
                    let (m, x) = ctx.pick("cfg", &[(3.9, 0.1), (3.9, 0.15), (4.0, 0.3), (3.7, 0.6), (3.999, 0.123), (0.7, 0.9)]);
                    (m, x, 1usize << t.of(24, 29))
                };
                let mut x = x0;
                let mut it = LogisticMap::new(mu, x0);
                for i in 0..n {
                    let Some(y) = it.next() else { return Err(format!("logistic mu={mu} x0={x0}: ended after {i} items")) };
                    ensure!((y - mu * x * (1.0 - x)).abs() <= 1e-12, "logistic mu={mu} x0={x0}: item {i} is {y} after {x}");
                    ensure!((0.0..=1.0).contains(&y), "logistic mu={mu} x0={x0}: item {i} is {y}, outside [0,1]");
                    x = y;
                }
                ctx.step(n);
                ctx.observe(x.to_bits());
                Ok(())
            }),
            scn("chebyshev-far", "cubic map: recurrence and bounds for 2^24 iterations (thorough 2^29) from 12 starting points", move |ctx| {
                let x0 = ctx.pick("x0", &[0.5, -0.5, 0.1, 0.9, 1.0, -1.0, 0.999999, 0.3, -0.77, 0.05, 0.47140452079103173, 1e-12]);
                let n = 1usize << t.of(24, 29);
                let mut x: f64 = x0;
                let mut it = Chebyshev::new(x0);
                for i in 0..n {
                    let Some(y) = it.next() else { return Err(format!("cubic map x0={x0}: ended after {i} items")) };
                    ensure!((y - (3.0 * x * x * x - 2.0 * x)).abs() <= 1e-12, "cubic map x0={x0}: item {i} is {y} after {x}");
                    ensure!((-1.0..=1.0).contains(&y), "cubic map x0={x0}: item {i} is {y}, outside [-1,1]");
                    x = y;
                }
                ctx.step(n);
                ctx.observe(x.to_bits());
                Ok(())
            }),
            scn("pulling", "both sequences pulled one by one, by nth, skip, step_by and in parts: the same items (5 starting points, 60 steps of 1..7)", move |ctx| {
                let x0 = ctx.pick("x0", &[0.5, 0.1, 0.9, 0.15, 1.0]);
                let k = 1 + ctx.choose("stride", 7);
                let log = ctx.choose("map", 2) == 0;
                let mk = || -> Box<dyn Iterator<Item = f64>> { if log { Box::new(LogisticMap::new(3.9, x0)) } else { Box::new(Chebyshev::new(x0)) } };
                let all: Vec<f64> = mk().take(64 * k).collect();
                let want: Vec<f64> = all.iter().skip(k - 1).step_by(k).cloned().collect();
                let got: Vec<f64> = match ctx.choose("way", 3) {
                    0 => if log { let mut m = LogisticMap::new(3.9, x0); (0..64).map(|_| m.nth(k - 1).unwrap()).collect() } else { let mut m = Chebyshev::new(x0); (0..64).map(|_| m.nth(k - 1).unwrap()).collect() },
                    1 => if log { LogisticMap::new(3.9, x0).skip(k - 1).step_by(k).take(64).collect() } else { Chebyshev::new(x0).skip(k - 1).step_by(k).take(64).collect() },
                    _ => {
                        let mut m = mk();
                        (0..64).map(|_| m.by_ref().take(k).last().unwrap()).collect()
                    }
                };
                close(ctx, "a chaotic sequence pulled in strides", &got, &want, 0.0)
            }),
        ],
        &["recurrences are compared within 1e-12 (the order of floating-point operations is not fixed)", "starting points form a grid; bounds for the others follow from monotone pieces of the maps, which is not checked"],
    )
}

// ------------------------------------------------------------------ C24

const BLOCK: usize = 10;
const CP: usize = 2;

fn fod(ctx: &mut Ctx, m: &[bool]) -> R {
    let what = format!("FH-OFDM-DCSK message of {} bits {}", m.len(), bstr(m));
    let blocks_min = m.len().div_ceil(7);
    let blocks_max = blocks_min + 1;
    let tx: Vec<C> = pull(tx_baseband_fh_ofdm_dcsk_signal(m.iter().cloned()), (blocks_max + 2) * BLOCK)?;
    ensure!(tx.len() % BLOCK == 0, "{what}: {} samples are not whole blocks of {BLOCK}", tx.len());
    let nb = tx.len() / BLOCK;
    ensure!(nb >= blocks_min && nb <= blocks_max, "{what}: {nb} blocks");
    ensure!(tx.iter().all(|z| z.re.is_finite() && z.im.is_finite()), "{what}: samples are not finite");
    for (b, c) in tx.chunks(BLOCK).enumerate() {
        ensure!((0..CP).all(|i| c[i] == c[BLOCK - CP + i]), "{what}: the prefix of block {b} does not repeat its tail");
    }
    ctx.step(tx.len());
    let rx = pull(rx_baseband_fh_ofdm_dcsk_signal(tx.into_iter()), (blocks_max + 2) * 8)?;
    ensure!(rx.len() == nb * 7, "{what}: {} bits decoded from {nb} blocks", rx.len());
    prefix_bits(ctx, &what, &rx, m)
}

fn passband(ctx: &mut Ctx, m: &[bool], fs: usize, rs: usize, fc: f64) -> R {
    let sps = fs / rs;
    let z: Vec<C> = tx_baseband_fh_ofdm_dcsk_signal(m.iter().cloned()).collect();
    let got = pull(tx_fh_ofdm_dcsk_signal_2(m.iter().cloned(), fs, rs, fc), z.len() * sps + 1)?;
    let want: Vec<f64> = (0..z.len() * sps)
        .map(|i| {
            let p = 2.0 * PI * fc * (i as f64 / fs as f64);
            z[i / sps].re * p.cos() + z[i / sps].im * p.sin()
        })
        .collect();
    close(ctx, &format!("FH-OFDM-DCSK waveform fs={fs} rs={rs} fc={fc}"), &got, &want, 1e-6)
}

fn hopped(ctx: &mut Ctx, m: &[bool], lo: f64, hi: f64, nf: usize, fs: usize, rs: usize) -> R {
    let sps = fs / rs;
    let what = format!("hopped FH-OFDM-DCSK band {lo}..{hi} of {nf} fs={fs} rs={rs}");
    let z: Vec<C> = tx_baseband_fh_ofdm_dcsk_signal(m.iter().cloned()).collect();
    let got = pull(tx_fh_ofdm_dcsk_signal(m.iter().cloned(), lo, hi, nf, fs, rs), z.len() * sps + 1)?;
    ctx.step(got.len());
    ctx.observe(hash_f(&got));
    ensure!(got.len() == z.len() * sps, "{what}: {} samples instead of {}", got.len(), z.len() * sps);
    let mut used = vec![false; nf];
    for (s, c) in got.chunks(sps).enumerate() {
        if s % nf == 0 {
            used.iter_mut().for_each(|u| *u = false);
        }
        let mut cand = vec![];
        for k in 0..nf {
            let f = lo + (hi - lo) / nf as f64 * k as f64;
            if (0..sps).all(|j| {
                let p = 2.0 * PI * f * ((s * sps + j) as f64 / fs as f64);
                (c[j] - (z[s].re * p.cos() + z[s].im * p.sin())).abs() < 1e-7
            }) {
                cand.push(k);
            }
        }
        ensure!(!cand.is_empty(), "{what}: baseband sample {s} is not sent on any hop frequency");
        if cand.len() == 1 {
            ensure!(!used[cand[0]], "{what}: hop frequency {} used twice in the block of sample {s}", cand[0]);
            used[cand[0]] = true;
        }
    }
    Ok(())
}

pub fn c24(t: Tier) -> Set {
    (
        vec![
            scn("messages", "all messages up to 14 bits, every length 0..400 in 6 patterns, ladder to 2^15 bits", move |ctx| {
                let mut lens: Vec<usize> = (0..400).collect();
                lens.extend(ladder(9, t.of(15, 18)));
                let m = message(ctx, t.of(14, 18), &lens, PATTERNS);
                fod(ctx, &m)
            }),
            scn("blocks", "every 7-bit block at every one of the first 60 block positions (thorough 300), the other blocks filled with 2 patterns", move |ctx| {
                let pos = ctx.choose("pos", t.of(60, 300));
                let w = ctx.bits("block", 7);
                let p = ctx.choose("fill", 2);
                let mut m = pattern(p, 7 * (pos + 2));
                m[7 * pos..7 * pos + 7].copy_from_slice(&w);
                fod(ctx, &m)
            }),
            scn("passband", "carrier variant: samples-per-symbol list x 3 symbol rates x 5 carriers, 3 message lengths", move |ctx| {
                let sps = ctx.pick("sps", &sps_list(t));
                let rs = ctx.pick("rs", &[900usize, 1, 3]);
                let f = (sps * rs) as f64;
                let fc = ctx.pick("fc", &[0.2 * f, 0.0, 0.4567 * f, 0.5 * f, rs as f64 / 3.0]);
                let n = ctx.pick("n", &[20usize, 1, 35]);
                if fc > f / 2.0 {
                    return Ok(());
                }
                passband(ctx, &content(n), sps * rs, rs, fc)
            }),
            scn("passband-messages", "carrier variant: all messages up to 9 bits, every length 0..100, late samples up to 2^18", move |ctx| {
                let mut lens: Vec<usize> = (0..100).collect();
                lens.extend([1000, 5000, 30000]);
                let m = message(ctx, t.of(9, 12), &lens, 2);
                passband(ctx, &m, 60, 10, 13.7)
            }),
            scn("hopped", "hopped variant: hop counts 1..12 x 10 sample-per-symbol values x 2 symbol rates x 2 bands, 40 bits", move |ctx| {
                let nf = 1 + ctx.choose("nf", 12);
                let sps = ctx.pick("sps", &[4usize, 5, 6, 8, 10, 16, 25, 49, 64, 100]);
                let rs = ctx.pick("rs", &[900usize, 1]);
                let f = (sps * rs) as f64;
                let (lo, hi) = ctx.pick("band", &[(0.05 * f, 0.45 * f), (0.0, 0.5 * f)]);
                hopped(ctx, &content(40), lo, hi, nf, sps * rs, rs)
            }),
            scn("hopped-messages", "hopped variant: all messages up to 7 bits and every length 0..60 with 5 hop frequencies", move |ctx| {
                let lens: Vec<usize> = (0..60).collect();
                let m = message(ctx, t.of(7, 10), &lens, 2);
                hopped(ctx, &m, 1000.0, 20000.0, 5, 44100, 900)
            }),
            scn("orbit", "the chaotic chips never vanish: block references and all subcarriers of 2^17 blocks keep a decodable magnitude", move |ctx| {
                let n = 7usize << t.of(17, 20);
                let mut worst = f64::INFINITY;
                let m = content(n);
                let s = tx_baseband_fh_ofdm_dcsk_signal(m.clone().into_iter());
                let mut bits = rx_baseband_fh_ofdm_dcsk_signal(s.inspect(|z| worst = worst.min(if z.re.is_finite() { 1.0 } else { -1.0 })));
                for (i, &b) in m.iter().enumerate() {
                    let g = bits.next();
                    ensure!(g == Some(b), "FH-OFDM-DCSK: bit {i} of {n} decoded as {g:?} instead of {b}");
                }
                ctx.step(n);
                Ok(())
            }),
            scn("passband-long-symbols", "carrier variant: round-number samples per symbol from 67 to 10^4 (thorough 10^5) x 3 symbol rates x 3 carriers, one block", move |ctx| {
                let l: Vec<usize> = steps_to(t.of(10_001, 100_001)).into_iter().filter(|&x| x > 66).collect();
                let sps = ctx.pick("sps", &l);
                let rs = ctx.pick("rs", &[1usize, 900, 250_000]);
                let f = (sps * rs) as f64;
                let fc = ctx.pick("fc", &[0.123456 * f, rs as f64, 0.5 * f]);
                passband(ctx, &content(5), sps * rs, rs, fc)
            }),
            scn("hopped-long-symbols", "hopped variant: 24 round-number samples per symbol up to 4096 x hop counts 1,2,7 x 2 symbol rates, one block", move |ctx| {
                let sps = ctx.pick("sps", &[96usize, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 441, 500, 512, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 4000, 4096]);
                let nf = ctx.pick("nf", &[1usize, 2, 7]);
                let rs = ctx.pick("rs", &[1usize, 900]);
                let f = (sps * rs) as f64;
                hopped(ctx, &content(6), 0.1 * f, 0.4 * f, nf, sps * rs, rs)
            }),
            scn("hopped-counts", "hopped variant: every hop count 13..128 (thorough 300), 30 bits", move |ctx| {
                let nf = 13 + ctx.choose("nf", t.of(116, 288));
                hopped(ctx, &content(30), 4000.0, 120_000.0, nf, 256_000, 1000)
            }),
            scn("far", "carrier variant: 2^24 + 2^16 samples (thorough 2^26) streamed, every one compared with the baseband transmitter's; hopped variant with one frequency likewise", move |ctx| {
                let total = (1usize << t.of(24, 26)) + (1 << 16);
                let (fs, rs) = ctx.pick("cfg", &[(6usize, 1usize), (44100, 900)]);
                let sps = fs / rs;
                let blocks = total / sps / BLOCK;
                let n = blocks * 7;
                let m = || (0..n).map(|i| bit_at(0, i));
                let f = 0.217 * fs as f64;
                let mut base = tx_baseband_fh_ofdm_dcsk_signal(m());
                let mut z = C::new(0.0, 0.0);
                let mut want = |i: usize| {
                    if i % sps == 0 {
                        z = base.next().unwrap_or(C::new(f64::NAN, 0.0));
                    }
                    let p = 2.0 * PI * f * (i as f64 / fs as f64);
                    z.re * p.cos() + z.im * p.sin()
                };
                let tol = t.of(1e-6, 1e-5);
                // the last block may be followed by padding
                let k = blocks * BLOCK * sps;
                if ctx.choose("tx", 2) == 0 {
                    stream_close(ctx, "FH-OFDM-DCSK carrier variant", tx_fh_ofdm_dcsk_signal_2(m(), fs, rs, f).take(k), k, &mut want, tol)
                } else {
                    stream_close(ctx, "FH-OFDM-DCSK hopped variant with one frequency", tx_fh_ofdm_dcsk_signal(m(), f, f, 1, fs, rs).take(k), k, &mut want, tol)
                }
            }),
            scn("sources", "baseband, carrier and hopped variants and the receiver from 8 differently shaped sources, every length 0..40", move |ctx| {
                let shape = ctx.choose("shape", SHAPES);
                let n = ctx.choose("n", 41);
                let m = content(n);
                let re = |v: Vec<C>| -> Vec<f64> { v.iter().flat_map(|z| [z.re, z.im]).collect() };
                let plain = || m.clone().into_iter();
                let what = format!("FH-OFDM-DCSK from source shape {shape} of {n} bits");
                match ctx.choose("fn", 4) {
                    0 => close(ctx, &what, &re(tx_baseband_fh_ofdm_dcsk_signal(shaped(m.clone(), shape)).collect()), &re(tx_baseband_fh_ofdm_dcsk_signal(plain()).collect()), 0.0),
                    1 => close(ctx, &what, &tx_fh_ofdm_dcsk_signal_2(shaped(m.clone(), shape), 44100, 900, 1800.0).collect::<Vec<_>>(), &tx_fh_ofdm_dcsk_signal_2(plain(), 44100, 900, 1800.0).collect::<Vec<_>>(), 0.0),
                    2 => close(ctx, &what, &tx_fh_ofdm_dcsk_signal(shaped(m.clone(), shape), 1000.0, 2000.0, 5, 44100, 900).collect::<Vec<_>>(), &tx_fh_ofdm_dcsk_signal(plain(), 1000.0, 2000.0, 5, 44100, 900).collect::<Vec<_>>(), 0.0),
                    _ => {
                        let tx: Vec<C> = tx_baseband_fh_ofdm_dcsk_signal(plain()).collect();
                        let rx = pull(rx_baseband_fh_ofdm_dcsk_signal(shaped(tx, shape)), n + 20)?;
                        prefix_bits(ctx, &what, &rx, &m)
                    }
                }
            }),
            scn("rates", "carrier and hopped variants: every symbol rate 1..700 (thorough 6000) x 8 samples per symbol up to 12, and every even division of 18 usual sample rates (at most 300 samples per symbol), one block", move |ctx| {
                let l = crate::p_psk::rate_plans_where(t, |s| s <= 300);
                let (sps, rs) = ctx.pick("rate", &l);
                let f = (sps * rs) as f64;
                if ctx.choose("tx", 2) == 0 {
                    passband(ctx, &content(5), sps * rs, rs, 0.123456 * f)
                } else {
                    hopped(ctx, &content(5), 0.1 * f, 0.4 * f, if sps < 4 { 1 } else { 3 }, sps * rs, rs)
                }
            }),
            scn("hopped-many", "hopped variant: 14 hop counts from 255 to 4100, as many bits as visit every frequency once and some again", move |ctx| {
                let nf = ctx.pick("freqs", &[255usize, 256, 257, 500, 511, 512, 1000, 1023, 1024, 1025, 2000, 2048, 3000, 4100]);
                hopped(ctx, &content(7 * (nf / 10 + 12)), 100.0, 7900.0, nf, 16_000, 1000)
            }),
        ],
        &["no noise between transmitter and receiver", "waveforms are compared within 1e-6"],
    )
}
