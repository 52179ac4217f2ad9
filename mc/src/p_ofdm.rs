//! C07 C08: OFDM.
use crate::core::*;
use crate::p_iter::Set;
use crate::p_psk::{half_carriers, nrz, rate_plans_where};
use crate::{ensure, Tier};
use komunikilo::ofdm::*;
use komunikilo::qpsk::*;
use num_complex::Complex;
use std::f64::consts::PI;

type C = Complex<f64>;

/// (subcarriers, pilots)
fn plans_all(hi: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for sc in 2..=hi {
        for p in 1..sc {
            v.push((sc, p));
        }
    }
    v
}
const PLANS_BIG: [(usize, usize); 22] = [
    (64, 12), (64, 1), (64, 63), (63, 1), (63, 12), (65, 12), (65, 11), (100, 7), (127, 13), (128, 20), (128, 1), (129, 4), (255, 30), (256, 55),
    (256, 2), (500, 17), (512, 100), (1000, 31), (1023, 200), (1024, 1), (1024, 1023), (2048, 300),
];
const PLANS_SMALL: [(usize, usize); 12] =
    [(2, 1), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3), (5, 2), (6, 3), (7, 1), (8, 1), (8, 4), (16, 5)];

fn decoded_len(n: usize, sc: usize, pl: usize) -> usize {
    let per = 2 * (sc - pl);
    n.div_ceil(per) * per
}

fn rt_base(ctx: &mut Ctx, m: &[bool], sc: usize, pl: usize) -> R {
    let want = decoded_len(m.len(), sc, pl);
    let what = format!("OFDM {sc}/{pl} message of {} bits {}", m.len(), bstr(m));
    let tx = pull(tx_baseband_ofdm_signal(tx_baseband_qpsk_signal(m.iter().cloned()), sc, pl), 2 * want * sc + 2 * sc + 10)?;
    let rx = pull(rx_baseband_qpsk_signal(rx_baseband_ofdm_signal(tx.into_iter(), sc, pl)), want + 2 * sc + 2)?;
    ensure!(rx.len() == want, "{what}: {} bits decoded instead of {want}", rx.len());
    prefix_bits(ctx, &what, &rx, m)
}
fn rt_pass(ctx: &mut Ctx, m: &[bool], sc: usize, pl: usize, fs: usize, rs: usize, fc: f64) -> R {
    let want = decoded_len(m.len(), sc, pl);
    let sps = fs / rs;
    let what = format!("passband OFDM {sc}/{pl} fs={fs} rs={rs} fc={fc} message of {} bits", m.len());
    let n_sym = want / (2 * (sc - pl)) * (sc + sc / 4);
    let tx = pull(tx_ofdm_qpsk_signal(m.iter().cloned(), sc, pl, fs, rs, fc), n_sym * sps + 1)?;
    let rx = pull(rx_ofdm_qpsk_signal(tx.into_iter(), sc, pl, fs, rs, fc), want + 2 * sc + 2)?;
    ensure!(rx.len() == want, "{what}: {} bits decoded instead of {want}", rx.len());
    prefix_bits(ctx, &what, &rx, m)
}

pub fn c07(t: Tier) -> Set {
    let hi = t.of(40, 72);
    (
        vec![
            scn("plans", &format!("every (subcarriers 2..{hi}, pilots 1..n-1) and 22 larger plans x 9 even message lengths around whole OFDM symbols x 3 patterns, baseband"), move |ctx| {
                let mut l = plans_all(hi);
                l.extend(PLANS_BIG);
                let (sc, pl) = ctx.pick("plan", &l);
                let d = 2 * (sc - pl);
                let mut lens = vec![0, 2, d.saturating_sub(2), d, d + 2, 2 * d - 2, 2 * d, 3 * d + 2, 7 * d];
                lens.dedup();
                let n = ctx.pick("n", &lens);
                let p = ctx.choose("pattern", t.of(3, PATTERNS));
                ctx.note(|| format!("{sc}/{pl} {n} bits"));
                rt_base(ctx, &pattern(p, n), sc, pl)
            }),
            scn("messages", "all messages of even length up to 12 bits x 12 small plans, every even length 0..600 x 4 plans", move |ctx| {
                if ctx.choose("kind", 2) == 0 {
                    let (sc, pl) = ctx.pick("plan", &PLANS_SMALL);
                    let n = 2 * ctx.choose("half", t.of(7, 9));
                    let m = ctx.bits("bits", n);
                    rt_base(ctx, &m, sc, pl)
                } else {
                    let (sc, pl) = ctx.pick("plan", &[(64, 12), (16, 5), (9, 2), (33, 4)]);
                    let n = 2 * ctx.choose("half", 301);
                    let p = ctx.choose("pattern", PATTERNS);
                    rt_base(ctx, &pattern(p, n), sc, pl)
                }
            }),
            scn("passband", "every plan up to 12 subcarriers and 6 larger x samples per symbol 3..24 and larger x half-cycle carriers", move |ctx| {
                let mut l = plans_all(t.of(12, 20));
                l.extend([(64, 12), (65, 12), (32, 5), (33, 8), (128, 20), (100, 1)]);
                let (sc, pl) = ctx.pick("plan", &l);
                let mut s: Vec<usize> = if sc <= 9 || t.deep() { (3..=24).collect() } else { vec![3, 4, 5, 7, 8, 9, 16] };
                s.extend([49usize, 80]);
                let sps = ctx.pick("sps", &s);
                let rs = ctx.pick("rs", &[900usize, 1]);
                let cs = half_carriers(Tier::Quick, rs, sps);
                let fc = if sc <= 9 || t.deep() { ctx.pick("fc", &cs) } else { ctx.pick("fc", &[cs[0], cs[cs.len() - 1]]) };
                let d = 2 * (sc - pl);
                let n = ctx.pick("n", &[d, 2, 2 * d + 2]);
                rt_pass(ctx, &content(n), sc, pl, sps * rs, rs, fc)
            }),
            scn("passband-messages", "all messages of even length up to 10 bits, every even length 0..240 in 3 patterns at 4 configurations", move |ctx| {
                let (sc, pl, fs, rs, fc) = ctx.pick("cfg", &[(64, 12, 44100, 900, 1800.0), (4, 1, 12, 4, 2.0), (7, 3, 50, 10, 15.0), (8, 1, 80, 10, 20.0)]);
                if ctx.choose("kind", 2) == 0 {
                    let n = 2 * ctx.choose("half", 6);
                    let m = ctx.bits("bits", n);
                    rt_pass(ctx, &m, sc, pl, fs, rs, fc)
                } else {
                    let n = 2 * ctx.choose("half", 121);
                    let p = ctx.choose("pattern", 3);
                    rt_pass(ctx, &pattern(p, n), sc, pl, fs, rs, fc)
                }
            }),
            scn("long", "messages up to 2^16 bits at 3 baseband and 2 passband configurations", move |ctx| {
                let n = ctx.pick("n", &ladder(10, t.of(16, 18))) / 2 * 2;
                match ctx.choose("cfg", 5) {
                    0 => rt_base(ctx, &content(n), 64, 12),
                    1 => rt_base(ctx, &content(n), 7, 2),
                    2 => rt_base(ctx, &content(n), 1024, 100),
                    3 => rt_pass(ctx, &content(n), 64, 12, 12000, 4000, 2000.0),
                    _ => rt_pass(ctx, &content(n.min(9000)), 16, 4, 44100, 900, 1800.0),
                }
            }),
            scn("plans-more", "every plan of 41..128 subcarriers (thorough 256): a full block, two bits, and a block and a half; 12 plans of up to 16384 subcarriers", move |ctx| {
                if ctx.choose("size", 2) == 0 {
                    let sc = 41 + ctx.choose("sc", t.of(88, 216));
                    let pl = 1 + ctx.choose("pl", sc - 1);
                    let d = 2 * (sc - pl);
                    let n = ctx.pick("n", &[d, 2, d + d / 4 * 2]);
                    rt_base(ctx, &content(n), sc, pl)
                } else {
                    let (sc, pl) = ctx.pick("plan", &[
                        (2048usize, 1usize), (2047, 1000), (2049, 2), (3000, 77), (4096, 500), (4096, 1), (4097, 4000), (5000, 1234), (8192, 1000), (10000, 9999), (12288, 3), (16384, 2000),
                    ]);
                    let d = 2 * (sc - pl);
                    let n = ctx.pick("n", &[d, 2, 2 * d, d + 2]);
                    rt_base(ctx, &content(n), sc, pl)
                }
            }),
            scn("long-symbols", "passband: round-number samples per symbol from 25 to 10^4 (thorough 10^5) x 4 plans x 3 carriers x 3 symbol rates, one block and 2 bits", move |ctx| {
                let l: Vec<usize> = steps_to(t.of(10_001, 100_001)).into_iter().filter(|&x| x >= 25).collect();
                let sps = ctx.pick("sps", &l);
                let rs = ctx.pick("rs", &[1usize, 900, 250_000]);
                let (sc, pl) = ctx.pick("plan", &[(4usize, 1usize), (2, 1), (9, 2), (16, 5)]);
                let k = ctx.pick("k", &[1usize, 4, sps - 1]);
                rt_pass(ctx, &content(2 * (sc - pl) + 2), sc, pl, sps * rs, rs, k as f64 * rs as f64 / 2.0)
            }),
            scn("far", "2^24 + 2^16 bits (thorough 2^27) streamed through transmitter and receiver: baseband at 3 plans, passband at 2", move |ctx| {
                let bits = (1usize << t.of(24, 27)) + (1 << 16);
                let src = |n: usize| (0..n).map(|i| bit_at(0, i));
                match ctx.choose("cfg", 5) {
                    c @ 0..=2 => {
                        let (sc, pl) = [(64usize, 12usize), (2, 1), (129, 4)][c];
                        let d = 2 * (sc - pl);
                        let n = bits / d * d;
                        let rx = rx_baseband_qpsk_signal(rx_baseband_ofdm_signal(tx_baseband_ofdm_signal(tx_baseband_qpsk_signal(src(n)), sc, pl), sc, pl));
                        stream_bits(ctx, &format!("OFDM {sc}/{pl} long stream"), rx, n, |i| bit_at(0, i))
                    }
                    c => {
                        let (sc, pl, fs, rs, fc) = [(64usize, 12usize, 12000usize, 4000usize, 2000.0), (8, 1, 80, 10, 20.0)][c - 3];
                        let d = 2 * (sc - pl);
                        let n = bits / 8 / d * d;
                        let rx = rx_ofdm_qpsk_signal(tx_ofdm_qpsk_signal(src(n), sc, pl, fs, rs, fc), sc, pl, fs, rs, fc);
                        stream_bits(ctx, &format!("passband OFDM {sc}/{pl} fs={fs} rs={rs} fc={fc} long stream"), rx, n, |i| bit_at(0, i))
                    }
                }
            }),
            scn("sources", "8 differently shaped message sources x 5 plans x every even length 0..60, baseband and passband", move |ctx| {
                let (sc, pl) = ctx.pick("plan", &[(4usize, 1usize), (7, 3), (8, 1), (16, 5), (33, 20)]);
                let shape = ctx.choose("shape", SHAPES);
                let n = 2 * ctx.choose("half", 31);
                let m = content(n);
                let want = decoded_len(n, sc, pl);
                let what = format!("OFDM {sc}/{pl} {n} bits from source shape {shape}");
                let rx = if ctx.choose("passband", 2) == 0 {
                    pull(rx_baseband_qpsk_signal(rx_baseband_ofdm_signal(tx_baseband_ofdm_signal(tx_baseband_qpsk_signal(shaped(m.clone(), shape)), sc, pl), sc, pl)), want + 1)?
                } else {
                    let tx = pull(tx_ofdm_qpsk_signal(shaped(m.clone(), shape), sc, pl, 80, 10, 15.0), 8 * 4 * (want + 2) * (sc + 2))?;
                    pull(rx_ofdm_qpsk_signal(shaped(tx, shape), sc, pl, 80, 10, 15.0), want + 1)?
                };
                ensure!(rx.len() == want, "{what}: {} bits decoded instead of {want}", rx.len());
                prefix_bits(ctx, &what, &rx, &m)
            }),
            scn("carriers", "passband: every whole number of half cycles per symbol for every samples per symbol 3..40 (thorough 100), 2 plans, 2 symbol rates", move |ctx| {
                let sps = 3 + ctx.choose("sps", t.of(38, 98));
                let k = 1 + ctx.choose("k", sps - 1);
                let rs = ctx.pick("rs", &[7usize, 48_000]);
                let (sc, pl) = ctx.pick("plan", &[(4usize, 1usize), (11, 4)]);
                rt_pass(ctx, &content(2 * (sc - pl) + 4), sc, pl, sps * rs, rs, k as f64 * rs as f64 / 2.0)
            }),
            scn("rates", "passband: every symbol rate 1..700 (thorough 6000) x 8 samples per symbol up to 12, and every even division of 18 usual sample rates (3 samples per symbol or more), 2 plans, 2 carriers: one block and 2 bits", move |ctx| {
                let l = rate_plans_where(t, |s| s >= 3);
                let (sps, rs) = ctx.pick("rate", &l);
                let (sc, pl) = ctx.pick("plan", &[(4usize, 1usize), (7, 3)]);
                let m = ctx.pick("half cycles", &[1usize, sps - 1]);
                rt_pass(ctx, &content(2 * (sc - pl) + 2), sc, pl, sps * rs, rs, m as f64 * rs as f64 / 2.0)
            }),
            scn("twins", "blocks of 56 bits that 41 common digests cannot tell apart, one after the other in 4 orders, baseband and passband", |ctx| {
                let (name, a, b) = ctx.pick("twins", twins());
                ctx.note(|| format!("digest {name}: {a:02x?} {b:02x?}"));
                let fr: &[&[u8]] = match ctx.choose("order", 4) {
                    0 => &[&a, &b],
                    1 => &[&b, &a, &b],
                    2 => &[&a, &a, &b, &b],
                    _ => &[&a, &[3; 7], &b, &a],
                };
                let m = bits_of(&fr.concat());
                if ctx.choose("passband", 2) == 0 { rt_base(ctx, &m, 32, 4) } else { rt_pass(ctx, &m, 32, 4, 40, 10, 15.0) }
            }),
        ],
        &["no noise between transmitter and receiver"],
    )
}

// ------------------------------------------------------------------ C08

fn data_carriers(sc: usize, pl: usize) -> Vec<usize> {
    let m = sc / 2;
    let back = (pl - 1) / 2;
    let front = pl - 1 - back;
    (front..m).chain(m + 1..sc - back).collect()
}

/// The defining formula, evaluated directly.
fn reference(data: &[C], sc: usize, pl: usize) -> Vec<C> {
    let car = data_carriers(sc, pl);
    let cp = sc / 4;
    let tw: Vec<C> = (0..sc).map(|k| C::from_polar(1.0 / sc as f64, 2.0 * PI * k as f64 / sc as f64)).collect();
    let mut out = vec![];
    for block in data.chunks(car.len()) {
        let x: Vec<C> = (0..sc)
            .map(|n| block.iter().zip(car.iter()).map(|(d, &c)| d * tw[((c + sc - sc / 2) % sc) * n % sc]).sum())
            .collect();
        out.extend_from_slice(&x[sc - cp..]);
        out.extend(x);
    }
    out
}

fn check_symbols(ctx: &mut Ctx, data: &[C], sc: usize, pl: usize) -> R {
    let what = format!("OFDM {sc}/{pl} of {} data symbols", data.len());
    let cp = sc / 4;
    let nd = data_carriers(sc, pl).len();
    let blocks = data.len().div_ceil(nd.max(1));
    let got: Vec<C> = pull(tx_baseband_ofdm_signal(data.to_vec().into_iter(), sc, pl), (blocks + 1) * (sc + cp) + 1)?;
    ctx.step(got.len());
    ctx.observe(fnv(got.iter().flat_map(|c| [c.re.to_bits(), c.im.to_bits()])));
    ensure!(got.len() == blocks * (sc + cp), "{what}: {} samples instead of {}", got.len(), blocks * (sc + cp));
    let want = reference(data, sc, pl);
    let scale = data.iter().map(|d| d.norm()).fold(1.0, f64::max);
    for (i, (g, w)) in got.iter().zip(want.iter()).enumerate() {
        let d = (g - w).norm();
        ensure!(d <= 1e-9 * scale, "{what}: sample {i} (block {}, position {} with prefix {cp}) is {g} instead of {w}", i / (sc + cp), i % (sc + cp));
    }
    for (b, s) in got.chunks(sc + cp).enumerate() {
        ensure!(s[..cp].iter().zip(s[sc..].iter()).all(|(a, b)| a == b || (a - b).norm() <= 1e-12 * scale), "{what}: the prefix of block {b} does not repeat its tail");
    }
    Ok(())
}

fn qpsk(i: usize) -> C {
    let b = content(2 * i + 2);
    C::new(nrz(b[2 * i]), nrz(b[2 * i + 1]))
}

pub fn c08(t: Tier) -> Set {
    let hi = t.of(33, 48);
    (
        vec![
            scn("impulses", &format!("every plan up to {hi} subcarriers: one non-zero data symbol at every position of two blocks, value 1, j and 2-3j"), move |ctx| {
                let (sc, pl) = ctx.pick("plan", &plans_all(hi));
                let nd = sc - pl;
                let pos = ctx.choose("pos", 2 * nd);
                let v = ctx.pick("value", &[C::new(1.0, 0.0), C::new(0.0, 1.0), C::new(2.0, -3.0)]);
                let mut d = vec![C::new(0.0, 0.0); 2 * nd];
                d[pos] = v;
                check_symbols(ctx, &d, sc, pl)
            }),
            scn("impulses-large", "9 larger plans: one non-zero data symbol at every position", move |ctx| {
                let (sc, pl) = ctx.pick("plan", &[(64, 12), (63, 12), (65, 12), (100, 7), (127, 13), (128, 20), (128, 1), (129, 4), (256, 55)]);
                let nd = sc - pl;
                let pos = ctx.choose("pos", nd);
                let mut d = vec![C::new(0.0, 0.0); nd];
                d[pos] = C::new(1.0, -2.0);
                check_symbols(ctx, &d, sc, pl)
            }),
            scn("exhaustive", "every sequence of up to 6 data symbols over the QPSK alphabet and zero x 8 plans", move |ctx| {
                let (sc, pl) = ctx.pick("plan", &[(2, 1), (3, 1), (4, 2), (4, 1), (5, 2), (6, 3), (8, 4), (8, 1)]);
                let n = ctx.choose("n", t.of(7, 8));
                let mut x = ctx.choose("d", 5usize.pow(n as u32));
                let d: Vec<C> = (0..n)
                    .map(|_| {
                        let r = [C::new(1.0, 1.0), C::new(1.0, -1.0), C::new(-1.0, 1.0), C::new(-1.0, -1.0), C::new(0.0, 0.0)][x % 5];
                        x /= 5;
                        r
                    })
                    .collect();
                check_symbols(ctx, &d, sc, pl)
            }),
            scn("partial", "every plan up to 24 subcarriers and 12 larger: QPSK data of every length from 0 to three blocks", move |ctx| {
                let mut l = plans_all(t.of(24, 40));
                l.extend(&PLANS_BIG[..12]);
                let (sc, pl) = ctx.pick("plan", &l);
                let nd = sc - pl;
                let n = if sc <= 40 { ctx.choose("n", 3 * nd + 2) } else { ctx.pick("n", &[0, 1, nd - 1, nd, nd + 1, 2 * nd]) };
                let d: Vec<C> = (0..n).map(qpsk).collect();
                check_symbols(ctx, &d, sc, pl)
            }),
            scn("independence", "changing any one data symbol leaves every other OFDM symbol bit for bit the same (6 plans, 5 blocks)", move |ctx| {
                let (sc, pl) = ctx.pick("plan", &[(8, 2), (7, 1), (16, 5), (64, 12), (5, 4), (33, 3)]);
                let nd = sc - pl;
                let len = sc + sc / 4;
                let d: Vec<C> = (0..5 * nd).map(qpsk).collect();
                let pos = ctx.choose("pos", 5 * nd);
                let mut e = d.clone();
                e[pos] = ctx.pick("value", &[C::new(0.0, 0.0), C::new(1e6, -1e6), C::new(-0.3, 0.1)]);
                let a: Vec<C> = pull(tx_baseband_ofdm_signal(d.into_iter(), sc, pl), 6 * len)?;
                let b: Vec<C> = pull(tx_baseband_ofdm_signal(e.into_iter(), sc, pl), 6 * len)?;
                ensure!(a.len() == 5 * len && b.len() == 5 * len, "OFDM {sc}/{pl}: {} and {} samples for 5 blocks", a.len(), b.len());
                for k in 0..5 {
                    if k != pos / nd {
                        ensure!(a[k * len..(k + 1) * len] == b[k * len..(k + 1) * len], "OFDM {sc}/{pl}: data symbol {pos} of block {} changes block {k}", pos / nd);
                    }
                }
                ctx.step(5 * len);
                Ok(())
            }),
            scn("receiver", "the receiver reads each data subcarrier in order: impulses on every subcarrier of every plan up to 20 subcarriers", move |ctx| {
                let (sc, pl) = ctx.pick("plan", &plans_all(t.of(20, 33)));
                let cp = sc / 4;
                let c = ctx.choose("carrier", sc);
                let x: Vec<C> = (0..sc)
                    .map(|n| C::from_polar(1.0 / sc as f64, 2.0 * PI * (((c + sc - sc / 2) % sc * n) % sc) as f64 / sc as f64))
                    .collect();
                // the prefix is ignored by the receiver: fill it with something else
                let s: Vec<C> = vec![C::new(5.0, 7.0); cp].into_iter().chain(x).collect();
                let got = pull(rx_baseband_ofdm_signal(s.into_iter(), sc, pl), sc + 1)?;
                let want: Vec<f64> = data_carriers(sc, pl).iter().map(|&k| (k == c) as u8 as f64).collect();
                let re: Vec<f64> = got.iter().map(|z| z.re).collect();
                let im: Vec<f64> = got.iter().map(|z| z.im).collect();
                close(ctx, &format!("OFDM receiver {sc}/{pl} carrier {c}"), &re, &want, 1e-9)?;
                close(ctx, &format!("OFDM receiver {sc}/{pl} carrier {c} (imaginary)"), &im, &vec![0.0; want.len()], 1e-9)
            }),
            scn("plans-more", "every plan of 34..96 subcarriers (thorough 160): one full block, one block and one symbol; 12 plans up to 4096 subcarriers", move |ctx| {
                let (sc, pl) = if ctx.choose("size", 2) == 0 {
                    let sc = 34 + ctx.choose("sc", t.of(63, 127));
                    (sc, 1 + ctx.choose("pl", sc - 1))
                } else {
                    ctx.pick("plan", &[(500usize, 17usize), (512, 100), (1000, 31), (1023, 200), (1024, 1), (1024, 1023), (2048, 300), (2047, 1), (3000, 2999), (4096, 500), (4095, 64), (4096, 1)])
                };
                let nd = sc - pl;
                let n = ctx.pick("n", &[nd, nd + 1]);
                let d: Vec<C> = (0..n).map(qpsk).collect();
                check_symbols(ctx, &d, sc, pl)
            }),
            scn("values", "data symbols of every magnitude from 1e-12 to 1e12, of mixed magnitude, constant, alternating, ramps: 8 kinds x 9 scales x 10 plans x 3 lengths", move |ctx| {
                let (sc, pl) = ctx.pick("plan", &[(2usize, 1usize), (5, 2), (8, 1), (8, 4), (16, 5), (33, 3), (64, 12), (64, 1), (100, 50), (128, 20)]);
                let nd = sc - pl;
                let n = ctx.pick("n", &[nd, 2 * nd - nd / 2, 3 * nd]);
                let sc_ = ctx.pick("scale", &[1.0, 1e-12, 1e-6, 1e-3, 0.7071, 3.0, 1e3, 1e6, 1e12]);
                let k = ctx.choose("kind", 8);
                let d: Vec<C> = (0..n)
                    .map(|i| {
                        let x = i as f64;
                        sc_ * match k {
                            0 => C::new(1.0, 1.0),
                            1 => C::new(if i % 2 == 0 { 1.0 } else { -1.0 }, 0.0),
                            2 => C::new(x, -x),
                            3 => C::from_polar(1.0, 0.7 * x),
                            4 => C::new(0.0, (0.3 * x).sin()),
                            5 => qpsk(i) * (1.0 + (i % 7) as f64),
                            6 => if i == 0 { C::new(1.0, 0.0) } else { C::new(0.0, 0.0) },
                            _ => if i + 1 == n { C::new(-1.0, 2.0) } else { C::new(0.0, 0.0) },
                        }
                    })
                    .collect();
                if sc_ < 1.0 {
                    // the tolerance is relative to the data: scale up what came out
                    let a: Vec<C> = pull(tx_baseband_ofdm_signal(d.clone().into_iter(), sc, pl), 4 * (sc + sc / 4) + 1)?;
                    let want = reference(&d, sc, pl);
                    let top = d.iter().map(|z| z.norm()).fold(0.0, f64::max);
                    ensure!(a.len() == want.len(), "OFDM {sc}/{pl}: {} samples instead of {}", a.len(), want.len());
                    for i in 0..a.len() {
                        ensure!((a[i] - want[i]).norm() <= 1e-9 * top, "OFDM {sc}/{pl}, data of magnitude {top}: sample {i} is {} instead of {}", a[i], want[i]);
                    }
                }
                check_symbols(ctx, &d, sc, pl)
            }),
            scn("far", "2^24 + 2^10 samples (thorough 2^26) streamed from one transmitter, every one compared, 4 plans; source shapes", move |ctx| {
                let (sc, pl) = ctx.pick("plan", &[(4usize, 2usize), (3, 1), (8, 5), (5, 3)]);
                let nd = sc - pl;
                let sym = sc + sc / 4;
                let blocks = ((1usize << t.of(24, 26)) + (1 << 10)) / sym;
                // all different blocks, computed once
                let all: Vec<Vec<C>> = (0..4usize.pow(nd as u32))
                    .map(|v| reference(&(0..nd).map(|k| { let w = v / 4usize.pow(k as u32); C::new(nrz(w & 1 == 1), nrz(w & 2 == 2)) }).collect::<Vec<_>>(), sc, pl))
                    .collect();
                let word = |b: usize| (0..nd).map(|k| { let i = b * nd + k; 4usize.pow(k as u32) * (bit_at(0, 2 * i) as usize + 2 * bit_at(0, 2 * i + 1) as usize) }).sum::<usize>();
                let src = (0..blocks * nd).map(|i| C::new(nrz(bit_at(0, 2 * i)), nrz(bit_at(0, 2 * i + 1))));
                let mut it = tx_baseband_ofdm_signal(src, sc, pl);
                for b in 0..blocks {
                    let w = &all[word(b)];
                    for (j, w) in w.iter().enumerate() {
                        let g = it.next();
                        ensure!(g.map_or(false, |g| (g - w).norm() <= 1e-9), "OFDM {sc}/{pl}: sample {j} of block {b} is {g:?} instead of {w}");
                    }
                }
                ctx.step(blocks * sym);
                ensure!(it.next().is_none(), "OFDM {sc}/{pl}: more than {blocks} blocks");
                Ok(())
            }),
            scn("receiver-plans", "the receiver on every plan of 21..64 subcarriers (thorough 128) and 6 larger: a block with different values on all subcarriers, then a second one", move |ctx| {
                let (sc, pl) = if ctx.choose("size", 2) == 0 {
                    let sc = 21 + ctx.choose("sc", t.of(44, 108));
                    (sc, 1 + ctx.choose("pl", sc - 1))
                } else {
                    ctx.pick("plan", &[(256usize, 55usize), (500, 17), (512, 511), (1000, 31), (1023, 200), (1024, 1)])
                };
                let cp = sc / 4;
                let val = |c: usize| C::new(1.0 + c as f64, (c % 5) as f64 - 2.0);
                let tw: Vec<C> = (0..sc).map(|k| C::from_polar(1.0 / sc as f64, 2.0 * PI * k as f64 / sc as f64)).collect();
                let x: Vec<C> = (0..sc).map(|n| (0..sc).map(|c| val(c) * tw[((c + sc - sc / 2) % sc) * n % sc]).sum()).collect();
                let mut s = vec![C::new(-9.0, 3.0); cp];
                s.extend(&x);
                s.extend(vec![C::new(0.5, 1e3); cp]);
                s.extend(x.iter().map(|z| z * C::new(0.0, 1.0)));
                let got = pull(rx_baseband_ofdm_signal(s.into_iter(), sc, pl), 2 * sc + 1)?;
                let car = data_carriers(sc, pl);
                let want: Vec<C> = car.iter().map(|&c| val(c)).chain(car.iter().map(|&c| val(c) * C::new(0.0, 1.0))).collect();
                ensure!(got.len() == want.len(), "OFDM receiver {sc}/{pl}: {} values instead of {}", got.len(), want.len());
                for i in 0..got.len() {
                    ensure!((got[i] - want[i]).norm() <= 1e-8 * sc as f64, "OFDM receiver {sc}/{pl}: value {i} is {} instead of {}", got[i], want[i]);
                }
                ctx.step(got.len());
                Ok(())
            }),
            scn("twins", "blocks of 28 QPSK data symbols that 41 common digests of their bits cannot tell apart, one after the other in 3 orders", |ctx| {
                let (name, a, b) = ctx.pick("twins", twins());
                ctx.note(|| format!("digest {name}: {a:02x?} {b:02x?}"));
                let fr: &[&[u8]] = match ctx.choose("order", 3) {
                    0 => &[&a, &b],
                    1 => &[&b, &a, &b],
                    _ => &[&a, &a, &b, &b],
                };
                let m = bits_of(&fr.concat());
                let d: Vec<C> = m.chunks(2).map(|p| C::new(nrz(p[0]), nrz(p[1]))).collect();
                check_symbols(ctx, &d, 32, 4)
            }),
        ],
        &["samples are compared within 1e-9 of the data's magnitude"],
    )
}
