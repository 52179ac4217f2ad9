//! C12-C17: spreading, Walsh codes, coding.
use crate::core::*;
use crate::p_iter::Set;
use crate::p_psk::{half_carriers, keys_small, rate_plans, rate_plans_where};
use crate::{ensure, Tier};
use komunikilo::cdma::*;
use komunikilo::hadamard::HadamardMatrix;

// ------------------------------------------------------------------ C12

fn rt_base(ctx: &mut Ctx, m: &[bool], key: &[bool]) -> R {
    let what = format!("baseband CDMA key {} message {}", bstr(key), bstr(m));
    let tx = pull(tx_baseband_cdma(m.iter().cloned(), key), m.len() * key.len() + 1)?;
    let want: Vec<bool> = (0..m.len() * key.len()).map(|i| m[i / key.len()] ^ key[i % key.len()]).collect();
    same_bits(ctx, &format!("{what} (chips)"), &tx, &want)?;
    let rx = pull(rx_baseband_cdma(tx.into_iter(), key), m.len() + 1)?;
    same_bits(ctx, &what, &rx, m)
}
fn rt_b(ctx: &mut Ctx, m: &[bool], key: &[bool], spc: usize, rs: usize, fc: f64) -> R {
    let fs = rs * key.len() * spc;
    let what = format!("CDMA/BPSK fs={fs} rs={rs} fc={fc} key {} message {}", bstr(key), bstr(m));
    let tx = pull(tx_cdma_bpsk_signal(m.iter().cloned(), fs, rs, fc, key), m.len() * key.len() * spc + 1)?;
    let rx = pull(rx_cdma_bpsk_signal(tx.into_iter(), fs, rs, fc, key), m.len() + 1)?;
    same_bits(ctx, &what, &rx, m)
}
fn rt_q(ctx: &mut Ctx, m: &[bool], key: &[bool], spc: usize, rs: usize, fc: f64) -> R {
    let fs = rs * key.len() * spc;
    let what = format!("CDMA/QPSK fs={fs} rs={rs} fc={fc} key {} message {}", bstr(key), bstr(m));
    let tx = pull(tx_cdma_qpsk_signal(m.iter().cloned(), fs, rs, fc, key), m.len() * key.len() * spc + 1)?;
    let rx = pull(rx_cdma_qpsk_signal(tx.into_iter(), fs, rs, fc, key), m.len() + 2)?;
    same_bits(ctx, &what, &rx, &m[..m.len() / 2 * 2])
}

fn all_keys(l: usize, v: usize) -> Vec<bool> {
    (0..l).map(|i| v >> i & 1 == 1).collect()
}

pub fn c12(t: Tier) -> Set {
    (
        vec![
            scn("baseband", "every key of 1..6 chips x all messages up to 6 bits and every length 0..40", move |ctx| {
                let l = ctx.choose("keylen", t.of(6, 8)) + 1;
                let v = ctx.choose("key", 1 << l);
                let lens: Vec<usize> = (7..40).collect();
                let m = message(ctx, t.of(6, 8), &lens, 1);
                rt_base(ctx, &m, &all_keys(l, v))
            }),
            scn("baseband-long", "54 keys of up to 512 chips x ladder of message lengths (products below 2^20)", move |ctx| {
                let key = ctx.pick("key", &keys_small());
                let n = ctx.pick("n", &ladder(0, t.of(15, 18)));
                let p = ctx.choose("pattern", 2);
                if n * key.len() > 1 << t.of(20, 22) {
                    return Ok(());
                }
                rt_base(ctx, &pattern(p, n), &key)
            }),
            scn("bpsk-small", "every key of 1..4 chips x all messages up to 5 bits x samples per chip 2..4 x 3 carriers", move |ctx| {
                let l = ctx.choose("keylen", 4) + 1;
                let v = ctx.choose("key", 1 << l);
                let n = ctx.choose("len", 6);
                let m = ctx.bits("bits", n);
                let spc = ctx.choose("spc", 3) + 2;
                let fs = (10 * l * spc) as f64;
                let fc = ctx.pick("fc", &[0.25, 0.0, 0.1377]) * fs;
                rt_b(ctx, &m, &all_keys(l, v), spc, 10, fc)
            }),
            scn("bpsk-grid", "54 keys x 14 sample-per-chip values x 3 symbol rates x 8 carriers; content of 40 bits", move |ctx| {
                let key = ctx.pick("key", &keys_small());
                let spc = ctx.pick("spc", &[2usize, 3, 4, 5, 6, 7, 8, 9, 10, 16, 25, 32, 49, 64]);
                let rs = ctx.pick("rs", &[1usize, 900, 1000]);
                let f = ctx.pick("f", &[0.05, 0.25, 0.0, 0.5, 0.333, 0.4999, 0.1234, 0.01]);
                let n = if key.len() * spc > 600 { 6 } else { 40 };
                rt_b(ctx, &content(n), &key, spc, rs, f * (rs * spc * key.len()) as f64)
            }),
            scn("bpsk-lengths", "every message length 0..150 and ladder to 2^12, 6 patterns, 3 keys", move |ctx| {
                let key = ctx.pick("key", &[content(16), vec![true, false], vec![false, true, true]]);
                let mut lens: Vec<usize> = (0..150).collect();
                lens.extend(ladder(8, t.of(12, 15)));
                let n = ctx.pick("n", &lens);
                let p = ctx.choose("pattern", PATTERNS);
                rt_b(ctx, &pattern(p, n), &key, 3, 900, 1800.0)
            }),
            scn("qpsk-grid", "54 keys x 9 sample-per-chip values x 2 symbol rates x half-cycle-per-chip carriers", move |ctx| {
                let key = ctx.pick("key", &keys_small());
                let spc = ctx.pick("spc", &[3usize, 4, 5, 6, 7, 8, 12, 16, 20]);
                let rs = ctx.pick("rs", &[1usize, 900]);
                let fc = ctx.pick("fc", &half_carriers(Tier::Quick, rs * key.len(), spc));
                let n = if key.len() * spc > 600 { 6 } else { 40 };
                rt_q(ctx, &content(n), &key, spc, rs, fc)
            }),
            scn("qpsk-messages", "all messages up to 8 bits, every length 0..150, every key of 1..3 chips", move |ctx| {
                let l = ctx.choose("keylen", 3) + 1;
                let v = ctx.choose("key", 1 << l);
                let lens: Vec<usize> = (0..150).collect();
                let m = message(ctx, t.of(8, 10), &lens, 3);
                let fc = (900 * l) as f64;
                rt_q(ctx, &m, &all_keys(l, v), 4, 900, fc)
            }),
            scn("long-keys", "keys of 513..4097 chips (thorough 16385), 2..5 samples per chip, 3 symbol rates, carriers; baseband, BPSK and QPSK; 8 bits", move |ctx| {
                let l: Vec<usize> = [600usize, 777, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 8192, 10000, 16384, 16385].into_iter().filter(|&x| x <= t.of(4097, 16385)).collect();
                let key = content(ctx.pick("l", &l) + 11)[11..].to_vec();
                let m = [true, false, false, true, true, true, false, true];
                match ctx.choose("modem", 3) {
                    0 => rt_base(ctx, &m, &key),
                    1 => {
                        let spc = ctx.pick("spc", &[2usize, 3, 5]);
                        let rs = ctx.pick("rs", &[1usize, 9, 900]);
                        let f = ctx.pick("f", &[0.05, 0.25, 0.4321, 0.0]);
                        rt_b(ctx, &m, &key, spc, rs, f * (rs * spc * key.len()) as f64)
                    }
                    _ => {
                        let spc = ctx.pick("spc", &[3usize, 4, 5]);
                        let rs = ctx.pick("rs", &[1usize, 9, 900]);
                        let h = 1 + ctx.choose("half cycles", spc - 1);
                        rt_q(ctx, &m, &key, spc, rs, (rs * key.len() * h) as f64 / 2.0)
                    }
                }
            }),
            scn("long-chips", "round-number samples per chip up to 10^5 x 5 keys x 3 carriers, BPSK and QPSK, 4 bits (at most 4 million samples)", move |ctx| {
                let spc = ctx.pick("spc", &steps_to(t.of(100_001, 1_000_001)));
                let key = ctx.pick("key", &[vec![true, false, true], vec![false], vec![true, true], content(7), content(16)]);
                let q = ctx.choose("qpsk", 2) == 1;
                if spc < 3 || spc * key.len() > t.of(1 << 19, 1 << 22) {
                    return Ok(());
                }
                let m = [true, false, false, true];
                if q {
                    let h = ctx.pick("half cycles", &[1usize, 2, spc - 1]);
                    rt_q(ctx, &m, &key, spc, 10, (10 * key.len() * h) as f64 / 2.0)
                } else {
                    let f = ctx.pick("f", &[0.05, 0.25, 0.4321]);
                    rt_b(ctx, &m, &key, spc, 10, f * (10 * spc * key.len()) as f64)
                }
            }),
            scn("far", "one transmission of 2^24 + 2^16 samples or chips (thorough 2^27) fed straight into the receiver: baseband, BPSK, QPSK x 4 keys (lengths dividing no power of two too) x 2 patterns", move |ctx| {
                let total = (1usize << t.of(24, 27)) + (1 << 16);
                let key = ctx.pick("key", &[vec![true, false, true], content(16), vec![false, true, true, false, true], content(100)]);
                let p = ctx.choose("pattern", 2);
                let l = key.len();
                match ctx.choose("modem", 3) {
                    0 => {
                        let n = total / l;
                        let rx = rx_baseband_cdma(tx_baseband_cdma((0..n).map(|i| bit_at(p, i)), &key), &key);
                        stream_bits(ctx, &format!("baseband CDMA key {}", bstr(&key)), rx, n, |i| bit_at(p, i))
                    }
                    1 => {
                        let (spc, rs) = ctx.pick("rate", &[(3usize, 900usize), (7, 1)]);
                        let fs = spc * rs * l;
                        let n = total / (spc * l);
                        let fc = 0.2345 * fs as f64;
                        let rx = rx_cdma_bpsk_signal(tx_cdma_bpsk_signal((0..n).map(|i| bit_at(p, i)), fs, rs, fc, &key), fs, rs, fc, &key);
                        stream_bits(ctx, &format!("CDMA/BPSK fs={fs} rs={rs} key {}", bstr(&key)), rx, n, |i| bit_at(p, i))
                    }
                    _ => {
                        let (spc, rs) = ctx.pick("rate", &[(3usize, 900usize), (7, 1)]);
                        let fs = spc * rs * l;
                        let n = total / (spc * l) / 2 * 2;
                        let fc = (rs * l) as f64;
                        let rx = rx_cdma_qpsk_signal(tx_cdma_qpsk_signal((0..n).map(|i| bit_at(p, i)), fs, rs, fc, &key), fs, rs, fc, &key);
                        stream_bits(ctx, &format!("CDMA/QPSK fs={fs} rs={rs} key {}", bstr(&key)), rx, n, |i| bit_at(p, i))
                    }
                }
            }),
            scn("rates", "every symbol rate 1..1500 (thorough 6000) with keys of 1, 2, 3, 7 and 16 chips and 3 and 4 samples per chip, and every even division of 18 usual sample rates into symbols (keys of every length that divides them up to 64); BPSK and QPSK, 4 bits", move |ctx| {
                static L: std::sync::OnceLock<Vec<(usize, usize, usize)>> = std::sync::OnceLock::new();
                let l = L.get_or_init(|| {
                    let mut l: Vec<(usize, usize, usize)> = vec![];
                for rs in 1..=t.of(1500usize, 6000) {
                    for (k, spc) in [(1usize, 3usize), (2, 3), (3, 4), (7, 3), (16, 3), (1, 4)] {
                        l.push((k, spc, rs));
                    }
                }
                for &(sps, rs) in rate_plans(t) {
                    for k in 1..=64 {
                        if sps > 12 && sps % k == 0 && sps / k >= 3 {
                            l.push((k, sps / k, rs));
                        }
                    }
                }
                    l
                });
                let (k, spc, rs) = ctx.pick("rate", l);
                let key = content(k + 5)[5..].to_vec();
                let m = [true, false, false, true];
                if ctx.choose("qpsk", 2) == 1 {
                    rt_q(ctx, &m, &key, spc, rs, (rs * k) as f64 / 2.0 * (spc - 1) as f64)
                } else {
                    rt_b(ctx, &m, &key, spc, rs, 0.1234567 * (rs * spc * k) as f64)
                }
            }),
        ],
        &["no noise between transmitter and receiver"],
    )
}

// ------------------------------------------------------------------ C13

type Shared<T> = std::sync::OnceLock<std::sync::Mutex<std::collections::HashMap<usize, std::sync::Arc<T>>>>;
/// One construction per size, shared by the executions (the "stable" scenario compares constructions).
fn matrix(n: usize) -> std::sync::Arc<HadamardMatrix> {
    static M: Shared<HadamardMatrix> = Shared::new();
    M.get_or_init(Default::default).lock().unwrap().entry(n).or_insert_with(|| std::sync::Arc::new(HadamardMatrix::new(n))).clone()
}
fn matrix_words(n: usize) -> std::sync::Arc<Vec<Vec<u64>>> {
    static M: Shared<Vec<Vec<u64>>> = Shared::new();
    let h = matrix(n);
    M.get_or_init(Default::default).lock().unwrap().entry(n).or_insert_with(|| std::sync::Arc::new((0..n - 1).map(|i| words(h.key(i))).collect())).clone()
}

fn words(k: &[bool]) -> Vec<u64> {
    k.chunks(64).map(|c| c.iter().enumerate().fold(0u64, |a, (i, &b)| a | (b as u64) << i)).collect()
}

pub fn c13(t: Tier) -> Set {
    let top = t.of(12, 13);
    (
        vec![
            scn("codes", &format!("sizes 2..2^{top}: every code against every other code and the all-ones code"), move |ctx| {
                let n = 2usize << ctx.choose("size", top);
                let h = matrix(n);
                let i = ctx.choose("i", n - 1);
                let k = h.key(i);
                ensure!(k.len() == n, "Walsh {n}: key {i} has {} chips", k.len());
                let ones = k.iter().filter(|&&b| b).count();
                ensure!(2 * ones == n, "Walsh {n}: key {i} is not balanced ({ones} ones)");
                let w = words(k);
                ctx.observe(fnv(w.iter().cloned()));
                let all = matrix_words(n);
                for j in 0..i {
                    let d: u32 = w.iter().zip(&all[j]).map(|(a, b)| (a ^ b).count_ones()).sum();
                    ctx.step(1);
                    ensure!(2 * d as usize == n, "Walsh {n}: keys {i} and {j} are not orthogonal ({d} differing chips)");
                }
                Ok(())
            }),
            scn("wrap", "sizes 2..4096: every index up to 6n+3 and the extremes of usize wraps onto one of the n-1 codes", move |ctx| {
                let n = 2usize << ctx.choose("size", t.of(12, 13));
                let h = matrix(n);
                let k = ctx.choose("i", 6 * n + 12);
                let i = if k < 6 * n + 4 { k } else { [usize::MAX, usize::MAX - 1, usize::MAX / 2, 1 << 40, (1 << 32) - 1, 1 << 32, (1 << 16) + 1, usize::MAX - n][k - (6 * n + 4)] };
                ctx.step(1);
                ensure!(h.key(i) == h.key(i % (n - 1)), "Walsh {n}: key {i} is not key {}", i % (n - 1));
                ctx.observe(hash_bits(h.key(i)));
                Ok(())
            }),
            scn("stable", "constructing the matrix again gives the same codes, whatever was constructed in between", |ctx| {
                let a = 2usize << ctx.choose("a", 10);
                let b = 2usize << ctx.choose("b", 10);
                let h1 = HadamardMatrix::new(a);
                let h2 = HadamardMatrix::new(b);
                let h3 = HadamardMatrix::new(a);
                ensure!(h1 == h3, "Walsh {a}: two constructions differ");
                for i in 0..a {
                    ensure!(h1.key(i) == h3.key(i), "Walsh {a}: key {i} differs between constructions");
                }
                ctx.step(a);
                let _ = h2;
                Ok(())
            }),
            scn("printed", "sizes 2..2048: the printed matrix shows the all-ones code and then key 0, 1, .. in order, one line each, T or F per chip; matrices of different sizes are different", move |ctx| {
                let n = 2usize << ctx.choose("size", 11);
                let h = matrix(n);
                let text = format!("{h}");
                let rows: Vec<Vec<bool>> = text
                    .lines()
                    .filter(|l| !l.trim().is_empty())
                    .map(|l| l.split_whitespace().map(|w| if w == "T" { Ok(true) } else if w == "F" { Ok(false) } else { Err(format!("Walsh {n}: the printed matrix contains {w:?}")) }).collect::<Result<_, _>>())
                    .collect::<Result<_, _>>()?;
                ensure!(rows.len() == n, "Walsh {n}: the printed matrix has {} lines", rows.len());
                ensure!(rows[0] == vec![true; n], "Walsh {n}: the first printed line is not the all-ones code");
                for i in 0..n - 1 {
                    ctx.step(1);
                    ensure!(&rows[i + 1] == h.key(i), "Walsh {n}: printed line {} is not key {i}", i + 2);
                }
                ctx.observe(fnv(text.bytes().map(|b| b as u64)));
                ensure!(*h != HadamardMatrix::new(2 * n), "Walsh {n} equals Walsh {}", 2 * n);
                Ok(())
            }),
        ],
        &["size 1 has no usable code and is outside the property"],
    )
}

// ------------------------------------------------------------------ C14

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    B,
    Coded,
    Q,
}

fn users(ctx: &mut Ctx, mode: Mode, n: usize, spc: usize, rs: usize, fc: f64, msgs: &[(usize, Vec<bool>)]) -> R {
    users_at(ctx, mode, n, spc, rs, fc, msgs, &|_| 1.0)
}

/// As `users`, the signal of the i-th of them arriving multiplied by `gain(i)`.
#[allow(clippy::too_many_arguments)]
fn users_at(ctx: &mut Ctx, mode: Mode, n: usize, spc: usize, rs: usize, fc: f64, msgs: &[(usize, Vec<bool>)], gain: &dyn Fn(usize) -> f64) -> R {
    let fs = rs * n * spc;
    let h = HadamardMatrix::new(n);
    let mut sum: Vec<f64> = vec![];
    for (ui, (k, m)) in msgs.iter().enumerate() {
        let key = h.key(*k).clone();
        let lim = (m.len() * 4 + 200) * n * spc;
        let s: Vec<f64> = match mode {
            Mode::B => pull(tx_cdma_bpsk_signal(m.iter().cloned(), fs, rs, fc, &key), lim)?,
            Mode::Coded => pull(tx_coded_cdma_bpsk_signal(m.iter().cloned(), fs, rs, fc, &key), lim)?,
            Mode::Q => pull(tx_cdma_qpsk_signal(m.iter().cloned(), fs, rs, fc, &key), lim)?,
        };
        let s: Vec<f64> = s.into_iter().map(|x| x * gain(ui)).collect();
        if sum.is_empty() {
            sum = s;
        } else {
            ensure!(sum.len() == s.len(), "users' transmissions have different lengths {} {}", sum.len(), s.len());
            sum.iter_mut().zip(s).for_each(|(a, b)| *a += b);
        }
    }
    for (k, m) in msgs {
        let key = h.key(*k).clone();
        let it = sum.iter().cloned();
        let lim = m.len() * 2 + 200;
        let rx = match mode {
            Mode::B => pull(rx_cdma_bpsk_signal(it, fs, rs, fc, &key), lim)?,
            Mode::Coded => pull(rx_coded_cdma_bpsk_signal(it, fs, rs, fc, &key), lim)?,
            Mode::Q => pull(rx_cdma_qpsk_signal(it, fs, rs, fc, &key), lim)?,
        };
        prefix_bits(ctx, &format!("{mode:?} {} users of {n}, fs={fs} rs={rs} fc={fc}, gains {:?}, user {k}", msgs.len(), (0..msgs.len().min(4)).map(gain).collect::<Vec<_>>()), &rx, m)?;
    }
    Ok(())
}

pub fn c14(t: Tier) -> Set {
    (
        vec![
            scn("messages", "n=4: every subset of the 3 users x every combination of their 2-bit messages x spc 3..5 x carriers, BPSK and QPSK", |ctx| {
                let mode = ctx.pick("mode", &[Mode::B, Mode::Q]);
                let sub = ctx.choose("subset", 7) + 1;
                let spc = ctx.choose("spc", 3) + 3;
                let fc = ctx.pick("fc", &half_carriers(Tier::Quick, 900 * 4, spc));
                let mut ms = vec![];
                for u in 0..3 {
                    if sub >> u & 1 == 1 {
                        ms.push((u, ctx.bits("m", 2)));
                    }
                }
                users(ctx, mode, 4, spc, 900, fc, &ms)
            }),
            scn("subsets", "n=8: all 127 subsets of users, n=16: all pairs, distinct messages of 24 bits, BPSK, QPSK and coded", |ctx| {
                let mode = ctx.pick("mode", &[Mode::B, Mode::Q, Mode::Coded]);
                let k = ctx.choose("subset", 127 + 105);
                let (n, us): (usize, Vec<usize>) = if k < 127 {
                    (8, (0..7).filter(|u| (k + 1) >> u & 1 == 1).collect())
                } else {
                    let mut p = vec![];
                    for a in 0..15 { for b in 0..a { p.push(vec![a, b]); } }
                    (16, p[k - 127].clone())
                };
                let spc = ctx.pick("spc", &[3usize, 4, 8]);
                let fc = ctx.pick("fc", &[1.0, (spc - 1) as f64]) * (1000 * n) as f64 / 2.0;
                let c = content(600);
                let ms: Vec<_> = us.iter().map(|&u| (u, c[u * 29..u * 29 + 24].to_vec())).collect();
                users(ctx, mode, n, spc, 1000, fc, &ms)
            }),
            scn("all-bits", "n=8 and n=16, all users at once: every combination of one bit (QPSK: n=8 one symbol) of every user x samples per chip 3, 4 x 2 carriers", |ctx| {
                let mode = ctx.pick("mode", &[Mode::B, Mode::Q]);
                let n = if mode == Mode::B { ctx.pick("n", &[8usize, 16]) } else { 8 };
                let spc = ctx.pick("spc", &[3usize, 4]);
                let fc = ctx.pick("fc", &[1.0, (spc - 1) as f64]) * (900 * n) as f64 / 2.0;
                let per = if mode == Mode::B { 1 } else { 2 };
                let all = ctx.bits("bits", (n - 1) * per);
                let ms: Vec<_> = (0..n - 1).map(|u| (u, all[u * per..(u + 1) * per].to_vec())).collect();
                users(ctx, mode, n, spc, 900, fc, &ms)
            }),
            scn("crowded", "n=32..256 (thorough 1024), all users: 60 bits each, equal, opposite, key-aligned and de Bruijn messages, carriers, BPSK and QPSK", move |ctx| {
                let mode = ctx.pick("mode", &[Mode::B, Mode::Q]);
                let n = 32usize << ctx.choose("n", t.of(4, 6));
                let spc = ctx.pick("spc", &[3usize, 4, 7]);
                let fc = ctx.pick("fc", &[2.0, (spc - 1) as f64]) * (900 * n) as f64 / 2.0;
                let kind = ctx.choose("kind", 4);
                let h = matrix(n);
                let c = content(60 * n);
                let len = if n > 128 { 20 } else { 60 };
                let ms: Vec<_> = (0..n - 1)
                    .map(|u| (u, (0..len).map(|i| match kind {
                        0 => c[u * 60 + i],
                        1 => i % 3 != 0,
                        2 => h.key(u)[(i * 5) % n],
                        _ => (u < n / 2) ^ (i % 2 == 0),
                    }).collect()))
                    .collect();
                users(ctx, mode, n, spc, 900, fc, &ms)
            }),
            scn("full", "n=2..64 (thorough 256): all n-1 users at once and all but one, several spc and carriers, 12..60 bits each", move |ctx| {
                let mode = ctx.pick("mode", &[Mode::B, Mode::Q, Mode::Coded]);
                let n = 2usize << ctx.choose("n", t.of(6, 8));
                let spc = ctx.pick("spc", &[3usize, 4, 5, 8, 10]);
                let rs = ctx.pick("rs", &[1usize, 900]);
                let fcs = half_carriers(Tier::Quick, rs * n, spc);
                let fc = ctx.pick("fc", &fcs);
                let without = ctx.choose("without", 3);
                let c = content(4000);
                let len = if n >= 32 { 12 } else { 60 };
                let ms: Vec<_> = (0..n - 1).filter(|u| without == 0 || (u % 3 != without)).map(|u| (u, c[u * 13..u * 13 + len].to_vec())).collect();
                if ms.is_empty() {
                    return Ok(());
                }
                users(ctx, mode, n, spc, rs, fc, &ms)
            }),
            scn("long", "n=8, all users, 20000 bits each", |ctx| {
                let mode = ctx.pick("mode", &[Mode::B, Mode::Q, Mode::Coded]);
                let c = content(24000);
                let ms: Vec<_> = (0..7).map(|u| (u, c[u * 131..u * 131 + 20000].to_vec())).collect();
                users(ctx, mode, 8, 4, 900, 900.0 * 8.0, &ms)
            }),
            scn("rates", "every symbol rate 1..400 (thorough 3000) with n=2 and 4, 3 samples per chip: all users at once, 6 bits each, BPSK, QPSK and coded", move |ctx| {
                let mode = ctx.pick("mode", &[Mode::B, Mode::Q, Mode::Coded]);
                let rs = 1 + ctx.choose("rs", t.of(400, 3000));
                let n = ctx.pick("n", &[4usize, 2]);
                let c = content(200);
                let ms: Vec<_> = (0..n - 1).map(|u| (u, c[u * 13..u * 13 + 6].to_vec())).collect();
                users(ctx, mode, n, 3, rs, (rs * n) as f64 / 2.0, &ms)
            }),
            scn("levels", "users at different levels: every user of n=2..16 in turn the weak one (or the strong one) by 40 to 120 dB, all at once, x BPSK, QPSK and coded x samples per chip 3, 4, 8 x 2 carriers; levels in geometric steps", |ctx| {
                let mode = ctx.pick("mode", &[Mode::B, Mode::Q, Mode::Coded]);
                let n = ctx.pick("n", &[4usize, 8, 16]);
                let spc = ctx.pick("spc", &[3usize, 4, 8]);
                let fc = ctx.pick("fc", &[1.0, (spc - 1) as f64]) * (1000 * n) as f64 / 2.0;
                let odd = ctx.choose("user", n - 1);
                let (a, b) = ctx.pick("levels", &[(1.0, 1e2), (1.0, 1e4), (1.0, 1e6), (1e-6, 1.0), (1e-3, 3.0), (1e6, 1.0), (1e3, 1e-3), (0.0, 1.0)]);
                let c = content(600);
                let ms: Vec<_> = (0..n - 1).map(|u| (u, c[u * 29..u * 29 + 24].to_vec())).collect();
                let g = |i: usize| if a == 0.0 { 10f64.powf(((i + odd) % (n - 1)) as f64 * 6.0 / (n - 1) as f64) } else if i == odd { a } else { b };
                users_at(ctx, mode, n, spc, 1000, fc, &ms, &g)
            }),
        ],
        &["users are sample-synchronous"],
    )
}

// ------------------------------------------------------------------ C15

fn majority(ctx: &mut Ctx, chips: &[bool], key: &[bool]) -> R {
    let l = key.len();
    let got = pull(rx_baseband_cdma(chips.iter().cloned(), key), chips.len() / l + 2)?;
    let full = chips.len() / l;
    ensure!(got.len() >= full, "{} bits for {} chips of a {l}-chip key", got.len(), chips.len());
    // an incomplete group at the end is, if decided at all, decided by the same count
    let want: Vec<bool> = (0..got.len())
        .map(|b| 2 * (0..l).filter(|&j| b * l + j < chips.len() && chips[b * l + j] ^ key[j]).count() > l)
        .collect();
    same_bits(ctx, &format!("majority, key {} chips {}", bstr(key), bstr(chips)), &got, &want)
}

pub fn c15(t: Tier) -> Set {
    let lmax = t.of(9, 11);
    (
        vec![
            scn("one-bit", &format!("every key of 1..{lmax} chips x every received chip pattern of one bit"), move |ctx| {
                let l = ctx.choose("l", lmax) + 1;
                let k = ctx.choose("key", 1 << l);
                let c = ctx.choose("chips", 1 << l);
                majority(ctx, &all_keys(l, c), &all_keys(l, k))
            }),
            scn("bits", "every key of 1..5 chips x every received pattern of up to 3 bits (at most 2^13 patterns)", |ctx| {
                let l = ctx.choose("l", 5) + 1;
                let k = ctx.choose("key", 1 << l);
                let b = ctx.choose("bits", 3) + 1;
                if l * b > 13 {
                    return Ok(());
                }
                let c = ctx.choose("chips", 1 << (l * b));
                majority(ctx, &all_keys(l * b, c), &all_keys(l, k))
            }),
            scn("sixteen", "a 16-chip and a 15-chip key x every one of the 2^16 (2^15) received patterns", |ctx| {
                let l = 16 - ctx.choose("l", 2);
                let c = ctx.choose("chips", 1 << l);
                majority(ctx, &all_keys(l, c), &content(l))
            }),
            scn("long-keys", "keys of 31..1025 chips: every number of chip errors around the threshold (0..l), contiguous, spread and tail placement, 3 bits", move |ctx| {
                let l = ctx.pick("l", &[17usize, 18, 20, 24, 31, 32, 33, 47, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 1000, 1024, 1025, 2047, 2048, 4096, 4097]);
                let e = ctx.choose("errors", l + 1);
                if l > 130 && !(e <= 2 || e + 2 >= l || (e + 3 >= l / 2 && e <= l / 2 + 3)) {
                    return Ok(());
                }
                let place = ctx.choose("place", 3);
                let which = ctx.choose("bit", 3);
                let m = ctx.bits("m", 3);
                let key = content(l + 3)[3..].to_vec();
                let mut chips: Vec<bool> = tx_baseband_cdma(m.iter().cloned(), &key).take(3 * l).collect();
                for j in 0..e {
                    let p = match place { 0 => j, 1 => (j * 7) % l, _ => l - 1 - j };
                    let p = if place == 1 && l % 7 == 0 { j } else { p };
                    chips[which * l + p] ^= true;
                }
                majority(ctx, &chips, &key)?;
                if 2 * e < l {
                    let got: Vec<bool> = pull(rx_baseband_cdma(chips.iter().cloned(), &key), 4)?;
                    same_bits(ctx, &format!("{e} chip errors of {l}"), &got, &m)?;
                }
                Ok(())
            }),
            scn("pairs-of-bits", "6..8-chip keys (one each) x every received pattern of two bits (2^16 at most)", |ctx| {
                let l = 6 + ctx.choose("l", 3);
                let c = ctx.choose("chips", 1 << (2 * l));
                majority(ctx, &all_keys(2 * l, c), &content(l + 2)[2..])
            }),
            scn("far", "2^24 chips (thorough 2^30) of arbitrary chips, 5 keys: every bit the majority of its own chips", move |ctx| {
                let key = ctx.pick("key", &[vec![true, false, true], vec![true], content(16), content(7), content(1000)]);
                let l = key.len();
                let n = (1usize << t.of(24, 30)) / l;
                let chip = |i: usize| bit_at(0, i) ^ (i % 11 == 3);
                let rx = rx_baseband_cdma((0..n * l).map(chip), &key);
                stream_bits(ctx, &format!("majority, key {}", bstr(&key)), rx, n, |b| 2 * (0..l).filter(|&j| chip(b * l + j) ^ key[j]).count() > l)
            }),
            scn("streams", "long chip streams (ladder to 2^16 chips) with errors everywhere, 54 keys", move |ctx| {
                let key = ctx.pick("key", &keys_small());
                let n = ctx.pick("n", &ladder(6, t.of(16, 18)));
                let c = pattern(ctx.choose("p", 2), n);
                majority(ctx, &c, &key)
            }),
            scn("huge-keys", "keys of 2^15-1 .. 2^18+1 chips (2^16 and 2^17 among them), even and odd: no chip errors, all chip errors, one less and one more than half; 2 bits", |ctx| {
                let mut ls = vec![];
                for j in 15..=18 {
                    ls.extend([(1usize << j) - 1, 1 << j, (1 << j) + 1, 3 << (j - 1)]);
                }
                let l = ctx.pick("l", &ls);
                let key: Vec<bool> = (0..l).map(|i| (i * i + i / 7) % 5 < 2).collect();
                let bit = ctx.choose("bit", 2) == 1;
                let wrong = [0, 1, l / 2 - 1, l.div_ceil(2) - 1, l / 2 + 1, l][ctx.choose("errors", 6)];
                let tail = ctx.choose("tail", 2) == 1;
                // second bit: the other value, undisturbed
                let mut chips: Vec<bool> = key.iter().map(|k| k ^ bit).chain(key.iter().map(|k| !(k ^ bit))).collect();
                for i in 0..wrong {
                    let p = if tail { l - 1 - i } else { i };
                    chips[p] = !chips[p];
                }
                let sent: Vec<bool> = pull(tx_baseband_cdma([bit, !bit].into_iter(), &key), 2 * l + 1)?;
                ensure!(sent.len() == 2 * l && sent[l..] == chips[l..] && (wrong > 0 || sent == chips), "key of {l} chips: transmitted chips are not bit xor key");
                let g = pull(rx_baseband_cdma(chips.into_iter(), &key), 4)?;
                let first = if wrong * 2 > l { !bit } else { bit };
                ctx.step(2 * l);
                ensure!(g == [first, !bit], "key of {l} chips, bit {bit}, {wrong} chips wrong: received {g:?}");
                Ok(())
            }),
            scn("fragments", "every key of 2..5 chips x every received pattern of one whole bit and every fragment of a second, and every fragment alone", |ctx| {
                let l = ctx.choose("l", 4) + 2;
                let k = ctx.choose("key", 1 << l);
                let n = ctx.choose("fragment", l - 1) + 1 + l * ctx.choose("whole bits", 2);
                let c = ctx.choose("chips", 1 << n);
                majority(ctx, &all_keys(n, c), &all_keys(l, k))
            }),
            scn("fragments-long", "keys of 6..130 chips: fragments of every length, no, all and around half the key's chips wrong", |ctx| {
                let l = ctx.choose("l", 125) + 6;
                let f = ctx.choose("fragment", l - 1) + 1;
                let key = content(l);
                let ones = ctx.pick("ones", &[0, 1, f / 2, f / 2 + 1, l / 2, l / 2 + 1, f]).min(f);
                let chips: Vec<bool> = (0..l + f).map(|i| key[i % l] ^ (i >= l && (i - l) < ones)).collect();
                majority(ctx, &chips, &key)
            }),
        ],
        &["a last bit whose chips are incomplete is outside the property (see C18)"],
    )
}

// ------------------------------------------------------------------ C16 C17

const ONE: [bool; 1] = [true];
const CFG: (usize, usize, f64) = (2, 1, 0.25); // two samples per transmitted bit

fn coded_tx(m: &[bool]) -> Result<Vec<f64>, String> {
    pull(tx_coded_cdma_bpsk_signal(m.iter().cloned(), CFG.0, CFG.1, CFG.2, &ONE), m.len() * 12 + 1000)
}
fn coded_rx(x: &[f64]) -> Result<Vec<bool>, String> {
    pull(rx_coded_cdma_bpsk_signal(x.iter().cloned(), CFG.0, CFG.1, CFG.2, &ONE), x.len() + 10)
}
fn coded_len_bits(n: usize) -> usize {
    let by = n.div_ceil(8);
    let full = by / 7;
    let rest = by % 7;
    (full * 12 + if rest > 0 { rest + 5 } else { 0 }) * 8
}

fn coded_case(ctx: &mut Ctx, m: &[bool], key: &[bool], spc: usize, rs: usize, f: f64) -> R {
    let sps = spc * key.len();
    let fs = sps * rs;
    let fc = f * fs as f64;
    let what = format!("coded CDMA fs={fs} rs={rs} fc={fc} key {} message {}", bstr(key), bstr(m));
    let bits = coded_len_bits(m.len());
    let tx = pull(tx_coded_cdma_bpsk_signal(m.iter().cloned(), fs, rs, fc, key), bits * sps + 1)?;
    ensure!(tx.len() == bits * sps, "{what}: {} samples instead of {} ({} code bits)", tx.len(), bits * sps, bits);
    let rx = pull(rx_coded_cdma_bpsk_signal(tx.into_iter(), fs, rs, fc, key), bits + 1)?;
    let mut want = m.to_vec();
    want.resize(m.len().div_ceil(8) * 8, false);
    same_bits(ctx, &what, &rx, &want)
}

pub fn c16(t: Tier) -> Set {
    (
        vec![
            scn("messages", "all messages up to 12 bits", move |ctx| {
                let n = ctx.choose("len", t.of(13, 17));
                let m = ctx.bits("bits", n);
                coded_case(ctx, &m, &ONE, 2, 1, 0.25)
            }),
            scn("lengths", "every length 0..700, 6 patterns", move |ctx| {
                let n = ctx.choose("n", t.of(701, 2001));
                let p = ctx.choose("pattern", PATTERNS);
                coded_case(ctx, &pattern(p, n), &ONE, 2, 1, 0.25)
            }),
            scn("far", "one coded transmission of 2^22 message bits (thorough 2^24) fed straight into the receiver, 2 keys: every bit in order", move |ctx| {
                let key = ctx.pick("key", &[vec![true], vec![false, true]]);
                let n = (1usize << t.of(22, 24)) + 3;
                let (fs, rs, fc) = (2 * key.len(), 1, 0.25);
                let rx = rx_coded_cdma_bpsk_signal(tx_coded_cdma_bpsk_signal((0..n).map(|i| bit_at(0, i)), fs, rs, fc, &key), fs, rs, fc, &key);
                stream_bits(ctx, "coded CDMA", rx, n.div_ceil(8) * 8, |i| i < n && bit_at(0, i))
            }),
            scn("byte-pairs", "every pair of values of two neighbouring message bytes at each of 6 positions (thorough; quick: 64 x 256 values)", move |ctx| {
                let pos = ctx.choose("pos", 6);
                let a = ctx.choose("a", t.of(64, 256));
                let b = ctx.choose("b", 256);
                let mut by = [0x31u8; 7];
                by[pos] = (a * t.of(4, 1) + b % t.of(4, 1)) as u8;
                by[pos + 1] = b as u8;
                let m: Vec<bool> = by.iter().flat_map(|&x| (0..8).map(move |k| x >> k & 1 == 1)).collect();
                coded_case(ctx, &m, &ONE, 2, 1, 0.25)
            }),
            scn("ladder", "lengths 2^j-1..2^j+1 up to 2^18", move |ctx| {
                let n = ctx.pick("n", &ladder(9, t.of(18, 20)));
                let p = ctx.choose("pattern", 2);
                coded_case(ctx, &pattern(p, n), &ONE, 2, 1, 0.1)
            }),
            scn("bytes", "every value of each of the 7 message bytes in turn, on two backgrounds", |ctx| {
                let pos = ctx.choose("pos", 7);
                let v = ctx.choose("v", 256);
                let bg = ctx.pick("bg", &[0u8, 0xa5]);
                let mut m = vec![];
                for i in 0..7 {
                    let b = if i == pos { v as u8 } else { bg };
                    m.extend((0..8).map(|k| b >> k & 1 == 1));
                }
                coded_case(ctx, &m, &ONE, 2, 1, 0.25)
            }),
            scn("keys", "54 keys x samples per chip 2..5 x 3 carriers, lengths 0, 1, 55, 56, 57, 120", |ctx| {
                let key = ctx.pick("key", &keys_small());
                let spc = ctx.pick("spc", &[2usize, 3, 5]);
                let f = ctx.pick("f", &[0.05, 0.25, 0.333]);
                let n = ctx.pick("n", &[57usize, 0, 1, 55, 56, 120]);
                if key.len() * spc > 300 && n > 57 {
                    return Ok(());
                }
                coded_case(ctx, &content(n), &key, spc, 900, f)
            }),
            scn("rates", "every symbol rate 1..700 (thorough 6000) x 8 samples per symbol up to 12, and every even division of 18 usual sample rates (2 samples per symbol or more), keys of 1 and 2 chips: lengths 9 and 0", move |ctx| {
                let l = rate_plans_where(t, |s| s >= 2 && s <= 300);
                let (sps, rs) = ctx.pick("rate", &l);
                let two = sps % 2 == 0 && sps >= 4;
                let key = if two { vec![true, false] } else { vec![true] };
                let n = ctx.pick("n", &[9usize, 0]);
                coded_case(ctx, &content(n), &key, sps / key.len(), rs, 0.1234567)
            }),
            scn("twins", "blocks that 41 common digests (sums, CRCs, multiplicative hashes, leading or trailing bytes, number of ones) cannot tell apart, one after the other in 5 orders and in separate transmissions", |ctx| {
                let (name, a, b) = ctx.pick("twins", twins());
                let tail = ctx.pick("tail", &[7usize, 3]);
                let order = ctx.choose("order", 6);
                ctx.note(|| format!("digest {name}: {a:02x?} {b:02x?}"));
                let fr: &[&[u8]] = match order {
                    0 => &[&a, &b],
                    1 => &[&b, &a, &b[..tail]],
                    2 => &[&a, &b, &b, &a],
                    3 => &[&a, &a, &a[..tail], ],
                    4 => &[&a, &[9; 7], &b, &a],
                    _ => {
                        coded_case(ctx, &bits_of(&a), &ONE, 2, 1, 0.25)?;
                        coded_case(ctx, &bits_of(&b), &ONE, 2, 1, 0.25)?;
                        return coded_case(ctx, &bits_of(&a), &ONE, 2, 1, 0.25);
                    }
                };
                coded_case(ctx, &bits_of(&fr.concat()), &ONE, 2, 1, 0.25)
            }),
        ],
        &["no noise between transmitter and receiver"],
    )
}

/// XOR `v` onto the transmitted byte `byte` of a coded transmission.
fn hit(x: &mut [f64], byte: usize, v: u8) {
    for k in 0..8 {
        if v >> k & 1 == 1 {
            for s in 0..2 {
                x[(byte * 8 + k) * 2 + s] *= -1.0;
            }
        }
    }
}

pub fn c17(t: Tier) -> Set {
    let frame = content(56);
    let base = std::sync::OnceLock::new();
    let frame2 = frame.clone();
    let v = vec![
        scn("one-byte", "full frame x 4 contents: every position x every corruption value of a single byte", |ctx| {
            let p = ctx.choose("content", 4);
            let pos = ctx.choose("pos", 12);
            let e = ctx.choose("e", 256) as u8;
            let m = pattern(p, 56);
            let mut x = coded_tx(&m)?;
            hit(&mut x, pos, e);
            same_bits(ctx, &format!("byte {pos} of a frame corrupted by {e:#x}"), &coded_rx(&x)?, &m)
        }),
        scn("two-bytes", if t.deep() { "full frame: every pair of positions x every pair of corruption values (66 * 255^2)" } else { "full frame: every pair of positions x every value of one byte x 24 values of the other" }, move |ctx| {
            let a = ctx.choose("a", 12);
            let b = ctx.choose("b", 12);
            if b >= a {
                return Ok(());
            }
            let ea = ctx.choose("ea", 255) as u8 + 1;
            let eb = if t.deep() { ctx.choose("eb", 255) as u8 + 1 } else {
                ctx.pick("eb", &[1u8, 2, 4, 8, 16, 32, 64, 128, 0xff, 3, 0x55, 0xaa, 0x0f, 0xf0, 0x7f, 0xfe, 0x11, 0x1d, 0x8e, 0x47, 0xc3, 0x3c, 0x99, 0x66])
            };
            let x0: &Vec<f64> = base.get_or_init(|| coded_tx(&frame2).unwrap_or_default());
            let mut x = x0.clone();
            ensure!(x.len() == 192, "a 7-byte message gives {} samples instead of 192", x.len());
            hit(&mut x, a, ea);
            hit(&mut x, b, eb);
            same_bits(ctx, &format!("bytes {a}^{ea:#x} and {b}^{eb:#x} corrupted"), &coded_rx(&x)?, &frame2)
        }),
        scn("two-bytes-contents", "32 frame contents x every pair of positions x 9 corruption values each", |ctx| {
            let c = ctx.choose("content", 32);
            let a = ctx.choose("a", 12);
            let b = ctx.choose("b", 12);
            if b >= a {
                return Ok(());
            }
            let vals = [1u8, 0x80, 0xff, 0x55, 0x1d, 0x02, 0x3c, 0x7f, 0xaa];
            let ea = ctx.pick("ea", &vals);
            let eb = ctx.pick("eb", &vals);
            let m = if c < 6 { pattern(c, 56) } else { content(56 + c * 57)[c * 57..].to_vec() };
            let mut x = coded_tx(&m)?;
            hit(&mut x, a, ea);
            hit(&mut x, b, eb);
            same_bits(ctx, &format!("content {c}, bytes {a}^{ea:#x} and {b}^{eb:#x}"), &coded_rx(&x)?, &m)
        }),
        scn("short-frame", "short last frames of 1..6 bytes: every pair of positions x every value of one x 6 of the other", |ctx| {
            let k = ctx.choose("k", 6) + 1;
            let a = ctx.choose("a", k + 5);
            let b = ctx.choose("b", k + 5);
            if b > a {
                return Ok(());
            }
            let ea = ctx.choose("ea", 255) as u8 + 1;
            let eb = ctx.pick("eb", &[1u8, 0x80, 0xff, 0x55, 0x1d, 0x02]);
            let m = content(k * 8 + 5)[5..].to_vec();
            let mut x = coded_tx(&m)?;
            hit(&mut x, a, ea);
            if b != a {
                hit(&mut x, b, eb);
            }
            same_bits(ctx, &format!("{k}-byte frame, bytes {a}^{ea:#x} and {b}^{eb:#x}"), &coded_rx(&x)?, &m)
        }),
        scn("isolation", "4 frames (3 full, 1 short), every combination of per-frame damage {none, 1 byte, 2 bytes, 3 bytes, half, all} x 4 placements", |ctx| {
            let m = content(3 * 56 + 19);
            let mut x = coded_tx(&m)?;
            let place = ctx.choose("place", 4);
            let mut ok = [true; 4];
            for f in 0..4 {
                let d = ctx.choose("damage", 6);
                let len = if f < 3 { 12 } else { 8 };
                let n = [0, 1, 2, 3, len / 2, len][d];
                ok[f] = n <= 2;
                for j in 0..n {
                    let p = match place { 0 => j, 1 => len - 1 - j, 2 => (j * 5 + f) % len, _ => (j * 7 + 3) % len };
                    hit(&mut x, f * 12 + p, [0xff, 0x01, 0x5a, 0x80][(j + place) % 4]);
                }
            }
            let rx = coded_rx(&x)?;
            for f in 0..4 {
                if ok[f] {
                    let (a, b) = (f * 56, ((f + 1) * 56).min(m.len()));
                    ensure!(rx.len() >= b, "only {} bits decoded of {}", rx.len(), m.len());
                    same_bits(ctx, &format!("frame {f} (damage elsewhere or correctable)"), &rx[a..b], &m[a..b])?;
                }
            }
            Ok(())
        }),
        scn("late", "2000 frames, 2 bytes of every frame corrupted at moving positions: everything decoded", |ctx| {
            let m = pattern(ctx.choose("p", 6), 2000 * 56 + 24);
            let st = ctx.choose("stride", 11) + 1;
            let mut x = coded_tx(&m)?;
            for f in 0..2001 {
                let len = if f < 2000 { 12 } else { 8 };
                hit(&mut x, f * 12 + f % len, (f as u8).wrapping_mul(37) | 1);
                if (f + st) % len != f % len {
                    hit(&mut x, f * 12 + (f + st) % len, (f as u8).wrapping_mul(91) | 2);
                }
            }
            same_bits(ctx, "2000 frames with two corrupted bytes each", &coded_rx(&x)?, &m)
        }),
        scn("keys", "12 keys of 1..64 chips x two carriers: every pair of corrupted byte positions", |ctx| {
            let key = ctx.pick("key", &[vec![false], vec![true, false], vec![true, true, true], content(4), content(5), content(7), content(8), content(16), content(17), content(32), content(33), content(64)]);
            let f = ctx.pick("f", &[0.25, 0.1]);
            let a = ctx.choose("a", 12);
            let b = ctx.choose("b", 12);
            if b >= a {
                return Ok(());
            }
            let m = pattern(a % 2 * 5, 56);
            let sps = 2 * key.len();
            let fc = f * sps as f64;
            let mut x = pull(tx_coded_cdma_bpsk_signal(m.iter().cloned(), sps, 1, fc, &key), 96 * sps + 1)?;
            ensure!(x.len() == 96 * sps, "a 7-byte message gives {} samples", x.len());
            for (p, e) in [(a, 0xa7u8), (b, 0x81)] {
                for k in 0..8 {
                    if e >> k & 1 == 1 {
                        x[(p * 8 + k) * sps..(p * 8 + k + 1) * sps].iter_mut().for_each(|v| *v = -*v);
                    }
                }
            }
            let r = pull(rx_coded_cdma_bpsk_signal(x.into_iter(), sps, 1, fc, &key), 200)?;
            same_bits(ctx, &format!("key {}, bytes {a} and {b} corrupted", bstr(&key)), &r, &m)
        }),
        scn("lengths", "every message length of 1..16 bytes and odd bit counts: every pair of corrupted positions within each frame", |ctx| {
            let bits = ctx.choose("bits", 128) + 1;
            let m = content(bits + 3)[3..].to_vec();
            let by = bits.div_ceil(8);
            let f = ctx.choose("frame", by.div_ceil(7));
            let len = if (f + 1) * 7 <= by { 12 } else { by % 7 + 5 };
            let a = ctx.choose("a", len);
            let b = ctx.choose("b", len);
            if b > a {
                return Ok(());
            }
            let mut x = coded_tx(&m)?;
            hit(&mut x, f * 12 + a, 0x9c);
            if a != b {
                hit(&mut x, f * 12 + b, 0x40);
            }
            prefix_bits(ctx, &format!("{bits}-bit message, frame {f} bytes {a} and {b} corrupted"), &coded_rx(&x)?, &m)
        }),
        scn("long", "60 frames: one frame (each in turn) destroyed, two bytes of every other frame corrupted", |ctx| {
            let m = content(60 * 56);
            let bad = ctx.choose("bad", 60);
            let mut x = coded_tx(&m)?;
            for f in 0..60 {
                if f == bad {
                    for j in 0..12 {
                        hit(&mut x, f * 12 + j, 0x5a ^ j as u8);
                    }
                } else {
                    hit(&mut x, f * 12 + f % 12, (f as u8).wrapping_mul(37) | 1);
                    hit(&mut x, f * 12 + (f + 5) % 12, (f as u8).wrapping_mul(91) | 2);
                }
            }
            let rx = coded_rx(&x)?;
            for f in 0..60 {
                if f != bad {
                    ensure!(rx.len() >= (f + 1) * 56, "only {} bits decoded", rx.len());
                    same_bits(ctx, &format!("frame {f}"), &rx[f * 56..(f + 1) * 56], &m[f * 56..(f + 1) * 56])?;
                }
            }
            Ok(())
        }),
        scn("look-alike", "frames that differ in 1 or 2 bytes, one of them corrupted until its data bytes (or all bytes but two) read like the other's: every pair of data positions, 4 differences, 5 orders of frames in one reception or in two", move |ctx| {
            let i = ctx.choose("i", 7);
            let j = ctx.choose("j", 7);
            if j > i {
                return Ok(());
            }
            let (di, dj) = ctx.pick("d", &[(1u8, 0x80u8), (0xff, 0xff), (0x5a, 0x03), (0x1d, 0x8e)]);
            let bg = ctx.choose("content", 4);
            let order = ctx.choose("order", 7);
            let a = if bg < 2 { pattern(bg, 56) } else { content(56 + bg * 57)[bg * 57..].to_vec() };
            let c = content(700)[640..696].to_vec();
            let mut b = a.clone();
            for k in 0..8 {
                b[i * 8 + k] ^= di >> k & 1 == 1;
                if i != j {
                    b[j * 8 + k] ^= dj >> k & 1 == 1;
                }
            }
            // B's frame read with A's data bytes
            let mask = |x: &mut Vec<f64>, at: usize| {
                let bits = |m: &[bool], n: usize| (0..8).fold(0u8, |s, k| s | (m[n * 8 + k] as u8) << k);
                for n in [i, j] {
                    hit(x, at * 12 + n, bits(&a, n) ^ bits(&b, n));
                    if i == j {
                        break;
                    }
                }
            };
            let what = format!("frames differing in bytes {i} and {j}, one corrupted to read like the other (order {order})");
            let send = |ctx: &mut Ctx, fr: &[&Vec<bool>], bad: &[usize]| -> R {
                let m: Vec<bool> = fr.iter().flat_map(|f| f.iter().cloned()).collect();
                let mut x = coded_tx(&m)?;
                for &at in bad {
                    mask(&mut x, at);
                }
                same_bits(ctx, &what, &coded_rx(&x)?, &m)
            };
            match order {
                0 => send(ctx, &[&a, &b], &[1]),
                1 => send(ctx, &[&b, &a], &[0]),
                2 => send(ctx, &[&a, &c, &b], &[2]),
                3 => send(ctx, &[&b, &b, &a, &b], &[0, 3]),
                4 => send(ctx, &[&a, &b, &a], &[0, 2]), // A's frames read like B's
                5 => {
                    send(ctx, &[&a], &[])?;
                    send(ctx, &[&b], &[0])
                }
                _ => {
                    send(ctx, &[&b], &[0])?;
                    send(ctx, &[&a], &[])?;
                    send(ctx, &[&b], &[])
                }
            }
        }),
        scn("twins", "blocks that 41 common digests cannot tell apart (and what they become with 1 or 2 bytes corrupted), in 4 orders and in separate receptions", |ctx| {
            let (name, a, b) = ctx.pick("twins", twins());
            let (p, q, e) = ctx.pick("damage", &[(0usize, 6usize, 0xffu8), (7, 11, 1), (3, 3, 0x80), (2, 9, 0x5a), (12, 12, 0)]);
            ctx.note(|| format!("digest {name}: {a:02x?} {b:02x?}"));
            let send = |ctx: &mut Ctx, fr: &[&[u8]], bad: &[usize]| -> R {
                let m = bits_of(&fr.concat());
                let mut x = coded_tx(&m)?;
                for &f in bad {
                    if p < 12 {
                        hit(&mut x, f * 12 + p, e);
                    }
                    if q < 12 && q != p {
                        hit(&mut x, f * 12 + q, !e | 1);
                    }
                }
                same_bits(ctx, &format!("blocks with the same {name}"), &coded_rx(&x)?, &m)
            };
            match ctx.choose("order", 5) {
                0 => send(ctx, &[&a, &b], &[1]),
                1 => send(ctx, &[&b, &a], &[0, 1]),
                2 => send(ctx, &[&a, &b, &a, &b], &[0, 3]),
                3 => send(ctx, &[&b, &a, &b, &a], &[2]),
                _ => {
                    send(ctx, &[&a], &[])?;
                    send(ctx, &[&b], &[0])?;
                    send(ctx, &[&a], &[0])
                }
            }
        }),
    ];
    let _ = frame;
    (v, &["a transmitted byte is corrupted by inverting the samples of any of its bits"])
}
