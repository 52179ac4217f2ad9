//! C32: rate plans.
use crate::core::*;
use crate::p_iter::Set;
use crate::{ensure, Tier};
use komunikilo::bpsk::*;
use komunikilo::cdma::*;
use komunikilo::fh::*;
use komunikilo::fh_css::*;
use komunikilo::fh_ofdm_dcsk::*;
use komunikilo::fsk::*;
use komunikilo::hadamard::HadamardMatrix;
use komunikilo::ofdm::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum T {
    Bpsk,
    Bfsk,
    Mfsk,
    Fsk,
    CdmaB,
    CdmaQ,
    CdmaC,
    RxCdmaB,
    RxCdmaQ,
    RxCdmaC,
    Fh,
    RxFh,
    Css,
    Dcsk,
    Dcsk2,
    Ofdm,
    RxOfdm,
}
use T::*;
const ALL: [T; 17] = [Bpsk, Bfsk, Mfsk, Fsk, CdmaB, CdmaQ, CdmaC, RxCdmaB, RxCdmaQ, RxCdmaC, Fh, RxFh, Css, Dcsk, Dcsk2, Ofdm, RxOfdm];

fn is_cdma(t: T) -> bool {
    matches!(t, CdmaB | CdmaQ | CdmaC | RxCdmaB | RxCdmaQ | RxCdmaC)
}

/// Some(true): every rule holds; Some(false): a rule is broken; None: the statement leaves it open.
fn rules(t: T, fs: usize, rs: usize, f: f64, kl: usize) -> Option<bool> {
    let kl = if is_cdma(t) { kl } else { 1 };
    if fs % rs != 0 || fs % (rs * kl) != 0 {
        return Some(false);
    }
    if is_cdma(t) && 2 * rs * kl > fs {
        return Some(false);
    }
    if !matches!(t, Ofdm | RxOfdm) {
        let over = f - fs as f64 / 2.0;
        if over >= 1.0 {
            return Some(false);
        }
        if over > 0.0 {
            return None;
        }
    }
    Some(true)
}

/// Does it construct and give its first sample (receivers: accept a stream)?
fn accepts(t: T, fs: usize, rs: usize, f: f64, key: &'static [bool]) -> bool {
    let m = || [true, false].into_iter();
    let z = || vec![0.5f64; if fs / rs >= 4000 { 0 } else { 2 * fs.div_ceil(rs) + 2 }].into_iter();
    // a receiver for a huge symbol is only constructed
    let rx = |it: &mut dyn Iterator<Item = bool>| {
        if fs / rs < 4000 {
            it.next();
        }
    };
    let lo = f / 2.0;
    panics(|| match t {
        Bpsk => drop(tx_bpsk_signal(m(), fs, rs, f).next()),
        Bfsk => drop(tx_bfsk_signal(m(), fs, rs, lo, f).next()),
        Mfsk => drop(tx_mfsk_signal(m(), fs, rs, lo, f, 2).next()),
        Fsk => drop(tx_fsk_signal(m(), fs, rs, &[f, lo]).next()),
        CdmaB => drop(tx_cdma_bpsk_signal(m(), fs, rs, f, key).next()),
        CdmaQ => drop(tx_cdma_qpsk_signal(m(), fs, rs, f, key).next()),
        CdmaC => drop(tx_coded_cdma_bpsk_signal(m(), fs, rs, f, key).next()),
        RxCdmaB => rx(&mut rx_cdma_bpsk_signal(z(), fs, rs, f, key)),
        RxCdmaQ => rx(&mut rx_cdma_qpsk_signal(z(), fs, rs, f, key)),
        RxCdmaC => rx(&mut rx_coded_cdma_bpsk_signal(z(), fs, rs, f, key)),
        Fh => drop(tx_fh_bpsk_signal(m(), lo, f, 4, fs, rs).next()),
        RxFh => rx(&mut rx_fh_bpsk_signal(z(), lo, f, 4, fs, rs)),
        Css => drop(tx_fh_css_signal(m(), fs, rs, lo, f, 4).next()),
        Dcsk => drop(tx_fh_ofdm_dcsk_signal(m(), lo, f, 4, fs, rs).next()),
        Dcsk2 => drop(tx_fh_ofdm_dcsk_signal_2(m(), fs, rs, f).next()),
        Ofdm => drop(tx_ofdm_qpsk_signal(m(), 8, 2, fs, rs, f).next()),
        RxOfdm => rx(&mut rx_ofdm_qpsk_signal(z(), 8, 2, fs, rs, f)),
    })
    .is_ok()
}

fn key(n: usize) -> &'static [bool] {
    static K: std::sync::OnceLock<Vec<bool>> = std::sync::OnceLock::new();
    &K.get_or_init(|| content(4096))[..n]
}

fn one(ctx: &mut Ctx, t: T, fs: usize, rs: usize, f: f64, kl: usize) -> R {
    let Some(ok) = rules(t, fs, rs, f, kl) else { return Ok(()) };
    let got = accepts(t, fs, rs, f, key(kl));
    ctx.step(1);
    ctx.observe(got as u64);
    ensure!(
        got == ok,
        "{t:?} with sample rate {fs}, symbol rate {rs}, carrier {f}{} is {} although {}",
        if is_cdma(t) { format!(", {kl}-chip key") } else { String::new() },
        if got { "accepted" } else { "refused" },
        if ok { "every rule holds" } else { "a rule is broken" }
    );
    Ok(())
}

fn freqs(fs: usize) -> Vec<f64> {
    let h = fs as f64 / 2.0;
    let mut v = vec![h / 2.0, h, h + 1.0, h + 1.5, h + 2.0, 0.0, 2.0 * h, 2.0 * h + 3.0, h - 0.5, h - 1.0, h + 10.0, h * 1.5 + 1.0, 1e9, h + 1.000001];
    v.retain(|&f| f >= 0.0);
    v
}

pub fn c32(t: Tier) -> Set {
    let hi = t.of(48, 100);
    (
        vec![
            scn("grid", &format!("17 constructors x sample rates 1..{hi} x symbol rates 1..{hi} x 14 carriers around half the sample rate x key lengths 1,2,3,4,7"), move |ctx| {
                let k = ctx.pick("what", &ALL);
                let fs = 1 + ctx.choose("fs", hi);
                let rs = 1 + ctx.choose("rs", hi);
                let f = ctx.pick("f", &freqs(fs));
                let kl = if is_cdma(k) { ctx.pick("key", &[2usize, 1, 3, 4, 7]) } else { 1 };
                one(ctx, k, fs, rs, f, kl)
            }),
            scn("usual", "17 constructors x 30 usual sample rates x 30 symbol rates x 14 carriers x key lengths 1..64", move |ctx| {
                let k = ctx.pick("what", &ALL);
                let fs = ctx.pick("fs", &[
                    44100usize, 48000, 8000, 11025, 16000, 22050, 32000, 96000, 192000, 1_000_000, 80_000, 10_000, 100_000, 44101, 44099, 65536, 65535, 65537, 255, 256, 257, 1000, 900, 9600, 115200, 3_200_000, 2_400_000_000,
                    4_294_967_296, 4_294_967_295, 6_000_000_000,
                ]);
                let rs = ctx.pick("rs", &[
                    900usize, 1000, 1, 2, 3, 7, 49, 50, 100, 147, 300, 441, 1200, 2205, 2400, 4410, 4800, 9600, 22050, 44100, 48000, 65535, 65536, 65537, 8000, 256, 899, 901, 1001, 999,
                ]);
                let f = ctx.pick("f", &freqs(fs));
                let kl = if is_cdma(k) { ctx.pick("key", &[16usize, 1, 2, 4, 8, 32, 64, 3, 5, 7, 49]) } else { 1 };
                one(ctx, k, fs, rs, f, kl)
            }),
            scn("near-multiples", "17 constructors: sample rates q*rs+d for q 1..40, d -3..3, 8 symbol rates: only exact multiples are accepted", move |ctx| {
                let k = ctx.pick("what", &ALL);
                let rs = ctx.pick("rs", &[900usize, 7, 100, 1000, 3, 9600, 44100, 1_000_003]);
                let q = 1 + ctx.choose("q", 40);
                let d = ctx.choose("d", 7) as isize - 3;
                let fs = ((q * rs) as isize + d).max(1) as usize;
                let kl = if is_cdma(k) { ctx.pick("key", &[2usize, 1, 4, 5, 8, 16, 20]) } else { 1 };
                one(ctx, k, fs, rs, 1.0f64.min(fs as f64 / 2.0), kl)
            }),
            scn("hop-parameters", "hopping constructors with 1..20 frequencies and several lower edges follow the same rules", move |ctx| {
                let nf = 1 + ctx.choose("nf", 20);
                let fs = ctx.pick("fs", &[100usize, 101, 44100, 12, 7]);
                let rs = ctx.pick("rs", &[1usize, 10, 900, 4, 3]);
                let hi = ctx.pick("f", &freqs(fs));
                let lo = ctx.pick("lo", &[0.0, 0.5, 1.0, 0.9]) * hi;
                let Some(ok) = rules(Fh, fs, rs, hi, 1) else { return Ok(()) };
                let z = vec![0.5f64; 2 * fs.div_ceil(rs)];
                let m = || [true, false].into_iter();
                for k in 0..4 {
                    let got = panics(|| match k {
                        0 => drop(tx_fh_bpsk_signal(m(), lo, hi, nf, fs, rs).next()),
                        1 => drop(rx_fh_bpsk_signal(z.clone().into_iter(), lo, hi, nf, fs, rs).next()),
                        2 => drop(tx_fh_css_signal(m(), fs, rs, lo, hi, nf).next()),
                        _ => drop(tx_fh_ofdm_dcsk_signal(m(), lo, hi, nf, fs, rs).next()),
                    })
                    .is_ok();
                    ctx.step(1);
                    ensure!(got == ok, "hopping constructor {k} fs={fs} rs={rs} band {lo}..{hi} of {nf}: accepted {got}, rules say {ok}");
                }
                Ok(())
            }),
            scn("far-multiples", "17 constructors: sample rates q*rs+d for q from 41 to 10^9 (round numbers), d -2..2, 6 symbol rates up to 10^6: only exact multiples are accepted", move |ctx| {
                let k = ctx.pick("what", &ALL);
                let rs = ctx.pick("rs", &[900usize, 7, 1000, 3, 44100, 1_000_000]);
                let l: Vec<usize> = steps_to(1_000_000_000).into_iter().filter(|&q| q > 40).collect();
                let q = ctx.pick("q", &l);
                let d = ctx.choose("d", 5) as isize - 2;
                let fs = ((q * rs) as isize + d) as usize;
                // rates above 10^12 Hz are left alone: the quotient loses the difference
                if fs > 1_000_000_000_000 {
                    return Ok(());
                }
                let kl = if is_cdma(k) { ctx.pick("key", &[2usize, 1, 5, 16]) } else { 1 };
                one(ctx, k, fs, rs, 1.0, kl)
            }),
            scn("giant", "17 constructors: symbol rates of 10^8..3x10^11, sample rates q*rs+d for q 1..7, d up to 3 either way and rs/2: only exact multiples are accepted", move |ctx| {
                let k = ctx.pick("what", &ALL);
                let rs = ctx.pick("rs", &[100_000_000usize, 999_999_999, 3_000_000_000, 4_294_967_297, 20_000_000_000, 100_000_000_000, 300_000_000_001]);
                let q = 1 + ctx.choose("q", 7);
                let d = ctx.pick("d", &[0isize, 1, -1, 2, -3, 1000, -1000, rs as isize / 2]);
                let fs = ((q * rs) as isize + d) as usize;
                if fs > 1_000_000_000_000 {
                    return Ok(());
                }
                let kl = if is_cdma(k) { ctx.pick("key", &[1usize, 2, 5]) } else { 1 };
                one(ctx, k, fs, rs, 1.0, kl)
            }),
            scn("long-keys", "CDMA constructors with keys of round-number lengths up to 4096: sample rates on, just off and below the smallest possible, 4 symbol rates", move |ctx| {
                let k = ctx.pick("what", &[CdmaB, CdmaQ, CdmaC, RxCdmaB, RxCdmaQ, RxCdmaC]);
                let l: Vec<usize> = steps_to(4096).into_iter().filter(|&x| x > 0).collect();
                let kl = ctx.pick("key", &l);
                let rs = ctx.pick("rs", &[1usize, 3, 900, 1000]);
                let m = ctx.pick("chips", &[1usize, 2, 3, 4, 10]);
                let d = ctx.pick("delta", &[0isize, 1, -1, rs as isize, -(rs as isize)]);
                let fs = ((m * kl * rs) as isize + d).max(1) as usize;
                one(ctx, k, fs, rs, 0.25, kl)
            }),
            scn("carriers", "every constructor with a carrier rule: 50 sample rates x the carriers half, half+1, +1.5, +2, +10, +25%, twice, 10^6 times, infinite, and the last acceptable ones", move |ctx| {
                let k = ctx.pick("what", &[Bpsk, Bfsk, Mfsk, Fsk, CdmaB, CdmaQ, CdmaC, RxCdmaB, RxCdmaQ, RxCdmaC, Fh, RxFh, Css, Dcsk, Dcsk2]);
                let l: Vec<usize> = steps_to(10_000_000).into_iter().filter(|&q| q > 0).collect();
                let fs = 4 * ctx.pick("fs", &l);
                let h = fs as f64 / 2.0;
                let f = ctx.pick("f", &[h, h + 1.0, h + 1.5, h + 2.0, h + 10.0, 1.25 * h + 1.0, 2.0 * h + 1.0, 1e6 * h + 1.0, f64::INFINITY, h - 1.0, h - 0.25, 0.99 * h, 0.0, 1e300, 4294967296.0 + h, 18446744073709551616.0 + h]);
                one(ctx, k, fs, fs / 4, f, 2)
            }),
            scn("walsh-large", "Walsh matrices of round-number sizes 601..6144", |ctx| {
                let l: Vec<usize> = steps_to(5000).into_iter().chain([640, 768, 1280, 1536, 2560, 3072, 6144]).filter(|&x| x > 600).collect();
                let n = ctx.pick("n", &l);
                let got = panics(|| HadamardMatrix::new(n)).is_ok();
                ctx.step(1);
                ensure!(got == n.is_power_of_two(), "Walsh matrix of size {n} {}", if got { "accepted" } else { "refused" });
                Ok(())
            }),
            scn("walsh", "Walsh matrices of every size 1..600 (thorough 2100)", move |ctx| {
                let n = 1 + ctx.choose("n", t.of(600, 2100));
                let got = panics(|| HadamardMatrix::new(n)).is_ok();
                ctx.step(1);
                ensure!(got == n.is_power_of_two(), "Walsh matrix of size {n} {}", if got { "accepted" } else { "refused" });
                Ok(())
            }),
            scn("rates", "17 constructors: every symbol rate 1..700 (thorough 6000) x 8 samples per symbol up to 12, and every even division of 18 usual sample rates; CDMA with keys of 1, 2 and 4 chips", move |ctx| {
                let (sps, rs) = ctx.pick("rate", crate::p_psk::rate_plans(t));
                let k = ctx.pick("what", &ALL);
                let kl = if is_cdma(k) { ctx.pick("key", &[1usize, 2, 4]) } else { 1 };
                one(ctx, k, sps * rs, rs, 0.25 * (sps * rs) as f64, kl)
            }),
        ],
        &["carriers above half the sample rate by less than 1 Hz may be accepted or refused", "rates are at least 1"],
    )
}
