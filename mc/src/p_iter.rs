//! C01-C04: stream adaptors against direct definitions.
use crate::core::*;
use crate::{ensure, Tier};
use komunikilo::iter::Iter;
use num_complex::Complex;

pub type Set = (Vec<Scn>, &'static [&'static str]);

fn src(kind: usize, n: usize) -> Vec<i64> {
    // distinct / constant / alternating / all zero (the default value) / signed pseudo pattern
    match kind {
        0 => (0..n).map(|i| i as i64 + 1).collect(),
        1 => vec![7; n],
        2 => (0..n).map(|i| if i % 2 == 0 { 3 } else { -3 }).collect(),
        3 => vec![0; n],
        _ => (0..n).map(|i| ((i * i * 31 + i * 7) % 23) as i64 - 11).collect(),
    }
}

fn same<T: PartialEq + std::fmt::Debug>(ctx: &mut Ctx, what: &str, got: &[T], want: &[T]) -> R {
    ctx.step(got.len());
    if let Some(i) = (0..got.len().min(want.len())).find(|&i| got[i] != want[i]) {
        return Err(format!("{what}: item {i} is {:?} instead of {:?}", got[i], want[i]));
    }
    ensure!(got.len() == want.len(), "{what}: {} items instead of {}", got.len(), want.len());
    Ok(())
}
fn hv(v: &[i64]) -> u64 {
    fnv(v.iter().map(|&x| x as u64))
}

/// Every way of jumping through an iterator must agree with pulling it item by item: `nth` after
/// some pulls, again, and then pulls; stepping; counting; folding; the last item.
pub fn jumps<T, I>(ctx: &mut Ctx, what: &str, make: impl Fn() -> I, want: &[T], k: usize) -> R
where
    T: PartialEq + std::fmt::Debug + Clone,
    I: Iterator<Item = T>,
{
    let n = want.len();
    let mut ns: Vec<usize> = (0..70).chain((1..=24).flat_map(|j| [(1usize << j) - 1, 1 << j, (1 << j) + 1])).collect();
    for m in 1..5 {
        ns.extend([m * k - 1, m * k, m * k + 1]);
    }
    ns.extend((0..n + 2).step_by((n / 64).max(1) | 1));
    ns.extend([n.saturating_sub(1), n, n + 1]);
    ns.retain(|&x| x <= n + 1);
    ns.sort();
    ns.dedup();
    let a = ctx.pick("pulls", &[0, 1, 2, k - 1, k, k + 1]);
    let a = a.min(n);
    let b = ctx.pick("nth", &ns);
    let mut steps = 0;
    for c in [usize::MAX, 0, 1, k - 1, k, 2 * k + 1] {
        let mut it = make();
        for i in 0..a {
            ensure!(it.next().as_ref() == Some(&want[i]), "{what}: item {i}");
        }
        let mut at = a + b;
        let g = it.nth(b);
        ensure!(g.as_ref() == want.get(at), "{what}: after {a} pulls nth({b}) is {g:?} instead of item {at} {:?}", want.get(at));
        at += 1;
        steps += at;
        if c != usize::MAX {
            let g = it.nth(c);
            ensure!(g.as_ref() == want.get(at + c), "{what}: after {a} pulls and nth({b}), nth({c}) is {g:?} instead of item {} {:?}", at + c, want.get(at + c));
            at += c + 1;
        }
        if at > n {
            continue;
        }
        for j in 0..(2 * k + 3).min(200) {
            let g = it.next();
            ensure!(g.as_ref() == want.get(at + j), "{what}: after {a} pulls and nth({b}), nth({c}), pull {j} is {g:?} instead of {:?}", want.get(at + j));
            if g.is_none() {
                break;
            }
        }
    }
    if a == 0 {
        // the other ways of running to the end, from here on
        let rest = &want[b.min(n)..];
        ensure!(make().skip(b).count() == rest.len(), "{what}: skip({b}).count()");
        ensure!(make().skip(b).last().as_ref() == rest.last(), "{what}: skip({b}).last()");
        let g: Vec<T> = make().skip(b).collect();
        ensure!(g == rest, "{what}: skip({b}) gives other items");
        let g: Vec<T> = make().take(b).collect();
        ensure!(g == want[..b.min(n)], "{what}: take({b}) gives other items");
        let mut it = make();
        let g: Vec<T> = it.by_ref().take(b).collect();
        ensure!(g == want[..b.min(n)], "{what}: by_ref().take({b}) gives other items");
        let mut m = b;
        it.for_each(|_| m += 1);
        ensure!(m == n.max(b), "{what}: for_each after {b} items");
        if b > 0 {
            let g: Vec<T> = make().step_by(b).collect();
            let w: Vec<T> = want.iter().cloned().step_by(b).collect();
            ensure!(g == w, "{what}: step_by({b}) gives other items");
        }
        let g = make().fold(vec![], |mut v: Vec<T>, x| {
            v.push(x);
            v
        });
        ensure!(g == want, "{what}: fold gives other items");
        steps += 6 * n;
    }
    ctx.step(steps);
    Ok(())
}

// ------------------------------------------------------------------ C01

fn chunk_case(ctx: &mut Ctx, n: usize, k: usize, kind: usize) -> R {
    let s = src(kind, n);
    let extra = 3;
    let mut it = s.iter().cloned().chunks(k);
    let mut got: Vec<Vec<i64>> = vec![];
    while let Some(c) = it.next() {
        got.push(c);
        ensure!(got.len() <= n + 2, "chunks({k}) of {n} items does not end");
    }
    for e in 0..extra {
        ensure!(it.next().is_none(), "chunks({k}) of {n} items: item after the end (pull {e})");
    }
    let want: Vec<Vec<i64>> = s.chunks(k).map(|c| c.to_vec()).collect();
    same(ctx, &format!("chunks({k}) of {n}"), &got, &want)?;
    ctx.observe(fnv(got.iter().map(|c| hv(c))));

    let f: Vec<f64> = s.iter().map(|&x| x as f64).collect();
    let mut it = f.iter().cloned().wchunks(k);
    let mut got: Vec<Vec<f64>> = vec![];
    while let Some(c) = it.next() {
        got.push(c);
        ensure!(got.len() <= n + 3, "wchunks({k}) of {n} items does not end");
    }
    for e in 0..extra {
        ensure!(it.next().is_none(), "wchunks({k}) of {n} items: item after the end (pull {e})");
    }
    for (i, c) in got.iter().enumerate() {
        ensure!(c.len() == k, "wchunks({k}) of {n}: chunk {i} has {} items", c.len());
    }
    let flat: Vec<f64> = got.concat();
    ensure!(flat.len() >= n, "wchunks({k}) of {n}: only {} items", flat.len());
    ensure!(flat.len() - n < 2 * k, "wchunks({k}) of {n}: {} items of padding", flat.len() - n);
    same(ctx, &format!("wchunks({k}) of {n}"), &flat[..n], &f)?;
    ensure!(flat[n..].iter().all(|&x| x == 0.0), "wchunks({k}) of {n}: padding is not the default value");
    Ok(())
}

fn chunk_types(ctx: &mut Ctx, n: usize, k: usize) -> R {
    let b = content(n);
    let got = pull(b.iter().cloned().chunks(k), n + 2)?;
    same(ctx, "chunks of bits", &got, &b.chunks(k).map(|c| c.to_vec()).collect::<Vec<_>>())?;
    let got = pull(b.iter().cloned().wchunks(k), n + 3)?;
    let flat = got.concat();
    ensure!(got.iter().all(|c| c.len() == k) && flat.len() >= n && flat.len() - n < 2 * k, "wchunks({k}) of {n} bits: wrong shape");
    same(ctx, "wchunks of bits", &flat[..n], &b)?;
    ensure!(flat[n..].iter().all(|&x| !x), "wchunks of bits: padding");
    let z: Vec<Complex<f64>> = (0..n).map(|i| Complex::new(i as f64 + 1.0, -(i as f64))).collect();
    let got = pull(z.iter().cloned().wchunks(k), n + 3)?;
    let flat = got.concat();
    ensure!(got.iter().all(|c| c.len() == k) && flat.len() >= n && flat.len() - n < 2 * k, "wchunks({k}) of {n} complex: wrong shape");
    same(ctx, "wchunks of complex", &flat[..n], &z)?;
    let got = pull(z.iter().cloned().chunks(k), n + 2)?;
    same(ctx, "chunks of complex", &got, &z.chunks(k).map(|c| c.to_vec()).collect::<Vec<_>>())
}

pub fn c01(t: Tier) -> Set {
    let nmax = t.of(96, 400);
    let kmax = t.of(100, 410);
    (
        vec![
            scn("grid", &format!("all lengths 0..{nmax} x all chunk sizes 1..{kmax} x 5 contents, 3 pulls past the end"), move |ctx| {
                let n = ctx.choose("n", nmax + 1);
                let k = ctx.choose("k", kmax) + 1;
                let kind = ctx.choose("kind", 5);
                ctx.note(|| format!("n={n} k={k} kind={kind}"));
                chunk_case(ctx, n, k, kind)
            }),
            scn("types", "bits and complex samples, lengths 0..40 x sizes 1..45", |ctx| {
                let n = ctx.choose("n", 41);
                let k = ctx.choose("k", 45) + 1;
                chunk_types(ctx, n, k)
            }),
            scn("ladder", "lengths and sizes 2^j-1, 2^j, 2^j+1 (j<=20), every pair", move |ctx| {
                let l = ladder(0, t.of(20, 22));
                let n = ctx.pick("n", &l);
                let l: Vec<usize> = l.into_iter().filter(|&x| x > 0).collect();
                let k = ctx.pick("k", &l);
                chunk_case(ctx, n, k, 0)
            }),
            scn("sizes", "every chunk size of the round-number list up to 10^6 and lengths of 0, 1, 2, 2.5 and 3 chunks and one more or less", move |ctx| {
                let l: Vec<usize> = steps_to(t.of(1_000_001, 10_000_001)).into_iter().filter(|&x| x > 0).collect();
                let k = ctx.pick("k", &l);
                let n = ctx.pick("n", &[k, k - 1, k + 1, 2 * k, 2 * k - 1, 2 * k + 1, 5 * k / 2, 3 * k, 3 * k + 1, 1, 0]);
                chunk_case(ctx, n, k, 4)
            }),
            scn("many-chunks", "2^22 (thorough 2^26) items in chunks of 1, 2, 3, 7: every chunk compared as it comes", move |ctx| {
                let k = ctx.pick("k", &[1usize, 2, 3, 7]);
                let whole = ctx.choose("whole", 2) == 1;
                let n = (1u64 << t.of(22, 26)) + 5;
                let mut next = 0u64;
                let mut each = |c: Vec<u64>| -> R {
                    for &x in &c {
                        ensure!(x == next || (next == n && x == 0), "chunks({k}) of {n}: {x} where {next} belongs");
                        next += (next < n) as u64;
                    }
                    ensure!(c.len() == k || (!whole && next == n), "chunks({k}) of {n}: a chunk of {} items before item {next}", c.len());
                    Ok(())
                };
                let mut cnt = 0u64;
                if whole {
                    for c in (0..n).wchunks(k) { each(c)?; cnt += 1; }
                } else {
                    for c in Iter::chunks(0..n, k) { each(c)?; cnt += 1; }
                }
                ctx.step(n as usize);
                ensure!(next == n, "chunks({k}) of {n}: only {next} items");
                ensure!(cnt * (k as u64) < n + 2 * k as u64, "chunks({k}) of {n}: {cnt} chunks");
                Ok(())
            }),
            scn("values", "every stream of up to 4 items over 14 special floating-point values (not-a-number, infinities, zeros of both signs, subnormal) x sizes 1..6: bit patterns unchanged", |ctx| {
                let n = ctx.choose("n", 5);
                let k = ctx.choose("k", 6) + 1;
                let x: Vec<f64> = (0..n).map(|_| ctx.pick("v", &SPECIAL)).collect();
                let bits = |v: &[f64]| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
                let g = pull(x.iter().cloned().chunks(k), n + 1)?;
                same(ctx, &format!("chunks({k}) of {x:?}"), &g.iter().map(|c| bits(c)).collect::<Vec<_>>(), &x.chunks(k).map(bits).collect::<Vec<_>>())?;
                let g = pull(x.iter().cloned().wchunks(k), n + 3)?;
                ensure!(g.iter().all(|c| c.len() == k), "wchunks({k}) of {x:?}: {g:?}");
                let f = bits(&g.concat());
                ensure!(f.len() >= n && f[..n] == bits(&x)[..], "wchunks({k}) of {x:?}: {g:?}");
                ensure!(f.len() - n < 2 * k && f[n..].iter().all(|&b| b == 0), "wchunks({k}) of {x:?}: padding {g:?}");
                Ok(())
            }),
            scn("sources", "8 differently shaped sources (exact, absent, loose size bounds, chained, reversed) x lengths 0..40 x sizes 1..14", |ctx| {
                let n = ctx.choose("n", 41);
                let k = ctx.choose("k", 14) + 1;
                let sh = ctx.choose("shape", SHAPES);
                let s = src(0, n);
                let g = pull(Iter::chunks(shaped(s.clone(), sh), k), n + 2)?;
                same(ctx, &format!("chunks({k}) of {n} from source shape {sh}"), &g, &s.chunks(k).map(|c| c.to_vec()).collect::<Vec<_>>())?;
                let f: Vec<f64> = s.iter().map(|&x| x as f64).collect();
                let g = pull(shaped(f.clone(), sh).wchunks(k), n + 3)?;
                let flat = g.concat();
                ensure!(g.iter().all(|c| c.len() == k) && flat.len() >= n && flat.len() - n < 2 * k && flat[n..].iter().all(|&x| x == 0.0), "wchunks({k}) of {n} from source shape {sh}: wrong shape");
                same(ctx, &format!("wchunks({k}) of {n} from source shape {sh}"), &flat[..n], &f)
            }),
            scn("partial", "abandon after every number of chunks, the source then continues exactly there", |ctx| {
                let n = ctx.choose("n", 25);
                let k = ctx.choose("k", 8) + 1;
                let p = ctx.choose("pulls", 5);
                let s = src(0, n);
                let mut base = s.iter().cloned();
                let mut got = vec![];
                {
                    let mut it = base.by_ref().chunks(k);
                    for _ in 0..p {
                        if let Some(c) = it.next() {
                            got.extend(c);
                        }
                    }
                }
                got.extend(base);
                same(ctx, "chunks by reference then rest", &got, &s)
            }),
            scn("jumps", "chunks and wchunks: 6 numbers of pulls, then every nth of a ladder, a second nth, pulls; skipping, stepping, counting, folding from there", |ctx| {
                let k = ctx.pick("k", &[1usize, 2, 3, 7, 64, 600]);
                let n = ctx.pick("blocks", &[3usize, 20]) * k + ctx.pick("odd", &[0usize, 1]);
                let n = if k == 1 { n * 100 } else { n };
                let s = src(4, n);
                let w: Vec<Vec<i64>> = s.chunks(k).map(|c| c.to_vec()).collect();
                if ctx.choose("which", 2) == 0 {
                    return jumps(ctx, &format!("chunks({k}) of {n}"), || s.iter().cloned().chunks(k), &w, 2);
                }
                let mut it = s.iter().cloned().wchunks(k);
                let w: Vec<Vec<i64>> = pull(it.by_ref(), w.len() + 2)?;
                jumps(ctx, &format!("wchunks({k}) of {n}"), || s.iter().cloned().wchunks(k), &w, 2)
            }),
        ],
        &["sources are well-behaved iterators (they stay ended once ended)"],
    )
}

// ------------------------------------------------------------------ C02

fn inflate_case(ctx: &mut Ctx, n: usize, k: usize, kind: usize) -> R {
    let s = src(kind, n);
    let want: Vec<i64> = s.iter().flat_map(|&x| std::iter::repeat(x).take(k)).collect();
    let mut it = s.iter().cloned().inflate(k);
    let mut got = vec![];
    while let Some(x) = it.next() {
        got.push(x);
        ensure!(got.len() <= n * k + 2, "inflate({k}) of {n} items does not end");
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), "inflate({k}) of {n} items: item after the end");
    }
    ctx.observe(hv(&got));
    same(ctx, &format!("inflate({k}) of {n}"), &got, &want)
}

fn every_case(ctx: &mut Ctx, n: usize, k: usize, kind: usize) -> R {
    let s = src(kind, n);
    let want: Vec<i64> = s.iter().cloned().enumerate().filter(|(i, _)| i % k == 0).map(|x| x.1).collect();
    let mut it = s.iter().cloned().take_every(k);
    let mut got = vec![];
    while let Some(x) = it.next() {
        got.push(x);
        ensure!(got.len() <= n + 2, "take_every({k}) of {n} items does not end");
    }
    ctx.observe(hv(&got));
    same(ctx, &format!("take_every({k}) of {n}"), &got, &want)
}

pub fn c02(t: Tier) -> Set {
    let nmax = t.of(60, 200);
    let kmax = t.of(70, 220);
    (
        vec![
            scn("grid", &format!("lengths 0..{nmax} x factors 0..{kmax} x 5 contents"), move |ctx| {
                let n = ctx.choose("n", nmax + 1);
                let k = ctx.choose("k", kmax + 1);
                let kind = ctx.choose("kind", 5);
                ctx.note(|| format!("n={n} k={k} kind={kind}"));
                inflate_case(ctx, n, k, kind)?;
                if k > 0 {
                    every_case(ctx, n, k, kind)?;
                }
                Ok(())
            }),
            scn("ladder", "lengths/factors 2^j-1..2^j+1 with at most 2^20 outputs", move |ctx| {
                let l = ladder(0, t.of(20, 22));
                let n = ctx.pick("n", &l);
                let k = ctx.pick("k", &l);
                if n * k <= 1 << t.of(21, 23) {
                    inflate_case(ctx, n, k, 4)?;
                }
                if k > 0 {
                    every_case(ctx, n, k, 4)?;
                }
                Ok(())
            }),
            scn("clone", "clone at every pull point, both copies run to the end; cycle over several periods", move |ctx| {
                let n = ctx.choose("n", t.of(7, 12));
                let k = ctx.choose("k", t.of(7, 12));
                let p = ctx.choose("clone_at", n * k + 2);
                let order = ctx.choose("order", 3);
                let s = src(0, n);
                let want: Vec<i64> = s.iter().flat_map(|&x| std::iter::repeat(x).take(k)).collect();
                let mut a = s.iter().cloned().inflate(k);
                let mut ga = vec![];
                for _ in 0..p {
                    if let Some(x) = a.next() {
                        ga.push(x);
                    }
                }
                let mut b = a.clone();
                let mut gb = ga.clone();
                let lim = want.len() + 2;
                match order {
                    0 => {
                        ga.extend(pull(a, lim)?);
                        gb.extend(pull(b, lim)?);
                    }
                    1 => {
                        gb.extend(pull(b, lim)?);
                        ga.extend(pull(a, lim)?);
                    }
                    _ => {
                        for _ in 0..lim {
                            if let Some(x) = a.next() {
                                ga.push(x);
                            }
                            if let Some(x) = b.next() {
                                gb.push(x);
                            }
                        }
                    }
                }
                same(ctx, "original after clone", &ga, &want)?;
                same(ctx, "clone", &gb, &want)?;
                if !want.is_empty() {
                    let m = want.len() * 3 + 1;
                    let c: Vec<i64> = s.iter().cloned().inflate(k).cycle().take(m).collect();
                    let w: Vec<i64> = want.iter().cloned().cycle().take(m).collect();
                    same(ctx, "inflate.cycle", &c, &w)?;
                }
                Ok(())
            }),
            scn("factors", "every factor of the round-number list up to 10^6: inflate 0..3 items, take_every from 0, 1, k-1, k, k+1, 2k+1 and 3k items", move |ctx| {
                let k = ctx.pick("k", &steps_to(t.of(1_000_001, 10_000_001)));
                let n = ctx.choose("n", 4);
                inflate_case(ctx, n, k, 0)?;
                if k > 0 {
                    let n = [k.saturating_sub(1), k + 1, 2 * k + 1, 3 * k][n];
                    every_case(ctx, n, k, 0)?;
                }
                Ok(())
            }),
            scn("far", "inflate, take_every and scale over 2^24 items (thorough 2^32+9), compared as they come; take_every with enormous factors", move |ctx| {
                let n = t.of(1u64 << 24, 1u64 << 32) + 9;
                match ctx.choose("op", 6) {
                    0 => {
                        let mut c = 0u64;
                        for x in (0..n / 3).inflate(3) {
                            ensure!(x == c / 3, "inflate(3): output {c} is {x}");
                            c += 1;
                        }
                        ensure!(c == n / 3 * 3, "inflate(3): {c} outputs of {}", n / 3 * 3);
                    }
                    1 => {
                        let mut c = 0u64;
                        let k = n as usize - 4;
                        for x in (0..2u64).inflate(k) {
                            ensure!(x == c / k as u64, "inflate({k}): output {c} is {x}");
                            c += 1;
                        }
                        ensure!(c == 2 * k as u64, "inflate({k}): {c} outputs");
                    }
                    2 => {
                        let k = ctx.pick("k", &[1usize, 2, 7, 1000, 65536, 65537, 1 << 20, (1 << 24) + 1]);
                        let mut c = 0u64;
                        for x in (0..n).take_every(k) {
                            ensure!(x == c * k as u64, "take_every({k}): output {c} is {x}");
                            c += 1;
                        }
                        ensure!(c == n.div_ceil(k as u64), "take_every({k}) of {n}: {c} outputs");
                    }
                    3 => {
                        for k in [usize::MAX, usize::MAX - 1, 1 << 63, 1 << 33, u32::MAX as usize, 1 << 32, (1 << 32) + 1] {
                            let g: Vec<u64> = (5..90u64).take_every(k).collect();
                            ensure!(g == [5], "take_every({k}) of 85 items: {g:?}");
                            let g: Vec<u64> = (5..90u64).inflate(k).take(7).collect();
                            ensure!(g == [5; 7], "inflate({k}): {g:?}");
                        }
                    }
                    4 => {
                        let mut c = 0u64;
                        for x in Iter::scale((0..n / 4).map(|x| x as f64), 0.5) {
                            ensure!(x == c as f64 * 0.5, "scale: output {c} is {x}");
                            c += 1;
                        }
                        ensure!(c == n / 4, "scale: {c} outputs");
                    }
                    _ => {
                        let mut c = 0u64;
                        for x in (0..3u64).inflate(5).cycle().take(n as usize / 4) {
                            ensure!(x == c % 15 / 5, "inflate.cycle: output {c} is {x}");
                            c += 1;
                        }
                    }
                }
                ctx.step(n as usize);
                Ok(())
            }),
            scn("values", "every stream of up to 3 items over 14 special floating-point values x factors 0..5, scaled by each of them", |ctx| {
                let n = ctx.choose("n", 4);
                let k = ctx.choose("k", 6);
                let x: Vec<f64> = (0..n).map(|_| ctx.pick("v", &SPECIAL)).collect();
                let bits = |v: &[f64]| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
                let w: Vec<f64> = x.iter().flat_map(|&x| std::iter::repeat(x).take(k)).collect();
                let it = x.iter().cloned().inflate(k);
                same(ctx, &format!("inflate({k}) of {x:?} (clone)"), &bits(&pull(it.clone(), w.len() + 1)?), &bits(&w))?;
                same(ctx, &format!("inflate({k}) of {x:?}"), &bits(&pull(it, w.len() + 1)?), &bits(&w))?;
                if k > 0 {
                    let w: Vec<f64> = x.iter().cloned().step_by(k).collect();
                    same(ctx, &format!("take_every({k}) of {x:?}"), &bits(&pull(x.iter().cloned().take_every(k), n + 1)?), &bits(&w))?;
                }
                for a in SPECIAL {
                    let g = pull(Iter::scale(x.iter().cloned(), a), n + 1)?;
                    ensure!(g.len() == n, "scale({a}) of {x:?}: {g:?}");
                    for i in 0..n {
                        let w = x[i] * a;
                        ensure!(g[i] == w || (g[i].is_nan() && w.is_nan()), "scale({a}): {} becomes {} instead of {w}", x[i], g[i]);
                    }
                }
                Ok(())
            }),
            scn("sources", "8 differently shaped sources x lengths 0..30 x factors 0..12", |ctx| {
                let n = ctx.choose("n", 31);
                let k = ctx.choose("k", 13);
                let sh = ctx.choose("shape", SHAPES);
                let s = src(0, n);
                let w: Vec<i64> = s.iter().flat_map(|&x| std::iter::repeat(x).take(k)).collect();
                same(ctx, &format!("inflate({k}) of {n}, source shape {sh}"), &pull(shaped(s.clone(), sh).inflate(k), w.len() + 2)?, &w)?;
                if k > 0 {
                    let w: Vec<i64> = s.iter().cloned().step_by(k).collect();
                    same(ctx, &format!("take_every({k}) of {n}, source shape {sh}"), &pull(shaped(s.clone(), sh).take_every(k), n + 2)?, &w)?;
                }
                let f: Vec<f64> = s.iter().map(|&x| x as f64).collect();
                let w: Vec<f64> = f.iter().map(|x| x * 4.0).collect();
                same(ctx, &format!("scale of {n}, source shape {sh}"), &pull(Iter::scale(shaped(f, sh), 4.0), n + 2)?, &w)
            }),
            scn("compose", "inflate after inflate, take_every after inflate, scale", move |ctx| {
                let n = ctx.choose("n", 8);
                let a = ctx.choose("a", 6);
                let b = ctx.choose("b", 6);
                let e = ctx.choose("e", 7) + 1;
                let s = src(4, n);
                let w1: Vec<i64> = s.iter().flat_map(|&x| std::iter::repeat(x).take(a * b)).collect();
                let g1 = pull(s.iter().cloned().inflate(a).inflate(b), w1.len() + 2)?;
                same(ctx, "inflate.inflate", &g1, &w1)?;
                let w2: Vec<i64> = w1.iter().cloned().step_by(e).collect();
                let g2 = pull(s.iter().cloned().inflate(a * b).take_every(e), w1.len() + 2)?;
                same(ctx, "inflate.take_every", &g2, &w2)
            }),
            scn("scale", "scale by each factor of a menu, real and complex, lengths 0..70 and 2^16+1", |ctx| {
                let mut lens: Vec<usize> = (0..=70).collect();
                lens.push(65537);
                let n = ctx.pick("n", &lens);
                let f = ctx.pick("f", &[1.0, 0.0, -1.0, 0.5, 3.25, -7.0, 1e9, 1e-9, 1.0 + 1e-7, 1.0 + 1e-10, 1.0 - 1e-12, -1.0 - 1e-10, 1e-13, 0.1 + 0.2, 1e200]);
                let x: Vec<f64> = src(4, n).iter().map(|&v| v as f64 * 0.25).collect();
                let g = pull(x.iter().cloned().scale(f), n + 1)?;
                close(ctx, "scale", &g, &x.iter().map(|v| v * f).collect::<Vec<_>>(), 0.0)?;
                let z: Vec<Complex<f64>> = x.iter().map(|&v| Complex::new(v, 1.0 - v)).collect();
                let g = pull(z.iter().cloned().scale(f), n + 1)?;
                ensure!(g.len() == n, "scale: {} items of {n}", g.len());
                for i in 0..n {
                    ensure!((g[i] - z[i] * f).norm() <= 1e-15 * (z[i] * f).norm(), "scale complex by {f}: item {i} is {} instead of {}", g[i], z[i] * f);
                }
                Ok(())
            }),
            scn("jumps", "inflate, take_every and scale: 6 numbers of pulls, then every nth of a ladder, a second nth, pulls; skipping, stepping, counting, folding from there", |ctx| {
                let k = ctx.pick("k", &[1usize, 2, 3, 7, 64, 600, 1500]);
                let s = src(4, ctx.pick("n", &[1usize, 5, 9]));
                let w: Vec<i64> = s.iter().flat_map(|&x| std::iter::repeat(x).take(k)).collect();
                match ctx.choose("which", 4) {
                    0 => jumps(ctx, &format!("inflate({k})"), || s.iter().cloned().inflate(k), &w, k),
                    1 => jumps(ctx, &format!("inflate({k}).clone()"), || s.iter().cloned().inflate(k).clone(), &w, k),
                    2 => {
                        let s = src(4, 3 * k + 300);
                        let w: Vec<i64> = s.iter().cloned().step_by(k).collect();
                        jumps(ctx, &format!("take_every({k})"), || s.iter().cloned().take_every(k), &w, 2)
                    }
                    _ => {
                        let f: Vec<f64> = w.iter().map(|&x| x as f64).collect();
                        let w: Vec<f64> = f.iter().map(|x| x * 0.5).collect();
                        jumps(ctx, "scale", || Iter::scale(f.iter().cloned(), 0.5), &w, 3)
                    }
                }
            }),
        ],
        &["take_every(0) is not a defined operation"],
    )
}

// ------------------------------------------------------------------ C03

fn lin(x: &[i64], f: &[i64]) -> Vec<i64> {
    if x.is_empty() {
        return vec![];
    }
    let mut y = vec![0i64; x.len() + f.len() - 1];
    for (i, &a) in x.iter().enumerate() {
        if a != 0 {
            for (j, &b) in f.iter().enumerate() {
                y[i + j] += a * b;
            }
        }
    }
    y
}

fn conv_case(ctx: &mut Ctx, x: &[i64], f: &[i64]) -> R {
    let want = lin(x, f);
    let what = format!("convolve {} samples with {} taps", x.len(), f.len());
    let mut it = x.iter().cloned().convolve(f.to_vec());
    let mut got = vec![];
    while let Some(v) = it.next() {
        got.push(v);
        ensure!(got.len() <= want.len() + 2, "{what}: does not end after {} samples", want.len());
    }
    ensure!(it.next().is_none(), "{what}: item after the end");
    ctx.observe(hv(&got));
    same(ctx, &what, &got, &want)?;
    let xf: Vec<f64> = x.iter().map(|&v| v as f64).collect();
    let ff: Vec<f64> = f.iter().map(|&v| v as f64).collect();
    let g = pull(xf.into_iter().convolve(ff), want.len() + 2)?;
    same(ctx, &what, &g, &want.iter().map(|&v| v as f64).collect::<Vec<_>>())
}

fn nonv_case<const N: usize>(ctx: &mut Ctx, chans: &[Vec<i64>], f: &[i64]) -> R {
    let n = chans[0].len();
    let rows: Vec<[f64; N]> = (0..n).map(|i| std::array::from_fn(|c| chans[c][i] as f64)).collect();
    let wants: Vec<Vec<i64>> = (0..N).map(|c| lin(&chans[c], f)).collect();
    let g = pull(rows.into_iter().nonvolve(f.iter().map(|&v| v as f64).collect()), wants[0].len() + 2)?;
    for c in 0..N {
        let col: Vec<f64> = g.iter().map(|r| r[c]).collect();
        same(ctx, &format!("nonvolve channel {c} of {N}, {n} samples, {} taps", f.len()), &col, &wants[c].iter().map(|&v| v as f64).collect::<Vec<_>>())?;
    }
    Ok(())
}

pub fn c03(t: Tier) -> Set {
    let nn = t.of(6, 8);
    let big = t.of(40, 90);
    (
        vec![
            scn("exhaustive", &format!("all signals of 1..{nn} samples and all filters of 1..5 taps over {{1,0,-2}}"), move |ctx| {
                let n = ctx.choose("n", nn) + 1;
                let l = ctx.choose("l", 5) + 1;
                let xv = ctx.choose("x", 3usize.pow(n as u32));
                let fv = ctx.choose("f", 3usize.pow(l as u32));
                let d = |mut v: usize, n: usize| -> Vec<i64> {
                    (0..n).map(|_| { let r = [1, 0, -2][v % 3]; v /= 3; r }).collect()
                };
                let (x, f) = (d(xv, n), d(fv, l));
                ctx.note(|| format!("x={x:?} f={f:?}"));
                let want = lin(&x, &f);
                let g = pull(x.iter().cloned().convolve(f.clone()), want.len() + 2)?;
                ctx.observe(hv(&g));
                same(ctx, &format!("convolve {x:?} with {f:?}"), &g, &want)?;
                let rows: Vec<[i64; 2]> = x.iter().map(|&v| [v, 5 - v]).collect();
                let w2 = lin(&x.iter().map(|v| 5 - v).collect::<Vec<_>>(), &f);
                let g = pull(rows.into_iter().nonvolve(f.clone()), want.len() + 2)?;
                same(ctx, "nonvolve ch0", &g.iter().map(|r| r[0]).collect::<Vec<_>>(), &want)?;
                same(ctx, "nonvolve ch1", &g.iter().map(|r| r[1]).collect::<Vec<_>>(), &w2)
            }),
            scn("impulses", &format!("an impulse at every position of every signal length 1..{big}, asymmetric filters of every length 1..{big} (bilinearity)"), move |ctx| {
                let n = ctx.choose("n", big) + 1;
                let l = ctx.choose("l", big) + 1;
                let p = ctx.choose("pos", n);
                let mut x = vec![0i64; n];
                x[p] = 1;
                let f: Vec<i64> = (0..l).map(|i| (i * i) as i64 + 1).collect();
                conv_case(ctx, &x, &f)
            }),
            scn("channels", "1, 2, 3, 5 channels with different contents, lengths 1..24 x taps 1..24", |ctx| {
                let n = ctx.choose("n", 24) + 1;
                let l = ctx.choose("l", 24) + 1;
                let f: Vec<i64> = (0..l).map(|i| (i * i) as i64 - 3).collect();
                let ch: Vec<Vec<i64>> = (0..5).map(|c| (0..n).map(|i| ((i * (c + 2) + c * c) % 13) as i64 - 6).collect()).collect();
                match ctx.choose("channels", 4) {
                    0 => nonv_case::<1>(ctx, &ch, &f),
                    1 => nonv_case::<2>(ctx, &ch, &f),
                    2 => nonv_case::<3>(ctx, &ch, &f),
                    _ => nonv_case::<5>(ctx, &ch, &f),
                }
            }),
            scn("sources", "8 differently shaped sources x lengths 1..20 x taps 1..9; 1 to 8 channels, integer, real, single-precision and complex samples", |ctx| {
                let n = ctx.choose("n", 20) + 1;
                let l = ctx.choose("l", 9) + 1;
                let sh = ctx.choose("shape", SHAPES);
                let x = src(4, n);
                let f: Vec<i64> = (0..l).map(|i| (i * i) as i64 - 3).collect();
                let w = lin(&x, &f);
                let what = format!("convolve {n} samples with {l} taps, source shape {sh}");
                same(ctx, &what, &pull(shaped(x.clone(), sh).convolve(f.clone()), w.len() + 1)?, &w)?;
                let z: Vec<Complex<f64>> = x.iter().map(|&v| Complex::new(v as f64, 2.0 - v as f64)).collect();
                let g = pull(shaped(z, sh).convolve(f.iter().map(|&v| Complex::new(v as f64, 0.0)).collect()), w.len() + 1)?;
                let w2 = lin(&x.iter().map(|v| 2 - v).collect::<Vec<_>>(), &f);
                same(ctx, &what, &g, &w.iter().zip(&w2).map(|(&a, &b)| Complex::new(a as f64, b as f64)).collect::<Vec<_>>())?;
                let g = pull(shaped(x.iter().map(|&v| v as f32).collect(), sh).convolve(f.iter().map(|&v| v as f32).collect()), w.len() + 1)?;
                same(ctx, &what, &g, &w.iter().map(|&v| v as f32).collect::<Vec<_>>())?;
                let ch: Vec<Vec<i64>> = (0..8).map(|c| (0..n).map(|i| ((i * (c + 2) + c * c) % 13) as i64 - 6).collect()).collect();
                match sh {
                    0 => nonv_case::<4>(ctx, &ch, &f),
                    1 => nonv_case::<6>(ctx, &ch, &f),
                    2 => nonv_case::<7>(ctx, &ch, &f),
                    _ => nonv_case::<8>(ctx, &ch, &f),
                }
            }),
            scn("scales", "samples of very different magnitude (1e-150 to 1e150, an infinity, a not-a-number) at every position: samples outside the filter's reach stay exact", |ctx| {
                let n = ctx.choose("n", 12) + 1;
                let l = ctx.choose("l", 5) + 1;
                let p = ctx.choose("pos", n);
                let v = ctx.pick("v", &[1e150, -1e150, 1e17, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e-150, f64::MAX]);
                let f: Vec<f64> = (0..l).map(|i| i as f64 * 2.0 - 3.0).collect();
                let base = src(4, n);
                let w = lin(&base, &f.iter().map(|&x| x as i64).collect::<Vec<_>>());
                let mut x: Vec<f64> = base.iter().map(|&v| v as f64).collect();
                x[p] = v;
                let rows: Vec<[f64; 2]> = x.iter().enumerate().map(|(i, &a)| [a, base[i] as f64]).collect();
                let g = pull(x.into_iter().convolve(f.clone()), w.len() + 1)?;
                let g2 = pull(rows.into_iter().nonvolve(f.clone()), w.len() + 1)?;
                ensure!(g.len() == w.len() && g2.len() == w.len(), "convolution of {n} samples with {l} taps: {} and {} samples", g.len(), g2.len());
                ctx.step(g.len());
                for i in 0..w.len() {
                    ensure!(g2[i][1] == w[i] as f64, "nonvolve: {v} in channel 0 at {p} changes channel 1 sample {i}: {}", g2[i][1]);
                    if i < p || i >= p + l {
                        ensure!(g[i] == w[i] as f64 && g2[i][0] == w[i] as f64, "sample {v} at {p} of {n}, {l} taps: output {i} out of its reach is {} / {} instead of {}", g[i], g2[i][0], w[i]);
                    }
                }
                Ok(())
            }),
            scn("far", "an endless periodic signal, 3..33 taps, real and 2 channels: 2^24 + 99 (thorough 2^27) outputs", move |ctx| {
                let l = ctx.pick("l", &[3usize, 1, 8, 33]);
                let n = (1usize << t.of(24, 27)) + 99;
                let f: Vec<i64> = (0..l).map(|i| (i * i % 11) as i64 - 3).collect();
                let per: Vec<i64> = (0..35).map(|i| (i * 5 + i * i) % 17 - 8).collect();
                let head = lin(&(0..l + 70).map(|i| per[i % 35]).collect::<Vec<_>>(), &f);
                let want = |i: usize| if i < l { head[i] } else { head[l + (i - l) % 35] };
                let x = (0..n).map(|i| per[i % 35]);
                if ctx.choose("channels", 2) == 0 {
                    for (i, g) in x.convolve(f.clone()).take(n).enumerate() {
                        ensure!(g == want(i), "convolve with {l} taps: output {i} is {g} instead of {}", want(i));
                    }
                } else {
                    for (i, g) in x.map(|v| [v, -2 * v]).nonvolve(f.clone()).take(n).enumerate() {
                        ensure!(g == [want(i), -2 * want(i)], "nonvolve with {l} taps: output {i} is {g:?} instead of {}", want(i));
                    }
                }
                ctx.step(n);
                Ok(())
            }),
            scn("ladder", "lengths up to 2^18+1 with taps up to 2^14+1 (products below 2^25)", move |ctx| {
                let n = ctx.pick("n", &ladder(1, 18));
                let l = ctx.pick("l", &ladder(1, 14));
                if n * l > 1 << t.of(25, 28) || n == 0 {
                    return Ok(());
                }
                let x = src(4, n);
                let f: Vec<i64> = (0..l).map(|i| (i % 17) as i64 - 5 + (i / 100) as i64).collect();
                conv_case(ctx, &x, &f)
            }),
            scn("jumps", "convolve and nonvolve: 6 numbers of pulls, then every nth of a ladder, a second nth, pulls; skipping, stepping, counting, folding from there", |ctx| {
                let t = ctx.pick("taps", &[1usize, 2, 5, 33, 520]);
                let n = ctx.pick("n", &[1usize, 40, 700]);
                let f = src(4, t);
                let s = src(4, n + 3);
                let mut w = vec![0i64; n + 3 + t - 1];
                for (i, a) in s.iter().enumerate() {
                    for (j, b) in f.iter().enumerate() {
                        w[i + j] += a * b;
                    }
                }
                if ctx.choose("which", 2) == 0 {
                    return jumps(ctx, &format!("convolve with {t} taps"), || s.iter().cloned().convolve(f.clone()), &w, t);
                }
                let w2: Vec<[i64; 2]> = w.iter().map(|&x| [x, -2 * x]).collect();
                jumps(ctx, &format!("nonvolve with {t} taps"), || s.iter().map(|&x| [x, -2 * x]).nonvolve(f.clone()), &w2, t)
            }),
            scn("many-channels", "nonvolve with 9, 10, 12, 15..17, 24, 31..33, 63..65, 100, 128, 256 and 300 channels x 1..7 taps x 1..12 samples: every channel filtered on its own", |ctx| {
                let which = ctx.choose("channels", 17);
                let l = ctx.choose("l", 7) + 1;
                let n = ctx.choose("n", 12) + 1;
                let f: Vec<i64> = (0..l).map(|i| [2i64, -1, 3, 5, -4, 1, 7][i]).collect();
                let ch: Vec<Vec<i64>> = (0..300).map(|c| (0..n).map(|i| ((i * (c + 3) + c * c) % 17) as i64 - 8).collect()).collect();
                match which {
                    0 => nonv_case::<9>(ctx, &ch, &f),
                    1 => nonv_case::<10>(ctx, &ch, &f),
                    2 => nonv_case::<12>(ctx, &ch, &f),
                    3 => nonv_case::<15>(ctx, &ch, &f),
                    4 => nonv_case::<16>(ctx, &ch, &f),
                    5 => nonv_case::<17>(ctx, &ch, &f),
                    6 => nonv_case::<24>(ctx, &ch, &f),
                    7 => nonv_case::<31>(ctx, &ch, &f),
                    8 => nonv_case::<32>(ctx, &ch, &f),
                    9 => nonv_case::<33>(ctx, &ch, &f),
                    10 => nonv_case::<63>(ctx, &ch, &f),
                    11 => nonv_case::<64>(ctx, &ch, &f),
                    12 => nonv_case::<65>(ctx, &ch, &f),
                    13 => nonv_case::<100>(ctx, &ch, &f),
                    14 => nonv_case::<128>(ctx, &ch, &f),
                    15 => nonv_case::<256>(ctx, &ch, &f),
                    _ => nonv_case::<300>(ctx, &ch, &f),
                }
            }),
        ],
        &["values are small integers, so sums are exact in any order of summation"],
    )
}

// ------------------------------------------------------------------ C04

fn integ_case(ctx: &mut Ctx, x: &[i64], k: usize) -> R {
    let n = x.len();
    let mut acc = 0;
    let run: Vec<i64> = x.iter().map(|&v| { acc += v; acc }).collect();
    let g = pull(x.iter().cloned().integrate(), n + 1)?;
    same(ctx, "integrate", &g, &run)?;
    let blocks: Vec<i64> = x.chunks_exact(k).map(|c| c.iter().sum()).collect();
    let mut it = x.iter().cloned().integrate_and_dump(k);
    let mut g = vec![];
    while let Some(v) = it.next() {
        g.push(v);
        ensure!(g.len() <= n + 1, "integrate_and_dump({k}) of {n} does not end");
    }
    for _ in 0..2 {
        ensure!(it.next().is_none(), "integrate_and_dump({k}) of {n}: item after the end");
    }
    ctx.observe(hv(&g));
    same(ctx, &format!("integrate_and_dump({k}) of {n}"), &g, &blocks)?;
    let f = pull(x.iter().map(|&v| v as f64).integrate_and_dump(k), n + 1)?;
    same(ctx, &format!("integrate_and_dump({k}) of {n}"), &f, &blocks.iter().map(|&v| v as f64).collect::<Vec<_>>())
}

fn ninteg_case<const N: usize>(ctx: &mut Ctx, n: usize, k: usize) -> R {
    let rows: Vec<[i64; N]> = (0..n).map(|i| std::array::from_fn(|c| ((i * (c + 3) + c) % 11) as i64 - 4)).collect();
    let g = pull(rows.iter().cloned().nintegrate(), n + 1)?;
    let mut acc = [0i64; N];
    let run: Vec<[i64; N]> = rows.iter().map(|r| { for c in 0..N { acc[c] += r[c]; } acc }).collect();
    same(ctx, &format!("nintegrate<{N}>"), &g, &run)?;
    let blocks: Vec<[i64; N]> = rows.chunks_exact(k).map(|b| std::array::from_fn(|c| b.iter().map(|r| r[c]).sum())).collect();
    let mut it = rows.iter().cloned().nintegrate_and_dump(k);
    let mut g = vec![];
    while let Some(v) = it.next() {
        g.push(v);
        ensure!(g.len() <= n + 1, "nintegrate_and_dump({k}) of {n} does not end");
    }
    ensure!(it.next().is_none(), "nintegrate_and_dump({k}) of {n}: item after the end");
    same(ctx, &format!("nintegrate_and_dump<{N}>({k}) of {n}"), &g, &blocks)
}

pub fn c04(t: Tier) -> Set {
    let nn = t.of(7, 10);
    let big = t.of(70, 200);
    (
        vec![
            scn("exhaustive", &format!("all sources of 0..{nn} items over {{1,0,-3}} x block sizes 1..8"), move |ctx| {
                let n = ctx.choose("n", nn + 1);
                let k = ctx.choose("k", 8) + 1;
                let mut v = ctx.choose("x", 3usize.pow(n as u32));
                let x: Vec<i64> = (0..n).map(|_| { let r = [1, 0, -3][v % 3]; v /= 3; r }).collect();
                integ_case(ctx, &x, k)
            }),
            scn("grid", &format!("lengths 0..{big} x block sizes 1..{big} x 5 contents"), move |ctx| {
                let n = ctx.choose("n", big + 1);
                let k = ctx.choose("k", big) + 1;
                let kind = ctx.choose("kind", 5);
                ctx.note(|| format!("n={n} k={k} kind={kind}"));
                integ_case(ctx, &src(kind, n), k)
            }),
            scn("channels", "1 to 4, 9, 12, 13, 16, 17, 32, 33, 64, 65, 100 and 257 channels, lengths 0..50 x block sizes 1..52", |ctx| {
                let n = ctx.choose("n", 51);
                let k = ctx.choose("k", 52) + 1;
                match ctx.choose("channels", 15) {
                    0 => ninteg_case::<1>(ctx, n, k),
                    1 => ninteg_case::<2>(ctx, n, k),
                    2 => ninteg_case::<3>(ctx, n, k),
                    3 => ninteg_case::<4>(ctx, n, k),
                    4 => ninteg_case::<9>(ctx, n, k),
                    5 => ninteg_case::<12>(ctx, n, k),
                    6 => ninteg_case::<13>(ctx, n, k),
                    7 => ninteg_case::<16>(ctx, n, k),
                    8 => ninteg_case::<17>(ctx, n, k),
                    9 => ninteg_case::<32>(ctx, n, k),
                    10 => ninteg_case::<33>(ctx, n, k),
                    11 => ninteg_case::<64>(ctx, n, k),
                    12 => ninteg_case::<65>(ctx, n, k),
                    13 => ninteg_case::<100>(ctx, n, k),
                    _ => ninteg_case::<257>(ctx, n, k),
                }
            }),
            scn("sources", "8 differently shaped sources x lengths 0..30 x blocks 1..10; integer, real and complex samples, 5 to 8 channels", |ctx| {
                let n = ctx.choose("n", 31);
                let k = ctx.choose("k", 10) + 1;
                let sh = ctx.choose("shape", SHAPES);
                let x = src(4, n);
                let blocks: Vec<i64> = x.chunks_exact(k).map(|c| c.iter().sum()).collect();
                let mut acc = 0;
                let run: Vec<i64> = x.iter().map(|&v| { acc += v; acc }).collect();
                let what = format!("{n} samples, blocks of {k}, source shape {sh}");
                same(ctx, &format!("integrate_and_dump {what}"), &pull(shaped(x.clone(), sh).integrate_and_dump(k), n + 1)?, &blocks)?;
                same(ctx, &format!("integrate {what}"), &pull(shaped(x.clone(), sh).integrate(), n + 1)?, &run)?;
                let z: Vec<Complex<f64>> = x.iter().map(|&v| Complex::new(v as f64, -2.0 * v as f64)).collect();
                let cz = |v: &[i64]| v.iter().map(|&v| Complex::new(v as f64, -2.0 * v as f64)).collect::<Vec<_>>();
                same(ctx, &format!("integrate_and_dump {what}"), &pull(shaped(z.clone(), sh).integrate_and_dump(k), n + 1)?, &cz(&blocks))?;
                same(ctx, &format!("integrate {what}"), &pull(shaped(z, sh).integrate(), n + 1)?, &cz(&run))?;
                let rows: Vec<[i64; 3]> = x.iter().map(|&v| [v, 3 - v, 2 * v]).collect();
                let g = pull(shaped(rows.clone(), sh).nintegrate_and_dump(k), n + 1)?;
                let k2 = k as i64;
                same(ctx, &format!("nintegrate_and_dump {what}"), &g, &blocks.iter().map(|&b| [b, 3 * k2 - b, 2 * b]).collect::<Vec<_>>())?;
                let g = pull(shaped(rows, sh).nintegrate(), n + 1)?;
                same(ctx, &format!("nintegrate {what}"), &g, &run.iter().enumerate().map(|(i, &b)| [b, 3 * (i as i64 + 1) - b, 2 * b]).collect::<Vec<_>>())?;
                match sh {
                    0 => ninteg_case::<5>(ctx, n, k),
                    1 => ninteg_case::<6>(ctx, n, k),
                    2 => ninteg_case::<7>(ctx, n, k),
                    _ => ninteg_case::<8>(ctx, n, k),
                }
            }),
            scn("scales", "each block's sum is its own: a value of very different magnitude (1e17, 1e300, an infinity, a not-a-number) at every position leaves every other block exact", |ctx| {
                let n = ctx.choose("n", 16) + 1;
                let k = ctx.choose("k", 6) + 1;
                let p = ctx.choose("pos", n);
                let v = ctx.pick("v", &[1e17, -1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e-20, f64::MAX, 9007199254740993.0]);
                let base = src(4, n);
                let w: Vec<f64> = base.chunks_exact(k).map(|c| c.iter().sum::<i64>() as f64).collect();
                let mut x: Vec<f64> = base.iter().map(|&v| v as f64).collect();
                x[p] = v;
                let g = pull(x.iter().cloned().integrate_and_dump(k), n + 1)?;
                let h = pull(x.iter().zip(&base).map(|(&a, &b)| [a, b as f64]).nintegrate_and_dump(k), n + 1)?;
                ensure!(g.len() == w.len() && h.len() == w.len(), "blocks of {k} of {n}: {} and {} sums", g.len(), h.len());
                ctx.step(g.len());
                for i in 0..w.len() {
                    ensure!(h[i][1] == w[i], "nintegrate_and_dump: {v} in channel 0 changes channel 1 block {i}");
                    if p / k != i {
                        ensure!(g[i] == w[i] && h[i][0] == w[i], "{v} at {p}: the sum of block {i} (of {k}) is {} / {} instead of {}", g[i], h[i][0], w[i]);
                    }
                }
                let g = pull(x.iter().cloned().integrate(), n + 1)?;
                let mut acc = 0.0;
                for i in 0..p {
                    acc += base[i] as f64;
                    ensure!(g[i] == acc, "integrate: item {i} before the disturbance");
                }
                Ok(())
            }),
            scn("sizes", "block sizes of the round-number list up to 10^6 x lengths of 1, 2, 3 blocks and one less or more", move |ctx| {
                let l: Vec<usize> = steps_to(t.of(1_000_001, 10_000_001)).into_iter().filter(|&x| x > 0).collect();
                let k = ctx.pick("k", &l);
                let n = ctx.pick("n", &[k, k - 1, k + 1, 2 * k, 2 * k - 1, 3 * k, 3 * k + 1]);
                integ_case(ctx, &src(4, n), k)?;
                ninteg_case::<2>(ctx, n, k)
            }),
            scn("far", "2^24 + 2^12 (thorough 2^28) items, running sums and block sums of 1, 2, 5, 1000 items, compared as they come", move |ctx| {
                let n = (1i64 << t.of(24, 28)) + (1 << 12);
                let k = ctx.pick("k", &[1i64, 2, 5, 1000]);
                let mut i = 0i64;
                for g in (0..n).integrate_and_dump(k as usize) {
                    let w = i * k * k + k * (k - 1) / 2;
                    ensure!(g == w, "integrate_and_dump({k}): block {i} is {g} instead of {w}");
                    i += 1;
                }
                ensure!(i == n / k, "integrate_and_dump({k}) of {n}: {i} blocks");
                i = 0;
                for g in (0..n).map(|x| [x, 1]).nintegrate_and_dump(k as usize) {
                    let w = i * k * k + k * (k - 1) / 2;
                    ensure!(g == [w, k], "nintegrate_and_dump({k}): block {i} is {g:?} instead of {w}");
                    i += 1;
                }
                ensure!(i == n / k, "nintegrate_and_dump({k}) of {n}: {i} blocks");
                i = 0;
                for g in (0..n).integrate() {
                    ensure!(g == i * (i + 1) / 2, "integrate: item {i} is {g}");
                    i += 1;
                }
                ensure!(i == n, "integrate of {n}: {i} items");
                i = 0;
                for g in (0..n).map(|x| [x, -1]).nintegrate() {
                    ensure!(g == [i * (i + 1) / 2, -i - 1], "nintegrate: item {i} is {g:?}");
                    i += 1;
                }
                ctx.step(4 * n as usize);
                Ok(())
            }),
            scn("ladder", "lengths and block sizes 2^j-1..2^j+1, j<=19", move |ctx| {
                let l = ladder(0, t.of(19, 21));
                let n = ctx.pick("n", &l);
                let k = ctx.pick("k", &l);
                if k == 0 {
                    return Ok(());
                }
                integ_case(ctx, &src(4, n), k)?;
                ninteg_case::<2>(ctx, n, k)
            }),
            scn("jumps", "all four integrators: 6 numbers of pulls, then every nth of a ladder, a second nth, pulls; skipping, stepping, counting, folding from there", |ctx| {
                let k = ctx.pick("k", &[1usize, 2, 3, 7, 64, 600]);
                let n = ctx.pick("blocks", &[3usize, 20]) * k + ctx.pick("odd", &[0usize, 1]);
                let s = src(4, if k == 1 { n * 50 } else { n });
                let two = |v: &[i64]| v.iter().map(|&x| [x, 5 - x * 3]).collect::<Vec<[i64; 2]>>();
                let z = two(&s);
                let run = |v: &[i64]| v.iter().scan(0i64, |a, &x| { *a += x; Some(*a) }).collect::<Vec<i64>>();
                let dump = |v: &[i64]| v.chunks_exact(k).map(|c| c.iter().sum::<i64>()).collect::<Vec<i64>>();
                let c1: Vec<i64> = z.iter().map(|x| x[1]).collect();
                let pair = |a: Vec<i64>, b: Vec<i64>| a.into_iter().zip(b).map(|(a, b)| [a, b]).collect::<Vec<[i64; 2]>>();
                match ctx.choose("which", 4) {
                    0 => jumps(ctx, "integrate", || s.iter().cloned().integrate(), &run(&s), k),
                    1 => jumps(ctx, "nintegrate", || z.iter().cloned().nintegrate(), &pair(run(&s), run(&c1)), k),
                    2 => jumps(ctx, &format!("integrate_and_dump({k})"), || s.iter().cloned().integrate_and_dump(k), &dump(&s), 2),
                    _ => jumps(ctx, &format!("nintegrate_and_dump({k})"), || z.iter().cloned().nintegrate_and_dump(k), &pair(dump(&s), dump(&c1)), 2),
                }
            }),
        ],
        &["values are small integers, so sums are exact in any order of summation"],
    )
}
