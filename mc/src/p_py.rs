//! C28 C29 C33: spectral correlation, detectors and the Python binding, called in process
//! through the interpreter exactly as a Python program would.
use crate::core::*;
use crate::ensure;
use crate::p_iter::Set;
use crate::p_meas::sig;
use crate::Tier;
use komunikilo as k;
use num_complex::Complex;
use numpy::ndarray::Array2;
use numpy::{IntoPyArray, PyArray1, PyArray2, PyArrayMethods};
use pyo3::prelude::*;
use pyo3::types::{IntoPyDict, PyTuple};
use std::f64::consts::PI;
use std::sync::OnceLock;

type C = Complex<f64>;

extern "C" {
    fn PyInit_komunikilo() -> *mut pyo3::ffi::PyObject;
}
extern "C" fn init() -> *mut pyo3::ffi::PyObject {
    unsafe { PyInit_komunikilo() }
}

static MODULE: OnceLock<Py<PyAny>> = OnceLock::new();
pub fn module(py: Python<'_>) -> Bound<'_, PyAny> {
    MODULE.get().expect("python not started").bind(py).clone()
}
/// Called once from main, before any thread exists.
pub fn start() {
    unsafe {
        pyo3::ffi::PyImport_AppendInittab(c"komunikilo".as_ptr(), Some(init));
    }
    pyo3::prepare_freethreaded_python();
    let m = Python::with_gil(|py| {
        let _ = py.import_bound("numpy");
        py.import_bound("komunikilo").map(|m| m.into_any().unbind()).map_err(|e| e.to_string())
    });
    if let Ok(m) = m {
        let _ = MODULE.set(m);
    }
}

/// Call a function of the module; a Python exception (or panic below it) is an error text.
pub fn call<A, T>(name: &str, args: A, f: impl FnOnce(&Bound<'_, PyAny>) -> PyResult<T>) -> Result<T, String>
where
    A: IntoPy<Py<PyTuple>>,
{
    Python::with_gil(|py| {
        let m = module(py);
        m.getattr(name).and_then(|g| g.call1(args)).and_then(|r| f(&r)).map_err(|e| format!("python {name}: {e}"))
    })
}
pub fn call_vec<A: IntoPy<Py<PyTuple>>>(name: &str, args: A) -> Result<Vec<f64>, String> {
    call(name, args, |r| r.extract())
}


// ------------------------------------------------------------------ C28

fn cis(num: i64, den: i64) -> C {
    // exp(-2 pi j num/den), reduced exactly
    let p = -2.0 * PI * num.rem_euclid(den) as f64 / den as f64;
    C::new(p.cos(), p.sin())
}
fn ham(n: usize) -> Vec<f64> {
    (0..n).map(|i| 0.54 - 0.46 * (2.0 * PI * i as f64 / n as f64).cos()).collect()
}

/// The definition. `bins`: only these q (all if empty). Result [q][k].
pub fn ssca_ref(s: &[f64], n: usize, np: usize, bins: &[usize]) -> Vec<(usize, Vec<C>)> {
    let (a, g) = (ham(np), ham(n));
    let tnp: Vec<C> = (0..np).map(|i| cis(i as i64, np as i64)).collect();
    let tn: Vec<C> = (0..n).map(|i| cis(i as i64, n as i64)).collect();
    // y[i][j]
    let y: Vec<Vec<C>> = (0..n)
        .map(|i| {
            (0..np)
                .map(|j| {
                    // centred: bin k = j - np/2
                    let kk = (j + np - np / 2) % np;
                    let mut x = C::new(0.0, 0.0);
                    for m in 0..np {
                        x += tnp[(kk * m) % np] * (a[m] * s[i + m]);
                    }
                    x * tnp[(kk * i) % np] * s[i + np / 2] * g[i]
                })
                .collect()
        })
        .collect();
    let all: Vec<usize> = (0..n).collect();
    let qs = if bins.is_empty() { &all[..] } else { bins };
    qs.iter()
        .map(|&q| {
            // centred n-point DFT: output index q holds frequency q - floor(n/2)
            let f = (q + n - n / 2) % n;
            let row = (0..np)
                .map(|j| {
                    let mut x = C::new(0.0, 0.0);
                    for i in 0..n {
                        x += tn[(f * i) % n] * y[i][j];
                    }
                    x
                })
                .collect();
            (q, row)
        })
        .collect()
}

/// Discrete Fourier transform by decimation in time over the smallest prime factor.
fn dft(x: &[C]) -> Vec<C> {
    let n = x.len();
    let Some(p) = (2..=n).find(|p| n % p == 0) else { return x.to_vec() };
    let m = n / p;
    let parts: Vec<Vec<C>> = (0..p).map(|r| dft(&x.iter().skip(r).step_by(p).cloned().collect::<Vec<_>>())).collect();
    let tw: Vec<C> = (0..n).map(|i| cis(i as i64, n as i64)).collect();
    (0..n).map(|f| (0..p).map(|r| parts[r][f % m] * tw[r * f % n]).sum()).collect()
}

/// The definition, with every DFT computed by `dft`: [k][q].
fn ssca_fast(s: &[f64], n: usize, np: usize) -> Vec<Vec<C>> {
    let (a, g) = (ham(np), ham(n));
    let tnp: Vec<C> = (0..np).map(|i| cis(i as i64, np as i64)).collect();
    let mut y = vec![vec![C::new(0.0, 0.0); n]; np];
    for i in 0..n {
        let x = dft(&(0..np).map(|m| C::new(a[m] * s[i + m], 0.0)).collect::<Vec<_>>());
        for j in 0..np {
            let kk = (j + np - np / 2) % np;
            y[j][i] = x[kk] * tnp[(kk * i) % np] * s[i + np / 2] * g[i];
        }
    }
    y.iter()
        .map(|r| {
            let x = dft(r);
            (0..n).map(|q| x[(q + n - n / 2) % n]).collect()
        })
        .collect()
}

fn base_fast(ctx: &mut Ctx, what: &str, s: &[f64], n: usize, np: usize) -> R {
    let what = format!("ssca_base(n={n}, np={np}) of {what}");
    let g = k::ssca::ssca_base(s.to_vec(), n, np);
    ensure!(g.shape() == [n, np], "{what}: array of shape {:?} instead of {n} by {np}", g.shape());
    let w = ssca_fast(s, n, np);
    let m = s.iter().fold(0.0f64, |a, v| a.max(v.abs()));
    let scale = m * m * (n * np) as f64 + 1e-300;
    ctx.step(n * np);
    ctx.observe(fnv(g.iter().map(|c| c.re.to_bits())));
    for q in 0..n {
        for j in 0..np {
            ensure!((g[[q, j]] - w[j][q]).norm() <= 1e-10 * scale, "{what}: entry [{q}, {j}] is {} instead of {}", g[[q, j]], w[j][q]);
        }
    }
    Ok(())
}

fn cmp_ssca(ctx: &mut Ctx, what: &str, got: &Array2<C>, want: &[(usize, Vec<C>)], n: usize, np: usize, scale: f64) -> R {
    ensure!(got.shape() == [n, np], "{what}: array of shape {:?} instead of {n} by {np}", got.shape());
    ctx.observe(fnv(got.iter().map(|c| c.re.to_bits())));
    for (q, row) in want {
        ctx.step(np);
        for k in 0..np {
            let g = got[[*q, k]];
            ensure!((g - row[k]).norm() <= 1e-9 * scale, "{what}: entry [{q}, {k}] is {g} instead of {}", row[k]);
        }
    }
    Ok(())
}

fn base(ctx: &mut Ctx, what: &str, s: &[f64], n: usize, np: usize, bins: &[usize]) -> R {
    let g = k::ssca::ssca_base(s.to_vec(), n, np);
    let w = ssca_ref(s, n, np, bins);
    let m = s.iter().fold(0.0f64, |a, v| a.max(v.abs()));
    cmp_ssca(ctx, &format!("ssca_base(n={n}, np={np}) of {what}"), &g, &w, n, np, m * m * (n * np) as f64 + 1e-300)
}

/// The cell of entry (q, k): row floor(np*(f + 1/2)), column floor(n*alpha) with
/// f = k/(2np) - q/(2n), alpha = k/np + q/n.
fn cell(q: usize, kk: usize, n: usize, np: usize) -> (usize, usize) {
    let num = (kk * n + np * n - q * np) as i64;
    (num.div_euclid(2 * n as i64) as usize, (n * kk + q * np) / np)
}

fn mapped(ctx: &mut Ctx, what: &str, s: &[f64], n: usize, np: usize) -> R {
    let b = k::ssca::ssca_base(s.to_vec(), n, np);
    let g = k::ssca::ssca_mapped(s.to_vec(), n, np);
    let what = format!("ssca_mapped(n={n}, np={np}) of {what}");
    is_map(ctx, &what, &b, &g, n, np)
}

pub fn is_map(ctx: &mut Ctx, what: &str, b: &Array2<C>, g: &Array2<C>, n: usize, np: usize) -> R {
    ensure!(g.shape() == [np + 1, 2 * n + 1], "{what}: array of shape {:?}", g.shape());
    ctx.observe(fnv(g.iter().map(|c| c.re.to_bits())));
    ctx.step((np + 1) * (2 * n + 1));
    let w = 2 * n + 1;
    // entries of the same cell (only possible when np does not divide n): any of them
    let mut may: Vec<Vec<C>> = vec![vec![]; (np + 1) * w];
    for q in 0..n {
        for kk in 0..np {
            let (r, c) = cell(q, kk, n, np);
            may[r * w + c].push(b[[q, kk]]);
        }
    }
    for r in 0..=np {
        for c in 0..w {
            let m = &may[r * w + c];
            let v = g[[r, c]];
            if m.is_empty() {
                ensure!(v == C::new(0.0, 0.0), "{what}: cell [{r}, {c}] belongs to no value but is {v}");
            } else {
                ensure!(m.iter().any(|x| (x - v).norm() <= 1e-9 * (1e-30 + x.norm())), "{what}: cell [{r}, {c}] is {v} instead of {}", m[0]);
            }
        }
    }
    Ok(())
}

fn sizes(lim: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for np in [2usize, 4, 6, 8, 10, 12, 16] {
        for n in np + 1..=lim {
            v.push((n, np));
        }
    }
    v
}
/// A signal in which all samples differ and that has no symmetry.
pub fn rich(n: usize) -> Vec<f64> {
    (0..n).map(|i| (i as f64 * 0.7).sin() + 0.3 * (i as f64 * 2.1).cos() + 0.01 * (i * i % 17) as f64 - 0.05).collect()
}

pub fn c28(t: Tier) -> Set {
    (
        vec![
            scn("quadratic-form", "np in {2,4,6,8}, every n from np+1 to 14 (thorough 20): every unit impulse and every sum of two (with both signs): by polarisation these determine a quadratic form completely", move |ctx| {
                let np = ctx.pick("np", &[2usize, 4, 6, 8]);
                let n = np + 1 + ctx.choose("n", t.of(14, 20) - np);
                let l = n + np - 1;
                let i = ctx.choose("i", l);
                let j = ctx.choose("j", i + 1);
                let mut s = vec![0.0; l];
                s[i] = 1.0;
                if j != i {
                    s[j] = ctx.pick("sign", &[1.0, -1.0]);
                }
                base(ctx, &format!("impulses at {i} and {j}"), &s, n, np, &[])
            }),
            scn("sizes", "every even np of {2,4,6,8,10,12,16} and every n from np+1 to 40 (thorough 64), odd ones included: 4 dense signals at 4 scales", move |ctx| {
                let (n, np) = ctx.pick("size", &sizes(t.of(40, 64)));
                let l = n + np - 1;
                let sc = ctx.pick("scale", &[1.0, -2.0, 1e-6, 1e5]);
                let kind = ctx.choose("signal", 4);
                let s: Vec<f64> = (if kind == 0 { rich(l) } else { sig(kind, l) }).iter().map(|x| x * sc).collect();
                base(ctx, &format!("signal {kind} x {sc}"), &s, n, np, &[])
            }),
            scn("surplus", "samples after the n+np-1 used ones never matter: 0..40 of them", move |ctx| {
                let (n, np) = ctx.pick("size", &[(9usize, 4usize), (16, 8), (12, 2)]);
                let extra = ctx.choose("extra", 41);
                let mut s = rich(n + np - 1);
                s.extend(std::iter::repeat(1e3).take(extra));
                let g = k::ssca::ssca_base(s.clone(), n, np);
                let w = ssca_ref(&s, n, np, &[]);
                cmp_ssca(ctx, &format!("ssca_base(n={n}, np={np}) with {extra} samples to spare"), &g, &w, n, np, 100.0)
            }),
            scn("larger", "(64,16) (128,32) (100,20) (255,16) (256,64): 3 signals, every entry", move |ctx| {
                let (n, np) = ctx.pick("size", t.of(&[(64usize, 16usize), (128, 32), (100, 20), (255, 16), (256, 64)][..], &[(64usize, 16usize), (128, 32), (100, 20), (255, 16), (256, 64), (1024, 64), (512, 128)][..]));
                let kind = ctx.choose("signal", 3);
                let l = n + np - 1;
                let s = if kind == 0 { rich(l) } else { sig(kind, l) };
                base(ctx, &format!("signal {kind}"), &s, n, np, &[])
            }),
            scn("detector-size", "n=4096, np=64: all 64 strips of 23 (thorough 128) cycle bins of 2 signals", move |ctx| {
                let kind = ctx.choose("signal", 2);
                let s = if kind == 0 { rich(4096 + 63) } else { sig(2, 4096 + 63) };
                let bins: Vec<usize> = (0..t.of(23, 128)).map(|i| if i < 8 { [0, 1, 2047, 2048, 2049, 4095, 4094, 1024][i] } else { (i * 977) % 4096 }).collect();
                base(ctx, &format!("signal {kind}"), &s, 4096, 64, &bins)
            }),
            scn("mapped", "ssca_mapped for every size of the list (np of 7 values, n to 40, thorough 96) and larger multiples of np, powers of two and not: every cell", move |ctx| {
                let mut v = sizes(t.of(40, 96));
                v.extend([(64, 16), (96, 32), (128, 32), (100, 10), (200, 20), (192, 64), (256, 64), (250, 50), (384, 64), (512, 16)]);
                if t.deep() {
                    v.extend([(1024, 64), (1000, 50), (1536, 96)]);
                }
                let (n, np) = ctx.pick("size", &v);
                mapped(ctx, "a dense signal", &rich(n + np - 1), n, np)
            }),
            scn("mapped-huge", "ssca_mapped for n=100000, np=100 and n=60000, np=32 (thorough also n=200000, np=200, n=2^18, np=64 and n=10000002, np=2): every cell", move |ctx| {
                let (n, np) = ctx.pick("size", t.of(&[(100_000usize, 100usize), (60_000, 32)][..], &[(100_000, 100), (60_000, 32), (200_000, 200), (1 << 18, 64), (10_000_002, 2)][..]));
                let s = rich(n + np - 1);
                let b = k::ssca::ssca_base(s.clone(), n, np);
                let g = k::ssca::ssca_mapped(s, n, np);
                ensure!(g.shape() == [np + 1, 2 * n + 1], "n={n} np={np}: array of shape {:?}", g.shape());
                // np divides n: every entry has a cell of its own
                for q in 0..n {
                    for kk in 0..np {
                        let (r, c) = cell(q, kk, n, np);
                        let (x, w) = (b[[q, kk]], g[[r, c]]);
                        ensure!((x - w).norm() <= 1e-9 * (1e-30 + x.norm()), "ssca_mapped(n={n}, np={np}): the cell [{r}, {c}] of entry [{q}, {kk}] holds {w} instead of {x}");
                    }
                }
                let used = g.iter().filter(|v| **v != C::new(0.0, 0.0)).count();
                ensure!(used <= n * np, "ssca_mapped(n={n}, np={np}): {used} cells used for {} values", n * np);
                ctx.step(n * np);
                ctx.observe(used as u64);
                Ok(())
            }),
            scn("no-state", "every ordered pair of 6 sizes in one thread: the second result equals the one computed alone, to the bit", move |ctx| {
                let sz = [(9usize, 4usize), (16, 8), (12, 2), (17, 16), (16, 4), (33, 8)];
                let a = ctx.pick("first", &sz);
                let b = ctx.pick("second", &sz);
                let _ = k::ssca::ssca_base(rich(a.0 + a.1 - 1), a.0, a.1);
                let s = sig(1, b.0 + b.1 - 1);
                let x = k::ssca::ssca_base(s.clone(), b.0, b.1);
                let y = std::thread::scope(|sc| sc.spawn(|| k::ssca::ssca_base(s.clone(), b.0, b.1)).join()).map_err(|_| "panicked")?;
                ctx.step(x.len());
                ensure!(x == y, "ssca_base({b:?}) after ssca_base({a:?}) differs from the same call alone");
                Ok(())
            }),
            scn("large", "16 sizes up to n=4096 and np=512 (thorough n=32768, np=1024), powers of two and not: every entry of 2 signals", move |ctx| {
                let mut l = vec![
                    (4096usize, 64usize), (1024, 128), (1024, 512), (1000, 100), (513, 512), (514, 512), (4096, 256), (2048, 64), (2000, 50), (3000, 30), (1536, 96), (1021, 62), (777, 200), (4095, 2), (4096, 32), (600, 66),
                ];
                if t.deep() {
                    l.extend([(8192, 64), (16384, 128), (32768, 64), (4096, 1024), (10_000, 100)]);
                }
                let (n, np) = ctx.pick("size", &l);
                let kind = ctx.choose("signal", 2);
                let len = n + np - 1;
                let s = if kind == 0 { rich(len) } else { (0..len).map(|i| ((i * 7919 + i * i * 31) % 1009) as f64 / 504.5 - 1.0).collect() };
                base_fast(ctx, &format!("signal {kind}"), &s, n, np)
            }),
            scn("all-sizes", "every even np 2..64 and every n from np+1 to 100 (thorough np to 128, n to 200): a dense signal, every entry", move |ctx| {
                let np = 2 + 2 * ctx.choose("np", t.of(32, 64));
                let top = t.of(100, 200);
                if np >= top {
                    return Ok(());
                }
                let n = np + 1 + ctx.choose("n", top - np);
                base_fast(ctx, "a dense signal", &rich(n + np - 1), n, np)
            }),
            scn("magnitudes", "signals of magnitude 1e-9..1e9, one loud sample in silence, silence, a constant: 9 kinds x 5 sizes", move |ctx| {
                let (n, np) = ctx.pick("size", &[(16usize, 8usize), (33, 6), (64, 16), (128, 100), (256, 64)]);
                let len = n + np - 1;
                let k = ctx.choose("kind", 9);
                let s: Vec<f64> = (0..len)
                    .map(|i| match k {
                        0 => 0.0,
                        1 => 1.0,
                        2 => rich(len)[i] * 1e-9,
                        3 => rich(len)[i] * 1e9,
                        4 => if i == len / 2 { 1e6 } else { 0.0 },
                        5 => if i == len - 1 { 1.0 } else { 0.0 },
                        6 => if i % 2 == 0 { 1.0 } else { -1.0 },
                        7 => if i < n / 2 { 1.0 } else { 0.0 },
                        _ => 10f64.powi(i as i32 % 9 - 4),
                    })
                    .collect();
                base_fast(ctx, &format!("signal kind {k}"), &s, n, np)
            }),
            scn("mapped-large", "ssca_mapped for 20 sizes with np up to 512, and for every even np up to 64 with 6 multiples and neighbours: every cell", move |ctx| {
                let mut v = vec![
                    (256usize, 128usize), (512, 128), (512, 256), (1024, 128), (1024, 256), (1024, 512), (1000, 100), (1000, 200), (500, 250), (300, 100), (768, 96), (640, 80), (384, 128), (2048, 64), (4096, 64), (2000, 100), (700, 70), (513, 128), (1023, 66), (129, 128),
                ];
                for np in (2..=64).step_by(2) {
                    v.extend([(2 * np, np), (3 * np, np), (5 * np, np), (7 * np, np), (np + 1, np), (2 * np + 1, np), (4 * np - 1, np)]);
                }
                let (n, np) = ctx.pick("size", &v);
                mapped(ctx, "a dense signal", &rich(n + np - 1), n, np)
            }),
            scn("long", "7 sizes up to n=65540 (thorough 131088) with np from 2 to 100, not powers of two: every entry of 2 signals", move |ctx| {
                let (n, np) = ctx.pick("size", t.of(&[(8200usize, 6usize), (10_000, 10), (16_386, 6), (20_000, 50), (40_000, 12), (32_800, 100), (65_540, 6)][..], &[(8200, 6), (10_000, 10), (16_386, 6), (20_000, 50), (40_000, 12), (32_800, 100), (65_540, 6), (100_000, 50), (131_088, 6)][..]));
                let kind = ctx.choose("signal", 2);
                let len = n + np - 1;
                let s = if kind == 0 { rich(len) } else { (0..len).map(|i| ((i * 7919 + (i * i) % 1009 * 31) % 1009) as f64 / 504.5 - 1.0).collect() };
                base_fast(ctx, &format!("signal {kind}"), &s, n, np)
            }),
        ],
        &["entries are compared within 1e-9 of the largest possible value", "ssca_mapped: where two entries share a cell (only if np does not divide n) either may stand there"],
    )
}

// ------------------------------------------------------------------ C29

fn db10(x: f64) -> f64 {
    10.0 * x.log10()
}
fn close_db(ctx: &mut Ctx, what: &str, got: f64, want: f64) -> R {
    ctx.step(1);
    ctx.observe(got.to_bits());
    ensure!((got - want).abs() <= 1e-8 || got == want, "{what} is {got} dB instead of {want}");
    Ok(())
}
fn max_cut(a: &Array2<C>) -> f64 {
    db10(a.iter().map(|c| c.re * c.re + c.im * c.im).fold(f64::NEG_INFINITY, f64::max))
}
fn dcs(a: &Array2<C>) -> f64 {
    let p = |c: C| c.re * c.re + c.im * c.im;
    let (r, c) = (a.shape()[0], a.shape()[1]);
    db10((0..c).map(|j| (0..r).map(|i| p(a[[i, j]])).sum::<f64>() / p(a[[0, j]])).fold(f64::NEG_INFINITY, f64::max))
}

/// The array in one of six memory layouts, as numpy would hand it over.
fn with_layout<T>(a: &Array2<C>, layout: usize, f: impl FnOnce(Python<'_>, Bound<'_, PyAny>) -> PyResult<T>) -> Result<T, String> {
    Python::with_gil(|py| -> PyResult<T> {
        let np = py.import_bound("numpy")?;
        let x: Bound<'_, PyAny> = a.clone().into_pyarray_bound(py).into_any();
        let d = [("a", x), ("np", np.into_any())].into_py_dict_bound(py);
        let code = [
            "a",
            "np.asfortranarray(a)",
            "np.repeat(np.repeat(a, 2, 0), 3, 1)[::2, ::3]",
            "np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]",
            "np.ascontiguousarray(a.T).T",
            "np.pad(a, 1, constant_values=1e9)[1:-1, 1:-1]",
        ][layout];
        let v = py.eval_bound(code, Some(&d), None)?;
        f(py, v)
    })
    .map_err(|e| format!("python: {e}"))
}
const LAYOUTS: usize = 6;

fn sxf(ctx: &mut Ctx, a: &Array2<C>, layout: usize) -> R {
    let m: f64 = with_layout(a, layout, |py, v| module(py).getattr("max_cut_detector_sxf")?.call1((v,))?.extract())?;
    close_db(ctx, &format!("max_cut_detector_sxf of a {:?} array (memory layout {layout})", a.shape()), m, max_cut(a))?;
    let d: f64 = with_layout(a, layout, |py, v| module(py).getattr("dcs_detector_sxf")?.call1((v,))?.extract())?;
    close_db(ctx, &format!("dcs_detector_sxf of a {:?} array (memory layout {layout})", a.shape()), d, dcs(a))
}

fn det_signal(kind: usize, extra: usize) -> Vec<f64> {
    let n = 4096 + 63 + extra;
    match kind {
        0 => rich(n),
        1 => k::bpsk::tx_bpsk_signal(content(n / 16 + 1).into_iter(), 16, 1, 4.0).take(n).map(|x| x + 0.01).collect(),
        2 => k::qpsk::tx_qpsk_signal(content(2 * (n / 8 + 1)).into_iter(), 8, 1, 2.0).take(n).enumerate().map(|(i, x)| x + 0.02 * (i as f64 * 0.11).sin()).collect(),
        3 => rich(n).iter().map(|x| x * 1e-3).collect(),
        4 => (0..n).map(|i| (0.37 * i as f64).cos() * (1.0 + i as f64 / n as f64)).collect(),
        _ => (0..n).map(|i| ((i * 7919 + i * i * 31) % 1009) as f64 / 504.5 - 1.0).collect(),
    }
}

pub fn c29(t: Tier) -> Set {
    (
        vec![
            scn("energy-exhaustive", "energy_detector of every vector of 1..5 samples over {1,0,-2,0.5,1e3,-1e-3}", move |ctx| {
                let n = 1 + ctx.choose("n", t.of(5, 7));
                let mut v = ctx.choose("x", 6usize.pow(n as u32));
                let x: Vec<f64> = (0..n).map(|_| { let r = [1.0, 0.0, -2.0, 0.5, 1e3, -1e-3][v % 6]; v /= 6; r }).collect();
                let g: f64 = call("energy_detector", (x.clone(),), |r| r.extract())?;
                close_db(ctx, &format!("energy_detector of {x:?}"), g, db10(x.iter().map(|v| v * v).sum()))
            }),
            scn("energy-long", "energy_detector of 6 signals of every length 1..200 and a ladder to 2^14", move |ctx| {
                let mut lens: Vec<usize> = (1..200).collect();
                lens.extend(ladder(8, t.of(14, 18)));
                let n = ctx.pick("n", &lens);
                let s = sig(ctx.choose("signal", 6), n);
                let g: f64 = call("energy_detector", (s.clone(),), |r| r.extract())?;
                close_db(ctx, &format!("energy_detector of {n} samples"), g, db10(s.iter().map(|v| v * v).sum()))
            }),
            scn("arrays-exhaustive", "both array detectors on every array of up to 2x2, 1x3, 3x1 (thorough 3x2, 2x3) entries over 4 complex values (first row non-zero), in 6 memory layouts", move |ctx| {
                let (r, c) = ctx.pick("shape", t.of(&[(1usize, 1usize), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)][..], &[(1usize, 1usize), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (3, 2), (2, 3)][..]));
                let al = [C::new(1.0, 0.0), C::new(0.0, -2.0), C::new(-3.0, 1.0), C::new(0.0, 0.0)];
                let mut a = Array2::zeros((r, c));
                for i in 0..r {
                    for j in 0..c {
                        a[[i, j]] = al[ctx.choose("entry", if i == 0 { 3 } else { 4 })];
                    }
                }
                let l = ctx.choose("layout", LAYOUTS);
                sxf(ctx, &a, l)
            }),
            scn("arrays-peak", "every position of the one largest entry in arrays up to 9x9 over a varied background, real or imaginary, in 6 memory layouts", move |ctx| {
                let (r, c) = ctx.pick("shape", &[(9usize, 9usize), (2, 9), (9, 2), (5, 4), (1, 7), (7, 1)]);
                let (i, j) = (ctx.choose("row", r), ctx.choose("column", c));
                let im = ctx.choose("imaginary", 2) == 1;
                let mut a = Array2::from_shape_fn((r, c), |(i, j)| C::new(1.0 + ((i * 5 + j * 3) % 7) as f64 * 0.1, ((i + 2 * j) % 5) as f64 * 0.1 - 0.2));
                a[[i, j]] = if im { C::new(0.1, -9.0) } else { C::new(9.0, 0.1) };
                let l = ctx.choose("layout", LAYOUTS);
                sxf(ctx, &a, l)
            }),
            scn("signals", "signal-taking detectors on 6 signals, with 0, 1 and 500 samples to spare: the definition applied to the n=4096, np=64 array", move |ctx| {
                let kind = ctx.choose("signal", 6);
                let extra = ctx.pick("extra", &[0usize, 1, 500]);
                let s = det_signal(kind, extra);
                let a = k::ssca::ssca_base(s.clone(), 4096, 64);
                let g: f64 = call("max_cut_detector", (s.clone(),), |r| r.extract())?;
                close_db(ctx, &format!("max_cut_detector of signal {kind}"), g, max_cut(&a))?;
                let g: f64 = call("dcs_detector", (s.clone(),), |r| r.extract())?;
                close_db(ctx, &format!("dcs_detector of signal {kind}"), g, dcs(&a))?;
                sxf(ctx, &a, 0)
            }),
            scn("signals-definition", "the same two detectors against the array computed by the reference formula (2 signals)", move |ctx| {
                let kind = ctx.choose("signal", t.of(1, 3));
                let s = det_signal(kind, 0);
                let w = ssca_ref(&s, 4096, 64, &[]);
                let a = Array2::from_shape_fn((4096, 64), |(q, j)| w[q].1[j]);
                let g: f64 = call("max_cut_detector", (s.clone(),), |r| r.extract())?;
                close_db(ctx, &format!("max_cut_detector of signal {kind}"), g, max_cut(&a))?;
                let g: f64 = call("dcs_detector", (s.clone(),), |r| r.extract())?;
                ctx.step(1);
                ensure!((g - dcs(&a)).abs() < 1e-3, "dcs_detector of signal {kind} is {g} dB instead of {}", dcs(&a));
                Ok(())
            }),
            scn("energy-values", "energy_detector of one sample or equal samples of magnitude 1e-150..1e150, of silence with one sample anywhere in 1..64, of numpy arrays, lists and tuples, round-number lengths to 2^17", move |ctx| {
                let (x, d): (Vec<f64>, String) = match ctx.choose("kind", 3) {
                    0 => {
                        let e = ctx.choose("decade", 61) as i32 * 5 - 150;
                        let n = ctx.pick("n", &[1usize, 2, 10, 1000]);
                        (vec![-(10f64.powi(e)); n], format!("{n} samples of 1e{e}"))
                    }
                    1 => {
                        let n = 1 + ctx.choose("n", 64);
                        let p = ctx.choose("pos", n);
                        let mut x = vec![0.0; n];
                        x[p] = 3.0;
                        (x, format!("one sample at {p} of {n}"))
                    }
                    _ => {
                        let l: Vec<usize> = steps_to(t.of(1 << 17, 1 << 20)).into_iter().filter(|&x| x > 0).collect();
                        let n = ctx.pick("n", &l);
                        ((0..n).map(|i| (i % 17) as f64 - 8.0).collect(), format!("{n} samples"))
                    }
                };
                let want = db10(x.iter().map(|v| v * v).sum());
                let g: f64 = call("energy_detector", (x.clone(),), |r| r.extract())?;
                close_db(ctx, &format!("energy_detector of {d}"), g, want)?;
                let g: f64 = Python::with_gil(|py| -> PyResult<f64> { module(py).getattr("energy_detector")?.call1((x.into_pyarray_bound(py),))?.extract() }).map_err(|e| format!("python: {e}"))?;
                close_db(ctx, &format!("energy_detector of a numpy array of {d}"), g, want)
            }),
            scn("arrays-large", "array detectors on arrays up to 4096x64 and 65x8193 (shapes of ssca results, mapped and not) with the peak or the largest ratio at 12 places, values 1e-9..1e9, 6 layouts", move |ctx| {
                let (r, c) = ctx.pick("shape", &[(64usize, 16usize), (17, 129), (256, 64), (100, 1), (1, 100), (33, 1000), (4096, 64), (65, 8193)]);
                let big = r * c > 100_000;
                let place = ctx.choose("place", if big { 4 } else { 12 });
                let (i, j) = [(0, 0), (r - 1, c - 1), (r / 2, c / 2), (r - 1, 0), (0, c - 1), (r / 3, c / 5), (r / 2, 0), (r / 2, c - 1), (0, c / 2), (r - 1, c / 2), (1.min(r - 1), 1.min(c - 1)), (r * 3 / 4, c / 4)][place];
                let s = ctx.pick("scale", if big { &[1.0][..] } else { &[1.0, 1e-9, 1e9][..] });
                let mut a = Array2::from_shape_fn((r, c), |(i, j)| s * C::new(1.0 + ((i * 5 + j * 3) % 7) as f64 * 0.1, ((i + 2 * j) % 5) as f64 * 0.1 - 0.2));
                a[[i, j]] = s * C::new(-9.0, 7.0);
                let l = if big { ctx.pick("layout", &[0usize, 1, 5]) } else { ctx.choose("layout", LAYOUTS) };
                sxf(ctx, &a, l)
            }),
            scn("column-ratio", "dcs: every column of 1..40 as the one with the largest ratio, by a large sum, a small first entry, or both; max-cut: largest entry in ties", move |ctx| {
                let c = 1 + ctx.choose("columns", 40);
                let j = ctx.choose("column", c);
                let how = ctx.choose("how", 4);
                let r = ctx.pick("rows", &[2usize, 3, 8]);
                let mut a = Array2::from_shape_fn((r, c), |(i, j)| C::new(1.0 + 0.01 * ((i * 3 + j * 7) % 11) as f64, 0.3));
                match how {
                    0 => a[[r - 1, j]] = C::new(0.0, 50.0),
                    1 => a[[0, j]] = C::new(0.0, 1e-3),
                    2 => {
                        a[[0, j]] = C::new(1e-5, 0.0);
                        a[[1, (j + 1) % c]] += C::new(200.0, 0.0);
                    }
                    _ => {
                        // every other column has a large first entry
                        for k in 0..c {
                            if k != j {
                                a[[0, k]] = C::new(30.0, 30.0);
                            }
                        }
                    }
                }
                sxf(ctx, &a, 0)
            }),
            scn("more-signals", "signal-taking detectors on 8 modulated and special signals of the six transmitters, with 0..3 and 5000 samples to spare", move |ctx| {
                let kind = ctx.choose("signal", 8);
                let extra = ctx.pick("extra", &[0usize, 1, 2, 3, 5000]);
                let n = 4096 + 63 + extra;
                let b = || content(n).into_iter();
                let s: Vec<f64> = match kind {
                    0 => k::fsk::tx_bfsk_signal(b(), 20, 2, 3.0, 7.0).take(n).enumerate().map(|(i, x)| x + 0.02 * (i as f64 * 0.13).sin()).collect(),
                    1 => k::fh::tx_fh_bpsk_signal(b(), 1.0, 9.0, 5, 20, 2).take(n).enumerate().map(|(i, x)| x + 0.02 * (i as f64 * 0.13).sin()).collect(),
                    2 => k::fh_css::tx_fh_css_signal(b(), 64, 1, 5.0, 25.0, 3).take(n).collect(),
                    3 => k::csk::tx_baseband_csk(b()).take(n).collect(),
                    4 => k::dcsk::tx_baseband_dcsk(b()).take(n).collect(),
                    5 => k::fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal_2(b(), 8, 2, 2.0).take(n).collect(),
                    6 => (0..n).map(|i| if i % 64 == 5 { 1.0 } else { 0.001 * (i as f64 * 0.3).sin() }).collect(),
                    _ => rich(n).iter().map(|x| x * 1e6).collect(),
                };
                let a = k::ssca::ssca_base(s.clone(), 4096, 64);
                let g: f64 = call("max_cut_detector", (s.clone(),), |r| r.extract())?;
                close_db(ctx, &format!("max_cut_detector of signal {kind}"), g, max_cut(&a))?;
                if (0..64).all(|j| a[[0, j]].norm() > 0.0) {
                    let g: f64 = call("dcs_detector", (s.clone(),), |r| r.extract())?;
                    close_db(ctx, &format!("dcs_detector of signal {kind}"), g, dcs(&a))?;
                }
                Ok(())
            }),
            scn("tones", "signal-taking detectors on 96 (thorough 2048) tones whose strongest array entry lies in every part of the array, first and last rows and columns among them", move |ctx| {
                let n = 4096 + 64;
                let count = t.of(96usize, 2048);
                let j = ctx.choose("tone", count);
                let f = match j % 4 {
                    0 => j as f64 * 0.5 / count as f64,
                    1 => (j as f64 / 4.0 + 0.5) / 8192.0,
                    2 => 0.5 - (j / 4) as f64 / 8192.0,
                    _ => (1 + j * 21) as f64 / 8192.0 % 0.5,
                };
                let s: Vec<f64> = (0..n).map(|i| (2.0 * PI * f * i as f64 + j as f64).cos() + 0.001 * (i as f64 * 1.3).sin()).collect();
                let a = k::ssca::ssca_base(s.clone(), 4096, 64);
                let mut at = (0, 0, 0.0);
                for ((r, c), v) in a.indexed_iter() {
                    if v.norm_sqr() > at.2 {
                        at = (r, c, v.norm_sqr());
                    }
                }
                ctx.observe((at.0 * 64 + at.1) as u64);
                let g: f64 = call("max_cut_detector", (s.clone(),), |r| r.extract())?;
                close_db(ctx, &format!("max_cut_detector of tone {f} (peak in row {}, column {})", at.0, at.1), g, max_cut(&a))?;
                let g: f64 = call("dcs_detector", (s.clone(),), |r| r.extract())?;
                close_db(ctx, &format!("dcs_detector of tone {f}"), g, dcs(&a))
            }),
            scn("strengths", "signal-taking detectors on 6 signals scaled by 12 factors from 1e-60 to 1e60: max-cut moves by 40 dB per decade, DCS not at all, energy by 20 dB", move |ctx| {
                let kind = ctx.choose("signal", 6);
                let e = ctx.pick("decade", &[-60i32, -40, -33, -20, -12, -9, -6, -3, 3, 9, 30, 60]);
                let s = det_signal(kind, 0);
                let z: Vec<f64> = s.iter().map(|x| x * 10f64.powi(e)).collect();
                for (name, per) in [("max_cut_detector", 40.0), ("dcs_detector", 0.0), ("energy_detector", 20.0)] {
                    let a: f64 = call(name, (s.clone(),), |r| r.extract())?;
                    let b: f64 = call(name, (z.clone(),), |r| r.extract())?;
                    ctx.step(1);
                    ctx.observe(b.to_bits());
                    // the first row of the array may be the small difference of large sums
                    let tol = if per == 0.0 { 1e-3 } else { 1e-6 };
                    ensure!((b - a - per * e as f64).abs() < tol, "{name} of signal {kind} scaled by 1e{e} is {b} dB; unscaled {a} dB");
                }
                Ok(())
            }),
        ],
        &["no sample is NaN and the first row of the array has no zero entry (a zero there makes the ratio meaningless)", "decibel values are compared within 1e-8 (1e-3 where the reference array is recomputed: the ratio amplifies rounding of small entries)"],
    )
}

// ------------------------------------------------------------------ C33

fn eq_f(ctx: &mut Ctx, what: &str, got: Vec<f64>, want: Vec<f64>) -> R {
    close(ctx, what, &got, &want, 1e-6)
}

fn modem(ctx: &mut Ctx, f: usize, m: &[bool], sps: usize, rs: usize, fcx: f64) -> R {
    let fs = sps * rs;
    let fc = fcx * fs as f64;
    let v = || m.to_vec();
    let i = || m.to_vec().into_iter();
    let d = |n: &str| format!("python {n} fs={fs} rs={rs} fc={fc} message {}", bstr(m));
    match f {
        0 => eq_f(ctx, &d("tx_bpsk"), call_vec("tx_bpsk", (v(), fs, rs, fc))?, k::bpsk::tx_bpsk_signal(i(), fs, rs, fc).collect()),
        1 => eq_f(ctx, &d("tx_qpsk"), call_vec("tx_qpsk", (v(), fs, rs, fc))?, k::qpsk::tx_qpsk_signal(i(), fs, rs, fc).collect()),
        2 => {
            let s: Vec<f64> = k::bpsk::tx_bpsk_signal(i(), fs, rs, fc).collect();
            let g: Vec<bool> = call("rx_bpsk", (s.clone(), fs, rs, fc), |r| r.extract())?;
            let w: Vec<bool> = k::bpsk::rx_bpsk_signal(s.into_iter(), fs, rs, fc).collect();
            same_bits(ctx, &d("rx_bpsk"), &g, &w)
        }
        3 => {
            let s: Vec<f64> = k::qpsk::tx_qpsk_signal(i(), fs, rs, fc).collect();
            let g: Vec<bool> = call("rx_qpsk", (s.clone(), fs, rs, fc), |r| r.extract())?;
            let w: Vec<bool> = k::qpsk::rx_qpsk_signal(s.into_iter(), fs, rs, fc).collect();
            same_bits(ctx, &d("rx_qpsk"), &g, &w)
        }
        4 => {
            let g: Vec<C> = call("tx_baseband_bpsk", (v(),), |r| r.extract())?;
            let w: Vec<C> = k::bpsk::tx_baseband_bpsk_signal(i()).collect();
            ctx.step(g.len());
            ensure!(g == w, "{}: {g:?} instead of {w:?}", d("tx_baseband_bpsk"));
            Ok(())
        }
        5 => {
            if sps % 32 != 0 {
                return Ok(());
            }
            let key = k::hadamard::HadamardMatrix::new(16).key(0).clone();
            eq_f(ctx, &d("tx_cdma_bpsk"), call_vec("tx_cdma_bpsk", (v(), fs, rs, fc))?, k::cdma::tx_cdma_bpsk_signal(i(), fs, rs, fc, &key).collect())
        }
        6 => {
            let w: Vec<f64> = k::csk::tx_baseband_csk(i()).flat_map(|x| vec![x; sps]).collect();
            eq_f(ctx, &d("tx_csk"), call_vec("tx_csk", (v(), fs, rs))?, w)
        }
        7 => {
            let w: Vec<f64> = k::dcsk::tx_baseband_dcsk(i()).flat_map(|x| vec![x; sps]).collect();
            eq_f(ctx, &d("tx_dcsk"), call_vec("tx_dcsk", (v(), fs, rs))?, w)
        }
        8 => {
            let hi = fc * 0.5 + 0.25 * fs as f64;
            eq_f(ctx, &d("tx_bfsk"), call_vec("tx_bfsk", (v(), fs, rs, fc * 0.5, hi))?, k::fsk::tx_bfsk_signal(i(), fs, rs, fc * 0.5, hi).collect())
        }
        9 => {
            let lo = fc * 0.25;
            let hi = lo + 0.3 * fs as f64;
            let n = 1 + m.len() % 7;
            eq_f(ctx, &d("tx_fh_css"), call_vec("tx_fh_css", (v(), fs, rs, lo, hi, n))?, k::fh_css::tx_fh_css_signal(i(), fs, rs, lo, hi, n).collect())
        }
        10 => eq_f(ctx, &d("tx_fh_ofdm_dcsk"), call_vec("tx_fh_ofdm_dcsk", (v(), fs, rs, fc))?, k::fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal_2(i(), fs, rs, fc).collect()),
        11 => {
            let rate = rs as f64;
            let f1 = fc * 0.5 + 0.2 * fs as f64;
            let _ = m;
            eq_f(ctx, &d("chirp"), call_vec("chirp", (rate, fs, fc, f1))?, k::fh_css::linear_chirp(rate, fs, fc, f1).collect())
        }
        12 => {
            let s: Vec<f64> = k::bpsk::tx_bpsk_signal(i(), fs, rs, fc).collect();
            if s.is_empty() {
                return Ok(());
            }
            let g: f64 = call("avg_energy", (s.clone(),), |r| r.extract())?;
            eq_f(ctx, &d("avg_energy"), vec![g], vec![k::avg_energy(&s)])
        }
        _ => {
            // a received signal that is not a transmission
            let s: Vec<f64> = (0..m.len() * sps + m.len() % 5).map(|i| (i as f64 * 0.9).sin() + if i % 11 == 4 { 2.0 } else { 0.0 }).collect();
            let g: Vec<bool> = call("rx_bpsk", (s.clone(), fs, rs, fc), |r| r.extract())?;
            let w: Vec<bool> = k::bpsk::rx_bpsk_signal(s.clone().into_iter(), fs, rs, fc).collect();
            same_bits(ctx, &d("rx_bpsk of a foreign signal"), &g, &w)?;
            let g: Vec<bool> = call("rx_qpsk", (s.clone(), fs, rs, fc), |r| r.extract())?;
            let w: Vec<bool> = k::qpsk::rx_qpsk_signal(s.into_iter(), fs, rs, fc).collect();
            same_bits(ctx, &d("rx_qpsk of a foreign signal"), &g, &w)
        }
    }
}
const MODEMS: usize = 14;

fn ofdm(ctx: &mut Ctx, m: &[bool], sub: usize, pil: usize, sps: usize, rs: usize, fcx: f64) -> R {
    let fs = sps * rs;
    let fc = fcx * fs as f64;
    let d = format!("subcarriers={sub} pilots={pil} fs={fs} rs={rs} fc={fc} message {}", bstr(m));
    let w: Vec<f64> = k::ofdm::tx_ofdm_qpsk_signal(m.to_vec().into_iter(), sub, pil, fs, rs, fc).collect();
    let g = call_vec("tx_ofdm", (m.to_vec(), sub, pil, fs, rs, fc))?;
    eq_f(ctx, &format!("python tx_ofdm {d}"), g, w.clone())?;
    let g: Vec<bool> = call("rx_ofdm", (w.clone(), sub, pil, fs, rs, fc), |r| r.extract())?;
    let r: Vec<bool> = k::ofdm::rx_ofdm_qpsk_signal(w.into_iter(), sub, pil, fs, rs, fc).collect();
    same_bits(ctx, &format!("python rx_ofdm {d}"), &g, &r)
}

fn py_ssca(s: &[f64], args: usize, n: usize, np: usize, map: bool) -> Result<Array2<C>, String> {
    Python::with_gil(|py| -> PyResult<Array2<C>> {
        let f = module(py).getattr("ssca")?;
        let s = s.to_vec();
        let r = match args {
            0 => f.call1((s,))?,
            1 => f.call1((s, n, np, map))?,
            2 => {
                let d = [("map_output", map.into_py(py)), ("np", np.into_py(py)), ("n", n.into_py(py)), ("s", s.into_py(py))].into_py_dict_bound(py);
                f.call((), Some(&d))?
            }
            3 => f.call((s, n, np), None)?,
            4 => f.call1((PyArray1::from_vec_bound(py, s), n, np, map))?,
            _ => {
                let d = [("map_output", map)].into_py_dict_bound(py);
                f.call((s, n, np), Some(&d))?
            }
        };
        let a = r.downcast::<PyArray2<C>>()?;
        Ok(a.to_owned_array())
    })
    .map_err(|e| format!("python ssca: {e}"))
}

pub fn c33(t: Tier) -> Set {
    (
        vec![
            scn("functions", "the 14 modem, signal and measurement functions x every message up to 6 bits and every length 0..48 in 6 patterns x 3 configurations", move |ctx| {
                let f = ctx.choose("function", MODEMS);
                let (sps, rs, fcx) = ctx.pick("cfg", &[(32usize, 10usize, 0.25), (16, 900, 0.125), (96, 3, 0.375)]);
                let lens: Vec<usize> = (0..48).collect();
                let m = message(ctx, t.of(6, 9), &lens, PATTERNS);
                modem(ctx, f, &m, sps, rs, fcx)
            }),
            scn("grid", "the same functions x 9 samples per symbol x 5 symbol rates x 8 carriers, content of 41 bits", move |ctx| {
                let f = ctx.choose("function", MODEMS);
                let sps = ctx.pick("sps", &[16usize, 1, 2, 3, 5, 20, 32, 48, 64]);
                let rs = ctx.pick("rs", &[900usize, 1, 7, 1000, 44100]);
                let fcx = ctx.pick("fc", &[0.25, 0.0, 0.1, 0.3, 0.125, 0.37, 0.45, 0.499]);
                modem(ctx, f, &content(41), sps, rs, fcx)
            }),
            scn("long", "the same functions on 1000 and 1023 bits (thorough 8191)", move |ctx| {
                let f = ctx.choose("function", MODEMS);
                let n = ctx.pick("n", t.of(&[1000usize, 1023][..], &[1000usize, 1023, 8191][..]));
                modem(ctx, f, &content(n), 32, 100, 0.25)
            }),
            scn("ofdm", "tx_ofdm and rx_ofdm: 9 (subcarriers, pilots) pairs x lengths 0,2,..,60 and three odd ones x 3 configurations", move |ctx| {
                let (sub, pil) = ctx.pick("plan", &[(16usize, 4usize), (8, 2), (64, 12), (4, 1), (7, 3), (9, 2), (12, 11), (32, 1), (2, 1)]);
                let (sps, rs, fcx) = ctx.pick("cfg", &[(4usize, 10usize, 0.25), (10, 900, 0.1), (6, 1, 1.0 / 3.0)]);
                let mut lens: Vec<usize> = (0..=30).map(|i| 2 * i).collect();
                lens.extend([1, 7, 33]);
                let n = ctx.pick("len", &lens);
                let p = ctx.choose("pattern", 3);
                ofdm(ctx, &pattern(p, n), sub, pil, sps, rs, fcx)
            }),
            scn("ssca", "ssca called in 6 ways (defaults, positional, keywords in another order, no map flag, numpy input, mixed) x 6 sizes x mapped or not", move |ctx| {
                let way = ctx.choose("call", 6);
                let (n, np) = if way == 0 { (4096, 64) } else { ctx.pick("size", &[(16usize, 8usize), (9, 4), (64, 16), (17, 16), (12, 6), (256, 64)]) };
                let map = if way == 0 || way == 3 { false } else { ctx.choose("map", 2) == 1 };
                let s = rich(n + np - 1 + ctx.choose("extra", 2) * 5);
                let g = py_ssca(&s, way, n, np, map)?;
                let w = if map { k::ssca::ssca_mapped(s, n, np) } else { k::ssca::ssca_base(s, n, np) };
                ctx.step(w.len());
                ctx.observe(fnv(g.iter().map(|c| c.im.to_bits())));
                ensure!(g.shape() == w.shape(), "python ssca(n={n}, np={np}, map={map}): shape {:?} instead of {:?}", g.shape(), w.shape());
                ensure!(g.iter().zip(w.iter()).all(|(a, b)| (a - b).norm() <= 1e-9 * (1.0 + b.norm())), "python ssca(n={n}, np={np}, map={map}, call style {way}) differs from the Rust result");
                Ok(())
            }),
            scn("random-data", "random_data of every length 0..200 and a ladder to 2^14, 3 entropy answers: that many booleans, in a numpy array of booleans; balanced and not repeated", move |ctx| {
                let mut lens: Vec<usize> = (0..200).collect();
                lens.extend(ladder(8, t.of(14, 18)));
                let n = ctx.pick("n", &lens);
                let seed = 1 + ctx.choose("entropy", 3) as u64;
                let (a, b) = crate::rng::seeded(seed, || -> Result<_, String> {
                    let one = || {
                        call("random_data", (n,), |r| {
                            let dt: String = r.getattr("dtype")?.str()?.extract()?;
                            let v: Vec<bool> = r.call_method0("tolist")?.extract()?;
                            Ok((dt, v))
                        })
                    };
                    Ok((one()?, one()?))
                })??;
                ctx.step(n);
                ctx.observe(hash_bits(&a.1));
                ensure!(a.0 == "bool", "random_data returns an array of {}", a.0);
                ensure!(a.1.len() == n && b.1.len() == n, "random_data({n}) returned {} values", a.1.len());
                if n >= 100 {
                    let ones = a.1.iter().filter(|&&x| x).count() as f64;
                    ensure!((ones - n as f64 / 2.0).abs() < 4.0 * (n as f64).sqrt(), "random_data({n}): {ones} ones");
                    let same = a.1.iter().zip(&b.1).filter(|(x, y)| x == y).count() as f64;
                    ensure!((same - n as f64 / 2.0).abs() < 4.0 * (n as f64).sqrt(), "random_data({n}) twice: {same} equal bits");
                    let chg = a.1.windows(2).filter(|w| w[0] != w[1]).count() as f64;
                    ensure!((chg - n as f64 / 2.0).abs() < 4.0 * (n as f64).sqrt(), "random_data({n}): {chg} changes");
                }
                Ok(())
            }),
            scn("interleaved", "every ordered pair of the functions, the first called twice around the second: same answer both times", move |ctx| {
                let a = ctx.choose("a", MODEMS);
                let b = ctx.choose("b", MODEMS);
                modem(ctx, a, &content(9), 64, 10, 0.25)?;
                modem(ctx, b, &content(14), 32, 10, 0.125)?;
                modem(ctx, a, &content(9), 64, 10, 0.25)
            }),
            scn("long-symbols", "the same functions with round-number samples per symbol from 67 to 10^4 and around 2^16 (thorough 10^5), 3 carriers, 3 bits", move |ctx| {
                let f = ctx.choose("function", MODEMS);
                let mut l: Vec<usize> = steps_to(t.of(10_001, 100_001)).into_iter().filter(|&x| x > 66).collect();
                l.extend([96, 160, 320, 352, 4000, 3200, 6400, 65_535, 65_536, 65_537, 70_000]);
                let sps = ctx.pick("sps", &l);
                let rs = ctx.pick("rs", &[1usize, 900]);
                let fcx = ctx.pick("fc", &[0.25, 0.1234, 1.0 / sps as f64]);
                modem(ctx, f, &[true, false, false], sps, rs, fcx)
            }),
            scn("far", "the same functions on 2^14 bits (thorough 2^18), and on round-number lengths up to 10^4", move |ctx| {
                let f = ctx.choose("function", MODEMS);
                let mut l: Vec<usize> = steps_to(10_001).into_iter().filter(|&x| x > 200).collect();
                l.push(1 << t.of(14, 18));
                let n = ctx.pick("n", &l);
                let (sps, fcx) = ctx.pick("cfg", &[(32usize, 0.125), (4, 0.25)]);
                modem(ctx, f, &content(n), sps, 100, fcx)
            }),
            scn("ssca-sizes", "ssca through Python, mapped and not, for 24 sizes with np up to 512: equal to the Rust functions", move |ctx| {
                let (n, np) = ctx.pick("size", &[
                    (256usize, 128usize), (512, 128), (512, 256), (1024, 128), (1024, 512), (4096, 64), (4096, 128), (2048, 64), (1000, 100), (300, 66), (129, 128), (130, 128), (128, 64), (65, 64), (66, 64), (96, 32), (33, 32), (100, 2), (3, 2), (5, 4), (200, 80), (2000, 40), (640, 96), (1000, 250),
                ]);
                let map = ctx.choose("map", 2) == 1;
                let way = ctx.pick("call", &[1usize, 2, 4, 5]);
                let s = rich(n + np - 1);
                let g = py_ssca(&s, way, n, np, map)?;
                let w = if map { k::ssca::ssca_mapped(s, n, np) } else { k::ssca::ssca_base(s, n, np) };
                ctx.step(w.len());
                ensure!(g.shape() == w.shape(), "python ssca(n={n}, np={np}, map={map}): shape {:?} instead of {:?}", g.shape(), w.shape());
                ensure!(g.iter().zip(w.iter()).all(|(a, b)| (a - b).norm() <= 1e-9 * (1.0 + b.norm())), "python ssca(n={n}, np={np}, map={map}, call style {way}) differs from the Rust result");
                // and the definition itself
                if !map {
                    let d = ssca_fast(&rich(n + np - 1), n, np);
                    let ok = (0..n).all(|q| (0..np).all(|j| (g[[q, j]] - d[j][q]).norm() <= 1e-9 * (n * np) as f64));
                    ensure!(ok, "python ssca(n={n}, np={np}) differs from its definition");
                }
                Ok(())
            }),
            scn("hopping", "tx_fh_css with hop counts 1..64 and 5 bands; tx_bfsk, chirp and tx_fh_ofdm_dcsk with 40 frequency pairs", move |ctx| {
                if ctx.choose("fn", 2) == 0 {
                    let nf = 1 + ctx.choose("nf", 64);
                    let (lo, hi) = ctx.pick("band", &[(1000.0, 2000.0), (0.0, 22050.0), (5000.0, 5000.0), (123.456, 7890.12), (20000.0, 22000.0)]);
                    let m = content(70);
                    let w: Vec<f64> = k::fh_css::tx_fh_css_signal(m.clone().into_iter(), 44100, 900, lo, hi, nf).collect();
                    eq_f(ctx, &format!("python tx_fh_css {lo}..{hi} {nf}"), call_vec("tx_fh_css", (m, 44100usize, 900usize, lo, hi, nf))?, w)
                } else {
                    let lo = ctx.choose("lo", 8) as f64 * 2500.0 + 0.5;
                    let hi = ctx.choose("hi", 5) as f64 * 5000.0 + 0.25;
                    let m = content(20);
                    let w: Vec<f64> = k::fsk::tx_bfsk_signal(m.clone().into_iter(), 44100, 900, lo, hi).collect();
                    eq_f(ctx, &format!("python tx_bfsk {lo} {hi}"), call_vec("tx_bfsk", (m.clone(), 44100usize, 900usize, lo, hi))?, w)?;
                    let w: Vec<f64> = k::fh_css::linear_chirp(2.5, 44100, lo, hi).collect();
                    eq_f(ctx, &format!("python chirp {lo} {hi}"), call_vec("chirp", (2.5, 44100usize, lo, hi))?, w)?;
                    let w: Vec<f64> = k::fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal_2(m.clone().into_iter(), 44100, 900, hi).collect();
                    eq_f(ctx, &format!("python tx_fh_ofdm_dcsk {hi}"), call_vec("tx_fh_ofdm_dcsk", (m, 44100usize, 900usize, hi))?, w)
                }
            }),
            scn("random-data-places", "64 calls of random_data for 7 lengths up to 10^4, 3 entropy answers: every place takes both values, balanced (7 standard errors), and no two calls agree", move |ctx| {
                let n = ctx.pick("n", &[1usize, 7, 64, 1000, 1024, 4096, 10_000]);
                let seed = 11 + ctx.choose("entropy", 3) as u64;
                let calls = 64;
                let all: Vec<Vec<bool>> = crate::rng::seeded(seed, || (0..calls).map(|_| call("random_data", (n,), |r| r.call_method0("tolist")?.extract())).collect::<Result<_, _>>())??;
                for i in 0..n {
                    let ones = all.iter().filter(|v| v[i]).count();
                    // 32 +- 28: 7 standard errors of 4
                    ensure!((4..=60).contains(&ones), "bit {i} of {n} is set in {ones} of {calls} calls");
                }
                for a in 0..calls {
                    for b in 0..a {
                        let same = all[a].iter().zip(&all[b]).filter(|(x, y)| x == y).count();
                        ensure!((same as f64 - n as f64 / 2.0).abs() <= 3.5 * (n as f64).sqrt(), "calls {b} and {a} of random_data({n}) agree in {same} bits");
                    }
                }
                ctx.step(n * calls);
                ctx.observe(fnv(all.iter().map(|v| hash_bits(v))));
                Ok(())
            }),
            scn("random-data-far", "random_data of 2^17 bits (thorough 2^22), 3 entropy answers: balanced overall and in every block of 2^13, and uncorrelated at lags 1..200 and around powers of two (6.5 standard errors)", move |ctx| {
                let n = t.of(1usize << 17, 1 << 22);
                let seed = 1 + ctx.choose("entropy", 3) as u64;
                let v: Vec<bool> = crate::rng::seeded(seed, || call("random_data", (n,), |r| r.call_method0("tolist")?.extract()))??;
                ensure!(v.len() == n, "random_data({n}) returned {} values", v.len());
                let far = |same: usize, of: usize| (same as f64 - of as f64 / 2.0).abs() > 6.5 * 0.5 * (of as f64).sqrt();
                let ones = v.iter().filter(|&&x| x).count();
                ensure!(!far(ones, n), "random_data({n}): {ones} ones");
                for (b, c) in v.chunks(1 << 13).enumerate() {
                    let ones = c.iter().filter(|&&x| x).count();
                    ensure!(!far(ones, c.len()), "random_data({n}): {ones} ones among the {} bits of block {b}", c.len());
                }
                let mut lags: Vec<usize> = (1..=200).collect();
                lags.extend(ladder(8, 15));
                for lag in lags {
                    let same = v.iter().zip(&v[lag..]).filter(|(a, b)| a == b).count();
                    ensure!(!far(same, n - lag), "random_data({n}): {same} of {} bits equal the one {lag} later", n - lag);
                    // sparser patterns: each residue class of 64
                    if lag <= 64 {
                        for r in 0..64 {
                            let (mut same, mut of) = (0, 0);
                            for i in (r..n - lag).step_by(64) {
                                same += (v[i] == v[i + lag]) as usize;
                                of += 1;
                            }
                            ensure!(!far(same, of), "random_data({n}): bit {r} of every 64 and the one {lag} later are equal {same} times of {of}");
                        }
                    }
                }
                ctx.step(n);
                ctx.observe(hash_bits(&v));
                Ok(())
            }),
            scn("refusals", "rate plans the Rust function refuses (non-integer samples per symbol or chip, carriers above half the sample rate) through Python: an exception for 9 functions x 7 plans, and the function still works afterwards", move |ctx| {
                let f = ctx.choose("function", 9);
                let (fs, rs, fc): (usize, usize, f64) = ctx.pick("plan", &[(1000, 300, 100.0), (44_100, 1000, 2000.0), (1000, 999, 10.0), (3200, 100, 1700.0), (3200, 100, 1e9), (800, 100, 100.0), (2400, 100, 200.0)]);
                let m = || content(6);
                let i = || content(6).into_iter();
                let key = k::hadamard::HadamardMatrix::new(16).key(0).clone();
                let name = ["tx_bpsk", "tx_bfsk", "tx_cdma_bpsk", "tx_fh_css", "tx_fh_ofdm_dcsk", "tx_ofdm", "rx_ofdm", "tx_csk", "tx_dcsk"][f];
                // (a panic below Python resurfaces as a panic here)
                let py: Result<Vec<f64>, String> = std::panic::catch_unwind(|| match f {
                    0 | 2 | 4 => call_vec(name, (m(), fs, rs, fc)),
                    1 => call_vec(name, (m(), fs, rs, fc * 0.5, fc)),
                    3 => call_vec(name, (m(), fs, rs, fc * 0.5, fc, 4usize)),
                    5 => call_vec(name, (m(), 16usize, 4usize, fs, rs, fc)),
                    6 => call(name, (vec![0.5f64; 200], 16usize, 4usize, fs, rs, fc), |r| r.extract::<Vec<bool>>()).map(|v| v.iter().map(|&b| b as u8 as f64).collect()),
                    _ => call_vec(name, (m(), fs, rs)),
                }).unwrap_or(Err("refused".into()));
                let rust = std::panic::catch_unwind(|| -> Vec<f64> {
                    match f {
                        0 => k::bpsk::tx_bpsk_signal(i(), fs, rs, fc).collect(),
                        1 => k::fsk::tx_bfsk_signal(i(), fs, rs, fc * 0.5, fc).collect(),
                        2 => k::cdma::tx_cdma_bpsk_signal(i(), fs, rs, fc, &key).collect(),
                        3 => k::fh_css::tx_fh_css_signal(i(), fs, rs, fc * 0.5, fc, 4).collect(),
                        4 => k::fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal_2(i(), fs, rs, fc).collect(),
                        5 => k::ofdm::tx_ofdm_qpsk_signal(i(), 16, 4, fs, rs, fc).collect(),
                        6 => k::ofdm::rx_ofdm_qpsk_signal(vec![0.5f64; 200].into_iter(), 16, 4, fs, rs, fc).map(|b| b as u8 as f64).collect(),
                        _ if fs % rs != 0 => panic!("refused"),
                        7 => k::csk::tx_baseband_csk(i()).flat_map(|x| vec![x; fs / rs]).collect(),
                        _ => k::dcsk::tx_baseband_dcsk(i()).flat_map(|x| vec![x; fs / rs]).collect(),
                    }
                });
                match (py, rust) {
                    (Ok(g), Ok(w)) => eq_f(ctx, &format!("python {name} fs={fs} rs={rs} fc={fc}"), g, w)?,
                    (Err(_), Err(_)) => ctx.step(1),
                    (Ok(g), Err(_)) => return Err(format!("python {name} fs={fs} rs={rs} fc={fc}: {} values, although the Rust function refuses the plan", g.len())),
                    (Err(e), Ok(_)) => return Err(format!("python {name} fs={fs} rs={rs} fc={fc} refused: {e}")),
                }
                modem(ctx, 0, &content(9), 32, 10, 0.125)
            }),
        ],
        &["random functions (awgn, pure_awgn) are judged by C25; energy_detector and the other detectors by C29", "the extension module is linked into the checker and called through the interpreter, so argument parsing and conversion are exercised"],
    )
}
