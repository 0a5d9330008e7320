//! C11 Zernike values, C12 feature invariances.
use crate::fw::*;
use crate::gen::*;
use crate::refmodel as m;
use crate::rng::Rng;
use feature::FeaturesCalculator;
use image_features::{calculate_features, feature_types::FeaturesType};
use ndarray::Array2;
use serde_json::json;

pub fn ln_gamma(x: f64) -> f64 {
    // Lanczos, g = 7, n = 9
    const C: [f64; 9] = [
        0.99999999999980993,
        676.5203681218851,
        -1259.1392167224028,
        771.32342877765313,
        -176.61502916214059,
        12.507343278686905,
        -0.13857109526572012,
        9.9843695780195716e-6,
        1.5056327351493116e-7,
    ];
    let x = x - 1.;
    let mut a = C[0];
    for (i, c) in C.iter().enumerate().skip(1) {
        a += c / (x + i as f64);
    }
    let t = x + 7.5;
    0.5 * (2. * std::f64::consts::PI).ln() + (x + 0.5) * t.ln() - t + a.ln()
}

/// Largest coefficient of the radial polynomial: how much rounding error the sum may collect.
fn conditioning(order: usize, index: usize) -> f64 {
    m::radial_coefficients(order, index).iter().fold(1., |a, c| a.max(c.abs()))
}

fn real_features(img: &Array2<u8>, n: usize) -> Result<Vec<f64>, String> {
    call(|| calculate_features(img, FeaturesType::MomentsZernike, n))
}

/// Agreement demanded of feature number i alone.
fn tolerance_at(amount: usize, i: usize) -> f64 {
    let (order, index) = (2 * amount - 1, 2 * i + 1);
    255. * (order as f64 + 1.) / std::f64::consts::PI * (1e-10 + conditioning(order, index) * 1e-13)
}

/// Agreement demanded of a feature value: rounding error of the polynomial, times the pixel scale.
pub fn tolerance(amount: usize) -> f64 {
    let order = 2 * amount - 1;
    let worst = (1..=order).step_by(2).map(|i| conditioning(order, i)).fold(1., f64::max);
    1e-9 + 255. * (order as f64 + 1.) / std::f64::consts::PI * worst * 1e-13
}

fn small_image(r: &mut Rng) -> (Array2<u8>, &'static str) {
    if r.chance(0.01) {
        let (rows, cols) = (100 + r.below(500), 100 + r.below(500));
        let k = kind(r);
        return (image_in(r, k, rows, cols, 0, 255), k);
    }
    let (rows, cols) = match r.below(5) {
        0 => {
            let n = 2 + r.below(60);
            (n, n)
        }
        1 => (2 + r.below(80), 2 + r.below(8)),
        2 => (1 + r.below(3), 2 + r.below(60)),
        _ => (2 + r.below(64), 2 + r.below(64)),
    };
    let k = kind(r);
    (image_in(r, k, rows, cols, 0, 255), k)
}

pub fn c11(ctx: &Ctx) -> serde_json::Value {
    ctx.drive("polynomial values", ctx.n(800, 8000), 0.4, |r, _| {
        let orders = if r.chance(0.3) { 46 } else { 22 };
        let order = r.below(orders);
        let index = order - 2 * r.below(order / 2 + 1);
        let dim = match r.below(4) {
            0 => 2 + r.below(4),
            1 => 2 * r.below(16) + 3,
            _ => 2 + r.below(40),
        };
        let sign = if r.chance(0.3) { -1 } else { 1 };
        let cj = json!({"order": order, "index": index, "dimension": dim, "sign": sign});
        let z = match call(|| zernike::calc::get_zernike_matrix(order, sign * index as isize, dim)) {
            Ok(z) => z,
            Err(e) => return violated(format!("panicked: {e}"), cj),
        };
        if z.dim() != (dim, dim) {
            return violated(format!("matrix of {:?}", z.dim()), cj);
        }
        let tol = 1e-10 + conditioning(order, index) * 1e-13;
        let b = m::zernike_basis(order, index, dim);
        for ((i, j), v) in z.indexed_iter() {
            let w = b[i * dim + j];
            let d = ((v.re - w.0).powi(2) + (v.im - w.1).powi(2)).sqrt();
            ctx_max(ctx, "error / tolerance", d / tol);
            if !(d <= tol) {
                return violated(format!("value at ({i},{j}) is {v}, definition gives {}+{}i", w.0, w.1), cj);
            }
        }
        ctx.count("polynomial values compared", (dim * dim) as u64);
        held(format!("{cj}").as_bytes(), true, cj)
    });
    ctx.drive("moments", ctx.n(1500, 15000), 0.4, |r, _| {
        let (img, k) = small_image(r);
        let orders = if r.chance(0.3) { 46 } else { 22 };
        let order = r.below(orders);
        let index = order - 2 * r.below(order / 2 + 1);
        let cj = json!({"rows": img.dim().0, "cols": img.dim().1, "image": k, "order": order, "index": index});
        let z = match call(|| zernike::calc::calculate_zernike_image_moment(order, index, &img)) {
            Ok(z) => z,
            Err(e) => return violated(format!("panicked: {e}"), cj),
        };
        let w = m::moment(&img, order, index);
        let tol = 255. * (order as f64 + 1.) / std::f64::consts::PI * (1e-10 + conditioning(order, index) * 1e-13);
        if !(((z.re - w.0).powi(2) + (z.im - w.1).powi(2)).sqrt() <= tol) {
            return violated(format!("moment {z}, definition gives {}+{}i", w.0, w.1), cj);
        }
        ctx.count("moments compared", 1);
        held(format!("{cj}{}", w.0).as_bytes(), w.0 != 0., cj)
    });
    ctx.drive("feature vectors", ctx.n(600, 6000), 0.3, |r, _| {
        let (img, k) = small_image(r);
        let most = if r.chance(0.2) { 20 } else { 11 };
        // the work grows with the cube of the number of features: few for large pictures
        let most = (1..=most).rev().find(|n| img.len() * n * n * n < 50_000_000).unwrap_or(1);
        let n = 1 + r.below(most);
        let cj = json!({"rows": img.dim().0, "cols": img.dim().1, "image": k, "amount": n});
        let f = match real_features(&img, n) {
            Ok(f) => f,
            Err(e) => return violated(format!("panicked: {e}"), cj),
        };
        let g = match call(|| zernike::ZernikeFeaturesCalculator {}.calculate_features(&img, n)) {
            Ok(f) => f,
            Err(e) => return violated(format!("panicked: {e}"), cj),
        };
        let w = m::features(&img, n);
        if f.len() != n {
            return violated(format!("{} features instead of {n}", f.len()), cj);
        }
        for i in 0..n {
            let tol = tolerance_at(n, i);
            if !((f[i] - w[i]).abs() <= tol) || !((g.get(i).cloned().unwrap_or(f64::NAN) - w[i]).abs() <= tol) {
                return violated(format!("feature {i} is {}, definition gives {}", f[i], w[i]), cj);
            }
        }
        ctx.count("features compared", n as u64);
        held(format!("{cj}{:?}", w).as_bytes(), w.iter().any(|x| *x > 1e-6), cj)
    });
    ctx.require("polynomial values compared", 50000);
    ctx.require("moments compared", 300);
    ctx.require("features compared", 500);
    ctx.finish(
        "Polynomial matrices for orders 0-45 and every admissible index on grids 2-43 (odd and even, centre pixel included); moments and feature vectors of pictures of all kinds and shapes down to one row; against an independent evaluation (integer coefficients, Horner, repeated multiplication). Distinct by parameters and content.",
        &["tolerance 1e-13 times the largest polynomial coefficient"],
    )
}

fn ctx_max(ctx: &Ctx, name: &str, v: f64) {
    ctx.maximum(name, v)
}

pub fn rot90(a: &Array2<u8>) -> Array2<u8> {
    let (r, c) = a.dim();
    Array2::from_shape_fn((c, r), |(i, j)| a[[r - 1 - j, i]])
}
pub fn flip(a: &Array2<u8>) -> Array2<u8> {
    let (r, c) = a.dim();
    Array2::from_shape_fn((r, c), |(i, j)| a[[i, c - 1 - j]])
}

pub fn c12(ctx: &Ctx) -> serde_json::Value {
    ctx.drive("symmetry", ctx.n(500, 5000), 0.4, |r, _| {
        // rectangles whose sides differ by an even amount have a well-defined centre
        let rows = 2 + r.below(50);
        let cols = if r.chance(0.5) {
            rows
        } else {
            (rows + 2 * r.below(12)).max(2)
        };
        let k = kind(r);
        let img = image_in(r, k, rows, cols, 0, 255);
        let most = if r.chance(0.2) { 20 } else { 11 };
        let n = 1 + r.below(most);
        let cj = json!({"rows": rows, "cols": cols, "image": k, "amount": n});
        let f = match real_features(&img, n) {
            Ok(f) => f,
            Err(e) => return violated(format!("panicked: {e}"), cj),
        };
        if f.len() != n || f.iter().any(|x| !x.is_finite() || *x < 0.) {
            return violated(format!("features {f:?}"), cj);
        }
        let tol = 2. * tolerance(n);
        let mut v = img.clone();
        for turn in 0..8 {
            v = if turn == 4 { flip(&v) } else { rot90(&v) };
            let g = match real_features(&v, n) {
                Ok(f) => f,
                Err(e) => return violated(format!("panicked: {e}"), cj),
            };
            for i in 0..n {
                if !(g.len() == n && (g[i] - f[i]).abs() <= tol) {
                    return violated(
                        format!("feature {i}: {} upright, {:?} after transformation {turn}", f[i], g.get(i)),
                        cj,
                    );
                }
            }
            ctx.count("rotations and reflections compared", 1);
        }
        // brightness and negative leave odd moments alone
        let top = *img.iter().max().unwrap();
        let low = *img.iter().min().unwrap();
        for (what, w) in [
            ("brightened", img.mapv(|p| p + (255 - top))),
            ("darkened", img.mapv(|p| p - low)),
            ("negative", img.mapv(|p| 255 - p)),
        ] {
            let g = real_features(&w, n).unwrap_or_default();
            for i in 0..n {
                if !(g.len() == n && (g[i] - f[i]).abs() <= tol) {
                    return violated(format!("feature {i}: {} before, {:?} when {what}", f[i], g.get(i)), cj);
                }
            }
        }
        held(format!("{cj}{f:?}").as_bytes(), f.iter().any(|x| *x > 1e-3), cj)
    });
    ctx.drive("linearity", ctx.n(800, 8000), 0.3, |r, _| {
        let (rows, cols) = (2 + r.below(40), 2 + r.below(40));
        let (ka, kb) = (kind(r), kind(r));
        let a = image_in(r, ka, rows, cols, 0, 120);
        let b = image_in(r, kb, rows, cols, 0, 120);
        let sum = Array2::from_shape_fn((rows, cols), |x| a[x] + b[x]);
        let dbl = a.mapv(|p| p * 2);
        let orders = if r.chance(0.3) { 46 } else { 22 };
        let order = r.below(orders);
        let index = order - 2 * r.below(order / 2 + 1);
        let cj = json!({"rows": rows, "cols": cols, "order": order, "index": index});
        let z = |i: &Array2<u8>| call(|| zernike::calc::calculate_zernike_image_moment(order, index, i));
        let (x, y, s, d) = match (z(&a), z(&b), z(&sum), z(&dbl)) {
            (Ok(x), Ok(y), Ok(s), Ok(d)) => (x, y, s, d),
            _ => return violated("panicked", cj),
        };
        let tol = 255. * (order as f64 + 1.) * (1e-10 + conditioning(order, index) * 1e-13);
        if !((x + y - s).norm() <= tol) || !((x * 2. - d).norm() <= tol) {
            return violated(format!("moments {x} and {y}, of the sum {s}, of the double {d}"), cj);
        }
        ctx.count("linear combinations compared", 2);
        held(format!("{cj}{x}").as_bytes(), true, cj)
    });
    ctx.drive("flat and symmetric", ctx.n(400, 4000), 0.2, |r, _| {
        let rows = 2 + r.below(60);
        let cols = (rows + 2 * r.below(10)).max(2);
        let most = if r.chance(0.2) { 20 } else { 11 };
        let n = 1 + r.below(most);
        let mut img = if r.chance(0.5) {
            Array2::from_elem((rows, cols), r.below(256) as u8)
        } else {
            // unchanged by half a turn
            let k = kind(r);
            let mut i = image_in(r, k, rows, cols, 0, 255);
            for a in 0..rows {
                for b in 0..cols {
                    i[[rows - 1 - a, cols - 1 - b]] = i[[a, b]];
                }
            }
            i
        };
        if r.chance(0.3) {
            img = rot90(&img);
        }
        let cj = json!({"rows": img.dim().0, "cols": img.dim().1, "amount": n});
        let f = match real_features(&img, n) {
            Ok(f) => f,
            Err(e) => return violated(format!("panicked: {e}"), cj),
        };
        if f.len() != n || f.iter().any(|x| !(x.abs() <= tolerance(n))) {
            return violated(format!("features of a picture without orientation: {f:?}"), cj);
        }
        ctx.count("symmetric pictures", 1);
        held(format!("{cj}{}", img[[0, 0]]).as_bytes(), true, cj)
    });
    // content matters: rearranged pictures do not collapse to one vector
    ctx.drive("sensitivity", ctx.n(400, 4000), 0.2, |r, _| {
        let n = 24 + r.below(30);
        let img = image_in(r, "noise", n, n, 0, 255);
        let mut other = img.clone();
        for p in other.slice_mut(ndarray::s![0..n / 2, 0..n / 2]).iter_mut() {
            *p = 255 - *p;
        }
        let amount = 3 + r.below(8);
        let cj = json!({"side": n, "amount": amount});
        let (f, g) = match (real_features(&img, amount), real_features(&other, amount)) {
            (Ok(f), Ok(g)) => (f, g),
            _ => return violated("panicked", cj),
        };
        let (wf, wg) = (m::features(&img, amount), m::features(&other, amount));
        let want: f64 = wf.iter().zip(&wg).map(|(a, b)| (a - b).abs()).sum();
        let got: f64 = f.iter().zip(&g).map(|(a, b)| (a - b).abs()).sum();
        if !((want - got).abs() <= 2. * amount as f64 * tolerance(amount)) {
            return violated(format!("features moved by {got}, should by {want}"), cj);
        }
        ctx.count("rearranged pictures", 1);
        held(format!("{cj}{want}").as_bytes(), want > 1e-3, cj)
    });
    ctx.require("rotations and reflections compared", 1000);
    ctx.require("linear combinations compared", 500);
    ctx.require("symmetric pictures", 100);
    ctx.finish(
        "One case = a picture and all its quarter turns, reflection, negative and brightness shifts; pairs of pictures with their sum and double; flat and point-symmetric pictures; real features compared with each other. Distinct by shape and features; trivial if the features vanish.",
        &["rectangles with an even difference of sides, so that the centre is a grid point of both orientations"],
    )
}
