//! C05 wavelet, C06 error correction, C07/C08 quantization, C09 records, C10 signatures, C21 byte codecs,
//! C23 numeric helpers, C25 coefficient carriers.
use crate::fw::*;
use crate::gen::layout;
use crate::refmodel as m;
use crate::rng::Rng;
use bitvec::prelude::*;
use ndarray::{s, Array2};
use serde_json::json;

fn coeff(r: &mut Rng, mode: usize) -> f64 {
    match mode {
        0 => r.range(0, 255) as f64,
        1 => r.float(-1., 1.) * 10f64.powf(r.float(-3., 6.)),
        2 => 0.,
        3 => r.range(-3000, 3000) as f64 * 0.125,
        _ => {
            if r.chance(0.05) {
                r.float(-1e4, 1e4)
            } else {
                0.
            }
        }
    }
}

// ------------------------------------------------------------------ C05

#[cfg(feature = "h_emb")]
pub fn c05(ctx: &Ctx) -> serde_json::Value {
    use embedding::monitor::dwt_2d;
    ctx.drive("transform", ctx.n(3000, 30000), 1.0, |r, _| {
        let levels = *r.pick(&[1usize, 1, 2, 2, 3, 3, 4, 4, 5, 6]);
        let most = if r.chance(0.05) { 600 } else { 190 } >> levels;
        let (br, bc) = (1 + r.below(most.max(1)), 1 + r.below(most.max(1)));
        let (rows, cols) = (br << levels, bc << levels);
        let mode = r.below(5);
        let x = Array2::from_shape_fn((rows, cols), |_| coeff(r, mode));
        let cj = json!({"rows": rows, "cols": cols, "levels": levels, "kind": mode});
        let x = layout(r, &x).0;
        let scale = x.iter().fold(1e-300f64, |a, v| a.max(v.abs()));
        let tol = scale * (1u64 << levels) as f64 * 1e-12;
        let t = match call(|| dwt_2d(x.clone(), levels, false)) {
            Ok(t) => t,
            Err(e) => return violated(format!("forward transform refused: {e}"), cj),
        };
        if t.dim() != x.dim() {
            return violated("forward transform changed the dimensions", cj);
        }
        // perfect reconstruction, both ways round
        let back = match call(|| dwt_2d(t.clone(), levels, true)) {
            Ok(t) => t,
            Err(e) => return violated(format!("inverse transform refused: {e}"), cj),
        };
        for ((i, j), v) in x.indexed_iter() {
            if !((back[[i, j]] - v).abs() <= tol) {
                return violated(format!("not restored at ({i},{j}): {v} became {}", back[[i, j]]), cj);
            }
        }
        let syn = match call(|| dwt_2d(x.clone(), levels, true)) {
            Ok(t) => t,
            Err(e) => return violated(format!("inverse transform refused: {e}"), cj),
        };
        let again = call(|| dwt_2d(syn.clone(), levels, false)).unwrap();
        for ((i, j), v) in x.indexed_iter() {
            if !((again[[i, j]] - v).abs() <= tol) {
                return violated(format!("inverse then forward differs at ({i},{j})"), cj);
            }
        }
        // energy
        let (ex, et): (f64, f64) = (x.iter().map(|v| v * v).sum(), t.iter().map(|v| v * v).sum());
        if !((ex - et).abs() <= 1e-9 * (ex + 1e-300)) {
            return violated(format!("energy {ex} became {et}"), cj);
        }
        // low band = scaled block sums; detail bands of the first level against the definition
        let size = 1usize << levels;
        for i in 0..br {
            for j in 0..bc {
                let mut sum = 0.;
                for a in 0..size {
                    for b in 0..size {
                        sum += x[[i * size + a, j * size + b]];
                    }
                }
                let want = sum / size as f64;
                if !((t[[i, j]] - want).abs() <= tol) {
                    return violated(format!("low band ({i},{j}) is {}, block sum gives {want}", t[[i, j]]), cj);
                }
            }
        }
        let (hr, hc) = (rows / 2, cols / 2);
        for i in 0..hr {
            for j in 0..hc {
                let (a, b, c, d) = (
                    x[[2 * i, 2 * j]],
                    x[[2 * i, 2 * j + 1]],
                    x[[2 * i + 1, 2 * j]],
                    x[[2 * i + 1, 2 * j + 1]],
                );
                for (v, w, n) in [
                    (t[[i, j + hc]], (a - b + c - d) / 2., "horizontal"),
                    (t[[i + hr, j]], (a + b - c - d) / 2., "vertical"),
                    (t[[i + hr, j + hc]], (a - b - c + d) / 2., "diagonal"),
                ] {
                    if !((v - w).abs() <= tol) {
                        return violated(format!("{n} detail ({i},{j}) is {v}, definition gives {w}"), cj);
                    }
                }
            }
        }
        // linearity
        let y = Array2::from_shape_fn((rows, cols), |_| coeff(r, mode));
        let k = r.float(-2., 2.);
        let lhs = call(|| dwt_2d(&x + &(&y * k), levels, false)).unwrap();
        let ty = call(|| dwt_2d(y.clone(), levels, false)).unwrap();
        let sy = y.iter().fold(scale, |a, v| a.max(v.abs()));
        for ((i, j), v) in lhs.indexed_iter() {
            if !((t[[i, j]] + k * ty[[i, j]] - v).abs() <= sy * (1u64 << levels) as f64 * 1e-11) {
                return violated("not linear", cj);
            }
        }
        if levels > 1 {
            // level by level
            let mut step = call(|| dwt_2d(x.clone(), 1, false)).unwrap();
            let low = step.slice(s![0..hr, 0..hc]).to_owned();
            let low = call(|| dwt_2d(low, levels - 1, false)).unwrap();
            step.slice_mut(s![0..hr, 0..hc]).assign(&low);
            for ((i, j), v) in step.indexed_iter() {
                if !((t[[i, j]] - v).abs() <= tol) {
                    return violated(format!("{levels} levels at once differ from level by level at ({i},{j})"), cj);
                }
            }
        }
        ctx.count("coefficients compared", (rows * cols) as u64);
        ctx.count(&format!("levels {levels}"), 1);
        held(format!("{cj}{}", x[[0, 0]]).as_bytes(), mode != 2, cj)
    });
    ctx.require("transform.held", 1000);
    ctx.finish(
        "One case = one matrix (pixels, wide-range reals, zeros, dyadics, sparse; rows, columns, reversed or stepped in memory) and level count (up to six): inverse(forward), forward(inverse), energy, low band against block sums, first-level details against the definition, linearity, levels one by one. Distinct by shape, kind and content; trivial if zero.",
        &["tolerance 1e-12 of the largest magnitude times 2^levels"],
    )
}

// ------------------------------------------------------------------ C25

#[cfg(feature = "h_emb")]
pub fn c25(ctx: &Ctx) -> serde_json::Value {
    use embedding::monitor::{get_capacity, read, write};
    ctx.drive("carriers", ctx.n(4000, 40000), 1.0, |r, _| {
        let (rows, cols) = match r.below(60) {
            0 => (1 + r.below(3), 1 + r.below(9000)),
            1 => (1 + r.below(9000), 1 + r.below(3)),
            // rarely more than 65536 carriers
            2 if r.chance(0.05) => {
                let any = (1 + r.below(700), 1 + r.below(700));
                *r.pick(&[(257, 257), any, (1, 66000), (70000, 1), (3, 30000), (256, 300)])
            }
            2 => (1 + r.below(160), 1 + r.below(160)),
            _ => (1 + r.below(20), 1 + r.below(20)),
        };
        if rows * cols > 65536 {
            ctx.count("bands of more than 65536 coefficients", 1);
        }
        let mode = r.below(5);
        let (or, oc) = (r.below(3), r.below(3));
        let full = Array2::from_shape_fn((rows + or + r.below(3), cols + oc + r.below(3)), |_| coeff(r, mode));
        let mut a = layout(r, &full).0;
        let depth = match r.below(3) {
            0 => r.float(1e-2, 10.),
            1 => r.range(1, 500) as f64,
            _ => 10f64.powf(r.float(-2., 4.)),
        };
        let cap = rows * cols / 8;
        let n = if r.chance(0.3) { cap } else { r.below(cap + 1) };
        let p = r.payload(n);
        let cj =
            json!({"domain": [rows, cols], "inside": full.dim(), "offset": [or, oc], "depth": depth, "bytes": n, "kind": mode});
        match call(|| get_capacity(rows, cols)) {
            Ok(c) if c == cap => (),
            Ok(c) => return violated(format!("capacity {c} instead of {cap}"), cj),
            Err(e) => return violated(format!("capacity: {e}"), cj),
        }
        {
            let mut v = a.slice_mut(s![or..or + rows, oc..oc + cols]);
            if let Err(e) = call(|| write(&mut v, p.clone(), depth)) {
                return violated(format!("writing {n} of {cap} bytes refused: {e}"), cj);
            }
        }
        let got = {
            let v = a.slice_mut(s![or..or + rows, oc..oc + cols]);
            match call(|| read(&v, depth)) {
                Ok(g) => g,
                Err(e) => return violated(format!("reading refused: {e}"), cj),
            }
        };
        if got.len() != cap {
            return violated(format!("{} bytes read from a domain of {cap}", got.len()), cj);
        }
        if got[..n] != p[..] {
            return violated("bytes read differ from bytes written", cj);
        }
        // every coefficient: moved to its lattice point, or untouched
        for ((i, j), v) in a.indexed_iter() {
            let c = full[[i, j]];
            let inside = i >= or && i < or + rows && j >= oc && j < oc + cols;
            let k = if inside { (i - or) * cols + (j - oc) } else { usize::MAX };
            if k >= n * 8 {
                if *v != c {
                    return violated(format!("coefficient ({i},{j}) outside the data changed from {c} to {v}"), cj);
                }
                continue;
            }
            let q = if p[k / 8] >> (k % 8) & 1 == 1 { 0.25 } else { -0.25 };
            let x = c / depth;
            let tol = 1e-9 * (depth + c.abs());
            let ok = [x.floor(), x.floor() + 1.]
                .iter()
                .any(|b| (x - b).abs() <= 0.5 + 1e-9 && (depth * (b + q) - v).abs() <= tol);
            if !ok {
                return violated(
                    format!(
                        "coefficient ({i},{j}) = {c} with bit {} became {v} (depth {depth})",
                        (q > 0.) as u8
                    ),
                    cj,
                );
            }
            if (v - c).abs() > 0.75 * depth + tol {
                return violated(format!("coefficient ({i},{j}) moved by {}", v - c), cj);
            }
        }
        // tolerance: less than a quarter of the depth either way does not change what is read
        {
            let mut v = a.slice_mut(s![or..or + rows, oc..oc + cols]);
            let t = 0.25 * (1. - 1e-6);
            v.mapv_inplace(|x| x + depth * if r.chance(0.5) { t } else { r.float(-t, t) } * if r.chance(0.5) { 1. } else { -1. });
            let biggest = v.iter().fold(0f64, |m, x| m.max(x.abs()));
            if biggest / depth < 1e8 {
                match call(|| read(&v, depth)) {
                    Ok(g) if g[..n] == p[..] => ctx.count("disturbed domains read", 1),
                    Ok(_) => return violated("less than a quarter depth of disturbance changed the bytes read", cj),
                    Err(e) => return violated(format!("reading refused: {e}"), cj),
                }
            }
        }
        // one byte too many
        {
            let mut v = a.slice_mut(s![or..or + rows, oc..oc + cols]);
            if call(|| write(&mut v, vec![0; cap + 1 + r.below(3)], depth)).is_ok() {
                return violated("more bytes than carriers accepted", cj);
            }
        }
        ctx.count("carriers compared", (n * 8) as u64);
        held(format!("{cj}").as_bytes(), n > 0, cj)
    });
    ctx.require("carriers.held", 1000);
    ctx.require("bands of more than 65536 coefficients", 5);
    ctx.require("disturbed domains read", 500);
    ctx.finish(
        "One case = one rectangular window (possibly inside a larger matrix) of real coefficients, one depth and byte string: written, compared coefficient by coefficient with the lattice rule, read, disturbed by under a quarter depth and read again. Distinct by window, depth, bytes; trivial without bytes.",
        &["lattice tolerance 1e-9 of depth plus magnitude"],
    )
}

// ------------------------------------------------------------------ C06

const DOMAINS: [usize; 16] = [9, 10, 15, 16, 17, 31, 32, 33, 64, 100, 128, 256, 512, 1000, 1024, 1953];

pub fn c06(ctx: &Ctx) -> serde_json::Value {
    let domain = |r: &mut Rng| {
        if r.chance(0.6) {
            *r.pick(&DOMAINS)
        } else {
            9 + r.below(3000)
        }
    };
    ctx.drive("round trip", ctx.n(6000, 60000), 0.35, |r, k| {
        let cap = if k < 3000 { 9 + k as usize % 1500 } else { domain(r) };
        let n = match r.below(6) {
            0 => r.below(4),
            1 => {
                let w = m::code_for(cap).map(|c| c.k() / 8).unwrap_or(16);
                (w * (1 + r.below(4))).saturating_sub(r.below(5))
            }
            2 => r.below(5000),
            _ => r.below(cap + 1),
        };
        let p = r.payload(n);
        let cj = json!({"domain": cap, "message": n});
        let mut e = match call(|| encoding::encode(p.clone(), cap)) {
            Ok(e) => e,
            Err(x) => return violated(format!("encoding refused: {x}"), cj),
        };
        if e.len() != m::coded_len(n, cap) {
            return violated(format!("coded length {} instead of {}", e.len(), m::coded_len(n, cap)), cj);
        }
        // whatever follows in the domain does not matter
        let tail = match r.below(4) {
            0 => 0,
            1 => r.below(16),
            2 => r.below(300),
            _ => cap.saturating_sub(e.len()),
        };
        let junk = r.payload(tail);
        e.extend(junk);
        match call(|| encoding::decode(e, cap)) {
            Ok(b) if b == p => (),
            Ok(b) => return violated(format!("decoded {} bytes, encoded {n}; or other content", b.len()), cj),
            Err(x) => return violated(format!("decoding failed: {x}"), cj),
        }
        ctx.count("bytes compared", n as u64);
        if tail > 0 {
            ctx.count("with trailing junk", 1);
        }
        held(format!("{cap}/{n}/{tail}").as_bytes(), n > 0, cj)
    });
    // all one- and two-bit errors in the small codes, in turn
    let exhaustive = |name: &'static str, cap: usize, bits: usize, pairs: u64, share: f64| {
        let total = (bits * (bits + 1) / 2) as u64;
        let chunk = 64u64;
        let limit = pairs.min(total);
        let stride = (total / limit).max(1);
        ctx.drive(name, (limit + chunk - 1) / chunk, share, |r, k| {
            let kk = m::code_for(cap).unwrap().k() / 8;
            let p = r.bytes(kk - 2);
            let cj = json!({"domain": cap, "word": kk});
            let e = match call(|| encoding::encode(p.clone(), cap)) {
                Ok(e) => e,
                Err(x) => return violated(format!("encoding refused: {x}"), cj),
            };
            if e.len() * 8 != bits {
                return violated(format!("codeword of {} bytes", e.len()), cj);
            }
            for q in k * chunk..((k + 1) * chunk).min(limit) {
                // q-th pair (a <= b); a == b is a single error
                let idx = (q * stride + if stride > 1 { r.below(stride as usize) as u64 } else { 0 }).min(total - 1);
                let mut b = ((((8 * idx + 1) as f64).sqrt() - 1.) / 2.) as u64;
                while b * (b + 1) / 2 > idx {
                    b -= 1;
                }
                while (b + 1) * (b + 2) / 2 <= idx {
                    b += 1;
                }
                let a = idx - b * (b + 1) / 2;
                let mut d = e.clone();
                d[a as usize / 8] ^= 1 << (a % 8);
                if a != b {
                    d[b as usize / 8] ^= 1 << (b % 8);
                }
                match call(|| encoding::decode(d, cap)) {
                    Ok(x) if x == p => (),
                    _ => return violated(format!("bits {a} and {b} of the codeword flipped: not corrected"), cj),
                }
                ctx.count(&format!("{name} patterns"), 1);
            }
            held(format!("{name}{k}").as_bytes(), true, cj)
        });
    };
    exhaustive("two errors, 128-bit code", 16, 128, u64::MAX, 0.1);
    exhaustive("two errors, 256-bit code", 32, 256, u64::MAX, 0.1);
    exhaustive(
        "two errors, 512-bit code",
        64,
        512,
        if ctx.thorough { u64::MAX } else { 12000 },
        0.2,
    );
    exhaustive(
        "two errors, 2048-bit code",
        256,
        2048,
        if ctx.thorough { 60000 } else { 2500 },
        0.2,
    );
    exhaustive(
        "two errors, 8192-bit code",
        1024,
        8192,
        if ctx.thorough { 6000 } else { 300 },
        0.2,
    );
    // words of nearly one value, and the errors on just the bits that differ: words that turn blank, full or alike
    ctx.drive("errors on sparse words", ctx.n(3000, 30000), 0.15, |r, _| {
        let cap = *r.pick(&[16usize, 32, 64, 128, 256, 512, 1024, 1500]);
        let code = m::code_for(cap).unwrap();
        let (kb, nb) = (code.k() / 8, code.n() / 8);
        let words = 1 + r.below(if nb > 200 { 3 } else { 6 });
        let mut p = vec![];
        for w in 0..words {
            let base = *r.pick(&[0u8, 0, 0, 255, 255, 0x55, 0x0f]);
            let mut word = vec![base; if w == 0 { kb - 2 } else { kb }];
            for _ in 0..r.below(4) {
                let b = if r.chance(0.3) {
                    *r.pick(&[0, word.len() * 8 - 1, 7, 8])
                } else {
                    r.below(word.len() * 8)
                };
                word[b / 8] ^= 1 << (b % 8);
            }
            if w > 1 && r.chance(0.2) {
                word = p[p.len() - kb..].to_vec();
            }
            p.extend(word);
        }
        p.truncate(p.len() - if r.chance(0.5) { 0 } else { r.below(kb - 2) });
        let cj = json!({"domain": cap, "message": p.len(), "words": words});
        let e = match call(|| encoding::encode(p.clone(), cap)) {
            Ok(e) => e,
            Err(x) => return violated(format!("encoding refused: {x}"), cj),
        };
        let mut d = e.clone();
        let mut flips = 0;
        for w in 0..e.len() / nb {
            let at = |b: usize| e[w * nb + b / 8] >> (b % 8) & 1;
            let ones = (0..kb * 8).filter(|b| at(*b) == 1).count();
            let rare = (ones * 2 <= kb * 8) as u8;
            let rare: Vec<usize> = (0..kb * 8).filter(|b| at(*b) == rare).collect();
            let mut chosen = vec![];
            let amount = if r.chance(0.2) { 1 } else { 2 };
            while chosen.len() < amount {
                let b = if !rare.is_empty() && r.chance(0.8) {
                    *r.pick(&rare)
                } else if r.chance(0.3) {
                    *r.pick(&[0, kb * 8 - 1, kb * 8, nb * 8 - 1])
                } else {
                    r.below(nb * 8)
                };
                if chosen.contains(&b) {
                    if rare.len() == 1 {
                        break;
                    }
                    continue;
                }
                chosen.push(b);
            }
            for b in chosen {
                d[w * nb + b / 8] ^= 1 << (b % 8);
                flips += 1;
            }
            if d[w * nb..w * nb + kb].iter().all(|x| *x == d[w * nb]) {
                ctx.count("words received as constant", 1);
            }
        }
        match call(|| encoding::decode(d.clone(), cap)) {
            Ok(x) if x == p => (),
            Ok(_) => return violated("one or two errors per word of a sparse message not corrected", cj),
            Err(x) => return violated(format!("decoding failed: {x}"), cj),
        }
        ctx.count("errors on sparse words", flips);
        held(&d, true, cj)
    });
    // more errors: at least as good as the trusted decoder
    ctx.drive("many errors", ctx.n(1500, 15000), 0.3, |r, _| {
        let cap = *r.pick(&[16usize, 32, 64, 128, 256, 512, 1024, 1500]);
        let code = m::code_for(cap).unwrap();
        let (kb, nb) = (code.k() / 8, code.n() / 8);
        let words = 1 + r.below(if nb > 200 { 2 } else { 4 });
        let n = (words * kb - 2).saturating_sub(r.below(kb));
        let p = r.payload(n);
        let cj0 = json!({"domain": cap, "message": n});
        let mut e = match call(|| encoding::encode(p.clone(), cap)) {
            Ok(e) => e,
            Err(x) => return violated(format!("encoding refused: {x}"), cj0),
        };
        let weight = match nb {
            16 => 5,
            32 => 7,
            64 => 14,
            256 => 40,
            _ => 90,
        };
        let mut flips = 0;
        for w in 0..e.len() / nb {
            for _ in 0..r.below(weight) {
                let b = r.below(nb * 8);
                e[w * nb + b / 8] ^= 1 << (b % 8);
                flips += 1;
            }
        }
        let cj = json!({"case": cj0, "flips": flips});
        let trusted = m::decode(&e, cap);
        let got = call(|| encoding::decode(e.clone(), cap));
        match (trusted, got) {
            (Some(t), Ok(g)) if t == p => {
                if g != p {
                    return violated("errors that twenty rounds of bit flipping correct were not corrected", cj);
                }
                ctx.count("corrected", 1);
            }
            (Some(t), Err(x)) if t == p => return violated(format!("decoding failed: {x}"), cj),
            (_, Err(x)) => return violated(format!("damaged words make decoding panic: {x}"), cj),
            _ => ctx.count("beyond correction", 1),
        }
        held(format!("{cap}{n}{flips}{:?}", &e[..8]).as_bytes(), flips > 0, cj)
    });
    // anything of at least one codeword (two bytes when uncoded) decodes to something no longer than itself
    ctx.drive("garbage", ctx.n(1500, 15000), 0.2, |r, _| {
        let cap = domain(r);
        let b = r.payload(cap);
        let cj = json!({"domain": cap});
        let least = m::code_for(cap).map(|c| c.n() / 8).unwrap_or(2);
        if b.len() < least {
            return held(&[0], false, cj);
        }
        match call(|| encoding::decode(b.clone(), cap)) {
            Ok(x) if x.len() <= cap => {
                ctx.count("garbage decoded", 1);
                held(&b, true, cj)
            }
            Ok(x) => violated(format!("{} bytes out of a domain of {cap}", x.len()), cj),
            Err(e) => violated(format!("garbage makes decoding panic: {e}"), cj),
        }
    });
    ctx.drive("limit", ctx.n(24, 96), 0.1, |r, k| {
        let n = [65534usize, 65535, 65536, 65537, 65538, 70000, 131071, 131072][k as usize % 8];
        let cap = [16usize, 64, 100, 256, 9000, 70000, 140000][r.below(7)];
        let p = r.bytes(n);
        let cj = json!({"domain": cap, "message": n});
        match call(|| encoding::encode(p.clone(), cap)) {
            Ok(e) => {
                if n > 65535 {
                    return violated("a message longer than its header can say was encoded", cj);
                }
                match call(|| encoding::decode(e, cap)) {
                    Ok(b) if b == p => (),
                    _ => return violated("long message not restored", cj),
                }
                ctx.count("long messages", 1);
            }
            Err(x) => {
                if n <= 65535 {
                    return violated(format!("encoding refused: {x}"), cj);
                }
                ctx.count("over-long messages refused", 1);
            }
        }
        held(format!("{n}{cap}").as_bytes(), true, cj)
    });
    ctx.require("round trip.held", 2000);
    ctx.require("corrected", 300);
    ctx.require("words received as constant", 1000);
    ctx.require("two errors, 128-bit code patterns", 8256);
    ctx.require("garbage decoded", 300);
    ctx.finish(
        "Messages over all domain sizes with arbitrary trailing bytes; every one- and two-bit error of the 128- and 256-bit codes (and sampled pairs of the longer ones); heavier damage compared with labrador-ldpc's decoder run by the check itself; garbage domains. Distinct by domain, length, damage.",
        &["labrador-ldpc is trusted as the reference decoder", "the framing's choice of code by domain size is part of the format"],
    )
}

// ------------------------------------------------------------------ C07 / C08

fn feature(r: &mut Rng, step: f64) -> f64 {
    let c = match r.below(6) {
        0 => r.range(-3, 12) as f64,
        1 => r.range(0, 100000) as f64,
        2 => r.range(-100000, 100000) as f64,
        _ => r.range(0, 300) as f64,
    };
    let x = match r.below(7) {
        0 => c,
        1 => c + 0.5,
        2 => c + r.float(-1e-9, 1e-9),
        3 => c + 0.5 + r.float(-1e-9, 1e-9),
        4 => c + if r.chance(0.5) { 0.25 } else { 0.75 },
        _ => c + r.unit(),
    };
    match r.below(40) {
        0 => 0.,
        1 => step * 1e-17,
        2 => -step * 1e-17,
        _ => x * step,
    }
}

/// A feature far out, in steps that divide without rounding.
fn far_feature(r: &mut Rng, step: f64) -> f64 {
    let bits = r.below(49);
    let c = r.below(1 << bits) as f64 * if r.chance(0.5) { 1. } else { -1. };
    (c + *r.pick(&[0., 0., 0.5, 0.25, 0.75, 0.4375, 0.5625])) * step
}

/// A power of two: dividing by it and multiplying with it does not round.
fn exact_step(r: &mut Rng) -> f64 {
    2f64.powi(r.range(-30, 12) as i32)
}

fn a_step(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => 1.,
        1 => [0.1, 0.5, 2., 3., 0.01, 10., 0.3][r.below(7)],
        _ => 10f64.powf(r.float(-6., 5.)),
    }
}

pub fn c07(ctx: &Ctx) -> serde_json::Value {
    use three_bit_quantization::{three_bit_dequantization, three_bit_quantization};
    ctx.drive("undone", ctx.n(60000, 600000), 1.0, |r, _| {
        let n = if r.chance(0.003) { 1 + r.below(3000) } else { 1 + r.below(30) };
        // steps that are powers of two, features of sixteenths of a step and shifts of sixteenths: nothing is rounded,
        // so that features may lie far out
        let exact = r.chance(0.3);
        let step = if exact { exact_step(r) } else { a_step(r) };
        let f: Vec<f64> = (0..n)
            .map(|_| if exact { far_feature(r, step) } else { feature(r, step) })
            .collect();
        let cj = json!({"features": f, "step": step});
        let (q, bits) = match call(|| three_bit_quantization(&f, step)) {
            Ok(x) => x,
            Err(e) => return violated(format!("quantization panicked: {e}"), cj),
        };
        for round in 0..3 {
            let lim = 1. - 1e-6;
            let g: Vec<f64> = f
                .iter()
                .map(|f| {
                    let t = match (round, r.below(6)) {
                        (0, _) => 0.,
                        _ if exact => r.range(-15, 15) as f64 / 16.,
                        (_, 0) => lim,
                        (_, 1) => -lim,
                        (_, 2) => 0.5,
                        (_, 3) => -0.5,
                        (_, 4) => r.float(-1e-9, 1e-9),
                        _ => r.float(-lim, lim),
                    };
                    f + t * step
                })
                .collect();
            match call(|| three_bit_dequantization(&g, &bits, step)) {
                Ok(x) if x == q => (),
                Ok(x) => {
                    return violated(
                        "noise below one step was not undone",
                        json!({"case": cj, "received": g, "restored": x, "original": q}),
                    )
                }
                Err(e) => return violated(format!("restoring panicked: {e}"), json!({"case": cj, "received": g})),
            }
            ctx.count("features restored", n as u64);
        }
        held(format!("{:?}{step}", f).as_bytes(), true, cj)
    });
    ctx.require("undone.held", 10000);
    ctx.finish(
        "One case = a vector of 1-30 features (boundaries, half cells, one-ulp neighbourhoods, negatives, 1e-17 of a step) and a step over eleven decades; quantized, disturbed three times by up to one step less one part in 1e6, restored. Distinct by features and step.",
        &["|feature| / step up to 1e5, so that floating-point error stays below the excluded millionth; up to 2^48 where the step divides without rounding"],
    )
}

pub fn c08(ctx: &Ctx) -> serde_json::Value {
    use three_bit_quantization::{three_bit_dequantization, three_bit_quantization};
    ctx.drive("definition", ctx.n(60000, 600000), 0.5, |r, _| {
        let n = if r.chance(0.003) { 1 + r.below(3000) } else { 1 + r.below(30) };
        // steps that are powers of two divide and multiply without rounding: there everything is judged exactly
        let exact = r.chance(0.4);
        let step = if exact {
            exact_step(r)
        } else {
            a_step(r)
        };
        let far = exact && r.chance(0.5);
        let f: Vec<f64> = (0..n)
            .map(|_| if far { far_feature(r, step) } else { feature(r, step) })
            .collect();
        let cj = json!({"features": f, "step": step});
        let (q, bits) = match call(|| three_bit_quantization(&f, step)) {
            Ok(x) => x,
            Err(e) => return violated(format!("quantization panicked: {e}"), cj),
        };
        if q.len() != n || bits.len() != 3 * n {
            return violated(format!("{} cells and {} bits for {n} features", q.len(), bits.len()), cj);
        }
        for i in 0..n {
            let x = f[i] / step;
            // the cell holds the feature
            let c = q[i] as f64;
            // whole numbers of steps divide without rounding, too
            let whole = (-x.round()).mul_add(step, f[i]) == 0.;
            let eps = if exact || whole { 0. } else { 1e-14 * (1. + x.abs()) };
            if exact || whole {
                if x.floor() != c {
                    return violated(format!("feature {x} steps (exactly) in cell {}", q[i]), cj);
                }
                ctx.count("features judged exactly", 1);
            } else if !(x >= c - eps && x < c + 1. + eps) {
                return violated(format!("feature {x} steps in cell {}", q[i]), cj);
            }
            let mm = (q[i] - 1).rem_euclid(4);
            if bits[3 * i] != (mm & 2 != 0) || bits[3 * i + 1] != (mm & 1 != 0) {
                return violated(
                    format!("cell {} recorded as {}{}", q[i], bits[3 * i] as u8, bits[3 * i + 1] as u8),
                    cj,
                );
            }
            if (exact || (x - c - 0.5).abs() > eps) && bits[3 * i + 2] != (x - c >= 0.5) {
                return violated(format!("feature {x} steps: wrong half of cell {} recorded", q[i]), cj);
            }
        }
        ctx.count("features checked", n as u64);
        held(format!("{:?}{step}", f).as_bytes(), true, cj)
    });
    ctx.drive("locality", ctx.n(60000, 600000), 0.5, |r, _| {
        let n = if r.chance(0.003) { 1 + r.below(3000) } else { 1 + r.below(30) };
        let exact = r.chance(0.3);
        let step = if exact { exact_step(r) } else { a_step(r) };
        let f: Vec<f64> = (0..n)
            .map(|_| if exact { far_feature(r, step) } else { feature(r, step) })
            .collect();
        let cj = json!({"features": f, "step": step});
        let (q, bits) = call(|| three_bit_quantization(&f, step)).unwrap_or((vec![], bitvec![u8, Lsb0;]));
        if q.len() != n || bits.len() != 3 * n {
            return violated("quantization failed", cj);
        }
        // an unrelated, shifted, or near vector, with the right or arbitrary bits
        let mode = r.below(3);
        let bits = if mode == 2 {
            (0..3 * n).map(|_| r.chance(0.5)).collect::<BitVec<u8, Lsb0>>()
        } else {
            bits
        };
        let t: Vec<f64> = f
            .iter()
            .map(|_| match r.below(4) {
                _ if exact => {
                    let far = *r.pick(&[10i64, 40, 400, 1 << 30]);
                    r.range(25, 25 + far) as f64 / 16.
                }
                0 => 1.5 + 1e-6,
                1 => r.float(1.5001, 2.2),
                2 => r.float(2., 10.),
                _ => r.float(1.5001, 1e4),
            } * if r.chance(0.5) { 1. } else { -1. })
            .collect();
        let g: Vec<f64> = f.iter().zip(&t).map(|(f, t)| f + t * step).collect();
        let detail = || json!({"case": cj, "received": g, "bits": bits.iter().map(|b| *b as u8).collect::<Vec<_>>()});
        let x = match call(|| three_bit_dequantization(&g, &bits, step)) {
            Ok(x) => x,
            Err(e) => return violated(format!("restoring panicked: {e}"), detail()),
        };
        if x.len() != n {
            return violated(format!("{} cells restored for {n} features", x.len()), detail());
        }
        for i in 0..n {
            let here = m::cell(g[i], step);
            let near = !exact && m::boundary_distance(g[i], step) < 1e-9 * (1. + (g[i] / step).abs());
            if (x[i] - here).abs() > 1 + near as i64 {
                return violated(format!("received cell {here} was moved to {}", x[i]), detail());
            }
            if mode != 2 && x[i] == q[i] && (exact || m::boundary_distance(f[i], step) > 1e-6) {
                return violated(
                    format!("a shift of {} steps was restored as if it were noise", t[i]),
                    detail(),
                );
            }
            if !near {
                let want = m::restore(g[i], &[bits[3 * i], bits[3 * i + 1], bits[3 * i + 2]], step);
                if x[i] != want {
                    return violated(
                        format!("received {} steps restored to {} instead of {want}", g[i] / step, x[i]),
                        detail(),
                    );
                }
            }
        }
        ctx.count("shifted features", n as u64);
        held(format!("{:?}{:?}{step}", f, g).as_bytes(), true, cj)
    });
    ctx.require("definition.held", 10000);
    ctx.require("features judged exactly", 10000);
    ctx.require("locality.held", 10000);
    ctx.finish(
        "Definition: cells and the three bits of 1-30 features against the stated rule. Locality: features shifted by more than 1.5 steps, with the right or arbitrary bits; restored cells against the rule. Distinct by features, received values, step.",
        &["features within 1e-14 of a cell or half-cell boundary (1e-9 when restored) are judged with that tolerance, unless the step divides without rounding"],
    )
}

// ------------------------------------------------------------------ C09

pub fn c09(ctx: &Ctx) -> serde_json::Value {
    use three_bit_quantization::{perturbation_vector_as_bytes, perturbation_vector_from_bytes};
    ctx.drive("bit vectors", ctx.n(60000, 600000), 0.3, |r, k| {
        let n = if k < 300 { k as usize } else { r.below(400) };
        let bools: Vec<bool> = match r.below(4) {
            0 => vec![true; n],
            1 => vec![false; n],
            _ => (0..n).map(|_| r.chance(0.5)).collect(),
        };
        // vectors whose storage starts in the middle of a byte, or has stale bits beyond its end
        let mode = r.below(4);
        let bits: BitVec<u8, Lsb0> = match mode {
            0 => {
                let off = r.below(20);
                let mut b: BitVec<u8, Lsb0> = (0..off).map(|_| r.chance(0.5)).collect();
                b.extend(bools.iter());
                b.extend((0..r.below(12)).map(|_| true));
                b[off..off + n].to_bitvec()
            }
            1 => {
                let mut b: BitVec<u8, Lsb0> = bools.iter().collect();
                b.extend((0..r.below(20)).map(|_| true));
                b.truncate(n);
                b
            }
            _ => bools.iter().collect(),
        };
        let cj = json!({"bits": n, "mode": mode});
        let bytes = match call(|| perturbation_vector_as_bytes(&bits)) {
            Ok(b) => b,
            Err(e) => return violated(format!("writing bits panicked: {e}"), cj),
        };
        let mut want = vec![0u8; (n + 7) / 8];
        for (i, b) in bools.iter().enumerate() {
            want[i / 8] |= (*b as u8) << (i % 8);
        }
        if bytes != want {
            return violated(format!("bits written as {bytes:02x?} instead of {want:02x?}"), cj);
        }
        let mut longer = bytes.clone();
        if r.chance(0.3) {
            longer.extend(r.bytes(3));
        }
        match call(|| perturbation_vector_from_bytes(&longer, n)) {
            Ok(b) if b.iter().by_vals().eq(bools.iter().cloned()) => (),
            Ok(b) => return violated(format!("bits read back differ ({} of {n})", b.len()), cj),
            Err(e) => return violated(format!("reading bits panicked: {e}"), cj),
        }
        ctx.count("bits compared", n as u64);
        held(&want, n > 0, cj)
    });
    #[cfg(feature = "h_wm")]
    {
        use watermarking::monitor::{deserialize, Watermark};
        let text = |r: &mut Rng, bytes: usize| -> String {
            let mut s = String::new();
            let alphabet = ['a', ' ', 'é', '水', '😀', '\0', '\n', 'Z'];
            let plain = r.chance(0.4);
            while s.len() < bytes {
                let c = if plain { 'x' } else { *r.pick(&alphabet) };
                if s.len() + c.len_utf8() > bytes {
                    s.push('.');
                } else {
                    s.push(c);
                }
            }
            s
        };
        ctx.drive("records", ctx.n(40000, 400000), 0.5, |r, _| {
            let len = |r: &mut Rng| match r.below(5) {
                0 => 0,
                1 => 255,
                2 => 254,
                _ => r.below(256),
            };
            let (np, ns, nt) = (len(r), if r.chance(0.5) { 64 } else { len(r) }, len(r));
            let rec = m::Record {
                perturbation: (0..np).map(|_| r.chance(0.5)).collect(),
                signature: r.payload(ns),
                text: text(r, nt),
            };
            let w = Watermark {
                perturbation_vector: rec.perturbation.iter().collect(),
                signature: rec.signature.clone(),
                text: rec.text.clone(),
            };
            let cj = json!({"bits": np, "signature": ns, "text": nt});
            let b = match call(|| w.serialize()) {
                Ok(b) => b,
                Err(e) => return violated(format!("a record within the limits was refused: {e}"), cj),
            };
            if b != m::write_record(&rec) {
                return violated("record bytes differ from the format", cj);
            }
            let mut longer = b.clone();
            if r.chance(0.3) {
                longer.extend(r.bytes(5));
            }
            match call(|| deserialize(&longer)) {
                Ok(x) if x == w => (),
                Ok(_) => return violated("record read back differs", cj),
                Err(e) => return violated(format!("own record not readable: {e}"), cj),
            }
            ctx.count("records compared", 1);
            held(&b, true, cj)
        });
        ctx.drive("record limits", ctx.n(300, 3000), 0.05, |r, _| {
            let which = r.below(3);
            let over = 256 + r.below(600);
            let (np, ns, nt) = (
                if which == 0 { over } else { 33 },
                if which == 1 { over } else { 64 },
                if which == 2 { over } else { 12 },
            );
            let w = Watermark {
                perturbation_vector: (0..np).map(|_| r.chance(0.5)).collect(),
                signature: r.bytes(ns),
                text: text(r, nt),
            };
            let cj = json!({"bits": np, "signature": ns, "text": nt});
            if let Ok(b) = call(|| w.serialize()) {
                // accepting is fine only if it is readable again
                if call(|| deserialize(&b)).ok() != Some(w) {
                    return violated("a record beyond the length bytes was written and lost", cj);
                }
            }
            ctx.count("over-long records refused", 1);
            held(format!("{cj}").as_bytes(), true, cj)
        });
    }
    #[cfg(feature = "h_emb")]
    {
        use embedding::monitor::{deserialize, Data};
        ctx.drive("payload header", ctx.n(20000, 200000), 0.2, |r, k| {
            let n = match k {
                0..=300 => k as usize,
                301..=340 => *r.pick(&[65533, 65534, 65535, 32767, 32768, 255, 256, 257]),
                _ => r.below(1200),
            };
            let p = r.payload(n);
            let cj = json!({"payload": n});
            let b = match call(|| Data { bytes: p.clone() }.serialize()) {
                Ok(b) => b,
                Err(e) => return violated(format!("payload refused: {e}"), cj),
            };
            if b != m::wrap_payload(&p) {
                return violated("payload bytes differ from the format", cj);
            }
            let mut longer = b;
            if r.chance(0.5) {
                longer.extend(r.bytes(9));
            }
            match call(|| deserialize(&longer)) {
                Ok(d) if d.bytes == p => (),
                Ok(_) => return violated("payload read back differs", cj),
                Err(e) => return violated(format!("own payload not readable: {e}"), cj),
            }
            ctx.count("payloads compared", 1);
            held(&p, n > 0, cj)
        });
        ctx.drive("payload limit", ctx.n(20, 100), 0.05, |r, _| {
            let n = 65536 + r.below(3000);
            let cj = json!({"payload": n});
            if let Ok(b) = call(|| Data { bytes: vec![1; n] }.serialize()) {
                if call(|| deserialize(&b).bytes.len()).ok() != Some(n) {
                    return violated("a payload beyond the length header was written and lost", cj);
                }
            }
            ctx.count("over-long payloads refused", 1);
            held(&n.to_le_bytes(), true, cj)
        });
    }
    ctx.require("bit vectors.held", 10000);
    ctx.require("records compared", 5000);
    ctx.require("payloads compared", 5000);
    ctx.finish(
        "Bit vectors of every length 0-299 and random ones up to 400 (offset storage, stale bits, trailing bytes), records over all length combinations with multi-byte text, payload headers of every length 0-300 and around 65535; written, compared with the format, read back. Distinct by content.",
        &["record and payload layout as stated in the property"],
    )
}
