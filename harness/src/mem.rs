//! C24: hostile input of every kind, with no judgement of results: a refusal (panic caught per call) is right, and
//! what counts is what the sanitizers and the operating system report about the process.
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use bitvec::prelude::{BitVec, Lsb0};
use image::DynamicImage;
use image_features::{calculate_features, feature_types::FeaturesType};
use ndarray::Array2;
use serde_json::{json, Value};
use std::sync::Barrier;

fn tiny() -> bool {
    std::env::var("SIAVP_TINY").is_ok()
}

/// The checksum keeps every byte of a result read, so that uninitialized ones are noticed.
fn digest(b: &[u8]) -> u64 {
    let mut odd = 0u64;
    for x in b {
        if *x & 1 == 1 {
            odd += 1;
        }
        odd = odd.wrapping_mul(31).wrapping_add(*x as u64);
    }
    odd
}

struct Seen {
    ok: u64,
    refused: u64,
    sum: u64,
}

impl Seen {
    fn new() -> Self {
        Seen {
            ok: 0,
            refused: 0,
            sum: 0,
        }
    }
    fn run(&mut self, f: impl FnOnce() -> Vec<u8>) {
        match call(f) {
            Ok(b) => {
                self.ok += 1;
                self.sum ^= digest(&b);
            }
            Err(_) => self.refused += 1,
        }
    }
    fn done(self, ctx: &Ctx, what: &str, cj: Value) -> Outcome {
        ctx.count("calls that returned", self.ok);
        ctx.count("calls refused", self.refused);
        ctx.count(&format!("{what}: returned"), self.ok);
        ctx.count(&format!("{what}: refused"), self.refused);
        let mut key = cj.to_string().into_bytes();
        key.extend(self.sum.to_le_bytes());
        held(&key, true, cj)
    }
}

fn floats(r: &mut Rng, n: usize) -> Vec<f64> {
    (0..n)
        .map(|_| match r.below(12) {
            0 => f64::NAN,
            1 => f64::INFINITY,
            2 => -1e300,
            3 => -0.0,
            4 => r.float(-3., 0.),
            5 => 9.3e18,
            _ => r.float(0., 300.),
        })
        .collect()
}

fn f64s(v: &[f64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_bits().to_le_bytes()).collect()
}

fn bits(r: &mut Rng, n: usize) -> BitVec<u8, Lsb0> {
    // stale bits behind the end, and a start inside a byte
    let head = r.below(8);
    let mut b: BitVec<u8, Lsb0> = BitVec::new();
    for _ in 0..head + n + 9 {
        b.push(r.chance(0.5));
    }
    let mut b = if r.chance(0.3) { b[head..].to_bitvec() } else { b };
    b.truncate(n);
    b
}

fn hexes(r: &mut Rng, tail: usize) -> String {
    match r.below(6) {
        0 => {
            let pool: Vec<char> = "0f+-é\u{1F600}gG ٣\0a".chars().collect();
            let n = r.below(80);
            (0..n).map(|_| *r.pick(&pool)).collect()
        }
        1 => r.bytes(tail).iter().map(|x| format!("{x:02X}")).collect(),
        2 => {
            let mut s: String = r.bytes(tail).iter().map(|x| format!("{x:02x}")).collect();
            s.pop();
            s
        }
        3 => {
            let n = r.below(2 * tail);
            r.bytes(n).iter().map(|x| format!("{x:02x}")).collect()
        }
        4 => crate::refmodel::PUBLIC_KEY.iter().map(|x| format!("{x:02x}")).collect(),
        _ => r.bytes(tail).iter().map(|x| format!("{x:02x}")).collect(),
    }
}

fn dims(r: &mut Rng, max: usize) -> (usize, usize) {
    match r.below(8) {
        0 => (r.below(4), r.below(max)),
        1 => (1 + r.below(max), 1 + r.below(3)),
        2 => {
            let s = 8 * (1 + r.below(max / 8));
            (s, s)
        }
        3 => (8 * (1 + r.below(max / 8)), 8 * (1 + r.below(max / 8))),
        4 => (
            8 * (1 + r.below(max / 8)) + r.below(8),
            8 * (1 + r.below(max / 8)) + r.below(8),
        ),
        _ => (1 + r.below(max), 1 + r.below(max)),
    }
}

fn picture(r: &mut Rng, rows: usize, cols: usize) -> Array2<u8> {
    if rows == 0 || cols == 0 {
        return Array2::zeros((rows, cols));
    }
    let kd = kind(r);
    image_in(r, kd, rows, cols, 0, 255)
}

/// column-major storage, or a reversed or cropped view made owned
fn relaid(r: &mut Rng, a: Array2<u8>) -> Array2<u8> {
    match r.below(4) {
        0 => {
            let t = a.t().as_standard_layout().into_owned();
            t.reversed_axes()
        }
        1 => {
            let mut b = a;
            b.invert_axis(ndarray::Axis(0));
            b
        }
        _ => a,
    }
}

fn depth(r: &mut Rng) -> f64 {
    match r.below(14) {
        0 => 0.,
        1 => f64::NAN,
        2 => f64::INFINITY,
        3 => -30.,
        4 => 1e-300,
        5 => 1e300,
        _ => [30., 100., 500., 4.][r.below(4)],
    }
}

fn flat(a: Array2<u8>) -> Vec<u8> {
    a.iter().cloned().collect()
}

pub fn c24(ctx: &Ctx) -> Value {
    let tiny = tiny();
    // Miri runs a thousand times slower
    let n = |q: u64, t: u64, m: u64| {
        if tiny {
            if ctx.thorough {
                6 * m
            } else {
                m
            }
        } else {
            ctx.n(q, t)
        }
    };
    let big = if tiny { 24 } else { 200 };

    ctx.drive("numbers and texts", n(20000, 200000, 30), 0.1, |r, _| {
        let mut s = Seen::new();
        let len = r.below(if tiny { 20 } else { 300 });
        let b = r.payload(len);
        s.run(|| {
            utils::bytes::vec_u16_from_bytes(&b)
                .iter()
                .flat_map(|x| x.to_le_bytes())
                .collect()
        });
        s.run(|| {
            utils::bytes::vec_i64_from_bytes(&b)
                .iter()
                .flat_map(|x| x.to_le_bytes())
                .collect()
        });
        s.run(|| utils::bytes::vec_u16_to_bytes(&b.iter().map(|x| *x as u16 * 257).collect()));
        s.run(|| utils::bytes::vec_i64_to_bytes(&b.iter().map(|x| *x as i64 * -72340172838076673).collect()));
        s.run(|| utils::format::encode_hex(&b).into_bytes());
        let t = hexes(r, 32);
        s.run(|| utils::format::decode_hex(&t).unwrap_or_default());
        let x = *r.pick(&[
            -1.,
            -2.,
            1e6,
            -1e18,
            1e300,
            f64::NAN,
            f64::INFINITY,
            -0.5,
            1e-300,
            50.,
            170.5,
            -170.5,
        ]);
        s.run(|| utils::math::factorial(x).to_bits().to_le_bytes().to_vec());
        s.done(
            ctx,
            "numbers and texts",
            json!({"bytes": len, "text": t.chars().take(20).collect::<String>(), "number": format!("{x}")}),
        )
    });

    ctx.drive("signatures", n(2000, 20000, 1), 0.1, |r, k| {
        let mut s = Seen::new();
        let len = r.below(300);
        let d = r.payload(len);
        let mut sig = if r.chance(0.5) {
            crate::refmodel::ref_sign(&d)
        } else {
            r.payload(64)
        };
        match r.below(4) {
            0 => sig.truncate(r.below(64)),
            1 => {
                let n = r.below(200);
                let b = r.bytes(n);
                sig.extend(b)
            }
            2 => sig[r.below(64)] ^= 1 << r.below(8),
            _ => (),
        }
        let (a, b) = (hexes(r, 32), hexes(r, 32));
        s.run(|| vec![signature::verify(&d, &sig, &a) as u8]);
        if !tiny {
            s.run(|| signature::sign(&d, &a, &b));
            s.run(|| signature::sign(&d, &hexes(r, 32), &hexes(r, 32)));
        }
        s.done(
            ctx,
            "signatures",
            json!({"data": len, "signature": sig.len(), "key": a, "case": k}),
        )
    });

    ctx.drive("codes", n(1500, 15000, 3), 0.15, |r, _| {
        let mut s = Seen::new();
        let top = if tiny { 70 } else { 2500 };
        let cap = match r.below(4) {
            0 => r.below(20),
            1 => *r.pick(&[16usize, 32, 64, 128, 256, 512, 1024]) % (top + 1),
            _ => r.below(top),
        };
        let n = match r.below(5) {
            0 => cap,
            1 => cap * 2,
            2 => r.below(4),
            _ => r.below(cap + 40),
        };
        let garbage = r.payload(n);
        s.run(|| encoding::decode(garbage.clone(), cap));
        s.run(|| encoding::encode(garbage.clone(), cap));
        s.run(|| {
            let mut e = encoding::encode(garbage.clone(), cap);
            for _ in 0..r.below(40) {
                let k = r.below(e.len());
                e[k] ^= 1 << r.below(8);
            }
            if r.chance(0.3) {
                e.truncate(r.below(e.len()));
            }
            encoding::decode(e, cap)
        });
        if !tiny && r.chance(0.002) {
            s.run(|| encoding::encode(vec![1; 65536 + r.below(3)], 1024));
        }
        s.done(ctx, "codes", json!({"capacity": cap, "bytes": n}))
    });

    ctx.drive("quantizer", n(20000, 200000, 12), 0.1, |r, _| {
        let mut s = Seen::new();
        let (a, b) = (r.below(14), r.below(60));
        let f = floats(r, a);
        let step = *r.pick(&[1., 0.5, 0., -1., 1e-300, 1e300, f64::NAN, f64::INFINITY]);
        s.run(|| {
            let (q, p) = three_bit_quantization::three_bit_quantization(&f, step);
            let mut out: Vec<u8> = q.iter().flat_map(|x| x.to_le_bytes()).collect();
            out.extend(three_bit_quantization::perturbation_vector_as_bytes(&p));
            out
        });
        let m = if r.chance(0.5) { 3 * a } else { b };
        let given = bits(r, m);
        s.run(|| {
            three_bit_quantization::three_bit_dequantization(&f, &given, step)
                .iter()
                .flat_map(|x| x.to_le_bytes())
                .collect()
        });
        s.run(|| three_bit_quantization::perturbation_vector_as_bytes(&given));
        let raw = r.bytes(b / 4);
        s.run(|| {
            let v = three_bit_quantization::perturbation_vector_from_bytes(&raw, b * 3);
            v.iter().map(|x| *x as u8).collect()
        });
        s.done(
            ctx,
            "quantizer",
            json!({"features": a, "step": format!("{step}"), "bits": given.len()}),
        )
    });

    #[cfg(feature = "h_wm")]
    ctx.drive("records", n(20000, 200000, 12), 0.1, |r, _| {
        use watermarking::monitor::{deserialize, Watermark};
        let mut s = Seen::new();
        let (p, q, t) = (r.below(300), r.below(300), r.below(300));
        let w = Watermark {
            perturbation_vector: bits(r, p),
            signature: r.payload(q),
            text: "é".repeat(t / 2),
        };
        let mut b = vec![];
        s.run(|| {
            b = w.serialize();
            b.clone()
        });
        if b.is_empty() {
            let n = r.below(500);
            b = r.payload(n);
        }
        match r.below(4) {
            0 => b.truncate(r.below(b.len() + 1)),
            1 => {
                for _ in 0..4 {
                    let n = b.len();
                    if n > 0 {
                        let k = if r.chance(0.5) { r.below(n.min(6)) } else { r.below(n) };
                        b[k] = r.next() as u8;
                    }
                }
            }
            2 => {
                let n = r.below(700);
                b = r.payload(n)
            }
            _ => (),
        }
        s.run(|| {
            let w = deserialize(&b);
            let mut o: Vec<u8> = w.perturbation_vector.iter().map(|x| *x as u8).collect();
            o.extend(&w.signature);
            o.extend(w.text.as_bytes());
            o
        });
        #[cfg(feature = "h_emb")]
        {
            use embedding::monitor::{deserialize, Data};
            s.run(|| Data::new(b.clone()).serialize());
            s.run(|| deserialize(&b).bytes);
        }
        s.done(
            ctx,
            "records",
            json!({"bits": p, "signature": q, "text": t, "bytes": b.len()}),
        )
    });

    #[cfg(feature = "h_emb")]
    ctx.drive("bands", n(10000, 100000, 4), 0.1, |r, _| {
        let mut s = Seen::new();
        let (rows, cols) = dims(r, big.min(64));
        let mut m = Array2::from_shape_fn((rows + r.below(5), cols + r.below(5)), |_| r.float(-3000., 3000.));
        if r.chance(0.3) {
            m = m.reversed_axes();
        }
        if m.len() > 0 && r.chance(0.3) {
            let k = r.below(m.len());
            *m.iter_mut().nth(k).unwrap() = *r.pick(&[f64::NAN, f64::INFINITY, -1e300]);
        }
        let d = depth(r);
        let (h, w) = m.dim();
        let (h, w) = (r.below(h + 1), r.below(w + 1));
        let cap = h * w / 8;
        let n = if r.chance(0.7) { r.below(cap + 1) } else { cap + r.below(20) };
        let payload = r.payload(n);
        s.run(|| {
            let mut band = m.slice_mut(ndarray::s![..h, ..w]);
            embedding::monitor::write(&mut band, payload.clone(), d);
            vec![]
        });
        s.run(|| {
            let band = m.slice_mut(ndarray::s![..h, ..w]);
            embedding::monitor::read(&band, d)
        });
        let lv = r.below(5);
        s.run(|| {
            f64s(
                &embedding::monitor::dwt_2d(m.clone(), lv, r.chance(0.5))
                    .iter()
                    .cloned()
                    .collect::<Vec<_>>(),
            )
        });
        s.done(
            ctx,
            "bands",
            json!({"band": [h, w], "bytes": n, "depth": format!("{d}"), "levels": lv}),
        )
    });

    ctx.drive("pictures in and out", n(3000, 30000, 3), 0.15, |r, _| {
        let mut s = Seen::new();
        let (mut rows, mut cols) = dims(r, big);
        let mut levels = if tiny {
            1 + r.below(2)
        } else {
            *r.pick(&[1usize, 2, 3, 4, 0, 9, 31])
        };
        if !tiny && r.chance(0.6) {
            let c = crate::embed::any_capacity(r).min(700);
            let f = crate::embed::shape_for(r, c);
            (rows, cols, levels) = (f.rows, f.cols, f.levels);
            if r.chance(0.1) {
                rows += r.below(8);
                cols += r.below(8);
            }
        }
        let img = picture(r, rows, cols);
        let img = relaid(r, img);
        let d = depth(r);
        let cap = (rows >> levels) * (cols >> levels) / 8;
        let n = match r.below(4) {
            0 => cap + r.below(50),
            1 => crate::refmodel::max_payload(cap),
            _ => r.below(cap + 1),
        };
        let payload = r.payload(n);
        s.run(|| embedding::extract(img.clone(), d, levels));
        s.run(|| flat(embedding::embed(img.clone(), payload.clone(), d, levels)));
        s.run(|| {
            let mut o = embedding::embed(img.clone(), payload, d, levels);
            for _ in 0..r.below(100) {
                let (a, b) = (r.below(rows), r.below(cols));
                o[[a, b]] = r.next() as u8;
            }
            let shorter = if r.chance(0.3) {
                o.slice(ndarray::s![..rows - r.below(rows), ..]).to_owned()
            } else {
                o
            };
            embedding::extract(shorter, d, levels)
        });
        s.done(
            ctx,
            "pictures in and out",
            json!({"rows": rows, "cols": cols, "levels": levels, "depth": format!("{d}"), "bytes": n}),
        )
    });

    ctx.drive("features", n(300, 3000, 2), 0.1, |r, _| {
        let mut s = Seen::new();
        let (rows, cols) = dims(r, if tiny { 9 } else { 64 });
        let img = picture(r, rows, cols);
        let img = relaid(r, img);
        let amount = r.below(if tiny { 4 } else { 14 });
        let ty = match r.below(10) {
            0 => FeaturesType::MomentsPseudoZernike,
            1 => FeaturesType::CentralFiniteDifferences,
            _ => FeaturesType::MomentsZernike,
        };
        s.run(|| f64s(&calculate_features(&img, ty, amount)));
        let (order, index) = (r.below(24), r.below(24));
        s.run(|| {
            let z = zernike::calc::calculate_zernike_image_moment(order, index, &img);
            f64s(&[z.re, z.im])
        });
        s.done(
            ctx,
            "features",
            json!({"rows": rows, "cols": cols, "amount": amount, "order": order, "index": index}),
        )
    });

    if !tiny {
        ctx.drive("marking", n(150, 1500, 0), 0.15, |r, _| {
            let mut s = Seen::new();
            let (rows, cols) = if r.chance(0.6) {
                *r.pick(&[(216, 216), (288, 168), (220, 217), (168, 288)])
            } else {
                dims(r, 120)
            };
            let p: Vec<_> = (0..4).map(|_| picture(r, rows, cols)).collect();
            let v = r.below(10);
            let d = depth(r);
            let amount = r.below(4);
            s.run(|| {
                let img: DynamicImage = crate::mark::build(v, &p, r);
                watermarking::watermark(img, d, 1., amount).as_bytes().to_vec()
            });
            s.done(
                ctx,
                "marking",
                json!({"rows": rows, "cols": cols, "type": v, "depth": format!("{d}"), "features": amount}),
            )
        });
        #[cfg(feature = "h_wm")]
        ctx.drive("authentication", n(150, 1500, 0), 0.15, |r, _| {
            use watermarking::monitor::{authenticate_channel, watermark_channel};
            let mut s = Seen::new();
            let (rows, cols) = if r.chance(0.7) {
                *r.pick(&[(108, 108), (76, 76), (112, 104), (110, 109), (216, 216), (64, 288)])
            } else {
                dims(r, 100)
            };
            let levels = if rows > 200 { 1 + r.below(3) } else { 1 + r.below(2) };
            let d = depth(r);
            let amount = 1 + r.below(4);
            let g = picture(r, rows, cols);
            let mut img = to_gray(&g);
            let step = *r.pick(&[1., 0.5, 0., f64::NAN]);
            s.run(|| {
                img = watermark_channel(&img, d, step, amount, levels);
                vec![]
            });
            let n = r.below(200);
            for _ in 0..n {
                if rows * cols > 0 {
                    let (x, y) = (r.below(cols) as u32, r.below(rows) as u32);
                    img.put_pixel(x, y, image::Luma([r.next() as u8]));
                }
            }
            // a hostile record well embedded: any lengths, any signature
            if r.chance(0.5) && rows >> levels > 0 && cols >> levels > 0 {
                let mut a = from_gray(&img);
                let cap = (rows >> levels) * (cols >> levels) / 8;
                let n = r.below(crate::refmodel::max_payload(cap) + 1);
                let mut rec = r.payload(n);
                for k in 0..rec.len().min(3) {
                    if r.chance(0.7) {
                        rec[k] = *r.pick(&[0u8, 3, 33, 64, 12, 255, 1]);
                    }
                }
                let coded = crate::refmodel::encode(&crate::refmodel::wrap_payload(&rec), cap);
                if (30. ..1000.).contains(&d) && coded.len() <= cap {
                    let _ = call(|| crate::refmodel::write_carriers(&mut a, &coded, d, levels));
                }
                img = to_gray(&a);
            }
            let asked = if r.chance(0.04) {
                r.below(30)
            } else if r.chance(0.3) {
                r.below(7)
            } else {
                amount
            };
            s.run(|| vec![authenticate_channel(&img, d, step, asked, levels) as u8]);
            s.done(
                ctx,
                "authentication",
                json!({"rows": rows, "cols": cols, "levels": levels, "depth": format!("{d}"), "features": [amount, asked]}),
            )
        });
    }

    // the same objects used by several threads at once; a race detector needs the accesses, not a lucky schedule
    if ctx.only.as_ref().map_or(true, |o| o.0 == "shared") && ctx.threads > 1 {
        let rounds = if tiny { 1 } else { ctx.n(12, 120) };
        let mut events = 0;
        for k in 0..rounds {
            if ctx.stopped() || ctx.start.elapsed() > ctx.budget {
                break;
            }
            let tasks: Vec<_> = (0..if tiny { 2 } else { 13 })
                .map(|j| crate::hist::task(ctx.seed ^ 0xabc, if tiny { [6, 7][j as usize] } else { k * 13 + j }))
                .collect();
            let threads = if tiny { 2 } else { 8 };
            let gate = Barrier::new(threads);
            std::thread::scope(|sc| {
                for t in 0..threads {
                    let (tasks, gate) = (&tasks, &gate);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            gate.wait();
                            for i in 0..tasks.len() {
                                // half of the threads in step, half apart
                                let i = if t % 2 == 0 { i } else { (i + t) % tasks.len() };
                                crate::hist::perform(&tasks[i]);
                            }
                        })
                        .unwrap();
                }
            });
            events += (threads * tasks.len()) as u64;
            ctx.record(
                "shared",
                k,
                held(&k.to_le_bytes(), true, json!({"round": k, "threads": threads})),
            );
        }
        ctx.count("operations on shared objects by several threads", events);
    }
    ctx.require("calls that returned", if tiny { 50 } else { 10000 });
    ctx.require("calls refused", if tiny { 5 } else { 1000 });
    if ctx.threads > 1 && !tiny {
        ctx.require("operations on shared objects by several threads", 500);
    }
    ctx.finish(
        "Hostile arguments of every public entry point and private stage: garbage and truncated data, pictures of odd, empty and tiny sizes in several storage orders, depths and steps that are zero, negative, infinite or not a number, hostile records well embedded, bit lists that start inside a byte, malformed text and keys; and the same objects used by eight threads. Results are read to the last byte and not judged.",
        &["a refusal by panic is right here; wrong results are the other properties' matter"],
    )
}
