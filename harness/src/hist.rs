//! C17: results depend on the arguments only. Event log of operations run alone in a fresh process, then in random
//! histories on one thread and on several; an offline pass compares every event with the fresh-process result.
use crate::fw::*;
use crate::gen::*;
use crate::rng::{hash_bytes, mix, Rng};
use image_features::{calculate_features, feature_types::FeaturesType};
use ndarray::Array2;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};

pub const OPS: [&str; 21] = [
    "embed",
    "extract",
    "watermark grey",
    "watermark colour",
    "features",
    "moment",
    "quantize",
    "restore",
    "encode",
    "decode",
    "sign",
    "verify",
    "refused embed",
    "hex",
    "unhex",
    "factorial",
    "random",
    "transform",
    "refused watermark",
    "refused coding",
    "refused signing",
];

enum Input {
    Pic(Array2<u8>, Vec<u8>, f64, usize),
    Image(image::DynamicImage, f64, f64, usize),
    Feat(Array2<u8>, usize),
    Num(Vec<f64>, Vec<f64>, f64),
    Bytes(Vec<u8>, usize),
    Signed(Vec<u8>, Vec<u8>, usize),
    Text(String),
    Args(Vec<f64>, usize),
    #[cfg(feature = "h_wm")]
    Channel(image::GrayImage, crate::mark::Case),
}

pub struct Task {
    pub op: &'static str,
    input: Input,
}

/// Tasks come in families: the members are easily taken for the first one. The second has a look-alike input, the third
/// another parameter, the fourth either.
pub const FAMILY: usize = 4;

pub fn task(seed: u64, k: u64) -> Task {
    let t = first_task(seed, k / FAMILY as u64);
    let mut r = Rng::new(mix(seed ^ 0xa11ce) ^ k.wrapping_mul(0x51ed));
    match k % FAMILY as u64 {
        0 => t,
        1 => lookalike(t, &mut r, false),
        2 => lookalike(t, &mut r, true),
        _ => {
            let other = r.chance(0.6);
            lookalike(t, &mut r, other)
        }
    }
}

/// Another positive number that a rounded or truncated key would not tell from the first.
fn near(x: f64, r: &mut Rng) -> f64 {
    match r.below(5) {
        0 => x * 1.25,
        1 => x * 0.75,
        2 => x.floor().max(0.5) + r.float(0., 1.),
        3 => x * (1. + r.float(1e-9, 1e-4)),
        _ => x + 1.,
    }
}

fn lookalike_picture(i: &Array2<u8>, r: &mut Rng) -> Array2<u8> {
    let (rows, cols) = i.dim();
    let mut v: Vec<u8> = i.iter().cloned().collect();
    let swap = |v: &mut Vec<u8>, a: usize, b: usize| v.swap(a, b);
    match r.below(7) {
        // the same pixels in another order
        0 => v.reverse(),
        1 => v.sort(),
        2 => {
            let (a, b) = (r.below(rows), r.below(rows));
            (0..cols).for_each(|c| swap(&mut v, a * cols + c, b * cols + c));
        }
        3 => (0..rows * cols / 2).for_each(|_| {
            let (a, b) = (r.below(rows * cols), r.below(rows * cols));
            swap(&mut v, a, b)
        }),
        // the same bytes, other sides
        4 => return Array2::from_shape_vec((cols, rows), v).unwrap(),
        // the same sum, or the same borders
        5 => {
            let (a, b) = (r.below(v.len()), r.below(v.len()));
            if v[a] < 255 && v[b] > 0 {
                v[a] += 1;
                v[b] -= 1;
            }
        }
        _ => {
            let c = rows / 2 * cols + cols / 2;
            v[c] ^= 1 << r.below(6);
        }
    }
    Array2::from_shape_vec((rows, cols), v).unwrap()
}

/// `other`: the same content with another parameter instead.
fn lookalike(t: Task, r: &mut Rng, other: bool) -> Task {
    let input = match t.input {
        Input::Pic(i, p, depth, l) if other => {
            let fits = |l: usize| i.dim().0 % (1 << l) == 0 && i.dim().1 % (1 << l) == 0;
            let levels: Vec<usize> = (1..5).filter(|m| *m != l && fits(*m)).collect();
            if r.chance(0.4) && !levels.is_empty() {
                let m = *r.pick(&levels);
                Input::Pic(i, p, depth, m)
            } else {
                Input::Pic(i, p, near(depth, r), l)
            }
        }
        Input::Pic(i, mut p, depth, l) => {
            if t.op != "extract" && r.chance(0.5) && p.len() > 1 {
                p.reverse();
                Input::Pic(i, p, depth, l)
            } else {
                Input::Pic(lookalike_picture(&i, r), p, depth, l)
            }
        }
        Input::Image(i, depth, step, n) if other => match r.below(3) {
            0 => Input::Image(i, depth, near(step, r), n),
            1 => Input::Image(i, near(depth, r), step, n),
            _ => Input::Image(i, depth, step, n % 3 + 1),
        },
        Input::Image(i, depth, step, n) => Input::Image(if r.chance(0.5) { i.fliph() } else { i.rotate90() }, depth, step, n),
        Input::Feat(i, n) if other => {
            let m = 1 + (n + r.below(15)) % 16;
            Input::Feat(i, m)
        }
        Input::Feat(i, n) => Input::Feat(lookalike_picture(&i, r), n),
        Input::Num(f, g, step) if other => Input::Num(f, g, near(step, r)),
        Input::Num(mut f, mut g, step) => {
            f.reverse();
            g.reverse();
            Input::Num(f, g, step)
        }
        Input::Bytes(b, cap) if other && t.op == "encode" => {
            let more = *r.pick(&[1usize, 2, 16, 64, 256, 1024]);
            Input::Bytes(b, cap + more)
        }
        Input::Bytes(mut b, cap) if other => {
            let cap = (cap - r.below(cap / 2)).max(9);
            b.truncate(cap);
            Input::Bytes(b, cap)
        }
        Input::Bytes(mut b, cap) => {
            b.reverse();
            Input::Bytes(b, cap)
        }
        Input::Text(t) if other => Input::Text(format!("{t}00")),
        Input::Text(t) => {
            let mut v: Vec<char> = t.chars().collect();
            match r.below(3) {
                0 => v.reverse(),
                1 => v = t.to_uppercase().chars().collect(),
                _ if !v.is_empty() => {
                    let i = r.below(v.len());
                    v[i] = *r.pick(&['0', 'f', 'g', ' ']);
                }
                _ => (),
            }
            Input::Text(v.into_iter().collect())
        }
        Input::Args(x, seed) if other => Input::Args(x, seed + 1),
        Input::Args(x, seed) => Input::Args(x.iter().map(|x| near(*x, r)).collect(), seed),
        Input::Signed(d, s, key) if other && r.chance(0.7) => Input::Signed(d, s, 1 - key),
        Input::Signed(mut d, mut s, key) => {
            if other || d.is_empty() {
                s[r.below(64)] ^= 16;
            } else if r.chance(0.5) {
                d.reverse();
            } else {
                let i = r.below(d.len());
                d[i] ^= 1;
            }
            Input::Signed(d, s, key)
        }
        #[cfg(feature = "h_wm")]
        Input::Channel(g, mut c) => {
            if other {
                match r.below(3) {
                    0 => c.step = near(c.step, r),
                    1 => c.depth = near(c.depth, r),
                    _ => c.amount = c.amount % 11 + 1,
                }
                Input::Channel(g, c)
            } else {
                let a = Array2::from_shape_vec((c.rows, c.cols), g.into_raw()).unwrap();
                let b = lookalike_picture(&a, r);
                (c.rows, c.cols) = b.dim();
                Input::Channel(to_gray(&b), c)
            }
        }
    };
    Task { op: t.op, input }
}

fn first_task(seed: u64, k: u64) -> Task {
    let mut r = Rng::new(mix(seed) ^ k.wrapping_mul(0x9e37));
    let r = &mut r;
    #[cfg(feature = "h_wm")]
    if k % 3 == 2 {
        let op = if r.chance(0.5) { "mark" } else { "authenticate" };
        let c = crate::mark::case(r, false);
        let img = image_in(r, c.kind, c.rows, c.cols, 20, 235);
        return Task {
            op,
            input: Input::Channel(to_gray(&img), c),
        };
    }
    // every operation gets its turn, whether channels take a third of them or not
    let turn = if cfg!(feature = "h_wm") { k / 3 * 2 + k % 3 } else { k };
    let op = OPS[(turn % OPS.len() as u64) as usize];
    let pic = |r: &mut Rng, extra: usize| {
        let cap = crate::embed::any_capacity(r).min(600);
        let s = crate::embed::shape_for(r, cap);
        let (depth, h) = crate::embed::any_depth(r, s.levels, 100);
        let kd = kind(r);
        let img = image_in(r, kd, s.rows, s.cols, h as u8, (255 - h) as u8);
        let n = crate::refmodel::max_payload(cap);
        let n = if extra > 0 { n + extra } else { r.below(n + 1) };
        Input::Pic(img, r.payload(n), depth, s.levels)
    };
    let input = match op {
        "embed" => pic(r, 0),
        "refused embed" => pic(r, 5),
        "extract" => {
            let p = pic(r, 0);
            if let Input::Pic(mut img, bytes, depth, levels) = p {
                let cap = (img.dim().0 >> levels) * (img.dim().1 >> levels) / 8;
                let coded = crate::refmodel::encode(&crate::refmodel::wrap_payload(&bytes), cap);
                crate::refmodel::write_carriers(&mut img, &coded, depth, levels);
                Input::Pic(img, bytes, depth, levels)
            } else {
                p
            }
        }
        "watermark grey" | "watermark colour" => {
            let p: Vec<_> = (0..4)
                .map(|_| {
                    let kd = kind(r);
                    image_in(r, kd, 216, 216, 0, 255)
                })
                .collect();
            let v = if op == "watermark grey" { r.below(2) } else { 2 + r.below(2) };
            Input::Image(crate::mark::build(v, &p, r), [30., 50., 100.][r.below(3)], 1., 1 + r.below(2))
        }
        "features" | "moment" => {
            // often of one size, so that what is kept by size is used again
            let (a, b) = if r.chance(0.6) {
                *r.pick(&[(24, 24), (16, 24), (24, 9), (32, 32)])
            } else {
                (2 + r.below(40), 2 + r.below(40))
            };
            let kd = kind(r);
            Input::Feat(image_in(r, kd, a, b, 0, 255), 1 + r.below(11))
        }
        "refused watermark" => {
            let p: Vec<_> = (0..4)
                .map(|_| {
                    let kd = kind(r);
                    image_in(r, kd, 40, 48, 0, 255)
                })
                .collect();
            let v = r.below(4);
            Input::Image(crate::mark::build(v, &p, r), 50., 1., 5)
        }
        "transform" => {
            let (a, b) = (16 * (1 + r.below(4)), 16 * (1 + r.below(4)));
            let kd = kind(r);
            Input::Pic(image_in(r, kd, a, b, 0, 255), vec![], 1., 1 + r.below(4))
        }
        "hex" => {
            let n = r.below(40);
            Input::Bytes(r.payload(n), 64)
        }
        "unhex" => {
            let n = r.below(40);
            let mut t = hx(&r.payload(n));
            if r.chance(0.3) {
                t.push(*r.pick(&['0', 'x', 'F']));
            }
            Input::Text(t)
        }
        "factorial" | "random" => Input::Args(
            (0..1 + r.below(12))
                .map(|_| if r.chance(0.5) { r.below(30) as f64 } else { r.float(-20., 180.) })
                .collect(),
            r.below(4),
        ),
        "refused coding" => {
            let n = 65536 + r.below(200);
            Input::Bytes(r.payload(n), *r.pick(&[8usize, 16, 64, 1024]))
        }
        "quantize" | "restore" => {
            let n = 1 + r.below(20);
            let f: Vec<f64> = (0..n).map(|_| r.float(0., 300.)).collect();
            let g = f.iter().map(|x| x + r.float(-2., 2.)).collect();
            Input::Num(f, g, r.float(0.2, 3.))
        }
        "encode" | "decode" => {
            let cap = *r.pick(&[16usize, 32, 64, 100, 256, 1024, 1953]);
            let n = if op == "encode" { r.below(cap) } else { cap };
            Input::Bytes(r.payload(n), cap)
        }
        _ => {
            let n = r.below(200);
            let d = r.payload(n);
            let mut s = crate::refmodel::ref_sign(&d);
            if r.chance(0.5) {
                let i = r.below(64);
                s[i] ^= 1 << r.below(8);
            }
            Input::Signed(d, s, 0)
        }
    };
    Task { op, input }
}

fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// The built-in key pair and another one.
fn keys(k: usize) -> ([u8; 32], [u8; 32]) {
    if k == 0 {
        return (crate::refmodel::SECRET_KEY, crate::refmodel::PUBLIC_KEY);
    }
    let secret = ed25519_dalek::SecretKey::from_bytes(&[7; 32]).unwrap();
    let public: ed25519_dalek::PublicKey = (&secret).into();
    (secret.to_bytes(), public.to_bytes())
}

/// Runs the operation; the digest of its result, or of the refusal.
pub fn perform(t: &Task) -> u64 {
    let refused = hash_bytes(b"refused");
    let d = |r: Result<Vec<u8>, String>| r.map(|b| hash_bytes(&b)).unwrap_or(refused);
    match (&t.input, t.op) {
        (Input::Pic(i, p, depth, l), "extract") => {
            let _ = p;
            d(call(|| embedding::extract(i.clone(), *depth, *l)))
        }
        (Input::Pic(i, _, _, l), "transform") => {
            #[cfg(feature = "h_emb")]
            let x = d(call(|| {
                let t = embedding::monitor::dwt_2d(i.mapv(|x| x as f64), *l, false);
                t.iter().flat_map(|x| x.to_bits().to_le_bytes()).collect()
            }));
            #[cfg(not(feature = "h_emb"))]
            let x = hash_bytes(&[i.len() as u8, *l as u8]);
            x
        }
        (Input::Pic(i, p, depth, l), _) => d(call(|| {
            embedding::embed(i.clone(), p.clone(), *depth, *l).into_iter().collect()
        })),
        (Input::Image(i, depth, step, n), _) => d(call(|| {
            let o = watermarking::watermark(i.clone(), *depth, *step, *n);
            let mut b = format!("{:?}", o.color()).into_bytes();
            b.extend(o.as_bytes());
            b
        })),
        (Input::Feat(i, n), "features") => d(call(|| {
            calculate_features(&i.clone(), FeaturesType::MomentsZernike, *n)
                .iter()
                .flat_map(|f| f.to_bits().to_le_bytes())
                .collect()
        })),
        (Input::Feat(i, n), _) => d(call(|| {
            let z = zernike::calc::calculate_zernike_image_moment(2 * n - 1, 1, &i.clone());
            [z.re.to_bits().to_le_bytes(), z.im.to_bits().to_le_bytes()].concat()
        })),
        (Input::Num(f, g, step), op) => d(call(|| {
            let (q, b) = three_bit_quantization::three_bit_quantization(f, *step);
            let mut out: Vec<u8> = q.iter().flat_map(|x| x.to_le_bytes()).collect();
            out.extend(b.iter().map(|b| *b as u8));
            if op == "restore" {
                out.extend(
                    three_bit_quantization::three_bit_dequantization(g, &b, *step)
                        .iter()
                        .flat_map(|x| x.to_le_bytes()),
                );
            }
            out
        })),
        (Input::Bytes(b, _), "hex") => d(call(|| utils::format::encode_hex(b).into_bytes())),
        (Input::Bytes(b, cap), "encode" | "refused coding") => d(call(|| encoding::encode(b.clone(), *cap))),
        (Input::Bytes(b, cap), _) => d(call(|| encoding::decode(b.clone(), *cap))),
        (Input::Text(t), _) => d(call(|| match utils::format::decode_hex(t) {
            Ok(b) => [&[1], &b[..]].concat(),
            Err(e) => e.to_string().into_bytes(),
        })),
        (Input::Args(x, seed), "factorial") => d(call(|| {
            let f = |x: &f64| utils::math::factorial(x.round() + *seed as f64 / 4.).to_bits().to_le_bytes();
            x.iter().flat_map(f).collect()
        })),
        (Input::Args(x, seed), _) => d(call(|| {
            use utils::pseudo_random::{Generate, PseudoRandom};
            let mut g = PseudoRandom { seed: *seed };
            x.iter().flat_map(|x| g.generate(-1., x.abs()).to_bits().to_le_bytes()).collect()
        })),
        (Input::Signed(b, s, k), op) => d(call(|| {
            let (secret, public) = keys(*k);
            match op {
                "sign" => signature::sign(b, &hx(&secret), &hx(&public)),
                "refused signing" => signature::sign(b, &hx(&secret[..31]), &hx(&public)),
                _ => vec![signature::verify(b, s, &hx(&public)) as u8],
            }
        })),
        #[cfg(feature = "h_wm")]
        (Input::Channel(g, c), "mark") => d(call(|| {
            watermarking::monitor::watermark_channel(g, c.depth, c.step, c.amount, c.levels).into_raw()
        })),
        #[cfg(feature = "h_wm")]
        (Input::Channel(g, c), _) => d(call(|| {
            vec![watermarking::monitor::authenticate_channel(g, c.depth, c.step, c.amount, c.levels) as u8]
        })),
    }
}

fn input_digest(t: &Task) -> u64 {
    match &t.input {
        Input::Pic(i, p, ..) => hash_bytes(&i.iter().chain(p).cloned().collect::<Vec<u8>>()),
        Input::Image(i, ..) => hash_bytes(i.as_bytes()),
        Input::Feat(i, _) => hash_bytes(&i.iter().cloned().collect::<Vec<u8>>()),
        Input::Num(f, g, _) => hash_bytes(format!("{f:?}{g:?}").as_bytes()),
        Input::Bytes(b, _) => hash_bytes(b),
        Input::Signed(b, s, _) => hash_bytes(&[&b[..], s].concat()),
        Input::Text(t) => hash_bytes(t.as_bytes()),
        Input::Args(x, _) => hash_bytes(format!("{x:?}").as_bytes()),
        #[cfg(feature = "h_wm")]
        Input::Channel(g, _) => hash_bytes(g.as_raw()),
    }
}

/// Fresh process: `siavp one SEED K OUT`.
pub fn one() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let d = perform(&task(a[2].parse().unwrap(), a[3].parse().unwrap()));
    std::fs::write(&a[4], format!("{d}")).unwrap();
}

fn fresh(seed: u64, k: u64, variant: u64) -> Option<u64> {
    let out = std::env::temp_dir().join(format!("siavp-one-{}-{k}-{variant}", std::process::id()));
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("one").arg(seed.to_string()).arg(k.to_string()).arg(&out);
    c.stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .stdin(std::process::Stdio::null());
    if variant == 1 {
        c.env("TZ", "Asia/Tokyo")
            .env("LANG", "de_DE.UTF-8")
            .env("LC_ALL", "tr_TR.UTF-8")
            .env("HOME", "/nonexistent")
            .current_dir("/");
    }
    let ok = c.status().ok()?.success();
    let t = std::fs::read_to_string(&out).ok();
    let _ = std::fs::remove_file(&out);
    if !ok {
        return None;
    }
    t?.parse().ok()
}

struct Event {
    history: u64,
    thread: usize,
    task: usize,
    before: Option<usize>,
    call: u64,
    ret: u64,
    digest: u64,
}

/// The operations of each thread of a history.
fn orders(seed: u64, n: usize, h: u64) -> Vec<Vec<usize>> {
    let mut r = Rng::new(mix(seed) ^ (h << 20) ^ 99);
    let threads = if h % 4 == 3 { 8 } else { 1 };
    let len = if threads == 1 { 60 } else { 24 };
    // few operations, often the same on several threads
    let pool: Vec<usize> = (0..1 + r.below(12)).map(|_| r.below(n)).collect();
    (0..threads)
        .map(|_| {
            let mut last = 0;
            (0..len)
                .map(|k| {
                    last = match k {
                        // what is easily taken for the last one
                        k if k > 0 && r.chance(0.5) => last / FAMILY * FAMILY + r.below(FAMILY),
                        _ if r.chance(0.5) => *r.pick(&pool),
                        _ => r.below(n),
                    };
                    last.min(n - 1)
                })
                .collect()
        })
        .collect()
}

/// One history in a process of its own: `siavp history SEED N H OUT`; the log is written to OUT.
pub fn history() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let (seed, n, h): (u64, usize, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let orders = orders(seed, n, h);
    let mut tasks: Vec<Option<Task>> = (0..n).map(|_| None).collect();
    for k in orders.iter().flatten() {
        if tasks[*k].is_none() {
            tasks[*k] = Some(task(seed, *k as u64));
        }
    }
    let before: Vec<Option<u64>> = tasks.iter().map(|t| t.as_ref().map(input_digest)).collect();
    let log: Mutex<Vec<Event>> = Mutex::new(vec![]);
    let clock = AtomicU64::new(0);
    let gate = Barrier::new(orders.len());
    std::thread::scope(|s| {
        for (thread, order) in orders.iter().enumerate() {
            let (tasks, log, clock, gate) = (&tasks, &log, &clock, &gate);
            let run = move || {
                watch_this_thread();
                gate.wait();
                let mut before = None;
                for k in order {
                    let call = clock.fetch_add(1, Ordering::SeqCst);
                    let digest = perform(tasks[*k].as_ref().unwrap());
                    let ret = clock.fetch_add(1, Ordering::SeqCst);
                    let task = *k;
                    log.lock().unwrap().push(Event { history: h, thread, task, before, call, ret, digest });
                    before = Some(*k);
                }
            };
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, run).unwrap();
        }
    });
    let mut out = String::new();
    for e in log.into_inner().unwrap() {
        let b = e.before.map(|b| b as i64).unwrap_or(-1);
        out += &format!("E {} {} {b} {} {} {}\n", e.thread, e.task, e.call, e.ret, e.digest);
    }
    for (k, t) in tasks.iter().enumerate() {
        if let Some(t) = t {
            out += &format!("I {k} {}\n", (Some(input_digest(t)) == before[k]) as u8);
        }
    }
    std::fs::write(&a[5], out + "end\n").unwrap();
}

/// The log of history h, or how its process ended.
fn run_history(seed: u64, n: usize, h: u64) -> Result<(Vec<Event>, Vec<(usize, bool)>), Option<i32>> {
    let out = std::env::temp_dir().join(format!("siavp-history-{}-{h}", std::process::id()));
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("history").args([seed.to_string(), n.to_string(), h.to_string()]).arg(&out);
    c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).stdin(std::process::Stdio::null());
    let ended = c.status();
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    let _ = std::fs::remove_file(&out);
    if !text.ends_with("end\n") {
        return Err(ended.ok().and_then(|s| s.code()));
    }
    let (mut events, mut inputs) = (vec![], vec![]);
    for l in text.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "E" => events.push(Event {
                history: h,
                thread: w[1].parse().unwrap(),
                task: w[2].parse().unwrap(),
                before: w[3].parse::<i64>().ok().filter(|b| *b >= 0).map(|b| b as usize),
                call: w[4].parse().unwrap(),
                ret: w[5].parse().unwrap(),
                digest: w[6].parse().unwrap(),
            }),
            "I" => inputs.push((w[1].parse().unwrap(), w[2] == "1")),
            _ => (),
        }
    }
    Ok((events, inputs))
}

pub fn c17(ctx: &Ctx) -> Value {
    let n = ctx.n(504, 756) as usize;
    let seed = ctx.seed;
    let tasks: Arc<Vec<Task>> = Arc::new((0..n as u64).map(|k| task(seed, k)).collect());
    // each operation alone in a process of its own, twice, in different environments
    let base: Mutex<Vec<Option<u64>>> = Mutex::new(vec![None; n]);
    ctx.drive("fresh processes", n as u64, 0.5, |_, k| {
        let t = &tasks[k as usize];
        let cj = json!({"operation": t.op, "task": k});
        match (fresh(seed, k, 0), fresh(seed, k, 1)) {
            (Some(a), Some(b)) if a == b => {
                base.lock().unwrap()[k as usize] = Some(a);
                ctx.count("operations run alone in a process", 2);
                held(&k.to_le_bytes(), true, cj)
            }
            (Some(_), Some(_)) => violated("two processes disagree on the same operation", cj),
            _ => Outcome::Undecided("the process failed"),
        }
    });
    let base = base.into_inner().unwrap();
    // histories, each in a process of its own: those on one thread side by side, those on eight three at a time
    let log: Mutex<Vec<Event>> = Mutex::new(vec![]);
    let run = |h: u64| {
        let cj = json!({"history": h, "threads": orders(seed, n, h).len()});
        match run_history(seed, n, h) {
            Ok((events, inputs)) => {
                log.lock().unwrap().extend(events);
                ctx.count("inputs found unchanged", inputs.len() as u64);
                match inputs.iter().find(|i| !i.1) {
                    Some(i) => violated("an operation changed its input", json!({"case": cj, "task": i.0, "operation": tasks[i.0].op})),
                    None => held(format!("h{h}").as_bytes(), true, cj),
                }
            }
            Err(Some(78)) => violated("an operation does not return in a history", cj),
            Err(None) => violated("the process of a history is ended by a signal", cj),
            Err(_) => Outcome::Undecided("the process failed"),
        }
    };
    let histories = ctx.n(72, 600);
    let single: Vec<u64> = (0..histories).filter(|h| h % 4 != 3).collect();
    ctx.drive("histories on one thread", single.len() as u64, 0.6, |_, k| run(single[k as usize]));
    let multi: Mutex<Vec<u64>> = Mutex::new((0..histories).rev().filter(|h| h % 4 == 3).collect());
    std::thread::scope(|s| {
        for _ in 0..3 {
            s.spawn(|| loop {
                let next = multi.lock().unwrap().pop();
                let Some(h) = next else { break };
                if ctx.start.elapsed() > ctx.budget.mul_f64(0.9) {
                    ctx.count("histories cut by time", 1);
                    break;
                }
                ctx.record("histories on eight threads", h, run(h));
            });
        }
    });
    {
        // offline check of the log
        let mut log = log.into_inner().unwrap();
        log.sort_by_key(|e| (e.history, e.call));
        let (mut overlaps, mut lookalikes) = (0u64, 0u64);
        let mut contexts = std::collections::HashSet::new();
        for (i, e) in log.iter().enumerate() {
            let same = log[i + 1..]
                .iter()
                .take_while(|f| f.history == e.history && f.call < e.ret)
                .filter(|f| f.thread != e.thread);
            overlaps += same.take(8).count() as u64;
            contexts.insert((e.before, e.task));
            lookalikes += e.before.map_or(false, |b| b != e.task && b / FAMILY == e.task / FAMILY) as u64;
        }
        let mut seen = std::collections::BTreeMap::new();
        log.iter().for_each(|e| *seen.entry(tasks[e.task].op).or_insert(0u64) += 1);
        for (op, n) in seen {
            ctx.count(&format!("events: {op}"), n);
        }
        OPS.iter().for_each(|op| ctx.require(&format!("events: {op}"), 10));
        ctx.count("operations straight after their look-alike", lookalikes);
        ctx.count("events", log.len() as u64);
        ctx.count("overlapping pairs of operations (up to 8 per event)", overlaps);
        ctx.count("distinct (previous operation, operation) pairs", contexts.len() as u64);
        for (i, e) in log.iter().enumerate() {
            let t = &tasks[e.task];
            let cj = json!({"operation": t.op, "task": e.task, "previous": e.before.map(|b| tasks[b].op), "history": e.history,
                "thread": e.thread, "call": e.call, "return": e.ret});
            let o = match base[e.task] {
                Some(d) if d == e.digest => held(format!("{:?}{}", e.before, e.task).as_bytes(), true, cj),
                Some(_) => violated("the result differs from the one in a fresh process", cj),
                None => Outcome::Undecided("no fresh-process result"),
            };
            ctx.record("histories", i as u64, o);
        }
        ctx.require("events", 500);
        ctx.require("inputs found unchanged", 300);
        ctx.require("operations straight after their look-alike", 150);
        ctx.require("overlapping pairs of operations (up to 8 per event)", 200);
        ctx.require("operations run alone in a process", n as u64);
    }
    ctx.finish(
        "Every operation of the libraries (embedding, extraction, watermarking, authentication, features, quantization, coding, signatures, hex, factorials, generator, transform, refused calls) on random inputs: alone in two fresh processes with different environments, then in random histories, each in a process of its own (often with an input right after a look-alike: same size and sum, same bytes, same parameters but one) on one and on eight threads sharing the inputs; the recorded events are checked offline against the fresh-process results. Distinct by (previous operation, operation).",
        &["results compared by a 64-bit digest", "key generation is excluded"],
    )
}
