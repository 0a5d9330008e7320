//! C10 signatures, C21 byte codecs, C23 numeric helpers.
use crate::fw::*;
use crate::refmodel as m;
use crate::rng::Rng;
use ed25519_dalek::Signer;
use serde_json::json;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

// ------------------------------------------------------------------ C10

pub fn add_group_order(s: &mut [u8]) -> bool {
    // L = 2^252 + 27742317777372353535851937790883648493
    const L: [u8; 32] = [
        0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0,
        0, 0, 0, 0, 0, 0, 0, 0x10,
    ];
    let mut c = 0u16;
    for i in 0..32 {
        c += s[i] as u16 + L[i] as u16;
        s[i] = c as u8;
        c >>= 8;
    }
    c == 0
}

const RFC8032: [(&str, &str, &str, &str); 3] = [
    (
        "9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60",
        "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a",
        "",
        "e5564300c360ac729086e2cc806e828a84877f1eb8e5d974d873e065224901555fb8821590a33bacc61e39701cf9b46bd25bf5f0595bbe24655141438e7a100b",
    ),
    (
        "4ccd089b28ff96da9db6c346ec114e0f5b8a319f35aba624da8cf6ed4fb8a6fb",
        "3d4017c3e843895a92b70aa74d1b7ebc9c982ccf2ec4968cc0cd55f12af4660c",
        "72",
        "92a009a9f0d4cab8720e820b5f642540a2b27b5416503f8fb3762223ebdb69da085ac1e43e15996e458f3613d0f11d8c387b2eaeb4302aeeb00d291612bb0c00",
    ),
    (
        "c5aa8df43f9f837bedb7442f31dcb7b166d38535076f094b85ce3a2e0b4458f7",
        "fc51cd8e6218a1a38da47ed00230f0580816ed13ba3303ac5deb911548908025",
        "af82",
        "6291d657deec24024827e69c3abe01a30ce548a284743a445e3680d7db5ac3ac18ff9b538d16f290ae67f760984dc6594a7c15e9716ed28dc027beceea1ec40a",
    ),
];

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

fn keypair(r: &mut Rng) -> (String, String, ed25519_dalek::Keypair) {
    let sk = r.bytes(32);
    let secret = ed25519_dalek::SecretKey::from_bytes(&sk).unwrap();
    let public: ed25519_dalek::PublicKey = (&secret).into();
    let (a, b) = (hex(&sk), hex(public.as_bytes()));
    (a, b, ed25519_dalek::Keypair { secret, public })
}

pub fn c10(ctx: &Ctx) -> serde_json::Value {
    ctx.drive("published vectors", 3, 0.1, |_, k| {
        let (sk, pk, msg, sig) = RFC8032[k as usize];
        let cj = json!({"vector": k});
        match call(|| signature::sign(&unhex(msg), sk, pk)) {
            Ok(s) if s == unhex(sig) => (),
            Ok(s) => return violated(format!("signature {} instead of {sig}", hex(&s)), cj),
            Err(e) => return violated(format!("signing failed: {e}"), cj),
        }
        match call(|| signature::verify(&unhex(msg), &unhex(sig), pk)) {
            Ok(true) => held(&[k as u8], true, cj),
            _ => violated("published signature not accepted", cj),
        }
    });
    ctx.drive("sign and verify", ctx.n(600, 6000), 0.5, |r, k| {
        let (sk, pk, kp) = if r.chance(0.5) {
            let d = [m::SECRET_KEY, m::PUBLIC_KEY].concat();
            (
                hex(&m::SECRET_KEY),
                hex(&m::PUBLIC_KEY),
                ed25519_dalek::Keypair::from_bytes(&d).unwrap(),
            )
        } else {
            keypair(r)
        };
        let n = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => 8 * (1 + r.below(30)),
            3 if r.chance(0.05) => 60_000 + r.below(20_000),
            3 => r.below(3000),
            _ => r.below(300),
        };
        let data = r.payload(n);
        let cj = json!({"data": n, "public key": pk});
        let sig = match call(|| signature::sign(&data, &sk, &pk)) {
            Ok(s) => s,
            Err(e) => return violated(format!("signing failed: {e}"), cj),
        };
        if sig != kp.sign(&data).to_bytes() {
            return violated("signature differs from Ed25519", cj);
        }
        let verify = |d: &Vec<u8>, s: &Vec<u8>, pk: &str| call(|| signature::verify(d, s, pk));
        match verify(&data, &sig, &pk) {
            Ok(true) => (),
            _ => return violated("own signature not accepted", cj),
        }
        let upper = pk.to_uppercase();
        if verify(&data, &sig, &upper) != Ok(true) {
            return violated("own signature not accepted under an upper-case key", cj);
        }
        ctx.count("accepted", 2);
        let bad = |what: String, d: &Vec<u8>, s: &Vec<u8>, pk: &str| -> Option<Outcome> {
            match verify(d, s, pk) {
                Ok(false) => {
                    ctx.count("rejected", 1);
                    None
                }
                Ok(true) => Some(violated(format!("accepted: {what}"), cj.clone())),
                Err(e) => Some(violated(format!("no verdict on {what}: {e}"), cj.clone())),
            }
        };
        // every bit of the signature on some cases, a sample on the others
        let all = k % 16 == 0;
        for b in 0..512 {
            if all || r.chance(0.05) {
                let mut s = sig.clone();
                s[b / 8] ^= 1 << (b % 8);
                if let Some(o) = bad(format!("signature bit {b} flipped"), &data, &s, &pk) {
                    return o;
                }
            }
        }
        for _ in 0..20.min(n * 8) {
            let b = r.below(n * 8);
            let mut d = data.clone();
            d[b / 8] ^= 1 << (b % 8);
            if let Some(o) = bad(format!("data bit {b} flipped"), &d, &sig, &pk) {
                return o;
            }
        }
        let mut d = data.clone();
        d.push(0);
        if let Some(o) = bad("data with a zero appended".into(), &d, &sig, &pk) {
            return o;
        }
        if n > 0 {
            let d = data[..n - 1].to_vec();
            if let Some(o) = bad("data cut short".into(), &d, &sig, &pk) {
                return o;
            }
            if n > 1 && data[0] != data[n - 1] {
                let mut d = data.clone();
                d.swap(0, n - 1);
                if let Some(o) = bad("data with two bytes swapped".into(), &d, &sig, &pk) {
                    return o;
                }
            }
        }
        let (_, other, _) = keypair(r);
        if let Some(o) = bad("another public key".into(), &data, &sig, &other) {
            return o;
        }
        let mut s = sig.clone();
        if add_group_order(&mut s[32..]) {
            if let Some(o) = bad("scalar plus group order".into(), &data, &s, &pk) {
                return o;
            }
            ctx.count("malleated signatures rejected", 1);
        }
        let cut = r.below(64);
        let long = 1 + r.below(64);
        for (what, s) in [
            ("cut signature", sig[..cut].to_vec()),
            ("empty signature", vec![]),
            ("signature with bytes appended", [sig.clone(), r.bytes(long)].concat()),
            ("signature with bytes prepended", [r.bytes(long), sig.clone()].concat()),
            ("zero signature", vec![0; 64]),
            ("all-ones signature", vec![0xff; 64]),
            ("random signature", r.bytes(64)),
            ("halves swapped", [&sig[32..], &sig[..32]].concat()),
            ("zero scalar", [&sig[..32], &[0u8; 32][..]].concat()),
        ] {
            if let Some(o) = bad(what.into(), &data, &s, &pk) {
                return o;
            }
        }
        held(&[&data[..], &sig[..]].concat(), true, cj)
    });
    ctx.drive("agreement", ctx.n(3000, 30000), 0.2, |r, _| {
        // arbitrary 64-byte strings and mixtures: same verdict as the library
        let n = r.below(40);
        let data = r.payload(n);
        let mut s = m::ref_sign(&data);
        match r.below(4) {
            0 => s = r.bytes(64),
            1 => {
                let i = r.below(64);
                s[i] = r.next() as u8
            }
            2 => s[63] = r.next() as u8,
            _ => (),
        }
        let cj = json!({"data": hex(&data), "signature": hex(&s)});
        let want = m::ref_verify(&data, &s);
        match call(|| signature::verify(&data, &s, &hex(&m::PUBLIC_KEY))) {
            Ok(v) if v == want => {
                ctx.count(if v { "agreed accepted" } else { "agreed rejected" }, 1);
                held(&s, true, cj)
            }
            Ok(v) => violated(format!("verdict {v}, Ed25519 says {want}"), cj),
            Err(e) => violated(format!("no verdict: {e}"), cj),
        }
    });
    #[cfg(feature = "h_sig")]
    ctx.drive("generated keys", ctx.n(200, 2000), 0.2, |r, _| {
        let (a, b) = match call(signature::monitor::generate) {
            Ok((sk, pk)) => (sk, pk),
            Err(e) => return violated(format!("key generation failed: {e}"), json!({})),
        };
        let cj = json!({"public key": b});
        for k in [&a, &b] {
            if k.len() != 64 || !k.bytes().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(&c)) {
                return violated(format!("key text {k:?}"), cj);
            }
        }
        let data = r.bytes(40);
        let s = match call(|| signature::sign(&data, &a, &b)) {
            Ok(s) => s,
            Err(e) => return violated(format!("generated keys do not sign: {e}"), cj),
        };
        if call(|| signature::verify(&data, &s, &b)) != Ok(true) {
            return violated("signature by generated keys not accepted", cj);
        }
        let second = call(signature::monitor::generate).unwrap();
        if second.0 == a || second.1 == b {
            return violated("the same keys were generated twice", cj);
        }
        if call(|| signature::verify(&data, &s, &second.1)) != Ok(false) {
            return violated("accepted under another generated key", cj);
        }
        ctx.count("generated pairs", 2);
        held(b.as_bytes(), true, cj)
    });
    ctx.require("accepted", 400);
    ctx.require("rejected", 5000);
    ctx.require("malleated signatures rejected", 100);
    ctx.finish(
        "RFC 8032 vectors; random keys and data signed, compared with ed25519-dalek called by the check, then verified unmodified and under single-bit, length, key, and scalar manipulations; arbitrary strings compared with the library's verdict; generated key pairs. Distinct by data and signature.",
        &["ed25519-dalek is trusted as the reference"],
    )
}

// ------------------------------------------------------------------ C21

pub fn c21(ctx: &Ctx) -> serde_json::Value {
    use utils::bytes::*;
    use utils::format::{decode_hex, encode_hex};
    ctx.drive("hex", ctx.n(60000, 600000), 0.3, |r, k| {
        let n = match r.below(300) {
            _ if k < 256 => 1,
            0 => r.below(70_000),
            1 | 2 => [255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097][r.below(10)],
            _ => r.below(200),
        };
        let b = if k < 256 { vec![k as u8] } else { r.payload(n) };
        let cj = json!({"bytes": n});
        let t = match call(|| encode_hex(&b)) {
            Ok(t) => t,
            Err(e) => return violated(format!("encoding panicked: {e}"), cj),
        };
        if t != hex(&b) {
            return violated(format!("{} encoded as {t}", hex(&b)), cj);
        }
        for s in [
            t.clone(),
            t.to_uppercase(),
            t.chars()
                .map(|c| if r.chance(0.5) { c.to_ascii_uppercase() } else { c })
                .collect(),
        ] {
            match call(|| decode_hex(&s)) {
                Ok(Ok(x)) if x == b => (),
                other => return violated(format!("{s} decoded as {other:?}"), cj),
            }
        }
        ctx.count("bytes compared", n as u64);
        held(&b, n > 0, cj)
    });
    ctx.drive("malformed hex", ctx.n(60000, 600000), 0.3, |r, _| {
        let n = r.below(40);
        let b = r.bytes(n);
        let mut t: Vec<char> = hex(&b).chars().collect();
        let odd = [
            'g', 'G', '+', '-', ' ', 'x', 'é', '水', '\0', '٣', '/', ':', '@', '`', '😀', '\n',
        ];
        match r.below(4) {
            0 => {
                if !t.is_empty() {
                    let i = r.below(t.len());
                    t[i] = *r.pick(&odd);
                } else {
                    t.push(*r.pick(&odd))
                }
            }
            1 => {
                let i = r.below(t.len() + 1);
                t.insert(i, *r.pick(&['0', 'a', 'F', '9']));
            }
            2 => {
                let i = r.below(t.len() + 1);
                t.insert(i, *r.pick(&odd));
            }
            _ => {
                for _ in 0..2 {
                    let i = r.below(t.len() + 1);
                    t.insert(i, *r.pick(&odd));
                }
            }
        }
        let s: String = t.into_iter().collect();
        let cj = json!({"text": s});
        match call(|| decode_hex(&s)) {
            Ok(Err(_)) => {
                ctx.count("malformed texts reported", 1);
                held(s.as_bytes(), true, cj)
            }
            Ok(Ok(x)) => violated(format!("accepted as {}", hex(&x)), cj),
            Err(e) => violated(format!("panicked: {e}"), cj),
        }
    });
    ctx.drive("integers", ctx.n(40000, 400000), 0.3, |r, k| {
        let n = if r.chance(0.003) { r.below(9000) } else { r.below(40) };
        let edge = [
            0u64,
            1,
            0x7f,
            0x80,
            0xff,
            0x100,
            0x7fff,
            0x8000,
            0xffff,
            1 << 31,
            u32::MAX as u64,
            1 << 63,
            u64::MAX,
            i64::MAX as u64,
        ];
        let a: Vec<i64> = (0..n)
            .map(|_| {
                if r.chance(0.4) {
                    *r.pick(&edge) as i64
                } else {
                    r.next() as i64 >> r.below(64)
                }
            })
            .collect();
        let u: Vec<u16> = if k < 65536 {
            vec![k as u16]
        } else {
            a.iter().map(|x| *x as u16).collect()
        };
        let cj = json!({"i64": a, "u16": u});
        let mut want = vec![];
        for x in &a {
            for i in 0..8 {
                want.push((*x as u64 >> (8 * i)) as u8);
            }
        }
        match call(|| vec_i64_to_bytes(&a)) {
            Ok(b) if b == want => (),
            other => return violated(format!("i64 bytes: {other:?}"), cj),
        }
        match call(|| vec_i64_from_bytes(&want)) {
            Ok(b) if b == a => (),
            other => return violated(format!("i64 from bytes: {other:?}"), cj),
        }
        let mut want = vec![];
        for x in &u {
            want.push(*x as u8);
            want.push((*x >> 8) as u8);
        }
        match call(|| vec_u16_to_bytes(&u)) {
            Ok(b) if b == want => (),
            other => return violated(format!("u16 bytes: {other:?}"), cj),
        }
        match call(|| vec_u16_from_bytes(&want)) {
            Ok(b) if b == u => (),
            other => return violated(format!("u16 from bytes: {other:?}"), cj),
        }
        ctx.count("integers compared", (a.len() + u.len()) as u64);
        held(format!("{a:?}{u:?}").as_bytes(), true, cj)
    });
    ctx.require("hex.held", 10000);
    ctx.require("malformed texts reported", 10000);
    ctx.require("integers compared", 100000);
    ctx.finish(
        "Byte strings to hex and back in lower, upper and mixed case; texts damaged by a wrong, missing, extra or multi-byte character; integer lists with edge values to little-endian bytes and back. Distinct by content.",
        &[],
    )
}

// ------------------------------------------------------------------ C23

pub fn c23(ctx: &Ctx) -> serde_json::Value {
    use utils::math::factorial;
    use utils::pseudo_random::{Generate, PseudoRandom};
    ctx.drive("factorial", ctx.n(171, 171), 0.2, |_, k| {
        let want: f64 = (1..=k).map(|x| x as f64).product();
        let cj = json!({"n": k, "factorial": want});
        match call(|| factorial(k as f64)) {
            Ok(f) if (f - want).abs() <= want * 1e-13 && (k > 18 || f == want) => held(&[k as u8], true, cj),
            other => violated(format!("{k}! = {other:?} instead of {want}"), cj),
        }
    });
    ctx.drive("factorial of fractions", ctx.n(20000, 200000), 0.3, |r, _| {
        // up to where no f64 holds the value, between the poles, and the closest neighbours of whole numbers
        let mut x = if r.chance(0.3) {
            r.float(-40., 172.)
        } else {
            r.float(0., 60.)
        };
        if r.chance(0.2) {
            x = r.range(-30, 170) as f64 + 0.5;
        } else if r.chance(0.3) {
            let whole = r.range(-20, 170) as f64;
            let ulps = 1 + r.below(3) as u64;
            let away = whole.to_bits();
            x = if whole == 0. {
                (if r.chance(0.5) { 1. } else { -1. }) * 10f64.powi(-(r.below(300) as i32))
            } else {
                f64::from_bits(if r.chance(0.5) { away + ulps } else { away - ulps })
            };
            ctx.count("neighbours of whole numbers", 1);
        }
        if x.fract() == 0. {
            return Outcome::Undecided("integer");
        }
        let cj = json!({"x": x});
        let a = match call(|| factorial(x)) {
            Ok(a) => a,
            _ => return violated("factorial panicked", cj),
        };
        // gamma(x + 1) from its value above 1 and the recurrence downwards; the sign is that of the factors passed
        let mut steps = vec![];
        let mut y = x;
        while y < 0. {
            y += 1.;
            steps.push(y);
        }
        // the smallest factor is the distance to the pole, taken without rounding
        let pole = (x - x.round()).abs();
        let mut lg = crate::feat::ln_gamma(y + 1.);
        let mut negative = false;
        for (i, _) in steps.iter().enumerate() {
            let f = x + 1. + i as f64;
            let f = if f.abs() < 0.5 { x - x.round() } else { f };
            lg -= f.abs().ln();
            negative ^= f < 0.;
        }
        let noise = if x < 0. {
            1e-14 * (1. + x.abs()) / pole.max(1e-300)
        } else {
            0.
        };
        if noise > 0.1 {
            // at a pole only the magnitude can be told
            return if a.abs() > 1e3 * (lg - 200.).exp().min(1e-30) {
                held(&x.to_le_bytes(), true, cj)
            } else {
                violated(format!("({x})! = {a} at a pole"), cj)
            };
        }
        if lg > 709.7 && a == f64::INFINITY || lg < -700. && a.abs() < 1e-300 {
            return held(&x.to_le_bytes(), true, cj);
        }
        if !((a.abs().ln() - lg).abs() <= 1e-6 + noise) || (a < 0.) != negative {
            return violated(
                format!("({x})! = {a}, gamma gives {}{}", if negative { "-" } else { "" }, lg.exp()),
                cj,
            );
        }
        if x < 0. {
            ctx.count("negative fractions", 1);
        }
        ctx.count("fractional factorials", 1);
        held(&x.to_le_bytes(), true, cj)
    });
    ctx.drive("factorial beyond", ctx.n(400, 2000), 0.2, |r, k| {
        // poles and values no f64 holds; unbounded or very deep recursion ends the process
        let x = match k % 5 {
            0 => -(1 + k as i64 / 5) as f64,
            1 => 171. + k as f64 / 5.,
            2 => -(r.below(1 << 53) as f64) - 1.,
            3 => (r.below(1 << 53) as f64).max(171.),
            _ => *r.pick(&[-1e18, 1e18, -1e300, 1e300, 9.3e18, -9.3e18, 171., -1., 1e6, -1e6]),
        };
        let cj = json!({"x": x});
        match call(|| factorial(x)) {
            Ok(f) if f == f64::INFINITY => held(&x.to_le_bytes(), true, cj),
            other => violated(format!("({x})! = {other:?}"), cj),
        }
    });
    ctx.drive("random sequence", ctx.n(20000, 200000), 0.3, |r, _| {
        let seed = if r.chance(0.5) { r.below(1000) } else { r.below(1 << 40) };
        let cj = json!({"seed": seed});
        let n = 20 + r.below(80);
        let other = r.below(1 << 30);
        let (lo, w) = (r.float(-1000., 1000.), r.float(0., 1000.));
        let res = call(|| {
            let mut a = PseudoRandom { seed };
            let mut b = PseudoRandom { seed: other };
            let first: Vec<f64> = (0..n).map(|_| a.generate_unit()).collect();
            for _ in 0..r.below(5) {
                b.generate_unit();
            }
            b.seed(seed);
            let second: Vec<f64> = (0..n).map(|_| b.generate_unit()).collect();
            // restarted in the middle
            let mut c = PseudoRandom { seed: seed + n / 2 };
            let tail: Vec<f64> = (n / 2..n).map(|_| c.generate_unit()).collect();
            a.seed(seed);
            let ranged: Vec<f64> = (0..n).map(|_| a.generate(lo, lo + w)).collect();
            (first, second, tail, ranged)
        });
        let (first, second, tail, ranged) = match res {
            Ok(x) => x,
            Err(e) => return violated(format!("panicked: {e}"), cj),
        };
        if first != second {
            return violated("same seed, different sequence", cj);
        }
        if first[n / 2..] != tail[..] {
            return violated("sequence restarted in the middle differs", cj);
        }
        for (i, (u, v)) in first.iter().zip(&ranged).enumerate() {
            if !(0. ..1.).contains(u) {
                return violated(format!("value {u} outside 0..1"), cj);
            }
            let want = lo + u * w;
            if !((v - want).abs() <= 1e-9 * (1. + lo.abs() + w)) || *v < lo - 1e-9 || *v > lo + w + 1e-9 {
                return violated(
                    format!("value {v} for the range {lo}..{} where the unit value is {u}", lo + w),
                    cj,
                );
            }
            let a = (seed + i + 1) as f64 * 15485863.;
            if a * a * a % 2038074743. / 2038074743. != *u {
                return violated(format!("value {i} of the sequence is {u}"), cj);
            }
        }
        let distinct: std::collections::HashSet<u64> = first.iter().map(|x| x.to_bits()).collect();
        if distinct.len() * 2 < n {
            return violated(format!("{} distinct values among {n}", distinct.len()), cj);
        }
        ctx.count("random values", n as u64);
        held(&seed.to_le_bytes(), true, cj)
    });
    ctx.require("factorial.held", 171);
    ctx.require("factorial beyond.held", 300);
    ctx.require("fractional factorials", 5000);
    ctx.require("negative fractions", 1000);
    ctx.require("neighbours of whole numbers", 1000);
    ctx.require("random values", 100000);
    ctx.finish(
        "Factorials of every integer up to 170 and of random fractions from -40 to 172, neighbours of whole numbers among them, against the log-gamma function of the check; generator sequences replayed, restarted, reseeded, scaled, and compared with the documented recurrence. Distinct by argument.",
        &["1e-6 relative agreement for fractional factorials"],
    )
}
