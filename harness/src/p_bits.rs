//! C20: bit strings against vectors of bits.

use crate::fw::*;
use crate::p_names::h;
use adapton::catalog::bitstring::*;

/// Lowest bit first.
type Bits = Vec<bool>;
fn value(b: &Bits) -> i64 {
    b.iter().enumerate().map(|(i, x)| (*x as i64) << i).sum()
}

fn c20(c: &Case, cx: &mut Cx) -> R {
    let mut t = Tape::new(&c.a);
    let empty = BS { length: 0, value: 0 };
    let mut pool: Vec<(BS, Bits)> = vec![(empty, vec![])];
    // A start of any length.
    let n = t.below(BS::MAX_LEN as usize + 1);
    let mut bs = empty;
    let mut m: Bits = vec![];
    for _ in 0..n {
        let b = t.chance(1, 2);
        bs = BS::prepend(b as i64, bs);
        m.push(b);
    }
    cx.digest(&m);
    cx.show(|| format!("{:?}", m));
    let mut leading = m.last() == Some(&false);
    pool.push((bs, m));
    for (step, op) in c.b.iter().enumerate() {
        let mut t = Tape::new(op);
        let k = t.below(8);
        let i = t.below(pool.len());
        let raw = t.raw();
        let (bs, m) = pool[i].clone();
        let len = m.len();
        let what = format!("step {}: operation {} with {} on {:?}", step, k, raw, m);
        cx.digest(&(k, i, raw));
        cx.show(|| what.clone());
        let new: Option<(BS, Bits)> = match k {
            0 | 1 if (len as i64) < BS::MAX_LEN => {
                let b = raw % 2 == 1;
                let mut m2 = m.clone();
                m2.push(b);
                Some((BS::prepend(b as i64, bs), m2))
            }
            2 => {
                let n = scale(raw, 64);
                let m2 = (0..len).map(|j| j >= n && m[j - n]).collect();
                Some((BS::shift_left(bs, n as i64), m2))
            }
            3 if len > 0 => {
                let j = scale(raw, len);
                let mut m2 = m.clone();
                m2[j] = !m2[j];
                Some((BS { length: bs.length, value: BS::flip(j as i64, bs.value) }, m2))
            }
            4 => {
                // Tests, within and beyond the length.
                for j in 0..62 {
                    let want = j < len && m[j];
                    ensure!(BS::is_set(j as i64, bs.value) == want, "{}: bit {} is set: {}", what, j, !want)
                }
                None
            }
            5 => {
                // Any number, any bit below the sign.
                let mut v = (raw as i64).wrapping_mul(0x5851_f42d_4c95_7f2d).wrapping_add(op[3] as i64) >> (op[3] % 60);
                let j = scale(op[2], 63) as i64;
                let want = v ^ (1i64 << j);
                ensure!(BS::is_set(j, v) == (v >> j & 1 == 1), "{}: bit {} of {}", what, j, v);
                ensure!(BS::flip(j, v) == want, "{}: flipping bit {} of {} gives {}", what, j, v, BS::flip(j, v));
                v = BS::flip(j, want);
                ensure!(v == want ^ (1i64 << j), "{}: flipped twice", what);
                None
            }
            6 => {
                let (b, n) = (raw as i64 % 17 - 8, scale(op[3], 64) as u32);
                if let Some(p) = b.checked_pow(n) {
                    // Intermediate squares stay in range with the result.
                    ensure!(BS::pow(b, n as i64) == p, "{}: {}^{} is {}", what, b, n, BS::pow(b, n as i64))
                }
                None
            }
            _ => {
                let b = [2i64, -1, 3, i64::max_value(), i64::min_value()][scale(raw, 5)];
                ensure!(catch(|| BS::prepend(b, bs)).is_err(), "{}: prepended {}", what, b);
                None
            }
        };
        if let Some((bs, m)) = new {
            ensure!(BS::length(bs) == m.len() as i64 && bs.length == m.len() as i64, "{}: length {}", what, BS::length(bs));
            ensure!(bs.value == value(&m), "{}: {:?} instead of {:?} ({})", what, bs, m, value(&m));
            for j in 0..m.len() {
                ensure!(BS::is_set(j as i64, bs.value) == m[j], "{}: bit {} of {:?}", what, j, bs)
            }
            leading |= m.last() == Some(&false);
            pool.push((bs, m));
        }
    }
    for (a, m) in &pool {
        for (b, n) in &pool {
            ensure!((a == b) == (m == n), "{:?} and {:?} are equal: {}", m, n, a == b);
            ensure!(m != n || h(a) == h(b), "{:?} hashes in two ways", m);
        }
    }
    cx.label_if(leading, "leading zeros");
    cx.label_if(pool.iter().any(|(_, m)| m.len() as i64 == BS::MAX_LEN), "maximal length");
    cx.nontrivial = pool.len() > 3;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        a: (1, 32),
        b: (2, 24),
        quick: 800_000,
        thorough: 10_000_000,
        run: c20,
        rule: "A bit string of any length up to the maximum and a pool of those made from it by prepending, shifting (by up to 63) and flipping, tests of every bit, flips and tests of any number, powers, and rejected bits; equality and hashes of all pairs; non-trivial: at least two new bit strings were made",
        assumptions: &["lengths up to MAX_LEN, bit positions below the sign, powers that fit"],
    }]
}
