//! Damaging one field of one node of a produced pair.

use crate::cdata::*;
use crate::rng::Rng;
use std::ptr;

/// Formats a node could be given by mistake.
fn other_format(ty: &Ty, rng: &mut Rng) -> Vec<u8> {
    let own = ty.format().into_bytes();
    loop {
        let f: Vec<u8> = match rng.below(8) {
            0..=2 => rng
                .pick(&[
                    "n", "b", "c", "C", "s", "S", "i", "I", "l", "L", "e", "f", "g", "z", "Z", "u", "U", "vu", "d:10,2", "w:4", "tdD", "tsu:", "+l", "+L", "+vl", "+s", "+m", "+r", "+w:1", "+w:2",
                    "+w:3", "+w:5", "+w:8", "+w:", "+w", "+", "", "w:3", "+W:3", "+w:-1",
                ])
                .as_bytes()
                .to_vec(),
            3 => [own.as_slice(), &[*rng.pick(b" il0:\x01\xff")]].concat(),
            4 => own[..own.len() - 1].to_vec(),
            5 => [&[*rng.pick(b" +wil")], own.as_slice()].concat(),
            6 => {
                let mut f = own.clone();
                let i = rng.below(f.len());
                f[i] = rng.range(1, 255) as u8;
                f
            }
            _ => match ty.kind {
                Kind::Fsl(n, _) => match rng.below(4) {
                    0 => format!("+w:{}", n as u128 + (1 << 64)).into_bytes(),
                    1 => format!("+w:{}", n + 1).into_bytes(),
                    2 => format!("+w:{}", n.wrapping_sub(1)).into_bytes(),
                    _ => format!("+w:{n}{n}").into_bytes(),
                },
                _ => own.iter().map(|b| b ^ 0x20).collect(),
            },
        };
        let same_width = matches!(ty.kind, Kind::Fsl(n, _) if f.strip_prefix(b"+w:").is_some_and(|d| d.iter().all(u8::is_ascii_digit) && std::str::from_utf8(d).is_ok_and(|d| d.parse() == Ok(n))));
        if f != own && !f.contains(&0) && !same_width {
            return f;
        }
    }
}

/// Applies one damage to a node; what was done, or `None` if it does not apply.
pub unsafe fn damage(l: &Ledger, ty: &Ty, a: *mut CArray, s: *mut CSchema, rng: &mut Rng) -> Option<String> {
    unsafe {
        let (ar, sc) = (&mut *a, &mut *s);
        let n = ar.length.max(0) as usize;
        let intact = !ar.buffers.is_null();
        let weird = |rng: &mut Rng| *rng.pick(&[1, -1, 2, 3, 7, 8, 64, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 32, -(1 << 32)]);
        match rng.below(22) {
            0 => {
                ar.release = None;
                Some("array released".into())
            }
            1 => {
                sc.release = None;
                Some("schema released".into())
            }
            2 => {
                sc.format = ptr::null();
                Some("format missing".into())
            }
            3 => {
                let f = other_format(ty, rng);
                sc.format = l.text(&f);
                Some(format!("format {:?}", String::from_utf8_lossy(&f)))
            }
            4 => {
                sc.flags ^= NULLABLE;
                Some(format!("flags {}", sc.flags))
            }
            5 => {
                ar.length = match (&ty.kind, rng.below(4)) {
                    // Only fixed-size lists find out about lengths that are too large.
                    (Kind::Fsl(..), 0) if ar.null_count <= ar.length => *rng.pick(&[(n as i64).saturating_add(1), (n as i64).saturating_add(8), i64::MAX, 1 << 32, i64::MAX / 2 + 1]),
                    (_, 1 | 2) if n > 0 => rng.below(n) as i64,
                    _ => *rng.pick(&[-1, i64::MIN, -8, -(1 << 32), !(n as i64)]),
                };
                Some(format!("length {}", ar.length))
            }
            6 => {
                ar.offset = weird(rng);
                Some(format!("offset {}", ar.offset))
            }
            7 | 8 => {
                ar.null_count = match rng.below(4) {
                    0 => weird(rng),
                    1 => ar.length.saturating_add(1),
                    2 => ar.null_count.wrapping_add(*rng.pick(&[1, -1])),
                    _ => rng.below(n + 2) as i64,
                };
                Some(format!("null count {}", ar.null_count))
            }
            9 => {
                ar.n_buffers = *rng.pick(&[0, 1, 2, 3, -1, i64::MAX, i64::MIN, 1 << 32, ar.n_buffers.wrapping_add(1 << 32), ar.n_buffers.wrapping_add(1)]);
                Some(format!("{} buffers", ar.n_buffers))
            }
            10 => {
                let n = *rng.pick(&[0, 1, 2, -1, i64::MAX, i64::MIN, 1 << 32, 1 << 32 | 1]);
                let side = rng.below(3);
                if side != 1 {
                    ar.n_children = n;
                }
                if side != 0 {
                    sc.n_children = n;
                }
                Some(format!("{} and {} children", ar.n_children, sc.n_children))
            }
            11 => {
                if rng.coin() {
                    ar.dictionary = l.dictionary_array();
                } else {
                    sc.dictionary = l.dictionary_schema();
                }
                Some("dictionary".into())
            }
            12 => {
                ar.buffers = ptr::null_mut();
                Some("no buffer pointers".into())
            }
            13 if ty.child().is_some() && !ar.children.is_null() && !sc.children.is_null() => {
                match rng.below(4) {
                    0 => ar.children = ptr::null_mut(),
                    1 => sc.children = ptr::null_mut(),
                    2 => ar.children.write(ptr::null_mut()),
                    _ => sc.children.write(ptr::null_mut()),
                }
                Some("a child is missing".into())
            }
            14 | 15 if ty.n_buffers() == 2 && intact && (n > 0 || matches!(ty.kind, Kind::List(_))) => {
                let p = ar.buffers.add(1);
                if ty.align() > 1 && rng.coin() && !p.read().is_null() && p.read().addr() % ty.align() == 0 {
                    let by = rng.range(1, ty.align() - 1);
                    p.write(p.read().cast::<u8>().wrapping_add(by).cast());
                    Some(format!("data misaligned by {by}"))
                } else {
                    p.write(ptr::null());
                    Some("data missing".into())
                }
            }
            16 if ty.nullable && intact => {
                ar.buffers.write(ptr::null());
                Some("validity missing".into())
            }
            17..=19 if matches!(ty.kind, Kind::List(_)) && intact => {
                let p = ar.buffers.add(1).read().cast::<i32>().cast_mut();
                if p.is_null() || p.addr() % 4 != 0 {
                    return None;
                }
                let i = rng.below(n + 1);
                let was = p.add(i).read();
                let now = match rng.below(7) {
                    0 => -1,
                    1 => i32::MIN,
                    2 => i32::MAX,
                    3 => was.wrapping_add(1),
                    4 => was.wrapping_sub(1),
                    5 => !was,
                    _ => rng.below(20) as i32,
                };
                p.add(i).write(now);
                Some(format!("offset {i} is {now} instead of {was}"))
            }
            20 | 21 if !ar.children.is_null() && n < 1 << 16 => {
                let Kind::Fsl(w, c) = &ty.kind else { return None };
                let rows = n * w;
                let now = match rng.below(5) {
                    0 | 1 => rows + rng.range(1, (*w).max(2) - 1),
                    2 => rows + w,
                    3 => rows.saturating_sub(rng.range(1, (*w).max(1))),
                    _ => rng.below(2 * rows + 3),
                };
                if now == rows || now > 1 << 12 {
                    return None;
                }
                let st = Style::any(rng);
                let (child, _) = produce(l, c, &vec![None; now], &st, rng);
                ar.children.write(child);
                Some(format!("{now} child rows for {n} lists of {w}"))
            }
            _ => None,
        }
    }
}
