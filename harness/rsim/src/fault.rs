//! Byte-level faults of simulated transports and disks.

/// mutations, e.g. `flip12`, `cut3`, `grow5`, `del4`, `dup4`, `swap1_9`, `zero3`, `set0_255`, `cat17`, `take17`, `addp`, `rand33_99`, `ins4_7`, `lit:04ff`
pub fn mutate(b: &mut Vec<u8>, m: &str, other: &dyn Fn(&str) -> Vec<u8>) {
    if let Some(h) = m.strip_prefix("lit:") {
        *b = crate::val::unhex(h);
        return;
    }
    let i = m.find(|c: char| c.is_ascii_digit()).unwrap_or(m.len());
    let (k, r) = m.split_at(i);
    let mut it = r.split('_').map(|x| x.parse::<u64>().unwrap_or(0));
    let x = it.next().unwrap_or(0);
    let y = it.next().unwrap_or(0);
    let n = b.len();
    match k {
        // the sign of an Edwards point
        "sign" if n > 0 => b[n - 1] ^= 128,
        "flip" if n > 0 => b[(x / 8) as usize % n] ^= 1 << (x % 8),
        "cut" => b.truncate(n.saturating_sub(x as usize)),
        "keep" => b.truncate(x as usize),
        "grow" => b.extend((0..x.min(100_000)).map(|j| (j as u8).wrapping_mul(y as u8 | 1))),
        "pre" => {
            for _ in 0..x.min(100_000) {
                b.insert(0, y as u8);
            }
        }
        "del" if n > 0 => {
            b.remove(x as usize % n);
        }
        "dup" if n > 0 => {
            let j = x as usize % n;
            let c = b[j];
            b.insert(j, c);
        }
        "ins" => b.insert(x as usize % (n + 1), y as u8),
        "swap" if n > 0 => b.swap(x as usize % n, y as usize % n),
        "zero" if n > 0 => {
            let j = x as usize % n;
            for c in &mut b[j..] {
                *c = 0;
            }
        }
        "ones" if n > 0 => {
            let j = x as usize % n;
            for c in &mut b[j..] {
                *c = 255;
            }
        }
        "set" if n > 0 => b[x as usize % n] = y as u8,
        "rot" if n > 0 => b.rotate_left(x as usize % n),
        "rev" => b.reverse(),
        "cat" => b.extend(other(&x.to_string())),
        "take" => *b = other(&x.to_string()),
        "rand" => {
            let mut r = simrt::rng::Rng::new(y);
            *b = (0..x.min(100_000)).map(|_| r.next() as u8).collect();
        }
        "tear" => {
            // the tail of a write never reached the disk
            let j = (x as usize).min(n);
            for c in &mut b[j..] {
                *c = 0;
            }
        }
        // add y at byte x, with carry towards the front
        "inc" if n > 0 => {
            let mut j = x as usize % n;
            let mut c = y.max(1) as u16;
            loop {
                let s = b[j] as u16 + c;
                b[j] = s as u8;
                c = s >> 8;
                if c == 0 || j == 0 {
                    break;
                }
                j -= 1;
            }
        }
        _ => {}
    }
}
