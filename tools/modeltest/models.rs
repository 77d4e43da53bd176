// Every function is evaluated by the abstract interpreter with an unknown byte, and natively for all 256 bytes; the two must agree.
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

macro_rules! tests { ($($name:ident($x:ident) $body:block)*) => { $(pub fn $name($x: u8) -> u64 $body)*
    pub const ALL: &[(&str, fn(u8) -> u64)] = &[$((stringify!($name), $name)),*]; } }

fn sgn(o: Ordering) -> u64 { match o { Ordering::Less => 1, Ordering::Equal => 2, Ordering::Greater => 3 } }
fn arr(x: u8) -> [u8; 6] { [x, x ^ 0x55, 3, x.wrapping_add(7), 200, x >> 1] }

tests! {
    rposition(x) { arr(x).iter().rposition(|&v| v < 100).map_or(99, |p| p as u64) }
    position(x) { arr(x).iter().position(|&v| v > 100).map_or(99, |p| p as u64) }
    rfind(x) { arr(x).iter().rfind(|&&v| v < 50).copied().unwrap_or(255) as u64 }
    map_while(_x) { (0..20u64).map_while(|i| if i * i < 90 { Some(i * 3) } else { None }).sum() }
    max_by(x) { *arr(x).iter().max_by(|a, b| a.cmp(b)).unwrap() as u64 }
    min_by(x) { *arr(x).iter().min_by(|a, b| (*a ^ 1).cmp(&(*b ^ 1))).unwrap() as u64 }
    max_key(x) { *arr(x).iter().max_by_key(|v| **v & 15).unwrap() as u64 }
    min_key(x) { *arr(x).iter().min_by_key(|v| **v & 15).unwrap() as u64 }
    maxs(x) { *arr(x).iter().max().unwrap() as u64 + ((*arr(x).iter().min().unwrap() as u64) << 8) }
    smax(x) { let a = [x as i8, 3, -4]; *a.iter().max().unwrap() as i64 as u64 }
    smin(x) { let a = [x as i8, 3, -4]; *a.iter().min().unwrap() as i64 as u64 }
    smaxkey(x) { let a = [x as i8, 3, -4]; *a.iter().max_by_key(|v| **v).unwrap() as i64 as u64 }
    itereq(x) { arr(x).iter().eq([x, x ^ 0x55, 3, 12, 200, 2].iter()) as u64 }
    try_fold_opt(x) { arr(x).iter().try_fold(0u8, |a, &v| a.checked_add(v)).map_or(4096, |v| v as u64) }
    try_fold_res(x) { match arr(x).iter().try_fold(0u64, |a, &v| if v == 3 { Err(a) } else { Ok(a + v as u64) }) { Ok(v) => v, Err(v) => v + 5000 } }
    try_for_each(x) { let r = arr(x).iter().try_for_each(|&v| if v > 210 { ControlFlow::Break(v) } else { ControlFlow::Continue(()) });
        match r { ControlFlow::Break(v) => v as u64, ControlFlow::Continue(()) => 7 } }
    question(x) { fn f(x: u8) -> Option<u8> { let y = x.checked_sub(10)?; let z = y.checked_mul(2)?; Some(z) } f(x).map_or(999, |v| v as u64) }
    questionr(x) { fn g(x: u8) -> Result<u8, u64> { if x & 1 == 1 { Err(x as u64 + 300) } else { Ok(x / 2) } }
        fn f(x: u8) -> Result<u8, u64> { let a = g(x)?; let b = g(a)?; Ok(b + 1) } match f(x) { Ok(v) => v as u64, Err(e) => e } }
    nth_back(x) { let a = arr(x); let mut it = a.iter(); let p = *it.nth_back(1).unwrap() as u64; p + 256 * *it.next_back().unwrap() as u64 }
    from_fn(x) { let mut c = 0u64; let v: Vec<u64> = std::iter::from_fn(|| { c += 1; if c < 5 { Some(c * x as u64) } else { None } }).collect(); v.iter().sum() }
    repeat_with(x) { let mut c = x as u64; std::iter::repeat_with(|| { c += 2; c }).take(4).fold(0, |a, b| a * 3 + b) }
    successors(x) { std::iter::successors(Some(x as u64 + 1), |v| if *v < 16777216 { Some(*v * 10) } else { None }).take(3).sum() }
    rchunks(x) { arr(x).rchunks(4).fold(0u64, |a, c| a * 7 + c.iter().map(|v| *v as u64).sum::<u64>()) }
    chunks(x) { arr(x).chunks(4).fold(0u64, |a, c| a * 7 + c.iter().map(|v| *v as u64).sum::<u64>()) }
    chunks_exact(x) { arr(x).chunks_exact(4).map(|c| c[1] as u64 * c[3] as u64).sum() }
    windows(x) { arr(x).windows(2).map(|w| (w[0] > w[1]) as u64).sum() }
    ends_with(x) { (arr(x).ends_with(&[200, 9]) as u64) + 2 * (arr(x).starts_with(&[x, 0x40]) as u64) }
    fill_with(x) { let mut a = arr(x); let mut k = x; a[1..4].fill_with(|| { k = k.wrapping_mul(3); k }); a.iter().fold(0, |s, &v| s * 5 + v as u64) }
    copy_within(x) { let mut a = arr(x); a.copy_within(1..4, 3); a.iter().fold(0, |s, &v| s * 5 + v as u64) }
    rotate(x) { let mut a = arr(x); a.rotate_left(2); a[2..].rotate_right(1); a.iter().fold(0, |s, &v| s * 5 + v as u64) }
    swap_with(x) { let mut a = arr(x); let (p, q) = a.split_at_mut(3); p.swap_with_slice(q); a.iter().fold(0, |s, &v| s * 5 + v as u64) }
    swap(x) { let mut a = arr(x); a.swap(0, 5); a.swap((x & 3) as usize, 4); a.iter().fold(0, |s, &v| s * 5 + v as u64) }
    memswap(x) { let mut a = arr(x); let mut b = 9; std::mem::swap(&mut a[2], &mut b); a[2] as u64 * 4096 + b as u64 }
    reverse(x) { let mut a = arr(x); a[1..5].reverse(); a.iter().fold(0, |s, &v| s * 5 + v as u64) }
    sort(x) { let mut a = [5u8, 9, 1, 4]; a.sort(); let mut b = [3i32, -5, 2]; b.sort_unstable(); a[0] as u64 + 10 * a[3] as u64 + (b[0] + 50) as u64 * 4096 + x as u64 }
    sort_by(_x) { let mut a = [(5u8, 1u8), (9, 2), (1, 3), (5, 0)]; a.sort_by(|p, q| q.0.cmp(&p.0).then(p.1.cmp(&q.1))); a.iter().fold(0, |s, v| s * 11 + v.1 as u64) }
    sort_key(_x) { let mut a = [15u8, 29, 31, 4]; a.sort_by_key(|v| v % 10); a.iter().fold(0, |s, &v| s * 50 + v as u64) }
    partition_point(x) { [1u8, 5, 20, 90, 200].partition_point(|&v| v < x) as u64 }
    binary_search(_x) { let r = match [1u8, 5, 20, 90].binary_search(&20) { Ok(i) => i as u64, Err(_) => 77 }; r + match [1u8, 5, 20, 90].binary_search(&21) { Ok(i) => i as u64, Err(i) => 100 * i as u64 } }
    resize_with(x) { let mut v = vec![x]; let mut k = 0u8; v.resize_with(4, || { k += 1; k }); v.iter().fold(0, |s, &v| s * 5 + v as u64) }
    resize(x) { let mut v = vec![x, 2, 3]; v.resize(5, 9); v.resize(4, 0); v.iter().fold(0, |s, &v| s * 5 + v as u64) }
    split_off(x) { let mut v = vec![x, 2, 3, 4]; let w = v.split_off(3); v.len() as u64 * 100 + w[0] as u64 + v[0] as u64 }
    retain(x) { let mut v = vec![1u8, 2, 3, 4, 5]; v.retain(|a| a % 2 == 1); v.iter().map(|&a| a as u64).sum::<u64>() + x as u64 }
    dedup(_x) { let mut v = vec![1u8, 1, 2, 2, 1]; v.dedup(); v.len() as u64 }
    drain(x) { let mut v = arr(x).to_vec(); let d: Vec<u8> = v.drain(1..3).collect(); v.len() as u64 * 4096 + d[0] as u64 + v[1] as u64 }
    insert_remove(x) { let mut v = vec![1, x, 3]; v.insert(1, 8); let r = v.remove(2); let s = v.swap_remove(0); v.iter().fold(0, |s, &v| s * 5 + v as u64) + r as u64 * 4096 + s as u64 * 16777216 }
    extend(x) { let mut v = vec![x]; v.extend_from_slice(&[1, 2]); v.extend(arr(x).iter().skip(4)); v.append(&mut vec![7]); v.truncate(5); v.iter().fold(0, |s, &v| s * 5 + v as u64) }
    pops(x) { let mut v = arr(x).to_vec(); let mut s = 0; while let Some(t) = v.pop() { s = s * 3 + t as u64; } s }
    vecdeque(x) { let mut d = VecDeque::new(); d.push_back(x); d.push_back(3); d.push_front(9); let a = d.pop_front().unwrap(); let b = d.pop_back().unwrap(); a as u64 * 100 + b as u64 * 4096 + d.len() as u64 }
    opt_and(x) { let a = x.checked_sub(100); let b = x.checked_add(100); a.and(b).map_or(1, |v| v as u64) + a.xor(b).map_or(2000, |v| v as u64 * 3) }
    opt_or(x) { let a = x.checked_sub(100); let b = x.checked_add(100); a.or(b).map_or(1, |v| v as u64) + b.or_else(|| Some(4)).unwrap() as u64 * 4096 }
    opt_goi(x) { let mut o = x.checked_sub(9); *o.get_or_insert_with(|| 77) += 1; let mut p: Option<u8> = None; *p.get_or_insert(x) ^= 3; let mut q = Some(1u8); *q.insert(x) |= 1; o.unwrap() as u64 + 4096 * p.unwrap() as u64 + q.unwrap() as u64 * 1073741824 }
    opt_flat(x) { let o = if x > 4 { Some(x.checked_sub(9)) } else { None }; o.flatten().map_or(555, |v| v as u64) }
    opt_unzip(x) { let (a, b) = x.checked_sub(9).map(|v| (v, v ^ 1)).unzip(); a.unwrap_or(0u8) as u64 + b.unwrap_or(9u8) as u64 * 4096 }
    opt_zip(x) { x.checked_sub(9).zip(x.checked_add(9)).map_or(5, |(a, b)| a as u64 * 300 + b as u64) }
    opt_transpose(x) { let o: Option<Result<u8, u8>> = if x < 9 { None } else if x < 99 { Some(Err(x)) } else { Some(Ok(x)) }; match o.transpose() { Ok(Some(v)) => v as u64, Ok(None) => 4096, Err(e) => 2000 + e as u64 } }
    opt_take(x) { let mut o = x.checked_sub(9); let a = o.take(); let b = o.replace(4); a.map_or(0, |v| v as u64) + o.map_or(0, |v| v as u64 * 4096) + b.is_none() as u64 * 16777216 }
    opt_take_if(x) { let mut o = x.checked_sub(9); let a = o.take_if(|v| *v > 40); a.map_or(7, |v| v as u64) * 4096 + o.map_or(3, |v| v as u64) }
    opt_filter(x) { x.checked_sub(9).filter(|v| v % 2 == 0).map_or(7, |v| v as u64) }
    opt_some_and(x) { x.checked_sub(9).is_some_and(|v| v > 4) as u64 + 2 * x.checked_sub(9).is_none_or(|v| v > 4) as u64 }
    opt_asref(x) { let mut o = x.checked_sub(9); if let Some(v) = o.as_mut() { *v ^= 5; } *o.as_ref().unwrap_or(&3) as u64 }
    opt_iter(x) { x.checked_sub(9).iter().map(|v| *v as u64).sum() }
    opt_eq(x) { (x.checked_sub(9) == Some(4)) as u64 + 2 * (x.checked_sub(9) == None) as u64 }
    res_misc(x) { let r: Result<u8, u8> = if x > 100 { Ok(x) } else { Err(x ^ 7) }; r.err().map_or(0, |v| v as u64) + r.map_or(5, |v| v as u64 * 4096) + r.map_or_else(|e| e as u64, |v| v as u64 + 1) * 1073741824 + r.is_ok_and(|v| v > 200) as u64 }
    res_maperr(x) { let r: Result<u8, u8> = if x > 100 { Ok(x) } else { Err(x ^ 7) }; match r.map_err(|e| e as u64 * 4096).and_then(|v| if v > 200 { Ok(v) } else { Err(3) }) { Ok(v) => v as u64, Err(e) => e } }
    res_or(x) { let r: Result<u8, u8> = if x > 100 { Ok(x) } else { Err(x ^ 7) }; let s: Result<u8, u8> = r.or(Ok(4)); s.unwrap() as u64 + r.unwrap_or_else(|e| e / 2) as u64 * 4096 }
    ordering(x) { let o = x.cmp(&77); sgn(o) + 10 * sgn(o.reverse()) + 100 * o.is_lt() as u64 + 4096 * o.is_ge() as u64 + 1048576 * o.is_ne() as u64 + 16777216 * sgn(o.then_with(|| x.cmp(&9))) }
    partial_cmp(x) { sgn((x as i8).partial_cmp(&-3).unwrap()) }
    clamp(x) { x.clamp(20, 90) as u64 + 4096 * x.max(30).min(40) as u64 + 1073741824 * (x as i8).max(-3) as u8 as u64 }
    neg(x) { x.checked_neg().map_or(9, |v| v as u64) + (x as i8).checked_neg().map_or(500, |v| v as u8 as u64 * 4096) + (x as i8).overflowing_neg().1 as u64 * 1073741824 + x.wrapping_neg() as u64 * 17179869184 }
    minmaxv(x) { (i16::MIN as u16 as u64) ^ (u8::MAX as u64) ^ x as u64 }
    unbounded(x) { 0x1234u32.unbounded_shl(x as u32) as u64 + ((0x81234567u32 as i32).unbounded_shr(x as u32) as u32 as u64) + 0x81234567u32.unbounded_shr(x as u32) as u64 }
    shifts(x) { 0x1234u32.wrapping_shl(x as u32) as u64 + 0x81234567u32.checked_shr(x as u32).map_or(1, |v| v as u64) + (0x9234u16).rotate_left(x as u32) as u64 }
    leads(x) { x.leading_zeros() as u64 + 10 * x.trailing_zeros() as u64 + 100 * x.count_ones() as u64 + 4096 * x.leading_ones() as u64 + 1048576 * x.trailing_ones() as u64 }
    revs(x) { x.reverse_bits() as u64 + ((x as u16 * 257 ^ 3).swap_bytes() as u64) * 4096 }
    sats(x) { x.saturating_sub(9) as u64 + 4096 * x.saturating_add(200) as u64 + 1073741824 * ((x as i8).saturating_add(100) as u8 as u64) + 17592186044416 * x.saturating_mul(3) as u64 }
    overs(x) { let (a, b) = x.overflowing_add(99); let (c, d) = (x as i8).overflowing_sub(99); a as u64 + b as u64 * 4096 + c as u8 as u64 * 1048576 + d as u64 * 17179869184 }
    divs(x) { x.div_ceil(7) as u64 + x.checked_div(x & 3).map_or(700, |v| v as u64 * 4096) + (x as i8).rem_euclid(5) as u64 * 1073741824 + ((x as i8).div_euclid(5) as u8 as u64) * 17179869184 }
    wdivs(x) { (x as i8).wrapping_div(-1) as u8 as u64 + 4096 * ((x as i8).wrapping_rem(7) as u8 as u64) + 1073741824 * (x as i8).checked_div(-1).map_or(3, |v| v as u8 as u64) }
    absd(x) { x.abs_diff(99) as u64 + 4096 * (x as i8).unsigned_abs() as u64 + 1073741824 * ((x as i8).signum() + 1) as u64 + 17179869184 * (x as i8).wrapping_abs() as u8 as u64 }
    pow2(x) { x.is_power_of_two() as u64 + 2 * (x as u16).next_multiple_of(24) as u64 }
    bytes(x) { let w = u32::from_le_bytes([x, 1, x ^ 9, 3]); let b = w.to_be_bytes(); b[3] as u64 + 256 * b[1] as u64 + 65536 * u16::from_be_bytes([x, 4]) as u64 }
    tryinto(x) { let a = arr(x); let b: [u8; 2] = a[2..4].try_into().unwrap(); let c: Result<u8, _> = u8::try_from(x as u32 + 100); b[1] as u64 + c.map_or(900, |v| v as u64 * 4096) }
    tryinto2(x) { let c: Result<[u8; 3], _> = arr(x)[2..4].try_into(); c.is_err() as u64 + i8::try_from(x).map_or(50, |v| v as u64) + u8::try_from(x as i8).map_or(5000, |v| v as u64 * 4096) }
    eachref(x) { arr(x).each_ref().iter().map(|v| **v as u64).sum::<u64>() + arr(x).map(|v| v as u64 * 3).iter().sum::<u64>() }
    arrfrom(x) { let a: [u64; 5] = std::array::from_fn(|i| i as u64 * x as u64); a.iter().sum() }
    hashmap(x) { let mut m = HashMap::new(); m.insert(1u8, x as u64); m.insert(2, 9); *m.entry(3).or_insert(4) += 1; *m.entry(1).or_default() += 100; m[&1] + 4096 * m.get(&3).unwrap() + m.contains_key(&7) as u64 + m.len() as u64 * 16777216 }
    hashsym(x) { let m: HashMap<u8, u64> = (0..10u8).map(|i| (i, i as u64 * 7)).collect(); m.get(&(x & 15)).copied().unwrap_or(4096) }
    btree(x) { let mut m = BTreeMap::new(); m.insert(5, x as u64); m.insert(2, 7); m.insert(9, 1); m.iter().fold(0, |a, (k, v)| a * 300 + k * v) }
    sets(_x) { let s: HashSet<u8> = [1, 2, 3, 2].into_iter().collect(); let t: BTreeSet<u8> = [9, 4, 6].into_iter().collect(); s.len() as u64 + s.contains(&2) as u64 * 10 + t.iter().fold(0, |a, &v| a * 10 + v as u64) * 100 }
    iters(x) { arr(x).iter().enumerate().skip(1).step_by(2).map(|(i, v)| i as u64 * *v as u64).sum::<u64>() + arr(x).iter().zip(1u64..).rev_sum() }
    chain(x) { arr(x).iter().copied().chain([1, 2]).rev().take(4).fold(0, |a, v| a * 3 + v as u64) }
    scan(x) { (1..6u64).scan(x as u64, |s, v| { *s += v; Some(*s) }).fold(0, |a, v| a * 3 + v) }
    flat(x) { (0..3u64).flat_map(|i| (0..i).map(move |j| i * 10 + j)).sum::<u64>() + x as u64 }
    peek(x) { let a = arr(x); let mut it = a.iter().peekable(); let mut s = 0; while let Some(v) = it.next() { if let Some(n) = it.peek() { s = s * 3 + (**n > *v) as u64; } } s }
    twhile(_x) { (0..50u64).take_while(|v| v * v < 300).skip_while(|v| *v < 4).sum() }
    lastnth(x) { *arr(x).iter().last().unwrap() as u64 + 4096 * *arr(x).iter().nth(3).unwrap() as u64 + arr(x).iter().count() as u64 * 1073741824 }
    findmap(x) { arr(x).iter().map(|v| *v as u64).filter(|v| *v == 3 || *v == 200).sum() }
    anyall(x) { arr(x).iter().any(|v| *v == 70) as u64 + 2 * arr(x).iter().all(|v| *v < 201) as u64 }
    reduce(x) { arr(x).iter().map(|v| *v as u64).reduce(|a, b| a * 3 ^ b).unwrap() }
    partition(_x) { let (a, b): (Vec<u64>, Vec<u64>) = (0..10).partition(|v| v % 3 == 0); a.iter().sum::<u64>() * 100 + b.len() as u64 }
    unzip(x) { let (a, b): (Vec<u64>, Vec<u64>) = arr(x).iter().map(|v| (*v as u64, *v as u64 + 1)).unzip(); a[1] * 4096 + b[3] }
    cycle(x) { arr(x).iter().cycle().skip(4).take(4).fold(0, |a, v| a * 3 + *v as u64) }
    contains(x) { arr(x).contains(&9) as u64 + (10..20).contains(&x) as u64 * 2 + (10..=20).contains(&x) as u64 * 4 }
    boolthen(x) { (x > 7).then(|| x as u64).unwrap_or(4096) + (x < 9).then_some(4u64).unwrap_or(0) }
    getr(x) { let a = arr(x); a.get(1..3).map_or(0, |s| s[1] as u64) + a.get(9).map_or(5, |v| *v as u64) + a.get((x & 7) as usize).map_or(900, |v| *v as u64) * 10 }
    firstlast(x) { let a = arr(x); let (f, r) = a.split_first().unwrap(); let (l, _) = a.split_last().unwrap(); *f as u64 + r.len() as u64 * 4096 + *l as u64 * 1048576 + *a.first().unwrap() as u64 + *a.last().unwrap() as u64 }
    concat(x) { [[x, 2], [3, x]].concat().iter().fold(0, |s, &v| s * 5 + v as u64) }
    casts(x) { ((x as i8) as i32 as u32 as u64).wrapping_add(((x as i8 as i64) >> 2) as u64) }
    widths(x) { let s = x as u32 as i32 - 100; (s.rem_euclid(7)) as u64 + (s.abs() as u64) * 100 }
    strs(x) { let s = if x > 4 { "add" } else { "sub" }; (s == "add") as u64 }
    product(x) { [x as u64, 3, 5].iter().product() }
    minmaxf(x) { std::cmp::max(x, 4) as u64 + std::cmp::min(x, 9) as u64 * 4096 }
    sliceq(x) { (arr(x)[..2] == [4, 0x51]) as u64 + (arr(x) == arr(4)) as u64 * 2 + (vec![x] == [4]) as u64 * 4 }
    looped(x) { let mut v = x as u64; let mut n = 0; while v > 0 { v >>= 1; n += 1; } n }
    labelled(x) { let mut s = 0u64; 'o: for i in 0..6u64 { for j in 0..6u64 { if i * j == (x & 15) as u64 { s = i * 10 + j; break 'o; } } } s }
    matches(x) { match x { 0..=9 => 1, 10 | 12 => 2, v if v > 200 => v as u64, _ => 3 } }
    slicepat(x) { let a = arr(x); match &a[..] { [f, .., l] if f > l => 1, [_, s, ..] => *s as u64 + 10, _ => 0 } }
    iterrev(x) { (0..=(x & 3) as u64).rev().fold(0, |a, v| a * 10 + v) }
    rangestep(x) { (0..(x & 7)).map(|v| v as u64 * v as u64).sum() }
    srange(x) { let mut s = 0i32; for i in -3i32..(x & 3) as i32 { s = s * 2 + i; } let t: i64 = (-5i64..=2).rev().map(|v| v * v - 7).sum(); (s as u32 as u64) ^ (t as u64) }
    srange2(x) { (-4i8..4).filter(|v| *v as u8 == x).count() as u64 + (-4i32..4).position(|v| v == 1).unwrap() as u64 * 16 + (-2i32..3).fold(0, |a, v| a * 3 + v) as u32 as u64 * 256 }
    guardsum(x) { arr(x).iter().filter(|v| **v > 60).map(|v| *v as u64).sum::<u64>() + arr(x).iter().filter(|v| **v & 1 == 1).count() as u64 * 4096 }
    guardfor(x) { let mut s = 0u64; arr(x).iter().filter_map(|v| v.checked_sub(9)).for_each(|v| s = s * 2 + v as u64); s }
    guardfold(x) { arr(x).into_iter().filter(|v| *v > 60).fold(1, |a, v| (a << 1) ^ v as u64) }
    stdmem(x) { let mut v = vec![x, 1]; let w = std::mem::take(&mut v); let mut k = 3u8; let o = std::mem::replace(&mut k, x); w[0] as u64 + v.len() as u64 + o as u64 * 4096 + k as u64 * 1048576 }
}

trait RevSum { fn rev_sum(self) -> u64; }
impl<'a, I: Iterator<Item = (&'a u8, u64)>> RevSum for I { fn rev_sum(self) -> u64 { self.map(|(a, b)| *a as u64 * b).sum() } }

pub fn main() {
    for (n, f) in ALL { let v: Vec<String> = (0..=255u8).map(|x| f(x).to_string()).collect(); println!("{} {}", n, v.join(" ")); }
}
