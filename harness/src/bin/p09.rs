//! P09: IndexedMap against an insertion-ordered association list.
use harness as h;
use unreal_asset_base::containers::indexed_map::{entry::Entry, IndexedMap};

/// (position, key, value) in insertion order
type Model = Vec<(usize, u32, u64)>;
fn val() -> u64 { h::u64() }
fn agree(m: &IndexedMap<u32, u64>, l: &Model, id: u32) {
    h::check(m.len() == l.len(), id);
    h::check(m.is_empty() == l.is_empty(), id);
    let mut n = 0;
    for (p, k, v) in m.iter() { h::check(n < l.len() && p == l[n].0 && *k == l[n].1 && *v == l[n].2, id + 1); n += 1 }
    h::check(n == l.len(), id + 2);
    let mut n = l.len();
    for (p, k, v) in m.iter().rev() { h::check(n > 0 && p == l[n - 1].0 && *k == l[n - 1].1 && *v == l[n - 1].2, id + 3); n -= 1 }
    h::check(n == 0, id + 3);
    h::check(m.iter().len() == l.len() && m.keys().len() == l.len() && m.values().len() == l.len(), id + 4);
    let mut n = 0; for k in m.keys() { h::check(*k == l[n].1, id + 5); n += 1 } h::check(n == l.len(), id + 5);
    let mut n = 0; for v in m.values() { h::check(*v == l[n].2, id + 6); n += 1 } h::check(n == l.len(), id + 6);
    for key in 0..4u32 {
        let e = l.iter().find(|x| x.1 == key);
        h::check(m.contains_key(&key) == e.is_some(), id + 7);
        match (m.get_by_key(&key), e) { (None, None) => {} (Some(v), Some(e)) => h::check(*v == e.2, id + 8), _ => h::check(false, id + 9) }
    }
    for p in 0..7usize {
        let e = l.iter().find(|x| x.0 == p);
        h::check(m.contains_index(p) == e.is_some(), id + 10);
        match (m.get_by_index(p), e) { (None, None) => {} (Some(v), Some(e)) => h::check(*v == e.2, id + 11), _ => h::check(false, id + 12) }
    }
    let mut seen = 0;
    for (p, k, v) in m.iter_key() { h::check(l.iter().any(|x| x.0 == p && x.1 == *k && x.2 == *v), id + 13); seen += 1 }
    h::check(seen == l.len(), id + 14);
}
fn set(l: &mut Model, k: u32, v: u64) {
    if let Some(e) = l.iter_mut().find(|x| x.1 == k) { e.2 = v; return; }
    let p = l.last().map_or(0, |x| x.0 + 1);
    l.push((p, k, v));
}
fn step(m: &mut IndexedMap<u32, u64>, l: &mut Model, ops: u64, keys: u64) {
    let op = h::choice(ops);
    match op {
        0 => { let k = h::choice(keys) as u32; let v = val(); m.insert(k, v); set(l, k, v) }
        1 => {
            let k = h::choice(keys) as u32;
            let r = m.remove_by_key(&k);
            let e = l.iter().position(|x| x.1 == k);
            match (r, e) { (None, None) => {} (Some((p, kk, v)), Some(i)) => { h::check(p == l[i].0 && kk == k && v == l[i].2, 1); l.remove(i); } _ => h::check(false, 2) }
        }
        2 => {
            let p = h::choice(keys + 1) as usize;
            let r = m.remove_by_index(p);
            let e = l.iter().position(|x| x.0 == p);
            match (r, e) { (None, None) => {} (Some((pp, kk, v)), Some(i)) => { h::check(p == pp && kk == l[i].1 && v == l[i].2, 3); l.remove(i); } _ => h::check(false, 4) }
        }
        3 => {
            let k = h::choice(keys) as u32; let v = val();
            let e = m.entry(k);
            h::check(*e.key() == k, 5);
            let known = l.iter().find(|x| x.1 == k).map(|x| x.2);
            let r = match h::choice(3) { 0 => e.or_insert(v), 1 => e.or_insert_with(|| v), _ => e.or_insert_with_key(|kk| { h::check(*kk == k, 6); v }) };
            h::check(*r == known.unwrap_or(v), 7);
            if known.is_none() { set(l, k, v) }
        }
        4 => {
            let k = h::choice(keys) as u32; let v = val();
            match m.entry(k) {
                Entry::Occupied(mut o) => {
                    let i = h::some(l.iter().position(|x| x.1 == k), 8);
                    h::check(*o.get() == l[i].2 && *o.key() == k, 9);
                    if h::flag() { *o.get_mut() = v; l[i].2 = v } else { let (p, kk, old) = o.remove_entry(); h::check(p == l[i].0 && kk == k && old == l[i].2, 10); l.remove(i); }
                }
                Entry::Vacant(x) => { h::check(!l.iter().any(|x| x.1 == k), 11); *x.insert(v) = v; set(l, k, v) }
            }
        }
        5 => {
            let v = val();
            match h::choice(4) {
                0 => { for (_, _, x) in m.iter_mut() { *x ^= v } for x in l.iter_mut() { x.2 ^= v } }
                1 => { for x in m.values_mut() { *x ^= v } for x in l.iter_mut() { x.2 ^= v } }
                2 => { for (_, k, x) in m.iter_key_mut() { *x ^= v.wrapping_add(*k as u64) } for x in l.iter_mut() { x.2 ^= v.wrapping_add(x.1 as u64) } }
                _ => { for (_, _, x) in m.iter_mut().rev().take(1) { *x = v } if let Some(x) = l.last_mut() { x.2 = v } }
            }
        }
        6 => {
            let v = val();
            if h::flag() { let k = h::choice(keys) as u32; match (m.get_by_key_mut(&k), l.iter_mut().find(|x| x.1 == k)) { (None, None) => {} (Some(x), Some(e)) => { *x = v; e.2 = v } _ => h::check(false, 12) } }
            else { let p = h::choice(keys) as usize; match (m.get_by_index_mut(p), l.iter_mut().find(|x| x.0 == p)) { (None, None) => {} (Some(x), Some(e)) => { *x = v; e.2 = v } _ => h::check(false, 13) } }
        }
        _ => {
            // rebuilt from its own iterators: positions start over, order stays
            let old = std::mem::take(m);
            let c = old.clone();
            h::check(c == old, 14);
            agree(&c, l, 200);
            *m = if h::flag() { old.into_iter().map(|(_, k, v)| (k, v)).collect() } else { let mut v: Vec<_> = old.into_iter().rev().map(|(_, k, v)| (k, v)).collect(); v.reverse(); let mut x = IndexedMap::with_capacity(2); x.extend(v); x };
            for (i, x) in l.iter_mut().enumerate() { x.0 = i }
        }
    }
}
fn run(steps: usize, ops: u64, keys: u64) {
    let mut m = IndexedMap::new();
    let mut l = vec![];
    for _ in 0..steps { step(&mut m, &mut l, ops, keys) }
    agree(&m, &l, 100);
    h::observe(1, m.len() as u64);
    // equality sees content only
    let same: IndexedMap<u32, u64> = l.iter().map(|x| (x.1, x.2)).collect();
    h::check(m == same, 20);
    for i in 0..l.len() {
        let mut o = same.clone();
        let d = h::u64();
        if let Some(v) = o.get_by_key_mut(&l[i].1) { *v = d }
        h::check((m == o) == (d == l[i].2), 21);
        let mut o = same.clone(); o.remove_by_key(&l[i].1);
        h::check(m != o, 22);
        o.insert(90, l[i].2);
        h::check(m != o, 23);
    }
    let mut n = 0;
    for (p, k, v) in m { h::check(p == l[n].0 && k == l[n].1 && v == l[n].2, 24); n += 1 }
    h::check(n == l.len(), 25);
}
/// three entries first, then arbitrary operations
fn prefilled(steps: usize) {
    let mut m = IndexedMap::from([(0u32, 7u64), (1, 8), (2, 9)]);
    let mut l = vec![(0, 0, 7), (1, 1, 8), (2, 2, 9)];
    for _ in 0..steps { step(&mut m, &mut l, 5, 4) }
    agree(&m, &l, 100);
}
/// an iterator taken from both ends in any order
fn ends<T>(mut it: impl DoubleEndedIterator<Item = T> + ExactSizeIterator, l: &Model, is: impl Fn(&T, &(usize, u32, u64)) -> bool) {
    let (mut a, mut b) = (0, l.len());
    loop {
        h::check(it.len() == b - a && it.size_hint() == (b - a, Some(b - a)), 300);
        let front = h::flag();
        match if front { it.next() } else { it.next_back() } {
            Some(x) => { h::check(a < b, 301); if front { h::check(is(&x, &l[a]), 302); a += 1 } else { b -= 1; h::check(is(&x, &l[b]), 303) } }
            None => { h::check(a == b, 304); break }
        }
    }
    h::check(it.next().is_none() && it.next_back().is_none() && it.len() == 0, 305);
}
fn iterators() {
    let n = h::choice(4) as usize;
    let mut m: IndexedMap<u32, u64> = Default::default();
    h::check(m.is_empty() && m.len() == 0 && m.iter().next().is_none(), 306);
    let mut l: Model = vec![];
    for i in 0..n as u32 + 1 { let v = val(); m.insert(i, v); l.push((i as usize, i, v)) }
    // one of them goes, so that positions and places differ
    let gone = h::choice(n as u64 + 1) as usize;
    m.remove_by_index(gone);
    l.remove(gone);
    match h::choice(9) {
        0 => ends(m.iter(), &l, |x, e| (x.0 == e.0) & (*x.1 == e.1) & (*x.2 == e.2)),
        1 => ends(m.iter_mut(), &l, |x, e| (x.0 == e.0) & (*x.1 == e.1) & (*x.2 == e.2)),
        2 => ends(m.into_iter(), &l, |x, e| (x.0 == e.0) & (x.1 == e.1) & (x.2 == e.2)),
        3 => ends(m.values(), &l, |x, e| **x == e.2),
        4 => ends(m.values_mut(), &l, |x, e| **x == e.2),
        5 => ends(m.keys(), &l, |x, e| **x == e.1),
        6 => {
            // sizes and copies of the iterators by key and position
            let mut it = m.iter_key();
            let mut k = l.len();
            loop { h::check(it.len() == k && it.size_hint() == (k, Some(k)) && it.clone().count() == k, 307); if it.next().is_none() { break } k -= 1 }
            h::check(k == 0, 308);
            let mut it = m.iter_key_mut();
            let mut k = l.len();
            loop { h::check(it.len() == k && it.size_hint() == (k, Some(k)), 309); if it.next().is_none() { break } k -= 1 }
            h::check(k == 0, 310);
            let it = m.iter();
            let mut c = it.clone();
            c.next();
            h::check(it.count() == l.len(), 311);
        }
        7 => { let (a, b) = (m.values().size_hint(), m.values_mut().size_hint()); h::check(a == (l.len(), Some(l.len())) && b == a, 312) }
        _ => {
            for key in 0..4u32 {
                let at = l.iter().position(|x| x.1 == key);
                match m.entry(key) {
                    Entry::Occupied(o) => {
                        let i = h::some(at, 313);
                        if h::flag() { h::check(o.remove() == l[i].2, 314); l.remove(i); } else { let v = val(); *o.into_mut() = v; l[i].2 = v }
                    }
                    Entry::Vacant(v) => { h::check(at.is_none() && *v.key() == key, 315); if h::flag() { h::check(v.into_key() == key, 316) } else { let x = val(); h::check(*v.insert(x) == x, 317); set(&mut l, key, x) } }
                }
            }
            agree(&m, &l, 400);
        }
    }
}
h::cases! { case_iterators => iterators, case_ops => || run(3, 8, 2), case_prefilled => || prefilled(3), case_insert_remove => || run(5, 2, 2), deep_ops => || run(4, 8, 3), deep_prefilled => || prefilled(4), deep_insert_remove => || run(6, 3, 3) }
