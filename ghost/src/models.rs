//! Reference implementations substituted for std functions whose real bodies use raw pointers.
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasher, Hash};

pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in it {
        v.push(x);
    }
    v
}
pub fn vec_extend<T, B, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    for x in it {
        v.push(x);
    }
}
pub fn map_from_iter<K: Ord, V, I: IntoIterator<Item = (K, V)>>(it: I) -> BTreeMap<K, V> {
    let mut m = BTreeMap::new();
    for (k, v) in it {
        m.insert(k, v);
    }
    m
}
pub fn hmap_from_iter<K: Hash + Eq, V, I: IntoIterator<Item = (K, V)>>(it: I) -> HashMap<K, V> {
    let mut m = HashMap::new();
    for (k, v) in it {
        m.insert(k, v);
    }
    m
}
pub fn it_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn it_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn it_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn it_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn it_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    let mut i = 0usize;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn it_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn it_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(b) = f(x) {
            return Some(b);
        }
    }
    None
}
pub fn it_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    while let Some(x) = it.next() {
        l = Some(x);
    }
    l
}
pub fn it_nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if n == 0 {
            return Some(x);
        }
        n -= 1;
    }
    None
}

/// std::io::BufWriter, field by field (the second field holds the capacity)
pub struct BufW<W> {
    buf: Vec<u8>,
    cap: usize,
    inner: W,
}
pub fn bufw_new<W: std::io::Write>(inner: W) -> BufW<W> {
    BufW { buf: Vec::new(), cap: 8192, inner }
}
pub fn bufw_with_capacity<W: std::io::Write>(cap: usize, inner: W) -> BufW<W> {
    BufW { buf: Vec::new(), cap, inner }
}
pub fn bufw_flush_buf<W: std::io::Write>(b: &mut BufW<W>) -> std::io::Result<()> {
    if !b.buf.is_empty() {
        b.inner.write_all(&b.buf)?;
        b.buf = Vec::new();
    }
    Ok(())
}
pub fn bufw_write_all<W: std::io::Write>(b: &mut BufW<W>, d: &[u8]) -> std::io::Result<()> {
    if d.len() > b.cap - b.buf.len() {
        bufw_flush_buf(b)?;
    }
    if d.len() >= b.cap {
        b.inner.write_all(d)
    } else {
        b.buf.extend_from_slice(d);
        Ok(())
    }
}
pub fn bufw_write<W: std::io::Write>(b: &mut BufW<W>, d: &[u8]) -> std::io::Result<usize> {
    if d.len() > b.cap - b.buf.len() {
        bufw_flush_buf(b)?;
    }
    if d.len() >= b.cap {
        b.inner.write(d)
    } else {
        b.buf.extend_from_slice(d);
        Ok(d.len())
    }
}
pub fn bufw_flush<W: std::io::Write>(b: &mut BufW<W>) -> std::io::Result<()> {
    bufw_flush_buf(b)?;
    b.inner.flush()
}
pub fn bufw_drop<W: std::io::Write>(b: &mut BufW<W>) {
    let _ = bufw_flush_buf(b);
}

/// std::iter::Zip: the two iterators are its first fields
pub struct ZipG<A, B> {
    a: A,
    b: B,
}
pub fn zip_next<A: Iterator, B: Iterator>(z: &mut ZipG<A, B>) -> Option<(A::Item, B::Item)> {
    let x = z.a.next()?;
    let y = z.b.next()?;
    Some((x, y))
}
