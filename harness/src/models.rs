//! Models of library functions

pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut a = init;
    while let Some(x) = it.next() {
        a = f(a, x);
    }
    a
}

pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}

pub fn iter_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut a = it.next()?;
    while let Some(x) = it.next() {
        a = f(a, x);
    }
    Some(a)
}

pub fn iter_max<I: Iterator>(mut it: I) -> Option<I::Item>
where
    I::Item: Ord,
{
    let mut a = it.next()?;
    while let Some(x) = it.next() {
        if x >= a {
            a = x;
        }
    }
    Some(a)
}

pub fn iter_min<I: Iterator>(mut it: I) -> Option<I::Item>
where
    I::Item: Ord,
{
    let mut a = it.next()?;
    while let Some(x) = it.next() {
        if x < a {
            a = x;
        }
    }
    Some(a)
}

pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}

pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}

pub fn iter_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}

pub fn iter_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}

pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut i = 0;
    while it.next().is_some() {
        i += 1;
    }
    i
}

pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut a = None;
    while let Some(x) = it.next() {
        a = Some(x);
    }
    a
}

pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in it {
        v.push(x);
    }
    v
}

pub fn vec_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    for x in it {
        v.push(x);
    }
}

// --- rasters, see smon.rs

use crate::ai::*;
use crate::smon::SMon;
use pix::el::Pixel;
use pix::{Raster, Region, RowsMut};

pub fn raster_with_color<P: Pixel>(width: u32, height: u32, clr: P) -> Raster<P> {
    let w = i32::try_from(width).expect("Raster width too big");
    let h = i32::try_from(height).expect("Raster height too big");
    let _n = w * h;
    let m = unsafe { &*world::<SMon>() };
    if m.kind.is_start() {
        raster_make(w, h, listed(clr))
    } else {
        // any earlier history
        raster_make(w, h, retype(m.clear))
    }
}

pub fn raster_with_raster<P: Pixel, S: Pixel>(src: &Raster<S>) -> Raster<P> {
    unsafe { (*world::<SMon>()).flush() };
    let p = unsafe { *raster_px(src as *const Raster<S> as *mut Raster<S>) };
    raster_make(src.width() as i32, src.height() as i32, retype(p))
}

pub fn raster_clone<P: Pixel>(src: &Raster<P>) -> Raster<P> {
    unsafe { (*world::<SMon>()).flush() };
    let p = unsafe { *raster_px(src as *const Raster<P> as *mut Raster<P>) };
    raster_make(src.width() as i32, src.height() as i32, p)
}

pub fn raster_copy_color<P: Pixel, R: Into<Region>>(r: &mut Raster<P>, reg: R, clr: P) {
    let m = unsafe { &mut *world::<SMon>() };
    m.flush();
    let reg = r.intersection(reg.into());
    if m.is_in(reg) {
        unsafe { *raster_px(r as *mut Raster<P>) = listed(clr) };
    }
}

pub fn raster_rows_mut<P: Pixel, R: Into<Region>>(r: &mut Raster<P>, reg: R) -> RowsMut<'_, P> {
    assert!(r.width() > 0);
    let reg = r.intersection(reg.into());
    unsafe { (*world::<SMon>()).rows(r as *mut Raster<P> as *mut _, reg) };
    opaque()
}

pub fn rows_mut_next<'a, P: Pixel>(_it: &mut RowsMut<'a, P>) -> Option<&'a mut [P]>
where
    'a: 'a,
{
    match unsafe { (*world::<SMon>()).next_row() } {
        Some(r) => Some(unsafe { &mut *(r as *mut [_] as *mut [P]) }),
        None => None,
    }
}

pub fn raster_as_u8_slice<P: Pixel>(r: &Raster<P>) -> &[u8] {
    let v: &Vec<u8> = unsafe { &*raster_data(r as *const Raster<P>) };
    &v[..]
}
