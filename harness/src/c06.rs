//! C06: a user function that panics leaves valid features and no memory error
use crate::{common::*, sym::*};
use lfa::Features;
use std::cell::Cell;

struct Bomb {
    at: usize,
    n: Cell<usize>,
}
impl Bomb {
    fn tick(&self) {
        let k = self.n.get();
        self.n.set(k + 1);
        if k == self.at {
            panic!("bomb")
        }
    }
}

fn usable(f: &Features) {
    // every public observation works and is consistent
    let n = f.n_features();
    ck(well_formed(f), "indices stay within the dimension");
    let d = f.to_dense();
    ck(d.len() == n, "conversion has the declared length");
    for &x in d.iter() {
        // reads the value: it must have been written
        eq(x, x, "every entry is initialised");
    }
    let _ = f.n_active();
    let _ = f.sum();
    let c = f.clone();
    drop(c);
}

#[no_mangle]
pub extern "C-unwind" fn c06_map_inplace() {
    let n = pick(0, 2);
    let (mut f, _) = features(n);
    let b = Bomb { at: choose(4), n: Cell::new(0) };
    let c = if flip() { 0.0 } else { 1.0 };
    let r = catch(|| {
        f.map_inplace(|x| {
            b.tick();
            2.0 * x + c
        })
    });
    if r.is_none() {
        ck(b.n.get() == b.at + 1, "the panic comes from the user function");
    }
    usable(&f);
    // and it can be used again
    f.map_inplace(|x| x);
    usable(&f);
}

#[no_mangle]
pub extern "C-unwind" fn c06_merge_inplace() {
    let n = pick(0, 2);
    let (mut f, _) = features(n);
    let (g, w) = features(n);
    let b = Bomb { at: choose(3), n: Cell::new(0) };
    let r = catch(|| {
        f.merge_inplace(&g, |x, y| {
            b.tick();
            x + y
        })
    });
    if r.is_none() {
        ck(b.n.get() == b.at + 1, "the panic comes from the user function");
    }
    usable(&f);
    denotes(&g, &w, "the right operand is unchanged");
    if f.n_features() == n {
        f.merge_inplace(&g, |_, y| y);
        denotes(&f, &w, "usable again");
    }
    f.map_inplace(|x| x + 1.0);
    usable(&f);
}

#[no_mangle]
pub extern "C-unwind" fn c06_borrowing() {
    // map, merge, fold borrow: the operands are unchanged after a panic
    let n = pick(0, 2);
    let (f, v) = features(n);
    let (g, w) = features(n);
    let b = Bomb { at: choose(3), n: Cell::new(0) };
    let k = choose(4);
    let r = catch(|| match k {
        0 => usable(&f.map(|x| {
            b.tick();
            x
        })),
        1 => usable(&f.merge(&g, |x, y| {
            b.tick();
            x + y
        })),
        2 => {
            let s = f.fold(0.0, |a, x| {
                b.tick();
                a + x
            });
            eq(s, v.iter().fold(0.0, |a, x| a + x), "fold");
        }
        _ => usable(&f.clone().merge_into(&g, |x, y| {
            b.tick();
            x + y
        })),
    });
    if r.is_none() {
        ck(b.n.get() == b.at + 1, "the panic comes from the user function");
    }
    denotes(&f, &v, "the left operand is unchanged");
    denotes(&g, &w, "the right operand is unchanged");
}

#[no_mangle]
pub extern "C-unwind" fn c06_mismatch() {
    // mismatched dimensions: whatever happens (result or panic), memory stays valid
    let n = pick(0, 2);
    let m = pick(0, 2);
    let (mut f, _) = features(n);
    let (g, w) = features(m);
    let op = |x: f64, y: f64| x + y;
    match choose(4) {
        0 => {
            let _ = catch(|| f.merge_inplace(&g, op));
        }
        1 => {
            let _ = catch(|| usable(&f.merge(&g, op)));
        }
        2 => {
            let h = f.clone();
            let _ = catch(|| usable(&h.merge_into(&g, op)));
        }
        _ => {
            let h = f.clone();
            let _ = catch(|| usable(&h.stack(g.clone())));
        }
    }
    usable(&f);
    denotes(&g, &w, "the right operand is unchanged");
}

fn usable_wide(f: &Features) {
    let n = f.n_features();
    ck(well_formed(f), "indices stay within the dimension");
    let d = f.to_dense();
    ck(d.len() == n, "conversion has the declared length");
    for &x in d.iter() {
        eq(x, x, "every entry is initialised");
    }
    let _ = f.sum();
    drop(f.clone());
}

/// larger features, a panic early, in the middle or late
#[no_mangle]
pub extern "C-unwind" fn c06_wide() {
    let n = [5, 9, 17, 33][choose(4)];
    let (mut f, _) = wide_features(n);
    let (g, w) = wide_features(n);
    let b = Bomb { at: [0, 1, n / 2, n - 1, n][choose(5)], n: Cell::new(0) };
    let inplace = flip();
    let r = catch(|| {
        if inplace {
            f.map_inplace(|x| {
                b.tick();
                2.0 * x + 1.0
            })
        } else {
            f.merge_inplace(&g, |x, y| {
                b.tick();
                x + y
            })
        }
    });
    if r.is_none() {
        ck(b.n.get() == b.at + 1, "the panic comes from the user function");
    }
    usable_wide(&f);
    denotes(&g, &w, "the right operand is unchanged");
    f.map_inplace(|x| x);
    usable_wide(&f);
}
