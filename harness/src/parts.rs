//! split_into_parts, of shared and of unique handles.
//!
//! Parameters: 0 groups, 1 largest order (2^order parts), 2 length mode, 3 smallest order,
//! 4 residue bits, 5 steps at most (0: until exhausted), 6 mask of what else is alive,
//! 7 mask of what is done with a yielded part, 8 mask of how it ends, 9 whether parts are skipped too.

use crate::fam::Fam;
use crate::sym::*;
use crate::world::*;
use core::ops::Deref;

const MAXP: usize = 18;

/// One of the alternatives in a bit mask.
pub fn pick_of(mask: u64) -> u64 {
    let mut c = pick(mask.count_ones() as u64);
    let mut i = 0;
    loop {
        if mask >> i & 1 == 1 { if c == 0 { return i; } c -= 1; }
        i += 1;
    }
}

/// Part i of 2^order of a slice of n items: where it starts, and its length.
pub fn part(n: u64, order: u64, i: u64) -> (u64, u64) {
    let (mut st, mut len) = (0, n);
    let mut b = order;
    while b > 0 {
        b -= 1;
        let h = len / 2;
        if i >> b & 1 == 0 { len = h } else { st += h; len -= h }
    }
    (st, len)
}

/// Where part i starts, for i up to and including 2^order.
fn bound(n: u64, order: u64, i: u64) -> u64 { if i == 1 << order { n } else { part(n, order, i).0 } }

struct Model<T: It> { g: u64, n: u64, base: *const T, order: u64, f: u64, b: u64, /* items below this never get dropped while the other handle lives */ alive_to: u64, dropped: u64, has_base: bool }

impl<T: It> Model<T> {
    fn total(&self) -> u64 { 1 << self.order }
    fn check_range(&self, k: u32, s: &[T], st: u64, len: u64) {
        chk(self.g, k + 1, s.len() as u64 == len);
        if !T::ZST {
            let e = (self.base as usize).wrapping_add((st as usize).wrapping_mul(core::mem::size_of::<T>()));
            chk(self.g, k + 2, (len == 0) | (s.as_ptr() as usize == e));
        }
    }
    fn rest(&self) -> (u64, u64) {
        if self.f + self.b == self.total() { return (0, 0); }
        let a = bound(self.n, self.order, self.f);
        let e = bound(self.n, self.order, self.total() - self.b);
        (a, e - a)
    }
    fn check_iter<I: ExactSizeIterator>(&self, it: &I) {
        let left = (self.total() - self.f - self.b) as usize;
        chk(self.g, 1, it.len() == left);
        let (a, b) = it.size_hint();
        chk(self.g, 2, a == left);
        chk(self.g, 3, b == Some(left));
    }
    /// How many items of [st, st+len) get dropped when a handle on them goes.
    fn loses(&self, st: u64, len: u64) -> u64 {
        if self.alive_to == 0 { return len; }
        if st >= self.alive_to { len } else if st + len <= self.alive_to { 0 } else { st + len - self.alive_to }
    }
}

/// Walk over an iterator of parts. `kept` receives the parts that are kept.
fn walk<T: It, Y: Deref<Target = [T]>, I: DoubleEndedIterator<Item = Y> + ExactSizeIterator>(
    m: &mut Model<T>, it: &mut I, sl: fn(&I) -> &[T], slm: Option<fn(&mut I) -> &mut [T]>, kept: &mut [Option<(Y, u64)>; MAXP], keep: u64, steps: u64, start_at: u64,
) {
    let mut s = 0;
    let mut nk = start_at as usize;
    loop {
        m.check_iter(it);
        let (rs, rl) = m.rest();
        m.check_range(10, sl(it), rs, rl);
        if let Some(f) = slm {
            let x = f(it);
            m.check_range(20, x, rs, rl);
            // What is written here is seen in the parts.
            if T::VAL { let mut j = 0; while j < x.len() { x[j].set(1000 * s + rs + j as u64); j += 1; } }
        }
        if steps != 0 && s == steps { return; }
        if m.f + m.b == m.total() {
            // Exhausted for good.
            chk(m.g, 4, it.next().is_none());
            chk(m.g, 5, it.next_back().is_none());
            chk(m.g, 6, it.next().is_none());
            m.check_iter(it);
            cover(m.g as u32 * 100 + 1);
            return;
        }
        let c = pick(if param(9) == 0 { 3 } else { 5 });
        log(10 + c);
        if c == 2 { return; }
        if c > 2 {
            // Skip some, maybe more than there are.
            let k = 1 + pick(m.total() - m.f - m.b);
            let k = if k == m.total() - m.f - m.b && pick(2) == 1 { u64::MAX } else { k };
            let y = if c == 3 { it.nth(k as usize) } else { it.nth_back(k as usize) };
            let mut j = 0;
            while j < k && m.f + m.b < m.total() {
                let (st, len) = part(m.n, m.order, if c == 3 { m.f } else { m.total() - 1 - m.b });
                m.dropped += m.loses(st, len);
                if c == 3 { m.f += 1 } else { m.b += 1 }
                j += 1;
            }
            chk(m.g, 46, y.is_none() == (m.f + m.b == m.total()));
            cover(m.g as u32 * 100 + 6);
            if m.f + m.b < m.total() {
                let (st, len) = part(m.n, m.order, if c == 3 { m.f } else { m.total() - 1 - m.b });
                if c == 3 { m.f += 1 } else { m.b += 1 }
                if let Some(y) = y { m.check_range(30, &y, st, len); drop(y); m.dropped += m.loses(st, len); }
            }
            s += 1;
            if on(m.g) { chk(m.g, 40, dropped_total() == m.dropped); }
            continue;
        }
        let i = if c == 0 { m.f } else { m.total() - 1 - m.b };
        let y = if c == 0 { it.next() } else { it.next_back() };
        if c == 0 { m.f += 1 } else { m.b += 1 }
        s += 1;
        match y {
            None => chk(m.g, 7, false),
            Some(y) => {
                let (st, len) = part(m.n, m.order, i);
                m.check_range(30, &y, st, len);
                if !T::ZST && m.has_base && on(m.g) && y.len() > 0 {
                    chk(m.g, 8, y[0].id() == start(1) + st);
                    chk(m.g, 9, y[y.len() - 1].id() == start(1) + st + (len - 1));
                }
                if T::VAL && slm.is_some() { let mut j = 0; while j < y.len() { chk(m.g, 44, y[j].val() == 1000 * (s - 1) + st + j as u64); chk(m.g, 45, y[j].id() == start(1) + st + j as u64); j += 1; } }
                let k = match keep { 0 => false, 1 => true, 2 => i % 2 == 0, _ => i % 2 == 1 };
                if k && nk < MAXP { kept[nk] = Some((y, i)); nk += 1; } else { drop(y); m.dropped += m.loses(st, len); }
                if on(m.g) { chk(m.g, 40, dropped_total() == m.dropped); }
            }
        }
    }
}

/// The iterator is used up by one of the standard library's methods.
fn finale<T: It, Y: Deref<Target = [T]>, I: DoubleEndedIterator<Item = Y> + ExactSizeIterator>(m: &Model<T>, it: I, how: u64) {
    let mut i = if how == 4 { m.total() - m.b } else { m.f };
    match how {
        3 => { it.fold((), |_, y| { let (st, len) = part(m.n, m.order, i); m.check_range(30, &y, st, len); i += 1; }); chk(m.g, 47, i == m.total() - m.b); }
        4 => { it.rfold((), |_, y| { i -= 1; let (st, len) = part(m.n, m.order, i); m.check_range(30, &y, st, len); }); chk(m.g, 48, i == m.f); }
        _ => match it.last() {
            Some(y) => { let (st, len) = part(m.n, m.order, m.total() - m.b - 1); m.check_range(30, &y, st, len); chk(m.g, 49, m.f + m.b < m.total()); }
            None => chk(m.g, 49, m.f + m.b == m.total()),
        },
    }
    cover(m.g as u32 * 100 + 7);
}

fn check_kept<T: It, Y: Deref<Target = [T]>>(m: &Model<T>, kept: &[Option<(Y, u64)>; MAXP]) {
    let mut i = 0;
    while i < MAXP {
        if let Some((y, p)) = &kept[i] {
            let (st, len) = part(m.n, m.order, *p);
            m.check_range(30, y, st, len);
            if !T::ZST { chk(m.g, 41, undropped(start(1).wrapping_add(st), len)); }
        } else { break; }
        i += 1;
    }
}

fn pick_order() -> u64 { param(3) + pick(param(1) - param(3) + 1) }

fn new_model<T: It>(g: u64) -> (Model<T>, Vec<T>) {
    let order = pick_order();
    let n = pick_n::<T>(param(2));
    let v: Vec<T> = make_vec(n, 1);
    (Model { g, n, base: v.as_ptr(), order, f: 0, b: 0, alive_to: 0, dropped: 0, has_base: true }, v)
}

fn finish<T: It>(m: &Model<T>) {
    chk(m.g, 50, dropped_total() == m.n);
    chk(m.g, 51, live_heap() == 0);
    cover(100);
}

/// Parts of a shared handle.
pub fn shared<T: It, F: Fam<T>>() {
    let (mut m, v) = new_model::<T>(G_PARTS);
    let root = F::from_vec(v);
    // What else is alive: nothing, another handle on the whole, one on the left half, a weak one.
    let other = pick_of(if param(6) == 0 { 15 } else { param(6) });
    log(other);
    let (o, w) = match other {
        1 => { m.alive_to = m.n; (Some(root.clone()), None) }
        2 => { m.alive_to = m.n / 2; (Some(F::clone_left(&root)), None) }
        3 => (None, Some(F::downgrade(&root))),
        _ => (None, None),
    };
    let mut it = F::split_into_parts(root, 1 << m.order);
    let keep = pick_of(if param(7) == 0 { 15 } else { param(7) });
    let mut kept: [Option<(F::S, u64)>; MAXP] = [const { None }; MAXP];
    walk::<T, F::S, F::Parts>(&mut m, &mut it, F::p_slice, None, &mut kept, keep, param(5), 0);
    if let Some(w) = &w {
        // The whole was divided as soon as anything was asked for; before that it is still there.
        if m.f + m.b > 0 && m.order > 0 && m.n > 0 { chk(m.g, 60, m.n == 1 || F::upgrade(w).is_none()); }
        if m.f + m.b == 0 { chk(m.g, 61, F::upgrade(w).is_some()); }
    }
    let end = pick_of(if param(8) == 0 { 7 } else { param(8) });
    log(end);
    let (rs, rl) = m.rest();
    match end {
        0 => { drop(it); m.dropped += m.loses(rs, rl); }
        1 => { chk(m.g, 62, it.count() as u64 == m.total() - m.f - m.b); m.dropped += m.loses(rs, rl); }
        3 | 4 | 5 => { finale(&m, it, end); m.dropped += m.loses(rs, rl); }
        _ => {
            // A copy of the iterator goes through the same parts, and the original does not notice.
            let mut c = it.clone();
            let mut k2: [Option<(F::S, u64)>; MAXP] = [const { None }; MAXP];
            let mut mc = Model { alive_to: m.n, ..Model { g: m.g, n: m.n, base: m.base, order: m.order, f: m.f, b: m.b, alive_to: 0, dropped: m.dropped, has_base: true } };
            let before = dropped_total();
            let mut i = 0;
            while mc.f + mc.b < mc.total() && i < 8 {
                let front = (i + m.f) % 2 == 0;
                let y = if front { c.next() } else { c.next_back() };
                let p = if front { mc.f } else { mc.total() - 1 - mc.b };
                if front { mc.f += 1 } else { mc.b += 1 }
                let (st, len) = part(m.n, m.order, p);
                match &y { Some(y) => mc.check_range(70, y, st, len), None => chk(m.g, 75, false) }
                drop(y);
                mc.check_iter(&c);
                i += 1;
            }
            chk(m.g, 76, dropped_total() == before);
            cover(603);
            drop(c);
            chk(m.g, 77, dropped_total() == before);
            m.check_iter(&it);
            m.check_range(10, F::p_slice(&it), rs, rl);
            walk::<T, F::S, F::Parts>(&mut m, &mut it, F::p_slice, None, &mut k2, 0, param(5), 0);
            let (rs, rl) = m.rest();
            drop(it);
            m.dropped += m.loses(rs, rl);
        }
    }
    chk(m.g, 42, dropped_total() == m.dropped);
    check_kept(&m, &kept);
    // A part that was handed out is an ordinary handle: alone on its items, it gives exclusive access.
    if let (Some((y, p)), true) = (&mut kept[0], other != 3) {
        let (st, len) = part(m.n, m.order, *p);
        let shared = st < m.alive_to && len > 0;
        let g = F::get_mut(y).is_some();
        if shared { chk(m.g, 63, !g); } else if other == 0 && m.n >= m.total() { chk(m.g, 64, g); cover(604); }
    }
    let mut i = 0;
    while i < MAXP { if kept[i].is_none() { break; } kept[i] = None; i += 1; }
    if let Some(o) = o {
        m.check_range(80, &o, 0, m.alive_to);
        if !T::ZST { chk(m.g, 83, undropped(start(1), m.alive_to)); }
        drop(o);
        cover(605);
    }
    if let Some(w) = w { chk(m.g, 65, F::upgrade(&w).is_none()); drop(w); }
    finish(&m);
}

/// Parts of a unique handle.
pub fn unique<T: It, F: Fam<T>>() {
    let (mut m, v) = new_model::<T>(G_MPARTS);
    let root = F::m_from_vec(v);
    let mut it = F::m_split_into_parts(root, 1 << m.order);
    let keep = pick_of(if param(7) == 0 { 15 } else { param(7) });
    let mut kept: [Option<(F::M, u64)>; MAXP] = [const { None }; MAXP];
    walk::<T, F::M, F::MParts>(&mut m, &mut it, F::mp_slice, Some(F::mp_mut_slice), &mut kept, keep, param(5), 0);
    let end = pick_of(if param(8) == 0 { 3 } else { param(8) & !4 });
    log(end);
    let (_, rl) = m.rest();
    if !T::ZST { let (rs, rl) = m.rest(); chk(m.g, 43, undropped(start(1).wrapping_add(rs), rl)); }
    match end {
        0 => drop(it),
        3 | 4 | 5 => finale(&m, it, end),
        _ => chk(m.g, 62, it.count() as u64 == m.total() - m.f - m.b),
    }
    m.dropped += rl;
    chk(m.g, 42, dropped_total() == m.dropped);
    check_kept(&m, &kept);
    // A part that was handed out is an ordinary handle.
    if let Some((y, p)) = kept[0].take() {
        let (st, len) = part(m.n, m.order, p);
        let mut s = F::into_immut(y);
        m.check_range(80, &s, st, len);
        chk(m.g, 84, F::get_mut(&mut s).is_some());
        chk(m.g, 85, dropped_total() == m.dropped);
        let h = F::split_off_left(&mut s);
        m.check_range(86, &h, st, len / 2);
        m.check_range(88, &s, st + len / 2, len - len / 2);
    }
    let mut i = 1;
    while i < MAXP { if kept[i].is_none() { break; } kept[i] = None; i += 1; }
    finish(&m);
}

/// Any number of parts whatsoever: refused, by a panic, exactly when it is not a power of two.
pub fn number<T: It, F: Fam<T>>() {
    let uniq = pick(2) == 1;
    let g = if uniq { G_MPARTS } else { G_PARTS };
    let n = pick_n::<T>(param(2));
    // Zero, or an odd number shifted left: every number there is.
    let z = pick(65);
    let np = if z == 64 { 0 } else { (2 * range(0, (u64::MAX >> z) >> 1) + 1) << z };
    let v: Vec<T> = make_vec(n, 1);
    let ok = z < 64 && np == 1 << z;
    let mut len_ok = true;
    let p = if uniq {
        let root = F::m_from_vec(v);
        try_run(|| { let it = F::m_split_into_parts(root, np as usize); len_ok = it.len() == np as usize; drop(it); })
    } else {
        let root = F::from_vec(v);
        try_run(|| { let it = F::split_into_parts(root, np as usize); len_ok = it.len() == np as usize; drop(it); })
    };
    chk(g, 90, p != ok);
    chk(g, 91, len_ok);
    chk(g, 92, dropped_total() == n);
    if !p { chk(g, 93, live_heap() == 0); }
    cover(if p { 690 } else { 691 });
    cover(100);
}
