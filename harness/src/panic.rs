//! A destructor that panics, anywhere: nothing is destroyed twice, nothing freed is used, the memory is freed.
//!
//! Parameters: 0 groups, 1 largest length + 1, 2 mask of scenarios.

use crate::fam::Fam;
use crate::parts::pick_of;
use crate::sym::*;
use crate::world::*;

const G: u64 = G_PANIC;

static mut BOMB: u64 = 0;

#[repr(transparent)]
pub struct Bomb(pub u64);
impl Drop for Bomb { fn drop(&mut self) { unsafe { __sym_drop(self.0); if self.0 == BOMB { BOMB = 0; __sym_panic(); } } } }
impl It for Bomb { const ZST: bool = false; fn id(&self) -> u64 { self.0 } }

fn let_go<X>(x: X) -> u64 { try_run(move || drop(x)) as u64 }

pub fn panic<F: Fam<Bomb>>() {
    let n = pick(param(1));
    let at = pick(n + 1);
    unsafe { BOMB = if at < n { start(1) + at } else { 0 }; }
    let v: Vec<Bomb> = make_vec(n, 1);
    let mut panics = 0;
    // Unique handles destroy all the rest even so.
    let mut all = true;
    let sc = pick_of(param(2));
    log(sc);
    match sc {
        0 => panics += let_go(F::m_from_vec(v)),
        1 => {
            let mut m = F::m_from_vec(v);
            let l = F::m_split_off_left(&mut m);
            if pick(2) == 0 { panics += let_go(l); panics += let_go(m); } else { panics += let_go(m); panics += let_go(l); }
        }
        2 => {
            let mut it = F::m_into_iter(F::m_from_vec(v));
            let mut k = pick(3);
            while k > 0 { let x = if pick(2) == 0 { it.next() } else { it.next_back() }; panics += let_go(x); k -= 1; }
            let at = pick(it.len() as u64 + 1);
            let j = F::it_from(&mut it, at as usize);
            if pick(2) == 0 { panics += let_go(it); panics += let_go(j); } else { panics += let_go(j); panics += let_go(it); }
        }
        3 => {
            let mut it = F::m_split_into_parts(F::m_from_vec(v), 4);
            let mut k = pick(3);
            while k > 0 { let x = if pick(2) == 0 { it.next() } else { it.next_back() }; panics += let_go(x); k -= 1; }
            panics += let_go(it);
        }
        4 => {
            all = false;
            let s = F::from_vec(v);
            let a = match pick(3) { 0 => s.clone(), 1 => F::clone_left(&s), _ => F::clone_right(&s) };
            let b = match pick(3) { 0 => s.clone(), 1 => F::clone_left(&s), _ => F::clone_right(&a) };
            let w = F::downgrade(&a);
            let o = pick(3);
            if o == 0 { panics += let_go(s); panics += let_go(a); panics += let_go(b); } else if o == 1 { panics += let_go(b); panics += let_go(a); panics += let_go(s); } else { panics += let_go(a); panics += let_go(s); panics += let_go(b); }
            chk(G, 10, F::upgrade(&w).is_none());
            drop(w);
        }
        5 => {
            all = false;
            let mut it = F::split_into_parts(F::from_vec(v), 4);
            let mut k = pick(3);
            while k > 0 { let x = if pick(2) == 0 { it.next() } else { it.next_back() }; panics += let_go(x); k -= 1; }
            panics += let_go(it);
        }
        _ => {
            all = false;
            let s = F::from_vec(v);
            { let l = F::clone_left(&s); let ll = F::clone_right(&l); panics += let_go(ll); panics += let_go(l); }
            match F::into_mut(s) {
                Ok(m) => { all = true; if pick(2) == 0 { panics += let_go(m); } else { let s = F::into_immut(m); panics += let_go(s); } cover(1301); }
                Err(s) => panics += let_go(s),
            }
        }
    }
    chk(G, 1, panics == (at < n) as u64 || !all);
    chk(G, 2, panics <= 1);
    chk(G, 3, dropped_total() <= n);
    if all || panics == 0 { chk(G, 4, dropped_total() == n); }
    chk(G, 5, live_heap() == 0);
    if panics == 1 { cover(1302); }
    cover(100);
}
