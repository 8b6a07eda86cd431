//! Deterministic interleaving: threads doing arithmetic on `Traced` hand a token to each other after a generated number
//! of operations, so exactly one runs at a time and the schedule is the seed's.
use crate::custom;
use crate::rng::Rng;
use std::cell::Cell;
use std::sync::{Condvar, Mutex};
use std::time::Duration;

struct St {
    turn: usize,
    epoch: u64,
    alive: Vec<bool>,
    rng: Rng,
    switches: u64,
    steals: u64,
}
pub struct Sched {
    m: Mutex<St>,
    cv: Condvar,
    burst: usize,
}
thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static CUR: Cell<*const Sched> = const { Cell::new(std::ptr::null()) };
}
fn hook() {
    let l = LEFT.with(|c| c.get());
    if l > 1 {
        LEFT.with(|c| c.set(l - 1));
        return;
    }
    let s = CUR.with(|c| c.get());
    if !s.is_null() {
        unsafe { (*s).switch(ME.with(|c| c.get())) }
    }
}
impl Sched {
    pub fn new(threads: usize, seed: u64, burst: usize) -> Sched {
        let mut rng = Rng::new(seed);
        let turn = rng.below(threads);
        Sched { m: Mutex::new(St { turn, epoch: 0, alive: vec![true; threads], rng, switches: 0, steals: 0 }), cv: Condvar::new(), burst: burst.max(1) }
    }
    fn next_budget(&self, st: &mut St) -> u64 {
        1 + st.rng.below(2 * self.burst) as u64
    }
    fn wait_turn<'a>(&'a self, me: usize, mut st: std::sync::MutexGuard<'a, St>) {
        let mut seen = st.epoch;
        while st.turn != me {
            let (g, t) = self.cv.wait_timeout(st, Duration::from_millis(200)).unwrap();
            st = g;
            if t.timed_out() && st.turn != me {
                if st.epoch == seen {
                    // the holder does not advance (it may be blocked on a lock that a paused thread holds): run as well
                    st.turn = me;
                    st.steals += 1;
                }
                seen = st.epoch;
            }
        }
        let b = self.next_budget(&mut st);
        LEFT.with(|c| c.set(b));
    }
    fn switch(&self, me: usize) {
        let mut st = self.m.lock().unwrap();
        st.epoch += 1;
        let alive: Vec<usize> = (0..st.alive.len()).filter(|i| st.alive[*i]).collect();
        let k = st.rng.below(alive.len());
        let next = alive[k];
        if next == me {
            let b = self.next_budget(&mut st);
            LEFT.with(|c| c.set(b));
            return;
        }
        st.switches += 1;
        st.turn = next;
        self.cv.notify_all();
        self.wait_turn(me, st);
    }
    /// runs f as thread `me` of the schedule
    pub fn run<R>(&self, me: usize, f: impl FnOnce() -> R) -> Result<R, String> {
        ME.with(|c| c.set(me));
        CUR.with(|c| c.set(self as *const Sched));
        let st = self.m.lock().unwrap();
        self.wait_turn(me, st);
        custom::set_hook(Some(hook));
        let r = crate::engine::panics(f);
        custom::set_hook(None);
        CUR.with(|c| c.set(std::ptr::null()));
        let mut st = self.m.lock().unwrap();
        st.epoch += 1;
        st.alive[me] = false;
        let alive: Vec<usize> = (0..st.alive.len()).filter(|i| st.alive[*i]).collect();
        if !alive.is_empty() {
            let k = st.rng.below(alive.len());
            st.turn = alive[k];
        }
        self.cv.notify_all();
        r
    }
    pub fn counts(&self) -> (u64, u64) {
        let st = self.m.lock().unwrap();
        (st.switches, st.steals)
    }
}
