//@ property=H01
// Actors: each task runs once, in order, delayed ones not early, none after the stop.
use ringrtc::common::actor::{Actor, Stopper};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const T0: u64 = 1_000_000_000_000;
const STEP: u64 = 1 << 19;

type Log = Arc<Mutex<Vec<usize>>>;

fn maybe_yield() {
    if sx::concb(sx::bool()) {
        sx::yield_now();
    }
}
fn write(l: &Log, k: usize) -> impl FnOnce(&mut u64) + Send + 'static {
    let l = l.clone();
    move |s| {
        *s += 1;
        l.lock().unwrap().push(k);
    }
}

/// Two threads send to an actor: nothing is lost, doubled or, within a thread, reordered, and
/// each task sees the state the one before left.
fn senders(each: usize) {
    sx::explore(true);
    let log: Arc<Mutex<Vec<(usize, u64)>>> = Default::default();
    let stopper = Stopper::new();
    let l0 = log.clone();
    let a = Actor::start("a", stopper.clone(), move |_| {
        l0.lock().unwrap().push((99, 0));
        Ok(7u64)
    })
    .unwrap();
    let send = |who: usize, k: usize, a: &Actor<u64>, l: &Arc<Mutex<Vec<(usize, u64)>>>| {
        let l = l.clone();
        a.send(move |s| {
            *s += 1;
            l.lock().unwrap().push((who * 10 + k, *s));
        });
    };
    let (a2, l2) = (a.clone(), log.clone());
    let t = std::thread::spawn(move || {
        for k in 0..each {
            send(1, k, &a2, &l2);
            maybe_yield();
        }
    });
    for k in 0..each {
        send(0, k, &a, &log);
        maybe_yield();
    }
    t.join().unwrap();
    sx::idle();
    let got = log.lock().unwrap().clone();
    sx::check!(got.len() == 2 * each + 1);
    sx::check!(got[0] == (99, 0));
    let (mut n0, mut n1) = (0, 0);
    let mut mixed = false;
    for (i, (k, s)) in got.iter().enumerate().skip(1) {
        sx::check!(*s == 7 + i as u64);
        if *k < 10 {
            sx::check!(*k == n0);
            n0 += 1;
            mixed |= n1 > 0 && n1 < each;
        } else {
            sx::check!(*k == 10 + n1);
            n1 += 1;
        }
    }
    sx::check!(!stopper.has_been_stopped());
    stopper.stop_all_and_join();
    sx::check!(stopper.has_been_stopped());
    sx::cover!(mixed);
}
//@ harness bound="2_threads_sending_2_tasks_each,every_schedule"
#[unsafe(no_mangle)]
pub extern "C" fn hx_h_senders() {
    senders(2);
}
//@ harness bound="2_threads_sending_3_tasks_each,every_schedule" tier=thorough
#[unsafe(no_mangle)]
pub extern "C" fn hx_h_senders3() {
    senders(3);
}

/// Delayed tasks run when they are due, not before, the earliest first, and do not hold up
/// the others.
fn delayed(ops: usize) {
    let log: Log = Default::default();
    let stopper = Stopper::new();
    let a = Actor::start("a", stopper.clone(), |_| Ok(0u64)).unwrap();
    sx::explore(true);
    let mut now = T0;
    // when each task is due (sent at, delay), and the instant by which it has to have run
    let mut due: Vec<(bool, u64)> = vec![];
    let mut done = 0;
    for _ in 0..ops {
        match sx::pick(0, 3) {
            0 => {
                a.send(write(&log, due.len()));
                due.push((true, now));
            }
            1 => {
                let d = sx::range(0, (1 << 20) - 1);
                a.send_delayed(Duration::from_nanos(d), write(&log, due.len()));
                due.push((false, now + d));
            }
            2 => {
                now += STEP;
                sx::clock(now);
                sx::cover!(done > 0);
            }
            _ => {
                sx::idle();
                let got = log.lock().unwrap().clone();
                // exactly those that are due have run
                let mut want = 0;
                for (k, (imm, d)) in due.iter().enumerate() {
                    let ran = got.iter().filter(|x| **x == k).count();
                    let w = if *imm || *d <= now { 1 } else { 0 };
                    sx::check!(ran == w);
                    want += w;
                }
                // what ran since the last look: immediate ones in order, first
                let new = &got[done..];
                for i in 0..new.len() {
                    for j in i + 1..new.len() {
                        let ((ii, di), (ij, dj)) = (due[new[i]], due[new[j]]);
                        if ii && ij {
                            sx::check!(new[i] < new[j]);
                        } else if !ii && !ij {
                            sx::check!(di <= dj);
                        }
                    }
                }
                done = want;
            }
        }
    }
    // all of them in the end
    now += 4 * STEP;
    sx::clock(now);
    sx::idle();
    let got = log.lock().unwrap().clone();
    sx::check!(got.len() == due.len());
    for k in 0..due.len() {
        sx::check!(got.contains(&k));
    }
    sx::cover!(due.len() == 4);
    stopper.stop_all_and_join();
}
//@ harness bound="5_operations:_send,_send_delayed_by_up_to_2^20_ns,_time_passing,_the_actor_running"
#[unsafe(no_mangle)]
pub extern "C" fn hx_h_delayed() {
    delayed(5);
}
//@ harness bound="6_operations:_send,_send_delayed_by_up_to_2^20_ns,_time_passing,_the_actor_running" tier=thorough
#[unsafe(no_mangle)]
pub extern "C" fn hx_h_delayed6() {
    delayed(6);
}

/// Left alone, an actor runs its delayed tasks at their times.
//@ harness bound="3_delayed_tasks_of_up_to_63_ns_each,one_sending_another"
#[unsafe(no_mangle)]
pub extern "C" fn hx_h_timer() {
    let log: Arc<Mutex<Vec<(usize, Instant)>>> = Default::default();
    let stopper = Stopper::new();
    let a = Actor::start("a", stopper.clone(), |_| Ok(())).unwrap();
    let d: Vec<u64> = (0..3).map(|_| sx::range(0, 63)).collect();
    let start = Instant::now();
    for k in 0..2 {
        let (l, a2, d2) = (log.clone(), a.clone(), d[2]);
        a.send_delayed(Duration::from_nanos(d[k]), move |_| {
            l.lock().unwrap().push((k, Instant::now()));
            if k == 1 {
                a2.send_delayed(Duration::from_nanos(d2), move |_| {
                    l.lock().unwrap().push((2, Instant::now()));
                });
            }
        });
    }
    // this thread sleeps longer than all of it takes
    std::thread::sleep(Duration::from_nanos(1 << 22));
    let got = log.lock().unwrap().clone();
    sx::check!(got.len() == 3);
    let want = [d[0], d[1], d[1] + d[2]];
    for (k, t) in &got {
        sx::check!(*t == start + Duration::from_nanos(want[*k]));
    }
    for w in got.windows(2) {
        sx::check!(want[w[0].0] <= want[w[1].0]);
    }
    sx::cover!(got[0].0 == 1 && got[1].0 == 2);
    stopper.stop_all_and_join();
}

/// Once stopped, an actor and those started with it run nothing any more, end without waiting
/// for delayed tasks, and let go of everything.
//@ harness bound="an_actor_and_its_child,2_tasks_before_and_2_after_the_stop,every_schedule"
#[unsafe(no_mangle)]
pub extern "C" fn hx_h_stop() {
    sx::explore(true);
    let log: Log = Default::default();
    let stopper = Stopper::new();
    let child: Arc<Mutex<Option<Actor<u64>>>> = Default::default();
    let c2 = child.clone();
    let a = Actor::start("a", stopper.clone(), move |me| {
        let c = Actor::start("child", me.stopper().clone(), |_| Ok(0u64))?;
        *c2.lock().unwrap() = Some(c);
        Ok(0u64)
    })
    .unwrap();
    sx::idle();
    let c = child.lock().unwrap().take().unwrap();
    let start = Instant::now();
    for k in 0..2 {
        let to = if sx::concb(sx::bool()) { &a } else { &c };
        if sx::concb(sx::bool()) {
            to.send(write(&log, k));
        } else {
            to.send_delayed(Duration::from_secs(3600), write(&log, k));
        }
        maybe_yield();
    }
    let inside = sx::concb(sx::bool());
    if inside {
        // an actor may stop everything, itself included
        let s = stopper.clone();
        let l = log.clone();
        a.send(move |_| {
            s.stop_all_without_joining();
            l.lock().unwrap().push(50);
        });
        sx::idle();
        sx::check!(log.lock().unwrap().contains(&50));
    }
    stopper.stop_all_and_join();
    sx::check!(stopper.has_been_stopped());
    sx::check!(Instant::now() == start);
    let before = log.lock().unwrap().clone();
    a.send(write(&log, 10));
    c.send_delayed(Duration::from_nanos(5), write(&log, 11));
    maybe_yield();
    sx::clock(T0 + 7_200_000_000_000);
    sx::idle();
    let after = log.lock().unwrap().clone();
    sx::check!(before == after);
    sx::cover!(before.len() == 3 && inside);
    sx::cover!(before.is_empty());
    drop((a, c));
    sx::check!(Arc::strong_count(&log) == 1);
}

/// An actor whose state cannot be made runs nothing, and can still be stopped.
//@ harness bound="an_actor_failing_to_start,1_task_sent"
#[unsafe(no_mangle)]
pub extern "C" fn hx_h_failed() {
    sx::explore(true);
    let log: Log = Default::default();
    let stopper = Stopper::new();
    let fails = sx::concb(sx::bool());
    let a = Actor::start("a", stopper.clone(), move |_| {
        if fails {
            return Err(anyhow::anyhow!("no"));
        }
        Ok(0u64)
    })
    .unwrap();
    maybe_yield();
    a.send(write(&log, 1));
    maybe_yield();
    sx::idle();
    sx::check!(log.lock().unwrap().len() == if fails { 0 } else { 1 });
    stopper.stop_all_and_join();
    drop(a);
    sx::check!(Arc::strong_count(&log) == 1);
    sx::cover!(fails);
    sx::cover!(!fails);
}
