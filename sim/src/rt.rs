//! The simulated async runtime: a single-threaded executor with virtual time, in which every task
//! belongs to a group (one incarnation of one node, or the harness). All scheduling choices come from
//! a seeded PRNG; time moves only when the simulator says so.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::Mutex;
use std::task::Context;
use std::task::Poll;
use std::task::Wake;
use std::task::Waker;
use std::time::Duration;

use openraft::AsyncRuntime;
use openraft::OptionalSend;
use openraft::TokioRuntime;

use crate::rng::mix;
use crate::rng::Rng;

pub type GroupId = usize;
pub const HARNESS: GroupId = 0;
const START: u64 = 1_000_000_000_000; // 1000 s: instants can be subtracted from

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

type BoxFut = Pin<Box<dyn Future<Output = ()>>>;

struct Task {
    gen: u64,
    group: GroupId,
    fut: Option<BoxFut>,
    waker: Option<Waker>,
    queued: bool,
    prio: u64,
    name: &'static str,
}

pub struct Group {
    pub node: u64,
    pub alive: bool,
    pub stalled_until: u64,
    parked: Vec<(usize, u64)>,
    /// local = base + (now - g0) * rate / 1e6 + offset
    g0: u64,
    rate_ppm: i64,
    pub offset: u64,
    rng: Rng,
    pub panics: Vec<String>,
}

impl Group {
    fn local(&self, now: u64) -> u64 {
        let el = now - self.g0;
        let adj = (el as i128 * self.rate_ppm as i128 / 1_000_000) as i64;
        (START as i64 + self.g0 as i64 + el as i64 + adj + self.offset as i64) as u64
    }
    fn to_global(&self, local: u64, now: u64) -> u64 {
        let cur = self.local(now);
        if local <= cur {
            return now;
        }
        let d = local - cur;
        let g = (d as i128 * 1_000_000 / (1_000_000 + self.rate_ppm as i128)) as u64;
        now + g + 1
    }
}

pub enum Timer {
    Wake(Waker, GroupId),
    Ready(usize, u64),
    Run(Box<dyn FnOnce()>),
    Unstall(GroupId),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Policy {
    Random,
    Prio,
    Fifo,
}

struct Rt {
    now: u64,
    seq: u64,
    timers: BTreeMap<(u64, u64), Timer>,
    tasks: Vec<Option<Task>>,
    free: Vec<usize>,
    gen: u64,
    ready: Vec<(usize, u64)>,
    groups: Vec<Group>,
    cur: GroupId,
    sched: Rng,
    policy: Policy,
    wake_delay_p: f64,
    wake_delay_mean: u64,
    poll_cost: u64,
    polls: u64,
    polls_at_now: u64,
    hash: u64,
    last_panic: Option<String>,
}

thread_local! {
    static RT: RefCell<Option<Rt>> = const { RefCell::new(None) };
}

fn with<R>(f: impl FnOnce(&mut Rt) -> R) -> R {
    RT.with(|r| f(r.borrow_mut().as_mut().expect("runtime not started")))
}

pub struct RtConfig {
    pub seed: u64,
    pub policy: Policy,
    pub wake_delay_p: f64,
    pub wake_delay_mean: u64,
    pub poll_cost: u64,
}

pub fn init(c: &RtConfig) {
    let rt = Rt {
        now: 0,
        seq: 0,
        timers: BTreeMap::new(),
        tasks: vec![],
        free: vec![],
        gen: 0,
        ready: vec![],
        groups: vec![],
        cur: HARNESS,
        sched: Rng::new(mix(c.seed, 0x5c4ed)),
        policy: c.policy,
        wake_delay_p: c.wake_delay_p,
        wake_delay_mean: c.wake_delay_mean,
        poll_cost: c.poll_cost,
        polls: 0,
        polls_at_now: 0,
        hash: 0xcbf29ce484222325,
        last_panic: None,
    };
    RT.with(|r| *r.borrow_mut() = Some(rt));
    new_group(u64::MAX, 0, mix(c.seed, 1));
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{} at {}", msg, loc);
        if std::env::var("SIM_BT").is_ok() {
            eprintln!("PANIC {}\n{}", text, std::backtrace::Backtrace::force_capture());
        }
        RT.with(|r| {
            if let Ok(mut g) = r.try_borrow_mut() {
                if let Some(rt) = g.as_mut() {
                    rt.last_panic = Some(text);
                }
            }
        });
    }));
}

pub fn new_group(node: u64, rate_ppm: i64, seed: u64) -> GroupId {
    with(|rt| {
        let g0 = rt.now;
        rt.groups.push(Group {
            node,
            alive: true,
            stalled_until: 0,
            parked: vec![],
            g0,
            rate_ppm,
            offset: 0,
            rng: Rng::new(seed),
            panics: vec![],
        });
        rt.groups.len() - 1
    })
}

pub fn set_poll_disturbance(wake_delay_p: f64) {
    with(|rt| rt.wake_delay_p = wake_delay_p)
}
pub fn now() -> u64 {
    with(|rt| rt.now)
}
pub fn polls() -> u64 {
    with(|rt| rt.polls)
}
pub fn trace_hash() -> u64 {
    with(|rt| rt.hash)
}
pub fn trace(x: u64) {
    with(|rt| rt.hash = (rt.hash ^ x).wrapping_mul(0x100000001b3).rotate_left(5));
}
pub fn next_seq() -> u64 {
    with(|rt| {
        rt.seq += 1;
        rt.seq
    })
}
pub fn cur_group() -> GroupId {
    with(|rt| rt.cur)
}
pub fn group_alive(g: GroupId) -> bool {
    with(|rt| rt.groups[g].alive)
}
pub fn local_time(g: GroupId) -> u64 {
    with(|rt| rt.groups[g].local(rt.now))
}
pub fn group_stalled_until(g: GroupId) -> u64 {
    with(|rt| rt.groups[g].stalled_until)
}
pub fn take_panics(g: GroupId) -> Vec<String> {
    with(|rt| std::mem::take(&mut rt.groups[g].panics))
}

/// Run `f` as if it was code of group `g` (spawned tasks belong to it, clock is the group's).
pub fn in_group<R>(g: GroupId, f: impl FnOnce() -> R) -> R {
    let prev = with(|rt| std::mem::replace(&mut rt.cur, g));
    let r = f();
    with(|rt| rt.cur = prev);
    r
}

pub fn stall(g: GroupId, dur: u64) {
    with(|rt| {
        let until = rt.now + dur;
        if rt.groups[g].stalled_until < until {
            rt.groups[g].stalled_until = until;
            let s = rt.seq;
            rt.seq += 1;
            rt.timers.insert((until, s), Timer::Unstall(g));
        }
    })
}

pub fn unstall_all() {
    with(|rt| {
        let now = rt.now;
        for i in 0..rt.groups.len() {
            if rt.groups[i].stalled_until > now {
                rt.groups[i].stalled_until = now;
                let s = rt.seq;
                rt.seq += 1;
                rt.timers.insert((now, s), Timer::Unstall(i));
            }
        }
    })
}

/// The clock of a node jumps forward: all its sleeping timers are re-examined.
pub fn clock_jump(g: GroupId, by: u64) {
    let wakers: Vec<Waker> = with(|rt| {
        rt.groups[g].offset += by;
        rt.timers
            .values()
            .filter_map(|t| match t {
                Timer::Wake(w, gg) if *gg == g => Some(w.clone()),
                _ => None,
            })
            .collect()
    });
    for w in wakers {
        w.wake();
    }
}

/// Schedule a harness action.
pub fn after(d: u64, f: impl FnOnce() + 'static) {
    with(|rt| {
        let s = rt.seq;
        rt.seq += 1;
        rt.timers.insert((rt.now + d, s), Timer::Run(Box::new(f)));
    })
}

struct TaskWaker {
    idx: usize,
    gen: u64,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        enqueue(self.idx, self.gen)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        enqueue(self.idx, self.gen)
    }
}

fn enqueue(idx: usize, gen: u64) {
    with(|rt| {
        let Some(Some(t)) = rt.tasks.get_mut(idx) else { return };
        if t.gen != gen || t.queued {
            return;
        }
        t.queued = true;
        if t.group != HARNESS && rt.wake_delay_p > 0.0 && rt.sched.chance(rt.wake_delay_p) {
            let d = rt.sched.exp(rt.wake_delay_mean).max(1);
            let s = rt.seq;
            rt.seq += 1;
            rt.timers.insert((rt.now + d, s), Timer::Ready(idx, gen));
        } else {
            rt.ready.push((idx, gen));
        }
    })
}

fn add_task(group: GroupId, name: &'static str, fut: BoxFut) -> bool {
    let r = with(|rt| {
        if !rt.groups[group].alive {
            return None;
        }
        rt.gen += 1;
        let gen = rt.gen;
        let idx = match rt.free.pop() {
            Some(i) => i,
            None => {
                rt.tasks.push(None);
                rt.tasks.len() - 1
            }
        };
        let prio = rt.sched.u64();
        rt.tasks[idx] = Some(Task {
            gen,
            group,
            fut: None,
            waker: Some(Waker::from(Arc::new(TaskWaker { idx, gen }))),
            queued: false,
            prio,
            name,
        });
        Some((idx, gen))
    });
    let Some((idx, gen)) = r else {
        drop(fut);
        return false;
    };
    with(|rt| rt.tasks[idx].as_mut().unwrap().fut = Some(fut));
    enqueue(idx, gen);
    true
}

/// Kill a group: drop all of its tasks as a process crash would.
pub fn kill_group(g: GroupId) {
    let (futs, timers) = with(|rt| {
        rt.groups[g].alive = false;
        rt.groups[g].parked.clear();
        let mut v = vec![];
        for i in 0..rt.tasks.len() {
            if rt.tasks[i].as_ref().map(|t| t.group == g).unwrap_or(false) {
                v.push(rt.tasks[i].take().unwrap());
                rt.free.push(i);
            }
        }
        let keys: Vec<_> = rt
            .timers
            .iter()
            .filter(|(_, t)| matches!(t, Timer::Wake(_, gg) if *gg == g))
            .map(|(k, _)| *k)
            .collect();
        let ts: Vec<_> = keys.into_iter().map(|k| rt.timers.remove(&k)).collect();
        (v, ts)
    });
    in_group(g, || {
        for t in futs {
            let _ = std::panic::catch_unwind(AssertUnwindSafe(move || drop(t)));
        }
        drop(timers);
    });
}

pub fn group_task_count(g: GroupId) -> usize {
    with(|rt| rt.tasks.iter().filter(|t| t.as_ref().map(|t| t.group == g).unwrap_or(false)).count())
}

pub fn group_task_names(g: GroupId) -> Vec<&'static str> {
    with(|rt| rt.tasks.iter().flatten().filter(|t| t.group == g).map(|t| t.name).collect())
}

#[derive(Debug, PartialEq, Eq)]
pub enum Step {
    Ran,
    Idle,
}

/// One step of the world: fire a due timer, or poll one ready task, or advance time to the next timer.
pub fn step(limit: u64) -> Step {
    enum Act {
        Timer(Timer),
        Poll(usize, u64, BoxFut, Waker, GroupId),
        Idle,
        Skip,
    }
    let act = with(|rt| {
        // due timers first
        if let Some((&(at, _), _)) = rt.timers.first_key_value() {
            if at <= rt.now {
                let (_, t) = rt.timers.pop_first().unwrap();
                return Act::Timer(t);
            }
        }
        if !rt.ready.is_empty() {
            let i = match rt.policy {
                Policy::Random => rt.sched.below(rt.ready.len() as u64) as usize,
                Policy::Fifo => 0,
                Policy::Prio => {
                    let mut best = 0;
                    let mut bp = 0;
                    for (k, (idx, gen)) in rt.ready.iter().enumerate() {
                        if let Some(Some(t)) = rt.tasks.get(*idx) {
                            if t.gen == *gen && t.prio >= bp {
                                bp = t.prio;
                                best = k;
                            }
                        }
                    }
                    best
                }
            };
            let (idx, gen) = if rt.policy == Policy::Fifo { rt.ready.remove(i) } else { rt.ready.swap_remove(i) };
            let now = rt.now;
            let Some(Some(t)) = rt.tasks.get_mut(idx) else { return Act::Skip };
            if t.gen != gen {
                return Act::Skip;
            }
            let g = t.group;
            if rt.groups[g].stalled_until > now {
                rt.groups[g].parked.push((idx, gen));
                return Act::Skip;
            }
            if rt.policy == Policy::Prio && rt.sched.below(64) == 0 {
                t.prio = rt.sched.u64();
            }
            t.queued = false;
            let Some(f) = t.fut.take() else { return Act::Skip };
            rt.polls += 1;
            rt.polls_at_now += 1;
            rt.hash = (rt.hash ^ (idx as u64) ^ (g as u64) << 20).wrapping_mul(0x100000001b3).rotate_left(5);
            let w = t.waker.clone().unwrap();
            if rt.poll_cost > 0 && g != HARNESS {
                rt.now += rt.sched.below(rt.poll_cost + 1);
            }
            rt.cur = g;
            return Act::Poll(idx, gen, f, w, g);
        }
        if let Some((&(at, _), _)) = rt.timers.first_key_value() {
            if at > limit {
                rt.now = limit.max(rt.now);
                return Act::Idle;
            }
            rt.now = at;
            rt.polls_at_now = 0;
            rt.hash = (rt.hash ^ at).wrapping_mul(0x100000001b3).rotate_left(5);
            let (_, t) = rt.timers.pop_first().unwrap();
            return Act::Timer(t);
        }
        rt.now = limit.max(rt.now);
        Act::Idle
    });
    match act {
        Act::Idle => return Step::Idle,
        Act::Skip => {}
        Act::Timer(t) => match t {
            Timer::Wake(w, _) => w.wake(),
            Timer::Ready(idx, gen) => with(|rt| {
                if let Some(Some(t)) = rt.tasks.get(idx) {
                    if t.gen == gen {
                        rt.ready.push((idx, gen));
                    }
                }
            }),
            Timer::Run(f) => f(),
            Timer::Unstall(g) => with(|rt| {
                if rt.groups[g].stalled_until <= rt.now {
                    let p = std::mem::take(&mut rt.groups[g].parked);
                    rt.ready.extend(p);
                }
            }),
        },
        Act::Poll(idx, gen, mut fut, waker, g) => {
            let mut cx = Context::from_waker(&waker);
            let res = std::panic::catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
            let done = match res {
                Ok(Poll::Pending) => false,
                Ok(Poll::Ready(())) => true,
                // a panic outside of `Guarded` is a bug of the harness
                Err(_) => {
                    let m = with(|rt| rt.last_panic.clone());
                    with(|rt| rt.cur = HARNESS);
                    crate::world::harness_error(format!("panic in harness task: {:?}", m));
                    true
                }
            };
            // put back or drop (dropping runs user code: not inside `with`)
            let mut dropme = None;
            let mut fut = Some(fut);
            with(|rt| match rt.tasks.get_mut(idx) {
                Some(Some(t)) if t.gen == gen => {
                    if done {
                        dropme = rt.tasks[idx].take();
                        rt.free.push(idx);
                    } else {
                        t.fut = fut.take();
                    }
                }
                _ => {} // group killed meanwhile: fut is dropped below
            });
            let _ = std::panic::catch_unwind(AssertUnwindSafe(move || {
                drop(dropme);
                drop(fut);
            }));
            with(|rt| rt.cur = HARNESS);
            let _ = g;
        }
    }
    Step::Ran
}

pub fn polls_at_now() -> u64 {
    with(|rt| rt.polls_at_now)
}

// ---------------------------------------------------------------------------------------------
// AsyncRuntime

#[derive(Debug, Default, PartialEq, Eq, Clone, Copy)]
pub struct SimRuntime;

#[derive(Debug)]
pub enum JoinError {
    Panic(String),
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}

struct JoinInner<T> {
    result: Option<Result<T, JoinError>>,
    waker: Option<Waker>,
}

pub struct JoinHandle<T> {
    inner: Arc<Mutex<JoinInner<T>>>,
}

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut g = self.inner.lock().unwrap();
        if let Some(r) = g.result.take() {
            Poll::Ready(r)
        } else {
            g.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}

struct SendWrap<F>(F);
// The whole simulated world is one thread.
unsafe impl<F> Send for SendWrap<F> {}
unsafe impl<F> Sync for SendWrap<F> {}

fn finish<T>(inner: &Arc<Mutex<JoinInner<T>>>, r: Result<T, JoinError>) {
    let w = {
        let mut g = inner.lock().unwrap();
        g.result = Some(r);
        g.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}

/// Runs a task and turns a panic into a join error, as tokio does.
struct Guarded<F: Future> {
    fut: Option<Pin<Box<F>>>,
    inner: Arc<Mutex<JoinInner<F::Output>>>,
    group: GroupId,
}

impl<F: Future> Future for Guarded<F> {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let this = unsafe { self.get_unchecked_mut() };
        let fut = this.fut.as_mut().unwrap();
        match std::panic::catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(cx))) {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(v)) => {
                let f = this.fut.take();
                let _ = std::panic::catch_unwind(AssertUnwindSafe(move || drop(f)));
                finish(&this.inner, Ok(v));
                Poll::Ready(())
            }
            Err(_) => {
                let msg = with(|rt| {
                    let m = rt.last_panic.take().unwrap_or_default();
                    rt.groups[this.group].panics.push(m.clone());
                    m
                });
                crate::world::on_panic(this.group, &msg);
                let f = this.fut.take();
                let _ = std::panic::catch_unwind(AssertUnwindSafe(move || drop(f)));
                finish(&this.inner, Err(JoinError::Panic(msg)));
                Poll::Ready(())
            }
        }
    }
}

/// Spawn in an explicit group.
pub fn spawn_in<T>(group: GroupId, name: &'static str, future: T) -> JoinHandle<T::Output>
where
    T: Future + 'static,
    T::Output: 'static,
{
    let inner = Arc::new(Mutex::new(JoinInner { result: None, waker: None }));
    let g = Guarded { fut: Some(Box::pin(future)), inner: inner.clone(), group };
    add_task(group, name, Box::pin(g));
    JoinHandle { inner }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct SimInstant(pub u64);

impl std::ops::Add<Duration> for SimInstant {
    type Output = SimInstant;
    fn add(self, d: Duration) -> SimInstant {
        SimInstant(self.0.checked_add(d.as_nanos() as u64).expect("instant overflow"))
    }
}
impl std::ops::AddAssign<Duration> for SimInstant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
impl std::ops::Sub<Duration> for SimInstant {
    type Output = SimInstant;
    fn sub(self, d: Duration) -> SimInstant {
        SimInstant(self.0.checked_sub(d.as_nanos() as u64).expect("instant underflow"))
    }
}
impl std::ops::SubAssign<Duration> for SimInstant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d
    }
}
impl std::ops::Sub<SimInstant> for SimInstant {
    type Output = Duration;
    fn sub(self, o: SimInstant) -> Duration {
        // like std / tokio: saturating
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
}
impl openraft::Instant for SimInstant {
    fn now() -> Self {
        with(|rt| SimInstant(rt.groups[rt.cur].local(rt.now)))
    }
}

pub struct Sleep {
    deadline: SimInstant,
    key: Option<(u64, u64)>,
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let deadline = self.deadline.0;
        let old = self.key.take();
        let r = with(|rt| {
            let dropped = old.and_then(|k| rt.timers.remove(&k));
            let g = &rt.groups[rt.cur];
            if g.local(rt.now) >= deadline {
                return (None, dropped);
            }
            let at = g.to_global(deadline, rt.now).max(rt.now + 1);
            let s = rt.seq;
            rt.seq += 1;
            rt.timers.insert((at, s), Timer::Wake(cx.waker().clone(), rt.cur));
            (Some((at, s)), dropped)
        });
        match r.0 {
            None => Poll::Ready(()),
            Some(k) => {
                self.key = Some(k);
                Poll::Pending
            }
        }
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(k) = self.key.take() {
            let t = with(|rt| rt.timers.remove(&k));
            drop(t);
        }
    }
}

/// Sleep in simulated global time, for harness and storage code.
pub fn sleep_ns(d: u64) -> Sleep {
    let l = with(|rt| rt.groups[rt.cur].local(rt.now));
    Sleep { deadline: SimInstant(l + d), key: None }
}

/// Poll `fut` for at most `d`, then drop it half way: what becomes of a call whose caller gave up.
pub async fn cancel_after<F: Future>(d: Option<u64>, fut: F) -> Option<F::Output> {
    let Some(d) = d else { return Some(fut.await) };
    Timeout { fut: Box::pin(fut), sleep: sleep_ns(d) }.await.ok()
}

#[derive(Debug)]
pub struct Elapsed;
impl fmt::Display for Elapsed {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "deadline has elapsed")
    }
}

pub struct Timeout<F> {
    fut: Pin<Box<F>>,
    sleep: Sleep,
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, Elapsed>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Poll::Ready(v) = self.fut.as_mut().poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match Pin::new(&mut self.sleep).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(Elapsed)),
            Poll::Pending => Poll::Pending,
        }
    }
}

pub struct SimRng;
impl rand::RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        with(|rt| {
            let c = rt.cur;
            rt.groups[c].rng.u64()
        })
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl AsyncRuntime for SimRuntime {
    type JoinError = JoinError;
    type JoinHandle<T: OptionalSend + 'static> = JoinHandle<T>;
    type Sleep = Sleep;
    type Instant = SimInstant;
    type TimeoutError = Elapsed;
    type Timeout<R, T: Future<Output = R> + OptionalSend> = Timeout<T>;
    type ThreadLocalRng = SimRng;

    fn spawn<T>(future: T) -> Self::JoinHandle<T::Output>
    where
        T: Future + OptionalSend + 'static,
        T::Output: OptionalSend + 'static,
    {
        spawn_in(cur_group(), "raft", future)
    }
    fn sleep(d: Duration) -> Sleep {
        Sleep { deadline: <SimInstant as openraft::Instant>::now() + d, key: None }
    }
    fn sleep_until(deadline: SimInstant) -> Sleep {
        Sleep { deadline, key: None }
    }
    fn timeout<R, F: Future<Output = R> + OptionalSend>(d: Duration, future: F) -> Timeout<F> {
        Timeout { fut: Box::pin(future), sleep: Self::sleep(d) }
    }
    fn timeout_at<R, F: Future<Output = R> + OptionalSend>(deadline: SimInstant, future: F) -> Timeout<F> {
        Timeout { fut: Box::pin(future), sleep: Self::sleep_until(deadline) }
    }
    fn is_panic(e: &JoinError) -> bool {
        matches!(e, JoinError::Panic(_))
    }
    fn thread_rng() -> SimRng {
        SimRng
    }

    type Mpsc = <TokioRuntime as AsyncRuntime>::Mpsc;
    type MpscUnbounded = <TokioRuntime as AsyncRuntime>::MpscUnbounded;
    type Watch = <TokioRuntime as AsyncRuntime>::Watch;
    type Oneshot = <TokioRuntime as AsyncRuntime>::Oneshot;
    type Mutex<T: OptionalSend + 'static> = <TokioRuntime as AsyncRuntime>::Mutex<T>;
}

#[allow(dead_code)]
fn _assert() {
    fn s<T: Send>() {}
    s::<SendWrap<()>>();
}
