// Client programs over generated objects (C20).  Modes: shuttle (controlled schedules) or real threads (stress / Miri).
use crate::glue::{Raw, Slot, ENTRIES, FACES, SKELS};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Param { pub kind: u8, pub out: bool, pub size: usize, pub nobj: usize }   // kind 0: bytes, 1: buffer (size: element), 2: objects
pub struct Entry { pub drv: unsafe extern "C" fn(Raw, *mut Slot) -> i32, pub face: usize, pub op: u32, pub opt: bool, pub params: &'static [Param] }
pub struct Face { pub cl: unsafe fn(*const Raw) -> Raw, pub dr: unsafe fn(Raw), pub up: unsafe fn(Raw) -> Raw, pub asr: unsafe fn(*const Raw) -> Raw,
                  pub de: unsafe fn(*const Raw) -> Raw, pub conv: unsafe fn(Raw) -> Raw, pub base: usize }
pub struct Skel { pub mk: unsafe extern "C" fn() -> Raw, pub face: usize, pub full: bool, pub dc: unsafe fn(*const Raw, &mut dyn FnMut(usize)) -> bool }

const MAXI: usize = 4;
const MAXT: usize = 6;

struct Inst { state: std::cell::UnsafeCell<u64>, active: AtomicI64, done: AtomicU64, bodies: AtomicU64, live: AtomicI64, dropped: AtomicI64, ctx: AtomicUsize,
              peer: std::cell::UnsafeCell<Option<(Raw, usize)>> }
unsafe impl Sync for Inst {}
impl Inst {
    const fn new() -> Self {
        Inst { state: std::cell::UnsafeCell::new(0), active: AtomicI64::new(0), done: AtomicU64::new(0), bodies: AtomicU64::new(0), live: AtomicI64::new(0), dropped: AtomicI64::new(0),
               ctx: AtomicUsize::new(0), peer: std::cell::UnsafeCell::new(None) }
    }
}
static INST: [Inst; MAXI] = [const { Inst::new() }; MAXI];
static CREATING: AtomicUsize = AtomicUsize::new(0);
static TRACE: AtomicU64 = AtomicU64::new(0);
static CONTENDED: AtomicU64 = AtomicU64::new(0);
static RACED_DROP: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
static SERVED: AtomicU64 = AtomicU64::new(0);

fn viol(s: &str) -> ! {
    println!("VIOL {}", s);
    std::process::exit(3)
}

fn trace(kind: u64, x: u64) {
    if cfg!(shuttle_mode) {
        let h = TRACE.load(Relaxed) ^ (kind * 131 + x * 7 + tid() as u64 + 1);
        TRACE.store(h.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(17), Relaxed);
    }
}

// ---------------------------------------------------------------- threads
#[cfg(shuttle_mode)]
mod vt {
    pub use shuttle::sync::Mutex;
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    static MAP: [AtomicUsize; 64] = [const { AtomicUsize::new(0) }; 64];
    pub fn set_tid(t: usize) { MAP[usize::from(shuttle::current::me())].store(t, Relaxed) }
    pub fn tid() -> usize { match shuttle::current::get_current_task() { Some(t) => MAP[usize::from(t)].load(Relaxed), None => 0 } }
    pub fn spawn(f: impl FnOnce() + Send + 'static) -> shuttle::thread::JoinHandle<()> { shuttle::thread::spawn(f) }
    pub fn sched(_n: u64) { shuttle::sync::atomic::AtomicUsize::new(0).load(Relaxed); }
}
#[cfg(not(shuttle_mode))]
mod vt {
    pub use std::sync::Mutex;
    use std::cell::Cell;
    thread_local! { static TID: Cell<usize> = const { Cell::new(0) }; static RNG: Cell<u64> = const { Cell::new(1) }; }
    pub fn set_tid(t: usize) { TID.with(|x| x.set(t)); RNG.with(|x| x.set(x.get().wrapping_add(t as u64 * 77 + 1))) }
    pub fn tid() -> usize { TID.with(|x| x.get()) }
    pub fn spawn(f: impl FnOnce() + Send + 'static) -> std::thread::JoinHandle<()> { std::thread::spawn(f) }
    pub fn sched(n: u64) {
        let r = RNG.with(|x| { let mut v = x.get(); v ^= v << 13; v ^= v >> 7; v ^= v << 17; x.set(v); v });
        if cfg!(miri) { if r % 3 == 0 { std::thread::yield_now() } return }
        match (r >> 20) % 8 {
            0 => std::thread::yield_now(),
            1 | 2 => for _ in 0..(r >> 30) % 400 { std::hint::spin_loop() },
            3 => if n > 1 { std::thread::yield_now(); std::thread::yield_now() },
            _ => {}
        }
    }
}
use vt::*;

// ---------------------------------------------------------------- handles
#[derive(Clone, Copy)]
struct H { raw: Raw, inst: usize, face: usize }
unsafe impl Send for H {}

fn inst_of(r: &Raw) -> usize {
    let c = unsafe { r.ctx() };
    for i in 0..MAXI {
        if INST[i].ctx.load(Relaxed) == c && INST[i].dropped.load(Relaxed) == 0 { return i }
    }
    viol("a handle which belongs to no live implementation reached a method body or came out of a call")
}
fn object_face() -> usize { FACES.len() - 1 }

unsafe fn h_clone(h: &H) -> H {
    trace(1, h.inst as u64);
    let raw = (FACES[h.face].cl)(&h.raw);
    if raw.ctx() != h.raw.ctx() || raw.invoke != h.raw.invoke { viol("a clone refers to another object") }
    INST[h.inst].live.fetch_add(1, Relaxed);
    H { raw, ..*h }
}
unsafe fn h_drop(h: H) {
    trace(2, h.inst as u64);
    if INST[h.inst].active.load(Relaxed) != 0 { RACED_DROP.fetch_add(1, Relaxed); }
    INST[h.inst].live.fetch_sub(1, Relaxed);
    (FACES[h.face].dr)(h.raw);
}

// ---------------------------------------------------------------- implementation side
#[derive(Clone, Copy)]
struct Frame { status: i32, body: u8, give: u8, nest: u64, target: usize, seen: u64, entered: u32, opt_full: bool }
static FRAMES: [FrameCell; MAXT] = [const { FrameCell(std::cell::UnsafeCell::new(Vec::new())) }; MAXT];
struct FrameCell(std::cell::UnsafeCell<Vec<Frame>>);
unsafe impl Sync for FrameCell {}
unsafe fn frames() -> &'static mut Vec<Frame> { &mut *FRAMES[tid()].0.get() }

#[no_mangle]
pub unsafe extern "C" fn host_new(_skel: i32) -> *mut u8 { (CREATING.load(Relaxed) + 1) as *mut u8 }

#[no_mangle]
pub unsafe extern "C" fn host_release(me: *mut u8) -> i32 {
    let k = me as usize - 1;
    let i = &INST[k];
    trace(3, k as u64);
    if i.dropped.fetch_add(1, Relaxed) != 0 { viol(&format!("implementation {} dropped twice", k)) }
    if i.active.load(Relaxed) != 0 { viol(&format!("implementation {} dropped while one of its methods runs", k)) }
    let l = i.live.load(Relaxed);
    if l != 0 { viol(&format!("implementation {} dropped while {} handle(s) are left", k, l)) }
    // every effect must be visible to the destructor
    if *i.state.get() != i.bodies.load(Relaxed) { viol(&format!("destructor of {} sees {} of {} completed invocations", k, *i.state.get(), i.bodies.load(Relaxed))) }
    sched(1);
    if let Some((raw, j)) = (*i.peer.get()).take() { h_drop(H { raw, inst: j, face: object_face() }) }
    sched(1);
    if i.active.load(Relaxed) != 0 { viol(&format!("a method of {} runs while the implementation is dropped", k)) }
    0
}

#[no_mangle]
pub unsafe extern "C" fn host_modified(_idx: i32) {}

#[no_mangle]
pub unsafe extern "C" fn host_impl(me: *mut u8, _mid: i32, s: *mut Slot, n: i32) -> i32 {
    let k = me as usize - 1;
    let i = &INST[k];
    trace(4, k as u64);
    if i.active.fetch_add(1, Relaxed) != 0 { viol(&format!("two method bodies of implementation {} at the same time", k)) }
    if i.dropped.load(Relaxed) != 0 { viol(&format!("a method of {} runs after the implementation was dropped", k)) }
    let f = match frames().last_mut() { Some(f) => { f.entered += 1; *f } None => viol("a method body runs although nothing was invoked") };
    if f.target != k { viol("another implementation than the invoked one was entered") }
    let seen = *i.state.get();
    if seen < f.seen { viol(&format!("an invocation of {} does not see {} of the {} invocations completed before it", k, f.seen - seen, f.seen)) }
    for b in 0..f.body {
        sched(b as u64);
        if *i.state.get() != seen { viol(&format!("state of {} changed while a method body runs", k)) }
    }
    if i.dropped.load(Relaxed) != 0 { viol(&format!("implementation {} dropped while one of its methods runs", k)) }
    // hold and let go of what was passed in
    for a in 0..n as usize {
        let q = &*s.add(a);
        if q.out != 0 || f.give & 1 == 0 { continue }
        for j in 0..q.nobj {
            let r = &*q.objs.add(j);
            if r.invoke.is_null() { continue }
            let h = H { raw: *r, inst: inst_of(r), face: object_face() };
            let c = h_clone(&h);
            sched(1);
            h_drop(c);
        }
    }
    // call the next implementation while this one is locked
    if f.nest != 0 {
        if let Some((raw, j)) = *i.peer.get() {
            let sk = PEER_SKEL[j].load(Relaxed);
            let h = H { raw, inst: j, face: SKELS[sk].face };
            call(&h, f.nest >> 8, (f.nest & 0xff) % 4, 0, 0, 0, &[]);
        }
    }
    *i.state.get() = seen + 1;
    i.bodies.fetch_add(1, Relaxed);
    sched(1);
    if *i.state.get() != seen + 1 { viol(&format!("state of {} changed while a method body runs", k)) }
    if f.status == 0 {
        for a in 0..n as usize {
            let q = &mut *s.add(a);
            if q.out == 0 { continue }
            q.lenout = if q.len == 0 { 0 } else { seen as usize % (q.len + 1) };
            for j in 0..q.nobj {
                *q.objs.add(j) = Raw::NULL;
                if f.give & 2 != 0 {
                    if let Some((raw, p)) = *i.peer.get() {
                        let h = H { raw, inst: p, face: object_face() };
                        *q.objs.add(j) = h_clone(&h).raw;
                    }
                }
            }
        }
    }
    if i.dropped.load(Relaxed) != 0 { viol(&format!("implementation {} dropped while one of its methods runs", k)) }
    if i.active.fetch_sub(1, Relaxed) != 1 { viol(&format!("two method bodies of implementation {} at the same time", k)) }
    trace(5, k as u64);
    f.status
}

static PEER_SKEL: [AtomicUsize; MAXI] = [const { AtomicUsize::new(0) }; MAXI];

/// one invocation through the generated stub; returns handles which came out
unsafe fn call(h: &H, r: u64, body: u64, give: u64, status: i32, nest: u64, pool: &[H]) -> Vec<H> {
    let ents: Vec<&Entry> = ENTRIES.iter().filter(|e| e.face == h.face).collect();
    if ents.is_empty() { return vec![] }
    let e = ents[r as usize % ents.len()];
    let mut x = r.wrapping_mul(0x2545F4914F6CDD1D) | 1;
    let mut rnd = move || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x };
    let n = e.params.len();
    let mut bytes: Vec<Vec<u128>> = Vec::new();
    let mut objs: Vec<Vec<Raw>> = Vec::new();
    let mut slots: Vec<Slot> = Vec::new();
    for p in e.params {
        let len = (rnd() % 4) as usize;
        let nb = if p.kind == 1 { p.size * len } else { p.size };
        let mut b = vec![0u128; nb / 16 + 1];
        for q in b.iter_mut() { *q = rnd() as u128 | (rnd() as u128) << 64 }
        let mut o = vec![Raw::NULL; p.nobj];
        if !p.out && !pool.is_empty() {
            for q in o.iter_mut() { if rnd() % 3 != 0 { *q = pool[rnd() as usize % pool.len()].raw } }
        }
        bytes.push(b);
        objs.push(o);
        slots.push(Slot { p: std::ptr::null_mut(), bytes: nb, elem: p.size, len, lenout: usize::MAX, objs: std::ptr::null_mut(), nobj: p.nobj, out: p.out as i32 });
    }
    for k in 0..n { slots[k].p = bytes[k].as_mut_ptr().cast(); slots[k].objs = objs[k].as_mut_ptr(); }
    slots.push(Slot { p: std::ptr::null_mut(), bytes: 0, elem: 0, len: 0, lenout: 0, objs: std::ptr::null_mut(), nobj: 0, out: 0 });
    let i = &INST[h.inst];
    if i.active.load(Relaxed) != 0 { CONTENDED.fetch_add(1, Relaxed); }
    let full = SKELS[PEER_SKEL[h.inst].load(Relaxed)].full;
    frames().push(Frame { status, body: body as u8, give: give as u8, nest, target: h.inst, seen: i.done.load(Relaxed), entered: 0, opt_full: full || !e.opt });
    CALLS.fetch_add(1, Relaxed);
    trace(6, h.inst as u64);
    let st = (e.drv)(h.raw, slots.as_mut_ptr());
    trace(7, st as u64);
    let f = frames().pop().unwrap();
    if f.opt_full {
        if f.entered != 1 { viol(&format!("an invocation entered the implementation {} times (status {})", f.entered, st)) }
        if st != status { viol(&format!("an invocation whose method returned {} reports {}", status, st)) }
        SERVED.fetch_add(1, Relaxed);
        i.done.fetch_add(1, Relaxed);
    } else if f.entered != 0 || st == 0 {
        viol(&format!("a method which is not implemented was entered {} times, status {}", f.entered, st))
    }
    let mut out = vec![];
    if st == 0 {
        for (k, p) in e.params.iter().enumerate() {
            if !p.out { continue }
            for j in 0..p.nobj {
                let raw = objs[k][j];
                if !raw.invoke.is_null() { out.push(H { raw, inst: inst_of(&raw), face: object_face() }) }
            }
        }
    }
    out
}

// ---------------------------------------------------------------- client programs
#[derive(Clone)]
struct Op { op: u8, a: [u64; 6] }
#[derive(Clone)]
struct Prog { insts: Vec<usize>, threads: Vec<Vec<Op>> }

fn parse(text: &str) -> Prog {
    let mut p = Prog { insts: vec![], threads: vec![] };
    for ln in text.lines() {
        let w: Vec<&str> = ln.split_whitespace().collect();
        if w.is_empty() { continue }
        match w[0] {
            "inst" => p.insts.push(w[1].parse().unwrap()),
            "thr" => p.threads.push(vec![]),
            _ => {
                let mut a = [0u64; 6];
                for (k, x) in w[1..].iter().enumerate() { a[k] = x.parse().unwrap() }
                p.threads.last_mut().unwrap().push(Op { op: w[0].as_bytes()[0], a })
            }
        }
    }
    p
}

static MAILBOX: OnceBox = OnceBox(std::cell::UnsafeCell::new(None));
struct OnceBox(std::cell::UnsafeCell<Option<Mutex<Vec<H>>>>);
unsafe impl Sync for OnceBox {}
unsafe fn mailbox() -> &'static Mutex<Vec<H>> { (*MAILBOX.0.get()).as_ref().unwrap() }

unsafe fn run_ops(ops: &[Op], hs: &mut Vec<H>) {
    for o in ops {
        if o.op == b'r' {
            let got = mailbox().lock().unwrap().pop();
            if let Some(h) = got { hs.push(h) }
            continue
        }
        if o.op == b'y' { sched(2); continue }
        if hs.is_empty() { continue }
        let k = o.a[0] as usize % hs.len();
        let h = hs[k];
        match o.op {
            b'c' => { let c = h_clone(&h); hs.push(c) }
            b'd' => { hs.swap_remove(k); h_drop(h) }
            b'u' => { trace(8, 0); hs[k] = H { raw: (FACES[h.face].up)(h.raw), face: FACES[h.face].base, ..h } }
            b'v' => { hs[k] = H { raw: (FACES[h.face].conv)(h.raw), ..h } }
            b'a' | b'e' => {
                let raw = if o.op == b'a' { (FACES[h.face].asr)(&h.raw) } else { (FACES[h.face].de)(&h.raw) };
                INST[h.inst].live.fetch_add(1, Relaxed);
                hs.push(H { raw, face: FACES[h.face].base, inst: h.inst })
            }
            b's' => { hs.swap_remove(k); mailbox().lock().unwrap().push(h) }
            b'g' => {
                let sk = PEER_SKEL[h.inst].load(Relaxed);
                let mut ran = 0;
                let ok = (SKELS[sk].dc)(&h.raw, &mut |me| {
                    ran += 1;
                    if me != h.inst + 1 { viol("downcast reached another implementation") }
                    if INST[h.inst].dropped.load(Relaxed) != 0 { viol("downcast reached a dropped implementation") }
                    sched(1);
                    if INST[h.inst].dropped.load(Relaxed) != 0 { viol("downcast reached a dropped implementation") }
                });
                if !ok || ran != 1 { viol("downcast of a live object to its own type failed") }
            }
            b'b' => {
                let obj = &*(&h.raw as *const Raw as *const crate::object::Object);
                let mut dummy: [u128; 40] = [0; 40];
                let st = obj.invoke(0x3abc + o.a[1] as u32 % 64, dummy.as_mut_ptr().cast(), 0);
                if st == 0 { viol("an operation the interface does not have succeeded") }
            }
            b'm' => {
                if let Some(e) = ENTRIES.iter().filter(|e| e.face == h.face).nth(o.a[1] as usize % 5) {
                    let obj = &*(&h.raw as *const Raw as *const crate::object::Object);
                    let mut dummy: [u128; 80] = [0; 80];
                    let st = obj.invoke(e.op, dummy.as_mut_ptr().cast(), 0xffff);
                    if st == 0 { viol("an invocation with wrong counts succeeded") }
                }
            }
            b'k' => {
                let pool = hs.clone();
                let got = call(&h, o.a[1], o.a[2], o.a[3], o.a[4] as i32, o.a[5], &pool);
                hs.extend(got);
            }
            _ => viol("bad program"),
        }
    }
}

unsafe fn execution(p: &Prog) {
    set_tid(0);
    for i in INST.iter() {
        *i.state.get() = 0;
        *i.peer.get() = None;
        for a in [&i.active, &i.live, &i.dropped] { a.store(0, Relaxed) }
        for a in [&i.done, &i.bodies] { a.store(0, Relaxed) }
        i.ctx.store(0, Relaxed);
    }
    for f in FRAMES.iter() { (*f.0.get()).clear() }
    *MAILBOX.0.get() = Some(Mutex::new(vec![]));
    let n = p.insts.len();
    let mut own: Vec<H> = vec![];
    for k in (0..n).rev() {
        CREATING.store(k, Relaxed);
        let sk = &SKELS[p.insts[k] % SKELS.len()];
        PEER_SKEL[k].store(p.insts[k] % SKELS.len(), Relaxed);
        let raw = (sk.mk)();
        INST[k].ctx.store(raw.ctx(), Relaxed);
        INST[k].live.store(1, Relaxed);
        let h = H { raw, inst: k, face: sk.face };
        if let Some(l) = own.last() { *INST[k].peer.get() = Some((h_clone(l).raw, l.inst)) }
        own.push(h);
    }
    own.reverse();
    let mut joins = vec![];
    for (t, ops) in p.threads.iter().enumerate().skip(1) {
        let mut hs: Vec<H> = vec![];
        for h in own.iter() { hs.push(h_clone(h)) }
        let ops = ops.clone();
        joins.push(spawn(move || unsafe {
            set_tid(t);
            let mut hs = { let h = hs; h };
            run_ops(&ops, &mut hs);
            for h in hs { h_drop(h) }
        }));
    }
    run_ops(&p.threads[0], &mut own);
    for h in own { h_drop(h) }
    for j in joins { if j.join().is_err() { viol("a client thread panicked") } }
    let rest: Vec<H> = std::mem::take(&mut *mailbox().lock().unwrap());
    for h in rest { h_drop(h) }
    for k in 0..n {
        let d = INST[k].dropped.load(Relaxed);
        if d != 1 { viol(&format!("implementation {} was dropped {} times although no handle is left", k, d)) }
        if *INST[k].state.get() != INST[k].bodies.load(Relaxed) { viol("an effect was lost") }
    }
}

fn main_real(p: Prog, iters: u64) {
    for _ in 0..iters { unsafe { execution(&p) } }
    println!("DONE execs={} calls={} served={} contended={} raced_drops={}", iters, CALLS.load(Relaxed), SERVED.load(Relaxed), CONTENDED.load(Relaxed), RACED_DROP.load(Relaxed));
}

#[cfg(shuttle_mode)]
fn main_shuttle(p: Prog, how: &str, seed: u64, iters: usize, trace_out: bool) {
    use shuttle::scheduler::*;
    use std::collections::BTreeSet;
    let mut cfg = shuttle::Config::new();
    cfg.stack_size = 0x40000;
    cfg.failure_persistence = shuttle::FailurePersistence::None;
    cfg.silence_warnings = true;
    cfg.max_steps = shuttle::MaxSteps::FailAfter(200_000);
    let traces = std::sync::Arc::new(std::sync::Mutex::new((BTreeSet::new(), 0u64)));
    let t2 = traces.clone();
    let body = move || {
        TRACE.store(1, Relaxed);
        let (c0, r0) = (CONTENDED.load(Relaxed), RACED_DROP.load(Relaxed));
        unsafe { execution(&p) }
        let mut t = t2.lock().unwrap();
        t.1 += 1;
        if CONTENDED.load(Relaxed) > c0 || RACED_DROP.load(Relaxed) > r0 { t.0.insert(TRACE.load(Relaxed)); }
    };
    let n = match how.split(':').collect::<Vec<_>>()[..] {
        ["pct", d] => shuttle::Runner::new(PctScheduler::new_from_seed(seed, d.parse().unwrap(), iters), cfg).run(body),
        ["urw"] => shuttle::Runner::new(UrwRandomScheduler::new_from_seed(seed, iters), cfg).run(body),
        ["dfs"] => shuttle::Runner::new(DfsScheduler::new(Some(iters), false), cfg).run(body),
        _ => shuttle::Runner::new(RandomScheduler::new_from_seed(seed, iters), cfg).run(body),
    };
    let t = traces.lock().unwrap();
    println!("DONE execs={} calls={} served={} contended={} raced_drops={} interleavings={} exhausted={}", t.1, CALLS.load(Relaxed), SERVED.load(Relaxed), CONTENDED.load(Relaxed), RACED_DROP.load(Relaxed),
             t.0.len(), (how == "dfs" && n < iters) as u8);
    if trace_out { println!("TRACES {}", t.0.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" ")) }
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut text = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).unwrap();
    let p = parse(&text);
    let iters: u64 = a[3].parse().unwrap();
    #[cfg(shuttle_mode)]
    return main_shuttle(p, &a[1], a[2].parse().unwrap(), iters as usize, true);
    #[cfg(not(shuttle_mode))]
    main_real(p, iters)
}
