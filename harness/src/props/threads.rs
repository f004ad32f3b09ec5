//! Encoders used by several threads at the same time.
//!
//! The scheduler is the processor: a call A of the real code is executed one instruction at a time (x86-64 trap flag) in
//! a process that is forked for it. Between any two instructions of the program (not inside the C library), the process
//! is forked: in the child, a thread executes the whole call B while A is suspended, then A goes on until its end. So
//! every schedule with one preemption is executed, whatever the code synchronises on. If B is blocked, or spins, A goes on
//! at once. Both results must be those of the model, and so must be the same calls made again afterwards.
//!
//! Partial order reduction: an instruction that only uses registers, the stack of A, its thread local block or read only
//! data commutes with all of B, so there is no need to preempt A right before it as well as right after it.
use super::bmcustom::Disk;
use super::encoders::Imps;
use super::history::{families, put_configurations, Family};
use super::SEP;
use crate::engine::{obs, Ctx, Obs, Prop};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::*};

pub struct Threads {
    dir: PathBuf,
}

pub fn threads() -> Threads {
    let disk = Disk::new("threads");
    put_configurations(&disk);
    Threads { dir: disk.dir }
}

/// Set in the processes that execute one case.
const STEP: &str = "VERIF_STEP";

// ---------------------------------------------------------------- Send and Sync

/// Whether the types are `Send` and `Sync`, without failing to compile if they aren't.
mod marker {
    use std::marker::PhantomData;
    pub struct W<T: ?Sized>(pub PhantomData<T>);
    pub trait Yes {
        fn shared(&self) -> bool;
    }
    impl<T: ?Sized + Send + Sync> Yes for W<T> {
        fn shared(&self) -> bool {
            true
        }
    }
    #[allow(dead_code)]
    pub trait No {
        fn shared(&self) -> bool;
    }
    impl<T: ?Sized> No for &W<T> {
        fn shared(&self) -> bool {
            false
        }
    }
}

fn types() -> Result<Obs, String> {
    #[allow(unused_imports)]
    use marker::{No, Yes};
    use rphonetic::*;
    let mut n = 0;
    let mut seen = vec![];
    macro_rules! all {
        ($($t:ty),* $(,)?) => {
            $(
                let w = marker::W::<$t>(std::marker::PhantomData);
                if !(&w).shared() {
                    return Err(format!("{} isn't Send and Sync: it can't be shared by threads", stringify!($t)));
                }
                n += 1;
                seen.push(stringify!($t));
            )*
        };
    }
    all!(
        Soundex,
        RefinedSoundex,
        Caverphone1,
        Caverphone2,
        Cologne,
        DaitchMokotoffSoundex,
        MatchRatingApproach,
        Metaphone,
        DoubleMetaphone,
        DoubleMetaphoneResult,
        Nysiis,
        Phonex,
        BeiderMorse<'static>,
        BeiderMorseBuilder<'static>,
        ConfigFiles,
        LanguageSet,
        NameType,
        RuleType,
        CharSequence<'static>,
        PhoneticError,
        BMError,
        ParseError,
    );
    obs(&seen, n)
}

// ---------------------------------------------------------------- Single stepping

/// Shared by the stepped process and its children.
struct Board {
    points: AtomicU64,
    steps: AtomicU64,
    schedules: AtomicU64,
    blocked: AtomicU64,
    failed: AtomicBool,
    at: AtomicU64,
    len: AtomicU64,
}
const TEXT: usize = 3000;

struct Job {
    f: *const Family,
    imps: *const Imps,
    a: usize,
    b: usize,
    /// Calls made before B in its thread.
    before: Vec<usize>,
    board: *const Board,
    text: *mut u8,
    /// Only the preemption points `part.0`, `part.0 + part.1`...
    part: (u64, u64),
    /// Two preemptions: B is suspended too, at each of its points in turn, until A ends.
    double: bool,
    /// Don't fork at each point: only suspend A at this one, among those where it uses static data.
    only: Option<u64>,
    stack_top: usize,
}
static mut JOB: Option<Job> = None;
/// In a child: the schedule has its preemption.
static PREEMPTED: AtomicBool = AtomicBool::new(false);
static STEPPING: AtomicBool = AtomicBool::new(false);
/// Two preemptions: in the child, where B is suspended.
static B_STOP: AtomicU64 = AtomicU64::new(u64::MAX);
static B_POINTS: AtomicU64 = AtomicU64::new(0);
static B_STACK: AtomicUsize = AtomicUsize::new(0);
static B_PARKED: AtomicBool = AtomicBool::new(false);
static A_TID: AtomicI32 = AtomicI32::new(0);
static A_DONE: AtomicBool = AtomicBool::new(false);
/// Exit code of a child where B ended before it was suspended.
const B_ENDED: i32 = 7;
static B_TID: AtomicI32 = AtomicI32::new(0);
static B_DONE: AtomicBool = AtomicBool::new(false);
static mut B_RESULT: Option<Result<String, String>> = None;

extern "C" {
    static __executable_start: u8;
    static etext: u8;
    static data_start: u8;
    static end: u8;
}

/// Memory used by an instruction.
#[derive(Clone, Copy, PartialEq)]
enum Access {
    /// None that another thread sees.
    Private,
    Shared,
    /// Static data: where what threads share begins, if they don't share an instance.
    Root,
}

unsafe fn shared_access(regs: &[libc::greg_t; 23], stack_top: usize) -> bool {
    access(regs, stack_top) != Access::Private
}

/// May the instruction at this address use memory that another thread sees ? When it isn't known, it may.
unsafe fn access(regs: &[libc::greg_t; 23], stack_top: usize) -> Access {
    use Access::*;
    let mut p = regs[libc::REG_RIP as usize] as *const u8;
    let mut rex = 0u8;
    let mut rep = false;
    let mut locked = false;
    // Prefixes
    loop {
        match *p {
            // fs: thread local
            0x64 => return Private,
            // lock
            0xf0 => locked = true,
            0x65 => return Shared,
            0xf2 | 0xf3 => rep = true,
            0x66 | 0x2e | 0x36 | 0x3e | 0x26 => {}
            0x67 => return Shared,
            _ => break,
        }
        p = p.add(1);
    }
    if *p & 0xf0 == 0x40 {
        rex = *p;
        p = p.add(1);
    }
    let op = *p;
    p = p.add(1);
    match op {
        // Arithmetic: al/eax with an immediate
        0x00..=0x3f if op & 7 == 4 || op & 7 == 5 => return Private,
        0x00..=0x3f if op & 7 < 4 => {}
        // push, pop, jcc, nop, cbw, cwd, mov immediate, test immediate, jmp, call, ret, leave
        0x50..=0x5f
        | 0x68
        | 0x6a
        | 0x70..=0x7f
        | 0x90..=0x99
        | 0xa8
        | 0xa9
        | 0xb0..=0xbf
        | 0xc2
        | 0xc3
        | 0xc9
        | 0xcc
        | 0xe8
        | 0xe9
        | 0xeb
        | 0xf4
        | 0xf5
        | 0xf8..=0xfd => return Private,
        // pushfq, popfq, sahf, lahf
        0x9c..=0x9f => return Private,
        // lea
        0x8d => return Private,
        0x63 | 0x69 | 0x6b | 0x80..=0x8b | 0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xf6 | 0xf7 | 0xfe | 0xff => {}
        0x0f => {
            let op = *p;
            p = p.add(1);
            match op {
                // jcc, setcc below, ud2, cpuid, bswap, nop, endbr, prefetch
                0x80..=0x8f | 0x0b | 0xa2 | 0xc8..=0xcf | 0x1f | 0x18 | 0x0d => return Private,
                0x1e if rep => return Private,
                0x10..=0x17
                | 0x28..=0x2f
                | 0x40..=0x4f
                | 0x50..=0x76
                | 0x7c..=0x7f
                | 0x90..=0x9f
                | 0xa3..=0xa5
                | 0xab..=0xad
                | 0xaf
                | 0xb3..=0xbe
                | 0xc2..=0xc6
                | 0xd0..=0xff => {}
                _ => return Shared,
            }
        }
        _ => return Shared,
    }
    let modrm = *p;
    p = p.add(1);
    let (md, rm) = (modrm >> 6, modrm & 7);
    if md == 3 {
        return Private;
    }
    let reg = |n: u8| -> i64 {
        let index = [
            libc::REG_RAX,
            libc::REG_RCX,
            libc::REG_RDX,
            libc::REG_RBX,
            libc::REG_RSP,
            libc::REG_RBP,
            libc::REG_RSI,
            libc::REG_RDI,
            libc::REG_R8,
            libc::REG_R9,
            libc::REG_R10,
            libc::REG_R11,
            libc::REG_R12,
            libc::REG_R13,
            libc::REG_R14,
            libc::REG_R15,
        ][n as usize];
        regs[index as usize]
    };
    let mut base: i64;
    if rm == 4 {
        let sib = *p;
        p = p.add(1);
        let (scale, index, b) = (sib >> 6, (sib >> 3 & 7) | (rex & 2) << 2, sib & 7);
        base = if b == 5 && md == 0 {
            (p as *const i32).read_unaligned() as i64
        } else {
            reg(b | (rex & 1) << 3)
        };
        if index != 4 {
            base = base.wrapping_add(reg(index).wrapping_shl(scale as u32));
        }
    } else if rm == 5 && md == 0 {
        // Relative to the next instruction: its length isn't known to a few bytes.
        base = (p as i64).wrapping_add((p as *const i32).read_unaligned() as i64).wrapping_add(4);
    } else {
        base = reg(rm | (rex & 1) << 3);
    }
    match md {
        1 => base = base.wrapping_add(*(p as *const i8) as i64),
        2 => base = base.wrapping_add((p as *const i32).read_unaligned() as i64),
        _ => {}
    }
    let address = base as usize;
    let rsp = regs[libc::REG_RSP as usize] as usize;
    let own_stack = address >= rsp.wrapping_sub(128) && address < stack_top;
    let read_only = address >= &raw const __executable_start as usize && address + 128 < &raw const data_start as usize;
    if (own_stack || read_only) && !locked {
        Private
    } else if address >= &raw const data_start as usize && address < &raw const end as usize {
        Root
    } else {
        Shared
    }
}

#[allow(static_mut_refs)]
fn job() -> &'static Job {
    unsafe { JOB.as_ref().unwrap() }
}

fn call(op: usize) -> Result<String, String> {
    let j = job();
    let (f, imps) = unsafe { (&*j.f, &*j.imps) };
    let o = &f.ops[op];
    catch_unwind(AssertUnwindSafe(|| (imps[o.instance].1)(&o.arg))).map_err(|_| format!("panic: {}", crate::engine::last_panic()))
}

fn name(op: usize) -> String {
    let j = job();
    let (f, imps) = unsafe { (&*j.f, &*j.imps) };
    format!("{}({:?})", imps[f.ops[op].instance].0, f.ops[op].arg)
}

fn fail(message: String) {
    let j = job();
    let b = unsafe { &*j.board };
    if !b.failed.swap(true, SeqCst) {
        let m: String = message.chars().take(700).collect();
        unsafe { std::ptr::copy_nonoverlapping(m.as_ptr(), j.text, m.len().min(TEXT)) };
        b.len.store(m.len().min(TEXT) as u64, SeqCst);
    }
}

fn gettid() -> i32 {
    unsafe { libc::syscall(libc::SYS_gettid) as i32 }
}

/// Execute one instruction at a time from now on, or no more.
#[inline(always)]
fn trap(on: bool) {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq")
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq")
        }
    }
    let _ = on;
}

/// In the thread of B, between two instructions, with two preemptions.
unsafe fn step_b(regs: &mut [libc::greg_t; 23]) {
    let rip = regs[libc::REG_RIP as usize] as usize;
    if rip < &raw const __executable_start as usize || rip >= &raw const etext as usize {
        return;
    }
    let point = B_POINTS.load(Relaxed);
    if !shared_access(regs, B_STACK.load(Relaxed)) {
        return;
    }
    B_POINTS.store(point + 1, Relaxed);
    if point != B_STOP.load(Relaxed) {
        return;
    }
    regs[libc::REG_EFL as usize] &= !0x100;
    B_PARKED.store(true, SeqCst);
    // Until A ends, or needs B
    let start = now();
    let (mut waits, mut spins) = (0, 0u32);
    while !A_DONE.load(SeqCst) && waits < 20 && now() - start < 400_000_000 {
        spins += 1;
        if spins < 200 {
            libc::sched_yield();
            continue;
        }
        match state(A_TID.load(SeqCst)) {
            b'S' | b'D' => waits += 1,
            _ => waits = 0,
        }
        libc::usleep(20);
    }
    if !A_DONE.load(SeqCst) {
        (*job().board).blocked.fetch_add(1, Relaxed);
    }
}

extern "C" fn thread_b(_: *mut libc::c_void) -> *mut libc::c_void {
    B_TID.store(gettid(), SeqCst);
    let r = if job().double {
        let top = 0u8;
        B_STACK.store(&top as *const u8 as usize, SeqCst);
        // Inherited from the signal handler that started this thread
        unsafe {
            let mut set: libc::sigset_t = std::mem::zeroed();
            libc::sigaddset(&mut set, libc::SIGTRAP);
            libc::pthread_sigmask(libc::SIG_UNBLOCK, &set, std::ptr::null_mut());
        }
        trap(true);
        let r = call(job().b);
        trap(false);
        r
    } else {
        let j = job();
        for op in &j.before {
            let got = call(*op);
            let f = unsafe { &*j.f };
            if got.as_ref() != Ok(&f.ops[*op].expected) {
                fail(format!(
                    "{} suspended at its preemption point {} while another thread executes {}: it gives {got:?} instead of {:?}",
                    name(j.a),
                    unsafe { &*j.board }.at.load(Relaxed),
                    name(*op),
                    f.ops[*op].expected
                ));
                unsafe { libc::_exit(1) };
            }
        }
        call(j.b)
    };
    unsafe { B_RESULT = Some(r) };
    B_DONE.store(true, SeqCst);
    std::ptr::null_mut()
}

/// State of a thread, 'S' if it waits for something. No allocation.
fn state(tid: i32) -> u8 {
    let mut path = [0u8; 64];
    let mut n = 0;
    for c in b"/proc/self/task/" {
        path[n] = *c;
        n += 1;
    }
    let mut digits = [0u8; 12];
    let (mut k, mut v) = (0, tid);
    while v > 0 {
        digits[k] = b'0' + (v % 10) as u8;
        v /= 10;
        k += 1;
    }
    for d in digits[..k].iter().rev() {
        path[n] = *d;
        n += 1;
    }
    for c in b"/stat\0" {
        path[n] = *c;
        n += 1;
    }
    let mut buf = [0u8; 256];
    let len = unsafe {
        let fd = libc::open(path.as_ptr() as *const _, libc::O_RDONLY);
        if fd < 0 {
            return b'?';
        }
        let len = libc::read(fd, buf.as_mut_ptr() as *mut _, 256);
        libc::close(fd);
        len
    };
    if len <= 0 {
        return b'?';
    }
    let text = &buf[..len as usize];
    text.iter().rposition(|c| *c == b')').and_then(|i| text.get(i + 2)).copied().unwrap_or(b'?')
}

fn now() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

/// In the child: execute B in its thread, until it ends, or waits.
fn preempt() {
    unsafe {
        let mut t: libc::pthread_t = 0;
        let r = libc::pthread_create(&mut t, std::ptr::null(), thread_b, std::ptr::null_mut());
        if r != 0 {
            libc::_exit(9);
        }
    }
    let start = now();
    let mut waits = 0;
    let mut spins = 0u32;
    while !B_DONE.load(SeqCst) {
        if B_PARKED.load(SeqCst) {
            return;
        }
        spins += 1;
        if spins < 200 {
            unsafe { libc::sched_yield() };
            continue;
        }
        let tid = B_TID.load(SeqCst);
        if tid != 0 && !B_PARKED.load(SeqCst) {
            match state(tid) {
                b'S' | b'D' => waits += 1,
                _ => waits = 0,
            }
            if (waits > 20 || now() - start > 400_000_000) && !B_DONE.load(SeqCst) {
                unsafe { &*job().board }.blocked.fetch_add(1, Relaxed);
                return;
            }
        }
        unsafe { libc::usleep(20) };
    }
}

/// In the child: A has its result, check everything.
fn verdict(a: Result<String, String>) -> ! {
    let j = job();
    let f = unsafe { &*j.f };
    let start = now();
    A_DONE.store(true, SeqCst);
    while !B_DONE.load(SeqCst) {
        if now() - start > 10_000_000_000 {
            fail(format!(
                "{} is never over: it was started in another thread while {} was running",
                name(j.b),
                name(j.a)
            ));
            unsafe { libc::_exit(1) };
        }
        unsafe { libc::usleep(20) };
    }
    #[allow(static_mut_refs)]
    let b = unsafe { B_RESULT.take().unwrap() };
    let at = unsafe { &*j.board }.at.load(Relaxed);
    let at = if j.double {
        format!("{at} (and the other call at its point {} until this one ends)", B_STOP.load(SeqCst))
    } else {
        at.to_string()
    };
    for (op, got) in [(j.a, a), (j.b, b)] {
        if got.as_ref() != Ok(&f.ops[op].expected) {
            fail(format!(
                "{} suspended at its preemption point {at} while another thread executes {}: {} gives {got:?} instead of {:?}",
                name(j.a),
                name(j.b),
                name(op),
                f.ops[op].expected
            ));
            unsafe { libc::_exit(1) };
        }
    }
    for op in [j.a, j.b, j.a] {
        let got = call(op);
        if got.as_ref() != Ok(&f.ops[op].expected) {
            fail(format!(
                "after {} was suspended at its preemption point {at} while another thread executed {}, {} gives {got:?} instead of {:?}",
                name(j.a),
                name(j.b),
                name(op),
                f.ops[op].expected
            ));
            unsafe { libc::_exit(1) };
        }
    }
    unsafe { libc::_exit(if j.double && !B_PARKED.load(SeqCst) { B_ENDED } else { 0 }) }
}

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, context: *mut libc::c_void) {
    unsafe {
        let context = context as *mut libc::ucontext_t;
        let regs = &mut (*context).uc_mcontext.gregs;
        if PREEMPTED.load(Relaxed) && B_TID.load(Relaxed) == gettid() {
            return step_b(regs);
        }
        if !STEPPING.load(Relaxed) {
            regs[libc::REG_EFL as usize] &= !0x100;
            return;
        }
        let j = job();
        let board = &*j.board;
        board.steps.fetch_add(1, Relaxed);
        let rip = regs[libc::REG_RIP as usize] as usize;
        if rip < &raw const __executable_start as usize || rip >= &raw const etext as usize {
            return;
        }
        let point = board.points.load(Relaxed);
        if let Some(only) = j.only {
            if access(regs, j.stack_top) == Access::Root {
                board.points.store(point + 1, Relaxed);
                if point == only {
                    board.at.store(point, Relaxed);
                    board.schedules.fetch_add(1, Relaxed);
                    libc::alarm(60);
                    PREEMPTED.store(true, SeqCst);
                    STEPPING.store(false, SeqCst);
                    regs[libc::REG_EFL as usize] &= !0x100;
                    preempt();
                }
            }
            return;
        }
        if point > 0 && !shared_access(regs, j.stack_top) {
            return;
        }
        board.points.store(point + 1, Relaxed);
        if board.failed.load(Relaxed) || point % j.part.1 != j.part.0 {
            return;
        }
        board.at.store(point, Relaxed);
        // All places where B can be suspended
        for stop in 0.. {
            board.schedules.fetch_add(1, Relaxed);
            let pid = libc::fork();
            if pid < 0 {
                libc::_exit(9);
            }
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::alarm(60);
                A_TID.store(gettid(), SeqCst);
                B_STOP.store(stop, SeqCst);
                PREEMPTED.store(true, SeqCst);
                STEPPING.store(false, SeqCst);
                regs[libc::REG_EFL as usize] &= !0x100;
                preempt();
                return;
            }
            let mut status = 0;
            while libc::waitpid(pid, &mut status, 0) < 0 {}
            if libc::WIFSIGNALED(status) {
                fail(format!(
                    "the process {} when {} is suspended at its preemption point {point} while another thread executes {}",
                    if libc::WTERMSIG(status) == libc::SIGALRM {
                        "never ends".to_string()
                    } else {
                        format!("is killed by signal {}", libc::WTERMSIG(status))
                    },
                    name(j.a),
                    name(j.b)
                ));
            } else if libc::WEXITSTATUS(status) == 9 {
                libc::_exit(9);
            }
            if !j.double || board.failed.load(Relaxed) || libc::WEXITSTATUS(status) == B_ENDED {
                break;
            }
        }
    }
}

#[inline(never)]
fn stepped(op: usize) -> Result<String, String> {
    STEPPING.store(true, SeqCst);
    trap(true);
    let r = call(op);
    STEPPING.store(false, SeqCst);
    trap(false);
    r
}

/// Other calls, of all kinds: the names with letters outside of ASCII first, then the longest ones, of all instances.
fn before(f: &Family, a: usize, b: usize) -> Vec<usize> {
    let most = match f.name.as_str() {
        "makers" => 0,
        "BeiderMorse" => 3,
        _ => 9,
    };
    let mut all: Vec<(bool, std::cmp::Reverse<usize>, usize)> = (0..f.ops.len())
        .filter(|o| *o != a && *o != b)
        .map(|o| (f.ops[o].arg.replace(SEP, "").is_ascii(), std::cmp::Reverse(f.ops[o].arg.len()), o))
        .collect();
    all.sort();
    let mut seen: Vec<&str> = vec![];
    let mut out = vec![];
    // Each name with one instance, in turn
    for (_, _, o) in &all {
        let o = &f.ops[*o];
        if !seen.contains(&o.arg.as_str()) && out.len() < most {
            let i = (seen.len() + a) % f.instances;
            seen.push(&o.arg);
            out.extend((0..f.ops.len()).find(|p| f.ops[*p].arg == o.arg && f.ops[*p].instance == i && *p != a && *p != b));
        }
    }
    out
}

/// Explore the preemption points of A. `warm`: after each call was made once.
fn explore(f: &Family, a: usize, b: usize, kind: &str, part: (u64, u64)) -> Result<(u64, u64, u64), String> {
    if !kind.ends_with("roots") {
        return execute(f, a, b, kind, part, None);
    }
    // Always from the beginning
    let mut all = (0, 0, 0);
    for point in (0..).skip(part.0 as usize).step_by(part.1 as usize) {
        let (n, steps, blocked) = execute(f, a, b, kind, part, Some(point))?;
        all = (all.0 + n, all.1 + steps, all.2 + blocked);
        if n == 0 {
            break;
        }
    }
    Ok(all)
}

fn execute(f: &Family, a: usize, b: usize, kind: &str, part: (u64, u64), only: Option<u64>) -> Result<(u64, u64, u64), String> {
    unsafe {
        let size = 1 << 13;
        let p = libc::mmap(
            std::ptr::null_mut(),
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        let board = &*(p as *const Board);
        let text = (p as *mut u8).add(1 << 12);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let imps = (f.make)();
            JOB = Some(Job {
                f,
                imps: &imps,
                a,
                b,
                before: if kind == "warm" { before(f, a, b) } else { vec![] },
                board,
                text,
                part,
                double: kind.ends_with("twice"),
                only,
                stack_top: &imps as *const _ as usize,
            });
            if kind.starts_with("warm") {
                for op in [b, a] {
                    let got = call(op);
                    if got.as_ref() != Ok(&f.ops[op].expected) {
                        fail(format!("{} gives {got:?} instead of {:?}", name(op), f.ops[op].expected));
                        libc::_exit(1);
                    }
                }
            }
            let mut action: libc::sigaction = std::mem::zeroed();
            action.sa_sigaction = on_trap as *const () as usize;
            action.sa_flags = libc::SA_SIGINFO;
            libc::sigaction(libc::SIGTRAP, &action, std::ptr::null_mut());
            let r = stepped(a);
            if PREEMPTED.load(SeqCst) {
                verdict(r);
            }
            if r.as_ref() != Ok(&f.ops[a].expected) {
                fail(format!("{} gives {r:?} instead of {:?}", name(a), f.ops[a].expected));
            }
            libc::_exit(0);
        }
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {}
        let (points, steps, blocked) = (board.schedules.load(SeqCst), board.steps.load(SeqCst), board.blocked.load(SeqCst));
        let message = board
            .failed
            .load(SeqCst)
            .then(|| String::from_utf8_lossy(std::slice::from_raw_parts(text, board.len.load(SeqCst) as usize)).to_string());
        libc::munmap(p, size);
        if let Some(m) = message {
            return Err(m);
        }
        if libc::WIFSIGNALED(status) {
            return Err(format!(
                "the process dies with signal {} while the call is executed step by step",
                libc::WTERMSIG(status)
            ));
        }
        if libc::WEXITSTATUS(status) == 9 || steps == 0 {
            eprintln!("C03: the calls can't be executed step by step here (status {status}, {steps} steps)");
            libc::_exit(3);
        }
        Ok((points, steps, blocked))
    }
}

/// A case is many schedules, each with its own limit.
pub const HANG: u64 = 600;

/// How a pair of calls is explored.
const KINDS: [&str; 5] = ["cold", "warm", "cold twice", "warm twice", "cold roots"];

fn case(f: &str, kind: &str, a: usize, b: usize, part: (u64, u64)) -> String {
    [f, kind, &a.to_string(), &b.to_string(), &part.0.to_string(), &part.1.to_string()].join(&SEP.to_string())
}

impl Prop for Threads {
    fn check(&self, case: &str) -> Result<Obs, String> {
        if case == "types" {
            return types();
        }
        let p: Vec<&str> = case.split(SEP).collect();
        let [name, kind, ref n @ ..] = p[..] else { return obs("", 0) };
        let n: Vec<usize> = n.iter().filter_map(|v| v.parse().ok()).collect();
        let [a, b, part, parts] = n[..] else { return obs("", 0) };
        if !KINDS.contains(&kind) || parts == 0 {
            return obs("", 0);
        }
        if std::env::var(STEP).is_ok() {
            // Nothing must survive the explorer
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let all = families(self.dir.clone(), Some(name));
            let Some(f) = all.iter().find(|f| f.name == name) else { return obs("", 0) };
            if a >= f.ops.len() || b >= f.ops.len() {
                return obs("", 0);
            }
            let (points, steps, blocked) = explore(f, a, b, kind, (part as u64, parts as u64))?;
            println!("{points} {steps} {blocked}");
            return obs(case, points);
        }
        // A process of its own: those that are forked from the same one slow down one another.
        let out = std::process::Command::new(std::env::current_exe().expect("executable"))
            .args(["C03", "case", case])
            .env(STEP, "1")
            .output()
            .expect("process");
        let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
        match out.status.code() {
            Some(0) => {
                let v: Vec<u64> = text.split(' ').filter_map(|v| v.parse().ok()).collect();
                let [points, _, blocked] = v[..] else { return obs(case, 0) };
                obs(&(case, points, blocked > 0), points)
            }
            Some(1) => Err(text),
            code => {
                eprintln!("C03: {code:?} {text} {}", String::from_utf8_lossy(&out.stderr));
                std::process::exit(3);
            }
        }
    }

    fn explore(&self, ctx: &Ctx) {
        ctx.list("types that threads share", &["types".to_string()]);
        let t = ctx.thorough;
        let (mut once, mut twice, mut roots) = (vec![], vec![], vec![]);
        for f in &families(self.dir.clone(), None) {
            if f.name == "shipped Beider-Morse" {
                continue;
            }
            let size = |o: usize| f.ops[o].arg.chars().count();
            // Calls of an instance, the shortest ones first
            let of = |i: usize| {
                let min = if f.name == "makers" { 0 } else { 2 };
                let mut v: Vec<usize> = (0..f.ops.len()).filter(|o| f.ops[*o].instance == i && size(*o) >= min).collect();
                v.sort_by_key(|o| (size(*o), *o));
                v
            };
            let (mut aa, mut bb) = (vec![], vec![]);
            if f.name == "makers" {
                // Long calls. Open files would be shared by forked processes, so a call that loads files is executed again
                // for each of its points.
                let load = f.instances - 1;
                for i in 0..load {
                    for a in of(i).iter().take(2) {
                        let others = if t { of(i) } else { of(i).into_iter().rev().take(1).collect() };
                        for b in others.iter().chain(&of(load)[..1]) {
                            for part in 0..4 {
                                for kind in &KINDS[..2] {
                                    once.push(case(&f.name, kind, *a, *b, (part, 4)));
                                }
                            }
                        }
                    }
                }
                if t {
                    let [whole, other, wrong] = ["", "other", "wrong"].map(|d| of(load).into_iter().find(|o| f.ops[*o].arg == d).unwrap());
                    for b in [whole, other, wrong] {
                        for part in 0..32 {
                            roots.push(case(&f.name, KINDS[4], other, b, (part, 32)));
                        }
                    }
                }
                continue;
            }
            for i in 0..f.instances {
                let v = of(i);
                let n = v.len();
                // Short ones and longer ones, of all instances
                let picks: &[usize] = match (t, f.instances) {
                    (true, 1) => &[0, 1, 2, 3, 4, 5, 6, 7],
                    (true, _) => &[0, 3, 5],
                    (false, 1) => &[0, 2, 4, 6],
                    (false, 2 | 3) => &[0, 5],
                    _ => &[0],
                };
                aa.extend(picks.iter().map(|p| v[(p + i) % n]));
                bb.extend(picks.iter().map(|p| v[(p + i + 1) % n]));
            }
            if !t {
                aa.truncate(6);
                bb.truncate(5);
            }
            // A name where most encoders have something to fold
            aa.extend((0..f.ops.len()).filter(|o| f.ops[*o].arg == "ñaçą").take(if t { f.instances } else { 1 }));
            for a in &aa {
                for b in &bb {
                    for kind in &KINDS[..2] {
                        once.push(case(&f.name, kind, *a, *b, (0, 1)));
                    }
                }
            }
            // Two preemptions: the shortest calls, that encode something
            if !t {
                continue;
            }
            let mut all: Vec<usize> = (0..f.ops.len()).filter(|o| !f.ops[*o].expected.is_empty() && size(*o) > 0).collect();
            all.sort_by_key(|o| (size(*o), *o));
            let slow = f.name == "BeiderMorse";
            let n = if slow { 1 } else { 2 };
            for a in all.iter().take(n) {
                for b in all.iter().skip(1).take(n) {
                    for kind in &KINDS[2..4] {
                        let parts = if slow { 64 } else { 8 };
                        for part in 0..parts {
                            twice.push(case(&f.name, kind, *a, *b, (part, parts)));
                        }
                    }
                }
            }
        }
        ctx.list("pairs of calls, all their schedules with one preemption", &once);
        if t {
            ctx.list("pairs of short calls, all their schedules with two preemptions", &twice);
            ctx.list("pairs of calls that load a configuration, suspended where they use static data", &roots);
        }
    }

    fn hang_seconds(&self) -> u64 {
        HANG
    }

    fn shrinkable(&self) -> bool {
        false
    }

    fn bits(&self) -> u32 {
        24
    }

    fn bounds(&self, t: bool) -> String {
        format!(
            "two threads, one call each, one preemption between any two instructions of the program (the C library isn't interrupted), up to the reduction of those that only use private memory, in a new process and after the calls were made once; 16 families of calls (one by encoder, comparisons, other comparisons, Beider-Morse, all encoders, builders), up to {} suspended calls and {} other calls by family{}, in the second case with up to 9 calls before the other one in its thread (names with letters outside of ASCII, the longest names); every public type must be Send and Sync",
            if t { "24" } else { "6" },
            if t { "24" } else { "5" },
            if t { "; for the shortest calls of each family, two preemptions (the second call is itself suspended at each of its points until the first one ends); loading a configuration suspended wherever it uses static data" } else { "" }
        )
    }
}
