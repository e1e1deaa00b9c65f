//! C32: calls on different threads do not affect each other. Two operations run on two threads of a process
//! under a scheduler that lets only one of them run at a time and switches inside the library's code: at
//! accesses to statics that one of the two operations writes and the other touches (found by protecting the
//! pages of the program's statics), and at memory operations (reported by the global allocator). Every schedule
//! of up to three switches at the chosen points is executed on the real code.
use crate::engine::*;
use crate::props_misc::{in_child, law_str, listings};
use crate::props_xml::*;
use crate::xt::N;
use japanese_law_xml_schema as jl;
use jl::article_number::*;
use jl::law::{Lang, LawType};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

pub struct Gate;
#[global_allocator]
static GATE: Gate = Gate;
const MEM: u8 = 1;
const RECORD: u8 = 2;
const COUNT_DEP: u8 = 3;
thread_local! {
    /// the library's code of an operation is running
    static ON: Cell<bool> = const { Cell::new(false) };
    /// which of its steps are points at which the scheduler may switch
    static MODE: Cell<u8> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static STOPS: Cell<[u64; 2]> = const { Cell::new([u64::MAX; 2]) };
    static ROLE: Cell<u32> = const { Cell::new(0) };
    static CTL: Cell<*const Ctl> = const { Cell::new(std::ptr::null()) };
    static STEPPING: Cell<bool> = const { Cell::new(false) };
    /// accesses to statics in this operation
    static SPIN: Cell<usize> = const { Cell::new(0) };
}
/// What the threads share of the scheduler; lives outside of the statics, which are protected at times.
struct Ctl {
    /// which of the two threads runs
    turn: AtomicU32,
    done: [AtomicBool; 2],
    /// schedules in which one thread waited for something the other one held
    blocked: AtomicUsize,
    /// the threads run on without the scheduler
    free: AtomicBool,
    /// the threads, as the system numbers them
    tids: [AtomicU32; 2],
    /// the statics of this program
    lo: usize,
    hi: usize,
    dep: [AtomicUsize; 64],
    /// more accesses to statics than this: the thread waits for something the other one holds, without sleeping
    /// (the system refuses to wait on a protected page)
    limit: AtomicUsize,
    recorded: AtomicUsize,
    rec: [AtomicUsize; 1 << 17],
}
fn ctl() -> &'static Ctl {
    unsafe { &*CTL.get() }
}
/// The writable statics of the program itself (not of the C library or of the threads).
fn statics() -> (usize, usize) {
    unsafe extern "C" fn each(i: *mut libc::dl_phdr_info, _n: libc::size_t, out: *mut libc::c_void) -> libc::c_int {
        let i = &*i;
        let ph = std::slice::from_raw_parts(i.dlpi_phdr, i.dlpi_phnum as usize);
        let base = i.dlpi_addr as usize;
        let mut lo = usize::MAX;
        let mut hi = 0;
        let relro = ph.iter().find(|p| p.p_type == libc::PT_GNU_RELRO).map(|p| base + (p.p_vaddr + p.p_memsz) as usize).unwrap_or(0);
        for p in ph.iter().filter(|p| p.p_type == libc::PT_LOAD && p.p_flags & libc::PF_W != 0) {
            let (a, b) = (base + p.p_vaddr as usize, base + (p.p_vaddr + p.p_memsz) as usize);
            let a = a.max((relro + 4095) & !4095) & !4095;
            let b = (b + 4095) & !4095;
            if a < b {
                lo = lo.min(a);
                hi = hi.max(b);
            }
        }
        *(out as *mut (usize, usize)) = (lo, hi);
        1
    }
    let mut r = (0usize, 0usize);
    unsafe { libc::dl_iterate_phdr(Some(each), &mut r as *mut _ as *mut libc::c_void) };
    r
}
/// Only in a process of its own, which ends with _exit.
fn prepare() {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Ctl>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        let (lo, hi) = statics();
        let c = p as *mut Ctl;
        (*c).lo = lo;
        (*c).hi = hi;
        (*c).done = [AtomicBool::new(true), AtomicBool::new(true)];
        CTL.set(c);
        for (sig, f) in [(libc::SIGSEGV, on_access as usize), (libc::SIGTRAP, on_step as usize)] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = f;
            sa.sa_flags = libc::SA_SIGINFO;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
}
fn protect(on: bool) {
    let c = ctl();
    if c.lo < c.hi {
        let p = if on { libc::PROT_NONE } else { libc::PROT_READ | libc::PROT_WRITE };
        unsafe { libc::mprotect(c.lo as *mut libc::c_void, c.hi - c.lo, p) };
    }
}
/// An access to a static of the program while they are protected: notes it, switches if it is one of the
/// points of the schedule, and lets the one instruction pass.
unsafe extern "C" fn on_access(sig: i32, info: *mut libc::siginfo_t, u: *mut libc::c_void) {
    let p = CTL.get();
    let addr = (*info).si_addr() as usize;
    if p.is_null() || addr < (*p).lo || addr >= (*p).hi {
        libc::signal(sig, libc::SIG_DFL);
        return;
    }
    let errno = *libc::__errno_location();
    protect(false);
    let c = &*p;
    let u = &mut *(u as *mut libc::ucontext_t);
    if ON.get() && !c.free.load(SeqCst) {
        match MODE.get() {
            RECORD => {
                let i = c.recorded.fetch_add(1, SeqCst);
                if i < c.rec.len() {
                    let write = u.uc_mcontext.gregs[libc::REG_ERR as usize] & 2 != 0;
                    c.rec[i].store(addr / 8 * 2 + write as usize, SeqCst);
                }
            }
            COUNT_DEP => {
                let n = SPIN.get() + 1;
                SPIN.set(n);
                if n > c.limit.load(SeqCst) {
                    c.blocked.fetch_add(1, SeqCst);
                    c.free.store(true, SeqCst);
                } else if c.dep.iter().map(|d| d.load(SeqCst)).take_while(|d| *d != 0).any(|d| d == addr / 8) {
                    step();
                    protect(false);
                }
            }
            _ => {}
        }
    }
    STEPPING.set(true);
    u.uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100;
    *libc::__errno_location() = errno;
}
unsafe extern "C" fn on_step(_sig: i32, _info: *mut libc::siginfo_t, u: *mut libc::c_void) {
    if STEPPING.get() {
        STEPPING.set(false);
        let u = &mut *(u as *mut libc::ucontext_t);
        u.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        if ON.get() && !ctl().free.load(SeqCst) {
            let errno = *libc::__errno_location();
            protect(true);
            *libc::__errno_location() = errno;
        }
    }
}
/// One point of the operation is reached.
fn step() {
    let n = COUNT.get() + 1;
    COUNT.set(n);
    if STOPS.get().contains(&n) && !ctl().free.load(SeqCst) {
        ON.set(false);
        hand_over(ROLE.get());
        ON.set(true);
    }
}
#[inline]
fn point() {
    if ON.try_with(|o| o.get()).unwrap_or(false) && MODE.get() == MEM {
        step()
    }
}
unsafe impl GlobalAlloc for Gate {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point();
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        System.realloc(p, l, n)
    }
}

fn futex(op: i32, val: u32, ms: i64) {
    let t = libc::timespec { tv_sec: ms / 1000, tv_nsec: ms % 1000 * 1_000_000 };
    unsafe { libc::syscall(libc::SYS_futex, ctl().turn.as_ptr(), op | libc::FUTEX_PRIVATE_FLAG, val, &t as *const libc::timespec) };
}
/// The thread sleeps in the kernel.
fn sleeps(tid: u32) -> bool {
    let mut name = [0u8; 64];
    let mut buf = [0u8; 512];
    let text = b"/proc/self/task/";
    name[..text.len()].copy_from_slice(text);
    let mut i = text.len();
    let mut digits = [0u8; 10];
    let (mut n, mut k) = (tid, 0);
    while n > 0 || k == 0 {
        digits[k] = b'0' + (n % 10) as u8;
        n /= 10;
        k += 1;
    }
    for d in digits[..k].iter().rev() {
        name[i] = *d;
        i += 1;
    }
    name[i..i + 5].copy_from_slice(b"/stat");
    unsafe {
        let fd = libc::open(name.as_ptr() as *const libc::c_char, libc::O_RDONLY | libc::O_CLOEXEC);
        if fd < 0 {
            return false;
        }
        let n = libc::read(fd, buf.as_mut_ptr() as *mut libc::c_void, buf.len());
        libc::close(fd);
        let b = &buf[..n.max(0) as usize];
        b.iter().rposition(|c| *c == b')').is_some_and(|p| b.get(p + 2) == Some(&b'S'))
    }
}
fn tid() -> u32 {
    unsafe { libc::syscall(libc::SYS_gettid) as u32 }
}
/// Waits for the turn; `within` an operation, false if the other thread sleeps meanwhile, so waits for something itself.
fn wait_turn(role: u32, within: bool) -> bool {
    let c = ctl();
    for _ in 0..300 {
        if c.turn.load(SeqCst) == role {
            return true;
        }
        std::hint::spin_loop();
    }
    let mut asleep = 0;
    loop {
        futex(libc::FUTEX_WAIT, 1 - role, 2);
        if c.turn.load(SeqCst) == role {
            return true;
        }
        if within {
            asleep = if sleeps(c.tids[1 - role as usize].load(SeqCst)) { asleep + 1 } else { 0 };
            if asleep > 3 {
                return false;
            }
        }
    }
}
fn give(role: u32) {
    ctl().turn.store(role, SeqCst);
    futex(libc::FUTEX_WAKE, 1, 1);
}
/// Lets the other thread run until it ends or hands over itself.
fn hand_over(role: u32) {
    let c = ctl();
    if c.done[1 - role as usize].load(SeqCst) {
        return;
    }
    give(1 - role);
    if !wait_turn(role, true) {
        // it waits for something this one holds: the rest is not controlled
        c.blocked.fetch_add(1, SeqCst);
        c.free.store(true, SeqCst);
        protect(false);
        c.turn.store(role, SeqCst);
    }
}
/// The library call of an operation: the part that is interrupted.
fn call<T>(f: impl FnOnce() -> T) -> T {
    let guarded = MODE.get() >= RECORD;
    ON.set(true);
    if guarded {
        protect(true);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if guarded {
        protect(false);
    }
    ON.set(false);
    match r {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    }
}

type Op = (String, Box<dyn Fn() -> String + Send + Sync>);
pub struct Threads {
    ops: Vec<Op>,
}
static JOB: Mutex<(usize, u8, [u64; 2])> = Mutex::new((0, 0, [u64::MAX; 2]));
static RESULT: Mutex<Option<String>> = Mutex::new(None);
const NEVER: [u64; 2] = [u64::MAX; 2];

fn run(f: &(dyn Fn() -> String + Send + Sync), mode: u8, stops: [u64; 2]) -> String {
    COUNT.set(0);
    SPIN.set(0);
    STOPS.set(stops);
    MODE.set(mode);
    let r = guard(f).unwrap_or_else(|p| format!("panic: {p}"));
    ON.set(false);
    MODE.set(0);
    r
}
/// The accesses to statics of an operation run alone, each as twice its place plus one for a write.
fn record(f: &(dyn Fn() -> String + Send + Sync)) -> (String, Vec<usize>) {
    let c = ctl();
    c.recorded.store(0, SeqCst);
    let r = run(f, RECORD, NEVER);
    let n = c.recorded.load(SeqCst).min(c.rec.len());
    (r, c.rec[..n].iter().map(|r| r.load(SeqCst)).collect())
}
/// Places one of the two operations writes and the other one touches.
fn dependent(a: &[usize], b: &[usize]) -> Vec<usize> {
    use std::collections::BTreeSet;
    let places = |v: &[usize]| v.iter().map(|x| x / 2).collect::<BTreeSet<_>>();
    let writes = |v: &[usize]| v.iter().filter(|x| *x % 2 == 1).map(|x| x / 2).collect::<BTreeSet<_>>();
    let (pa, pb, wa, wb) = (places(a), places(b), writes(a), writes(b));
    let v: Vec<usize> = pa.intersection(&pb).filter(|p| wa.contains(p) || wb.contains(p)).copied().collect();
    v.into_iter().take(60).collect()
}
/// The numbers of an operation's accesses to the dependent places: of each place the first ones, the last ones
/// and some in between.
fn chosen(acc: &[usize], dep: &[usize], each: usize) -> Vec<u64> {
    let on: Vec<usize> = acc.iter().map(|x| x / 2).filter(|x| dep.contains(x)).collect();
    let mut v = vec![];
    for d in dep {
        let at: Vec<u64> = (0..on.len()).filter(|i| on[*i] == *d).map(|i| i as u64 + 1).collect();
        v.extend(points(at.len() as u64, each as u64).into_iter().map(|i| at[i as usize - 1]));
    }
    v.sort_unstable();
    v
}
fn depend_on(dep: &[usize], accesses: usize) {
    ctl().limit.store(2 * accesses + 1000, SeqCst);
    for (i, d) in ctl().dep.iter().enumerate() {
        d.store(dep.get(i).copied().unwrap_or(0), SeqCst);
    }
}
fn text_op(t: &'static str, y: usize, title: &'static str) -> Box<dyn Fn() -> String + Send + Sync> {
    Box::new(move || law_str(call(|| jl::parse_text(t, y, Some(2), Some(8), LawType::Act, Lang::Ja, None, format!("番号{y}"), title))))
}
impl Threads {
    pub fn new() -> Threads {
        let mut ops: Vec<Op> = vec![];
        let ch = ["Law", "LawBody", "MainProvision", "Chapter", "Article", "Paragraph", "Item", "Subitem1"];
        let (a, p) = base_for(&ch);
        let mut b = a.clone();
        b.at_mut(&p[..4]).set_attr("Num", "7:9");
        b.at_mut(&p[..3]).set_attr("Num", "12_2");
        b.at_mut(&p).set_attr("Num", "3_1");
        let (table, _) = base_for(&chain("TableColumn"));
        let (suppl, sp) = base_for(&chain("SupplProvision"));
        let mut suppl2 = suppl.clone();
        suppl2.at_mut(&sp).kids.insert(0, N::T(String::new()));
        let (toc, _) = base_for(&chain("TOCChapter"));
        let (ruby, _) = base_for(&chain("Rt"));
        let (amend, _) = base_for(&chain("NewProvision"));
        // every division, twice with different numbers
        let (p1, pp) = base_for(&["Law", "LawBody", "MainProvision", "Part", "Chapter", "Section", "Subsection", "Division", "Article"]);
        let mut p2 = p1.clone();
        for i in 3..=pp.len() {
            p2.at_mut(&pp[..i]).set_attr("Num", ["20", "21_2", "22", "23", "24:26", "25"][i - 3]);
        }
        let docs: Vec<(&str, String)> =
            vec![("a chapter of items", a.to_xml()), ("a like chapter with other numbers", b.to_xml()), ("a table", table.to_xml()), ("a supplementary provision", suppl2.to_xml()), ("a table of contents", toc.to_xml()), ("ruby", ruby.to_xml()), ("an amendment", amend.to_xml()), ("every division", p1.to_xml()), ("every division with other numbers", p2.to_xml())];
        for (n, d) in &docs {
            let d = d.clone();
            ops.push((format!("reading a law with {n}"), Box::new(move || law_str(call(|| jl::parse_xml(d.as_bytes()))))));
        }
        let bad = docs[0].1.replace("<Item ", "<Itme ").replace("</Item>", "</Itme>");
        ops.push(("reading a law with an unknown element".into(), Box::new(move || law_str(call(|| jl::parse_xml(bad.as_bytes()))))));
        let cut = docs[1].1[..docs[1].1.len() / 2].to_string();
        ops.push(("reading half of a law".into(), Box::new(move || law_str(call(|| jl::parse_xml(cut.as_bytes()))))));
        for i in [0, 1, 2, 5, 7, 8] {
            let made = docs[i].1.clone();
            let law = std::sync::Arc::new(std::sync::OnceLock::new());
            let law = move || -> &'static jl::law::Law { let l: &'static jl::law::Law = unsafe { &*(law.get_or_init(|| jl::parse_xml(made.as_bytes()).expect("law of the harness")) as *const _) }; l };
            let (l, m) = (law.clone(), law.clone());
            ops.push((format!("writing a law with {}", docs[i].0), Box::new(move || { let l = l(); call(|| jl::to_xml(l)).map(|x| sorted(&x)).unwrap_or_else(|e| e.to_string()) })));
            if i < 2 || i > 6 {
                let l = law.clone();
                ops.push((
                    format!("writing to a sink a law with {}", docs[i].0),
                    Box::new(move || {
                        let mut v: Vec<u8> = vec![];
                        let l = l();
                        let r = call(|| jl::write_file(l, &mut v));
                        format!("{:?} {}", r.map_err(|e| e.to_string()), sorted(&String::from_utf8_lossy(&v)))
                    }),
                ));
                ops.push((
                    format!("listing a law with {}", docs[i].0),
                    Box::new(move || {
                        let b = &m().law_body.main_provision;
                        let (x, y, z) = call(|| (jl::utils::with_number_article_list_from_main_provision(b), jl::utils::toc_list_from_main_provision(b), jl::utils::article_list_from_main_provision(b)));
                        format!("{:?} {y:?} {z:?}", x.0.iter().map(|w| format!("{:?} {:?} {:?} {:?} {:?} {:?}", w.get_part(), w.get_chapter(), w.get_section(), w.get_subsection(), w.get_division(), w.get_article())).collect::<Vec<_>>())
                    }),
                ));
            }
            let d = docs[i].1.clone();
            ops.push((format!("reading and listing a law with {}", docs[i].0), Box::new(move || call(|| listings(&d)))));
        }
        ops.push(("text of articles and items".into(), text_op("第一章　通則\n（目的）\n第一条　甲。\n一　乙\nイ　丙\n２　丁", 2001, "題")));
        ops.push(("text of other items".into(), text_op("第二条　戊。\n２　己\n一　庚\n二　辛\n（１）　壬", 1950, "名")));
        ops.push(("text with a supplementary provision".into(), text_op("前文\n第三条　削除\n附則　抄\n１　癸", 1990, "題")));
        ops.push(("text with a misplaced line".into(), text_op("第四条　甲\n第一款　乙", 1990, "題")));
        for n in ["第一条の二", "第二条の三", "第三章から第五章まで", "２の３", "第条"] {
            ops.push((format!("the number {n}"), Box::new(move || format!("{:?}", call(|| parse_article_number(n))))));
        }
        for n in ["一", "（ｉ）", "イ", "（２）の２", "条"] {
            ops.push((format!("the label {n}"), Box::new(move || format!("{:?} {:?}", call(|| parse_item_number(n)), call(|| split_number(n))))));
        }
        for n in ["12_3", "4:6_1", "x"] {
            ops.push((
                format!("the attribute {n}"),
                Box::new(move || {
                    call(|| match ArticleNumber::from_num_str(n) {
                        Ok(n) => format!("{} {} {} {}", n.num_str(), n.chapter_text(), n.paragraph_text(), n.item_text(ItemPattern::ParenZenkakuRomanLower)),
                        Err(e) => e.to_string(),
                    })
                }),
            ));
        }
        install_panic_hook();
        Threads { ops }
    }
    fn second_thread(&self) {
        // the process ends with _exit once the pair is done, so the thread is never joined
        let me: &'static Threads = unsafe { std::mem::transmute::<&Threads, &'static Threads>(self) };
        let c = CTL.get() as usize;
        std::thread::spawn(move || {
            CTL.set(c as *const Ctl);
            ROLE.set(1);
            ctl().tids[1].store(tid(), SeqCst);
            loop {
                wait_turn(1, false);
                let (op, mode, stops) = *JOB.lock().unwrap();
                let r = run(&*me.ops[op].1, mode, stops);
                *RESULT.lock().unwrap() = Some(r);
                ctl().done[1].store(true, SeqCst);
                give(0);
            }
        });
        ctl().tids[0].store(tid(), SeqCst);
        while ctl().tids[1].load(SeqCst) == 0 {
            std::thread::yield_now();
        }
    }
    /// The first operation is stopped at the points of `k`, the second at the point `k2`, each time to let the
    /// other one run.
    fn schedule(&self, (a, b): (usize, usize), want: (&str, &str), mode: u8, k: [u64; 2], k2: u64) -> Result<(), String> {
        let c = ctl();
        *JOB.lock().unwrap() = (b, mode, [k2, u64::MAX]);
        c.free.store(false, SeqCst);
        c.done[1].store(false, SeqCst);
        c.done[0].store(false, SeqCst);
        let got_a = run(&*self.ops[a].1, mode, k);
        c.done[0].store(true, SeqCst);
        let what = if mode == MEM { "memory operation" } else { "access to shared data" };
        if !c.done[1].load(SeqCst) {
            give(1);
            let t = std::time::Instant::now();
            while !c.done[1].load(SeqCst) || c.turn.load(SeqCst) != 0 {
                futex(libc::FUTEX_WAIT, 1, 2);
                if t.elapsed().as_secs() >= 8 {
                    return Err(format!("{} does not end after it ran when {} had reached its {what} {}", self.ops[b].0, self.ops[a].0, k[0]));
                }
            }
        }
        let got_b = RESULT.lock().unwrap().take().unwrap_or_default();
        let at = || {
            let mut s = format!("{} interrupted at its {what} {} by {}", self.ops[a].0, k[0], self.ops[b].0);
            if k2 < u64::MAX {
                s += &format!(", which is interrupted at {k2}");
            }
            if k[1] < u64::MAX {
                s += &format!(", and again at {}", k[1]);
            }
            s
        };
        let cut = |s: &str| s.chars().take(160).collect::<String>();
        if got_a != want.0 {
            return Err(format!("{}: the first gives {:?} instead of {:?}", at(), cut(&got_a), cut(want.0)));
        }
        if got_b != want.1 {
            return Err(format!("{}: the second gives {:?} instead of {:?}", at(), cut(&got_b), cut(want.1)));
        }
        Ok(())
    }
    /// Every schedule of one switch at a point of `pa`, of two with one of `pb`, and of three as far as `three` goes.
    fn schedules(pa: &[u64], pb: &[u64], three: usize) -> Vec<([u64; 2], u64)> {
        let mut v: Vec<([u64; 2], u64)> = pa.iter().map(|k| ([*k, u64::MAX], u64::MAX)).collect();
        for k in pa {
            v.extend(pb.iter().map(|k2| ([*k, u64::MAX], *k2)));
        }
        if pa.len() * pa.len() / 2 * pb.len() <= three {
            for (i, k) in pa.iter().enumerate() {
                for k3 in &pa[i + 1..] {
                    v.extend(pb.iter().map(|k2| ([*k, *k3], *k2)));
                }
            }
        }
        v
    }
    fn pair(&self, key: &str) -> Result<u64, String> {
        let v: Vec<usize> = key.split(' ').map(|t| t.parse().unwrap()).collect();
        let (a, b, limit, grid, deep) = (v[0], v[1], v[2] as u64, v[3] as u64, v[4]);
        let (fa, fb) = (&*self.ops[a].1, &*self.ops[b].1);
        let mut steps = 0u64;
        prepare();
        // in processes in which the library has not been called before: what it sets up once is set up on two threads
        let cold = |f: &dyn Fn() -> String| in_child(|| { prepare(); f() });
        let solo = |f: &(dyn Fn() -> String + Send + Sync)| -> Result<(String, Vec<usize>), String> {
            let s = cold(&|| {
                let (r, acc) = record(f);
                format!("{}\n{r}", acc.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "))
            })?;
            let (acc, r) = s.split_once('\n').unwrap_or(("", &s));
            Ok((r.to_string(), acc.split_whitespace().map(|x| x.parse().unwrap()).collect()))
        };
        let (want_a, acc_a) = solo(fa)?;
        let (want_b, acc_b) = solo(fb)?;
        let dep = dependent(&acc_a, &acc_b);
        if std::env::var("MC_CONC").is_ok() {
            eprintln!("{key}: cold {} {} {:?}", acc_a.len(), acc_b.len(), dep.iter().map(|d| format!("{:x}:{}:{}", d * 8 - ctl().lo, acc_a.iter().filter(|x| *x / 2 == *d).count(), acc_b.iter().filter(|x| *x / 2 == *d).count())).collect::<Vec<_>>());
        }
        let few = if deep == 0 { 2 } else { 6 };
        for (k, k2) in Self::schedules(&chosen(&acc_a, &dep, few), &chosen(&acc_b, &dep, few), 0) {
            steps += 1;
            let r = cold(&|| {
                depend_on(&dep, acc_a.len().max(acc_b.len()));
                self.second_thread();
                self.schedule((a, b), (&want_a, &want_b), COUNT_DEP, k, k2).err().unwrap_or_default()
            })?;
            if !r.is_empty() {
                return Err(r);
            }
        }
        // and in one where it has: all the rest
        let want = (want_a.as_str(), want_b.as_str());
        if run(fa, MEM, NEVER) != want_a {
            return Err(format!("{} gives something else in another process", self.ops[a].0));
        }
        if run(fb, MEM, NEVER) != want_b {
            return Err(format!("{} gives something else after {}", self.ops[b].0, self.ops[a].0));
        }
        run(fa, MEM, NEVER);
        let na = COUNT.get();
        run(fb, MEM, NEVER);
        let nb = COUNT.get();
        let (acc_a, acc_b) = (record(fa).1, record(fb).1);
        let dep = dependent(&acc_a, &acc_b);
        if std::env::var("MC_CONC").is_ok() {
            eprintln!("{key}: warm {} {} {:?}", acc_a.len(), acc_b.len(), dep.iter().map(|d| format!("{:x}", d * 8 - ctl().lo)).collect::<Vec<_>>());
        }
        depend_on(&dep, acc_a.len().max(acc_b.len()));
        self.second_thread();
        let (each, three) = if deep == 0 { (16, 4000) } else { (60, 100_000) };
        let stat = Self::schedules(&chosen(&acc_a, &dep, each), &chosen(&acc_b, &dep, each), three).into_iter().map(|s| (COUNT_DEP, s));
        let mut mem: Vec<([u64; 2], u64)> = Self::schedules(&points(na, limit), &[], 0);
        mem.extend(Self::schedules(&points(na, grid), &points(nb, grid), 0).into_iter().filter(|s| s.1 < u64::MAX));
        for (mode, (k, k2)) in stat.chain(mem.into_iter().map(|s| (MEM, s))) {
            steps += 1;
            self.schedule((a, b), want, mode, k, k2)?;
            if ctl().blocked.load(SeqCst) > 40 {
                // one waits for the other at every point: there is little more to interleave
                break;
            }
        }
        if std::env::var("MC_CONC").is_ok() {
            eprintln!("{key}: {steps} schedules of {na} and {nb} memory operations, {} blocked", ctl().blocked.load(SeqCst));
        }
        for (i, f, w) in [(a, fa, &want_a), (b, fb, &want_b)] {
            if run(f, MEM, NEVER) != *w {
                return Err(format!("{} gives something else after {} and {} ran together", self.ops[i].0, self.ops[a].0, self.ops[b].0));
            }
        }
        Ok(steps)
    }
}
/// All points, or as many as the limit spread evenly over them and those at both ends.
fn points(n: u64, limit: u64) -> Vec<u64> {
    if n <= limit {
        return (1..=n).collect();
    }
    let ends = limit / 8;
    let mut v: Vec<u64> = (1..=ends).chain(n - ends + 1..=n).collect();
    let mid = limit - 2 * ends;
    v.extend((0..mid).map(|i| ends + 1 + i * (n - 2 * ends - 1) / mid.max(1)));
    v.sort_unstable();
    v.dedup();
    v
}
/// Written XML up to the order of the attributes in a tag.
fn sorted(x: &str) -> String {
    crate::props_misc::loose(x)
}
#[derive(Clone)]
pub struct Pair(usize, usize, u64, u64, u64);
impl Model for Threads {
    type S = Pair;
    fn roots(&self, tier: Tier) -> Vec<(Pair, usize)> {
        let (l, g) = if tier == Tier::Quick { (2500, 16) } else { (100_000, 60) };
        let n = self.ops.len();
        (0..n * n).map(|i| (Pair(i / n, i % n, l, g, (tier != Tier::Quick) as u64), 0)).collect()
    }
    fn succ(&self, _s: &Pair, _out: &mut Vec<Pair>) {}
    fn key(&self, s: &Pair) -> String {
        format!("{} {} {} {} {}", s.0, s.1, s.2, s.3, s.4)
    }
    fn check(&self, key: &str) -> Check {
        let r = in_child(|| match self.pair(key) {
            Ok(n) => format!("ok {n}"),
            Err(e) => e,
        });
        match r {
            Ok(s) => match s.strip_prefix("ok ") {
                Some(n) => ok(n.parse().unwrap()),
                None => fail(s),
            },
            Err(e) => {
                let v: Vec<usize> = key.split(' ').map(|t| t.parse().unwrap()).collect();
                fail(format!("{} and {} together: {e}", self.ops[v[0]].0, self.ops[v[1]].0))
            }
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        let (l, g) = if tier == Tier::Quick { (2500, 16) } else { (100_000, 60) };
        format!(
            "all {} ordered pairs of {} operations on two threads; the second executed entirely at every memory operation of the first (at most {l} of them, spread evenly beyond that), and every schedule of two switches over a grid of {g} x {g} memory operations",
            self.ops.len() * self.ops.len(),
            self.ops.len()
        )
    }
}
