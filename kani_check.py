"""C25: the Rust API of src/lib.rs against a recording stand-in for the bridge, by Kani."""
import os, re, json, time, shutil, threading, subprocess
import gen_bridge

PRELUDE = r'''
#![allow(dead_code, unused, static_mut_refs, non_upper_case_globals)]
macro_rules! format {
    ("{}", $e:expr $(,)?) => { $e.to_string() };
    ($($t:tt)*) => { std::format!($($t)*) };
}
mod cxx {
    pub struct UniquePtr<T>(Option<Box<T>>);
    impl<T> UniquePtr<T> {
        pub fn new(t: T) -> Self { UniquePtr(Some(Box::new(t))) }
        pub fn null() -> Self { UniquePtr(None) }
        pub fn is_null(&self) -> bool { self.0.is_none() }
        pub fn as_ref(&self) -> Option<&T> { self.0.as_deref() }
        pub fn as_mut(&mut self) -> Option<std::pin::Pin<&mut T>> { self.0.as_deref_mut().map(|t| unsafe { std::pin::Pin::new_unchecked(t) }) }
        pub fn pin_mut(&mut self) -> std::pin::Pin<&mut T> { self.as_mut().unwrap() }
    }
    impl<T> std::ops::Deref for UniquePtr<T> {
        type Target = T;
        fn deref(&self) -> &T { self.0.as_deref().unwrap() }
    }
    #[derive(Debug)]
    pub struct Exception { pub message: String }
    impl Exception {
        pub fn what(&self) -> &str { &self.message }
        // as Display does, without the formatting machinery
        pub fn to_string(&self) -> String { self.message.clone() }
    }
    impl std::fmt::Display for Exception {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.message) }
    }
    impl std::error::Error for Exception {}
}
mod rec {
    // What the bridge received, flattened to words.
    pub const CAP: usize = 64;
    #[derive(Clone, Copy)]
    pub struct Words { pub n: usize, pub w: [u64; CAP] }
    impl Words {
        pub const fn new() -> Self { Words { n: 0, w: [0; CAP] } }
        pub fn push(&mut self, v: u64) { self.w[self.n] = v; self.n += 1; }
        pub fn same(&self, o: &Words) -> bool {
            if self.n != o.n { return false; }
            let mut ok = true;
            let mut i = 0;
            while i < self.n { ok &= self.w[i] == o.w[i]; i += 1; }
            ok
        }
    }
    // every value takes a number of words that depends on its type only: a list takes LEN places
    pub static mut LEN: usize = 0;
    pub trait Flat {
        fn words() -> usize { 1 }
        fn flat(&self, o: &mut Words);
    }
    impl Flat for f64 { fn flat(&self, o: &mut Words) { o.push(self.to_bits()) } }
    impl Flat for f32 { fn flat(&self, o: &mut Words) { o.push(self.to_bits() as u64) } }
    impl Flat for usize { fn flat(&self, o: &mut Words) { o.push(*self as u64) } }
    impl Flat for u64 { fn flat(&self, o: &mut Words) { o.push(*self) } }
    impl Flat for u32 { fn flat(&self, o: &mut Words) { o.push(*self as u64) } }
    impl Flat for i64 { fn flat(&self, o: &mut Words) { o.push(*self as u64) } }
    impl Flat for i32 { fn flat(&self, o: &mut Words) { o.push(*self as u64) } }
    impl Flat for bool { fn flat(&self, o: &mut Words) { o.push(*self as u64) } }
    impl<T: Flat> Flat for &T {
        fn words() -> usize { T::words() }
        fn flat(&self, o: &mut Words) { (**self).flat(o) }
    }
    impl<T: Flat> Flat for Vec<T> {
        fn words() -> usize { 1 + unsafe { LEN } * T::words() }
        fn flat(&self, o: &mut Words) {
            o.push(self.len() as u64);
            let n = unsafe { LEN };
            let mut i = 0;
            while i < n {
                let at = o.n;
                if i < self.len() { self[i].flat(o); }
                o.n = at + T::words();
                i += 1;
            }
        }
    }
    pub static mut CALLS: usize = 0;
    pub static mut FUNC: u32 = 0;
    pub static mut WHO: usize = 0;
    pub static mut ARGS: Words = Words::new();
    pub static mut NEXT: usize = 1;
    pub static mut CALLBACK: Option<fn(crate::BRIDGE::HolonomicTrajectory, i64)> = None;
    pub fn call(func: u32, who: usize) -> &'static mut Words {
        unsafe {
            CALLS += 1;
            FUNC = func;
            WHO = who;
            ARGS = Words::new();
            &mut ARGS
        }
    }
    impl Flat for fn(crate::BRIDGE::HolonomicTrajectory, i64) {
        fn words() -> usize { 0 }
        fn flat(&self, _: &mut Words) { unsafe { CALLBACK = Some(*self) } }
    }
}
'''

CHECKS = r'''
mod checks {
    #[cfg(not(kani))]
    use crate::kani;
    use crate::rec::*;
    use crate::BRIDGE::{self as bridge, HolonomicTrajectory, HolonomicTrajectorySample, Pose2d, SwerveDrivetrain, SwerveModule};
    use crate::SwervePathBuilder;
    fn f() -> f64 { f64::from_bits(kani::any()) }
    fn u() -> usize { kani::any() }
    fn list<T>(mut one: impl FnMut() -> T) -> Vec<T> {
        let n = unsafe { LEN };
        let mut v = Vec::with_capacity(n);
        let mut i = 0;
        while i < n { v.push(one()); i += 1; }
        v
    }
    fn module() -> SwerveModule { SwerveModule { x: f(), y: f(), wheel_radius: f(), wheel_max_angular_velocity: f(), wheel_max_torque: f() } }
    fn pose() -> Pose2d { Pose2d { x: f(), y: f(), heading: f() } }
    fn sample() -> HolonomicTrajectorySample {
        HolonomicTrajectorySample { timestamp: f(), x: f(), y: f(), heading: f(), velocity_x: f(), velocity_y: f(), angular_velocity: f(), module_forces_x: list(f), module_forces_y: list(f) }
    }
    fn trajectory() -> HolonomicTrajectory {
        HolonomicTrajectory { samples: list(sample) }
    }
    macro_rules! words { ($($a:expr),*) => {{ let mut w = Words::new(); $($a.flat(&mut w);)* w }}; }
    fn reset() { unsafe { CALLS = 0; ARGS = Words::new(); } }
    fn got(func: u32, who: usize, args: &Words) {
        unsafe {
            assert!(CALLS == 1, "forwarded_once");
            assert!(FUNC == func, "forwarded_to_its_counterpart");
            assert!(WHO == who, "on_the_same_builder");
            assert!(ARGS.same(args), "arguments_unchanged_and_in_place");
        }
    }
    macro_rules! fwd {
        ($b:expr, $who:expr, $m:ident, $id:ident $(, $a:expr)*) => {{ reset(); $b.$m($($a),*); got(bridge::$id, $who, &words!($($a),*)); }};
    }
    static mut HEARD: usize = 0;
    static mut TOLD: Words = Words::new();
    fn listen(t: HolonomicTrajectory, h: i64) { unsafe { HEARD += 1; TOLD = Words::new(); t.flat(&mut TOLD); h.flat(&mut TOLD); std::mem::forget(t); } }
    fn callback(b: &mut SwervePathBuilder, who: usize) {
        reset();
        unsafe { CALLBACK = None; HEARD = 0; }
        b.add_progress_callback(listen);
        unsafe {
            assert!(CALLS == 1 && FUNC == bridge::F_add_progress_callback && WHO == who, "forwarded_once");
            let t = trajectory();
            let h: i64 = kani::any();
            let w = words!(t, h);
            CALLBACK.unwrap()(t, h);
            assert!(HEARD == 1 && TOLD.same(&w), "callback_unchanged");
        }
    }
    static mut SUCCEED: bool = true;
    static mut LONG: usize = 0;
    const TEXTS: [&[u8]; 3] = [
        b"The problem is locally infeasible; the solver stopped after many iterations",
        b" Bad:\n\tx, ",
        b"UserRequestedStop: 'a' is 0.5\r\n",
    ];
    static mut MESSAGE: [u8; 100] = [0; 100];
    static mut MESSAGE_LEN: usize = 0;
    // what the solver returns
    pub fn outcome() -> Result<HolonomicTrajectory, crate::cxx::Exception> {
        unsafe {
            if SUCCEED {
                let t = trajectory();
                TOLD = words!(t);
                return Ok(t);
            }
            let mut bytes = list(|| { let c: u8 = kani::any(); kani::assume(c < 128); c });
            if LONG > 0 { bytes.extend_from_slice(TEXTS[LONG - 1]); }
            MESSAGE_LEN = bytes.len();
            let mut i = 0;
            while i < MESSAGE_LEN { MESSAGE[i] = bytes[i]; i += 1; }
            Err(crate::cxx::Exception { message: String::from_utf8_unchecked(bytes) })
        }
    }
    fn generate(b: &mut SwervePathBuilder, who: usize, ok: bool, long: usize) {
        let d: bool = kani::any();
        let h: i64 = kani::any();
        reset();
        if ok {
            unsafe { SUCCEED = true; }
            let r = b.generate(d, h);
            got(bridge::F_generate, who, &words!(d, h));
            match r {
                Ok(t) => { assert!(words!(t).same(unsafe { &TOLD }), "trajectory_unchanged"); std::mem::forget(t) }
                Err(_) => assert!(false, "success_stays_success"),
            }
        } else {
            unsafe { SUCCEED = false; LONG = long; }
            let r = b.generate(d, h);
            got(bridge::F_generate, who, &words!(d, h));
            match r {
                Ok(_) => assert!(false, "failure_stays_failure"),
                Err(e) => {
                    let (a, b) = (e.as_bytes(), unsafe { &MESSAGE });
                    assert!(a.len() == unsafe { MESSAGE_LEN }, "message_unchanged");
                    let mut i = 0;
                    let mut same = true;
                    while i < a.len() { same &= a[i] == b[i]; i += 1; }
                    assert!(same, "message_unchanged");
                    std::mem::forget(e);
                }
            }
        }
    }
    pub const METHODS: u8 = 22;
    fn step(b: &mut SwervePathBuilder, who: usize, k: u8) {
        match k {
            0 => {
                let d = SwerveDrivetrain { mass: f(), moi: f(), modules: list(module) };
                reset();
                b.set_drivetrain(&d);
                got(bridge::F_set_drivetrain, who, &words!(d));
            }
            1 => { let (l, w) = (f(), f()); fwd!(b, who, set_bumpers, F_set_bumpers, l, w) }
            2 => {
                let c = list(u);
                let w = words!(c);
                reset();
                b.set_control_interval_counts(c);
                got(bridge::F_set_control_interval_counts, who, &w);
            }
            3 => { let (i, x, y, h) = (u(), f(), f(), f()); fwd!(b, who, pose_wpt, F_pose_wpt, i, x, y, h) }
            4 => { let (i, x, y, h) = (u(), f(), f(), f()); fwd!(b, who, translation_wpt, F_translation_wpt, i, x, y, h) }
            5 => { let (i, x, y, h) = (u(), f(), f(), f()); fwd!(b, who, empty_wpt, F_empty_wpt, i, x, y, h) }
            6 => {
                let i = u();
                let p = list(pose);
                reset();
                b.sgmt_initial_guess_points(i, &p);
                got(bridge::F_sgmt_initial_guess_points, who, &words!(i, p));
            }
            7 => { let (i, a) = (u(), f()); fwd!(b, who, wpt_linear_velocity_direction, F_wpt_linear_velocity_direction, i, a) }
            8 => { let (i, a) = (u(), f()); fwd!(b, who, wpt_linear_velocity_max_magnitude, F_wpt_linear_velocity_max_magnitude, i, a) }
            9 => { let (i, a) = (u(), f()); fwd!(b, who, wpt_angular_velocity_max_magnitude, F_wpt_angular_velocity_max_magnitude, i, a) }
            10 => { let (i, a) = (u(), f()); fwd!(b, who, wpt_linear_acceleration_max_magnitude, F_wpt_linear_acceleration_max_magnitude, i, a) }
            11 => { let (i, x, y, t) = (u(), f(), f(), f()); fwd!(b, who, wpt_point_at, F_wpt_point_at, i, x, y, t) }
            12 => { let (i, j, a) = (u(), u(), f()); fwd!(b, who, sgmt_linear_velocity_direction, F_sgmt_linear_velocity_direction, i, j, a) }
            13 => { let (i, j, a) = (u(), u(), f()); fwd!(b, who, sgmt_linear_velocity_max_magnitude, F_sgmt_linear_velocity_max_magnitude, i, j, a) }
            14 => { let (i, j, a) = (u(), u(), f()); fwd!(b, who, sgmt_angular_velocity_max_magnitude, F_sgmt_angular_velocity_max_magnitude, i, j, a) }
            15 => { let (i, j, a) = (u(), u(), f()); fwd!(b, who, sgmt_linear_acceleration_max_magnitude, F_sgmt_linear_acceleration_max_magnitude, i, j, a) }
            16 => { let (i, j, x, y, t) = (u(), u(), f(), f(), f()); fwd!(b, who, sgmt_point_at, F_sgmt_point_at, i, j, x, y, t) }
            17 => { let (i, j, x, y, r) = (u(), u(), f(), f(), f()); fwd!(b, who, sgmt_circle_obstacle, F_sgmt_circle_obstacle, i, j, x, y, r) }
            18 => {
                let (i, j, r) = (u(), u(), f());
                let (x, y) = (list(f), list(f));
                let w = words!(i, j, x, y, r);
                reset();
                b.sgmt_polygon_obstacle(i, j, x, y, r);
                got(bridge::F_sgmt_polygon_obstacle, who, &w);
            }
            19 => callback(b, who),
            20 => generate(b, who, true, 0),
            21 => generate(b, who, false, 0),
            _ => { reset(); crate::cancel_all(); unsafe { assert!(CALLS == 1 && FUNC == bridge::F_cancel_all, "cancellation_forwarded_once"); } }
        }
    }
    // two builders, one of them used
    fn pair() -> (SwervePathBuilder, SwervePathBuilder) {
        unsafe { NEXT = 1; CALLS = 0; }
        let a = SwervePathBuilder::new();
        unsafe { assert!(CALLS == 1 && FUNC == bridge::F_swerve_path_builder_new, "one_builder_each"); CALLS = 0; }
        let b = if kani::any() { SwervePathBuilder::new() } else { SwervePathBuilder::default() };
        unsafe { assert!(CALLS == 1 && FUNC == bridge::F_swerve_path_builder_new, "one_builder_each"); }
        (a, b)
    }
    fn run(len: usize, first: u8) {
        unsafe { LEN = len; }
        let (mut a, mut b) = pair();
        step(&mut b, 2, first);
        std::mem::forget(a);
        std::mem::forget(b);
    }
    fn run2(len: usize, other: bool, first: u8, second: u8) {
        unsafe { LEN = len; }
        let (mut a, mut b) = pair();
        step(&mut a, 1, first);
        if other { step(&mut b, 2, second) } else { step(&mut a, 1, second) }
        std::mem::forget(a);
        std::mem::forget(b);
    }
    fn long_message(len: usize, text: usize) {
        unsafe { LEN = len; }
        let (mut a, b) = pair();
        generate(&mut a, 1, false, text);
        std::mem::forget(a);
        std::mem::forget(b);
    }
HARNESSES
}
'''

SHIM = r'''
mod kani {
    use std::cell::RefCell;
    thread_local! { static V: RefCell<(usize, Vec<Vec<u8>>)> = RefCell::new((0, vec![])); }
    pub fn load(v: Vec<Vec<u8>>) { V.with(|c| *c.borrow_mut() = (0, v)); }
    pub trait Raw { fn raw(b: &[u8]) -> Self; }
    macro_rules! raw { ($($t:ty),*) => { $(impl Raw for $t { fn raw(b: &[u8]) -> Self { let mut a = [0u8; std::mem::size_of::<$t>()]; a.copy_from_slice(b); <$t>::from_le_bytes(a) } })* } }
    raw!(u8, u16, u32, u64, usize, i64, i32);
    impl Raw for bool { fn raw(b: &[u8]) -> Self { b[0] & 1 == 1 } }
    pub fn any<T: Raw>() -> T { V.with(|c| { let mut c = c.borrow_mut(); let i = c.0; c.0 += 1; T::raw(&c.1[i]) }) }
    pub fn assume(b: bool) { if !b { println!("ASSUMPTION FAILS"); std::process::exit(3) } }
}
'''


def crate(librs, maxlen):
    ns, mod, structs, funcs, rest = gen_bridge.parse(librs)
    o = ["mod %s {" % mod, "    use std::pin::Pin;", "    use crate::rec::{self, Flat, Words};"]
    for name, fields in structs:
        o.append("    #[derive(Debug, Clone)]\n    pub struct %s { %s }" % (name, ", ".join("pub %s: %s" % f for f in fields)))
        o.append("    impl Flat for %s { fn words() -> usize { %s } fn flat(&self, o: &mut Words) { %s } }" % (name, " + ".join("<%s>::words()" % t for _, t in fields), " ".join("self.%s.flat(o);" % f for f, _ in fields)))
    o.append("    pub struct SwervePathBuilder { pub id: usize }")
    methods, free = [], []
    for k, (name, args, ret) in enumerate(funcs):
        o.append("    pub const F_%s: u32 = %d;" % (name, k))
        params, body, who = [], [], "0"
        for a, ty in args:
            if a == "self":
                params.append("&self" if ty in ("&Self", "&SwervePathBuilder") else "self: %s" % ty)
                who = "self.id"
            else:
                params.append("%s: %s" % (a, ty))
                body.append("%s.flat(w);" % a)
        if name == "generate":
            out = " crate::checks::outcome()"
        elif "UniquePtr<" in ret:
            out = " unsafe { let id = rec::NEXT; rec::NEXT += 1; crate::cxx::UniquePtr::new(SwervePathBuilder { id }) }"
        elif ret:
            raise ValueError("bridge function %s returns %s" % (name, ret))
        else:
            out = ""
        r = re.sub(r"^Result<(.*)>$", r"Result<\1, crate::cxx::Exception>", ret)
        r = re.sub(r"^UniquePtr", "crate::cxx::UniquePtr", r)
        f = "pub fn %s(%s)%s { let w = rec::call(F_%s, %s); %s%s }" % (name, ", ".join(params), " -> " + r if r else "", name, who, " ".join(body), out)
        (methods if who != "0" else free).append(f)
    o.append("    impl SwervePathBuilder {\n" + "\n".join("        " + f for f in methods) + "\n    }")
    o += ["    " + f for f in free]
    o.append("}")
    rest = re.sub(r"^\s*use\s+serde::[^;]*;", "", rest, flags=re.M)
    return mod, "\n".join(o), rest, funcs


def main(pid, tier, P, W, REPO, EVD, SEED):
    t0 = time.time()
    tho = tier == "thorough"
    maxlen = 4 if tho else 3
    librs = os.path.join(REPO, "src", "lib.rs")
    mod, bridge, rest, funcs = crate(librs, maxlen)
    N = 23
    lists = (0, 2, 6, 18, 19, 20, 21)
    hs, names = [], []

    def add(n, body, unwind):
        names.append(n)
        hs.append("    #[cfg_attr(kani, kani::proof, kani::unwind(%d))]\n    pub fn %s() { %s }" % (unwind, n, body))
    for k in range(N):
        for l in range((maxlen - 1 if k in (19, 20) else maxlen) + 1) if k in lists else (1,):
            add("one_%d_%d" % (k, l), "run(%d, %d);" % (l, k), 30)
    add("one_long", "long_message(1, 1);", 90)
    add("one_text", "long_message(0, 2);", 40)
    add("one_text2", "long_message(0, 3);", 40)
    # a call after another one, on the same builder or on the other
    pairs = [(a, b) for a in range(N) for b in range(N)] if tho else [(k, k) for k in range(N)] + [(20, 0), (20, 3), (22, 20), (3, 20), (0, 20), (18, 17), (19, 20), (22, 3)]
    for a, b in pairs:
        for other in ((a + b) // 2 % 2,) if tho or a == b else (0, 1):
            add("two_%d_%d_%d" % (a, b, other), "run2(1, %s, %d, %d);" % ("true" if other else "false", a, b), 40)
    checks = CHECKS.replace("HARNESSES", "\n".join(hs)).replace("MAXLEN", str(maxlen)).replace("BRIDGE", mod)
    src = os.path.join(W, "api.rs")
    main_rs = 'pub fn main() { let a: Vec<String> = std::env::args().collect(); let t = std::fs::read_to_string(&a[2]).unwrap(); kani::load(t.lines().map(|l| l.split_whitespace().map(|x| x.parse().unwrap()).collect()).collect()); match a[1].as_str() { %s _ => {} } println!("END"); }' % " ".join('"%s" => checks::%s(),' % (n, n) for n in names)
    inner = [l for l in rest.split("\n") if l.startswith("#![")]
    rest = "\n".join(l for l in rest.split("\n") if not l.startswith("#!["))
    open(src, "w").write(PRELUDE.replace("BRIDGE", mod) + bridge + rest + checks + "\n#[cfg(not(kani))]" + SHIM + "\n#[cfg(not(kani))]\n" + main_rs + "\n#[cfg(kani)]\nfn main() {}\n")
    env = dict(os.environ, CARGO_NET_OFFLINE="true")

    def kani(sub, limit, stop, *opts):
        d = os.path.join(W, sub)
        os.makedirs(d)
        shutil.copy(src, d)
        cmd = ["kani", "api.rs", "--output-format", "terse", "-Z", "unstable-options", "--harness-timeout", "%ds" % (600 if tho else 120)] + list(opts)
        p = subprocess.Popen(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        timer = threading.Timer(limit, lambda: os.killpg(p.pid, 9))
        timer.start()
        text = []
        for l in p.stdout:
            text.append(l)
            if stop and l.startswith("VERIFICATION:- FAILED"):
                timer.cancel()
                timer = threading.Timer(30 if tho else 15, lambda: os.killpg(p.pid, 9))  # others about to end
                timer.start()
                stop = False
        p.wait()
        timer.cancel()
        return "".join(text)

    results, problems, times = {}, [], 0.0
    out = kani("all", 3600 if tho else 580, True, "-j", "8")
    now = {}
    for l in out.split("\n"):
        th = re.match(r"Thread (\d+): ?(?:Checking harness checks::(\w+)\.\.\.)?", l)
        if th:
            cur = th.group(1)
            if th.group(2):
                now[cur] = th.group(2)
            continue
        m = re.match(r" \*\* (\d+) of (\d+) failed", l)
        if m:
            results[now[cur] + "#"] = int(m.group(2))
        m = re.match(r"VERIFICATION:- (\w+)", l)
        if m:
            results[now[cur]] = m.group(1)
        m = re.match(r"Verification Time: ([\d.]+)s", l)
        times += float(m.group(1)) if m else 0
    failed = [n for n in names if results.get(n) == "FAILED"]
    if not results:
        problems.append("kani: " + out[-1500:])
    for n in names:
        if results and n not in results:
            problems.append("%s: not decided" % n)
    viol = None
    for n in failed[:3]:
        text = kani("play_" + n, 90, False, "-Z", "concrete-playback", "--concrete-playback=print", "--exact", "--harness", "checks::" + n)
        fails = re.findall(r'Failed Checks: "?([^"\n]*)"?', text)
        for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", text, re.S):
            vals = [v for v in re.findall(r"vec!\[([\d, ]*)\]", m.group(1))]
            vf = os.path.join(W, "vals")
            open(vf, "w").write("".join(v.replace(",", " ") + "\n" for v in vals))
            exe = os.path.join(W, "replay")
            if not os.path.exists(exe):
                b = subprocess.run(["rustc", "--edition", "2021", "-A", "warnings", src, "-o", exe], capture_output=True, text=True, cwd=W)
                if b.returncode:
                    problems.append("replay does not build: " + b.stderr[-800:])
                    break
            r = subprocess.run([exe, n, vf], capture_output=True, text=True, timeout=60)
            pan = re.search(r"panicked at [^\n]*\n([^\n]*)", r.stderr)
            if r.returncode == 101 and pan:
                viol = (n, pan.group(1), open(vf).read(), r.stderr)
                break
        else:
            problems.append("%s: failed checks %s do not replay" % (n, fails[:4]))
        if viol:
            break
    for n, r in results.items():
        if not n.endswith("#") and r not in ("SUCCESSFUL", "FAILED"):
            problems.append("%s: %s" % (n, r))
    checksn = sum(v for k, v in results.items() if k.endswith("#"))
    api = re.findall(r"pub fn (\w+)", rest)
    cov = {"states": sum(1 for n in names if results.get(n) == "SUCCESSFUL"), "transitions": checksn, "traces_validated_against_impl": 0,
           "samples": [{"harness": n, "result": results.get(n)} for n in names[:8]],
           "obligations": checksn, "harnesses": len(names), "solver_time_s": round(times, 2), "functions_encoded": api,
           "kani_wall_s": round(time.time() - t0, 1), "meaning": "states = Kani harnesses discharged (each covers all argument values); transitions = checks decided by CBMC's solver",
           "bounds": P["bounds"], "problems": problems}
    rep = None
    if viol:
        os.makedirs(os.path.join(EVD, "replay"), exist_ok=True)
        rep = os.path.join(EVD, "replay", "%s_%s.txt" % (pid, re.sub(r"\W", "_", viol[1])[:60]))
        open(rep, "w").write("# property %s, harness %s, failing check %s\n# one input value per line (little-endian bytes), in the order the harness asks for them\n%s\n# output:\n%s" % (pid, viol[0], viol[1], viol[2], viol[3]))
    json.dump({"property": pid, "tier": tier, "seed": SEED, "level": "model_checking", "coverage": cov, "assumptions": P["assumptions"],
               "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}, open(os.path.join(EVD, pid + ".json"), "w"), indent=1)
    print("%s %s: %d harnesses, %d checks, solver %.1f s, wall %.1f s" % (pid, tier, len(names), checksn, times, time.time() - t0), flush=True)
    if viol:
        print("violated: %s: %s" % (viol[0], viol[1]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if problems:
        for p in problems[:5]:
            print("NO VERDICT: " + p)
        return 2
    return 0
