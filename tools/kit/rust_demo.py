"""rust_demo.py LIBRS DEMO OUT: lib.rs with its bridge replaced by one that logs every call, plus a main."""
import re, sys
import gen_bridge
PRE = r'''
#![allow(dead_code, unused)]
mod cxx {
    pub struct UniquePtr<T>(Option<Box<T>>);
    impl<T> UniquePtr<T> {
        pub fn new(t: T) -> Self { UniquePtr(Some(Box::new(t))) }
        pub fn is_null(&self) -> bool { self.0.is_none() }
        pub fn as_ref(&self) -> Option<&T> { self.0.as_deref() }
        pub fn as_mut(&mut self) -> Option<std::pin::Pin<&mut T>> { self.0.as_deref_mut().map(|t| unsafe { std::pin::Pin::new_unchecked(t) }) }
        pub fn pin_mut(&mut self) -> std::pin::Pin<&mut T> { self.as_mut().unwrap() }
    }
    impl<T> std::ops::Deref for UniquePtr<T> { type Target = T; fn deref(&self) -> &T { self.0.as_deref().unwrap() } }
    #[derive(Debug)]
    pub struct Exception(pub String);
    impl Exception { pub fn what(&self) -> &str { &self.0 } }
    impl std::fmt::Display for Exception { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
    impl std::error::Error for Exception {}
}
pub mod log {
    use std::cell::RefCell;
    thread_local! {
        pub static CALLS: RefCell<Vec<String>> = RefCell::new(vec![]);
        pub static CALLBACKS: RefCell<Vec<fn(super::BRIDGE::HolonomicTrajectory, i64)>> = RefCell::new(vec![]);
        pub static OUTCOME: RefCell<Option<Result<super::BRIDGE::HolonomicTrajectory, String>>> = RefCell::new(None);
        pub static NEXT: RefCell<usize> = RefCell::new(1);
    }
    pub fn add(s: String) { CALLS.with(|c| c.borrow_mut().push(s)) }
    pub fn take() -> Vec<String> { CALLS.with(|c| std::mem::take(&mut *c.borrow_mut())) }
    pub fn next() -> usize { NEXT.with(|c| { let mut c = c.borrow_mut(); *c += 1; *c - 1 }) }
}
'''
ns, mod, structs, funcs, rest = gen_bridge.parse(sys.argv[1])
o = ["mod %s {" % mod, "use std::pin::Pin;"]
for n, f in structs:
    o.append("#[derive(Debug, Clone)] pub struct %s { %s }" % (n, ", ".join("pub %s: %s" % x for x in f)))
o.append("pub struct SwervePathBuilder { pub id: usize }")
meth, free = [], []
for n, args, ret in funcs:
    ps, shown, own = [], [], False
    for a, t in args:
        if a == "self":
            own = True
            ps.append("&self" if t in ("&Self", "&SwervePathBuilder") else "self: " + t)
        else:
            ps.append(a + ": " + t)
            if "fn(" in t.replace(" ", ""):
                shown.append('{ crate::log::CALLBACKS.with(|c| c.borrow_mut().push(%s)); "fn" }' % a)
            else:
                shown.append("format!(\"{:?}\", %s)" % a)
    s = 'let mut s = format!("%s %s"%s); %s crate::log::add(s);' % (n, "{}" if own else "-", ", self.id" if own else "", " ".join('s.push(\' \'); s.push_str(&%s);' % x for x in shown))
    if n == "generate":
        s += " crate::log::OUTCOME.with(|c| c.borrow().clone()).unwrap().map_err(crate::cxx::Exception)"
    elif "UniquePtr<" in ret:
        s += " crate::cxx::UniquePtr::new(SwervePathBuilder { id: crate::log::next() })"
    r = re.sub(r"^Result<(.*)>$", r"Result<\1, crate::cxx::Exception>", ret)
    r = re.sub(r"^UniquePtr", "crate::cxx::UniquePtr", r)
    (meth if own else free).append("pub fn %s(%s)%s { %s }" % (n, ", ".join(ps), " -> " + r if r else "", s))
o.append("impl SwervePathBuilder {\n" + "\n".join(meth) + "\n}\n" + "\n".join(free) + "\n}")
rest = re.sub(r"^\s*use\s+serde::[^;]*;", "", rest, flags=re.M)
rest = "\n".join(l for l in rest.split("\n") if not l.startswith("#!["))
open(sys.argv[3], "w").write(PRE.replace("BRIDGE", mod) + "\n".join(o) + rest + open(sys.argv[2]).read())
