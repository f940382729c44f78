//! A caller-owned source of payload text/bytes whose view may change between reads.
use simcore::{SimPanic, sched};
use std::cell::{Cell, RefCell};

/// Which views were shown, in order.
#[derive(Default)]
pub struct SrcLog {
    pub shown: RefCell<Vec<usize>>,
}
pub struct Src<'a> {
    /// successive views (each valid UTF-8 when used as text)
    pub views: &'a [Vec<u8>],
    pub n: Cell<usize>,
    pub log: &'a SrcLog,
    /// unwind at the n-th read
    pub panic_at: Option<(usize, u64)>,
    pub nested: RefCell<Option<Box<dyn FnOnce() + 'a>>>,
}
impl<'a> Src<'a> {
    pub fn new(views: &'a [Vec<u8>], log: &'a SrcLog) -> Self {
        Src { views, n: Cell::new(0), log, panic_at: None, nested: RefCell::new(None) }
    }
    fn read(&self) -> &'a [u8] {
        sched::point("src");
        let n = self.n.get();
        self.n.set(n + 1);
        if let Some((at, id)) = self.panic_at {
            if at == n {
                std::panic::panic_any(SimPanic(id));
            }
        }
        let nested = self.nested.borrow_mut().take();
        if let Some(f) = nested {
            f();
        }
        let i = n.min(self.views.len() - 1);
        self.log.shown.borrow_mut().push(i);
        let r = &self.views[i];
        sched::point("src2");
        r
    }
    fn text(&self) -> &'a str {
        std::str::from_utf8(self.read()).expect("text view")
    }
}
impl AsRef<str> for Src<'_> {
    fn as_ref(&self) -> &str {
        self.text()
    }
}
impl AsRef<[u8]> for Src<'_> {
    fn as_ref(&self) -> &[u8] {
        self.read()
    }
}
impl From<Src<'_>> for String {
    fn from(s: Src<'_>) -> String {
        s.text().to_string()
    }
}
impl From<Src<'_>> for Vec<u8> {
    fn from(s: Src<'_>) -> Vec<u8> {
        s.read().to_vec()
    }
}
