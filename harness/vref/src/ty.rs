//! Types that results and payloads may have, and a rendering that includes the identity of what they
//! point to.
use std::borrow::Cow;
use std::cell::RefCell;
use std::fmt::Debug;
use std::rc::Rc;

pub trait Show {
    fn show(&self) -> String;
}

// Names that the generated code might use for its own generics.
#[derive(Debug, Clone, PartialEq)]
pub struct E(pub usize);
#[derive(Debug, Clone, PartialEq)]
pub struct R<X>(pub X);
#[derive(Debug)]
pub enum Tree<'a> {
    Leaf(&'a str),
    Node(Box<Tree<'a>>, Box<Tree<'a>>),
}
pub trait Tr {
    type Out;
}
impl Tr for u8 {
    type Out = u64;
}
#[derive(Debug)]
pub struct Big(pub [u64; 300]);

fn p<X: ?Sized>(x: *const X) -> String {
    format!("@{:x}@", x as *const u8 as usize)
}

macro_rules! plain { ($($t:ty)*) => { $(impl Show for $t { fn show(&self) -> String { format!("{self:?}") } })* } }
plain!(() usize u8 u16 u64 bool char E i128 f64 ma::V mb::V mb::inner::V isize);

/// Types that share their names.
pub mod ma {
    #[derive(Debug)]
    pub struct V(pub usize);
}
pub mod mb {
    #[derive(Debug)]
    pub struct V(pub String);
    pub mod inner {
        #[derive(Debug)]
        pub struct V(pub [usize; 2]);
    }
}
pub const TWO: usize = 2;
impl Tr for u16 {
    type Out = isize;
}
pub trait Tq {
    type Out;
}
impl Tq for u8 {
    type Out = bool;
}
impl Show for *mut u8 {
    fn show(&self) -> String {
        p(*self)
    }
}
impl Show for &mut str {
    fn show(&self) -> String {
        format!("&mut{}{:?}", p(&**self as *const str), self)
    }
}
impl Show for unsafe fn(usize) -> usize {
    fn show(&self) -> String {
        format!("fn{:x}", *self as usize)
    }
}
impl Show for extern "C" fn(usize) -> usize {
    fn show(&self) -> String {
        format!("fn{:x}", *self as usize)
    }
}
pub extern "C" fn cdouble(x: usize) -> usize {
    x * 2
}
impl Show for &(dyn Debug + Send) {
    fn show(&self) -> String {
        format!("dyn{}{:?}", p(*self as *const (dyn Debug + Send)), self)
    }
}

impl Show for &str {
    fn show(&self) -> String {
        format!("&{}{:?}", p(*self as *const str), self)
    }
}
impl Show for String {
    fn show(&self) -> String {
        format!("S{}{:?}", p(self.as_ptr()), self)
    }
}
impl Show for &mut usize {
    fn show(&self) -> String {
        format!("&mut{}{}", p(&**self as *const usize), **self)
    }
}
impl Show for &[u8] {
    fn show(&self) -> String {
        format!("[]{}{:?}", p(self.as_ptr()), self)
    }
}
impl Show for fn(usize) -> usize {
    fn show(&self) -> String {
        format!("fn{:x} {}", *self as usize, self(3))
    }
}
impl Show for for<'x> fn(&'x str) -> &'x str {
    fn show(&self) -> String {
        format!("fn{:x} {}", *self as usize, self("abc"))
    }
}
impl Show for *const u8 {
    fn show(&self) -> String {
        p(*self)
    }
}
impl Show for &dyn Debug {
    fn show(&self) -> String {
        format!("dyn{}{:?}", p(*self as *const dyn Debug), self)
    }
}
impl Show for Cow<'_, str> {
    fn show(&self) -> String {
        match self {
            Cow::Borrowed(s) => format!("B{}", s.show()),
            Cow::Owned(s) => format!("O{}", s.show()),
        }
    }
}
impl<X: Show> Show for Option<X> {
    fn show(&self) -> String {
        self.as_ref().map_or("None".into(), |x| format!("Some({})", x.show()))
    }
}
impl<X: Show, Y: Show> Show for Result<X, Y> {
    fn show(&self) -> String {
        match self {
            Ok(x) => format!("Ok({})", x.show()),
            Err(x) => format!("Err({})", x.show()),
        }
    }
}
impl<X: Show> Show for Vec<X> {
    fn show(&self) -> String {
        let v: Vec<String> = self.iter().map(|x| x.show()).collect();
        format!("V{}[{}]", p(self.as_ptr()), v.join(", "))
    }
}
impl<X: Show> Show for Box<X> {
    fn show(&self) -> String {
        format!("Box{}{}", p(&**self as *const X), (**self).show())
    }
}
impl<X: Show> Show for Rc<X> {
    fn show(&self) -> String {
        format!("Rc{}{}{}", p(&**self as *const X), Rc::strong_count(self), (**self).show())
    }
}
impl<X: Show> Show for R<X> {
    fn show(&self) -> String {
        format!("R({})", self.0.show())
    }
}
impl<X: Show, Y: Show> Show for (X, Y) {
    fn show(&self) -> String {
        format!("({}, {})", self.0.show(), self.1.show())
    }
}
impl<X: Show> Show for (X,) {
    fn show(&self) -> String {
        format!("({},)", self.0.show())
    }
}
impl<X: Show, const N: usize> Show for [X; N] {
    fn show(&self) -> String {
        let v: Vec<String> = self.iter().map(|x| x.show()).collect();
        format!("[{}]", v.join(", "))
    }
}
impl Show for Tree<'_> {
    fn show(&self) -> String {
        match self {
            Tree::Leaf(s) => s.show(),
            Tree::Node(a, b) => format!("N({}, {})", a.show(), b.show()),
        }
    }
}
impl Show for Big {
    fn show(&self) -> String {
        format!("{:?}", self.0)
    }
}

/// Alignment that a byte buffer does not have.
#[derive(Debug)]
#[repr(align(128))]
pub struct Wide(pub u8);
impl Show for Wide {
    fn show(&self) -> String {
        format!("W{} {}", self as *const Wide as usize % 128, self.0)
    }
}
#[derive(Debug)]
pub enum Never {}
impl Show for Never {
    fn show(&self) -> String {
        match *self {}
    }
}
/// Nothing in it, but it cannot be copied.
#[derive(Debug)]
pub struct Nothing(());
impl Nothing {
    pub fn new() -> Nothing {
        Nothing(())
    }
}
impl Show for Nothing {
    fn show(&self) -> String {
        "nothing".into()
    }
}
impl<X> Show for std::marker::PhantomData<X> {
    fn show(&self) -> String {
        "Phantom".into()
    }
}
impl Show for Box<dyn std::any::Any> {
    fn show(&self) -> String {
        format!("any{}{:?}", p(&**self as *const dyn std::any::Any as *const u8), self.downcast_ref::<usize>())
    }
}
impl Show for Box<str> {
    fn show(&self) -> String {
        format!("bs{}{:?}", p(self.as_ptr()), self)
    }
}
impl Show for std::cell::Cell<usize> {
    fn show(&self) -> String {
        format!("cell {}", self.get())
    }
}
impl<X: Show> Show for std::pin::Pin<Box<X>> {
    fn show(&self) -> String {
        format!("pin{}{}", p(&**self as *const X), (**self).show())
    }
}
impl Show for std::num::NonZeroU8 {
    fn show(&self) -> String {
        format!("{self}")
    }
}

/// Without identities.
pub fn strip(s: &str) -> String {
    s.split('@').step_by(2).collect()
}

thread_local! { static LOG: RefCell<Vec<String>> = const { RefCell::new(vec![]) }; }

pub fn log(k: &str, x: &dyn Show) {
    LOG.with(|l| l.borrow_mut().push(format!("{k}={}", x.show())));
}

pub fn logged() -> Vec<String> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

pub fn double(x: usize) -> usize {
    x * 2
}
pub fn square(x: usize) -> usize {
    x * x
}
pub fn tail(x: &str) -> &str {
    &x[1..]
}
pub fn same(x: &str) -> &str {
    x
}
pub fn leak(k: usize) -> &'static mut usize {
    Box::leak(Box::new(k))
}

#[derive(Debug)]
pub struct Arr<const N: usize>(pub [usize; N]);
impl<const N: usize> Show for Arr<N> {
    fn show(&self) -> String {
        format!("Arr{:?}", self.0)
    }
}
#[derive(Debug)]
pub struct Flag<const B: bool = true>(pub usize);
impl<const B: bool> Show for Flag<B> {
    fn show(&self) -> String {
        format!("Flag {B} {}", self.0)
    }
}
pub trait Tw: Debug {
    type Out: Debug;
    fn out(&self) -> Self::Out;
}
impl Tw for Wide {
    type Out = usize;
    fn out(&self) -> usize {
        self.0 as usize
    }
}
#[derive(Debug)]
pub struct Never2(pub usize);
impl Tw for Never2 {
    type Out = String;
    fn out(&self) -> String {
        format!("o{}", self.0)
    }
}
impl<O: Debug> Show for Box<dyn Tw<Out = O>> {
    fn show(&self) -> String {
        format!("{}{:?}", p(&**self as *const dyn Tw<Out = O>), self.out())
    }
}
impl<O: Debug> Show for Box<dyn Tw<Out = O> + Send> {
    fn show(&self) -> String {
        format!("{}send{:?}", p(&**self as *const (dyn Tw<Out = O> + Send)), self.out())
    }
}
/// A type written as a macro call.
#[macro_export]
macro_rules! tm {
    (usize) => { usize };
    (String) => { String };
    (($t:ty)) => { ($t, $t) };
}
