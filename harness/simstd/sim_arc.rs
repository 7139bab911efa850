//! `Arc` and `Weak` with scheduling points where the reference counts decide something.
use crate::rt::{self, Kind};
use ::std::borrow::Borrow;
use ::std::cmp::Ordering;
use ::std::error::Error;
use ::std::fmt;
use ::std::hash::{Hash, Hasher};
use ::std::marker::Unsize;
use ::std::mem::ManuallyDrop;
use ::std::ops::{CoerceUnsized, Deref, DispatchFromDyn, LegacyReceiver};
use ::std::prelude::v1::*;
use ::std::sync as rs;

#[inline]
fn pt() {
    if let Some(h) = rt::current() {
        h.point(Kind::Count, 0);
    }
}

#[repr(transparent)]
pub struct Arc<T: ?Sized>(rs::Arc<T>);
#[repr(transparent)]
pub struct Weak<T: ?Sized>(rs::Weak<T>);

impl<T: ?Sized + Unsize<U>, U: ?Sized> CoerceUnsized<Arc<U>> for Arc<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> DispatchFromDyn<Arc<U>> for Arc<T> {}
impl<T: ?Sized> LegacyReceiver for Arc<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> CoerceUnsized<Weak<U>> for Weak<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> DispatchFromDyn<Weak<U>> for Weak<T> {}

fn wrap<T: ?Sized>(a: rs::Arc<T>) -> Arc<T> {
    Arc(a)
}
impl<T: ?Sized> Arc<T> {
    fn real(self) -> rs::Arc<T> {
        let me = ManuallyDrop::new(self);
        unsafe { ::std::ptr::read(&me.0) }
    }
}
impl<T> Arc<T> {
    pub fn new(t: T) -> Self {
        wrap(rs::Arc::new(t))
    }
    pub fn pin(t: T) -> ::std::pin::Pin<Self> {
        unsafe { ::std::pin::Pin::new_unchecked(Self::new(t)) }
    }
    pub fn new_cyclic<F: FnOnce(&Weak<T>) -> T>(f: F) -> Self {
        // Weak is a transparent wrapper
        wrap(rs::Arc::new_cyclic(|w| f(unsafe { &*(w as *const rs::Weak<T> as *const Weak<T>) })))
    }
    pub fn try_unwrap(this: Self) -> Result<T, Self> {
        pt();
        rs::Arc::try_unwrap(this.real()).map_err(wrap)
    }
    pub fn into_inner(this: Self) -> Option<T> {
        pt();
        rs::Arc::into_inner(this.real())
    }
    pub unsafe fn from_raw(p: *const T) -> Self {
        wrap(rs::Arc::from_raw(p))
    }
}
impl<T: Clone> Arc<T> {
    pub fn unwrap_or_clone(this: Self) -> T {
        Arc::try_unwrap(this).unwrap_or_else(|a| (*a).clone())
    }
    pub fn make_mut(this: &mut Self) -> &mut T {
        pt();
        rs::Arc::make_mut(&mut this.0)
    }
}
impl<T: ?Sized> Arc<T> {
    pub fn downgrade(this: &Self) -> Weak<T> {
        Weak(rs::Arc::downgrade(&this.0))
    }
    pub fn strong_count(this: &Self) -> usize {
        pt();
        rs::Arc::strong_count(&this.0)
    }
    pub fn weak_count(this: &Self) -> usize {
        pt();
        rs::Arc::weak_count(&this.0)
    }
    pub fn ptr_eq(a: &Self, b: &Self) -> bool {
        rs::Arc::ptr_eq(&a.0, &b.0)
    }
    pub fn as_ptr(this: &Self) -> *const T {
        rs::Arc::as_ptr(&this.0)
    }
    pub fn into_raw(this: Self) -> *const T {
        rs::Arc::into_raw(this.real())
    }
    pub fn get_mut(this: &mut Self) -> Option<&mut T> {
        pt();
        rs::Arc::get_mut(&mut this.0)
    }
}
impl<T: ?Sized> Drop for Arc<T> {
    fn drop(&mut self) {
        pt(); // then the count goes down
    }
}
impl<T: ?Sized> Clone for Arc<T> {
    fn clone(&self) -> Self {
        wrap(rs::Arc::clone(&self.0))
    }
}
impl<T: ?Sized> Deref for Arc<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> AsRef<T> for Arc<T> {
    fn as_ref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> Borrow<T> for Arc<T> {
    fn borrow(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> Unpin for Arc<T> {}
impl<T: Default> Default for Arc<T> {
    fn default() -> Self {
        Arc::new(T::default())
    }
}
impl Default for Arc<str> {
    fn default() -> Self {
        wrap(rs::Arc::default())
    }
}
impl<T> Default for Arc<[T]> {
    fn default() -> Self {
        wrap(rs::Arc::default())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&**self, f)
    }
}
impl<T: ?Sized> fmt::Pointer for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Pointer::fmt(&self.0, f)
    }
}
impl<T: ?Sized + PartialEq> PartialEq for Arc<T> {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl<T: ?Sized + Eq> Eq for Arc<T> {}
impl<T: ?Sized + PartialOrd> PartialOrd for Arc<T> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        (**self).partial_cmp(&**o)
    }
}
impl<T: ?Sized + Ord> Ord for Arc<T> {
    fn cmp(&self, o: &Self) -> Ordering {
        (**self).cmp(&**o)
    }
}
impl<T: ?Sized + Hash> Hash for Arc<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (**self).hash(h)
    }
}
impl<T: ?Sized + Error> Error for Arc<T> {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        (**self).source()
    }
}
impl<T> From<T> for Arc<T> {
    fn from(t: T) -> Self {
        Arc::new(t)
    }
}
impl<T> From<Box<T>> for Arc<T> {
    fn from(t: Box<T>) -> Self {
        wrap(rs::Arc::from(t))
    }
}
impl<T> From<Vec<T>> for Arc<[T]> {
    fn from(t: Vec<T>) -> Self {
        wrap(rs::Arc::from(t))
    }
}
impl<T: Clone> From<&[T]> for Arc<[T]> {
    fn from(t: &[T]) -> Self {
        wrap(rs::Arc::from(t))
    }
}
impl From<&str> for Arc<str> {
    fn from(t: &str) -> Self {
        wrap(rs::Arc::from(t))
    }
}
impl From<String> for Arc<str> {
    fn from(t: String) -> Self {
        wrap(rs::Arc::from(t))
    }
}
impl<T> FromIterator<T> for Arc<[T]> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        wrap(rs::Arc::from_iter(i))
    }
}

impl<T> Weak<T> {
    pub const fn new() -> Self {
        Weak(rs::Weak::new())
    }
}
impl<T: ?Sized> Weak<T> {
    pub fn upgrade(&self) -> Option<Arc<T>> {
        pt();
        self.0.upgrade().map(wrap)
    }
    pub fn strong_count(&self) -> usize {
        pt();
        self.0.strong_count()
    }
    pub fn weak_count(&self) -> usize {
        pt();
        self.0.weak_count()
    }
    pub fn ptr_eq(&self, o: &Self) -> bool {
        self.0.ptr_eq(&o.0)
    }
    pub fn as_ptr(&self) -> *const T {
        self.0.as_ptr()
    }
}
impl<T: ?Sized> Clone for Weak<T> {
    fn clone(&self) -> Self {
        Weak(self.0.clone())
    }
}
impl<T> Default for Weak<T> {
    fn default() -> Self {
        Weak::new()
    }
}
impl<T: ?Sized> fmt::Debug for Weak<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("(Weak)")
    }
}
