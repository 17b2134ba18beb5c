//! The part of failure 0.1 the library uses.
extern crate failure_derive;
pub use failure_derive::Fail;
use std::any::{Any, TypeId};
use std::fmt::{self, Debug, Display};

pub trait Fail: Display + Debug + Send + Sync + 'static {
    fn cause(&self) -> Option<&dyn Fail> { None }
    #[doc(hidden)]
    fn __type_id(&self) -> TypeId { TypeId::of::<Self>() }
}

pub struct Error { inner: Box<dyn Fail>, any: fn(Box<dyn Fail>) -> Box<dyn Any> }

fn to_any<F: Fail>(b: Box<dyn Fail>) -> Box<dyn Any> {
    let p = Box::into_raw(b) as *mut F;
    unsafe { Box::from_raw(p) }
}

impl<F: Fail> From<F> for Error {
    fn from(f: F) -> Error { Error { inner: Box::new(f), any: to_any::<F> } }
}

impl Error {
    pub fn as_fail(&self) -> &dyn Fail { &*self.inner }
    pub fn downcast<T: Fail>(self) -> Result<T, Error> {
        if self.inner.__type_id() == TypeId::of::<T>() {
            Ok(*(self.any)(self.inner).downcast::<T>().ok().unwrap())
        } else { Err(self) }
    }
    pub fn downcast_ref<T: Fail>(&self) -> Option<&T> {
        if self.inner.__type_id() == TypeId::of::<T>() {
            Some(unsafe { &*(&*self.inner as *const dyn Fail as *const T) })
        } else { None }
    }
}
impl Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Display::fmt(&self.inner, f) } }
impl Debug for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Debug::fmt(&self.inner, f) } }

#[derive(Debug)]
pub struct ErrorMessage { pub msg: String }
impl Display for ErrorMessage { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.msg) } }
impl Fail for ErrorMessage {}
pub fn err_msg<D: Display>(msg: D) -> Error { Error::from(ErrorMessage { msg: msg.to_string() }) }

#[macro_export]
macro_rules! format_err { ($($arg:tt)*) => { $crate::err_msg(format!($($arg)*)) }; }
#[macro_export]
macro_rules! bail { ($($arg:tt)*) => { return Err($crate::err_msg(format!($($arg)*))) }; }
#[macro_export]
macro_rules! ensure { ($c:expr, $($arg:tt)*) => { if !$c { return Err($crate::err_msg(format!($($arg)*))); } }; }
pub type Fallible<T> = Result<T, Error>;
