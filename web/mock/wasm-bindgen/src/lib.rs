//! Stand-in for wasm-bindgen on the native target: values of the page as an enum.
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub use wasm_bindgen_macro::wasm_bindgen;

thread_local!(static CALLS: Cell<u64> = Cell::new(0));
/// a call of an imported (page) function
pub fn imported_call() {
    CALLS.with(|c| c.set(c.get() + 1));
}
pub fn imported_calls() -> u64 {
    CALLS.with(|c| c.get())
}

#[derive(Debug, Clone)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    Text(String),
    Array(Rc<RefCell<Vec<JsValue>>>),
    Bytes(Rc<RefCell<Vec<u8>>>, bool),
}

impl PartialEq for JsValue {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (JsValue::Undefined, JsValue::Undefined) | (JsValue::Null, JsValue::Null) => true,
            (JsValue::Bool(a), JsValue::Bool(b)) => a == b,
            (JsValue::Number(a), JsValue::Number(b)) => a == b,
            (JsValue::Text(a), JsValue::Text(b)) => a == b,
            (JsValue::Array(a), JsValue::Array(b)) => Rc::ptr_eq(a, b),
            (JsValue::Bytes(a, _), JsValue::Bytes(b, _)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    pub fn undefined() -> JsValue {
        JsValue::Undefined
    }
    pub fn null() -> JsValue {
        JsValue::Null
    }
    pub fn from_str(s: &str) -> JsValue {
        JsValue::Text(s.into())
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue::Number(n)
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue::Bool(b)
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Number(n) => Some(*n),
            _ => None,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::Text(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(s) => Some(*s),
            _ => None,
        }
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self, JsValue::Null)
    }
    /// the number the page's conversion rules give
    pub fn to_number(&self) -> f64 {
        match self {
            JsValue::Undefined => f64::NAN,
            JsValue::Null => 0.,
            JsValue::Bool(b) => *b as u8 as f64,
            JsValue::Number(n) => *n,
            JsValue::Text(s) if s.trim().is_empty() => 0.,
            JsValue::Text(s) => s.trim().parse().unwrap_or(f64::NAN),
            _ => f64::NAN,
        }
    }
}

impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
impl From<&JsValue> for JsValue {
    fn from(v: &JsValue) -> JsValue {
        v.clone()
    }
}
impl From<&str> for JsValue {
    fn from(v: &str) -> JsValue {
        JsValue::Text(v.into())
    }
}
impl From<String> for JsValue {
    fn from(v: String) -> JsValue {
        JsValue::Text(v)
    }
}
impl From<&String> for JsValue {
    fn from(v: &String) -> JsValue {
        JsValue::Text(v.clone())
    }
}
impl From<bool> for JsValue {
    fn from(v: bool) -> JsValue {
        JsValue::Bool(v)
    }
}
macro_rules! numbers { ($($t:ty)*) => { $(
    impl From<$t> for JsValue { fn from(v: $t) -> JsValue { JsValue::Number(v as f64) } }
    impl From<&$t> for JsValue { fn from(v: &$t) -> JsValue { JsValue::Number(*v as f64) } }
)* } }
numbers!(u8 u16 u32 i8 i16 i32 f32 f64 usize isize);

pub trait JsCast: Sized {
    fn unchecked_into<T: From<JsValue>>(self) -> T
    where
        JsValue: From<Self>,
    {
        T::from(JsValue::from(self))
    }
    fn dyn_into<T: From<JsValue>>(self) -> Result<T, JsValue>
    where
        JsValue: From<Self>,
    {
        Ok(T::from(JsValue::from(self)))
    }
}
impl JsCast for JsValue {}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}

#[derive(Debug, Clone)]
pub struct JsError(pub String);
impl JsError {
    pub fn new(s: &str) -> Self {
        JsError(s.into())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> JsValue {
        JsValue::Text(e.0)
    }
}

pub struct Clamped<T>(pub T);

pub fn throw_str(s: &str) -> ! {
    panic!("{s}")
}

pub mod prelude {
    pub use crate::{wasm_bindgen, JsCast, JsError, JsValue, UnwrapThrowExt};
}
