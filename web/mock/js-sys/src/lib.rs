//! Stand-in for js-sys: Array and typed byte arrays with reference semantics and the page's number conversions.
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::{JsCast, JsValue};

#[derive(Debug, Clone)]
pub struct Array(JsValue);

impl Array {
    fn v(&self) -> &Rc<RefCell<Vec<JsValue>>> {
        match &self.0 {
            JsValue::Array(v) => v,
            _ => unreachable!(),
        }
    }
    pub fn new() -> Array {
        Array(JsValue::Array(Rc::new(RefCell::new(vec![]))))
    }
    pub fn new_with_length(n: u32) -> Array {
        Array(JsValue::Array(Rc::new(RefCell::new(vec![JsValue::Undefined; n as usize]))))
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        self.v().borrow_mut().push(v.clone());
        self.length()
    }
    pub fn length(&self) -> u32 {
        self.v().borrow().len() as u32
    }
    pub fn get(&self, k: u32) -> JsValue {
        self.v().borrow().get(k as usize).cloned().unwrap_or(JsValue::Undefined)
    }
    pub fn set(&self, k: u32, x: JsValue) {
        let mut v = self.v().borrow_mut();
        let k = k as usize;
        if v.len() <= k {
            v.resize(k + 1, JsValue::Undefined);
        }
        v[k] = x;
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.v().borrow().clone()
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
}
impl Default for Array {
    fn default() -> Self {
        Array::new()
    }
}
impl<A: AsRef<JsValue>> FromIterator<A> for Array {
    fn from_iter<I: IntoIterator<Item = A>>(it: I) -> Array {
        let a = Array::new();
        for x in it {
            a.push(x.as_ref());
        }
        a
    }
}
impl<A: AsRef<JsValue>> Extend<A> for Array {
    fn extend<I: IntoIterator<Item = A>>(&mut self, it: I) {
        for x in it {
            self.push(x.as_ref());
        }
    }
}
impl AsRef<JsValue> for Array {
    fn as_ref(&self) -> &JsValue {
        &self.0
    }
}
impl From<Array> for JsValue {
    fn from(a: Array) -> JsValue {
        a.0
    }
}
impl From<&Array> for JsValue {
    fn from(a: &Array) -> JsValue {
        a.0.clone()
    }
}
impl From<JsValue> for Array {
    fn from(v: JsValue) -> Array {
        match v {
            JsValue::Array(_) => Array(v),
            _ => panic!("not an array"),
        }
    }
}
impl JsCast for Array {}

fn modulo(n: f64) -> u8 {
    if !n.is_finite() {
        return 0;
    }
    n.trunc().rem_euclid(256.) as u8
}
fn clamp(n: f64) -> u8 {
    if n.is_nan() {
        return 0;
    }
    let f = n.clamp(0., 255.);
    let r = f.floor();
    (if f - r > 0.5 || f - r == 0.5 && r as u8 % 2 == 1 { r + 1. } else { r }) as u8
}

macro_rules! bytes { ($name:ident, $clamped:expr, $conv:ident) => {
    #[derive(Debug, Clone)]
    pub struct $name(JsValue);

    impl $name {
        fn v(&self) -> &Rc<RefCell<Vec<u8>>> {
            match &self.0 {
                JsValue::Bytes(v, _) => v,
                _ => unreachable!(),
            }
        }
        fn make(v: Vec<u8>) -> Self {
            $name(JsValue::Bytes(Rc::new(RefCell::new(v)), $clamped))
        }
        /// new TypedArray(value): a length, an array of numbers, or another typed array, all copied
        pub fn new(value: &JsValue) -> Self {
            Self::make(match value {
                JsValue::Array(a) => a.borrow().iter().map(|x| $conv(x.to_number())).collect(),
                JsValue::Bytes(b, _) => b.borrow().clone(),
                JsValue::Number(n) => vec![0; *n as usize],
                JsValue::Undefined | JsValue::Null => vec![],
                _ => vec![],
            })
        }
        pub fn new_with_length(n: u32) -> Self {
            Self::make(vec![0; n as usize])
        }
        pub unsafe fn view(b: &[u8]) -> Self {
            Self::make(b.to_vec())
        }
        pub fn to_vec(&self) -> Vec<u8> {
            self.v().borrow().clone()
        }
        pub fn length(&self) -> u32 {
            self.v().borrow().len() as u32
        }
        pub fn byte_length(&self) -> u32 {
            self.length()
        }
        pub fn copy_to(&self, dst: &mut [u8]) {
            let v = self.v().borrow();
            assert_eq!(v.len(), dst.len());
            dst.copy_from_slice(&v);
        }
        pub fn copy_from(&self, src: &[u8]) {
            let mut v = self.v().borrow_mut();
            assert_eq!(v.len(), src.len());
            v.copy_from_slice(src);
        }
        pub fn get_index(&self, k: u32) -> u8 {
            self.v().borrow()[k as usize]
        }
        pub fn set_index(&self, k: u32, x: u8) {
            if let Some(p) = self.v().borrow_mut().get_mut(k as usize) {
                *p = x;
            }
        }
        pub fn fill(&self, x: u8, a: u32, b: u32) -> Self {
            let n = self.length();
            self.v().borrow_mut()[a.min(n) as usize..b.min(n) as usize].fill(x);
            self.clone()
        }
        pub fn set(&self, src: &JsValue, offset: u32) {
            let s = Self::new(src).to_vec();
            self.v().borrow_mut()[offset as usize..offset as usize + s.len()].copy_from_slice(&s);
        }
        pub fn slice(&self, a: u32, b: u32) -> Self {
            let n = self.length();
            Self::make(self.v().borrow()[a.min(n) as usize..b.min(n) as usize].to_vec())
        }
        pub fn subarray(&self, a: u32, b: u32) -> Self {
            self.slice(a, b)
        }
    }
    impl From<&[u8]> for $name {
        fn from(b: &[u8]) -> Self {
            Self::make(b.to_vec())
        }
    }
    impl From<&Vec<u8>> for $name {
        fn from(b: &Vec<u8>) -> Self {
            Self::make(b.clone())
        }
    }
    impl AsRef<JsValue> for $name {
        fn as_ref(&self) -> &JsValue {
            &self.0
        }
    }
    impl From<$name> for JsValue {
        fn from(a: $name) -> JsValue {
            a.0
        }
    }
    impl From<&$name> for JsValue {
        fn from(a: &$name) -> JsValue {
            a.0.clone()
        }
    }
    impl From<JsValue> for $name {
        fn from(v: JsValue) -> $name {
            match v {
                JsValue::Bytes(..) => $name(v),
                _ => panic!("not a byte array"),
            }
        }
    }
    impl JsCast for $name {}
} }
bytes!(Uint8Array, false, modulo);
bytes!(Uint8ClampedArray, true, clamp);
