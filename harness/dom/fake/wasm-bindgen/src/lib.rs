//! A stand-in for `wasm-bindgen`: JavaScript values that live in this process, so that code written
//! for the browser can run natively against an in-memory document (see the `web-sys` stand-in).
//!
//! Only what yew, gloo-events and stylist need, with the same names and types.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt;
use std::rc::Rc;

/// A JavaScript object.
pub struct Obj {
    /// The constructors in its prototype chain, most specific first.
    pub classes: &'static [&'static str],
    pub props: RefCell<BTreeMap<String, JsValue>>,
    /// What a built-in object holds.
    pub data: Box<dyn Any>,
    pub serial: u64,
}

impl Obj {
    pub fn new(classes: &'static [&'static str], data: Box<dyn Any>) -> Rc<Obj> {
        thread_local!(static SERIAL: Cell<u64> = const { Cell::new(0) });
        let serial = SERIAL.with(|s| {
            s.set(s.get() + 1);
            s.get()
        });
        Rc::new(Obj {
            classes,
            props: RefCell::default(),
            data,
            serial,
        })
    }

    pub fn is(&self, class: &str) -> bool {
        self.classes.contains(&class)
    }
}

#[derive(Clone)]
enum Repr {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    Str(Rc<str>),
    Obj(Rc<Obj>),
}

/// A JavaScript value.
#[derive(Clone)]
pub struct JsValue(Repr);

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(Repr::Undefined);
    pub const NULL: JsValue = JsValue(Repr::Null);
    pub const TRUE: JsValue = JsValue(Repr::Bool(true));
    pub const FALSE: JsValue = JsValue(Repr::Bool(false));

    pub const fn undefined() -> JsValue {
        JsValue::UNDEFINED
    }

    pub const fn null() -> JsValue {
        JsValue::NULL
    }

    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue(Repr::Str(s.into()))
    }

    pub fn from_f64(n: f64) -> JsValue {
        JsValue(Repr::Number(n))
    }

    pub fn from_bool(b: bool) -> JsValue {
        JsValue(Repr::Bool(b))
    }

    pub fn from_obj(o: Rc<Obj>) -> JsValue {
        JsValue(Repr::Obj(o))
    }

    pub fn obj(&self) -> Option<&Rc<Obj>> {
        match &self.0 {
            Repr::Obj(o) => Some(o),
            _ => None,
        }
    }

    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            Repr::Str(s) => Some(s.to_string()),
            _ => None,
        }
    }

    pub fn as_f64(&self) -> Option<f64> {
        match &self.0 {
            Repr::Number(n) => Some(*n),
            _ => None,
        }
    }

    pub fn as_bool(&self) -> Option<bool> {
        match &self.0 {
            Repr::Bool(b) => Some(*b),
            _ => None,
        }
    }

    pub fn is_undefined(&self) -> bool {
        matches!(self.0, Repr::Undefined)
    }

    pub fn is_null(&self) -> bool {
        matches!(self.0, Repr::Null)
    }

    pub fn is_object(&self) -> bool {
        matches!(self.0, Repr::Obj(_))
    }

    pub fn is_string(&self) -> bool {
        matches!(self.0, Repr::Str(_))
    }

    pub fn is_function(&self) -> bool {
        self.obj().is_some_and(|o| o.is("Function"))
    }

    pub fn is_truthy(&self) -> bool {
        match &self.0 {
            Repr::Undefined | Repr::Null => false,
            Repr::Bool(b) => *b,
            Repr::Number(n) => *n != 0.0 && !n.is_nan(),
            Repr::Str(s) => !s.is_empty(),
            Repr::Obj(_) => true,
        }
    }
}

impl PartialEq for JsValue {
    fn eq(&self, other: &JsValue) -> bool {
        match (&self.0, &other.0) {
            (Repr::Undefined, Repr::Undefined) | (Repr::Null, Repr::Null) => true,
            (Repr::Bool(a), Repr::Bool(b)) => a == b,
            (Repr::Number(a), Repr::Number(b)) => a == b,
            (Repr::Str(a), Repr::Str(b)) => a == b,
            (Repr::Obj(a), Repr::Obj(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
}

impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            Repr::Undefined => f.write_str("JsValue(undefined)"),
            Repr::Null => f.write_str("JsValue(null)"),
            Repr::Bool(b) => write!(f, "JsValue({b})"),
            Repr::Number(n) => write!(f, "JsValue({n})"),
            Repr::Str(s) => write!(f, "JsValue({s:?})"),
            Repr::Obj(o) => match o.props.borrow().get("message").and_then(|m| m.as_string()) {
                Some(m) => write!(f, "JsValue({}: {m})", o.classes[0]),
                None => write!(f, "JsValue({} #{})", o.classes[0], o.serial),
            },
        }
    }
}

impl Default for JsValue {
    fn default() -> JsValue {
        JsValue::UNDEFINED
    }
}

impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

impl From<&str> for JsValue {
    fn from(s: &str) -> JsValue {
        JsValue::from_str(s)
    }
}

impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue::from_str(&s)
    }
}

impl From<&String> for JsValue {
    fn from(s: &String) -> JsValue {
        JsValue::from_str(s)
    }
}

impl From<bool> for JsValue {
    fn from(b: bool) -> JsValue {
        JsValue::from_bool(b)
    }
}

macro_rules! numbers {
    ($($t:ty)*) => {$(
        impl From<$t> for JsValue {
            fn from(n: $t) -> JsValue {
                JsValue::from_f64(n as f64)
            }
        }
    )*};
}
numbers!(i8 i16 i32 i64 u8 u16 u32 u64 usize isize f32 f64);

/// Casts between the classes of JavaScript.
pub trait JsCast
where
    Self: AsRef<JsValue> + Into<JsValue>,
{
    fn has_type<T: JsCast>(&self) -> bool {
        T::is_type_of(self.as_ref())
    }

    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }

    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if self.has_type::<T>() {
            Ok(self.unchecked_into())
        } else {
            Err(self)
        }
    }

    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if self.has_type::<T>() {
            Some(self.unchecked_ref())
        } else {
            None
        }
    }

    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }

    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }

    fn instanceof(val: &JsValue) -> bool;

    fn is_type_of(val: &JsValue) -> bool {
        Self::instanceof(val)
    }

    fn unchecked_from_js(val: JsValue) -> Self;

    fn unchecked_from_js_ref(val: &JsValue) -> &Self;
}

impl JsCast for JsValue {
    fn instanceof(_val: &JsValue) -> bool {
        true
    }

    fn unchecked_from_js(val: JsValue) -> JsValue {
        val
    }

    fn unchecked_from_js_ref(val: &JsValue) -> &JsValue {
        val
    }
}

/// Declares a class: a type over a [`JsValue`] with the types it inherits from.
#[macro_export]
macro_rules! js_class {
    ($(#[$m:meta])* $name:ident => $parent:ident $(: $($anc:ident)*)?) => {
        $(#[$m])*
        #[derive(Clone, PartialEq)]
        #[repr(transparent)]
        pub struct $name($parent);

        impl ::std::cmp::Eq for $name {}

        impl ::std::fmt::Debug for $name {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                ::std::fmt::Debug::fmt(::std::convert::AsRef::<$crate::JsValue>::as_ref(self), f)
            }
        }

        impl ::std::ops::Deref for $name {
            type Target = $parent;

            fn deref(&self) -> &$parent {
                &self.0
            }
        }

        impl ::std::convert::AsRef<$name> for $name {
            fn as_ref(&self) -> &$name {
                self
            }
        }

        impl ::std::convert::AsRef<$crate::JsValue> for $name {
            fn as_ref(&self) -> &$crate::JsValue {
                // A chain of `repr(transparent)` types around a `JsValue`.
                unsafe { &*(self as *const $name as *const $crate::JsValue) }
            }
        }

        impl ::std::convert::From<$name> for $crate::JsValue {
            fn from(v: $name) -> $crate::JsValue {
                ::std::convert::AsRef::<$crate::JsValue>::as_ref(&v).clone()
            }
        }

        impl ::std::convert::From<&$name> for $crate::JsValue {
            fn from(v: &$name) -> $crate::JsValue {
                ::std::convert::AsRef::<$crate::JsValue>::as_ref(v).clone()
            }
        }

        impl ::std::convert::From<$crate::JsValue> for $name {
            fn from(v: $crate::JsValue) -> $name {
                $crate::JsCast::unchecked_into(v)
            }
        }

        impl $crate::JsCast for $name {
            fn instanceof(val: &$crate::JsValue) -> bool {
                val.obj().is_some_and(|o| o.is(stringify!($name)))
            }

            fn unchecked_from_js(val: $crate::JsValue) -> $name {
                // See above.
                unsafe { ::std::mem::transmute::<$crate::JsValue, $name>(val) }
            }

            fn unchecked_from_js_ref(val: &$crate::JsValue) -> &$name {
                // See above.
                unsafe { &*(val as *const $crate::JsValue as *const $name) }
            }
        }

        $($(
            impl ::std::convert::AsRef<$anc> for $name {
                fn as_ref(&self) -> &$anc {
                    $crate::JsCast::unchecked_ref(self)
                }
            }

            impl ::std::convert::From<$name> for $anc {
                fn from(v: $name) -> $anc {
                    $crate::JsCast::unchecked_into(v)
                }
            }
        )*)?
    };
}

/// Things that would have shown up as uncaught errors in the console.
pub mod console {
    use super::*;

    thread_local!(static ERRORS: std::mem::ManuallyDrop<RefCell<Vec<String>>> = const { std::mem::ManuallyDrop::new(RefCell::new(Vec::new())) });

    pub fn report(e: String) {
        ERRORS.with(|l| l.borrow_mut().push(e));
    }

    pub fn take() -> Vec<String> {
        ERRORS.with(|l| std::mem::take(&mut *l.borrow_mut()))
    }
}

type Callback = dyn FnMut(&[JsValue]) -> JsValue;

/// What a function object holds: nothing once its [`Closure`] was dropped.
pub struct FunctionData {
    pub call: RefCell<Option<Box<Callback>>>,
    pub dropped: Cell<bool>,
}

/// Calls a function object; what it throws ends up in the console.
pub fn call_function(f: &JsValue, args: &[JsValue]) -> JsValue {
    let Some(data) = f.obj().and_then(|o| o.data.downcast_ref::<FunctionData>()) else {
        console::report(format!("{f:?} is not a function"));
        return JsValue::UNDEFINED;
    };
    let Some(mut call) = data.call.borrow_mut().take() else {
        console::report("closure invoked recursively or after being dropped".into());
        return JsValue::UNDEFINED;
    };
    let ret = call(args);
    if !data.dropped.get() {
        *data.call.borrow_mut() = Some(call);
    }
    ret
}

/// The kinds of closures JavaScript can be given.
pub trait WasmClosure {
    fn into_callback(this: Box<Self>) -> Box<Callback>;
}

impl<A: JsCast + 'static> WasmClosure for dyn Fn(&A) {
    fn into_callback(this: Box<Self>) -> Box<Callback> {
        Box::new(move |args| {
            this(args[0].unchecked_ref());
            JsValue::UNDEFINED
        })
    }
}

impl<A: JsCast + 'static> WasmClosure for dyn FnMut(&A) {
    fn into_callback(mut this: Box<Self>) -> Box<Callback> {
        Box::new(move |args| {
            this(args[0].unchecked_ref());
            JsValue::UNDEFINED
        })
    }
}

impl WasmClosure for dyn Fn() {
    fn into_callback(this: Box<Self>) -> Box<Callback> {
        Box::new(move |_| {
            this();
            JsValue::UNDEFINED
        })
    }
}

impl WasmClosure for dyn FnMut() {
    fn into_callback(mut this: Box<Self>) -> Box<Callback> {
        Box::new(move |_| {
            this();
            JsValue::UNDEFINED
        })
    }
}

/// A Rust closure that JavaScript can call until it is dropped.
pub struct Closure<T: ?Sized> {
    js: JsValue,
    forgotten: bool,
    _marker: std::marker::PhantomData<Box<T>>,
}

impl<T: WasmClosure + ?Sized> Closure<T> {
    pub fn wrap(data: Box<T>) -> Closure<T> {
        let call = T::into_callback(data);
        Closure {
            js: JsValue::from_obj(Obj::new(
                &["Function", "Object"],
                Box::new(FunctionData {
                    call: RefCell::new(Some(call)),
                    dropped: Cell::new(false),
                }),
            )),
            forgotten: false,
            _marker: std::marker::PhantomData,
        }
    }
}

impl<T: ?Sized> Closure<T> {
    pub fn forget(mut self) {
        self.forgotten = true;
    }

    pub fn into_js_value(mut self) -> JsValue {
        self.forgotten = true;
        self.js.clone()
    }
}

impl<A: JsCast + 'static> Closure<dyn FnMut(&A)> {
    pub fn once<F: FnOnce(&A) + 'static>(f: F) -> Closure<dyn FnMut(&A)> {
        let mut f = Some(f);
        Closure::wrap(Box::new(move |a: &A| {
            if let Some(f) = f.take() {
                f(a)
            }
        }) as Box<dyn FnMut(&A)>)
    }
}

impl<T: ?Sized> AsRef<JsValue> for Closure<T> {
    fn as_ref(&self) -> &JsValue {
        &self.js
    }
}

impl<T: ?Sized> Drop for Closure<T> {
    fn drop(&mut self) {
        if self.forgotten {
            return;
        }
        let data = self.js.obj().and_then(|o| o.data.downcast_ref::<FunctionData>());
        if let Some(data) = data {
            data.dropped.set(true);
            let call = data.call.borrow_mut().take();
            drop(call);
        }
    }
}

impl<T: ?Sized> fmt::Debug for Closure<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Closure({:?})", self.js)
    }
}

pub mod closure {
    pub use super::{Closure, WasmClosure};
}

pub fn intern(s: &str) -> &str {
    s
}

/// `unwrap` that throws in the browser.
pub trait UnwrapThrowExt<T>: Sized {
    #[track_caller]
    fn unwrap_throw(self) -> T {
        self.expect_throw("called `unwrap_throw()` on an empty value")
    }

    fn expect_throw(self, message: &str) -> T;
}

impl<T> UnwrapThrowExt<T> for Option<T> {
    #[track_caller]
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}

impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    #[track_caller]
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}

pub fn throw_str(s: &str) -> ! {
    panic!("{s}")
}

pub fn throw_val(v: JsValue) -> ! {
    panic!("{v:?}")
}

pub mod prelude {
    pub use super::{Closure, JsCast, JsValue, UnwrapThrowExt};
}
