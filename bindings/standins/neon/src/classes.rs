//! Classes backed by Rust values, borrowing, calls and module registration.
use crate::sys::*;
use crate::values::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};
use std::os::raw::{c_char, c_void};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::ptr::null_mut;

pub type Method = (&'static str, napi_callback);

pub trait This: Managed {
    fn check_this(_v: napi_value) -> bool {
        true
    }
    fn as_this(v: napi_value) -> Self;
}
impl This for JsObject {
    fn as_this(v: napi_value) -> Self {
        JsObject(v)
    }
}
impl This for JsUndefined {
    fn as_this(v: napi_value) -> Self {
        JsUndefined(v)
    }
}
impl This for JsValue {
    fn as_this(v: napi_value) -> Self {
        JsValue(v)
    }
}

pub trait Class: Object + This + 'static {
    type Internals: 'static;
    fn class_name() -> &'static str;
    #[doc(hidden)]
    fn entries() -> (napi_callback, Vec<Method>);
    #[doc(hidden)]
    fn has_instance(v: napi_value) -> bool {
        if raw_typeof(v) != OBJECT {
            return false;
        }
        let mut r = false;
        sure(unsafe { napi_check_object_type_tag(env(), v, &tag::<Self>(), &mut r) });
        r
    }
}
/// Which class an object was made as.
fn tag<T: Class>() -> napi_type_tag {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in T::class_name().bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    napi_type_tag { lower: h, upper: 0x6361_726d_656e }
}
fn internals<T: Class>(v: napi_value) -> *mut T::Internals {
    let mut p = null_mut();
    sure(unsafe { napi_unwrap(env(), v, &mut p) });
    p as *mut T::Internals
}

// ----- borrowing

#[derive(Debug)]
pub struct LoanError(bool);
impl std::fmt::Display for LoanError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(if self.0 { "outstanding mutable loan exists" } else { "object already borrowed" })
    }
}
impl std::error::Error for LoanError {}

/// Readers of each object on loan; none means a writer.
#[derive(Default)]
struct Ledger(HashMap<usize, usize>);
pub struct Lock<'a> {
    ledger: RefCell<Ledger>,
    phantom: PhantomData<&'a ()>,
}
const WRITER: usize = usize::max_value();
impl<'a> Lock<'a> {
    pub(crate) fn new() -> Self {
        Lock { ledger: RefCell::new(Ledger::default()), phantom: PhantomData }
    }
    fn read(&self, p: usize) -> Result<(), LoanError> {
        let mut l = self.ledger.borrow_mut();
        match l.0.get(&p).cloned().unwrap_or(0) {
            WRITER => Err(LoanError(true)),
            n => {
                l.0.insert(p, n + 1);
                Ok(())
            }
        }
    }
    fn write(&self, p: usize) -> Result<(), LoanError> {
        let mut l = self.ledger.borrow_mut();
        match l.0.get(&p).cloned().unwrap_or(0) {
            0 => {
                l.0.insert(p, WRITER);
                Ok(())
            }
            n => Err(LoanError(n == WRITER)),
        }
    }
    fn settle(&self, p: usize) {
        let mut l = self.ledger.borrow_mut();
        match l.0.get(&p).cloned().unwrap_or(0) {
            0 | 1 | WRITER => {
                l.0.remove(&p);
            }
            n => {
                l.0.insert(p, n - 1);
            }
        }
    }
}
macro_rules! loan {
    ($name:ident) => {
        pub struct $name<'a, T> {
            data: T,
            at: usize,
            lock: &'a Lock<'a>,
        }
        impl<'a, T> Drop for $name<'a, T> {
            fn drop(&mut self) {
                self.lock.settle(self.at);
            }
        }
        impl<'a, T> Deref for $name<'a, T> {
            type Target = T;
            fn deref(&self) -> &T {
                &self.data
            }
        }
    };
}
loan!(Ref);
loan!(RefMut);
impl<'a, T> DerefMut for RefMut<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.data
    }
}
pub trait Borrow: Sized {
    type Target: Sized;
    fn try_borrow<'a>(self, lock: &'a Lock<'a>) -> Result<Ref<'a, Self::Target>, LoanError>;
    fn borrow<'a>(self, lock: &'a Lock<'a>) -> Ref<'a, Self::Target> {
        match self.try_borrow(lock) {
            Ok(r) => r,
            Err(e) => panic!("{}", e),
        }
    }
}
pub trait BorrowMut: Borrow {
    fn try_borrow_mut<'a>(self, lock: &'a Lock<'a>) -> Result<RefMut<'a, Self::Target>, LoanError>;
    fn borrow_mut<'a>(self, lock: &'a Lock<'a>) -> RefMut<'a, Self::Target> {
        match self.try_borrow_mut(lock) {
            Ok(r) => r,
            Err(e) => panic!("{}", e),
        }
    }
}
macro_rules! borrows_internals {
    ($($p:tt)*) => {
        impl<'a, T: Class> Borrow for $($p)* T {
            type Target = &'a mut T::Internals;
            fn try_borrow<'b>(self, lock: &'b Lock<'b>) -> Result<Ref<'b, Self::Target>, LoanError> {
                let p = internals::<T>(self.to_raw());
                lock.read(p as usize)?;
                Ok(Ref { data: unsafe { &mut *p }, at: p as usize, lock })
            }
        }
    };
}
borrows_internals!(&'a);
borrows_internals!(&'a mut);
impl<'a, T: Class> BorrowMut for &'a mut T {
    fn try_borrow_mut<'b>(self, lock: &'b Lock<'b>) -> Result<RefMut<'b, Self::Target>, LoanError> {
        let p = internals::<T>(self.to_raw());
        lock.write(p as usize)?;
        Ok(RefMut { data: unsafe { &mut *p }, at: p as usize, lock })
    }
}
macro_rules! borrows_bytes {
    ($t:ident) => {
        impl<'a> Borrow for &'a $t {
            type Target = BinaryData<'a>;
            fn try_borrow<'b>(self, lock: &'b Lock<'b>) -> Result<Ref<'b, Self::Target>, LoanError> {
                let data = self.data();
                lock.read(data.at() as usize)?;
                Ok(Ref { data, at: data.at() as usize, lock })
            }
        }
        impl<'a> Borrow for &'a mut $t {
            type Target = BinaryData<'a>;
            fn try_borrow<'b>(self, lock: &'b Lock<'b>) -> Result<Ref<'b, Self::Target>, LoanError> {
                let data = self.data();
                lock.read(data.at() as usize)?;
                Ok(Ref { data, at: data.at() as usize, lock })
            }
        }
        impl<'a> BorrowMut for &'a mut $t {
            fn try_borrow_mut<'b>(self, lock: &'b Lock<'b>) -> Result<RefMut<'b, Self::Target>, LoanError> {
                let data = self.data();
                lock.write(data.at() as usize)?;
                Ok(RefMut { data, at: data.at() as usize, lock })
            }
        }
    };
}
borrows_bytes!(JsArrayBuffer);
borrows_bytes!(JsBuffer);

// ----- calls

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CallKind {
    Construct,
    Call,
}
pub struct CallContext<'a, T: This> {
    args: Vec<napi_value>,
    this: napi_value,
    kind: CallKind,
    phantom: PhantomData<&'a T>,
}
pub type FunctionContext<'a> = CallContext<'a, JsObject>;
pub type MethodContext<'a, T> = CallContext<'a, T>;
impl<'a, T: This> ContextInternal for CallContext<'a, T> {}
impl<'a, T: This> Context<'a> for CallContext<'a, T> {}
impl<'a, T: This> CallContext<'a, T> {
    pub fn kind(&self) -> CallKind {
        self.kind
    }
    pub fn len(&self) -> i32 {
        self.args.len() as i32
    }
    pub fn argument_opt(&mut self, i: i32) -> Option<Handle<'a, JsValue>> {
        self.args.get(i as usize).map(|v| handle(*v))
    }
    pub fn argument<V: Value>(&mut self, i: i32) -> JsResult<'a, V> {
        match self.argument_opt(i) {
            Some(v) => v.downcast_or_throw(self),
            None => self.throw_type_error("not enough arguments"),
        }
    }
    pub fn this(&mut self) -> Handle<'a, T> {
        handle(T::as_this(self.this).to_raw())
    }
}
pub struct TaskContext<'a>(pub(crate) PhantomData<&'a ()>);
impl<'a> ContextInternal for TaskContext<'a> {}
impl<'a> Context<'a> for TaskContext<'a> {}

fn call_info<'a, T: This>(info: napi_callback_info) -> (CallContext<'a, T>, *mut c_void) {
    let (mut argc, mut this, mut data) = (0usize, null_mut(), null_mut());
    sure(unsafe { napi_get_cb_info(env(), info, &mut argc, null_mut(), &mut this, &mut data) });
    let mut args = vec![null_mut(); argc];
    sure(unsafe { napi_get_cb_info(env(), info, &mut argc, args.as_mut_ptr(), &mut this, &mut data) });
    let mut new_target = null_mut();
    sure(unsafe { napi_get_new_target(env(), info, &mut new_target) });
    let kind = if new_target.is_null() { CallKind::Call } else { CallKind::Construct };
    (CallContext { args, this, kind, phantom: PhantomData }, data)
}
/// What a panic leaves behind is an exception.
fn guarded<R, F: FnOnce() -> NeonResult<R>>(f: F) -> NeonResult<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            let text = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "unknown panic".to_string());
            throw_new(napi_create_error, &format!("internal error in Neon module: {}", text))
        }
    }
}
extern "C" fn finalize<T>(_env: napi_env, data: *mut c_void, _hint: *mut c_void) {
    drop(unsafe { Box::from_raw(data as *mut T) });
}
pub fn construct<T: Class>(
    e: napi_env, info: napi_callback_info, init: fn(CallContext<JsUndefined>) -> NeonResult<T::Internals>,
) -> napi_value {
    within(e, || {
        let r: NeonResult<napi_value> = guarded(|| {
            let (cx, _) = call_info::<JsUndefined>(info);
            if cx.kind == CallKind::Call {
                return throw_new(napi_create_type_error, &format!("Class constructor {} cannot be invoked without 'new'", T::class_name()));
            }
            let this = cx.this;
            let made = Box::into_raw(Box::new(init(cx)?));
            sure(unsafe { napi_wrap(env(), this, made as *mut c_void, finalize::<T::Internals>, null_mut(), null_mut()) });
            sure(unsafe { napi_type_tag_object(env(), this, &tag::<T>()) });
            Ok(this)
        });
        r.unwrap_or(null_mut())
    })
}
pub fn method_entry<T: Class>(
    e: napi_env, info: napi_callback_info, f: fn(CallContext<T>) -> JsResult<JsValue>,
) -> napi_value {
    within(e, || {
        let r = guarded(|| {
            let (cx, _) = call_info::<T>(info);
            if !T::check_this(cx.this) {
                return throw_new(napi_create_type_error, &format!("this is not an object of type {}", T::class_name()));
            }
            f(cx).map(|h| h.to_raw())
        });
        r.unwrap_or(null_mut())
    })
}
pub extern "C" fn function_entry<T: Value>(e: napi_env, info: napi_callback_info) -> napi_value {
    within(e, || {
        let r = guarded(|| {
            let (cx, data) = call_info::<JsObject>(info);
            let f: fn(FunctionContext) -> JsResult<T> = unsafe { std::mem::transmute(data) };
            f(cx).map(|h| h.to_raw())
        });
        r.unwrap_or(null_mut())
    })
}

pub struct ModuleContext<'a> {
    exports: napi_value,
    phantom: PhantomData<&'a ()>,
}
impl<'a> ContextInternal for ModuleContext<'a> {}
impl<'a> Context<'a> for ModuleContext<'a> {}
impl<'a> ModuleContext<'a> {
    pub fn export_function<T: Value>(&mut self, name: &str, f: fn(FunctionContext) -> JsResult<T>) -> NeonResult<()> {
        let mut v = null_mut();
        sure(unsafe {
            napi_create_function(env(), name.as_ptr() as *const c_char, name.len(), function_entry::<T>, f as *mut c_void, &mut v)
        });
        checked(unsafe { napi_set_property(env(), self.exports, raw_string(name), v) })
    }
    pub fn export_class<T: Class>(&mut self, name: &str) -> NeonResult<()> {
        let (ctor, methods) = T::entries();
        let props: Vec<napi_property_descriptor> = methods
            .iter()
            .map(|(n, f)| napi_property_descriptor {
                utf8name: std::ptr::null(),
                name: raw_string(n),
                method: Some(*f),
                getter: None,
                setter: None,
                value: null_mut(),
                attributes: 1 | 4,
                data: null_mut(),
            })
            .collect();
        let mut v = null_mut();
        let n = T::class_name();
        sure(unsafe {
            napi_define_class(env(), n.as_ptr() as *const c_char, n.len(), ctor, null_mut(), props.len(), props.as_ptr(), &mut v)
        });
        checked(unsafe { napi_set_property(env(), self.exports, raw_string(name), v) })
    }
    pub fn export_value<T: Value>(&mut self, name: &str, v: Handle<T>) -> NeonResult<()> {
        checked(unsafe { napi_set_property(env(), self.exports, raw_string(name), (*v).to_raw()) })
    }
}
pub fn module_entry(e: napi_env, exports: napi_value, init: fn(ModuleContext) -> NeonResult<()>) -> napi_value {
    within(e, || {
        let _ = guarded(|| init(ModuleContext { exports, phantom: PhantomData }));
        crate::live::export(exports);
        exports
    })
}
