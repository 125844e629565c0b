//! Values, handles, conversions and exceptions.
use crate::classes::Lock;
use crate::sys::*;
use std::cell::Cell;
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};
use std::os::raw::{c_char, c_void};
use std::ptr::null_mut;

thread_local! {
    static ENV: Cell<napi_env> = Cell::new(null_mut());
    static THROWN: Cell<napi_value> = Cell::new(null_mut());
}
pub(crate) fn env() -> napi_env {
    ENV.with(|e| e.get())
}
/// Run something called from JavaScript; afterwards, throw what it threw.
pub(crate) fn within<R, F: FnOnce() -> R>(e: napi_env, f: F) -> R {
    let outer = (ENV.with(|c| c.replace(e)), THROWN.with(|c| c.replace(null_mut())));
    let r = f();
    let thrown = THROWN.with(|c| c.replace(outer.1));
    if !thrown.is_null() {
        unsafe { napi_throw(e, thrown) };
    }
    ENV.with(|c| c.set(outer.0));
    r
}
pub(crate) fn set_thrown(v: napi_value) {
    THROWN.with(|c| c.set(v));
}
pub(crate) fn take_thrown() -> Option<napi_value> {
    let v = THROWN.with(|c| c.replace(null_mut()));
    if v.is_null() { None } else { Some(v) }
}

#[derive(Debug)]
pub struct Throw;
impl fmt::Display for Throw {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("JavaScript Error")
    }
}
impl Error for Throw {}
pub type NeonResult<T> = Result<T, Throw>;
pub type JsResult<'b, T> = NeonResult<Handle<'b, T>>;

/// A call into the engine that may run JavaScript, and so may throw.
pub(crate) fn checked(status: napi_status) -> NeonResult<()> {
    if status == OK {
        return Ok(());
    }
    let mut pending = false;
    let mut v = null_mut();
    unsafe {
        napi_is_exception_pending(env(), &mut pending);
        if pending && napi_get_and_clear_last_exception(env(), &mut v) == OK {
            set_thrown(v);
            return Err(Throw);
        }
    }
    set_thrown(make_error(napi_create_type_error, &format!("engine call failed with status {}", status)));
    Err(Throw)
}
/// A call that cannot fail for a reason in the program under test.
pub(crate) fn sure(status: napi_status) {
    assert!(status == OK, "engine call failed with status {}", status);
}
pub(crate) fn raw_string(s: &str) -> napi_value {
    let mut v = null_mut();
    sure(unsafe { napi_create_string_utf8(env(), s.as_ptr() as *const c_char, s.len(), &mut v) });
    v
}
pub(crate) fn raw_undefined() -> napi_value {
    let mut v = null_mut();
    sure(unsafe { napi_get_undefined(env(), &mut v) });
    v
}
type MakeError = unsafe extern "C" fn(napi_env, napi_value, napi_value, *mut napi_value) -> napi_status;
pub(crate) fn make_error(kind: MakeError, msg: &str) -> napi_value {
    let mut v = null_mut();
    sure(unsafe { kind(env(), null_mut(), raw_string(msg), &mut v) });
    v
}
pub(crate) fn throw_new<T>(kind: MakeError, msg: &str) -> NeonResult<T> {
    set_thrown(make_error(kind, msg));
    Err(Throw)
}
pub(crate) fn raw_typeof(v: napi_value) -> i32 {
    let mut t = 0;
    sure(unsafe { napi_typeof(env(), v, &mut t) });
    t
}

pub trait Managed: Copy {
    fn to_raw(self) -> napi_value;
    fn from_raw(v: napi_value) -> Self;
}

#[repr(C)]
#[derive(Debug)]
pub struct Handle<'a, T: Managed + 'a> {
    value: T,
    phantom: PhantomData<&'a T>,
}
impl<'a, T: Managed> Clone for Handle<'a, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'a, T: Managed> Copy for Handle<'a, T> {}
impl<'a, T: Managed> Deref for Handle<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.value
    }
}
impl<'a, T: Managed> DerefMut for Handle<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.value
    }
}
pub(crate) fn handle<'a, T: Managed>(v: napi_value) -> Handle<'a, T> {
    Handle { value: T::from_raw(v), phantom: PhantomData }
}

pub struct DowncastError<F, T> {
    phantom: PhantomData<(F, T)>,
    text: String,
}
impl<F, T> fmt::Debug for DowncastError<F, T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.text)
    }
}
impl<F, T> fmt::Display for DowncastError<F, T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.text)
    }
}
impl<F, T> Error for DowncastError<F, T> {}
pub type DowncastResult<'a, F, T> = Result<Handle<'a, T>, DowncastError<F, T>>;

pub trait JsResultExt<'a, V: Value> {
    fn or_throw<'b, C: Context<'b>>(self, cx: &mut C) -> JsResult<'a, V>;
}
impl<'a, F: Value, T: Value> JsResultExt<'a, T> for DowncastResult<'a, F, T> {
    fn or_throw<'b, C: Context<'b>>(self, cx: &mut C) -> JsResult<'a, T> {
        match self {
            Ok(v) => Ok(v),
            Err(e) => cx.throw_type_error(&e.text),
        }
    }
}

pub trait SuperType<T> {
    fn upcast_internal(v: T) -> Self;
}
impl<T: Value> SuperType<T> for JsValue {
    fn upcast_internal(v: T) -> JsValue {
        JsValue(v.to_raw())
    }
}
impl<T: Object> SuperType<T> for JsObject {
    fn upcast_internal(v: T) -> JsObject {
        JsObject(v.to_raw())
    }
}

impl<'a, T: Value> Handle<'a, T> {
    pub fn upcast<U: Value + SuperType<T>>(&self) -> Handle<'a, U> {
        Handle { value: U::upcast_internal(self.value), phantom: PhantomData }
    }
    pub fn is_a<U: Value>(&self) -> bool {
        U::is_typeof(self.value.to_raw())
    }
    pub fn downcast<U: Value>(&self) -> DowncastResult<'a, T, U> {
        if self.is_a::<U>() {
            Ok(handle(self.value.to_raw()))
        } else {
            Err(DowncastError { phantom: PhantomData, text: format!("failed downcast to {}", U::name()) })
        }
    }
    pub fn downcast_or_throw<'b, U: Value, C: Context<'b>>(&self, cx: &mut C) -> JsResult<'a, U> {
        self.downcast().or_throw(cx)
    }
}

pub trait Value: Managed {
    fn name() -> String;
    fn is_typeof(v: napi_value) -> bool;
    fn to_string<'a, C: Context<'a>>(self, _cx: &mut C) -> JsResult<'a, JsString> {
        let mut s = null_mut();
        checked(unsafe { napi_coerce_to_string(env(), self.to_raw(), &mut s) })?;
        Ok(handle(s))
    }
    fn as_value<'a, C: Context<'a>>(self, _cx: &mut C) -> Handle<'a, JsValue> {
        handle(self.to_raw())
    }
}

pub trait PropertyKey {
    fn get_from(self, o: napi_value) -> NeonResult<napi_value>;
    fn set_in(self, o: napi_value, v: napi_value) -> NeonResult<()>;
}
fn get_by(o: napi_value, k: napi_value) -> NeonResult<napi_value> {
    let mut v = null_mut();
    checked(unsafe { napi_get_property(env(), o, k, &mut v) })?;
    Ok(v)
}
impl PropertyKey for u32 {
    fn get_from(self, o: napi_value) -> NeonResult<napi_value> {
        let mut v = null_mut();
        checked(unsafe { napi_get_element(env(), o, self, &mut v) })?;
        Ok(v)
    }
    fn set_in(self, o: napi_value, v: napi_value) -> NeonResult<()> {
        checked(unsafe { napi_set_element(env(), o, self, v) })
    }
}
impl<'a, K: Value> PropertyKey for Handle<'a, K> {
    fn get_from(self, o: napi_value) -> NeonResult<napi_value> {
        get_by(o, self.value.to_raw())
    }
    fn set_in(self, o: napi_value, v: napi_value) -> NeonResult<()> {
        checked(unsafe { napi_set_property(env(), o, self.value.to_raw(), v) })
    }
}
impl<'a> PropertyKey for &'a str {
    fn get_from(self, o: napi_value) -> NeonResult<napi_value> {
        get_by(o, raw_string(self))
    }
    fn set_in(self, o: napi_value, v: napi_value) -> NeonResult<()> {
        checked(unsafe { napi_set_property(env(), o, raw_string(self), v) })
    }
}

pub trait Object: Value {
    fn get<'a, C: Context<'a>, K: PropertyKey>(self, _cx: &mut C, key: K) -> NeonResult<Handle<'a, JsValue>> {
        key.get_from(self.to_raw()).map(handle)
    }
    fn set<'a, C: Context<'a>, K: PropertyKey, W: Value>(self, _cx: &mut C, key: K, val: Handle<W>) -> NeonResult<bool> {
        key.set_in(self.to_raw(), val.value.to_raw()).map(|_| true)
    }
    fn get_own_property_names<'a, C: Context<'a>>(self, _cx: &mut C) -> JsResult<'a, JsArray> {
        let mut v = null_mut();
        // own enumerable strings, numbers among them
        checked(unsafe { napi_get_all_property_names(env(), self.to_raw(), 1, 2 | 16, 1, &mut v) })?;
        Ok(handle(v))
    }
}

macro_rules! js_type {
    ($t:ident, $name:literal, $v:ident => $is:expr) => {
        #[repr(C)]
        #[derive(Clone, Copy, Debug)]
        pub struct $t(pub(crate) napi_value);
        impl Managed for $t {
            fn to_raw(self) -> napi_value {
                self.0
            }
            fn from_raw(v: napi_value) -> Self {
                $t(v)
            }
        }
        impl Value for $t {
            fn name() -> String {
                $name.to_string()
            }
            fn is_typeof($v: napi_value) -> bool {
                $is
            }
        }
    };
}
fn asks(f: unsafe extern "C" fn(napi_env, napi_value, *mut bool) -> napi_status, v: napi_value) -> bool {
    let mut r = false;
    sure(unsafe { f(env(), v, &mut r) });
    r
}
js_type!(JsValue, "any", _v => true);
js_type!(JsUndefined, "undefined", v => raw_typeof(v) == UNDEFINED);
js_type!(JsNull, "null", v => raw_typeof(v) == NULL);
js_type!(JsBoolean, "boolean", v => raw_typeof(v) == BOOLEAN);
js_type!(JsNumber, "number", v => raw_typeof(v) == NUMBER);
js_type!(JsString, "string", v => raw_typeof(v) == STRING);
js_type!(JsObject, "object", v => match raw_typeof(v) { OBJECT | FUNCTION | EXTERNAL => true, _ => false });
js_type!(JsArray, "Array", v => asks(napi_is_array, v));
js_type!(JsFunction, "function", v => raw_typeof(v) == FUNCTION);
js_type!(JsError, "Error", v => asks(napi_is_error, v));
js_type!(JsArrayBuffer, "ArrayBuffer", v => asks(napi_is_arraybuffer, v));
js_type!(JsBuffer, "Buffer", v => asks(napi_is_buffer, v));
impl Object for JsObject {}
impl Object for JsArray {}
impl Object for JsFunction {}
impl Object for JsError {}
impl Object for JsArrayBuffer {}
impl Object for JsBuffer {}

impl JsUndefined {
    pub fn new<'a>() -> Handle<'a, JsUndefined> {
        handle(raw_undefined())
    }
}
impl JsNull {
    pub fn new<'a>() -> Handle<'a, JsNull> {
        let mut v = null_mut();
        sure(unsafe { napi_get_null(env(), &mut v) });
        handle(v)
    }
}
impl JsBoolean {
    pub fn new<'a, C: Context<'a>>(_cx: &mut C, b: bool) -> Handle<'a, JsBoolean> {
        let mut v = null_mut();
        sure(unsafe { napi_get_boolean(env(), b, &mut v) });
        handle(v)
    }
    pub fn value(self) -> bool {
        let mut b = false;
        sure(unsafe { napi_get_value_bool(env(), self.0, &mut b) });
        b
    }
}
impl JsNumber {
    pub fn new<'a, C: Context<'a>, T: Into<f64>>(_cx: &mut C, x: T) -> Handle<'a, JsNumber> {
        let mut v = null_mut();
        sure(unsafe { napi_create_double(env(), x.into(), &mut v) });
        handle(v)
    }
    pub fn value(self) -> f64 {
        let mut x = 0.0;
        sure(unsafe { napi_get_value_double(env(), self.0, &mut x) });
        x
    }
}
impl JsString {
    pub fn new<'a, C: Context<'a>, S: AsRef<str>>(_cx: &mut C, s: S) -> Handle<'a, JsString> {
        handle(raw_string(s.as_ref()))
    }
    pub fn try_new<'a, C: Context<'a>, S: AsRef<str>>(cx: &mut C, s: S) -> JsResult<'a, JsString> {
        Ok(JsString::new(cx, s))
    }
    /// In bytes of UTF-8.
    pub fn size(self) -> isize {
        let mut n = 0;
        sure(unsafe { napi_get_value_string_utf8(env(), self.0, null_mut(), 0, &mut n) });
        n as isize
    }
    pub fn value(self) -> String {
        let mut buf = vec![0u8; self.size() as usize + 1];
        let mut n = 0;
        sure(unsafe { napi_get_value_string_utf8(env(), self.0, buf.as_mut_ptr() as *mut c_char, buf.len(), &mut n) });
        buf.truncate(n);
        String::from_utf8_lossy(&buf).into_owned()
    }
}
impl JsObject {
    pub fn new<'a, C: Context<'a>>(_cx: &mut C) -> Handle<'a, JsObject> {
        let mut v = null_mut();
        sure(unsafe { napi_create_object(env(), &mut v) });
        handle(v)
    }
}
impl JsArray {
    pub fn new<'a, C: Context<'a>>(_cx: &mut C, len: u32) -> Handle<'a, JsArray> {
        let mut v = null_mut();
        sure(unsafe { napi_create_array_with_length(env(), len as usize, &mut v) });
        handle(v)
    }
    pub fn len(self) -> u32 {
        let mut n = 0;
        sure(unsafe { napi_get_array_length(env(), self.0, &mut n) });
        n
    }
    pub fn is_empty(self) -> bool {
        self.len() == 0
    }
    pub fn to_vec<'a, C: Context<'a>>(self, cx: &mut C) -> NeonResult<Vec<Handle<'a, JsValue>>> {
        (0..self.len()).map(|i| self.get(cx, i)).collect()
    }
}
impl JsFunction {
    pub fn call<'a, 'b, C: Context<'a>, T: Value + 'b, A: Value + 'b, I: IntoIterator<Item = Handle<'b, A>>>(
        self, _cx: &mut C, this: Handle<'b, T>, args: I,
    ) -> JsResult<'a, JsValue> {
        let argv: Vec<napi_value> = args.into_iter().map(|h| h.value.to_raw()).collect();
        let mut r = null_mut();
        checked(unsafe { napi_call_function(env(), this.value.to_raw(), self.0, argv.len(), argv.as_ptr(), &mut r) })?;
        Ok(handle(r))
    }
}

#[derive(Clone, Copy)]
pub struct BinaryData<'a> {
    base: *mut c_void,
    size: usize,
    phantom: PhantomData<&'a ()>,
}
pub trait BinaryViewType: Copy {}
impl BinaryViewType for u8 {}
impl BinaryViewType for i8 {}
impl BinaryViewType for u16 {}
impl BinaryViewType for i16 {}
impl BinaryViewType for u32 {}
impl BinaryViewType for i32 {}
impl BinaryViewType for u64 {}
impl BinaryViewType for i64 {}
impl BinaryViewType for f32 {}
impl BinaryViewType for f64 {}
impl<'a> BinaryData<'a> {
    pub(crate) fn new(base: *mut c_void, size: usize) -> Self {
        BinaryData { base, size, phantom: PhantomData }
    }
    pub(crate) fn at(&self) -> *const c_void {
        self.base
    }
    fn whole<T: BinaryViewType>(self) -> (*mut T, usize) {
        let n = self.size / std::mem::size_of::<T>();
        if n == 0 { (std::ptr::NonNull::dangling().as_ptr(), 0) } else { (self.base as *mut T, n) }
    }
    pub fn as_slice<T: BinaryViewType>(self) -> &'a [T] {
        let (p, n) = self.whole::<T>();
        unsafe { std::slice::from_raw_parts(p, n) }
    }
    pub fn as_mut_slice<T: BinaryViewType>(self) -> &'a mut [T] {
        let (p, n) = self.whole::<T>();
        unsafe { std::slice::from_raw_parts_mut(p, n) }
    }
    pub fn len(self) -> usize {
        self.size
    }
}
impl JsArrayBuffer {
    pub fn new<'a, C: Context<'a>>(_cx: &mut C, size: u32) -> JsResult<'a, JsArrayBuffer> {
        let (mut v, mut data) = (null_mut(), null_mut());
        checked(unsafe { napi_create_arraybuffer(env(), size as usize, &mut data, &mut v) })?;
        Ok(handle(v))
    }
    pub(crate) fn data<'a>(self) -> BinaryData<'a> {
        let (mut p, mut n) = (null_mut(), 0);
        sure(unsafe { napi_get_arraybuffer_info(env(), self.0, &mut p, &mut n) });
        BinaryData::new(p, n)
    }
}
impl JsBuffer {
    pub fn new<'a, C: Context<'a>>(_cx: &mut C, size: u32) -> JsResult<'a, JsBuffer> {
        let (mut v, mut data) = (null_mut(), null_mut());
        checked(unsafe { napi_create_buffer(env(), size as usize, &mut data, &mut v) })?;
        unsafe { std::ptr::write_bytes(data as *mut u8, 0, size as usize) };
        Ok(handle(v))
    }
    pub(crate) fn data<'a>(self) -> BinaryData<'a> {
        let (mut p, mut n) = (null_mut(), 0);
        sure(unsafe { napi_get_buffer_info(env(), self.0, &mut p, &mut n) });
        BinaryData::new(p, n)
    }
}
impl JsError {
    pub fn error<'a, C: Context<'a>, S: AsRef<str>>(_cx: &mut C, msg: S) -> NeonResult<Handle<'a, JsError>> {
        Ok(handle(make_error(napi_create_error, msg.as_ref())))
    }
    pub fn type_error<'a, C: Context<'a>, S: AsRef<str>>(_cx: &mut C, msg: S) -> NeonResult<Handle<'a, JsError>> {
        Ok(handle(make_error(napi_create_type_error, msg.as_ref())))
    }
    pub fn range_error<'a, C: Context<'a>, S: AsRef<str>>(_cx: &mut C, msg: S) -> NeonResult<Handle<'a, JsError>> {
        Ok(handle(make_error(napi_create_range_error, msg.as_ref())))
    }
}

pub trait ContextInternal {}
pub trait Context<'a>: ContextInternal + Sized {
    fn lock(&self) -> Lock<'_> {
        Lock::new()
    }
    fn borrow<'c, V, T, F>(&self, v: &'c Handle<V>, f: F) -> T
    where
        V: Value,
        &'c V: crate::borrow::Borrow,
        F: for<'b> FnOnce(crate::borrow::Ref<'b, <&'c V as crate::borrow::Borrow>::Target>) -> T,
    {
        use crate::borrow::Borrow;
        let lock = self.lock();
        // the lock outlives what borrows of it, which is handed on and dropped by the function
        let loan = (&**v).borrow(unsafe { &*(&lock as *const Lock<'_>) });
        f(loan)
    }
    fn borrow_mut<'c, V, T, F>(&mut self, v: &'c mut Handle<V>, f: F) -> T
    where
        V: Value,
        &'c mut V: crate::borrow::BorrowMut,
        F: for<'b> FnOnce(crate::borrow::RefMut<'b, <&'c mut V as crate::borrow::Borrow>::Target>) -> T,
    {
        use crate::borrow::BorrowMut;
        let lock = self.lock();
        let loan = (&mut **v).borrow_mut(unsafe { &*(&lock as *const Lock<'_>) });
        f(loan)
    }
    fn execute_scoped<T, F: for<'b> FnOnce(crate::context::ExecuteContext<'b>) -> T>(&self, f: F) -> T {
        f(crate::classes::TaskContext(std::marker::PhantomData))
    }
    fn compute_scoped<V: Value, F: for<'b> FnOnce(crate::context::ComputeContext<'b>) -> JsResult<'b, V>>(&self, f: F) -> JsResult<'a, V> {
        f(crate::classes::TaskContext(std::marker::PhantomData)).map(|v| handle(v.to_raw()))
    }
    fn boolean(&mut self, b: bool) -> Handle<'a, JsBoolean> {
        JsBoolean::new(self, b)
    }
    fn number<T: Into<f64>>(&mut self, x: T) -> Handle<'a, JsNumber> {
        JsNumber::new(self, x)
    }
    fn string<S: AsRef<str>>(&mut self, s: S) -> Handle<'a, JsString> {
        JsString::new(self, s)
    }
    fn null(&mut self) -> Handle<'a, JsNull> {
        JsNull::new()
    }
    fn undefined(&mut self) -> Handle<'a, JsUndefined> {
        JsUndefined::new()
    }
    fn empty_object(&mut self) -> Handle<'a, JsObject> {
        JsObject::new(self)
    }
    fn empty_array(&mut self) -> Handle<'a, JsArray> {
        JsArray::new(self, 0)
    }
    fn array_buffer(&mut self, size: u32) -> JsResult<'a, JsArrayBuffer> {
        JsArrayBuffer::new(self, size)
    }
    fn buffer(&mut self, size: u32) -> JsResult<'a, JsBuffer> {
        JsBuffer::new(self, size)
    }
    fn global(&mut self) -> Handle<'a, JsObject> {
        let mut v = null_mut();
        sure(unsafe { napi_get_global(env(), &mut v) });
        handle(v)
    }
    fn throw<T: Value, U>(&mut self, v: Handle<T>) -> NeonResult<U> {
        set_thrown(v.value.to_raw());
        Err(Throw)
    }
    fn error<S: AsRef<str>>(&mut self, msg: S) -> JsResult<'a, JsError> {
        JsError::error(self, msg)
    }
    fn throw_error<S: AsRef<str>, T>(&mut self, msg: S) -> NeonResult<T> {
        throw_new(napi_create_error, msg.as_ref())
    }
    fn throw_type_error<S: AsRef<str>, T>(&mut self, msg: S) -> NeonResult<T> {
        throw_new(napi_create_type_error, msg.as_ref())
    }
    fn throw_range_error<S: AsRef<str>, T>(&mut self, msg: S) -> NeonResult<T> {
        throw_new(napi_create_range_error, msg.as_ref())
    }
    fn try_catch<T: Managed, F: FnOnce(&mut Self) -> NeonResult<Handle<'a, T>>>(&mut self, f: F) -> Result<Handle<'a, T>, Handle<'a, JsValue>> {
        match f(self) {
            Ok(v) => Ok(v),
            Err(Throw) => Err(handle(take_thrown().unwrap_or_else(raw_undefined))),
        }
    }
}
