//! The part of Node-API that is used.
#![allow(non_camel_case_types)]
use std::os::raw::{c_char, c_int, c_void};

pub type napi_env = *mut c_void;
pub type napi_value = *mut c_void;
pub type napi_status = c_int;
pub type napi_ref = *mut c_void;
pub type napi_async_work = *mut c_void;
pub type napi_callback_info = *mut c_void;
pub type napi_handle_scope = *mut c_void;
pub type napi_callback = extern "C" fn(napi_env, napi_callback_info) -> napi_value;
pub type napi_finalize = extern "C" fn(napi_env, *mut c_void, *mut c_void);

pub const OK: napi_status = 0;
// typeof
pub const UNDEFINED: c_int = 0;
pub const NULL: c_int = 1;
pub const BOOLEAN: c_int = 2;
pub const NUMBER: c_int = 3;
pub const STRING: c_int = 4;
pub const OBJECT: c_int = 6;
pub const FUNCTION: c_int = 7;
pub const EXTERNAL: c_int = 8;

#[repr(C)]
pub struct napi_type_tag {
    pub lower: u64,
    pub upper: u64,
}
#[repr(C)]
pub struct napi_property_descriptor {
    pub utf8name: *const c_char,
    pub name: napi_value,
    pub method: Option<napi_callback>,
    pub getter: Option<napi_callback>,
    pub setter: Option<napi_callback>,
    pub value: napi_value,
    pub attributes: c_int,
    pub data: *mut c_void,
}

extern "C" {
    pub fn napi_get_undefined(env: napi_env, r: *mut napi_value) -> napi_status;
    pub fn napi_get_null(env: napi_env, r: *mut napi_value) -> napi_status;
    pub fn napi_get_boolean(env: napi_env, v: bool, r: *mut napi_value) -> napi_status;
    pub fn napi_get_global(env: napi_env, r: *mut napi_value) -> napi_status;
    pub fn napi_create_double(env: napi_env, v: f64, r: *mut napi_value) -> napi_status;
    pub fn napi_create_string_utf8(env: napi_env, s: *const c_char, n: usize, r: *mut napi_value) -> napi_status;
    pub fn napi_create_object(env: napi_env, r: *mut napi_value) -> napi_status;
    pub fn napi_create_array_with_length(env: napi_env, n: usize, r: *mut napi_value) -> napi_status;
    pub fn napi_create_arraybuffer(env: napi_env, n: usize, data: *mut *mut c_void, r: *mut napi_value) -> napi_status;
    pub fn napi_get_arraybuffer_info(env: napi_env, v: napi_value, data: *mut *mut c_void, n: *mut usize) -> napi_status;
    pub fn napi_create_buffer(env: napi_env, n: usize, data: *mut *mut c_void, r: *mut napi_value) -> napi_status;
    pub fn napi_get_buffer_info(env: napi_env, v: napi_value, data: *mut *mut c_void, n: *mut usize) -> napi_status;
    pub fn napi_is_arraybuffer(env: napi_env, v: napi_value, r: *mut bool) -> napi_status;
    pub fn napi_is_buffer(env: napi_env, v: napi_value, r: *mut bool) -> napi_status;
    pub fn napi_is_array(env: napi_env, v: napi_value, r: *mut bool) -> napi_status;
    pub fn napi_is_error(env: napi_env, v: napi_value, r: *mut bool) -> napi_status;
    pub fn napi_typeof(env: napi_env, v: napi_value, r: *mut c_int) -> napi_status;
    pub fn napi_get_value_double(env: napi_env, v: napi_value, r: *mut f64) -> napi_status;
    pub fn napi_get_value_bool(env: napi_env, v: napi_value, r: *mut bool) -> napi_status;
    pub fn napi_get_value_string_utf8(env: napi_env, v: napi_value, buf: *mut c_char, n: usize, r: *mut usize) -> napi_status;
    pub fn napi_coerce_to_string(env: napi_env, v: napi_value, r: *mut napi_value) -> napi_status;
    pub fn napi_get_array_length(env: napi_env, v: napi_value, r: *mut u32) -> napi_status;
    pub fn napi_get_property(env: napi_env, o: napi_value, k: napi_value, r: *mut napi_value) -> napi_status;
    pub fn napi_set_property(env: napi_env, o: napi_value, k: napi_value, v: napi_value) -> napi_status;
    pub fn napi_get_element(env: napi_env, o: napi_value, i: u32, r: *mut napi_value) -> napi_status;
    pub fn napi_set_element(env: napi_env, o: napi_value, i: u32, v: napi_value) -> napi_status;
    pub fn napi_get_all_property_names(env: napi_env, o: napi_value, mode: c_int, filter: c_int, conv: c_int, r: *mut napi_value) -> napi_status;
    pub fn napi_create_function(env: napi_env, name: *const c_char, n: usize, cb: napi_callback, data: *mut c_void, r: *mut napi_value) -> napi_status;
    pub fn napi_get_cb_info(env: napi_env, info: napi_callback_info, argc: *mut usize, argv: *mut napi_value, this: *mut napi_value, data: *mut *mut c_void) -> napi_status;
    pub fn napi_get_new_target(env: napi_env, info: napi_callback_info, r: *mut napi_value) -> napi_status;
    pub fn napi_define_class(env: napi_env, name: *const c_char, n: usize, ctor: napi_callback, data: *mut c_void, count: usize, props: *const napi_property_descriptor, r: *mut napi_value) -> napi_status;
    pub fn napi_wrap(env: napi_env, o: napi_value, native: *mut c_void, fin: napi_finalize, hint: *mut c_void, r: *mut napi_ref) -> napi_status;
    pub fn napi_unwrap(env: napi_env, o: napi_value, r: *mut *mut c_void) -> napi_status;
    pub fn napi_type_tag_object(env: napi_env, o: napi_value, tag: *const napi_type_tag) -> napi_status;
    pub fn napi_check_object_type_tag(env: napi_env, o: napi_value, tag: *const napi_type_tag, r: *mut bool) -> napi_status;
    pub fn napi_throw(env: napi_env, e: napi_value) -> napi_status;
    pub fn napi_create_error(env: napi_env, code: napi_value, msg: napi_value, r: *mut napi_value) -> napi_status;
    pub fn napi_create_type_error(env: napi_env, code: napi_value, msg: napi_value, r: *mut napi_value) -> napi_status;
    pub fn napi_create_range_error(env: napi_env, code: napi_value, msg: napi_value, r: *mut napi_value) -> napi_status;
    pub fn napi_is_exception_pending(env: napi_env, r: *mut bool) -> napi_status;
    pub fn napi_get_and_clear_last_exception(env: napi_env, r: *mut napi_value) -> napi_status;
    pub fn napi_call_function(env: napi_env, this: napi_value, f: napi_value, argc: usize, argv: *const napi_value, r: *mut napi_value) -> napi_status;
    pub fn napi_new_instance(env: napi_env, f: napi_value, argc: usize, argv: *const napi_value, r: *mut napi_value) -> napi_status;
    pub fn napi_create_reference(env: napi_env, v: napi_value, count: u32, r: *mut napi_ref) -> napi_status;
    pub fn napi_delete_reference(env: napi_env, r: napi_ref) -> napi_status;
    pub fn napi_get_reference_value(env: napi_env, r: napi_ref, v: *mut napi_value) -> napi_status;
    pub fn napi_open_handle_scope(env: napi_env, r: *mut napi_handle_scope) -> napi_status;
    pub fn napi_close_handle_scope(env: napi_env, s: napi_handle_scope) -> napi_status;
    pub fn napi_create_async_work(env: napi_env, res: napi_value, name: napi_value, exec: extern "C" fn(napi_env, *mut c_void), done: extern "C" fn(napi_env, napi_status, *mut c_void), data: *mut c_void, r: *mut napi_async_work) -> napi_status;
    pub fn napi_queue_async_work(env: napi_env, w: napi_async_work) -> napi_status;
    pub fn napi_delete_async_work(env: napi_env, w: napi_async_work) -> napi_status;
}
