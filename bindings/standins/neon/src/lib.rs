//! Stand-in for neon 0.7 on top of Node-API: the same interface as far as the bindings use it (and
//! some more), with the same behaviour: a failing conversion throws, a later throw replaces an
//! earlier one, a panic in a call becomes an exception, a panic in a task ends the process.
#![allow(clippy::all)]
pub mod sys;
mod classes;
mod live;
mod tasks;
mod values;

pub mod result {
    pub use crate::values::{JsResult, JsResultExt, NeonResult, Throw};
}
pub mod handle {
    pub use crate::values::{DowncastError, DowncastResult, Handle, Managed};
}
pub mod object {
    pub use crate::classes::{Class, This};
    pub use crate::values::{Object, PropertyKey};
}
pub mod types {
    pub use crate::values::{
        BinaryData, BinaryViewType, JsArray, JsArrayBuffer, JsBoolean, JsBuffer, JsError, JsFunction, JsNull, JsNumber,
        JsObject, JsString, JsUndefined, JsValue, Value,
    };
}
pub mod borrow {
    pub use crate::classes::{Borrow, BorrowMut, Lock, LoanError, Ref, RefMut};
}
pub mod context {
    pub use crate::classes::{CallContext, CallKind, FunctionContext, MethodContext, ModuleContext, TaskContext};
    pub use crate::values::Context;
    pub use crate::classes::Lock;
    pub type ExecuteContext<'a> = TaskContext<'a>;
    pub type ComputeContext<'a> = TaskContext<'a>;
}
pub mod task {
    pub use crate::tasks::Task;
}
pub mod prelude {
    pub use crate::borrow::{Borrow, BorrowMut};
    pub use crate::context::{CallContext, CallKind, Context, FunctionContext, MethodContext, ModuleContext, TaskContext};
    pub use crate::handle::Handle;
    pub use crate::object::{Class, Object};
    pub use crate::result::{JsResult, JsResultExt, NeonResult};
    pub use crate::task::Task;
    pub use crate::types::{
        BinaryData, JsArray, JsArrayBuffer, JsBoolean, JsBuffer, JsError, JsFunction, JsNull, JsNumber, JsObject, JsString,
        JsUndefined, JsValue, Value,
    };
    pub use crate::{declare_types, register_module};
}
#[doc(hidden)]
pub mod support {
    pub use crate::classes::{construct, function_entry, method_entry, module_entry, Method};
}

#[macro_export]
macro_rules! register_module {
    (|$m:pat| $b:block) => { register_module!($m, $b); };
    ($m:pat, $b:block) => {
        #[no_mangle]
        pub extern "C" fn napi_register_module_v1(
            env: $crate::sys::napi_env,
            exports: $crate::sys::napi_value,
        ) -> $crate::sys::napi_value {
            fn init($m: $crate::context::ModuleContext) -> $crate::result::NeonResult<()> $b
            $crate::support::module_entry(env, exports, init)
        }
    };
}

#[macro_export]
macro_rules! declare_types {
    {} => {};
    {
        $(#[$attr:meta])* pub class $cls:ident as $cname:ident for $typ:ty { $($body:tt)* }
        $($rest:tt)*
    } => {
        $crate::declare_types!{ @class [pub] $cls $cname [$typ] $($body)* }
        $crate::declare_types!{ $($rest)* }
    };
    {
        $(#[$attr:meta])* class $cls:ident as $cname:ident for $typ:ty { $($body:tt)* }
        $($rest:tt)*
    } => {
        $crate::declare_types!{ @class [] $cls $cname [$typ] $($body)* }
        $crate::declare_types!{ $($rest)* }
    };
    { $(#[$attr:meta])* pub class $cls:ident for $typ:ty { $($body:tt)* } $($rest:tt)* } => {
        $crate::declare_types!{ @class [pub] $cls $cls [$typ] $($body)* }
        $crate::declare_types!{ $($rest)* }
    };
    {
        @class [$($vis:tt)*] $cls:ident $cname:ident [$typ:ty]
        init($ic:pat) $ib:block
        $( method $m:ident($mc:pat) $mb:block )*
    } => {
        #[repr(C)]
        #[derive(Clone, Copy)]
        $($vis)* struct $cls($crate::sys::napi_value);
        impl $crate::handle::Managed for $cls {
            fn to_raw(self) -> $crate::sys::napi_value { self.0 }
            fn from_raw(v: $crate::sys::napi_value) -> Self { $cls(v) }
        }
        impl $crate::types::Value for $cls {
            fn name() -> String { stringify!($cname).to_string() }
            fn is_typeof(v: $crate::sys::napi_value) -> bool { <$cls as $crate::object::Class>::has_instance(v) }
        }
        impl $crate::object::Object for $cls {}
        impl $crate::object::This for $cls {
            fn check_this(v: $crate::sys::napi_value) -> bool { <$cls as $crate::object::Class>::has_instance(v) }
            fn as_this(v: $crate::sys::napi_value) -> Self { $cls(v) }
        }
        impl $crate::object::Class for $cls {
            type Internals = $typ;
            fn class_name() -> &'static str { stringify!($cname) }
            fn entries() -> ($crate::sys::napi_callback, Vec<$crate::support::Method>) {
                #[allow(unused_mut)]
                fn init($ic: $crate::context::CallContext<$crate::types::JsUndefined>) -> $crate::result::NeonResult<$typ> $ib
                extern "C" fn constructor(env: $crate::sys::napi_env, info: $crate::sys::napi_callback_info) -> $crate::sys::napi_value {
                    $crate::support::construct::<$cls>(env, info, init)
                }
                #[allow(unused_mut)]
                let mut methods: Vec<$crate::support::Method> = Vec::new();
                $({
                    #[allow(unused_mut, non_snake_case)]
                    fn $m($mc: $crate::context::CallContext<$cls>) -> $crate::result::JsResult<$crate::types::JsValue> $mb
                    extern "C" fn entry(env: $crate::sys::napi_env, info: $crate::sys::napi_callback_info) -> $crate::sys::napi_value {
                        $crate::support::method_entry::<$cls>(env, info, $m)
                    }
                    methods.push((stringify!($m), entry));
                })*
                (constructor, methods)
            }
        }
    };
}
