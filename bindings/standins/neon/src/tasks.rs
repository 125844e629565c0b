//! Work done on another thread, its result handed to a callback on the main one.
use crate::classes::TaskContext;
use crate::sys::*;
use crate::values::*;
use std::marker::PhantomData;
use std::os::raw::c_void;
use std::ptr::null_mut;

pub trait Task: Send + Sized + 'static {
    type Output: Send + 'static;
    type Error: Send + 'static;
    type JsEvent: Value;
    fn perform(&self) -> Result<Self::Output, Self::Error>;
    fn complete<'a>(self, cx: TaskContext<'a>, result: Result<Self::Output, Self::Error>) -> JsResult<'a, Self::JsEvent>;
    fn schedule(self, callback: Handle<JsFunction>) {
        let mut cb = null_mut();
        let mut work = null_mut();
        unsafe {
            sure(napi_create_reference(env(), callback.to_raw(), 1, &mut cb));
            let job = Box::into_raw(Box::new(Job { task: Some(self), result: None, cb, work: null_mut() }));
            sure(napi_create_async_work(env(), null_mut(), raw_string("neon task"), perform::<Self>, complete::<Self>, job as *mut c_void, &mut work));
            (*job).work = work;
            sure(napi_queue_async_work(env(), work));
        }
    }
}
struct Job<T: Task> {
    task: Option<T>,
    result: Option<Result<T::Output, T::Error>>,
    cb: napi_ref,
    work: napi_async_work,
}
extern "C" fn perform<T: Task>(_e: napi_env, data: *mut c_void) {
    let job = unsafe { &mut *(data as *mut Job<T>) };
    // nothing catches a panic here
    job.result = job.task.as_ref().map(|t| t.perform());
}
extern "C" fn complete<T: Task>(e: napi_env, _status: napi_status, data: *mut c_void) {
    let mut job = unsafe { Box::from_raw(data as *mut Job<T>) };
    let mut scope = null_mut();
    unsafe { napi_open_handle_scope(e, &mut scope) };
    within(e, || unsafe {
        let mut cb = null_mut();
        sure(napi_get_reference_value(e, job.cb, &mut cb));
        let (task, result) = (job.task.take().unwrap(), job.result.take().expect("performed"));
        let args = match task.complete(TaskContext(PhantomData), result) {
            Ok(v) => {
                let mut null = null_mut();
                sure(napi_get_null(e, &mut null));
                [null, (*v).to_raw()]
            }
            Err(Throw) => [take_thrown().unwrap_or_else(raw_undefined), raw_undefined()],
        };
        let mut r = null_mut();
        // what the callback throws is left pending, so that it is uncaught
        napi_call_function(e, raw_undefined(), cb, 2, args.as_ptr(), &mut r);
        napi_delete_reference(e, job.cb);
        napi_delete_async_work(e, job.work);
    });
    unsafe { napi_close_handle_scope(e, scope) };
}
