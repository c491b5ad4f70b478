use std::ops::ControlFlow;
pub fn map<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn map_err<T, E, O, F: FnOnce(E) -> O>(r: Result<T, E>, f: F) -> Result<T, O> { match r { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn map_or<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, d: U, f: F) -> U { match r { Ok(x) => f(x), Err(_) => d } }
pub fn map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(r: Result<T, E>, d: D, f: F) -> U { match r { Ok(x) => f(x), Err(e) => d(e) } }
pub fn and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn and<T, E, U>(r: Result<T, E>, p: Result<U, E>) -> Result<U, E> { match r { Ok(_) => p, Err(e) => Err(e) } }
pub fn or_else<T, E, G, F: FnOnce(E) -> Result<T, G>>(r: Result<T, E>, f: F) -> Result<T, G> { match r { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn ok<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
pub fn err<T, E>(r: Result<T, E>) -> Option<E> { match r { Ok(_) => None, Err(e) => Some(e) } }
pub fn is_ok<T, E>(r: &Result<T, E>) -> bool { match r { Ok(_) => true, Err(_) => false } }
pub fn is_err<T, E>(r: &Result<T, E>) -> bool { match r { Ok(_) => false, Err(_) => true } }
pub fn is_ok_and<T, E, F: FnOnce(T) -> bool>(r: Result<T, E>, f: F) -> bool { match r { Ok(x) => f(x), Err(_) => false } }
pub fn is_err_and<T, E, F: FnOnce(E) -> bool>(r: Result<T, E>, f: F) -> bool { match r { Ok(_) => false, Err(e) => f(e) } }
pub fn unwrap<T, E>(r: Result<T, E>) -> T { match r { Ok(x) => x, Err(_) => panic!() } }
pub fn expect<T, E>(r: Result<T, E>, m: &str) -> T { match r { Ok(x) => x, Err(_) => panic!() } }
pub fn unwrap_err<T, E>(r: Result<T, E>) -> E { match r { Ok(_) => panic!(), Err(e) => e } }
pub fn unwrap_or<T, E>(r: Result<T, E>, d: T) -> T { match r { Ok(x) => x, Err(_) => d } }
pub fn unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> T { match r { Ok(x) => x, Err(e) => f(e) } }
pub fn unwrap_or_default<T: Default, E>(r: Result<T, E>) -> T { match r { Ok(x) => x, Err(_) => T::default() } }
pub fn transpose<T, E>(r: Result<Option<T>, E>) -> Option<Result<T, E>> { match r { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) } }
pub fn inspect_err<T, E, F: FnOnce(&E)>(r: Result<T, E>, f: F) -> Result<T, E> { match r { Ok(x) => Ok(x), Err(e) => { f(&e); Err(e) } } }
pub fn branch<T, E>(r: Result<T, E>) -> ControlFlow<Result<std::convert::Infallible, E>, T> { match r { Ok(x) => ControlFlow::Continue(x), Err(e) => ControlFlow::Break(Err(e)) } }
pub fn from_residual<T, E, F: From<E>>(r: Result<std::convert::Infallible, E>) -> Result<T, F> { match r { Err(e) => Err(F::from(e)), Ok(_) => panic!() } }
pub fn from_output<T, E>(x: T) -> Result<T, E> { Ok(x) }
