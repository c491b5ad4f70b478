use std::ops::ControlFlow;
pub fn map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> { match o { Some(_) => p, None => None } }
pub fn or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => p } }
pub fn or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn xor<T>(o: Option<T>, p: Option<T>) -> Option<T> { match (o, p) { (Some(x), None) => Some(x), (None, Some(x)) => Some(x), _ => None } }
pub fn filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
pub fn ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => panic!() } }
pub fn expect<T>(o: Option<T>, m: &str) -> T { match o { Some(x) => x, None => panic!() } }
pub fn unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn unwrap_or_default<T: Default>(o: Option<T>) -> T { match o { Some(x) => x, None => T::default() } }
pub unsafe fn unwrap_unchecked<T>(o: Option<T>) -> T { match o { Some(x) => x, None => panic!() } }
pub fn is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn take<T>(o: &mut Option<T>) -> Option<T> { let r = crate::prim::take(o); *o = None; r }
pub fn replace<T>(o: &mut Option<T>, v: T) -> Option<T> { let r = crate::prim::take(o); *o = Some(v); r }
pub fn insert<T>(o: &mut Option<T>, v: T) -> &mut T { *o = Some(v); match o { Some(x) => x, None => panic!() } }
pub fn get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T { if let None = o { *o = Some(f()); } match o { Some(x) => x, None => panic!() } }
pub fn flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> { match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
pub fn zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> { match o { Some(a) => match p { Some(b) => Some((a, b)), None => None }, None => None } }
pub fn inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => { f(&x); Some(x) } None => None } }
pub fn branch<T>(o: Option<T>) -> ControlFlow<Option<std::convert::Infallible>, T> { match o { Some(x) => ControlFlow::Continue(x), None => ControlFlow::Break(None) } }
pub fn from_residual<T>(_r: Option<std::convert::Infallible>) -> Option<T> { None }
pub fn from_output<T>(x: T) -> Option<T> { Some(x) }
