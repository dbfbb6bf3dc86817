//! Stand-in for the lock: std's, without poisoning.
#[derive(Debug, Default)]
pub struct Mutex<T>(std::sync::Mutex<T>);
pub type MutexGuard<'a, T> = std::sync::MutexGuard<'a, T>;
impl<T> Mutex<T> { pub fn new(v: T) -> Self { Mutex(std::sync::Mutex::new(v)) } pub fn lock(&self) -> MutexGuard<'_, T> { self.0.lock().unwrap_or_else(|e| e.into_inner()) } }
