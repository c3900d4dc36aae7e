//! Callee contracts: a registered stub of the same type stands in for a function body.
use std::cell::RefCell;
use std::collections::HashMap;
thread_local! {
    static HOOKS: RefCell<HashMap<&'static str, (usize, &'static str)>> = RefCell::new(HashMap::new());
    static ANY: std::cell::Cell<bool> = std::cell::Cell::new(false);
    static CALLS: RefCell<HashMap<&'static str, usize>> = RefCell::new(HashMap::new());
}
/// Used by extracted code at the start of a hookable function.
pub fn get<F: Copy>(name: &'static str) -> Option<F> {
    if !ANY.with(|a| a.get()) {
        return None;
    }
    HOOKS.with(|h| {
        h.borrow().get(name).and_then(|(p, t)| {
            if *t != std::any::type_name::<F>() {
                if std::env::var_os("HOOK_DEBUG").is_some() { eprintln!("{} {} vs {}", name, t, std::any::type_name::<F>()); }
                return None;
            }
            assert_eq!(std::mem::size_of::<F>(), std::mem::size_of::<usize>());
            CALLS.with(|c| *c.borrow_mut().entry(name).or_insert(0) += 1);
            Some(unsafe { std::mem::transmute_copy::<usize, F>(p) })
        })
    })
}
/// Registers a stub; `F` must be a function pointer type.
pub fn set<F: Copy>(name: &'static str, f: F) {
    assert_eq!(std::mem::size_of::<F>(), std::mem::size_of::<usize>());
    let p = unsafe { std::mem::transmute_copy::<F, usize>(&f) };
    HOOKS.with(|h| h.borrow_mut().insert(name, (p, std::any::type_name::<F>())));
    ANY.with(|a| a.set(true));
}
pub fn clear() {
    HOOKS.with(|h| h.borrow_mut().clear());
    CALLS.with(|h| h.borrow_mut().clear());
    ANY.with(|a| a.set(false));
}
pub fn calls(name: &str) -> usize {
    CALLS.with(|c| c.borrow().get(name).copied().unwrap_or(0))
}
