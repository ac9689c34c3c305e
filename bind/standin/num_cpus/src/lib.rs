pub fn get() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1)
}
pub fn get_physical() -> usize {
    get()
}
