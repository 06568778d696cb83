#[cfg(not(any(miri, feature = "plain_alloc")))]
#[global_allocator]
static ALLOC: mon::alloc::CheckAlloc = mon::alloc::CheckAlloc;

fn main() {
    mon::cli::main(mon::props::all)
}
