//! Stand-in for the profiling attribute (a git dependency): leaves the item as it is.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn time_profiler(_attr: TokenStream, item: TokenStream) -> TokenStream {
    item
}
