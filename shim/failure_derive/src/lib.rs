//! `#[derive(Fail)]` (the part of failure_derive 0.1 the library uses).
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_derive(Fail, attributes(fail, cause, backtrace))]
pub fn derive_fail(input: TokenStream) -> TokenStream {
    let mut it = input.into_iter();
    while let Some(t) = it.next() {
        if let TokenTree::Ident(i) = &t {
            let s = i.to_string();
            if s == "enum" || s == "struct" {
                let name = match it.next() { Some(TokenTree::Ident(n)) => n.to_string(), _ => panic!("derive(Fail): no name") };
                return format!(
                    "impl ::failure::Fail for {n} {{}} impl ::std::fmt::Display for {n} {{ fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ ::std::fmt::Debug::fmt(self, f) }} }}",
                    n = name).parse().unwrap();
            }
        }
    }
    panic!("derive(Fail): neither enum nor struct")
}
